"""Solve the files given and write what came out (run in a process of its own): onesolve.py OUT [--infeas] FILE..."""
import json
import os
import resource
import signal
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

lim = os.environ.get("VERIF_FSIZE")
if lim:
    # writes beyond the limit fail (or kill the process) - the result file is written by the parent through stdout
    resource.setrlimit(resource.RLIMIT_FSIZE, (int(lim), int(lim)))
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if os.environ.get("VERIF_FSIZE_KILL") else signal.SIG_IGN)
uid = os.environ.get("VERIF_UID")
if uid:
    os.setgid(int(uid))
    os.setuid(int(uid))
out = os.dup(1)
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)
os.dup2(dn, 2) if not os.environ.get("VERIF_STDERR") else None
from vlib import api

infeas = "--infeas" in sys.argv
res = []
for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
    try:
        r = api.solve_file(f, api.settings(tolerance=1e-8 if f.endswith(".RAW") else 1e-6), infeasibility=infeas)
        res.append({"ok": bool(r.is_success), "it": int(r.iterations), "v": [float(x) for x in r.v_final]})
    except BaseException as e:
        import traceback
        res.append({"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-800:]})
data = ("RESULT " + json.dumps(res) + "\n").encode()
while data:
    data = data[os.write(out, data):]
