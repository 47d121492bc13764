"""Nothing that happened earlier in the process changes a result: schedules of loads, solves, failures and series in one process
against the same network alone in a process that has done nothing else."""
import hashlib
import json
import os
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vlib import api, glmgen, rawgen
from vlib.common import PY, VERIF, quiet

FEATR = {"sshunt": .25}
FEATG = {"dd": 0.0}


def num(x):
    return [float(v) for v in x]


def snapshot(r):
    if r is None:
        return None
    d = {"ok": bool(r.is_success), "it": int(r.iterations), "tx": float(r.tx_percent), "v": num(r.v_final),
         "bus": sorted((str(b.bus.Bus), str(b.bus.NodeName), str(b.bus.NodePhase), float(b.V.real), float(b.V.imag)) for b in r.bus_results),
         "gen": sorted((str(g.generator.bus.Bus), float(g.P), float(g.Q)) for g in r.generator_results),
         "load": sorted((str(l.load.from_bus.NodeName), str(l.load.from_bus.NodePhase), float(l.P), float(l.Q)) for l in r.load_results)}
    return d


def make_settings(kw):
    return api.settings(**kw)


def attach(nw, task):
    if task["infeas"]:
        nw.optimization = api.load_infeasibility_analysis(nw)


def play(tasks, ops):
    """perform the operations; [(op number, what came out)] for the solves and the series"""
    out, nets, flows, kept = [], {}, {}, []
    for n, (op, k, arg) in enumerate(ops):
        t = tasks[k] if k is not None else None
        try:
            if op == "load":
                st = make_settings(t["settings"])
                nets[arg] = (api.load(t["path"], st), st)
                attach(nets[arg][0], t)
                flows.pop(arg, None)
            elif op == "solve":
                h, fresh = arg
                nw, st = nets[h]
                with quiet():
                    if h not in flows or fresh:
                        flows[h] = api.PowerFlow(nw, st)
                    kept.append((n, flows[h].execute()))
                    out.append((n, snapshot(kept[-1][1])))
            elif op == "scale":
                from logic.network.loadfactor import modify_load_factor
                h, f = arg
                modify_load_factor(nets[h][0], f, f)
            elif op == "series":
                from logic.network.timeseriesprocessor import TimeSeriesProcessor
                from logic.network.timeseriessettings import TimeSeriesSettings
                st = make_settings(t["settings"])
                nw = api.load(t["path"], st)
                with quiet():
                    res = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=t["csv"], loadfile_start=0, loadfile_end=t["hours"]),
                                              api.PowerFlow(nw, st)).execute()
                out.append((n, {str(h): snapshot(r) for h, r in res.powerflow_snapshot_results.items()}))
            elif op == "bad":
                api.solve_file(arg, api.settings(max_iters=8))
            elif op == "show":
                nw, st = nets[arg]
                with quiet():
                    r = api.PowerFlow(nw, st).execute()
                    r.display(verbose=True)
        except Exception as e:
            out.append((n, {"error": f"{type(e).__name__}: {str(e)[:200]}"}))
    out = [x for x in out if ops[x[0]][0] not in ("bad", "show")]
    first = dict(out)
    for n, r in kept:                                  # a result handed out stays what it was
        if first.get(n) and "error" not in first[n] and snapshot(r) != first[n]:
            first[n]["changed_later"] = True
    return out


def in_fork(tasks, ops):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            data = json.dumps(play(tasks, ops)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            rc = 0
        except BaseException:
            pass
        finally:
            os._exit(rc)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked run gave nothing")
    return [(n, x) for n, x in json.loads(data)]


def in_process(ctx, tasks, ops, seed):
    p = ctx.path("job.json")
    json.dump([tasks, ops], open(p, "w"))
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([PY, os.path.join(VERIF, "vlib", "checks", "C20.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise RuntimeError("separate process failed: " + r.stderr.decode()[-600:])
    return [(n, x) for n, x in json.loads(r.stdout.decode().split("RESULT ")[-1])]


def differs(a, b, tol):
    """None when the two agree, else (key, what differs)"""
    if a is None or b is None or "error" in a or "error" in b:
        return None if a == b else ("error", f"{str(a)[:300]} / {str(b)[:300]}")
    if "ok" not in a:
        if set(a) != set(b):
            return "hours", f"{sorted(a)} / {sorted(b)}"
        return next((d for d in (differs(a[h], b[h], tol) for h in a) if d), None)
    if api.erratic(a, b):
        return None
    if not a["ok"] and not b["ok"]:
        return None
    if a["ok"] != b["ok"] or a["tx"] != b["tx"]:
        return "verdict", f"success {a['ok']} ({a['tx']}%) / {b['ok']} ({b['tx']}%)"
    if len(a["v"]) != len(b["v"]):
        return "unknowns", f"{len(a['v'])} / {len(b['v'])} unknowns"
    for f, nk in (("bus", 3), ("gen", 1), ("load", 2)):
        if [x[:nk] for x in a[f]] != [x[:nk] for x in b[f]]:
            return f + "-keys", f"{[x[:nk] for x in a[f]][:5]} / {[x[:nk] for x in b[f]][:5]}"
        s = max([abs(v) for x in b[f] for v in x[nk:]] + [1.0])
        d = max([abs(p - q) for x, y in zip(a[f], b[f]) for p, q in zip(x[nk:], y[nk:])] + [0.0]) / s
        if not d <= tol:
            return f, f"{f} values differ by {d:.3e} of {s:.3g}"
    return None


def make_task(ctx, k):
    rng = ctx.rng
    t = {"infeas": rng.random() < .3, "hours": 0, "csv": None, "controlled": False}
    st = {}
    if rng.random() < .5:
        rev = rng.choice([30, 33, 34])
        case, _ = rawgen.random_case(rng, 2, 8, FEATR, rev=rev, stress=rng.choice([.3, 1.0]))
        t["path"] = ctx.write(f"t{k}.RAW", rawgen.write(case, rev))
        t["kind"] = "raw"
        t["controlled"] = bool(case["sshunts"])
        st = {"tolerance": 1e-8, "voltage_limiting": rng.random() < .2}
        t["tol"] = 1e-7
        t["feats"] = [q for q in ("xfmrs", "xfmrs3", "fshunts", "sshunts") if case[q]]
    else:
        net = glmgen.random_net(rng, 2, 7, FEATG)
        if rng.random() < .25:
            from vlib.checks import C13
            net = C13.prepare(rng, glmgen.random_net(rng, 2, 6, C13.FEAT))
            t["hours"] = rng.randint(2, 3)
            t["csv"] = C13.load_file(ctx, rng, net, t["hours"])[2]
            os.rename(t["csv"], ctx.path(f"t{k}.csv"))
            t["csv"] = ctx.path(f"t{k}.csv")
            t["infeas"] = False
        t["path"] = ctx.write(f"t{k}.glm", glmgen.write(net))
        t["kind"] = "glm"
        t["controlled"] = bool(net.caps or net.fuses or net.switches or net.regs)
        st = {"tolerance": 1e-6, "enable_line_capacitance": rng.random() < .5, "load_factor": rng.choice([None, None, .7])}
        t["tol"] = 1e-6
        t["feats"] = sorted({str(f[0] if isinstance(f, tuple) else f) for f in glmgen.features_of(net)})[:6]
    st["tx_stepping"] = rng.random() < .15 and not t["infeas"]
    st["flat_start"] = rng.random() < .15
    if rng.random() < .1:
        st["max_iters"] = rng.choice([1, 2, 3])
    t["settings"] = st
    return t


def digest(path):
    return hashlib.sha1(open(path, "rb").read()).hexdigest()


def run_case(ctx):
    rng = ctx.rng
    tasks = [make_task(ctx, k) for k in range(rng.randint(2, 4))]
    bad = []
    for k, text in enumerate(["", "this is no network file\n", "0, 100.0, 33, 0, 1, 60.0\nx\ny\n1,'A'\n0\n", "object node {\n"]):
        bad.append(ctx.write(f"bad{k}.{'glm' if k % 2 else 'RAW'}", text))
    before = {t["path"]: digest(t["path"]) for t in tasks}
    # handles: every task is loaded once or twice; every handle solved one to three times, in any order after its load
    ops, todo = [], []
    for k, t in enumerate(tasks):
        for c in range(rng.choice([1, 1, 2])):
            h = f"{k}.{c}"
            q = [("load", k, h)]
            for _ in range(rng.randint(1, 2 if t["controlled"] else 3)):
                if rng.random() < .2:
                    q.append(("scale", k, (h, rng.choice([.5, .8, 1.1]))))
                q.append(("solve", k, (h, rng.random() < .5)))
            todo.append(q)
        if t["hours"]:
            todo.append([("series", k, None)])
    if rng.random() < .4:
        todo.append([("bad", None, rng.choice(bad)) for _ in range(rng.randint(1, 2))])
    if rng.random() < .3:
        todo.append([("load", 0, "show"), ("show", 0, "show")])
    if rng.random() < .5:        # everything loaded before anything is solved
        loads = [q.pop(0) for q in todo if q[0][0] == "load"]
        rng.shuffle(loads)
        ops += loads
    while any(todo):
        q = rng.choice([q for q in todo if q])
        ops.append(q.pop(0))
    sep = ctx.index % 6 == 5
    got = in_process(ctx, tasks, ops, rng.choice([1, 2, 77, 4242])) if sep else in_fork(tasks, ops)
    ctx.count("schedules")
    ctx.count("schedules:" + ("hashed" if sep else "forked"))
    ctx.count("operations", len(ops))
    alone, nth = {}, {}
    for n, x in got:
        op, k, arg = ops[n]
        t = tasks[k]
        # the same operations on this network object alone, in a process that has done nothing else
        own = json.dumps([o for o in ops if (o[0] == "load" and o[2] == arg[0]) or (o[0] in ("scale", "solve") and o[2][0] == arg[0])]
                         if op == "solve" else [("series", k, None)])
        i = 0
        if op == "solve":
            i = nth[arg[0]] = nth.get(arg[0], -1) + 1
        own = own.replace(json.dumps(arg[0]) if op == "solve" else "\0", '"a"')
        if own not in alone:
            alone[own] = in_fork(tasks, json.loads(own))
            ctx.count("alone")
            if op == "solve" and not t["controlled"] and '"scale"' not in own:
                for y in alone[own][1:]:
                    d = differs(y[1], alone[own][0][1], t["tol"])
                    ctx.expect(not d, "repeat:" + (d or ["", ""])[0], lambda: f"solving {t['path']} again in the same process: {d[1]}")
                    ctx.count("repeats")
        if i >= len(alone[own]):
            ctx.expect(False, "missing", f"{len(alone[own])} results of {own} alone")
            continue
        want = alone[own][i][1]
        d = differs(x, want, t["tol"])
        ctx.expect(not d, f"{op}:{(d or ['', ''])[0]}",
                   lambda: f"{os.path.basename(t['path'])} {t['settings']} infeas={t['infeas']} after {ops[:n]}: {d[1]}")
        ctx.expect(not (x or {}).get("changed_later"), "result-changed", lambda: f"the result of operation {n} changed after it was returned: {ops}")
        if want and want.get("ok") or op == "series":
            ctx.count("solved")
        if x != want:
            ctx.count("not_bitwise")
        ctx.count("compared:" + op)
        ctx.state(t["kind"], t["infeas"], op, i, sep, len({o[1] for o in ops[:n]}), any(o[0] == "scale" for o in ops[:n]), tuple(t["feats"])[:3], sorted(k for k, v in t["settings"].items() if v is True))
    for p, s in before.items():
        ctx.expect(digest(p) == s, "input-changed", lambda: f"{p} was modified")
    ctx.sample(f"{len(tasks)} networks, operations {[(o, k) for o, k, _ in ops]}")


if __name__ == "__main__":
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    data = ("RESULT " + json.dumps(play(*json.load(open(sys.argv[1]))))).encode()
    while data:
        data = data[os.write(out, data):]
