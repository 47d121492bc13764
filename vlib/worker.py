"""Runs a share of one check's cases against the code in REPO/src; writes one JSON line per case."""
import importlib
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common
from vlib.common import Ctx, CaseTimeout, time_limit


def code_frame(tb, repo):
    """innermost frame of the traceback that is in the code under test"""
    where = None
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith(repo + os.sep):
            where = f"{os.path.relpath(fs.filename, repo)}:{fs.name}"
    return where


def run_one(mod, prop, tier, seed, index, scratch, limit):
    ctx = Ctx(prop, tier, seed, index, scratch)
    t0 = time.time()
    harness_error = None
    try:
        with time_limit(limit):
            mod.run_case(ctx)
    except CaseTimeout:
        ctx.violation("hang", f"case did not finish within {limit} s")
    except Exception as e:
        where = code_frame(e.__traceback__, common.REPO)
        if where is None:
            harness_error = traceback.format_exc()
        else:
            ctx.violation(f"exception:{type(e).__name__}",
                          f"unexpected {type(e).__name__} from {where}: {e}\n" + traceback.format_exc()[-1200:])
    r = ctx.result()
    r["wall"] = round(time.time() - t0, 3)
    if harness_error:
        r["harness_error"] = harness_error
    return r


def main():
    prop, tier, seed, k, n, total, out, scratch, deadline, limit = sys.argv[1:11]
    k, n, total, deadline, limit = int(k), int(n), int(total), float(deadline), float(limit)
    only = [int(x) for x in sys.argv[11].split(",")] if len(sys.argv) > 11 else None
    mod = importlib.import_module(f"vlib.checks.{prop}")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    with open(out, "w") as f:
        idxs = only if only is not None else range(k, total, n)
        for i in idxs:
            if time.time() > deadline:
                break
            d = os.path.join(scratch, f"case{i}")
            r = run_one(mod, prop, tier, seed, i, d, limit)
            shutil.rmtree(d, ignore_errors=True)
            f.write(json.dumps(r, default=str) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
