#!/usr/bin/env python3
"""Driver of one property's check.

    check.py <ID>                      tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
    check.py <ID> --thorough           deeper
    check.py <ID> --replay <file>      re-run exactly the cases recorded in a replay file

Exit 0: held on everything explored (KNOWN-FINDING lines for listed findings).
Exit 1: a line `VIOLATION property=<ID> replay=<path>` for each distinct violation.
Exit 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = 8


def env_for(tmp):
    e = dict(os.environ)
    e.update(PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=tmp, VERIF_REPO=REPO,
             MPLBACKEND="Agg")
    return e


def read_known(prop):
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open:"):
                parts = dict(w.split("=", 1) for w in line.split()[1:3] if "=" in w)
                if parts.get("property") == prop and "key" in parts:
                    known[parts["key"]] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
    return known


def warm(kinds, tmp, scratch):
    """Build the derivative cache for this run from the code as it is now."""
    procs = []
    for k in kinds:
        procs.append((k, subprocess.Popen([PY, "-m", "vlib.warm", k, os.path.join(scratch, "warm_" + k)], cwd=VERIF,
                                          env=env_for(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = []
    for k, p in procs:
        try:
            out, _ = p.communicate(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            out = "timeout"
        if p.returncode != 0:
            bad.append((k, out[-1500:]))
    return bad


def run_workers(prop, tier, seed, total, scratch, tmp, deadline, limit, only=None, nproc=NPROC):
    procs = []
    for k in range(nproc if only is None else min(nproc, len(only))):
        out = os.path.join(scratch, f"out{k}.jsonl")
        args = [PY, "-m", "vlib.worker", prop, tier, str(seed), str(k), str(nproc), str(total), out,
                os.path.join(scratch, f"w{k}"), str(deadline), str(limit)]
        if only is not None:
            args.append(",".join(str(i) for i in only[k::min(nproc, len(only))]))
        err = open(os.path.join(scratch, f"err{k}"), "w")
        procs.append((k, out, err, subprocess.Popen(args, cwd=VERIF, env=env_for(tmp), stdout=subprocess.DEVNULL,
                                                    stderr=err)))
    results, problems = [], []
    for k, out, err, p in procs:
        try:
            p.wait(timeout=max(5, deadline + limit + 30 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            problems.append(f"worker {k} had to be killed")
        err.close()
        if os.path.exists(out):
            for line in open(out):
                try:
                    results.append(json.loads(line))
                except ValueError:
                    problems.append(f"worker {k}: truncated record")
        if p.returncode not in (0, None):
            problems.append(f"worker {k} exited with {p.returncode}: " + open(os.path.join(scratch, f"err{k}")).read()[-1500:])
    return results, problems


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        tier, seed, only = rp["tier"], rp["seed"], rp["indices"]

    sys.path.insert(0, VERIF)
    spec = importlib.import_module(f"vlib.specs").SPECS[prop]
    total = a.cases or spec[tier]
    budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    limit = spec.get("limit", {}).get(tier, 120) if isinstance(spec.get("limit"), dict) else spec.get("limit", 120)
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir="/tmp")
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp)
    code = 2
    try:
        reuse = os.environ.get("VERIF_DEV_CACHE")      # development only: a pre-filled derivative cache
        warm_bad = []
        if reuse:
            shutil.copytree(reuse, os.path.join(tmp, "combined-txds-lagrange-pickler"))
        elif spec.get("warm"):
            warm_bad = warm(spec["warm"], tmp, scratch)
        t_warm = time.time() - t0
        deadline = t0 + budget
        results, problems = run_workers(prop, tier, seed, total, scratch, tmp, deadline, limit, only)
        code = report(prop, tier, seed, spec, total, results, problems, warm_bad, t0, t_warm, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def report(prop, tier, seed, spec, total, results, problems, warm_bad, t0, t_warm, only):
    results.sort(key=lambda r: r["index"])
    counters, states, samples, viol = {}, set(), [], {}
    evals = 0
    for r in results:
        evals += r["evals"]
        states.update(r["states"])
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
        if len(samples) < 6:
            samples.extend(r["samples"][:6 - len(samples)])
        for v in r["violations"]:
            viol.setdefault(v["key"], []).append((v, r["files"]))
        if r.get("harness_error"):
            problems.append(f"case {r['index']}: {r['harness_error']}")
    for k, out in warm_bad:
        # the simplest possible network of this kind could not be solved at all
        if "/repo/src" in out or REPO + "/src" in out:
            viol.setdefault(f"warmup-crash:{k}", []).append(({"index": -1, "msg": out, "key": "warmup-crash"}, {}))
        else:
            problems.append(f"warm-up {k}: {out}")
    known = read_known(prop)
    fresh = {k: v for k, v in viol.items() if k not in known}
    seen_known = {k: v for k, v in viol.items() if k in known}

    lines = []
    rdir = os.path.join(VERIF, "evidence", "replay", prop)
    if only is None:
        shutil.rmtree(rdir, ignore_errors=True)
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    for n, (key, vs) in enumerate(sorted(fresh.items())):
        path = os.path.join(rdir, f"{'re' if only else ''}{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "key": key,
                       "indices": sorted({v["index"] for v, _ in vs if v["index"] >= 0})[:20],
                       "message": vs[0][0]["msg"], "files": vs[0][1],
                       "rerun": f"/opt/venv/bin/python check.py {prop} --replay {path}"}, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"[{prop}] {key} x{len(vs)}: {vs[0][0]['msg'][:600]}")
    for key, vs in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[key]} (x{len(vs)})")
    for l in lines:
        print(l)

    done = len(results)
    complete = done == (total if only is None else len(only))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(states), "rule": spec["rule"],
            "samples": samples or ["(none)"],
            "cases_run": done, "cases_planned": total, "all_planned_cases_run": complete,
            "observed": {k: (round(v, 12) if isinstance(v, float) else v) for k, v in sorted(counters.items())},
            "known_findings_seen": sorted(seen_known),
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        "assumptions": spec.get("assumptions", []),
    }
    ev["coverage"]["warmup_s"] = round(t_warm, 1)
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"[{prop}] tier={tier} seed={seed} cases={done}/{total} evaluations={evals} distinct={len(states)} "
          f"violations={len(fresh)} known={len(seen_known)} wall={ev['wall_s']}s")
    if fresh:
        return 1
    # a monitor that observed nothing must not pass
    need = spec.get("require", {})
    if only is None:
        for k, lo in need.items():
            have = counters.get(k, 0)
            if have < (lo if tier == "quick" else lo):
                problems.append(f"monitor observed too little: {k}={have} < {lo}")
        if done < 0.5 * total:
            problems.append(f"only {done} of {total} cases ran before the time budget ended")
    if problems:
        for p in problems[:5]:
            print(f"[{prop}] CHECK ERROR: {p[-1500:]}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
