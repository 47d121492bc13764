"""The command line does what its options say, and a load factor scales the loads and nothing else."""
import contextlib
import copy
import io
import os
import runpy
import subprocess
import sys

from vlib import api, glmgen, rawgen
from vlib.checks import C13
from vlib.common import REPO

MAIN = os.path.join(REPO, "src", "run_solver.py")


def run(ctx, args, sub=False):
    """(stdout, exit status) of the command; the working directory is the scratch directory"""
    if sub:
        p = subprocess.run([sys.executable, MAIN, *args], cwd=ctx.scratch, capture_output=True, text=True, timeout=300)
        return p.stdout + p.stderr, p.returncode
    out = io.StringIO()
    argv, cwd, path = sys.argv, os.getcwd(), list(sys.path)
    status = 0
    try:
        sys.argv = [MAIN, *args]
        os.chdir(ctx.scratch)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(MAIN, run_name="__main__")
            except SystemExit as e:
                status = e.code or 0
            except Exception as e:
                status = f"{type(e).__name__}: {e}"
    finally:
        sys.argv = argv
        sys.path[:] = path
        os.chdir(cwd)
    return out.getvalue(), status


def read_csv(path):
    """None if missing, 'FAILURE', or {key: (a, b)} with a list per repeated key"""
    if not os.path.isfile(path):
        return None
    lines = open(path).read().split("\n")
    if lines[0] == "FAILURE":
        return "FAILURE"
    rows = {}
    for l in lines[1:]:
        if not l or l.startswith("VIOLATED"):
            continue
        f = l.rsplit(",", 2)
        rows.setdefault(f[0], []).append((float(f[1]), float(f[2])))
    return rows


def table(res):
    v = {}
    for b in res.bus_results:
        v.setdefault(f"{b.bus.Bus},{b.bus.NodeName}:{b.bus.NodePhase}", []).append((b.V_mag, b.V_deg))
    p = {}
    for g in res.generator_results:
        p.setdefault(f"{g.generator.bus.Bus},{g.type_str}", []).append((g.P, g.Q))
    for l in res.load_results:
        p.setdefault(f"{l.load.from_bus.NodeName},PQ", []).append((l.P, l.Q))
    return v, p


def same(rows, want, tol, rel, angle=False):
    if not angle:
        z = [(0.0, 0.0)]           # a load of nothing need not be listed
        rows, want = ({**{k: z for k in (*rows, *want)}, **t} for t in (rows, want))
    if set(rows) != set(want):
        return f"rows {sorted(set(rows) ^ set(want))[:5]}"
    for k in want:
        if not angle:
            tol_k = tol * max(len(rows[k]), 1)
            (a, b), (c, d) = (tuple(sum(x) for x in zip(*t[k])) for t in (rows, want))
            if abs(a - c) > tol_k + rel * abs(c) or abs(b - d) > tol_k + rel * abs(d):
                return f"{k}: {a}, {b} written, {c:.6f}, {d:.6f} expected (sums of {len(rows[k])} rows)"
            continue
        if len(rows[k]) != len(want[k]):
            return f"{k}: {len(rows[k])} rows for {len(want[k])}"
        for (a, b), (c, d) in zip(sorted(rows[k]), sorted(want[k])):
            db = abs(b - d)
            if angle:
                db = min(db, 360 - db) * (min(1.0, abs(c)))
            if abs(a - c) > tol + rel * abs(c) or db > tol + (rel * abs(d) if not angle else 1e-4):
                return f"{k}: {a}, {b} written, {c:.6f}, {d:.6f} expected"
    return None


def check_files(ctx, what, stem, ref, power=True):
    v, p = read_csv(stem + "_voltage.csv"), read_csv(stem + "_power.csv")
    if not ctx.expect(v is not None and p is not None, f"{what}:files", lambda: f"{os.path.basename(stem)}: output files missing"):
        return
    if not ctx.expect((v == "FAILURE", p == "FAILURE") == (not ref.is_success,) * 2, f"{what}:verdict",
                      lambda: f"written as {'failure' if v == 'FAILURE' else 'success'}, the reference is_success={ref.is_success}"):
        return
    if not ref.is_success:
        ctx.count("failures_written")
        return
    wv, wp = table(ref)
    ctx.count("successes_written")
    e = same(v, wv, 6e-4, 1e-6, True)
    ctx.expect(e is None, f"{what}:voltages", lambda: f"{e}")
    if power:
        s = max([abs(g.P) + abs(g.Q) for g in ref.generator_results] + [1.0])
        e = same(p, wp, 6e-3 + 1e-5 * s, 1e-6)
        ctx.expect(e is None, f"{what}:powers", lambda: f"{e}")


def scaled_raw(case, k):
    c = copy.deepcopy(case)
    for l in c["loads"]:
        l["pl"] *= k
        l["ql"] *= k
    return c


def scaled_glm(net, k, skip=()):
    n = net.copy()
    for l in n.loads:
        for t in l["terms"]:
            if t[0] == "S":
                l["terms"][t] *= k
        if l.get("on_triplex"):
            for t in n.nodes[l["node"]]["power"]:
                if t.startswith("power_"):
                    n.nodes[l["node"]]["power"][t] *= k
    return n


def raw(ctx, rng, force=False):
    rev = rng.choice([30, 33, 34])
    case, V = rawgen.random_case(rng, 3, 8, rev=rev, features={"xf3": .1})
    ide = {b["i"]: b["ide"] for b in case["buses"]}
    # machines with a fixed reactive output become loads of the other sign, which a load factor scales as well
    fixed = [g for g in case["gens"] if g["stat"] == 1 and (ide[g["i"]] not in (2, 3) or g["qt"] == g["qb"])]
    k = rng.choice([1, .3, .8, 1.1, 1.3, 0, -.4, 6])
    if force:
        k = 1.3
    elif k != 1 and fixed:
        case["gens"] = [g for g in case["gens"] if g not in fixed]
        fixed = []
        for b in case["buses"]:
            if b["ide"] == 2 and not any(g["i"] == b["i"] and g["stat"] == 1 for g in case["gens"]):
                b["ide"] = 1
    p = ctx.write("case.RAW", rawgen.write(case, rev))
    return p, k, ctx.write("ref.RAW", rawgen.write(scaled_raw(case, k), rev)), bool(fixed) and k != 1


def run_case(ctx):
    rng = ctx.rng
    force = ctx.index % 30 == 0
    three, fixed = not force and rng.random() < .6, False
    args, rows, cols = [], None, None
    opts = set()
    if three:
        net = C13.prepare(rng, glmgen.random_net(rng, 3, 7, dict(C13.FEAT, delta_load=.15)))
        k = rng.choice([1, 1, .5, 1.2, .1, 0, -.3])
        p = ctx.write("feeder.glm", glmgen.write(net))
        if rng.random() < .4:
            hours = rng.randint(2, 4)
            cols, rows, csv = C13.load_file(ctx, rng, net, hours)
            if not cols:
                return
            k = k if k > 0 else 1.0
            a = rng.randrange(hours)
            b = rng.randint(a + 1, hours)
            args += ["--loadfile", csv, "--loadstart", str(a), "--loadend", str(b)]
            opts.add("loadfile")
    else:
        p, k, ref_path, fixed = raw(ctx, rng, force)
    if k != 1 or rng.random() < .2:
        args += ["--load_factor", str(k)] if k >= 0 else [f"--load_factor={k}"]
        opts.add("load_factor")
    inf = rng.random() < .15 and not force
    st = {}
    if inf:
        args.append("--infeasibility")
        opts.add("infeasibility")
    elif rng.random() < .2:
        args.append("--tx_stepping")
        st["tx_stepping"] = True
        opts.add("tx_stepping")
    for o in ("--verbose", "--debug"):
        if rng.random() < .2:
            args.append(o)
            opts.add(o[2:])
    stem = ctx.path(rng.choice(["o", "deep/er/o", "o.v1"]))
    bare = not fixed and rng.random() < .12
    if bare:
        opts.add("no-outputfile")
        before = set(os.listdir(ctx.scratch))
    else:
        args += ["--outputfile", stem]
    ended = [p] + args if rng.random() < .5 else args + [p]
    sub = rng.random() < .04
    out, status = run(ctx, ended, sub)
    ctx.count("runs")
    ctx.count("subprocess_runs", int(sub))
    if not ctx.expect(status == 0, "command-failed", lambda: f"{args}: {status}\n{out[-600:]}"):
        return
    if bare:
        new = set(os.listdir(ctx.scratch)) - before
        ctx.expect(not new, "wrote-without-outputfile", lambda: f"{args}: wrote {sorted(new)}")
    S = api.settings(**st)
    ref = lambda path: api.solve_file(path, S, infeasibility=inf)
    ctx.state(three, *sorted(opts))
    for o in opts:
        ctx.count("option:" + o)
    verdicts = []
    if fixed:
        r = ref(ref_path)
        if r.is_success and r.iterations <= 20 and k >= 0:
            ctx.count("fixed_machines")
            v = read_csv(stem + "_voltage.csv")
            e = same(v, table(r)[0], 6e-4, 1e-6, True) if isinstance(v, dict) else "unsuccessful"
            ctx.expect(e is None, "load-factor-scales-machines", lambda: f"load factor {k} on a case with machines of fixed reactive output: {e}")
        return
    if rows is None:
        if three:
            ref_path = ctx.write("ref.glm", glmgen.write(scaled_glm(net, k)))
        r = ref(ref_path)
        if r.is_success and r.iterations > 20:
            return
        if not bare:
            check_files(ctx, "plain", stem, r)
        verdicts.append(r.is_success)
    else:
        for h in range(a, b):
            n = C13.with_row(scaled_glm(net, 1), cols, rows[h])
            if k != 1:
                n = mixed(net, cols, rows[h], k)
            r = ref(ctx.write(f"ref{h}.glm", glmgen.write(n)))
            verdicts.append(r.is_success)
            if r.is_success and r.iterations > 20:
                return
            if not bare:
                check_files(ctx, "series", f"{stem}_{h}", r)
        ctx.expect(not os.path.exists(f"{stem}_{b}_voltage.csv") and (a == 0 or not os.path.exists(f"{stem}_{a - 1}_voltage.csv"))
                   and not os.path.exists(f"{stem}_voltage.csv"), "series:hours", lambda: "files of hours that were not asked for")
    said = [l.split(":")[1].strip() == "True" for l in out.splitlines() if l.startswith("Successful:")]
    ctx.expect(said == verdicts, "printed-verdict", lambda: f"printed {said}, expected {verdicts}")
    ctx.sample(" ".join(a if not a.startswith("/") else os.path.basename(a) for a in ended))


def mixed(net, cols, row, k):
    """a load factor scales the loads first; the hour's row then sets those it names (a zero factor loses the power factor)"""
    import cmath
    n = scaled_glm(net, k)
    by = {l["name"]: l for l in n.loads}
    old = {l["name"]: l for l in net.loads}
    for c, m in row.items():
        if c in cols:
            l, conn = by[cols[c][0]], cols[c][1]
            s = C13.base_power(old[l["name"]], conn) * k
            l["terms"][("S", conn)] = cmath.rect(1.0, cmath.phase(s)) * m if s else complex(m)
            if l.get("on_triplex"):
                n.nodes[l["node"]]["power"]["power_" + conn] = l["terms"][("S", conn)]
    return n
