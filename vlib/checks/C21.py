"""Diagnostics and solver aids do not change the solution, and the matrices dumped are those that were solved."""
import contextlib
import os
import re

import numpy as np
import scipy.sparse.linalg as sla

_real = sla.spsolve


class Tap:
    systems = None

    def __call__(self, A, b, *a, **k):
        x = _real(A, b, *a, **k)
        if self.systems is not None:
            self.systems.append((A.tocoo(copy=True), np.array(b, dtype=float).ravel().copy(), np.array(x, dtype=float).ravel().copy()))
        return x


T = Tap()
sla.spsolve = T


class Iterates:
    """the points the solver linearised at, one list per Newton run"""
    runs = None

    def install(self):
        from logic.nrsolver import NRSolver
        from logic.stamping.matrixstamper import MatrixStamper
        solve, stamp = getattr(NRSolver, "run_powerflow", None), getattr(MatrixStamper, "stamp_nonlinear", None)
        if solve is None or stamp is None:
            return

        def run_powerflow(this, *a, **k):
            if self.runs is not None:
                self.runs.append(([], []))
                T.systems = []
            try:
                return solve(this, *a, **k)
            finally:
                if self.runs is not None:
                    self.runs[-1][1].extend(x for _, _, x in T.systems)

        def stamp_nonlinear(this, *a, **k):
            if not self.runs:
                return stamp(this, *a, **k)
            vec = [(q, np.array(q, dtype=float)) for q in list(a) + list(k.values()) if isinstance(q, np.ndarray) and q.ndim == 1]
            out = stamp(this, *a, **k)
            read = [was for q, was in vec if np.array_equal(q, was)]      # the right-hand side is written, the point only read
            if len(read) == 1:
                self.runs[-1][0].append(read[0])
            else:
                self.runs[-1][0].append(None)
            return out

        NRSolver.run_powerflow, MatrixStamper.stamp_nonlinear = run_powerflow, stamp_nonlinear


IT = Iterates()

from vlib import api, glmgen, rawgen     # noqa: E402
from vlib.checks.C03 import judge_raw    # noqa: E402

IT.install()


def limits(ctx, what, res, runs):
    """steps of at most 1 and values within 2 for the buses; a step within those limits, and everything else, as solved"""
    nodes = sorted({i for b in res.network.buses for i in (b.node_Vr, b.node_Vi)}) if hasattr(res, "network") else sorted({i for b in res.bus_results for i in (b.bus.node_Vr, b.bus.node_Vi)})
    for points, solved in runs:
        for v, x, w in zip(points, solved, points[1:]):
            if v is None or w is None:
                continue
            ctx.count("limited_steps")
            other = [i for i in range(len(v)) if i not in set(nodes)]
            d = np.abs(w - v)[nodes]
            if not ctx.expect(bool(np.all(d <= 1 + 1e-9)) and bool(np.all(np.abs(w[nodes]) <= 2 + 1e-9)), "limiting:exceeded",
                              lambda: f"{what}: a voltage moved by {d.max():.3f} to at most {np.abs(w[nodes]).max():.3f} in one iteration"):
                return
            free = [i for i in nodes if abs(x[i] - v[i]) <= 1 and abs(x[i]) <= 2]
            ctx.count("limited_voltages", len(nodes) - len(free))
            free += other
            if not ctx.expect(bool(np.allclose(w[free], x[free], rtol=1e-12, atol=1e-12)), "limiting:needless",
                              lambda: f"{what}: changed by the limiting although within its limits, by up to {np.abs(w - x)[free].max():.3e}"):
                return


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def run(path, infeas, kw):
    """(result, error)"""
    try:
        st = api.settings(**kw)
        saved = dict(vars(st))
        r = api.solve_file(path, st, infeas)
        return r, (None if vars(st) == saved else f"settings changed by the run: {vars(st)} from {saved}")
    except Exception as e:
        return None, f"{type(e).__name__}: {str(e)[:160]}"


def brief(r):
    return {"ok": bool(r.is_success), "it": int(r.iterations)}


def same(ctx, key, what, a, ea, b, eb, tol=1e-9, iters=True, v=True):
    """the run `a` with the option against the run `b` without"""
    if not ctx.expect(ea == eb, key + ":error", lambda: f"{what}: {ea} / without: {eb}"):
        return False
    if a is None or b is None:
        return False
    if not ctx.expect(a.is_success == b.is_success and a.tx_percent == b.tx_percent, key + ":verdict",
                      lambda: f"{what}: success {a.is_success} ({a.tx_percent}) / without: {b.is_success} ({b.tx_percent})"):
        return False
    if iters:
        ctx.expect(a.iterations == b.iterations, key + ":iterations", lambda: f"{what}: {a.iterations} iterations / without: {b.iterations}")
    x, y = np.array(a.v_final, dtype=float), np.array(b.v_final, dtype=float)
    if not ctx.expect(len(x) == len(y), key + ":unknowns", lambda: f"{what}: {len(x)} unknowns / without: {len(y)}"):
        return False
    if v:
        ok = np.array_equal(x, y, equal_nan=True) or bool(np.all(np.abs(x - y) <= tol * np.maximum(1.0, np.abs(y))))
        d = float(np.nanmax(np.abs(x - y) / np.maximum(1.0, np.abs(y)), initial=0.0))
        ctx.peak("dv:" + key, d if b.is_success else 0)
        ctx.expect(ok or not b.is_success, key + ":solution", lambda: f"{what}: solution differs by {d:.3e}")
    ctx.count("same:" + key)
    return True


def close(ctx, key, what, a, b, tol):
    """two successes of the same network: the same voltages, or another solution of the same equations (judged by the caller)"""
    va = {x.bus.Bus: x.V for x in a.bus_results}
    vb = {x.bus.Bus: x.V for x in b.bus_results}
    if not ctx.expect(set(va) == set(vb), key + ":buses", lambda: f"{what}: {sorted(set(va) ^ set(vb))[:5]}"):
        return
    d = max((abs(va[k] - vb[k]) / max(1.0, abs(vb[k])) for k in va), default=0)
    ctx.count(("close:" if d < tol else "other_solution:") + key)


def inactive(case, systems, ref):
    """no step of the run without limiting came near the limits (steps of 1, values of 2)"""
    if case["xfmrs3"]:
        return False
    start = {b["i"]: b for b in case["buses"]}
    prev = {}
    for b in ref.bus_results:
        f = start[b.bus.Bus]
        prev[b.bus.node_Vr] = f["vm"] * np.cos(np.radians(f["va"]))
        prev[b.bus.node_Vi] = f["vm"] * np.sin(np.radians(f["va"]))
    for A, rhs, x in systems:
        if any(not (abs(x[i] - v) < .8 and abs(x[i]) < 1.8) for i, v in prev.items()):
            return False
        prev = {i: x[i] for i in prev}
    return True


def parse(path):
    out = {}
    with open(path, newline="") as f:
        for l in f.read().replace("\n", "\r").split("\r"):
            if l.strip():
                k, v = l.split(": ", 1)
                out[tuple(int(x) for x in k.split(","))] = v
    return out


def agree(d, want):
    """dumped entries {index: text} against the numbers: nothing missing, nothing extra, five digits"""
    got = {k: float(v) for k, v in d.items()}
    bad = [k for k in set(got) ^ set(want)]
    bad += [k for k in got if k in want and abs(got[k] - want[k]) > 6e-5 * abs(want[k])]
    return bad


def dumps(ctx, d, what, res, systems):
    names = sorted(os.listdir(os.path.join(d, "dumps"))) if os.path.isdir(os.path.join(d, "dumps")) else []
    n = res.iterations + 1
    want = sorted([f"{q}{i + 1}_output.txt" for q in "YJ" for i in range(n)] + ["v_output.txt", "lookup.txt"])
    if not ctx.expect(names == want, "dump:files", lambda: f"{what}: files {names}, {n} systems solved"):
        return
    if not ctx.expect(len(systems) == n, "dump:systems", lambda: f"{what}: {len(systems)} systems solved in {n} iterations"):
        return
    for i, (A, b, x) in enumerate(systems):
        A.sum_duplicates()
        bad = agree(parse(os.path.join(d, "dumps", f"Y{i + 1}_output.txt")), {(int(r), int(c)): v for r, c, v in zip(A.row, A.col, A.data) if v})
        ctx.expect(not bad, "dump:matrix", lambda: f"{what}: iteration {i}, entries {bad[:4]}")
        bad = agree(parse(os.path.join(d, "dumps", f"J{i + 1}_output.txt")), {(int(k),): v for k, v in enumerate(b) if v})
        ctx.expect(not bad, "dump:rhs", lambda: f"{what}: iteration {i}, entries {bad[:4]}")
        ctx.count("dumped_systems")
    bad = agree(parse(os.path.join(d, "dumps", "v_output.txt")), {(int(k),): v for k, v in enumerate(np.array(res.v_final, dtype=float)) if v})
    ctx.expect(not bad, "dump:solution", lambda: f"{what}: entries {bad[:4]}")
    # the lookup names every voltage of every bus
    look = {k[0]: v for k, v in parse(os.path.join(d, "dumps", "lookup.txt")).items()}
    v = np.array(res.v_final, dtype=float)
    for b in res.bus_results:
        for i, q in ((b.bus.node_Vr, "Vr"), (b.bus.node_Vi, "Vi")):
            t = look.get(i, "")
            ctx.expect(str(b.bus.NodeName) in t and re.search(r"(?i)v.?" + q[1], t), "dump:lookup", lambda: f"{what}: unknown {i} ({q} of {b.bus.NodeName}) is called {t!r}")
    ctx.count("dumps")


def run_case(ctx):
    rng = ctx.rng
    three = ctx.index % 2 == 1
    infeas = rng.random() < .25
    if three:
        net = glmgen.random_net(rng, 2, 7, {"dd": 0.0})
        if rng.random() < .15:
            glmgen.scale_loads(net, rng.choice([10, 60]))
        p = ctx.write("net.glm", glmgen.write(net))
        base = dict(tolerance=1e-6, enable_line_capacitance=bool(rng.random() < .5), device_control=rng.random() < .7)
        feats = sorted({str(f[0] if isinstance(f, tuple) else f) for f in glmgen.features_of(net)})
        moving = bool(net.caps or net.fuses or net.regs) and base["device_control"]
    else:
        rev = rng.choice([30, 33, 34])
        case, V = rawgen.random_case(rng, 3, 9, rev=rev, stress=rng.choice([.3, .3, 1.0, 3.0]))
        p = ctx.write("case.RAW", rawgen.write(case, rev))
        base = dict(tolerance=1e-8)
        feats = [q for q in ("xfmrs", "xfmrs3", "fshunts", "sshunts") if case[q]]
        moving = False
    base["max_iters"] = 48
    T.systems = [] if not three and not infeas else None
    ref, e = run(p, infeas, base)
    plain, T.systems = T.systems, None
    if ref is None:
        ctx.count("raised")
    what = f"{'feeder' if three else 'case'} {feats} infeas={infeas}"
    ctx.count("networks")
    done = []
    opts = ["debug", "dump", "iters", "tolerance", "limiting", "flat"]
    for o in opts:
        if rng.random() < (.75 if o == "dump" else .3):
            continue
        if o == "dump" and ref is not None and len(ref.v_final) ** 2 * (ref.iterations + 1) > 4e5:
            continue                    # the matrices are written entry by entry: minutes
        done.append(o)
        if o == "debug":
            r, er = run(p, infeas, dict(base, debug=True))
            same(ctx, "debug", what, r, er, ref, e)
        elif o == "dump":
            d = ctx.path("cwd")
            T.systems = [] if not moving else None
            with inside(d):
                r, er = run(p, infeas, dict(base, dump_matrix=True))
            sys_, T.systems = T.systems, None
            if same(ctx, "dump", what, r, er, ref, e) and not moving:
                dumps(ctx, d, what, r, sys_)
            for f in [os.path.join(d, "dumps", f) for f in (os.listdir(os.path.join(d, "dumps")) if os.path.isdir(os.path.join(d, "dumps")) else [])]:
                os.remove(f)
        elif o == "iters" and ref is not None and ref.is_success:
            n = ref.iterations + 1
            k = rng.choice([n, n + 1, n + 30, 49]) if not moving else rng.choice([60, 90])
            r, er = run(p, infeas, dict(base, max_iters=k))
            same(ctx, "more-iterations", f"{what}, limit {k} after {n} used", r, er, ref, e)
            if n > 1 and not moving:
                r, er = run(p, infeas, dict(base, max_iters=n - 1))
                if ctx.expect(r is not None, "fewer-iterations:error", f"{what}: {er}"):
                    ctx.expect(not r.is_success, "fewer-iterations:verdict", lambda: f"{what}: a success with {n - 1} iterations, {n} needed without the limit")
                ctx.count("fewer")
        elif o == "tolerance" and ref is not None and ref.is_success and not infeas:
            t = base["tolerance"] * rng.choice([10, 1e3, 1e5])
            r, er = run(p, infeas, dict(base, tolerance=t))
            if ctx.expect(r is not None and r.is_success, "looser:verdict", lambda: f"{what}: solved at {base['tolerance']}, not at {t} ({er})") and not moving:
                ctx.expect(r.iterations <= ref.iterations, "looser:iterations", lambda: f"{what}: {r.iterations} iterations at {t}, {ref.iterations} at {base['tolerance']}")
                ctx.count("looser")
        elif o in ("limiting", "flat") and not infeas:
            IT.runs = [] if o == "limiting" and not three else None
            r, er = run(p, infeas, dict(base, **({"voltage_limiting": True} if o == "limiting" else {"flat_start": True})))
            seen, IT.runs, T.systems = IT.runs, None, None
            if seen and r is not None:
                limits(ctx, what, r, seen)
            if three:
                # neither has a meaning for feeders
                same(ctx, o, what, r, er, ref, e)
                continue
            if o == "limiting" and ref is not None and inactive(case, plain, ref):
                same(ctx, "limiting-inactive", what, r, er, ref, e)
            if r is not None and r.is_success:
                judge_raw(ctx, case, r, base["tolerance"], f"{what}, {o}")
                if ref is not None and ref.is_success:
                    close(ctx, o, what, r, ref, 1e-6)
    ctx.state("glm" if three else "raw", infeas, ref is not None and bool(ref.is_success), tuple(done), tuple(feats)[:4])
    ctx.sample(f"{what}: {done}")
