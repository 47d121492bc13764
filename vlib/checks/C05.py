"""Every linear system handed to the sparse solver is the exact first-order expansion of one fixed set of equations.

The monitor sits at scipy's solver entry point.  With the system of call k, Y(v) x = J(v), the mismatch the
code is driving to zero is F(v) = Y(v) v - J(v); the monitor steers the iterates through a block of points so that
F is sampled around a base point and compared with the directional derivative Y(base) d."""
import numpy as np
import scipy.sparse.linalg as sla

_real = sla.spsolve


class Monitor:
    def __init__(self):
        self.plan = None
        self.calls = []

    def __call__(self, A, b, *a, **k):
        if self.plan is None:
            return _real(A, b, *a, **k)
        A = A.tocsr() if hasattr(A, "tocsr") else A
        self.calls.append((A.copy(), np.array(b, dtype=float)))
        return self.plan(len(self.calls) - 1, A, np.asarray(b))


MON = Monitor()
sla.spsolve = MON

from vlib import api, glmgen, rawgen     # noqa: E402  (the hook must be in place before the code is imported)

H = 1e-4
DIRS = 3
LEN = 1 + 4 * DIRS + 5


def block(rng, v0, pairs):
    """points to steer through: base, then +-h, +-2h along each direction, then base again"""
    n = len(v0)
    r = np.random.default_rng(rng.randrange(1 << 30))
    mag = np.where(np.abs(v0) > 0, np.abs(v0), np.median(np.abs(v0[np.abs(v0) > 0])))
    # scale: same order as the iterate the code would have, no component left at zero
    base = v0 + mag * r.uniform(-.2, .2, n) + np.where(v0 == 0, mag * r.choice([-1, 1], n) * r.uniform(.1, .5, n), 0)
    ds = []
    for _ in range(DIRS):
        d = mag * r.uniform(.2, 1, n) * r.choice([-1, 1], n)
        if r.random() < .7:
            d[r.random(n) < r.choice([.5, .8, .9])] = 0        # sparse directions expose single terms
        ds.append(d)
    pts = [base]
    for d in ds:
        pts += [base + H * d, base - H * d, base + 2 * H * d, base - 2 * H * d]
    # a point with exact zeros in it: coefficients that were non-zero at the neighbouring points vanish here
    z = base.copy()
    z[r.random(n) < .4] = 0
    for a, b in pairs:
        if z[a] == 0 and z[b] == 0:
            z[rng.choice([a, b])] = base[a]
    pts += [base.copy(), z, pts[1].copy(), z.copy(), base.copy(), base.copy()]
    return base, ds, pts


def run_case(ctx):
    rng = ctx.rng
    k = ctx.index % 10
    three = k >= 6
    infeas = k in (2, 9)
    if three:
        net = glmgen.random_net(rng, 2, 4 if infeas else 7, features={"dd": .15})
        p = ctx.write("net.glm", glmgen.write(net, rng, {}))
        feats = sorted(glmgen.features_of(net), key=str)
    else:
        rev = rng.choice([30, 33, 34])
        case, V = rawgen.random_case(rng, 3, 5 if infeas else 8, rev=rev)
        p = ctx.write("case.RAW", rawgen.write(case, rev))
        feats = [(q, bool(case[q])) for q in ("xfmrs", "xfmrs3", "fshunts", "sshunts")]
    tx = rng.random() < .3
    if not infeas and not three:
        quadratic(ctx, rng, case, rev, V)
    st = dict(tolerance=1e-250, max_iters=LEN + 1, tx_stepping=tx, enable_line_capacitance=bool(rng.random() < .5))
    net_ = api.load(p, api.settings(**st))
    if infeas:
        net_.optimization = api.load_infeasibility_analysis(net_)
    blocks = []

    def plan(n, A, b):
        q, r = divmod(n, LEN + 1)
        if r == 0:
            x = np.linalg.lstsq(A.toarray(), b, rcond=None)[0]
            x = np.where(np.isfinite(x), x, 0.0)
            if three:
                # keep the voltages of the order of the starting point
                x = np.clip(x, -2e4, 2e4)
            blocks.append(block(rng, x, [(b.node_Vr, b.node_Vi) for b in net_.buses]))
        return blocks[q][2][r].copy()

    MON.calls, MON.plan = [], plan
    try:
        res = api.solve(net_, api.settings(**st))
    finally:
        MON.plan = None
    calls = MON.calls
    ctx.count("linear_systems", len(calls))
    what = f"{'GLM' if three else 'RAW'} network of {len(net_.buses)} buses{', infeasibility mode' if infeas else ''}"
    ctx.expect(not res.is_success, "success-without-solution", f"{what}: steered through arbitrary points, yet reported successful")
    for q, (base, ds, pts) in enumerate(blocks):
        S = calls[q * (LEN + 1):(q + 1) * (LEN + 1)]
        if len(S) < LEN + 1:
            break
        # call r + 1 of the block is built at point r
        def at(r):
            A, b = S[r + 1]
            v = pts[r]
            return A, A @ v - b, (abs(A) @ np.abs(v) + np.abs(b))
        A0, F0, mag0 = at(0)
        A1, F1, _ = at(1 + 4 * DIRS)
        ctx.count("blocks")
        ctx.count("phase_tx" if q else "phase_direct")
        ctx.expect(np.isfinite(A0.data).all() and np.isfinite(F0).all(), "not-finite", f"{what}: NaN or infinite entries in the system")
        same = abs(A0 - A1)
        dmax = same.max() if same.nnz else 0.0
        ctx.expect(dmax <= 1e-9 * max(1.0, abs(A0).max()) and np.all(np.abs(F0 - F1) <= 1e-9 * (mag0 + 1)), "history-dependent",
                   lambda: f"{what}: the system built at the same point twice differs (matrix by {dmax:.3g}, mismatch by {np.max(np.abs(F0 - F1)):.3g})")
        Az1, Fz1, magz = at(2 + 4 * DIRS)
        Az2, Fz2, _ = at(4 + 4 * DIRS)
        if np.isfinite(Fz1).all() and np.isfinite(Fz2).all():
            dz = abs(Az1 - Az2)
            zmax = dz.max() if dz.nnz else 0.0
            ctx.count("zero_points")
            ctx.expect(zmax <= 1e-9 * max(1.0, abs(Az1).max()) and np.all(np.abs(Fz1 - Fz2) <= 1e-9 * (magz + 1)), "history-dependent:zeros",
                       lambda: f"{what}: the system built twice at a point with exact zeros differs (matrix by {zmax:.3g})")
        for n, d in enumerate(ds):
            F = [at(1 + 4 * n + j) for j in range(4)]
            fd1 = (F[0][1] - F[1][1]) / (2 * H)
            fd2 = (F[2][1] - F[3][1]) / (4 * H)
            got = A0 @ d
            noise = (mag0 + F[0][2]) * 2e-14 / H
            tol = 3 * np.abs(fd1 - fd2) + noise + 1e-7 * np.abs(got) * 0 + 1e-12
            err = np.abs(got - fd1)
            ctx.ok(len(err))
            ctx.count("rows_checked", len(err))
            ctx.peak("err/tol", np.max(err / tol))
            if np.any(err > tol):
                r = int(np.argmax(err / tol))
                ctx.violation("jacobian" + (":optimisation" if infeas else ""),
                              f"{what}, phase {'direct' if q == 0 else 'homotopy'}: row {r} of the linear system changes by "
                              f"{got[r]:.8g} along a direction, the mismatch itself by {fd1[r]:.8g} (tolerance {tol[r]:.3g})")
                break
        if infeas:
            # first-order conditions of a Lagrangian: the matrix is a Hessian
            D = abs(A0 - A0.T)
            ctx.count("symmetry_checked")
            m = D.max() if D.nnz else 0.0
            ctx.expect(m <= 1e-9 * max(1.0, abs(A0).max()), "hessian-asymmetric",
                       lambda: f"{what}: the matrix in infeasibility mode is not symmetric (by {m:.3g})")
    # the reported residual is the mismatch at the returned point (direct run only)
    if not tx and blocks and len(calls) == LEN + 1:
        A0, F0, mag0 = at(0)
        want = np.max(np.abs(F0))
        ctx.expect(abs(res.max_residual - want) <= 1e-9 * (np.max(mag0) + 1), "reported-residual",
                   lambda: f"{what}: reported maximum residual {res.max_residual:.9g}, mismatch of the returned point {want:.9g}")
        ctx.count("residual_compared")
    ctx.state(three, infeas, tx, *feats)


def quadratic(ctx, rng, case, rev, V):
    """from close by, Newton's method needs a handful of iterations"""
    import cmath
    import math
    for b in case["buses"]:
        if b["i"] in V and b["ide"] != 3:
            b["vm"], b["va"] = abs(V[b["i"]]) + rng.uniform(-1e-3, 1e-3), math.degrees(cmath.phase(V[b["i"]])) + rng.uniform(-.1, .1)
    p = ctx.write("q.RAW", rawgen.write(case, rev))
    res = api.solve_file(p, api.settings(tolerance=1e-8))
    ctx.count("quadratic_solves")
    ctx.peak("iterations", res.iterations)
    ctx.expect(res.is_success and res.iterations <= 5, "slow-convergence",
               f"{len(V)} buses started within 0.1% of the solution: success={res.is_success} after {res.iterations} iterations")
