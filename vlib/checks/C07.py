"""Homotopy: same answer when not needed, the original problem when it succeeds, an honest verdict when it does not.

The direct attempt (and, in some cases, a later step) is made to fail at scipy's solver entry point."""
import numpy as np
import scipy.sparse.linalg as sla

_real = sla.spsolve


class Faults:
    """pass calls through, except those in [0, first) and from `after` on, which get an arbitrary finite answer"""

    def __init__(self):
        self.on = False

    def arm(self, first, after, seed):
        self.on, self.first, self.after, self.n, self.injected = True, first, after, 0, 0
        self.r = np.random.default_rng(seed)

    def __call__(self, A, b, *a, **k):
        if not self.on:
            return _real(A, b, *a, **k)
        n, self.n = self.n, self.n + 1
        x = _real(A, b, *a, **k)
        if n < self.first or n >= self.after:
            self.injected += 1
            # the same order of magnitude, but far from a solution
            s = np.where(np.isfinite(x) & (np.abs(x) > 1e-9), np.abs(x), 1.0)
            return s * self.r.uniform(.3, 1.5, len(x)) * self.r.choice([-1, 1], len(x))
        return x


F = Faults()
sla.spsolve = F

from vlib import api, glmgen, rawgen     # noqa: E402
from vlib.checks.C03 import judge_raw    # noqa: E402


def arrays(res):
    return np.array(res.v_final, dtype=float)


def run_case(ctx):
    rng = ctx.rng
    three = ctx.index % 5 == 4
    scen = ["direct", "forced", "forced", "fault"][ctx.index // 5 % 4] if ctx.index % 5 else "direct"
    if three:
        net = glmgen.random_net(rng, 2, 6, features={"dd": 0.0})
        p = ctx.write("net.glm", glmgen.write(net, rng, {}))
        feats = sorted(glmgen.features_of(net), key=str)
    else:
        rev = rng.choice([30, 33, 34])
        case, V = rawgen.random_case(rng, 3, 10, rev=rev, stress=rng.choice([.3, 1.0]))
        p = ctx.write("case.RAW", rawgen.write(case, rev))
        feats = [(q, bool(case[q])) for q in ("xfmrs", "xfmrs3", "fshunts", "sshunts")]
    tol = 1e-6 if not three else 1e-4
    base = dict(tolerance=tol, enable_line_capacitance=False)
    if scen == "direct":
        try:
            a = api.solve_file(p, api.settings(**base))
        except Exception:
            ctx.count("raised")
            return
        if not a.is_success:
            ctx.count("not_directly_solvable")
            return
        b = api.solve_file(p, api.settings(tx_stepping=True, **base))
        ctx.count("direct_pairs")
        ctx.expect(b.is_success, "lost-by-homotopy", "solvable directly, unsuccessful with homotopy enabled")
        ctx.expect(b.is_success and np.array_equal(arrays(a), arrays(b)) and a.iterations == b.iterations, "not-identical",
                   lambda: f"solvable directly, but enabling homotopy changes the result: iterations {a.iterations} and {b.iterations}, "
                           f"largest difference {np.max(np.abs(arrays(a) - arrays(b))):.3g}")
        ctx.expect(b.tx_percent == 0, "direct-fraction", lambda: f"direct solution reported at homotopy fraction {b.tx_percent}")
        ctx.state("direct", three, *feats)
        return
    m = rng.choice([4, 8, 12, 20])
    after = 10 ** 9 if scen == "forced" else m + (rng.randrange(0, 20) if rng.random() < .3 else rng.randrange(20, 400))
    F.arm(m, after, rng.randrange(1 << 30))
    try:
        res = api.solve_file(p, api.settings(tx_stepping=True, max_iters=m, **base))
    except Exception as e:
        ctx.count("raised")
        ctx.state("raised", str(e)[:40])
        return
    finally:
        F.on = False
    ctx.count("homotopy_runs")
    ctx.count("solver_calls", F.n)
    what = f"direct attempt made to fail ({m} iterations), {F.n} linear solves, {F.injected} injected"
    # a run whose very last answers were injected cannot have succeeded
    if scen == "fault" and F.injected > m:
        ctx.count("step_failures")
        ctx.expect(not res.is_success, "success-after-failed-step", lambda: f"{what}: reported successful although the last linear solves "
                   f"gave arbitrary points")
    if res.is_success:
        ctx.count("homotopy_successes")
        ctx.expect(res.tx_percent == 0, "success-fraction", lambda: f"{what}: successful at homotopy fraction {res.tx_percent}")
        if three:
            Vn = api.voltages_by_node(res)
            keys = {(n, ph) for n, nd in net.nodes.items() if nd["parent"] is None for ph in nd["phases"]}
            rows, _ = glmgen.kirchhoff(net, {q: Vn[q] for q in keys}, cap=False)
            bad = [(w, wh, mg, t) for w, wh, mg, t in rows if not mg <= t + 1.5 * tol * (len(keys) + 2) + 1e-3]
            ctx.ok(len(rows))
            if bad:
                ctx.violation("success-not-original-problem", f"{what}: the voltages do not solve the network: {bad[:2]}")
        else:
            judge_raw(ctx, case, res, tol, what)
    else:
        ctx.count("homotopy_failures")
        ctx.expect(0 <= res.tx_percent <= 1, "fraction-range", lambda: f"{what}: unsuccessful at homotopy fraction {res.tx_percent}")
        # every completed step took at least one linear solve, the failed one m of them
        least = 1 - max(0, F.n - 2 * m) / 100
        ctx.expect(res.tx_percent >= least - 1e-9, "failure-fraction", lambda: f"{what}: unsuccessful, reported at fraction "
                   f"{res.tx_percent}, but at most {max(0, F.n - 2 * m)} steps can have been completed")
        if F.n < 2 * m + 100 and scen == "fault":
            # fewer linear solves than homotopy has steps: it cannot have got to the original network
            ctx.count("early_failures")
            ctx.expect(res.tx_percent > 0, "failure-fraction", lambda: f"{what}: unsuccessful at an intermediate step, reported at "
                       f"fraction {res.tx_percent}")
    ctx.state(scen, three, bool(res.is_success), round(float(res.tx_percent), 1), *feats)
    # the injected faults must leave nothing behind: solving again works as if nothing had happened
    if rng.random() < .3:
        a = api.solve_file(p, api.settings(**base))
        b = api.solve_file(p, api.settings(**base))
        ctx.expect(a.is_success == b.is_success and np.array_equal(arrays(a), arrays(b)), "left-behind", f"{what}: a later solve differs")
