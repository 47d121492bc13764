"""Infeasibility analysis: nothing is injected where a plain solution exists; what is injected elsewhere is exactly what the
network lacks, and no small change of the voltages would need less."""
import math

import numpy as np

from vlib import api, glmgen, rawgen


def analyse(path, st):
    net = api.load(path, st)
    net.optimization = api.load_infeasibility_analysis(net)
    res = api.solve(net, st)
    v = res.v_final
    inj = {}
    for c in net.optimization.infeasibility_currents:
        inj[c.bus] = complex(v[c.node_Ir_inf], v[c.node_Ii_inf])
    return res, inj


def nothing_reported(ctx, what, res, inj, lim):
    worst = max([abs(x) for x in inj.values()] or [0.0])
    ctx.peak("injection in feasible networks", worst)
    ctx.expect(worst <= lim, "injects-where-feasible", lambda: f"{what}: feasible, but {worst:.4g} is injected")
    power = lim * sum(abs(b.V) for b in res.bus_results)
    ctx.expect(res.infeasibility_totals is not None and max(abs(float(x)) for x in res.infeasibility_totals) <= power
               and all(abs(g.P) + abs(g.Q) <= power for g in res.report_infeasible()), "reports-where-feasible",
               lambda: f"{what}: feasible, but totals {res.infeasibility_totals}, reported {[str(x) for x in res.report_infeasible()][:3]}")


def stationary(case, V, ix, Q):
    """relative gradient of the sum of squared current mismatches over everything that is free: voltages at load buses,
    angle and reactive power at voltage-controlled buses"""
    Y, _ = rawgen.ybus(case)
    rl = rawgen.roles(case)
    n = len(ix)
    bus = list(ix)

    def mismatch(V, Q):
        I = Y @ V
        SL = rawgen.load_power(case, V, ix)
        m = np.zeros(n, dtype=complex)
        for b, k in ix.items():
            r = rl[b]
            if r[0] == "slack":
                continue
            S = SL[k] - (r[1] if r[0] == "pq" else r[3] + complex(r[1], Q[b]))
            m[k] = I[k] + (S / V[k]).conjugate()
        return m

    m0 = mismatch(V, Q)
    base = np.linalg.norm(m0)
    worst, where = 0.0, None
    for b, k in ix.items():
        r = rl[b]
        if r[0] == "slack":
            continue
        moves = []
        if r[0] == "pq":
            moves = [("Vr", 1.0), ("Vi", 1j)]
        else:
            moves = [("angle", None), ("Q", None)]
        for name, d in moves:
            h = 1e-6
            out = []
            for s in (+1, -1):
                V2, Q2 = V.copy(), dict(Q)
                if name == "Q":
                    Q2[b] += s * h
                elif name == "angle":
                    V2[k] = V[k] * complex(math.cos(s * h), math.sin(s * h))
                else:
                    V2[k] = V[k] + s * h * d
                out.append(mismatch(V2, Q2))
            dm = (out[0] - out[1]) / (2 * h)
            # (moves that hardly change any current, because admittance and load cancel, are judged against the admittance)
            nd = max(np.linalg.norm(dm), 1e-2 * np.linalg.norm(Y[:, k]), 1e-3)
            g = abs(np.vdot(m0, dm).real) / (nd * base)
            if g > worst:
                worst, where = g, (b, name)
    return m0, worst, where


def raw_case(ctx):
    rng = ctx.rng
    rev = rng.choice([30, 32, 33, 34])
    stressed = rng.random() < .6
    case, V0 = rawgen.random_case(rng, 3, 8 if ctx.tier == "quick" else 16, rev=rev)
    k = 1.0
    if stressed:
        case["xfmrs3"] = []          # their star points would be buses of their own
        k = rng.choice([rng.uniform(1.5, 4), rng.uniform(3, 10), rng.uniform(8, 25)])
        for l in case["loads"]:
            l["pl"] *= k
            l["ql"] *= k
    flat = rng.random() < .1
    st = api.settings(tolerance=1e-8, max_iters=48, voltage_limiting=rng.random() < .4, flat_start=flat)
    p = ctx.write("case.RAW", rawgen.write(case, rev))
    what = f"rev {rev}, {len(V0)} buses, loads x{k:.2f}"
    try:
        plain = api.solve_file(p, api.settings(tolerance=1e-8))
        volts = api.voltages_by_bus(plain)
        Y, ix = rawgen.ybus(case)
        ok = plain.is_success and max(m for _, _, m in rawgen.mismatch(case, volts)[0]) < 1e-5
    except Exception:
        ok = False
    ctx.count("networks")
    try:
        res, inj = analyse(p, st)
    except Exception:
        ctx.count("raised")
        if not stressed and not flat and case["mode"] in ("near", "exact"):
            raise
        return
    byb = {b.Bus: x for b, x in inj.items()}
    if not res.is_success:
        ctx.count("unsuccessful")
        # a start at or near a healthy solution ends there
        ctx.expect(stressed or flat or case["mode"] not in ("near", "exact") or st.voltage_limiting, "not-solved",
                   lambda: f"{what}: started near a healthy solution, analysis unsuccessful")
        return
    volts = api.voltages_by_bus(res)
    Y, ix = rawgen.ybus(case)
    V = np.array([volts[b] for b in ix])
    ctx.state("raw", stressed, ok, st.voltage_limiting, sorted({r[0] for r in rawgen.roles(case).values()}), len(V))
    worst = max(abs(x) for x in inj.values())
    if not stressed and case["mode"] in ("near", "exact") and not flat and not st.voltage_limiting:
        ctx.count("feasible_raw")
        nothing_reported(ctx, what, res, inj, 1e-6)
        for b, kind, m in rawgen.mismatch(case, volts)[0]:
            ctx.expect(m < 2e-5, "not-the-plain-solution", lambda: f"{what}: feasible, bus {b}: {kind} off by {m:.3g}")
        if ok:
            pv = api.voltages_by_bus(plain)
            d = max(abs(pv[b] - volts[b]) for b in ix)
            ctx.expect(d < 1e-5, "not-the-plain-solution", lambda: f"{what}: differs from the plain solution by {d:.3g}")
        return
    if case["xfmrs3"]:
        return
    rl = rawgen.roles(case)
    I = Y @ V
    SL = rawgen.load_power(case, V, ix)
    Q = {}
    scale = max(1.0, float(max(abs(I))))
    for b, q in ix.items():
        r = rl[b]
        x = byb[b]
        ctx.count("balanced_buses")
        if r[0] == "slack":
            ctx.expect(abs(V[q] - r[1]) < 1e-6, "slack", lambda: f"{what}: slack voltage off by {abs(V[q] - r[1]):.3g}")
            ctx.expect(abs(x) < 1e-6 * scale, "slack-injection", lambda: f"{what}: {abs(x):.3g} injected at the slack bus")
            continue
        if r[0] == "pq":
            need = I[q] + ((SL[q] - r[1]) / V[q]).conjugate()
            d = abs(need + x)
            ctx.peak("unbalanced", d / scale)
            ctx.expect(d < 1e-6 * scale, "unbalanced", lambda: f"{what}: bus {b} lacks {need:.6g}, injected {-x:.6g}")
            continue
        # the power injected at a controlled bus must make up the real power; its reactive power is free
        S = V[q] * (I[q] + x).conjugate() + SL[q] - r[3]
        Q[b] = S.imag
        ctx.expect(abs(S.real - r[1]) < 1e-6 * scale * max(1, abs(V[q])), "unbalanced-pv",
                   lambda: f"{what}: real power at controlled bus {b} off by {abs(S.real - r[1]):.3g}")
        ctx.expect(abs(abs(V[q]) - r[2]) < 1e-6, "pv-voltage", lambda: f"{what}: controlled bus {b} at {abs(V[q])}, should be {r[2]}")
    if worst < 1e-4:
        ctx.count("feasible_after_all")
        return
    ctx.count("infeasible_raw")
    m0, g, where = stationary(case, V, ix, Q)
    ctx.peak("relative gradient", g)
    ctx.expect(g < 1e-4, "not-minimal", lambda: f"{what}: moving {where} would reduce the injected current (relative gradient {g:.3g})")
    if ctx.index < 12:
        ctx.sample(f"{what}: injected up to {worst:.4g} pu, gradient {g:.1e}")


def glm_case(ctx):
    rng = ctx.rng
    net = glmgen.random_net(rng, 2, 7, {"dd": 0.0})
    stressed = rng.random() < .15
    k = rng.uniform(60, 150) if stressed else rng.choice([.5, 1, 3])
    glmgen.scale_loads(net, k)
    p = ctx.write("net.glm", glmgen.write(net))
    st = api.settings(tolerance=1e-6, enable_line_capacitance=False, max_iters=48)
    what = f"feeder of {len(net.nodes)} nodes, loads x{k:.1f}"
    ctx.count("networks")
    try:
        plain = api.solve_file(p, st)
        ok = plain.is_success and plain.iterations < 20
    except Exception:
        ok = False
    try:
        res, inj = analyse(p, st)
    except Exception:
        if not stressed:
            raise
        ctx.count("raised")
        return
    if not res.is_success:
        ctx.count("unsuccessful")
        ctx.expect(stressed or not ok, "not-solved", lambda: f"{what}: solvable, but the analysis was unsuccessful")
        return
    V = api.voltages_by_node(res)
    ctx.state("glm", stressed, ok, sorted(glmgen.features_of(net)))
    if ok and not stressed:
        ctx.count("feasible_glm")
        nothing_reported(ctx, what, res, inj, 1e-4)
        pv = api.voltages_by_node(plain)
        for key, a in pv.items():
            ctx.expect(abs(a - V[key]) < 2e-5 * max(1, abs(a)), "not-the-plain-solution",
                       lambda: f"{what}: {key} at {V[key]}, plain solve {a}")
        return
    if any(abs(x) > 1e-6 for b, x in inj.items() if b.IsVirtual):
        return
    keys = {(n, ph) for n, nd in net.nodes.items() if nd["parent"] is None for ph in nd["phases"]}
    x = {(b.NodeName, b.NodePhase): c for b, c in inj.items() if not b.IsVirtual}
    if any(abs(V[q]) < .02 * abs(net.nodes[q[0]]["e"][q[1]]) for q in keys):
        return
    I, M = glmgen.currents(net, {q: V[q] for q in keys}, False, None)
    grp = glmgen.groups(net)
    tot, mag = {}, {}
    for q, (g, w) in grp.items():
        tot[g] = tot.get(g, 0) + w * (I[q] + x.get(q, 0))
        mag[g] = max(mag.get(g, 0), abs(M[q] * w), abs(w * x.get(q, 0)))
    swing = net.root(net.swing)
    src = {grp[(swing, ph)][0] for ph in net.nodes[swing]["phases"]}
    worst = max([abs(c) for c in x.values()] or [0])
    ctx.count("infeasible_glm" if worst > 1e-3 else "feasible_after_all")
    for g, t in tot.items():
        if g in src:
            continue
        ctx.peak("unbalanced amperes", abs(t) / max(1, mag[g]))
        ctx.expect(abs(t) < 1e-3 + 2e-5 * mag[g], "unbalanced-feeder", lambda: f"{what}: {g} lacks {t:.6g} A with the injection counted")


def run_case(ctx):
    if ctx.index % 3 < 2:
        raw_case(ctx)
    else:
        glm_case(ctx)
