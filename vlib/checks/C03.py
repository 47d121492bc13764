"""The verdict of a solve is truthful: success only for voltages that satisfy the equations to the tolerance."""
import cmath
import math

import numpy as np

from vlib import api, glmgen, rawgen


def current_mismatch(case, volts):
    """{bus: complex current mismatch} at buses whose injection is fully given by the file"""
    Y, ix = rawgen.ybus(case)
    V = np.array([volts[b] for b in ix])
    I = Y @ V
    SL = rawgen.load_power(case, V, ix)
    rl = rawgen.roles(case)
    out = {}
    for b, k in ix.items():
        if rl[b][0] == "pq":
            out[b] = I[k] + ((SL[k] - rl[b][1]) / V[k]).conjugate()
    return out, V, I, SL, rl, ix


def judge_raw(ctx, case, res, tol, what, clipped=False):
    volts = api.voltages_by_bus(res)
    mis, V, I, SL, rl, ix = current_mismatch(case, volts)
    comp = max([max(abs(m.real), abs(m.imag)) for m in mis.values()] or [0.0])
    scale = max(1.0, max(abs(I)))
    slackbus = [b for b in ix if rl[b][0] == "slack"][0]
    ctx.peak("mismatch above report", comp - res.max_residual)
    # the star points of three-winding transformers add rows of their own, so the report may be larger, never smaller
    # (after clipping, eliminated internal points no longer satisfy their own linear rows: not comparable)
    ctx.expect(clipped or comp <= res.max_residual + 1e-8 * scale, "residual-understated",
               lambda: f"{what}: largest current mismatch at a load bus is {comp:.4g} but the reported maximum residual is "
                       f"{res.max_residual:.4g}")
    if not res.is_success:
        ctx.count("reported_unsuccessful")
        return
    ctx.count("reported_successful")
    ctx.expect(res.max_residual < tol, "success-above-tolerance",
               lambda: f"{what}: reported successful with maximum residual {res.max_residual:.4g}, tolerance {tol:.3g}")
    ctx.expect(comp < tol + 1e-8 * scale, "success-not-a-solution",
               lambda: f"{what}: reported successful, but the current mismatch at a load bus is {comp:.4g} (tolerance {tol:.3g})")
    for b, k in ix.items():
        if rl[b][0] == "pv":
            need = V[k] * I[k].conjugate() + SL[k] - rl[b][3]
            dp = abs(need.real - rl[b][1])
            dv = abs(abs(V[k]) ** 2 - rl[b][2] ** 2)
            ctx.expect(dp < 1.5 * tol * max(abs(V[k]), 1e-3) + 1e-8 * scale, "success-pv-power",
                       lambda: f"{what}: successful, real power at voltage-controlled bus {b} off by {dp:.4g} (tolerance {tol:.3g})")
            ctx.expect(dv < tol + 1e-8, "success-pv-voltage",
                       lambda: f"{what}: successful, squared voltage at bus {b} off by {dv:.4g} (tolerance {tol:.3g})")
    ds = abs(V[ix[slackbus]] - rl[slackbus][1])
    ctx.expect(ds < 1.5 * tol + 1e-8, "success-slack", lambda: f"{what}: successful, slack voltage off by {ds:.4g}")


def raw_stress(ctx):
    rng = ctx.rng
    rev = rng.choice([30, 32, 33, 34])
    case, V = rawgen.random_case(rng, 3, 14 if ctx.tier == "quick" else 40, stress=rng.choice([0.5, 1.0, 2.0]), rev=rev)
    k = rng.choice([1.0, 1.0, rng.uniform(1, 4), rng.uniform(1, 20)])
    for l in case["loads"]:
        l["pl"] *= k
        l["ql"] *= k
    start = rng.choice(["file", "file", "flat", "wild"])
    for b in case["buses"]:
        if start == "wild" and b["ide"] != 3:
            b["vm"], b["va"] = rng.uniform(.2, 1.8), rng.uniform(-180, 180)
    tol = 10 ** rng.uniform(-7, 0)
    kw = dict(tolerance=tol, max_iters=rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 49, 50, 51, 60, 120]))
    kw["flat_start"] = start == "flat"
    kw["voltage_limiting"] = rng.random() < .25
    if rng.random() < .08:
        kw["tx_stepping"] = True
        kw["max_iters"] = min(kw["max_iters"], 50)
    p = ctx.write("case.RAW", rawgen.write(case, rev))
    ctx.count("solves")
    try:
        res = api.solve_file(p, api.settings(**kw))
    except Exception as e:
        ctx.count("raised")
        ctx.state("raised", str(e)[:30])
        return
    what = f"rev {rev}, {len(V)} buses, loads x{k:.2f}, start {start}, {kw}"
    it = res.iterations
    ctx.state("raw", start, kw["max_iters"], round(math.log10(tol)), bool(res.is_success), k > 1)
    judge_raw(ctx, case, res, tol, what, (kw["voltage_limiting"] or kw.get("tx_stepping", False)) and not res.is_success)
    if not kw.get("tx_stepping"):
        ctx.expect(0 <= it <= kw["max_iters"], "iterations-exceeded", lambda: f"{what}: {it} iterations reported")


def raw_nose(ctx):
    """two buses: the largest power that can be delivered is known in closed form"""
    rng = ctx.rng
    r, x = rng.choice([0.0, rng.uniform(0, .05)]), rng.uniform(.05, .3)
    V1 = rng.uniform(.95, 1.06)
    ph = rng.uniform(-.4, .7)
    e = cmath.rect(1, ph)
    a, z = r * e.real + x * e.imag, abs(complex(r, x))
    kmax = V1 ** 2 / (2 * (a + z))
    beyond = rng.random() < .65
    k = kmax * (1 + 10 ** rng.uniform(-8, .5)) if beyond else kmax * (1 - 10 ** rng.uniform(-4, -.2))
    c = rawgen.new_case()
    near = rng.choice([1.0, .7, .55, .4])
    c["buses"] = [rawgen.bus(1, 3, V1, 0.0), rawgen.bus(2, 1, near, rng.uniform(-40, 5))]
    c["gens"] = [rawgen.gen(1, 0.0, V1)]
    c["branches"] = [rawgen.branch(1, 2, r, x)]
    c["loads"] = [rawgen.load(2, 100 * k * e.real, 100 * k * e.imag)]
    tol = 10 ** rng.uniform(-8, -2)
    kw = dict(tolerance=tol, max_iters=rng.choice([15, 50, 50, 100, 400]), voltage_limiting=rng.random() < .3)
    if rng.random() < .1:
        kw["tx_stepping"] = True
    p = ctx.write("nose.RAW", rawgen.write(c, 33))
    ctx.count("solves")
    ctx.count("beyond" if beyond else "inside")
    try:
        res = api.solve_file(p, api.settings(**kw))
    except Exception as ex:
        ctx.count("raised")
        ctx.state("nose-raised", str(ex)[:30])
        return
    what = f"two buses, {k / kmax:.9f} of the deliverable power, {kw}"
    judge_raw(ctx, c, res, tol, what, (kw["voltage_limiting"] or kw.get("tx_stepping", False)) and not res.is_success)
    ctx.state("nose", beyond, round(math.log10(abs(k / kmax - 1))), round(math.log10(tol)), bool(res.is_success))
    if beyond and res.is_success:
        # smallest possible mismatch: |S| deficit is at least (k - kmax) in some scaled sense; |dI| >= (k-kmax)/|V| * c
        # with |V| <= V1 and the boundary's distance in power never below (k - kmax) * (a + z) / (2 z)
        need = (k - kmax) * min(1.0, (a + z) / (2 * z)) / (1.5 * V1)
        ctx.expect(need < 3 * tol, "solved-the-unsolvable",
                   lambda: f"{what}: reported successful although no voltage comes closer than about {need:.3g} pu")


def glm_stress(ctx):
    rng = ctx.rng
    net = glmgen.random_net(rng, 3, 9 if ctx.tier == "quick" else 25, features={"dd": 0.0})
    k = rng.choice([1.0, 1.0, rng.uniform(1, 5), rng.uniform(1, 40)])
    glmgen.scale_loads(net, k)
    tol = 10 ** rng.uniform(-4, 1)
    kw = dict(tolerance=tol, max_iters=rng.choice([1, 2, 3, 4, 6, 10, 20, 50, 100]), enable_line_capacitance=False)
    p = ctx.write("net.glm", glmgen.write(net, rng, {}))
    ctx.count("solves")
    try:
        res = api.solve_file(p, api.settings(**kw))
    except Exception as e:
        ctx.count("raised")
        ctx.state("glm-raised", str(e)[:30])
        return
    ctx.state("glm", kw["max_iters"], round(math.log10(tol)), bool(res.is_success), k > 1)
    if not res.is_success:
        ctx.count("reported_unsuccessful")
        return
    ctx.count("reported_successful")
    what = f"feeder of {len(net.nodes)} nodes, loads x{k:.2f}, {kw}"
    ctx.expect(res.max_residual < tol, "success-above-tolerance",
               lambda: f"{what}: reported successful with maximum residual {res.max_residual:.4g}")
    V = api.voltages_by_node(res)
    keys = {(n, ph) for n, nd in net.nodes.items() if nd["parent"] is None for ph in nd["phases"]}
    rows, _ = glmgen.kirchhoff(net, {q: V[q] for q in keys}, cap=False)
    for w, where, m, t in rows:
        ctx.ok()
        if w == "kcl":
            # a check group spans every node joined by ideal elements; transformers scale their rows by the ratio
            lim = t + 1.5 * tol * (len(keys) + 2)
            if not m <= lim:
                ctx.violation("success-not-kirchhoff", f"{what}: successful, currents at {where} sum to {m:.4g} A (limit {lim:.3g})")


def run_case(ctx):
    r = ctx.index % 5
    if r in (0, 1):
        raw_stress(ctx)
    elif r in (2, 3):
        raw_nose(ctx)
    else:
        glm_stress(ctx)
