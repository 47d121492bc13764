"""What a solution reports (voltage polar form, machine, slack, load and winding powers) agrees with the network."""
import cmath
import math

import numpy as np

from vlib import api, glmgen, rawgen
from vlib.common import quiet


def polar(ctx, res):
    for b in res.bus_results:
        ctx.count("polar")
        ok = abs(b.V_mag - abs(b.V)) <= 1e-9 * max(1, abs(b.V)) and abs(b.V - complex(b.V_r, b.V_i)) <= 1e-9 * max(1, abs(b.V)) \
            and abs(cmath.rect(b.V_mag, math.radians(b.V_deg)) - b.V) <= 1e-8 * max(1, abs(b.V)) and -180.000001 <= b.V_deg <= 180.000001
        ctx.expect(ok, "polar", lambda: f"bus {b.bus.Bus}: V={b.V}, reported {b.V_mag} at {b.V_deg} degrees")


def raw(ctx):
    rng = ctx.rng
    rev = rng.choice([30, 32, 33, 34])
    case, V = rawgen.random_case(rng, 3, 14 if ctx.tier == "quick" else 40, stress=rng.choice([.5, 1.0, 1.5]), rev=rev)
    for b in case["buses"]:
        if b["i"] in V:
            b["vm"], b["va"] = abs(V[b["i"]]), math.degrees(cmath.phase(V[b["i"]]))
    p = ctx.write("case.RAW", rawgen.write(case, rev))
    infeas = False
    res = api.solve_file(p, api.settings(tolerance=1e-8, tx_stepping=rng.random() < .1), infeasibility=infeas)
    if not res.is_success:
        if not infeas:
            ctx.violation("not-solved", "a case started at its solution was reported unsuccessful")
        return
    polar(ctx, res)
    volts = api.voltages_by_bus(res)
    _, out = rawgen.mismatch(case, {b: volts[b] for b in V})
    rl = rawgen.roles(case)
    got, kinds = {}, {}
    for g in res.generator_results:
        if g.type_str == "Inf":
            continue
        b = g.generator.bus.Bus
        got[b] = got.get(b, 0) + complex(g.P, g.Q)
        kinds.setdefault(b, set()).add(g.type_str)
    TOL = 2e-6
    for b, role in rl.items():
        if role[0] == "pq":
            ctx.expect(b not in got, "machine-at-load-bus", lambda: f"rev {rev}: machine power reported at load bus {b}")
            continue
        if not ctx.expect(b in got, "machine-missing", lambda: f"rev {rev}: no machine power reported at bus {b} ({role[0]})"):
            continue
        ctx.count("checked_" + role[0])
        d = abs(got[b] + out[b])
        ctx.peak("machine", d)
        ctx.expect(d < TOL, f"machine-power:{role[0]}",
                   lambda: f"rev {rev} bus {b} ({role[0]}): the network draws {out[b]:.6f} pu from the machines there, reported "
                           f"(consumption positive) {got[b]:.6f}")
        ctx.expect(kinds[b] == {"Slack" if role[0] == "slack" else "PV"}, "machine-type", lambda: f"bus {b}: {kinds[b]} for {role[0]}")
    want, have = {}, {}
    off = {b["i"] for b in case["buses"] if b["ide"] == 4}
    for l in case["loads"]:
        if l["status"] == 1 and l["i"] not in off:
            want[l["i"]] = want.get(l["i"], 0) + complex(l["pl"], l["ql"]) / 100
    for b, role in rl.items():
        if role[0] == "pv":
            want[b] = want.get(b, 0) - role[3]
        elif role[0] == "pq":
            want[b] = want.get(b, 0) - role[1]
    for l in res.load_results:
        b = l.load.from_bus.Bus
        have[b] = have.get(b, 0) + complex(l.P, l.Q)
    for b in sorted(set(want) | set(have)):
        ctx.count("checked_load")
        d = abs(want.get(b, 0) - have.get(b, 0))
        ctx.expect(d < 1e-7, "load-power", lambda: f"rev {rev} bus {b}: loads in the file {want.get(b, 0):.6f} pu, reported {have.get(b, 0):.6f}")
    ctx.state("raw", rev, infeas, tuple(sorted({r[0] for r in rl.values()})), len(V))


def glm(ctx):
    rng = ctx.rng
    net = glmgen.random_net(rng, 3, 10 if ctx.tier == "quick" else 25, features={"dd": 0.0})
    p = ctx.write("net.glm", glmgen.write(net, rng, {}))
    res = api.solve_file(p, api.settings(enable_line_capacitance=False, tolerance=1e-6))
    if not res.is_success:
        ctx.count("unsuccessful")
        return
    polar(ctx, res)
    V = api.voltages_by_node(res)
    keys = {(n, ph) for n, nd in net.nodes.items() if nd["parent"] is None for ph in nd["phases"]}
    Vr = {q: V[q] for q in keys}
    _, src = glmgen.kirchhoff(net, Vr, cap=False)
    swing = net.root(net.swing)
    got = {g.generator.bus.NodePhase: complex(g.P, g.Q) for g in res.generator_results if g.type_str == "Slack"}
    for ph, i in src.items():
        if not ctx.expect(ph in got, "slack-missing", f"no power reported for phase {ph} of the swing node"):
            continue
        s = V[(swing, ph)] * i.conjugate()
        tol = abs(V[(swing, ph)]) * (6e-4 + 2e-5 * abs(i)) + 1e-6
        ctx.count("checked_swing")
        ctx.peak("swing/tol", abs(s + got[ph]) / tol)
        ctx.expect(abs(s + got[ph]) < tol, "slack-power",
                   lambda: f"phase {ph}: the feeder draws {s:.2f} VA from the swing node, reported (consumption positive) {got[ph]:.2f}")
    # loads
    want, have = {}, {}
    for l in net.loads:
        for a, b, kind, val in glmgen.load_terms(l):
            if kind == "S":
                k = (net.root(l["node"]), a, b)
                if val != 0:
                    want[k] = want.get(k, 0) + val
    for l in res.load_results:
        if l.P == 0 and l.Q == 0:
            continue
        fb, tb = l.load.from_bus, l.load.to_bus
        k = (fb.NodeName, fb.NodePhase, tb.NodePhase if tb.NodeName == fb.NodeName else None)
        have[k] = have.get(k, 0) + complex(l.P, l.Q)
    for k in sorted(set(want) | set(have), key=str):
        ctx.count("checked_load")
        w, h = want.get(k, 0), have.get(k, 0)
        ctx.expect(abs(w - h) < 1e-6 * max(1, abs(w)), "load-power", lambda: f"{k}: loads in the file {w}, reported {h}")
    winding(ctx, net, res, Vr)
    for f in glmgen.features_of(net):
        ctx.state(*f)


def winding(ctx, net, res, V):
    """power reported for each transformer winding pair"""
    from logic.powerflowresults import CenterTapTransformerResult, TransformerResult
    want = []
    for t in net.xfmrs:
        tr, y = glmgen.xfmr_params(t)
        for pp, pn, sp, sn in glmgen.xfmr_coils(t):
            f, o = net.root(t["from"]), net.root(t["to"])
            vp = V[(f, pp)] - (V[(f, pn)] if pn else 0)
            vs = V[(o, sp)] - (V[(o, sn)] if sn else 0)
            i = (vp / tr - vs) * y / tr
            want.append((f"{t['name']}:{pp}", vp * i.conjugate(), 0.0))
    n = 0
    got = []
    for x in res.network.transformers:
        if type(x).__name__ == "CenterTapTransformer":
            continue
        r = TransformerResult(x, res)
        got.append((complex(r.get_P(), r.get_Q()), x.from_bus_pos.NodeName, x.from_bus_pos.NodePhase, x.to_bus_pos.NodeName))
    for name, s, tol in want:
        n += 1
        f = name.split(":")[-1]
        t = next(t for t in net.xfmrs if name == f"{t['name']}:{f}")
        c = [g for g in got if g[1] == net.root(t["from"]) and g[2] == f and g[3] == net.root(t["to"])]
        if not c:
            ctx.violation("winding-missing", f"no transformer reported for {name}")
            continue
        d = min(abs(g[0] - s) for g in c)
        tol = 1e-5 * abs(s) + 0.05
        ctx.peak("winding/tol", d / tol)
        ctx.expect(d < tol, "winding-power", lambda: f"{name}: enters {s:.2f} VA, reported {[g[0] for g in c]}")
    for t in net.cts:
        f, o = net.root(t["from"]), net.root(t["to"])
        ip, o1, o2 = glmgen.ct_currents(t, V[(f, t["phase"])], V[(o, "1")], V[(o, "2")])
        s = 0
        tr = t["vp"] / t["vs"]
        x0 = complex(0.5 * t["r"], glmgen.ct_x(t)[0]) * t["vp"] ** 2 / (t["kva"] * 1e3)
        vi = V[(f, t["phase"])] - ip * x0
        s = vi * ip.conjugate()                  # what crosses the ideal part towards the legs
        c = []
        for x in res.network.transformers:
            if type(x).__name__ == "CenterTapTransformer" and x.coils[1].to_node.NodeName == o:
                with quiet():
                    r = CenterTapTransformerResult(x, res)
                c.append(complex(r.get_P(), r.get_Q()))
        if not c:
            ctx.violation("winding-missing", f"no centre-tapped transformer reported for {t['name']}")
            continue
        n += 1
        d = min(min(abs(g + s), abs(g - s)) for g in c)
        tol = 1e-5 * abs(s) + 0.05
        ctx.peak("ct/tol", d / tol)
        ctx.expect(d < tol, "centre-tap-power", lambda: f"{t['name']}: {s:.2f} VA cross to the legs, reported {c}")
    ctx.count("checked_winding", n)


def run_case(ctx):
    (glm if ctx.index % 3 == 0 else raw)(ctx)
