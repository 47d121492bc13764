"""GLM solves satisfy Kirchhoff's laws for the file, phase by phase (independent oracle)."""
from vlib import api, glmgen
from vlib.common import rng_for


def run_case(ctx):
    rng = ctx.rng
    big = ctx.tier == "thorough" and rng.random() < .3
    net = glmgen.random_net(rng, 3, 40 if big else 12)
    glmgen.drop_states(net, rng_for(ctx.seed, "states", ctx.index))
    style = {"indent": True, "comments": rng.random() < .3, "shuffle_props": rng.random() < .3}
    cap = rng.random() < .5
    kw = {} if cap else {"enable_line_capacitance": False}
    if cap and rng.random() < .5:
        for l in net.lines:
            if net.nodes[l["from"]]["nom"] > 1000:
                l["length_ft"] *= rng.uniform(2, 6)
        glmgen.scale_loads(net, .3)
    p = ctx.write("net.glm", glmgen.write(net, rng, style))
    if rng.random() < .15:
        kw["tx_stepping"] = True
    if rng.random() < .1:
        kw["tolerance"] = 1e-7
    try:
        res = api.solve_file(p, api.settings(**kw))
    except Exception as e:
        # an ungrounded delta secondary floats: the solver may meet a singular system on its way
        if "linear system" in str(e) and any(t["conn"] == "DD" for t in net.xfmrs):
            ctx.count("unsuccessful")
            return
        raise
    if not res.is_success:
        ctx.count("unsuccessful")
        # an ungrounded delta secondary floats, and constant power on it need not be solvable
        if any(t["conn"] == "DD" for t in net.xfmrs):
            return
        glmgen.scale_loads(net, 0.1)
        p = ctx.write("net.glm", glmgen.write(net, rng, style))
        res = api.solve_file(p, api.settings(enable_line_capacitance=cap))
        if not ctx.expect(res.is_success, "not-solved", "a lightly loaded feeder was reported unsuccessful"):
            return
    V = api.voltages_by_node(res)
    want = {(n, ph) for n, nd in net.nodes.items() if nd["parent"] is None for ph in nd["phases"]}
    have = {k for k in V if k[0] in net.nodes and net.nodes[k[0]]["parent"] is None}
    if not ctx.expect(want <= have, "node-missing", f"no voltage for {sorted(want - have)[:6]}"):
        return
    V = {k: V[k] for k in want}
    rows, src = glmgen.kirchhoff(net, V, cap=cap)
    if cap:
        ctx.count("with_charging")
        if any(not m <= tol for _, _, m, tol in rows):
            half = glmgen.kirchhoff(net, V, cap="half")[0]
            if all(m <= tol for _, _, m, tol in half):
                what, where, m, tol = max(rows, key=lambda r: r[2] / r[3])
                ctx.violation("line-charging-halved", f"{what} at {where}: off by {m:.4g} (tolerance {tol:.3g}); with half of the "
                              "charging of the lines all currents balance")
                rows = half
                ctx.count("charging_seen")
    for what, where, m, tol in rows:
        ctx.ok()
        ctx.count("checked_" + what)
        ctx.peak(what + "/tol", m / tol)
        if not m <= tol:
            ctx.violation(f"kirchhoff:{what}", f"{what} at {where}: off by {m:.4g} (tolerance {tol:.3g})")
    ctx.count("networks")
    ctx.count("node_phases", len(want))
    for f in glmgen.features_of(net):
        ctx.state(*f)
    if ctx.index < 2:
        ctx.sample(f"{len(net.nodes)} nodes, {len(net.lines)} lines, {len(net.xfmrs)}+{len(net.cts)} transformers, "
                   f"{len(net.loads)} loads: worst {max(m / t for _, _, m, t in rows):.2g} of tolerance over {len(rows)} checks")
