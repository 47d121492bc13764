"""Results are marked as violating equipment ratings exactly when node voltages or transformers are beyond their limits."""
from vlib import api, glmgen
from vlib.common import quiet

FEAT = {"dd": 0.0, "ct": .6, "xfmr": .4, "noguess": .0, "ids": .1, "load": .9, "switch": .2, "reg": .4, "cap": 0.0}
MARK = "VIOLATED EQUIPMENT RATINGS"


def run_case(ctx):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    rng = ctx.rng
    net = glmgen.random_net(rng, 2, 8 if ctx.tier == "quick" else 20, FEAT)
    for c in net.cfgs.values():
        c["amp"] = 1e12
    # taps away from neutral and swing voltages off nominal move voltages by known steps
    for r in net.regs:
        r["taps"] = {p: rng.randint(-3, 3) if rng.random() < .6 else rng.randint(-9, 9) for p in "ABC"}
    if rng.random() < .5:
        for nd in net.nodes.values():
            nd["guess"] = True
    heavy = {"lv": rng.choice([1, 1, 10, 25, 40]), "ct": rng.choice([.5, 1, 3, 6, 8]), "mv": rng.choice([.2, .5, 1, 2, 4])}
    for ld in net.loads:
        k = heavy["ct" if ld.get("on_triplex") else "lv" if ld["nom"] < 1000 else "mv"]
        scale(net, ld, k)
    st = api.settings(tolerance=1e-6, enable_line_capacitance=False)
    p = ctx.write("net.glm", glmgen.write(net))
    nw = api.load(p, st)
    csv = ctx.write("l.csv", "cl_none\n1\n1\n")
    out = ctx.path("o/r")
    series = rng.random() < .5
    kw = dict(loadfile_name=csv, loadfile_start=0, loadfile_end=rng.randint(1, 2), outputfile=out) if series else dict(artificialswingbus=net.swing)
    with quiet():
        res = TimeSeriesProcessor(TimeSeriesSettings(**kw), api.PowerFlow(nw, st)).execute()
    if series:
        res = res.powerflow_snapshot_results[0]
    ctx.count("networks")
    if not res.is_success:
        ctx.count("unsuccessful")
        ctx.expect(not getattr(res, "violates_equipment_ratings", False), "failure-marked", "an unsuccessful result is marked as violating ratings")
        return
    V = api.voltages_by_node(res)
    keys = {(n, ph) for n, nd in net.nodes.items() if nd["parent"] is None for ph in nd["phases"]}
    why, near = [], False
    for q in keys:
        nom = net.nodes[q[0]]["nom"] if q[0] != net.swing else abs(net.nodes[q[0]]["e"][q[1]])
        dev = abs(abs(V[q]) - nom) / nom
        if dev > .0505:
            why.append(("voltage", q, dev))
        elif dev > .0495:      # nominal voltages are taken from the initial ones, which may be off by a little
            near = True
    for t in net.cts:
        f = net.root(t["from"])
        to = net.root(t["to"])
        if (to, "1") not in V:
            continue
        I0, I1, I2 = glmgen.ct_currents(t, V[(f, t["phase"])], V[(to, "1")], V[(to, "2")])
        # power delivered into the secondary windings, before their series impedance
        lo = abs(V[(to, "1")] * I1.conjugate() + V[(to, "2")] * I2.conjugate())
        hi = abs(V[(f, t["phase"])] * I0.conjugate())
        S = t["kva"] * 1e3
        if min(lo, hi) > S * 1.0005:
            why.append(("centre tap", t["name"], lo / S))
        elif max(lo, hi) > S * .9995:
            near = True
    for t in net.xfmrs:
        S = t["kva"] * 1e3
        for a, b in coil_powers(net, t, V):
            if min(a, b) > S * 1.0005:
                why.append(("transformer", t["name"], a / S))
            elif max(a, b) > S / 3 * .9995:
                near = True            # whether a rating is meant per phase or in total is not judged
    marked = bool(getattr(res, "violates_equipment_ratings", False))
    if why:
        ctx.sample(f"{why[:2]} of {len(why)} beyond")
    ctx.state(bool(why), near, sorted({w[0] for w in why}), series, bool(net.cts), bool(net.xfmrs), bool(net.regs))
    for w in {w[0] for w in why}:
        ctx.count("beyond:" + w)
    if why:
        ctx.count("beyond")
        ctx.expect(marked, "violation-not-marked:" + why[0][0], lambda: f"not marked although {why[:3]}")
    elif not near:
        ctx.count("within")
        ctx.expect(not marked, "marked-without-reason", "marked as violating ratings although every voltage and transformer is within them")
    if series:
        for k in ("voltage", "power"):
            text = open(f"{out}_0_{k}.csv").read()
            ctx.count("files")
            ctx.expect((MARK in text) == marked, "file-mark", lambda: f"the {k} file of an hour whose result is {'' if marked else 'not '}marked says otherwise")


def scale(net, ld, k):
    for key in ld["terms"]:
        ld["terms"][key] = ld["terms"][key] / k if key[0] == "Z" else ld["terms"][key] * k
    pw = net.nodes[ld["node"]].get("power") if ld.get("on_triplex") else None
    for key in pw or ():
        pw[key] = pw[key] / k if key.startswith("impedance") else pw[key] * k


def coil_powers(net, t, V):
    """(into the primary coil, into the secondary coil) per phase"""
    tr, y = glmgen.xfmr_params(t)
    f, to = net.root(t["from"]), net.root(t["to"])
    out = []
    for pp, pn, sp, sn in glmgen.xfmr_coils(t):
        v1 = V[(f, pp)] - (V[(f, pn)] if pn else 0)
        v2 = V[(to, sp)] - (V[(to, sn)] if sn else 0)
        i = y * (v1 / tr - v2)
        out.append((abs(v1 / tr * i.conjugate()), abs(v2 * i.conjugate())))
    return out
