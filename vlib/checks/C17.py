"""An artificial swing bus is relieved by the named generators (negative loads) until it supplies nothing."""
import cmath

from vlib import api, glmgen, micro
from vlib.checks import C13
from vlib.common import quiet

THRESHOLD = 0.1
FEAT = {"dd": 0.0, "ct": .35, "delta_load": .2, "noguess": 0.0, "switch": .4, "ids": .1, "zload": .2, "iload": .1, "load": .9}


def plant(rng, net, names):
    """adds the generators that are to take over; returns their names, where they are, and whether nothing shifts phases"""
    spots = sorted(n for n in names if len(net.nodes[n]["phases"]) == 3 and net.nodes[n]["parent"] is None)
    if not spots:
        return None
    b = rng.choice(spots)
    nom = net.nodes[b]["nom"]
    groups = rng.choice([["ABC"], ["ABC"], ["AB", "C"], ["A", "B", "C"], ["B", "AC"]])
    gens = []
    for k, ph in enumerate(groups):
        nm = rng.choice(["gen_%d", "negative_load_9%d", "g%d"]) % (70 + k)
        net.add("loads", {"name": nm, "node": b, "phases": list(ph), "nom": nom, "own_node": False,
                          "terms": {("S", p): complex(rng.choice([-1, -1, 1]) * rng.uniform(1, 2e4), rng.uniform(-5e3, 5e3)) for p in ph}})
        gens.append(nm)
    return gens, b


def shifted(net, swing, b):
    """whether a delta-wye transformer lies in the feeder at all (its 30 degrees keep the adjustment from settling)"""
    return any(t["conn"] in ("DY", "DD") for t in net.xfmrs)


def adjusted(net, gens, nw):
    """the feeder with the generators at the values the processor left them at"""
    n = net.copy()
    num = {g.split("_")[-1]: g for g in gens}
    by = {l["name"]: l for l in n.loads}
    for x in nw.loads:
        if x.load_num in num:
            by[num[x.load_num]]["terms"][("S", x.phase)] = complex(x.P, x.Q)
    return n


def judge(ctx, what, res, ref, swing, settle):
    if settle and not ctx.expect(res.is_success, "did-not-settle", lambda: f"{what}: no generation found although nothing stands in its way"):
        return
    if not res.is_success:
        ctx.count("unsettled")
        return
    tot = sum(abs(complex(g.P, g.Q)) for g in res.generator_results if g.generator.bus.NodeName == swing)
    n = sum(1 for g in res.generator_results if g.generator.bus.NodeName == swing)
    ctx.peak("swing output", tot)
    ctx.count("settled")
    ctx.expect(n == 3 and tot < THRESHOLD * (1 + 1e-9), "swing-still-supplies", lambda: f"{what}: swing bus at {tot:.4g} VA over {n} phases")
    C13.compare(ctx, "adjusted", what, res, ref, sabs=1e4)


def run_case(ctx):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    rng = ctx.rng
    net = C13.prepare(rng, glmgen.random_net(rng, 2, 9 if ctx.tier == "quick" else 20, dict(FEAT, dy=rng.choice([0.0, 0.0, .4]))))
    k = rng.choice([1, 1, 1, .3, 4])
    glmgen.scale_loads(net, k)
    swing = net.swing
    island = None
    if rng.random() < .35:
        r = micro.split_off(rng, net)
        if r:
            net, swing, _, _ = r
            island = micro.component(net, swing)
    got = plant(rng, net, island or {n for n, d in net.nodes.items() if d["parent"] is None})
    if not got:
        return
    gens, b = got
    alone = micro.restrict(net, island) if island else net
    if island:
        alone.swing, alone.swings = swing, set()
    settle = k <= 1 and not shifted(alone, swing, b) and net.nodes[b]["nom"] > 1000
    st = api.settings(tolerance=1e-6, enable_line_capacitance=bool(rng.random() < .5))
    hours = 0
    csv = None
    if rng.random() < .4:
        hours = rng.randint(1, 4)
        cols, rows, csv = C13.load_file(ctx, rng, C13_without(net, gens, island), hours)
    p = ctx.write("net.glm", glmgen.write(net))
    nw = api.load(p, st)
    what = f"{len(alone.nodes)} of {len(net.nodes)} nodes, swing {swing}, generators {gens} at {b}, loads x{k}, {hours} hours"
    ctx.count("networks")
    ctx.state(bool(island), hours, len(gens), swing == b, settle, k, sorted({t["conn"] for t in alone.xfmrs}))
    kw = dict(artificialswingbus=swing, negativeloads=list(gens), select_island="yes" if island else False)
    if hours:
        kw.update(loadfile_name=csv, loadfile_start=0, loadfile_end=hours)
    with quiet():
        proc = TimeSeriesProcessor(TimeSeriesSettings(**kw), api.PowerFlow(nw, st))
    if not hours:
        with quiet():
            res = proc.execute()
        ref = api.solve_file(ctx.write("ref.glm", glmgen.write(adjusted(alone, gens, nw))), st)
        judge(ctx, what, res, ref, swing, settle)
        return
    # one hour at a time, in one processor, so that the generation found for each hour can be read off
    with quiet():
        proc.set_load_names()
    for h in range(hours):
        with quiet():
            proc.set_load_values(h)
            res = proc.execute_powerflow()
        row = C13.with_row(alone, cols, {c: v for c, v in rows[h].items() if c in cols and cols[c][0] in {l["name"] for l in alone.loads}})
        ref = api.solve_file(ctx.write("ref.glm", glmgen.write(adjusted(row, gens, nw))), st)
        ctx.count("hours")
        judge(ctx, f"hour {h}, {what}", res, ref, swing, False)
        if not res.is_success:
            return


def C13_without(net, gens, island):
    n = net.copy()
    from vlib.checks.C09 import drop
    for l in list(n.loads):
        if l["name"] in gens:
            drop(n, "loads", l)
    return n
