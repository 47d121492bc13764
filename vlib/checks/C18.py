"""Selecting the island of a bus leaves exactly the feeder that consists of that island."""
from vlib import api, glmgen, micro
from vlib.checks import C13
from vlib.common import quiet

FEAT = {"dd": 0.0, "ct": .4, "switch": .5, "fuse": .3, "reg": .3, "cap": .4, "child": .4, "noguess": .0, "openswitch": .3}


def run_case(ctx):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    rng = ctx.rng
    for _ in range(6):
        net = glmgen.random_net(rng, 4, 12 if ctx.tier == "quick" else 30, FEAT)
        r = micro.split_off(rng, net)
        if r:
            break
    else:
        return
    net, b, kind, how = r
    keep = rng.choice([b, b, net.swing])
    names = micro.component(net, keep)
    alone = micro.restrict(net, names)
    alone.swing, alone.swings = keep, set()
    st = api.settings(tolerance=1e-6, enable_line_capacitance=bool(rng.random() < .5))
    ref = api.solve_file(ctx.write("alone.glm", glmgen.write(alone)), st)
    hours, kw = 0, {}
    if alone.loads and rng.random() < .3:
        hours = rng.randint(1, 3)
        before = [l["name"] for l in alone.loads]
        cols, rows, csv = C13.load_file(ctx, rng, C13.prepare(rng, alone), hours)
        # (the load names were changed in `alone`: the whole feeder has to carry them too)
        ren = dict(zip(before, [l["name"] for l in alone.loads]))
        for l in net.loads:
            l["name"] = ren.get(l["name"], l["name"])
        if len(ren) != len(before):
            hours = 0
        else:
            kw = dict(loadfile_name=csv, loadfile_start=0, loadfile_end=hours)
    nw = api.load(ctx.write("net.glm", glmgen.write(net)), st)
    with quiet():
        proc = TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=keep, select_island=rng.choice([True, "True", "1"]), **kw), api.PowerFlow(nw, st))
        res = proc.execute()
    what = f"cut at {kind} ({how}), kept {len(names)} of {len(net.nodes)} nodes around {keep}"
    ctx.count("selections")
    ctx.count("kept:" + ("source" if keep == net.swing else "island"))
    ctx.state(kind, how, keep == net.swing, min(len(names), 6), bool(alone.caps), bool(alone.regs), bool(alone.cts), bool(alone.fuses), hours > 0)
    if len(names) > 1 and alone.loads:
        ctx.count("nontrivial")
    if not hours:
        C13.compare(ctx, "selected", what, res, ref, tol=1e-6)
        return
    for h, x in res.powerflow_snapshot_results.items():
        row = api.solve_file(ctx.write("row.glm", glmgen.write(C13.with_row(alone, cols, rows[h]))), st)
        ctx.count("hours")
        C13.compare(ctx, "selected-hour", f"hour {h}: {what}", x, row)
