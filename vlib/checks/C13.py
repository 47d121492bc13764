"""A time series over a load file is a sequence of independent power flows."""
import cmath
import os

from vlib import api, glmgen
from vlib.common import quiet

FEAT = {"ct": .35, "delta_load": .2, "ll_load": .2, "zload": .15, "iload": .1, "ids": .15, "cap": .2, "noguess": .0, "dd": 0.0, "load": .9}


def columns(net):
    """column name -> (load, connection): the naming convention of load files, for the loads it names without ambiguity
    (a constant-power and a constant-impedance part on one phase share their name)"""
    out, seen = {}, {}
    for l in net.loads:
        num = (l["node"] if l.get("on_triplex") else l["name"]).split("_")[-1]
        for kind, conn in l["terms"]:
            ph = conn + glmgen.NEXT[conn] if l.get("delta") else conn
            c = f"rl_{num}_{ph[0]}" if l.get("on_triplex") else f"cl_{num}{ph}"
            seen.setdefault(c, set()).add((l["name"], conn, kind))
            out[c] = (l["name"], conn)
    return {c: k for c, k in out.items() if len(seen[c]) == 1}


def base_power(l, conn):
    return l["terms"].get(("S", conn), 0j)


def with_row(net, cols, row, k=1.0):
    """the feeder with the loads of the row set to its apparent powers, each at its own power factor"""
    n = net.copy()
    by = {l["name"]: l for l in n.loads}
    for c, m in row.items():
        if c not in cols:
            continue
        l, conn = by[cols[c][0]], cols[c][1]
        s = base_power(l, conn)
        l["terms"][("S", conn)] = cmath.rect(1.0, cmath.phase(s)) * m if s else complex(m)
        if l.get("on_triplex"):
            n.nodes[l["node"]]["power"]["power_" + conn] = l["terms"][("S", conn)]
    return n


def prepare(rng, net):
    """load names with the number after the last underscore, as load files expect"""
    for l in net.loads:
        if not l.get("own_node") and not l.get("on_triplex") and ":" not in l["name"] and rng.random() < .5:
            l["name"] = rng.choice(["load_", "sec_a_", "x__"]) + l["name"]
    return net


def load_file(ctx, rng, net, hours, extra=True):
    cols = columns(net)
    by = {l["name"]: l for l in net.loads}
    pick = [c for c in sorted(cols) if rng.random() < .8]
    rng.shuffle(pick)
    names = pick + (["cl_nosuchA", "hour", "rl_999999_1"] if extra and rng.random() < .5 else [])
    names = names or ["hour"]
    rng.shuffle(names)
    rows = []
    whole = {c: rng.random() < .2 for c in names}
    for h in range(hours):
        row = {}
        for c in names:
            s = abs(base_power(by[cols[c][0]], cols[c][1])) if c in cols else 1.0
            m = (s or 500.0) * rng.choice([0.0, 1.0, rng.uniform(.1, 1.5), rng.uniform(.1, 1.5), -rng.uniform(.1, .6), 1.8])
            row[c] = int(m) if whole[c] else m
        rows.append(row)
    text = ",".join(names) + "\n" + "".join(",".join(repr(r[c]) for c in names) + "\n" for r in rows)
    return cols, rows, ctx.write("loads.csv", text)


def compare(ctx, what, msg, got, want, tol=2e-6, sabs=1.0):
    """got, want: results; same network up to load values"""
    if api.erratic(*({"ok": r.is_success, "it": r.iterations} for r in (got, want))):
        ctx.count("erratic_pairs")
        return False
    if not ctx.expect(got.is_success == want.is_success, f"{what}:verdict", lambda: f"{msg}: success {got.is_success} / {want.is_success}"):
        return False
    if not got.is_success:
        ctx.count("both_unsuccessful")
        return False
    a, b = api.voltages_by_node(got), api.voltages_by_node(want)
    if not ctx.expect(set(a) == set(b), f"{what}:nodes", lambda: f"{msg}: {sorted(set(a) ^ set(b))[:6]}"):
        return False
    d, k = max((abs(a[k] - b[k]) / max(1.0, abs(b[k])), k) for k in a)
    ctx.peak("dv:" + what, d)
    if not ctx.expect(d < tol, f"{what}:voltages", lambda: f"{msg}: voltage at {k} differs by {d:.3e} relative"):
        return False
    la, lb = ([(x.load.from_bus.NodeName, x.load.from_bus.NodePhase, x.P, x.Q) for x in r.load_results] for r in (got, want))
    key = lambda L: sorted((n, p, round(P, 3), round(Q, 3)) for n, p, P, Q in L if abs(P) + abs(Q) > 1e-6)
    la, lb = key(la), key(lb)
    ctx.expect(len(la) == len(lb) and all(x[:2] == y[:2] and abs(complex(x[2] - y[2], x[3] - y[3])) < .01 + 1e-9 * abs(complex(*x[2:]))
                                          for x, y in zip(la, lb)), f"{what}:loads",
               lambda: f"{msg}: loads {[x for x in la if x not in lb][:4]} / {[x for x in lb if x not in la][:4]}")
    s = max([abs(complex(g.P, g.Q)) for g in want.generator_results] + [sabs])
    ga, gb = ({(g.generator.bus.NodeName, g.generator.bus.NodePhase): complex(g.P, g.Q) for g in r.generator_results} for r in (got, want))
    ctx.expect(set(ga) == set(gb) and all(abs(ga[k] - gb[k]) < 1e-5 * s for k in ga), f"{what}:sources", lambda: f"{msg}: source powers {ga} / {gb}")
    return True


def run_case(ctx):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    rng = ctx.rng
    net = prepare(rng, glmgen.random_net(rng, 3, 8 if ctx.tier == "quick" else 20, FEAT))
    if rng.random() < .1:
        glmgen.scale_loads(net, 12)
    hours = rng.randint(3, 8)
    cols, rows, csv = load_file(ctx, rng, net, hours)
    if not cols:
        return
    st = api.settings(tolerance=1e-6, enable_line_capacitance=bool(rng.random() < .5))
    start = rng.choice([0, 0, rng.randrange(hours)])
    end = rng.choice([hours, hours, rng.randint(start, hours)])
    out = ctx.path("out/series") if rng.random() < .5 else None
    nw = api.load(ctx.write("net.glm", glmgen.write(net)), st)
    typ = rng.choice([int, str])
    with quiet():
        proc = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=csv, loadfile_start=typ(start), loadfile_end=typ(end), outputfile=out),
                                   api.PowerFlow(nw, st))
        series = proc.execute()
    got = series.powerflow_snapshot_results
    ctx.count("series")
    ctx.expect(list(got) == list(range(start, end)), "hours", lambda: f"results for hours {list(got)}, asked for {start} to {end}")
    if out:
        files = sorted(f for f in os.listdir(ctx.path("out")) if f.startswith("series")) if os.path.isdir(ctx.path("out")) else []
        want = sorted(f"series_{h}_{k}.csv" for h in range(start, end) for k in ("power", "voltage"))
        ctx.expect(files == want, "hour-files", lambda: f"files {files}, expected {want}")
        ctx.count("file_series")
    for h, r in got.items():
        ref = api.solve_file(ctx.write(f"hour{h}.glm", glmgen.write(with_row(net, cols, rows[h]))), st)
        ctx.count("hours")
        if compare(ctx, "hour", f"hour {h} of {start}..{end}", r, ref):
            ctx.count("solved_hours")
        vals = [rows[h][c] for c in rows[h] if c in cols]
        ctx.state(h - start, any(v == 0 for v in vals), any(v < 0 for v in vals), r.is_success,
                  any(c.startswith("rl") for c in rows[h] if c in cols), start > 0, out is not None)
    ctx.sample(f"hours {start}..{end}, columns {sorted(rows[0])[:6]}")
