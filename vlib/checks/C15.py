"""What is written and printed is what was returned: complete, in place, rounded and never a success that was none."""
import contextlib
import io
import math
import os

from vlib import api, glmgen, rawgen


def f3(x):
    return "{:.3f}".format(x)


def near(text, x, digits):
    """`text` is a decimal with the given number of digits within half a unit (and a hair) of x"""
    try:
        v = float(text)
    except ValueError:
        return False
    return "." in text and len(text.split(".")[1]) == digits and abs(v - x) <= .5 * 10 ** -digits * (1 + 1e-6) + 1e-12 * abs(x)


def expected_names(three, case):
    if three:
        return {(n, p) for n, nd in case.nodes.items() if nd["parent"] is None for p in nd["phases"]}
    return {b["i"]: b["name"] for b in case["buses"] if b["ide"] != 4}


def read(path):
    with open(path, newline="") as f:
        return f.read()


def check_voltage(ctx, text, res, three, case):
    lines = text.split("\n")
    ctx.expect(lines[0] == "bus,name,v_magnitude,v_ang_degrees", "voltage-header", lambda: lines[0][:80])
    body = [l for l in lines[1:] if l]
    V = {}
    for b in res.bus_results:
        V[b.bus.Bus] = b.V
    seen = {}
    for l in body:
        f = l.split(",")
        if not ctx.expect(len(f) == 4, "voltage-row", lambda: f"row {l!r}"):
            return
        seen.setdefault(f[0], []).append(f)
    ctx.expect(sorted(seen) == sorted(str(k) for k in V) and all(len(x) == 1 for x in seen.values()), "voltage-rows",
               lambda: f"{len(body)} rows for {len(V)} buses")
    names = set()
    for k, v in V.items():
        for f in seen.get(str(k), [])[:1]:
            m, a = abs(v), math.degrees(math.atan2(v.imag, v.real))
            ctx.expect(near(f[2], m, 3), "voltage-magnitude", lambda: f"{f} for {v} ({m})")
            ctx.expect(near(f[3], a, 3) or m < 1e-8, "voltage-angle", lambda: f"{f} for {v} ({a})")
            names.add(f[1] if three else (k, f[1]))
            ctx.count("voltage_rows")
    want = expected_names(three, case)
    if three:
        ctx.expect(names == {f"{n}:{p}" for n, p in want}, "voltage-names", lambda: f"{sorted(names ^ {f'{n}:{p}' for n, p in want})[:6]}")
    else:
        have = {k: n.split(":")[0].strip() for k, n in names}
        ctx.expect(all(have.get(k) == n.strip() for k, n in want.items()), "voltage-names", lambda: f"{have} for {want}")


def check_power(ctx, text, res):
    lines = text.split("\n")
    ctx.expect(lines[0] == "bus,name,P(MW),Q(MVar)", "power-header", lambda: lines[0][:80])
    body = [l.split(",") for l in lines[1:] if l]
    want = [(str(g.generator.bus.Bus), g.type_str, g.P, g.Q) for g in res.generator_results]
    want += [(str(l.load.from_bus.NodeName), l.type_str, l.P, l.Q) for l in res.load_results]
    if not ctx.expect(len(body) == len(want), "power-rows", lambda: f"{len(body)} rows for {len(want)} machines and loads"):
        return
    key = lambda r: (r[0], r[1], round(float(r[2]), 1), float(r[2]), float(r[3]))
    for f, w in zip(sorted(body, key=key), sorted(want, key=key)):
        ctx.count("power_rows")
        if f[0] == w[0] and f[1] == w[1] and near(f[2], w[2], 2) and near(f[3], w[3], 2):
            ctx.ok()
            continue
        # equal roundings may sort differently: fall back on a search
        ok = any(x[0] == w[0] and x[1] == w[1] and near(x[2], w[2], 2) and near(x[3], w[3], 2) for x in body)
        ctx.expect(ok, "power-values", lambda: f"no row for {w}")


def run_case(ctx):
    rng = ctx.rng
    three = rng.random() < .5
    inf = rng.random() < .1
    kw = dict(max_iters=rng.choice([1, 2, 50, 50, 50]), enable_line_capacitance=bool(rng.random() < .5))
    if three:
        case = glmgen.random_net(rng, 2, 8, {"dd": 0.0})
        p = ctx.write("net.glm", glmgen.write(case))
    else:
        rev = rng.choice([30, 32, 33, 34])
        case, V = rawgen.random_case(rng, 3, 9, rev=rev)
        for b in case["buses"]:
            if rng.random() < .3:
                b["name"] = rng.choice(["MAIN ST", "a b c", "X_1", "Q", "0", "12345", "B-%d" % b["i"], "LONGNAME%d" % (b["i"] % 1000)])
        names = [b["name"] for b in case["buses"]]
        p = ctx.write("case.RAW", rawgen.write(case, rev))
    if rng.random() < .1:
        if three:
            glmgen.scale_loads(case, 60)
            p = ctx.write("net.glm", glmgen.write(case))
        else:
            for l in case["loads"]:
                l["pl"] = abs(l["pl"]) * 40 + 500
            p = ctx.write("case.RAW", rawgen.write(case, rev))
    res = api.solve_file(p, api.settings(**kw), infeasibility=inf)
    style = rng.choice(["flat", "nested", "dots", "over", "over", "relative"])
    stem = ctx.path({"flat": "r", "nested": "a/b/c/r", "dots": "r.1.x", "over": "r", "relative": "sub/r"}[style])
    if style == "over":
        for k in ("voltage", "power"):
            ctx.write(f"r_{k}.csv", "bus,name,x\n" + "junk,1,2,3\n" * 500)
    out = io.StringIO()
    before = os.getcwd()
    try:
        os.chdir(ctx.scratch)
        with contextlib.redirect_stdout(out):
            res.output(os.path.relpath(stem) if style == "relative" else stem)
            if rng.random() < .3:
                res.output(stem)            # a second time
            res.output(rng.choice([None, ""]))
            res.display(verbose=rng.random() < .5)
    finally:
        os.chdir(before)
    got = sorted(f for _, _, fs in os.walk(ctx.scratch) for f in fs if f.endswith(".csv"))
    name = os.path.basename(stem)
    ctx.count("outputs")
    ctx.state(three, inf, style, res.is_success)
    if not ctx.expect(got == sorted([f"{name}_power.csv", f"{name}_voltage.csv"]), "files", lambda: f"written: {got}"):
        return
    vt, pt = read(stem + "_voltage.csv"), read(stem + "_power.csv")
    ctx.expect(f"Successful: {res.is_success}" in out.getvalue(), "printed-verdict", "the verdict is missing from the display")
    if not res.is_success:
        ctx.count("failures")
        for t in (vt, pt):
            ctx.expect(t.strip() == "FAILURE", "failure-written-as-result", lambda: f"unsuccessful, but written: {t[:120]!r}")
        return
    ctx.count("successes")
    check_voltage(ctx, vt, res, three, case)
    check_power(ctx, pt, res)
    ctx.sample(vt[:200])
