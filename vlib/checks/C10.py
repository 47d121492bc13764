"""RAW files that say the same thing in another way solve to the same result."""
import copy

from vlib import api, rawgen

TOL = 1e-7


def outcome(path, st):
    try:
        r = api.solve_file(path, st)
    except Exception as e:
        return {"raised": type(e).__name__ + ": " + str(e)[:200]}
    gens = {}
    for g in r.generator_results:
        b = g.generator.bus.Bus
        p, q = gens.get(b, (0.0, 0.0))
        gens[b] = (p + g.P, q + g.Q)
    loads = {}
    for l in r.load_results:
        b = l.load.from_bus.Bus
        p, q = loads.get(b, (0.0, 0.0))
        loads[b] = (p + l.P, q + l.Q)
    return {"ok": r.is_success, "it": r.iterations, "v": api.voltages_by_bus(r), "gens": gens, "loads": loads,
            "types": sorted((g.generator.bus.Bus, g.type_str) for g in r.generator_results)}


def strip_offline(case):
    """the same case without anything that is out of service"""
    c = copy.deepcopy(case)
    off = {b["i"] for b in c["buses"] if b["ide"] == 4}
    needed = {b for t in c["xfmrs3"] if t["stat"] != 0 for b in t["b"]}      # other windings may be in service
    c["buses"] = [b for b in c["buses"] if b["i"] not in off or b["i"] in needed]
    c["loads"] = [l for l in c["loads"] if l["status"] == 1 and l["i"] not in off]
    c["fshunts"] = [l for l in c["fshunts"] if l["status"] == 1 and l["i"] not in off]
    c["gens"] = [l for l in c["gens"] if l["stat"] == 1 and l["i"] not in off]
    c["branches"] = [l for l in c["branches"] if l["st"] == 1 and l["i"] not in off and l["j"] not in off]
    c["xfmrs"] = [l for l in c["xfmrs"] if l["stat"] == 1 and l["i"] not in off and l["j"] not in off]
    c["xfmrs3"] = [l for l in c["xfmrs3"] if l["stat"] != 0]
    c["sshunts"] = [l for l in c["sshunts"] if l["stat"] == 1 and l["i"] not in off]
    return c


def add_offline(rng, case, rev):
    """more elements that are out of service, with data that would matter"""
    c = copy.deepcopy(case)
    nums = [b["i"] for b in c["buses"] if b["ide"] != 4]
    for _ in range(rng.randint(1, 5)):
        b = rng.choice(nums)
        k = rng.choice(["load", "shunt", "gen", "branch", "xfmr", "xfmr3", "sshunt", "bus"])
        if k == "load":
            c["loads"].append(rawgen.load(b, 400, 100, id="Y%d" % rng.randint(0, 9), status=0))
        elif k == "shunt" and rev != 30:
            c["fshunts"].append({"i": b, "id": "Y%d" % rng.randint(0, 9), "status": 0, "gl": 80.0, "bl": -200.0})
        elif k == "gen":
            c["gens"].append(rawgen.gen(b, 500, 1.2, id="Y%d" % rng.randint(0, 9), stat=0))
        elif k in ("branch", "xfmr"):
            a = rng.choice([n for n in nums if n != b])
            if k == "branch" and not any({l["i"], l["j"]} == {a, b} and l["ckt"] == "8" for l in c["branches"]):
                c["branches"].append(rawgen.branch(a, b, .0001, .002, 2.0, ckt="8", st=0))
            elif k == "xfmr" and not any({l["i"], l["j"]} == {a, b} and l["ckt"] == "8" for l in c["xfmrs"]):
                c["xfmrs"].append(rawgen.xfmr(a, b, .0001, .02, ckt="8", windv1=1.3, ang=40.0, stat=0))
        elif k == "xfmr3" and len(nums) > 2 and not any(t["ckt"] == "8" for t in c["xfmrs3"]):
            c["xfmrs3"].append(rawgen.xfmr3(*rng.sample(nums, 3), [0.0] * 3, [.01] * 3, ckt="8", windv=(1.2, 1.0, .8), stat=0))
        elif k == "sshunt" and rev != 30 and not any(s["i"] == b for s in c["sshunts"]):
            c["sshunts"].append(rawgen.sshunt(b, 300.0, modsw=rng.choice([1, 2]), stat=0))
        elif k == "bus":
            x = next(i for i in range(rng.randint(1, 5000), 10 ** 6) if i not in {q["i"] for q in c["buses"]})
            c["buses"].append(rawgen.bus(x, 4, .5, 20.0, 69.0, name=f"N{x}"))
            c["loads"].append(rawgen.load(x, 900, 400))
            if not any({l["i"], l["j"]} == {x, b} for l in c["branches"]):
                c["branches"].append(rawgen.branch(*rng.sample([x, b], 2), .001, .01, 1.0))
            if rng.random() < .5:
                c["gens"].append(rawgen.gen(x, 100, 1.1))
    return c


def reorder(rng, case):
    c = copy.deepcopy(case)
    for k in ("buses", "loads", "fshunts", "gens", "branches", "xfmrs", "xfmrs3", "sshunts"):
        rng.shuffle(c[k])
    return c


def noise(rng, case):
    """data a power flow solution must not depend on"""
    c = copy.deepcopy(case)
    for b in c["buses"]:
        b["name"] = rng.choice([f"'{b['i']}"[1:], f"S{b['i']}", f"SUB {b['i']} B", f"LONGNAME{b['i']}"])
    for g in c["gens"]:
        g["pt"], g["pb"] = abs(g["pg"]) + rng.uniform(50, 500), -abs(g["pg"]) - 50.0
    for t in c["xfmrs"]:
        t["rata"] = rng.choice([0.0, 50.0, 400.0])
        t["ntp"] = rng.choice([33, 17, 5])
        t["rma"], t["rmi"] = 1.15, .85
    return c


def recode(rng, case):
    """the same transformers with their ratios and impedances in other units"""
    c = copy.deepcopy(case)
    kv = {b["i"]: b["kv"] for b in c["buses"]}
    for t in c["xfmrs"] + c["xfmrs3"]:
        three = "b" in t
        ends = t["b"] if three else (t["i"], t["j"])
        nom = list(t["nomv"]) if three else [t["nomv1"], t["nomv2"]]
        wv = list(t["windv"]) if three else [t["windv1"], t["windv2"]]
        if three or t["cod"] == 0:
            # winding voltages: to kV, then to the new unit
            volts = [v * {1: kv[b], 2: 1.0, 3: n if n > 0 else kv[b]}[t["cw"]] for v, n, b in zip(wv, nom, ends)]
            t["cw"] = rng.choice([1, 2, 3])
            if t["cw"] == 3 and rng.random() < .5:
                nom = [round(kv[b] * rng.uniform(.9, 1.1), 3) for b in ends]
            wv = [v / {1: kv[b], 2: 1.0, 3: n if n > 0 else kv[b]}[t["cw"]] for v, n, b in zip(volts, nom, ends)]
            if three:
                t["nomv"], t["windv"] = nom, wv
            else:
                t["nomv1"], t["nomv2"], t["windv1"], t["windv2"] = *nom, *wv
        rs, xs, sbs = (t["r"], t["x"], t["sbase"]) if three else ([t["r"]], [t["x"]], [t["sbase"]])
        if t["cz"] == 3 or min(xs) <= 0 or min(rs) < 0:
            continue
        z = [complex(r, x) * (1 if t["cz"] == 1 else case["sbase"] / sb) for r, x, sb in zip(rs, xs, sbs)]
        t["cz"] = rng.choice([1, 2, 3])
        sbs = [round(rng.uniform(20, 400), 2) for _ in z]
        if t["cz"] > 1:
            z = [q * sb / case["sbase"] for q, sb in zip(z, sbs)]
        rs, xs = [q.real for q in z], [q.imag for q in z]
        if t["cz"] == 3:
            rs, xs = [q.real * 1e6 * sb for q, sb in zip(z, sbs)], [abs(q) for q in z]
        t["r"], t["x"], t["sbase"] = (rs, xs, sbs) if three else (rs[0], xs[0], sbs[0])
    return c


def compare(ctx, what, a, b, msg):
    if "raised" in a or "raised" in b:
        ctx.expect(("raised" in a) == ("raised" in b), f"{what}:verdict", lambda: f"{msg}: {a.get('raised', 'solved')} / {b.get('raised', 'solved')}")
        return
    if api.erratic(a, b):
        ctx.count("erratic_pairs")
        return
    if not ctx.expect(a["ok"] == b["ok"], f"{what}:verdict", lambda: f"{msg}: success {a['ok']} / {b['ok']}"):
        return
    if not a["ok"]:
        ctx.count("both_unsuccessful")
        return
    if not ctx.expect(set(a["v"]) == set(b["v"]), f"{what}:buses", lambda: f"{msg}: reported buses {sorted(set(a['v']) ^ set(b['v']))[:8]} differ"):
        return
    d = max(abs(a["v"][k] - b["v"][k]) for k in a["v"])
    ctx.peak("dv:" + what, d)
    ctx.expect(d < TOL, f"{what}:voltages", lambda: f"{msg}: voltages differ by {d:.3e} pu")
    ctx.expect(a["types"] == b["types"], f"{what}:machines", lambda: f"{msg}: machines {a['types']} / {b['types']}")
    for k in ("gens", "loads"):
        if not ctx.expect(set(a[k]) == set(b[k]), f"{what}:{k}", lambda: f"{msg}: {k} at {sorted(set(a[k]) ^ set(b[k]))[:8]}"):
            continue
        d = max((max(abs(x - y) for x, y in zip(a[k][i], b[k][i])) for i in a[k]), default=0.0)
        ctx.expect(d < 1e-3, f"{what}:{k}", lambda: f"{msg}: reported {k} differ by {d:.3e}")


def run_case(ctx):
    rng = ctx.rng
    r30 = rng.random() < .3
    case, V = rawgen.random_case(rng, 3, 10 if ctx.tier == "quick" else 30, rev=30 if r30 else 33, features={"vsdiff": .5})
    if r30:
        case["sshunts"] = [s for s in case["sshunts"] if s["stat"] == 1]
    revs = [30, 32, 33, 34] if r30 else [32, 33, 34]
    rev = rng.choice(revs)
    st = api.settings(tolerance=1e-9, **({"tx_stepping": True} if rng.random() < .1 else {}))
    base = outcome(ctx.write("base.RAW", rawgen.write(case, rev)), st)
    for what in rng.sample(["revision", "delimiter", "comments", "padding", "order", "offline", "moreoffline", "noise", "blank", "all", "eol", "base", "codes"], 5):
        kw, c, r2 = {}, case, rev
        if what in ("revision", "all"):
            r2 = rng.choice([r for r in revs if r != rev])
        if what == "delimiter" or (what == "all" and rng.random() < .3):
            if r2 == 30:
                continue
            kw["delim"] = " "
        if what in ("comments", "all") and r2 != 30:
            kw["comments"] = True
        if what == "padding" or (what == "all" and "delim" not in kw):
            kw["pad"] = True
        if what in ("order", "all"):
            c = reorder(rng, c)
        if what in ("offline",):
            c = strip_offline(c)
        if what in ("moreoffline", "all"):
            c = add_offline(rng, c, 30 if 30 in (rev, r2) else 33)
        if what in ("codes", "all") and (what == "codes" or rng.random() < .5):
            c = recode(rng, c)
        if what in ("base", "all") and (what == "base" or rng.random() < .5):
            c = dict(c, fbase=rng.choice([1.0, 10.0, 50.0, 100.0, 1000.0, round(rng.uniform(5, 500), 1)]))
        if what in ("noise", "all"):
            c = noise(rng, c)
        if what == "blank" or (what == "all" and "delim" not in kw):
            kw["blank"] = .7
        if what == "eol":
            kw["eol"] = .5
        if rng.random() < .3:
            kw["trailing"] = False
        other = outcome(ctx.write(f"{what}.RAW", rawgen.write(c, r2, rng=rng, **kw)), st)
        if what == "eol" and "raised" in other:
            ctx.count("eol_refused")      # end-of-record comments are not supported everywhere; refusing is fine
            continue
        ctx.count("pairs")
        ctx.count("pairs:" + what)
        compare(ctx, what, base, other, f"rev {rev} against {what} (rev {r2}, {kw})")
        ctx.state(what, rev, r2, sorted(kw), bool(case["xfmrs3"]), bool(case["sshunts"]), "raised" in base)
    if "raised" not in base and base["ok"]:
        ctx.count("solved_bases")
