"""Feeder files that say the same thing in another way solve to the same result."""
from vlib import api, glmgen

REL = 1e-6


def outcome(path, st):
    try:
        r = api.solve_file(path, st)
    except Exception as e:
        return {"raised": type(e).__name__ + ": " + str(e)[:200]}
    loads = {}
    for l in r.load_results:
        k = (l.load.from_bus.NodeName, l.load.from_bus.NodePhase, l.load.to_bus.NodePhase)
        p, q = loads.get(k, (0.0, 0.0))
        loads[k] = (p + l.P, q + l.Q)
    gens = {}
    for g in r.generator_results:
        k = (g.generator.bus.NodeName, g.generator.bus.NodePhase)
        gens[k] = (g.P, g.Q, g.type_str)
    return {"ok": r.is_success, "it": r.iterations, "v": api.voltages_by_node(r), "loads": loads, "gens": gens}


def respell(rng, net, only=None):
    """the same network in other units and spellings"""
    n = net.copy()

    def flip(o, key, f="not"):
        if rng.random() < .6:
            o[key] = (not o.get(key)) if f == "not" else f

    for l in n.lines:
        if rng.random() < .6:
            l["km"] = rng.choice([None, "attached", "blank", "mile", "mi"])
        flip(l, "ft")
    for c in n.cfgs.values():
        if c["kind"] in ("oh", "ug"):
            flip(c, "inches")
            flip(c, "unit", rng.choice([None, "ft"]))
            if rng.random() < .5:
                c["metric"] = rng.choice([None, "attached", "blank"])
        elif c["kind"] == "z":
            for k in ("metric", "stated", "i", "conductors"):
                flip(c, k)
    for t in n.xfmrs + n.cts:
        flip(t, "longconn", not t.get("longconn", True))
        flip(t, "units")
        for k in ("kv", "kv2"):
            if rng.random() < .5:
                t[k] = rng.choice([None, "attached", "blank"])
        if t.get("x1") is None:
            flip(t, "style", "rx" if t["style"] == "impedance" else "impedance")
    for l in n.loads:
        flip(l, "short")
    for f in n.fuses:
        flip(f, "units")
    for s in n.switches:
        flip(s, "recloser")
    glmgen.drop_states(n, rng)
    return n


def clutter(rng, net):
    """a recloser or meter here and there, unused configurations, other names for the class of a node"""
    n = net.copy()
    for i in range(rng.randint(1, 3)):
        ph = rng.choice([list("ABC"), ["A"], ["B", "C"]])
        n.cfgs[f"unused{i}"] = glmgen.oh_cfg(rng, ph)
    for nd in n.nodes.values():
        if ":" in nd["name"]:
            continue                 # the class is part of the name
        if nd["cls"] in ("node", "meter") and rng.random() < .5:
            nd["cls"] = "meter" if nd["cls"] == "node" else "node"
        elif nd["cls"] in ("triplex_node", "triplex_meter") and rng.random() < .5:
            nd["cls"] = "triplex_node" if nd["cls"] == "triplex_meter" else "triplex_meter"
    return n


def compare(ctx, what, a, b, msg):
    if "raised" in a or "raised" in b:
        ctx.expect(("raised" in a) == ("raised" in b), f"{what}:verdict", lambda: f"{msg}: {a.get('raised', 'solved')} / {b.get('raised', 'solved')}")
        return
    if api.erratic(a, b):
        ctx.count("erratic_pairs")
        return
    if not ctx.expect(a["ok"] == b["ok"], f"{what}:verdict", lambda: f"{msg}: success {a['ok']} / {b['ok']}"):
        return
    if not a["ok"]:
        ctx.count("both_unsuccessful")
        return
    if not ctx.expect(set(a["v"]) == set(b["v"]), f"{what}:nodes", lambda: f"{msg}: reported {sorted(set(a['v']) ^ set(b['v']))[:8]}"):
        return
    d, k = max((abs(a["v"][k] - b["v"][k]) / max(1.0, abs(a["v"][k])), k) for k in a["v"])
    ctx.peak("dv:" + what, d)
    ctx.expect(d < REL, f"{what}:voltages", lambda: f"{msg}: voltage at {k} differs by {d:.3e} relative")
    if ctx.expect(set(a["loads"]) == set(b["loads"]), f"{what}:loads", lambda: f"{msg}: loads {sorted(set(a['loads']) ^ set(b['loads']))[:6]}"):
        d = max((max(abs(x - y) / max(1.0, abs(x)) for x, y in zip(a["loads"][i], b["loads"][i])) for i in a["loads"]), default=0.0)
        ctx.expect(d < 1e-6, f"{what}:loads", lambda: f"{msg}: loads differ by {d:.3e}")
    s = max([abs(complex(*g[:2])) for g in a["gens"].values()] + [1.0])
    if ctx.expect(set(a["gens"]) == set(b["gens"]), f"{what}:sources", lambda: f"{msg}: sources differ"):
        d = max((abs(complex(*a["gens"][i][:2]) - complex(*b["gens"][i][:2])) / s for i in a["gens"]), default=0.0)
        ctx.expect(d < 1e-5, f"{what}:sources", lambda: f"{msg}: source powers differ by {d:.3e} relative")


def run_case(ctx):
    rng = ctx.rng
    net = glmgen.random_net(rng, 3, 10 if ctx.tier == "quick" else 30, {"switch": .3, "fuse": .25, "openswitch": .2})
    st = api.settings(tolerance=1e-6, **({"enable_line_capacitance": False} if rng.random() < .5 else {}))
    base = outcome(ctx.write("base.glm", glmgen.write(net, None, {"header": True})), st)
    styles = {
        "whitespace": {"indent": True, "tabs": True, "blank": True},
        "comments": {"comments": True},
        "quotes": {"quotes": True},
        "semicolons": {"nosemi": True},
        "headerless": {"header": False},
        "config_order": {"shuffle_cfg": True},
        "element_order": {"shuffle_el": True},
        "property_order": {"shuffle_props": True},
        "recorders": {"recorders": True},
        "respelled": {}, "clutter": {},
        "all": {"indent": True, "blank": True, "comments": True, "quotes": True, "nosemi": True, "shuffle_cfg": True,
                "shuffle_el": True, "shuffle_props": True, "recorders": True},
    }
    for what in rng.sample(sorted(styles), 4):
        n = net
        if what in ("respelled", "all"):
            n = respell(rng, n)
        if what in ("clutter", "all"):
            n = clutter(rng, n)
        other = outcome(ctx.write(f"{what}.glm", glmgen.write(n, rng, styles[what])), st)
        ctx.count("pairs")
        ctx.count("pairs:" + what)
        compare(ctx, what, base, other, f"plain file against {what}")
        for f in glmgen.features_of(net):
            ctx.state(what, *f)
    if base.get("ok"):
        ctx.count("solved_bases")
