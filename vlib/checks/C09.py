"""Connected networks are accepted, split ones and mixed-voltage regions are refused."""
import re

from vlib import api, glmgen, rawgen


class UF:
    def __init__(self, items):
        self.p = {i: i for i in items}

    def find(self, i):
        while self.p[i] != i:
            i = self.p[i]
        return i

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)

    def sets(self):
        out = {}
        for i in self.p:
            out.setdefault(self.find(i), set()).add(i)
        return list(out.values())


def attempt(path, **kw):
    try:
        return api.solve_file(path, api.settings(**kw)), None
    except Exception as e:
        return None, str(e)


def raw_islands(case):
    on, off = rawgen.online(case)
    u = UF(on)
    for l in case["branches"]:
        if l["st"] == 1 and l["i"] not in off and l["j"] not in off:
            u.join(l["i"], l["j"])
    for t in case["xfmrs"]:
        if t["stat"] == 1 and t["i"] not in off and t["j"] not in off:
            u.join(t["i"], t["j"])
    for t in case["xfmrs3"]:
        if t["stat"] == 0:
            continue
        w = [b for b, _, _ in rawgen.xfmr3_params(case, t)]
        for b in w[1:]:
            u.join(w[0], b)
    return len(u.sets())


def raw(ctx, rng):
    rev = rng.choice([30, 32, 33, 34])
    case, V = rawgen.random_case(rng, 3, 10 if ctx.tier == "quick" else 40, rev=rev,
                                 features={"off_bus": .3, "parallel": .3, "xf3": .4})
    cut = rng.choice(["none", "branch", "branch", "bus", "xf3", "new", "many"])
    if cut in ("branch", "many"):
        for _ in range(rng.randint(1, 4) if cut == "many" else rng.randint(1, 2)):
            pool = [(k, e) for k in ("branches", "xfmrs") for e in case[k]]
            if pool:
                k, e = rng.choice(pool)
                if rng.random() < .5:
                    e["st" if k == "branches" else "stat"] = 0
                else:
                    case[k].remove(e)
    elif cut == "bus":
        # a bus out of service takes its branches with it
        b = rng.choice([b for b in case["buses"] if b["ide"] not in (3, 4)])
        b["ide"] = 4
    elif cut == "xf3" and case["xfmrs3"]:
        rng.choice(case["xfmrs3"])["stat"] = rng.choice([0, 2, 3, 4])
    elif cut == "new":
        nums = [b["i"] for b in case["buses"]]
        x = next(k for k in range(1, 10 ** 6) if k not in nums)
        case["buses"].append(rawgen.bus(x, 1, 1.0, 0.0, 138.0, name=f"N{x}"))
        if rng.random() < .5:
            case["loads"].append(rawgen.load(x, 10, 5))
        if rng.random() < .5:
            case["branches"].append(rawgen.branch(x, rng.choice(nums), .01, .1, st=0, ckt="7"))
    n = raw_islands(case)
    dup = rng.random() < .12
    if dup:
        # names are free text and need not be unique (or present)
        a, b = rng.sample([b for b in case["buses"] if b["ide"] != 4], 2)
        if rng.random() < .5:
            b["name"] = a["name"]
        else:
            a["name"] = b["name"] = ""
    p = ctx.write("net.RAW", rawgen.write(case, rev))
    res, e = attempt(p)
    ctx.count("raw_one" if n == 1 else "raw_split")
    ctx.state("raw", cut, min(n, 4), dup, bool(case["xfmrs3"]))
    if n == 1:
        ctx.expect(e is None or "island" not in e.lower(), "connected-refused", lambda: f"one island by the file's own elements: {e}")
        if cut == "none" and not dup:
            ctx.expect(e is None, "connected-raised", lambda: f"{e}")
    else:
        ok = res is None
        ctx.expect(ok, "duplicate-names-hide-islands" if dup else "split-solved",
                   lambda: f"{n} islands, but solved (success={res.is_success})")
        m = re.search(r"Count: (\d+)", e or "")
        if ok and m and not dup:
            ctx.expect(int(m.group(1)) == n, "island-count", lambda: f"{n} islands by the file's elements, reported: {e}")


def glm_graph(net, regions=False):
    """partition of the root nodes; with `regions`, across everything but transformers and regulators"""
    u = UF([n for n, nd in net.nodes.items() if nd["parent"] is None])
    for l in net.lines:
        u.join(net.root(l["from"]), net.root(l["to"]))
    if not regions:
        for t in net.xfmrs + net.cts + net.regs:
            u.join(net.root(t["from"]), net.root(t["to"]))
    for s in net.switches:
        if any(s["closed"].get(p, True) for p in s["phases"]):
            u.join(net.root(s["from"]), net.root(s["to"]))
    for f in net.fuses:
        if any(f.get("status", {}).get(p, "GOOD") == "GOOD" for p in f["phases"]):
            u.join(net.root(f["from"]), net.root(f["to"]))
    return u.sets()


def drop(net, kind, obj):
    getattr(net, kind).remove(obj)
    net.order = [(k, o) for k, o in net.order if o is not obj]


def glm_split(ctx, rng, net):
    cut = rng.choice(["none", "open", "open", "partial", "remove", "remove", "blown", "orphan"])
    partial = False
    if cut in ("open", "partial") and net.switches:
        s = rng.choice(net.switches)
        s["closed"] = {p: False for p in s["phases"]}
        if cut == "partial":
            s["closed"][rng.choice(s["phases"])] = True
            partial = True
    elif cut == "remove":
        pool = [(k, e) for k in ("lines", "xfmrs", "cts", "regs", "switches", "fuses") for e in getattr(net, k)]
        for _ in range(rng.randint(1, 2)):
            if len(pool) > 1:
                k, e = pool.pop(rng.randrange(len(pool)))
                drop(net, k, e)
    elif cut == "blown" and net.fuses:
        f = rng.choice(net.fuses)
        f["status"] = {p: rng.choice(["BLOWN", "OPEN"]) for p in f["phases"]}
    elif cut == "orphan":
        net.node("orphan", list("ABC"), glmgen.balanced(7200.0), 7200.0)
        if rng.random() < .5:
            net.add("loads", {"name": "ld_orphan", "node": "orphan", "phases": list("ABC"), "nom": 7200.0,
                              "terms": {("S", "A"): 100 + 0j}})
    n = len(glm_graph(net))
    p = ctx.write("net.glm", glmgen.write(net))
    res, e = attempt(p, enable_line_capacitance=False)
    ctx.count("glm_one" if n == 1 else "glm_split")
    ctx.state("glm", cut, min(n, 4), partial)
    if n == 1:
        ctx.expect(e is None or "island" not in e.lower(), "feeder-refused", lambda: f"one island by the file's own elements: {e}")
        if cut in ("none", "remove"):
            ctx.expect(e is None, "feeder-raised", lambda: f"{e}")
    else:
        ctx.expect(res is None, "split-feeder-solved", lambda: f"{n} islands, but solved (success={res.is_success})")
        m = re.search(r"Count: (\d+)", e or "")
        if res is None and m:
            ctx.expect(int(m.group(1)) == n, "island-count", lambda: f"{n} islands by the file's elements, reported: {e}")


def glm_regions(ctx, rng, net):
    reg = glm_graph(net, True)
    kind = rng.choice(["one", "one", "one", "small", "region", "region"])
    d = rng.choice([-1, 1]) * (rng.uniform(25, 60) if kind != "small" else rng.uniform(0, 4))
    roots = [n for n, nd in net.nodes.items() if nd["parent"] is None and n != net.swing]
    if kind == "region":
        # a whole region between transformers and regulators at another voltage is fine
        names = sorted(rng.choice(reg))
        if net.root(net.swing) in names:
            return
    else:
        names = [rng.choice(roots)]
    for nm in names + [n for n, nd in net.nodes.items() if nd["parent"] is not None and net.root(n) in names]:
        nd = net.nodes[nm]
        k = 1 + d / nd["nom"]
        nd["nom"] += d
        nd["e"] = {p: v * k for p, v in nd["e"].items()}
        for l in net.loads:
            if l.get("own_node") and l["name"] == nm:
                l["nom"] = nd["nom"]
    mine = next(r for r in reg if names[0] in r)
    bad = kind == "one" and len(mine) > 1
    p = ctx.write("net.glm", glmgen.write(net))
    res, e = attempt(p, enable_line_capacitance=False)
    ctx.state("region", kind, len(mine) > 1, len(reg) > 2, "phases%d" % len(net.nodes[names[0]]["phases"]))
    if bad:
        ctx.count("mixed_regions")
        ctx.expect(res is None, "mixed-region-solved",
                   lambda: f"node {names[0]} is {d:.1f} V away from the {len(mine) - 1} other nodes of its region, yet it was solved")
    else:
        ctx.count("uniform_regions")
        ctx.expect(e is None, "uniform-region-refused", lambda: f"{kind} shifted by {d:.2f} V ({len(mine)} nodes): {e}")


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < .5:
        raw(ctx, rng)
        return
    net = glmgen.random_net(rng, 3, 10 if ctx.tier == "quick" else 25,
                            {"switch": .4, "fuse": .4, "ct": .4, "xfmr": .4, "reg": .3, "loop": .4, "dd": .05, "load": .6})
    if rng.random() < .5:
        glm_split(ctx, rng, net)
    else:
        glm_regions(ctx, rng, net)
