"""Changes of description that leave the physics alone transform the solution accordingly."""
import cmath
import copy
import math

from vlib import api, rawgen, glmgen
from vlib.checks import C10, C11


# ------------------------------------------------------------------ RAW

def renumber(rng, case):
    c = copy.deepcopy(case)
    old = [b["i"] for b in c["buses"]]
    top = rng.choice([200, 9999, 999990])
    new = rng.sample(range(1, top), len(old))
    m = dict(zip(old, new))
    for b in c["buses"]:
        b["i"] = m[b["i"]]
    for k in ("loads", "fshunts", "gens", "sshunts"):
        for x in c[k]:
            x["i"] = m[x["i"]]
    for k in ("branches", "xfmrs"):
        for x in c[k]:
            x["i"], x["j"] = m[x["i"]], m[x["j"]]
    for t in c["xfmrs"]:
        t["cont"] = m.get(t["cont"], 0)
    for t in c["xfmrs3"]:
        t["b"] = tuple(m[b] for b in t["b"])
    return c, (lambda v: {m[b]: z for b, z in v.items()})


def reverse(rng, case):
    c = copy.deepcopy(case)
    for l in c["branches"]:
        if rng.random() < .6:
            l["i"], l["j"] = l["j"], l["i"]
            l["gi"], l["bi"], l["gj"], l["bj"] = l["gj"], l["bj"], l["gi"], l["bi"]
    for t in c["xfmrs"]:
        if rng.random() < .6:
            t["i"], t["j"] = t["j"], t["i"]
            t["windv1"], t["windv2"] = t["windv2"], t["windv1"]
            t["nomv1"], t["nomv2"] = t["nomv2"], t["nomv1"]
            t["ang"] = -t["ang"]
    for t in c["xfmrs3"]:
        if rng.random() < .6 and t["stat"] == 1:
            # 1 2 3 -> 2 3 1: pair impedances 12 23 31 become 23 31 12
            for k in ("r", "x", "sbase", "windv", "nomv", "ang"):
                t[k] = t[k][1:] + t[k][:1]
            t["b"] = t["b"][1:] + t["b"][:1]
    for k in ("branches", "xfmrs"):
        seen = set()
        for x in c[k]:
            # circuit ids have to stay unique per ordered pair
            while (x["i"], x["j"], x["ckt"]) in seen:
                x["ckt"] = rng.choice("ABCDEFGHJKLMNPQRSTUVWXYZ") + rng.choice("0123456789")
            seen.add((x["i"], x["j"], x["ckt"]))
    return c, dict


def split(rng, case):
    c = copy.deepcopy(case)
    fresh = lambda: rng.choice("ACDEFGHJK") + rng.choice("0123456789")
    for l in list(c["loads"]):
        if rng.random() < .5:
            a = rng.uniform(-.5, 1.5)
            n = dict(l)
            used = {x["id"] for x in c["loads"] if x["i"] == l["i"]}
            n["id"] = next(k for k in iter(fresh, None) if k not in used)
            for k in ("pl", "ql", "yp", "yq"):
                n[k], l[k] = l[k] * a, l[k] * (1 - a)
            c["loads"].append(n)
    for l in list(c["fshunts"]):
        if rng.random() < .5:
            n = dict(l)
            used = {x["id"] for x in c["fshunts"] if x["i"] == l["i"]}
            n["id"] = next(k for k in iter(fresh, None) if k not in used)
            for k in ("gl", "bl"):
                n[k], l[k] = l[k] * .3, l[k] * .7
            c["fshunts"].append(n)
    for l in list(c["branches"]):
        if rng.random() < .4:
            n = dict(l)
            n["ckt"] = next(k for k in iter(fresh, None) if not any(x["ckt"] == k and {x["i"], x["j"]} == {l["i"], l["j"]} for x in c["branches"]))
            a = rng.uniform(.3, .7)
            for k in ("r", "x"):
                n[k], l[k] = l[k] / a, l[k] / (1 - a)
            for k in ("b", "gi", "bi", "gj", "bj"):
                n[k], l[k] = l[k] * a, l[k] * (1 - a)
            c["branches"].append(n)
    ide = {b["i"]: b["ide"] for b in c["buses"]}
    for g in list(c["gens"]):
        if ide[g["i"]] == 2 and g["stat"] == 1 and abs(g["qt"] - g["qb"]) > 1 and rng.random() < .4:
            n = dict(g)
            used = {x["id"] for x in c["gens"] if x["i"] == g["i"]}
            n["id"] = next(k for k in iter(fresh, None) if k not in used)
            a = rng.uniform(.2, .8)
            for k in ("pg", "qt", "qb", "qg"):
                n[k], g[k] = g[k] * a, g[k] * (1 - a)
            c["gens"].append(n)
    return c, dict


def rotate(rng, case):
    c = copy.deepcopy(case)
    d = rng.uniform(-170, 170)
    for b in c["buses"]:
        b["va"] += d
    z = cmath.rect(1, math.radians(d))
    return c, (lambda v: {k: x * z for k, x in v.items()})


def raw(ctx, rng):
    rev = rng.choice([30, 32, 33, 34])
    case, V = rawgen.random_case(rng, 3, 10 if ctx.tier == "quick" else 30, rev=rev, features={"xf3": .4})
    st = api.settings(tolerance=1e-9)
    base = C10.outcome(ctx.write("base.RAW", rawgen.write(case, rev)), st)
    for name, f in rng.sample(sorted({"renumber": renumber, "reverse": reverse, "split": split, "rotate": rotate}.items()), 2):
        c, m = f(rng, case)
        other = C10.outcome(ctx.write(name + ".RAW", rawgen.write(c, rev)), st)
        ctx.count("pairs")
        ctx.count("raw_" + name)
        ctx.state("raw", name, rev, bool(case["xfmrs3"]), bool(case["xfmrs"]), bool(case["sshunts"]), "raised" in base)
        if "raised" in base or "raised" in other:
            ctx.expect(("raised" in base) == ("raised" in other), f"raw-{name}:verdict",
                       lambda: f"{base.get('raised', 'solved')} / {other.get('raised', 'solved')}")
            continue
        if api.erratic(base, other):
            ctx.count("erratic_pairs")
            continue
        if not ctx.expect(base["ok"] == other["ok"], f"raw-{name}:verdict", lambda: f"success {base['ok']} / {other['ok']}"):
            continue
        if not base["ok"]:
            continue
        own = {b["i"] for b in case["buses"]}
        want = m({b: v for b, v in base["v"].items() if b in own})      # star points have no number in the file
        ours = {b["i"] for b in c["buses"]}
        other["v"] = {b: v for b, v in other["v"].items() if b in ours}
        if not ctx.expect(set(want) == set(other["v"]), f"raw-{name}:buses", lambda: f"{sorted(set(want) ^ set(other['v']))[:8]}"):
            continue
        d = max(abs(want[k] - other["v"][k]) for k in want)
        if d < 1e-6:
            ctx.sample(f"raw {name} rev {rev}: {len(want)} buses, largest difference {d:.2e} pu")
        ctx.peak("raw:" + name, d)
        ctx.expect(d < 1e-6, f"raw-{name}:voltages", lambda: f"rev {rev}: voltages differ by {d:.3e} pu after {name}")
        if name != "renumber":
            for k in ("gens", "loads"):
                d = max((max(abs(x - y) for x, y in zip(base[k][i], other[k][i])) for i in base[k] if i in other[k]), default=0.0)
                ctx.expect(set(base[k]) == set(other[k]) and d < 1e-2, f"raw-{name}:{k}", lambda: f"{k} per bus differ by {d:.3e}")


# ------------------------------------------------------------------ GLM

def relabel(rng, net):
    """A -> B -> C -> A everywhere, with every phasor turned accordingly"""
    n = net.copy()
    P = {"A": "B", "B": "C", "C": "A"}
    z = glmgen.ROT
    f = lambda p: "".join(P.get(q, q) for q in p)
    D = lambda d: {f(k): v for k, v in d.items()}
    for nd in n.nodes.values():
        nd["phases"] = sorted(f(p) for p in nd["phases"])
        nd["e"] = {f(p): v * z for p, v in nd["e"].items()}
        nd["tphase"] = f(nd["tphase"]) if nd["tphase"] else None
    for l in n.lines:
        l["phases"] = sorted(f(p) for p in l["phases"])
        if l.get("tphase"):
            l["tphase"] = f(l["tphase"])
    for c in n.cfgs.values():
        if c["kind"] in ("oh", "ug"):
            c["phases"] = sorted(f(p) for p in c["phases"])
            c["pos"] = {f(p): v for p, v in c["pos"].items()}
        elif c["kind"] == "z":
            c["phases"] = sorted(f(p) for p in c["phases"])
            for k in ("z", "c"):
                if c.get(k):
                    c[k] = [[c[k][(a - 1) % 3][(b - 1) % 3] for b in range(3)] for a in range(3)]
    for t in n.xfmrs:
        t["phases"] = sorted(f(p) for p in t["phases"])
    for t in n.cts:
        t["phase"] = f(t["phase"])
        t["phases"] = [t["phase"]]
    for k in ("switches", "fuses"):
        for s in getattr(n, k):
            s["phases"] = sorted(f(p) for p in s["phases"])
            if "closed" in s:
                s["closed"] = D(s["closed"])
    for r in n.regs:
        r["taps"] = D(r["taps"])
    for c in n.caps:
        c["phases"] = sorted(f(p) for p in c["phases"])
        c["connected"] = sorted(f(p) for p in c["connected"])
        c["var"], c["closed"] = D(c["var"]), D(c["closed"])
    for l in n.loads:
        l["phases"] = sorted(f(p) for p in l["phases"])
        l["terms"] = {(k, f(c)): (v * z if k == "I" else v) for (k, c), v in l["terms"].items()}
    return n, (lambda v: {(a, f(p)): x * z for (a, p), x in v.items()})


def turn(rng, net):
    n = net.copy()
    z = cmath.rect(1, math.radians(rng.uniform(-25, 25)))
    for nd in n.nodes.values():
        nd["e"] = {p: v * z for p, v in nd["e"].items()}
    for l in n.loads:
        l["terms"] = {(k, c): (v * z if k == "I" else v) for (k, c), v in l["terms"].items()}
    return n, (lambda v: {k: x * z for k, x in v.items()})


def rename(rng, net):
    n = net.copy()
    names = list(n.nodes)
    style = rng.choice(["Zq%d", "bus_%d", "%d_n", "NODE%d", "a-b-%d", "n.%d"])
    nums = rng.sample(range(1, 9999), len(names))
    m = {a: (a if ":" in a else style % k) for a, k in zip(names, nums)}
    for a in names:
        n.nodes[a]["name"] = m[a]
    n.nodes = {m[a]: nd for a, nd in n.nodes.items()}
    for nd in n.nodes.values():
        if nd["parent"]:
            nd["parent"] = m[nd["parent"]]
    for k in ("lines", "xfmrs", "cts", "switches", "fuses", "regs"):
        for e in getattr(n, k):
            e["from"], e["to"] = m[e["from"]], m[e["to"]]
    for c in n.caps:
        c["parent"] = m[c["parent"]]
    for l in n.loads:
        if l.get("own_node"):
            l["name"] = m[l["node"]]
        l["node"] = m[l["node"]]
    n.swing = m[n.swing]
    return n, (lambda v: {(m[a], p): x for (a, p), x in v.items()})


def turnround(rng, net):
    n = net.copy()
    for k in ("lines", "switches", "fuses"):
        for e in getattr(n, k):
            if rng.random() < .6:
                e["from"], e["to"] = e["to"], e["from"]
    return n, dict


def halve(rng, net):
    """split loads in two objects and lines in two sections with a new node between them"""
    n = net.copy()
    for l in list(n.loads):
        if l.get("on_triplex") or rng.random() < .4:
            continue
        a = rng.uniform(.2, .8)
        half = copy.deepcopy(l)
        half["name"], half["own_node"] = l["name"] + "_b" if ":" not in l["name"] else n.name("ldb"), False
        for t, v in l["terms"].items():
            half["terms"][t] = v / a if t[0] == "Z" else v * a
            l["terms"][t] = v / (1 - a) if t[0] == "Z" else v * (1 - a)
        n.add("loads", half)
    extra = set()
    for l in list(n.lines):
        if n.cfgs[l["cfg"]]["kind"] == "tpx" or rng.random() < .5:
            continue
        src = n.nodes[n.root(l["from"])]
        mid = n.name("mid")
        n.node(mid, l["phases"], {p: src["e"][p] for p in l["phases"]}, src["nom"])
        extra.add(mid)
        a = rng.uniform(.2, .8)
        second = dict(l, name=n.name("half"), length_ft=l["length_ft"] * (1 - a))
        second["from"] = mid
        l["to"], l["length_ft"] = mid, l["length_ft"] * a
        n.add("lines", second)
    return n, (lambda v: v), extra


def glm(ctx, rng):
    net = glmgen.random_net(rng, 3, 10 if ctx.tier == "quick" else 30, {"noguess": 0.0, "dd": .1})
    chosen = rng.sample(["halve", "relabel", "rename", "turn", "turnround"], 2)
    # a line divided in two has two nominal pi sections instead of one: not the same thing when it is charged
    cap = "halve" not in chosen
    if cap and rng.random() < .5:
        for l in net.lines:
            if net.nodes[net.root(l["from"])]["nom"] > 1000:
                l["length_ft"] *= 5
        glmgen.scale_loads(net, .3)
    ctx.count("charged" if cap else "uncharged")
    st = api.settings(tolerance=1e-6, enable_line_capacitance=cap)
    base = C11.outcome(ctx.write("base.glm", glmgen.write(net)), st)
    for name in chosen:
        f = {"relabel": relabel, "turn": turn, "rename": rename, "turnround": turnround, "halve": halve}[name]
        n, m, *rest = f(rng, net)
        extra = rest[0] if rest else set()
        other = C11.outcome(ctx.write(name + ".glm", glmgen.write(n)), st)
        ctx.count("pairs")
        ctx.count("glm_" + name)
        for x in glmgen.features_of(net):
            ctx.state(name, *x)
        if "raised" in base or "raised" in other:
            ctx.expect(("raised" in base) == ("raised" in other), f"glm-{name}:verdict",
                       lambda: f"{base.get('raised', 'solved')} / {other.get('raised', 'solved')}")
            continue
        dd = any(t["conn"] == "DD" for t in net.xfmrs)
        if dd and not (base["ok"] and other["ok"]):
            continue                 # floating secondaries may or may not converge
        if api.erratic(base, other):
            ctx.count("erratic_pairs")
            continue
        if not ctx.expect(base["ok"] == other["ok"], f"glm-{name}:verdict", lambda: f"success {base['ok']} / {other['ok']}"):
            continue
        if not base["ok"]:
            continue
        want = m(base["v"])
        have = {k: v for k, v in other["v"].items() if k[0] not in extra}
        if not ctx.expect(set(want) == set(have), f"glm-{name}:nodes", lambda: f"{sorted(set(want) ^ set(have))[:8]}"):
            continue
        d, k = max((abs(want[k] - have[k]) / max(1.0, abs(want[k])), k) for k in want)
        ctx.peak("glm:" + name, d)
        ctx.expect(d < 2e-6, f"glm-{name}:voltages", lambda: f"voltage at {k} differs by {d:.3e} relative after {name}")


def run_case(ctx):
    if ctx.rng.random() < .5:
        raw(ctx, ctx.rng)
    else:
        glm(ctx, ctx.rng)
