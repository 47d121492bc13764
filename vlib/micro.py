"""Microgrids: cutting a feeder in two, keeping one part, a generator that is a negative load."""
import cmath

from vlib import glmgen
from vlib.checks.C09 import drop, glm_graph


def component(net, name):
    return next(set(s) for s in glm_graph(net) if name in s)


def restrict(net, names):
    """the feeder with only what belongs to the given (root) nodes"""
    n = net.copy()
    inside = lambda a: n.root(a) in names
    for k in ("lines", "xfmrs", "cts", "regs", "switches", "fuses"):
        for o in list(getattr(n, k)):
            if not (inside(o["from"]) and inside(o["to"])):
                drop(n, k, o)
    for o in list(n.caps):
        if not inside(o["parent"]):
            drop(n, "caps", o)
    for o in list(n.loads):
        if not inside(o["node"]):
            drop(n, "loads", o)
    gone = [k for k in n.nodes if not inside(k)]
    n.order = [(k, o) for k, o in n.order if not (k == "node" and o["name"] in gone)]
    for k in gone:
        n.nodes.pop(k)
    return n


def split_off(rng, net):
    """cut the feeder at one of its elements; returns the name of the node that becomes the source of the part cut off"""
    pool = [(k, o) for k in ("switches", "lines", "fuses", "regs") for o in getattr(net, k)
            if len(o["phases"] if k != "regs" else "ABC") == 3 and net.nodes[net.root(o["to"])]["nom"] > 1000]
    rng.shuffle(pool)
    for kind, o in pool:
        n = net.copy()
        mine = next(x for x in getattr(n, kind) if x["name"] == o["name"])
        how = rng.choice(["open", "open", "blown", "gone"])
        if kind == "switches" and how != "gone":
            mine["closed"] = {p: False for p in mine["phases"]}
        elif kind == "fuses" and how != "gone":
            mine["status"] = {p: "BLOWN" for p in mine["phases"]}
        else:
            drop(n, kind, mine)
        b = n.root(o["to"])
        if n.root(n.swing) in component(n, b) or n.nodes[b].get("load_only"):
            continue
        n.swings = {b}
        nd = n.nodes[b]
        # the swing keeps its angle; it must state its voltages
        nd["guess"] = True
        nd["e"] = {p: cmath.rect(nd["nom"], cmath.phase(v)) for p, v in nd["e"].items()}
        return n, b, kind, how
    return None
