"""Controlled devices: the states a successful solve ends in agree with the controls, and nothing else moves."""
import cmath
import itertools

from vlib import api, glmgen
from vlib.common import rng_for

FEAT = {"cap": .95, "fuse": .8, "reg": .3, "switch": .15, "ct": .2, "dd": .05, "openswitch": .1, "delta_load": .15,
        "noguess": .1}


def solve(ctx, net, name, **kw):
    p = ctx.write(name, glmgen.write(net))
    kw.setdefault("enable_line_capacitance", False)
    kw.setdefault("tolerance", 1e-6)
    try:
        return api.solve_file(p, api.settings(**kw)), None
    except Exception as e:
        return None, e


def volts(net, res):
    V = api.voltages_by_node(res)
    return {(n, p): V[(n, p)] for n, nd in net.nodes.items() if nd["parent"] is None for p in nd["phases"]}


def worst(a, b):
    return max(abs(a[k] - b[k]) / max(abs(a[k]), 1.0) for k in a)


def fuses(ctx, rng, net):
    for f in net.fuses:
        f["limit"] = 1e6
    res, e = solve(ctx, net, "base.glm")
    if res is None or not res.is_success:
        ctx.count("base_failed")
        return
    V = volts(net, res)
    I, _ = glmgen.currents(net, V, False)
    cur = {}
    for f in net.fuses:
        cur[f["name"]] = {p: abs(glmgen.ideal_current(net, I, (net.root(f["to"]), p))) for p in f["phases"]}
    cand = [f for f in net.fuses if max(cur[f["name"]].values()) > .2]
    if not cand:
        return
    d = rng.choice([.02, .05, .3])
    # every limit a little above its largest phase current: nothing blows, nothing changes
    n2 = net.copy()
    for f in n2.fuses:
        f["limit"] = float(max(cur[f["name"]].values()) * (1 + d) + 1e-3)
    r2, e = solve(ctx, n2, "above.glm")
    ctx.count("fuse_held")
    if ctx.expect(r2 is not None and r2.is_success, "fuse-blew-below-limit",
                  lambda: f"currents {cur}, limits {d:.0%} above: {e or 'unsuccessful'}"):
        ctx.expect(worst(V, volts(n2, r2)) < 1e-6, "fuse-limit-changed-voltages",
                   lambda: f"voltages moved by {worst(V, volts(n2, r2)):.3g}")
    # one fuse a little below the current of its most loaded phase
    n3 = net.copy()
    v = rng.choice(cand)["name"]
    f = next(x for x in n3.fuses if x["name"] == v)
    f["limit"] = float(max(cur[v].values()) * (1 - d))
    r3, e = solve(ctx, n3, "below.glm")
    ctx.count("fuse_over")
    ctx.expect(r3 is None or not r3.is_success, "fuse-conducts-above-limit",
               lambda: f"fuse {v} carries {cur[v]} with limit {f['limit']} in a successful result")
    r4, e = solve(ctx, n3, "below.glm", device_control=False)
    ctx.count("control_off")
    if ctx.expect(r4 is not None and r4.is_success, "control-off-blew-fuse", lambda: f"without device control: {e or 'unsuccessful'}"):
        ctx.expect(worst(V, volts(n3, r4)) < 1e-6, "control-off-changed", lambda: f"voltages moved by {worst(V, volts(n3, r4)):.3g}")
    if rng.random() < .3:
        n5 = net.copy()
        f = rng.choice(n5.fuses)
        f["status"] = {p: "BLOWN" for p in f["phases"]}
        r5, e = solve(ctx, n5, "blown.glm")
        ctx.count("blown_in_file")
        if r5 is not None and r5.is_success:
            moved = worst(V, volts(n5, r5))
            ctx.expect(moved > 1e-9, "blown-fuse-in-file-conducts",
                       f"fuse {f['name']} is BLOWN in the file but the solved voltages are those with the fuse intact")


def cap_states(net, V, vcaps):
    """which of the (cap, phase) are conducting, from Kirchhoff's current law alone.
    Returns ({(cap name, phase): bool}, worst residual/tolerance of the chosen states)"""
    gr = glmgen.groups(net)
    swing = {gr[(net.root(net.swing), p)][0] for p in "ABC"}
    names = {c["name"] for c in vcaps}
    I, M = glmgen.currents(net, V, False, lambda c, p: False if c["name"] in names else c["closed"].get(p, False))
    tot, mag, items = {}, {}, {}
    for k, (g, w) in gr.items():
        tot[g] = tot.get(g, 0) + w * I[k]
        mag[g] = max(mag.get(g, 0), w * M[k])
    for c in vcaps:
        for p, var in c["var"].items():
            k = (net.root(c["parent"]), p)
            if p not in c["connected"] or gr[k][0] in swing:
                continue
            g, w = gr[k]
            i = w * 1j * var / c["vnom"] ** 2 * V[k]
            items.setdefault(g, []).append(((c["name"], p), i))
            mag[g] = max(mag[g], abs(i))
    out, bad = {}, 0.0
    for g, its in items.items():
        if len(its) > 7:
            continue
        best = min((abs(tot[g] + sum(i for (_, i), on in zip(its, m) if on)), m)
                   for m in itertools.product([True, False], repeat=len(its)))
        bad = max(bad, best[0] / (1e-3 + 1e-5 * mag[g]))
        for (nm, _), on in zip(its, best[1]):
            out[nm] = on
    return out, bad


_DIRECTION = []


def direction(ctx):
    """Which way round the controller works on the plainest case there is (one capacitor, voltage far above its
    band): +1 opens it, as GridLAB-D does, -1 closes it."""
    if not _DIRECTION:
        net = glmgen.Net()
        net.swing = "s"
        net.node("s", "ABC", glmgen.balanced(7200.0), 7200.0)
        net.node("b", "ABC", glmgen.balanced(7200.0), 7200.0)
        net.cfgs["c"] = glmgen.oh_cfg(rng_for("direction"), list("ABC"))
        net.add("lines", {"name": "l", "from": "s", "to": "b", "phases": list("ABC"), "length_ft": 2000.0, "cfg": "c"})
        net.add("loads", {"name": "ld", "node": "b", "phases": list("ABC"), "nom": 7200.0, "terms": {("S", "A"): 1e4 + 2e3j}})
        net.add("caps", {"name": "ca", "parent": "b", "phases": list("ABC"), "connected": ["A"], "control": "VOLT",
                         "vnom": 7200.0, "var": {"A": 1e5}, "closed": {}, "low": 3000.0, "high": 4000.0})
        res, e = solve(ctx, net, "direction.glm")
        if res is None or not res.is_success:
            return 0
        st, bad = cap_states(net, volts(net, res), net.caps)
        _DIRECTION.append((-1 if st[("ca", "A")] else 1) if bad < 1 else 0)
    return _DIRECTION[0]


def caps(ctx, rng, net):
    for f in net.fuses:
        f["limit"] = 1e6
    for c in net.caps:
        c["var"] = {p: rng.uniform(3e4, 1.5e5) for p in c["phases"]}
    allon = net.copy()
    for c in allon.caps:
        c["closed"] = {p: True for p in c["var"]}
    base, e = solve(ctx, allon, "base.glm")
    if base is None or not base.is_success:
        ctx.count("base_failed")
        return
    V0 = volts(allon, base)
    # thresholds around the voltages: everything outside, everything inside, or mixed
    mode = rng.choice(["mixed", "mixed", "inside", "manual"])
    vcaps = []
    for c in net.caps:
        ks = [(net.root(c["parent"]), p) for p in c["connected"]]
        m = [abs(V0[k]) for k in ks]
        gap = rng.choice([.002, .01, .03])
        pos = rng.choice(["below", "above", "inside", "split"])
        if mode == "inside":
            lo, hi = min(m) * .85, max(m) * 1.15
        elif pos == "below":
            hi = min(m) * (1 - gap)
            lo = hi * .98
        elif pos == "above":
            lo = max(m) * (1 + gap)
            hi = lo * 1.02
        elif pos == "inside":
            lo, hi = min(m) * (1 - gap), max(m) * (1 + gap)
        else:
            mid = (min(m) + max(m)) / 2
            lo, hi = mid * .9997, mid * 1.0003
        c["low"], c["high"] = lo, hi
        if mode == "manual":
            continue
        if rng.random() < .8 or mode == "inside":
            c["control"] = "VOLT"
            vcaps.append(c)
    if mode == "manual":
        # thresholds on manual capacitors mean nothing
        plain = net.copy()
        for c in plain.caps:
            del c["low"], c["high"]
        a, e1 = solve(ctx, plain, "plain.glm")
        b, e2 = solve(ctx, net, "thresholds.glm")
        ctx.count("manual_pairs")
        if ctx.expect((a is None) == (b is None) and (a is None or a.is_success == b.is_success), "manual-capacitor-verdict",
                      lambda: f"{e1} / {e2}") and a is not None and a.is_success:
            ctx.expect(worst(volts(net, a), volts(net, b)) < 1e-8, "manual-capacitor-switched",
                       lambda: "a manual capacitor followed voltage limits")
        return
    if not vcaps:
        return
    off, e = solve(ctx, net, "volt.glm", device_control=False)
    if off is None or not off.is_success:
        ctx.count("base_failed")
        return
    sto, bad = cap_states(net, volts(net, off), vcaps)
    ctx.expect(bad < 1, "control-off-inconsistent", lambda: f"no capacitor states explain the solution without control ({bad:.3g})")
    res, e = solve(ctx, net, "volt.glm")
    if res is None:
        ctx.count("raised")
        ctx.expect("adjustments" in str(e), "capacitor-control-raised", lambda: f"{type(e).__name__}: {e}")
        return
    if not res.is_success:
        ctx.count("unsuccessful")
        return
    V = volts(net, res)
    st, bad = cap_states(net, V, vcaps)
    ctx.count("volt_solves")
    ctx.expect(bad < 1, "inconsistent-states",
               lambda: f"no combination of capacitor states explains the returned voltages (off by {bad:.3g} tolerances)")
    if mode == "inside":
        ctx.count("inside_pairs")
        ctx.expect(st == sto, "capacitor-switched-inside-band", lambda: f"states without control {sto}, with control {st}")
        return
    right, reverse = [], []
    for c in vcaps:
        for p in c["connected"]:
            key = (c["name"], p)
            if key not in st:
                continue
            v = abs(V[(net.root(c["parent"]), p)])
            if v > c["high"] * (1 + 1e-6):
                (reverse if st[key] else right).append((key, "closed" if st[key] else "open", v, c["low"], c["high"]))
                ctx.count("above_band")
            elif v < c["low"] * (1 - 1e-6):
                (right if st[key] else reverse).append((key, "closed" if st[key] else "open", v, c["low"], c["high"]))
                ctx.count("below_band")
            else:
                ctx.count("in_band")
            ctx.ok()
    ctx.state("volt", mode, len(right) > 0, len(reverse) > 0, len(vcaps))
    d = direction(ctx)
    odd = reverse if d >= 0 else right
    if d >= 0:
        if odd:
            ctx.violation("capacitor-against-its-control", "capacitor %s is %s at %.6g V with limits %.6g..%.6g" % (odd[0][0], *odd[0][1:]))
        return
    # the controller is known to work the wrong way round; it must at least do so for every capacitor
    if odd:
        ctx.violation("capacitors-disagree", "capacitor %s is %s at %.6g V with limits %.6g..%.6g although the control acts in reverse"
                      % (odd[0][0], *odd[0][1:]))
    if reverse:
        ctx.violation("volt-capacitor-acts-in-reverse",
                      "capacitor %s is %s at %.6g V with limits %.6g..%.6g" % (reverse[0][0], *reverse[0][1:]))


def refused(ctx, rng, net):
    c = rng.choice(net.caps)
    c["control"] = rng.choice(["VAR", "VARVOLT"])
    c["low"], c["high"] = c["vnom"] * .9, c["vnom"] * 1.1
    res, e = solve(ctx, net, "mode.glm")
    ctx.count("unsupported_modes")
    ctx.expect(res is None, "unsupported-mode-solved", f"a capacitor in {c['control']} mode was solved as if it had no control")


def regs(ctx, rng, net):
    for r in net.regs:
        r["taps"] = {p: rng.choice([rng.randint(-12, 12), 16, -16, 20, -20, 10, 11, -10, -11]) for p in "ABC"}
    for f in net.fuses:
        f["limit"] = 1e6
    glmgen.scale_loads(net, .3)
    res, e = solve(ctx, net, "taps.glm")
    if e is not None:
        raise e
    if not res.is_success:
        ctx.count("unsuccessful")
        return
    rows, _ = glmgen.kirchhoff(net, volts(net, res), cap=False)
    ctx.count("tap_solves")
    for what, where, m, tol in rows:
        if what == "ideal" and where.startswith("regulator"):
            ctx.count("regulator_phases")
            ctx.expect(m <= tol, "regulator-tap", lambda: f"{where}: off by {m:.4g} V")


def run_case(ctx):
    rng = ctx.rng
    what = rng.choice(["fuse", "fuse", "cap", "cap", "cap", "cap", "mode", "reg"])
    feat = dict(FEAT)
    if what == "reg":
        feat.update(reg=.9, single=.2)
    net = glmgen.random_net(rng, 4, 12 if ctx.tier == "quick" else 20, feat)
    for c in net.caps:
        c["closed"] = {p: rng.random() < .5 for p in c["var"]}
    if what == "fuse" and net.fuses:
        fuses(ctx, rng, net)
    elif what == "reg" and net.regs:
        regs(ctx, rng, net)
    elif what == "mode" and net.caps:
        refused(ctx, rng, net)
    elif net.caps:
        caps(ctx, rng, net)
    ctx.state(what, len(net.caps) > 1, len(net.fuses) > 1)
