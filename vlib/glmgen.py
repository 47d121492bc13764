"""GridLAB-D cases: a data model of our own, a .glm writer, and Kirchhoff's laws for it.

Independent of the code under test: line constants come from linecalc (Carson/Kron), transformers,
regulators, loads and capacitors are written down from the GridLAB-D object definitions.
Voltages are volts, currents ampere, powers VA.
"""
import cmath
import copy
import math

import numpy as np

from vlib import linecalc

ANG = {"A": 0.0, "B": -120.0, "C": 120.0, "1": 0.0, "2": 180.0}
ROT = cmath.rect(1, math.radians(-120))
NEXT = {"A": "B", "B": "C", "C": "A"}
SQ3 = math.sqrt(3)
MILE_FT = 5280.0


# --------------------------------------------------------------------------- construction

class Net:
    def __init__(self):
        self.nodes = {}      # name -> dict
        self.lines = []
        self.cfgs = {}
        self.xfmrs = []
        self.cts = []
        self.switches = []
        self.fuses = []
        self.regs = []
        self.caps = []
        self.loads = []
        self.swing = None
        self.order = []      # creation order of (kind, object)
        self.n = 0

    def copy(self):
        return copy.deepcopy(self)

    def name(self, prefix="n"):
        self.n += 1
        return f"{prefix}{self.n}"

    def node(self, name, phases, e, nom, cls="node", parent=None, neutral=True, tphase=None):
        nd = {"name": name, "phases": list(phases), "e": dict(e), "nom": nom, "cls": cls, "parent": parent,
              "neutral": neutral, "tphase": tphase, "power": {}}
        self.nodes[name] = nd
        self.order.append(("node", nd))
        return nd

    def add(self, kind, obj):
        getattr(self, kind).append(obj)
        self.order.append((kind, obj))
        return obj

    def root(self, name):
        while self.nodes[name]["parent"] is not None:
            name = self.nodes[name]["parent"]
        return name


# --------------------------------------------------------------------------- element physics

def line_matrices(net, l, cap=True):
    """(series admittance siemens, total shunt susceptance siemens) for the phases of the line.
    cap: False without charging, True with it, "half" with half of the charging of conductors and cables"""
    c = net.cfgs[l["cfg"]]
    miles = l["length_ft"] / MILE_FT
    ph = l["phases"]
    pos = c.get("pos")

    def dist(p, q):
        return math.hypot(pos[p][0] - pos[q][0], pos[p][1] - pos[q][1])

    B = np.zeros((len(ph), len(ph)))
    if c["kind"] == "oh":
        wires = [(p, c["r"], c["gmr"]) for p in ph] + ([("N", c["rn"], c["gmrn"])] if c["neutral"] else [])
        Z = linecalc.overhead_z(wires, dist)
        if cap and c.get("earth", True):
            B = linecalc.overhead_y([(p, c["dia"]) for p in ph] + ([("N", c["dian"])] if c["neutral"] else []), pos)
    elif c["kind"] == "ug":
        cab = [dict(phase=p, r=c["r"], gmr=c["gmr"], od=c["od"], nd=c["nd"], strands=c["strands"], nr=c["nr"],
                    ngmr=c["ngmr"], cd=c["cd"]) for p in ph]
        Z = linecalc.underground_z(cab, (c["rn"], c["gmrn"]) if c["neutral"] else None, dist)
        if cap:
            B = linecalc.underground_y(cab)
    elif c["kind"] == "tpx":
        Z = linecalc.triplex_z(c["r"], c["gmr"], c["rn"], c["gmrn"], c["dia"], c["ins"])
    elif c["kind"] == "z":
        k = ["ABC".index(p) for p in ph] if ph[0] in "ABC" else [0, 1]
        Z = np.array(c["z"], dtype=complex)[np.ix_(k, k)]
        if cap and c.get("c"):
            B = 2 * math.pi * 60e-9 * np.array(c["c"], dtype=float)[np.ix_(k, k)]
    if cap == "half" and c["kind"] != "z":
        B = B / 2
    return np.linalg.inv(Z * miles), B * miles


def xfmr_params(t):
    vp = t["vp"] * (SQ3 if t["conn"] in ("DD", "DY") else 1)
    vs = t["vs"] * (SQ3 if t["conn"] == "DD" else 1)
    tr = vp / vs
    z = complex(t["r"], t["x"]) * vs ** 2 / t["kva"] / 1e3
    return tr, 1 / z


def xfmr_coils(t):
    """(p+, p-, s+, s-) phase letters; None is ground"""
    ph = t["phases"]
    out = []
    for p in ph:
        out.append((p, NEXT[p] if t["conn"][0] == "D" else None, p, NEXT[p] if t["conn"] == "DD" else None))
    return out


def ct_currents(t, vf, v1, v2):
    """currents: out of the primary node into the transformer, out of the transformer into legs 1 and 2"""
    S = t["kva"] * 1e3
    x0, x1, x2 = ct_x(t)
    y0 = 1 / (complex(0.5 * t["r"], x0) * t["vp"] ** 2 / S)
    y1 = 1 / (complex(t["r"], x1) * t["vs"] ** 2 / S)
    y2 = 1 / (complex(t["r"], x2) * t["vs"] ** 2 / S)
    tr = t["vp"] / t["vs"]
    # internal voltage vp: y0 (vf - vp) = (o1 - o2)/tr, o1 = y1 (vp/tr - v1), o2 = y2 (-vp/tr - v2)
    a = y0 + (y1 + y2) / tr ** 2
    vp = (y0 * vf + (y1 * v1 - y2 * v2) / tr) / a
    o1 = y1 * (vp / tr - v1)
    o2 = y2 * (-vp / tr - v2)
    return y0 * (vf - vp), o1, o2


def ct_x(t):
    if t.get("x1") is not None:
        return t["x"], t["x1"], t["x2"]
    return 0.8 * t["x"], 0.4 * t["x"], 0.4 * t["x"]


def reg_ratio(r, ph):
    step = 2 * r["regulation"] / (r["raise"] + r["lower"])
    tap = max(-r["lower"], min(r["raise"], r["taps"][ph]))
    return 1 / (1 + step * tap) if r["type"] == "A" else 1 - step * tap


def load_terms(ld):
    """yield (p, q or None, kind, value) with explicit terminals"""
    for (kind, conn), val in ld["terms"].items():
        if ld.get("delta"):
            yield conn, NEXT[conn], kind, val
        elif len(conn) == 2:
            yield conn[0], conn[1], kind, val
        else:
            yield conn, None, kind, val


def currents(net, V, cap=True, cap_closed=None):
    """Net current leaving every node phase into the attached elements, excluding ideal elements and the source.
    V: {(node, phase): complex} for root nodes.  Returns ({(node, phase): I}, {(node, phase): max |I|}, detail)."""
    I, M = {}, {}

    def put(node, ph, i):
        k = (net.root(node), ph)
        I[k] = I.get(k, 0) + i
        M[k] = max(M.get(k, 0.0), abs(i))

    def v(node, ph):
        return V[(net.root(node), ph)]

    for k in V:
        I.setdefault(k, 0j)
        M.setdefault(k, 0.0)
    for l in net.lines:
        Y, B = line_matrices(net, l, cap)
        vf = np.array([v(l["from"], p) for p in l["phases"]])
        vt = np.array([v(l["to"], p) for p in l["phases"]])
        i = Y @ (vf - vt)
        sf, st = 0.5j * (B @ vf), 0.5j * (B @ vt)
        for k, p in enumerate(l["phases"]):
            put(l["from"], p, i[k])
            put(l["to"], p, -i[k])
            put(l["from"], p, sf[k])
            put(l["to"], p, st[k])
    for t in net.xfmrs:
        tr, y = xfmr_params(t)
        for pp, pn, sp, sn in xfmr_coils(t):
            vp = v(t["from"], pp) - (v(t["from"], pn) if pn else 0)
            vs = v(t["to"], sp) - (v(t["to"], sn) if sn else 0)
            i = (vp / tr - vs) * y
            put(t["from"], pp, i / tr)
            if pn:
                put(t["from"], pn, -i / tr)
            put(t["to"], sp, -i)
            if sn:
                put(t["to"], sn, i)
    for t in net.cts:
        ip, o1, o2 = ct_currents(t, v(t["from"], t["phase"]), v(t["to"], "1"), v(t["to"], "2"))
        put(t["from"], t["phase"], ip)
        put(t["to"], "1", -o1)
        put(t["to"], "2", -o2)
    for c in net.caps:
        for p, var in c["var"].items():
            on = cap_closed(c, p) if cap_closed else c["closed"].get(p, False)
            if on and p in c["connected"]:
                put(c["parent"], p, 1j * var / c["vnom"] ** 2 * v(c["parent"], p))
    for ld in net.loads:
        for p, q, kind, val in load_terms(ld):
            u = v(ld["node"], p) - (v(ld["node"], q) if q else 0)
            if kind == "S":
                i = (val / u).conjugate()
            elif kind == "Z":
                i = u / val
            else:
                i = val
            put(ld["node"], p, i)
            if q:
                put(ld["node"], q, -i)
    return I, M


def ideal_edges(net):
    """(from key, to key, real ratio v_from = ratio * v_to) for every conducting ideal two-terminal element"""
    for s in net.switches:
        for p in s["phases"]:
            if s["closed"].get(p, True):
                yield (net.root(s["from"]), p), (net.root(s["to"]), p), 1.0, "switch " + s["name"]
    for f in net.fuses:
        for p in f["phases"]:
            yield (net.root(f["from"]), p), (net.root(f["to"]), p), 1.0, "fuse " + f["name"]
    for r in net.regs:
        for p in "ABC":
            yield (net.root(r["from"]), p), (net.root(r["to"]), p), reg_ratio(r, p), "regulator " + r["name"]


def kirchhoff(net, V, cap=True, cap_closed=None):
    """Checks a solution.  Returns list of (what, where, magnitude, tolerance) for everything evaluated and the
    source currents {phase: I supplied}."""
    I, M = currents(net, V, cap, cap_closed)
    out = []
    weight, comp = {}, {}
    adj = {}
    for a, b, m, nm in ideal_edges(net):
        scale = abs(V[a])
        # drop allowed for the modelled contact / series resistance
        out.append(("ideal", nm, abs(V[a] - m * V[b]), 2e-5 * scale + 2e-2))
        adj.setdefault(a, []).append((b, 1 / m))
        adj.setdefault(b, []).append((a, m))
    for k in V:
        if k in comp:
            continue
        comp[k], weight[k] = k, 1.0
        st = [k]
        while st:
            u = st.pop()
            for w, f in adj.get(u, []):
                if w not in comp:
                    comp[w] = k
                    # v_from = m v_to; power balance: weight follows voltage
                    weight[w] = weight[u] * f
                    st.append(w)
    src = {}
    groups = {}
    for k in V:
        groups.setdefault(comp[k], []).append(k)
    swing = net.root(net.swing)
    for g, ks in groups.items():
        tot = sum(weight[k] * I[k] for k in ks)
        mag = max(M[k] * weight[k] for k in ks)
        sw = [k for k in ks if k[0] == swing]
        if sw:
            src[sw[0][1]] = tot / weight[sw[0]]
            k = sw[0]
            out.append(("source", f"{k}", abs(V[k] - net.nodes[swing]["e"][k[1]]), 1e-6 * abs(V[k])))
        else:
            out.append(("kcl", f"{ks[0]}", abs(tot), 3e-4 + 5e-6 * mag))
    return out, src


def groups(net):
    """{node phase: (group id, weight)} of node phases held together by conducting ideal elements"""
    adj = {}
    for a, b, m, nm in ideal_edges(net):
        adj.setdefault(a, []).append((b, 1 / m))
        adj.setdefault(b, []).append((a, m))
    out = {}
    for n, nd in net.nodes.items():
        if nd["parent"] is not None:
            continue
        for p in nd["phases"]:
            k = (n, p)
            if k in out:
                continue
            out[k] = (k, 1.0)
            st = [k]
            while st:
                u = st.pop()
                for w, f in adj.get(u, []):
                    if w not in out:
                        out[w] = (k, out[u][1] * f)
                        st.append(w)
    return out


def ideal_current(net, I, key):
    """current entering `key` from the ideal element that feeds it (ideal elements form trees by construction)"""
    tot = I[key]
    for a, b, m, nm in ideal_edges(net):
        if a == key:
            tot += ideal_current(net, I, b) / m
    return tot


# --------------------------------------------------------------------------- writer

def _c(z):
    z = complex(z)
    return f"{z.real:+.12g}{z.imag:+.12g}j"


def _united(prop, text, unit, how):
    """a value with a unit next to it ("attached") or after a blank"""
    return (prop, text + unit, None) if how == "attached" else (prop, text, unit)


def _gmr(c, key):
    if c.get("metric"):
        return _united("geometric_mean_radius", f"{c[key] * 30.48:.15f}", "cm", c["metric"])
    return ("geometric_mean_radius", repr(c[key]), None)


def _res(c, key, prop="resistance", unit=None):
    if c.get("metric"):
        return _united(prop, f"{c[key] / 1.609344:.15f}", "Ohm/km", c["metric"])
    return (prop, repr(c[key]), unit)


def _length(l):
    how = l.get("km")
    if how in ("mile", "mi"):
        return ("length", repr(l["length_ft"] / MILE_FT), how)
    if how:
        return _united("length", f"{l['length_ft'] * 0.3048e-3:.15f}", "km", "blank" if how == "blank" else "attached")
    return ("length", repr(l["length_ft"]), "ft" if l.get("ft") else None)


def _phs(nd_phases, neutral=True, s=None, d=False):
    return "".join(nd_phases) + ("N" if neutral else "") + ("D" if d else "") + (s or "")


def emit(net):
    """list of (class, name, [(property, value text, unit or None)]) in a valid order"""
    objs = []
    for nm, c in net.cfgs.items():
        if c["kind"] == "oh":
            objs.append(("overhead_line_conductor", nm + "_pc", [_gmr(c, "gmr"),
                        ("diameter", repr(c["dia"]), "in"), _res(c, "r"),
                        ("rating.summer.continuous", repr(c.get("amp", 600.0)), None),
                        ("rating.summer.emergency", repr(c.get("amp", 600.0)), None)]))
            if c["neutral"]:
                objs.append(("overhead_line_conductor", nm + "_nc", [_gmr(c, "gmrn"),
                            ("diameter", repr(c["dian"]), "in"), _res(c, "rn")]))
        elif c["kind"] == "ug":
            base = [("outer_diameter", repr(c["od"]), "in"), ("conductor_gmr", repr(c["gmr"]), "ft"),
                    ("conductor_diameter", repr(c["cd"]), "in"), _res(c, "r", "conductor_resistance", "Ohm/mile"),
                    ("neutral_gmr", repr(c["ngmr"]), "ft"), ("neutral_resistance", repr(c["nr"]), "Ohm/mile"),
                    ("neutral_diameter", repr(c["nd"]), "in"), ("neutral_strands", repr(float(c["strands"])), None),
                    ("shield_gmr", "0.00", "ft"), ("shield_resistance", "0.00", "Ohm/mile"),
                    ("rating.summer.continuous", repr(c.get("amp", 600.0)), None),
                    ("rating.summer.emergency", repr(c.get("amp", 600.0)), None)]
            objs.append(("underground_line_conductor", nm + "_pc", base))
            if c["neutral"]:
                objs.append(("underground_line_conductor", nm + "_nc",
                             [("outer_diameter", "0.5", "in"), ("conductor_gmr", repr(c["gmrn"]), "ft"),
                              ("conductor_diameter", "0.4", "in"), _res(c, "rn", "conductor_resistance", "Ohm/mile"),
                              ("neutral_gmr", "0.0", "ft"), ("neutral_resistance", "0.0", "Ohm/mile"),
                              ("neutral_diameter", "0.0", "in"), ("neutral_strands", "0.0", None),
                              ("shield_gmr", "0.00", "ft"), ("shield_resistance", "0.00", "Ohm/mile")]))
        elif c["kind"] == "tpx":
            objs.append(("triplex_line_conductor", nm + "_pc", [("resistance", repr(c["r"]), None),
                                                                ("geometric_mean_radius", repr(c["gmr"]), None)]))
            objs.append(("triplex_line_conductor", nm + "_nc", [("resistance", repr(c["rn"]), None),
                                                                ("geometric_mean_radius", repr(c["gmrn"]), None)]))
            objs.append(("triplex_line_configuration", nm,
                         [("conductor_1", nm + "_pc", None), ("conductor_2", nm + "_pc", None),
                          ("conductor_N", nm + "_nc", None), ("insulation_thickness", repr(c["ins"]), "in"),
                          ("diameter", repr(c["dia"]), "in")]))
            continue
        if c["kind"] in ("oh", "ug"):
            ph = c["phases"] + (["N"] if c["neutral"] else [])
            sp = []
            for a in range(len(ph)):
                for b in range(a + 1, len(ph)):
                    d = math.hypot(c["pos"][ph[a]][0] - c["pos"][ph[b]][0], c["pos"][ph[a]][1] - c["pos"][ph[b]][1])
                    sp.append(("distance_" + ph[a] + ph[b], repr(d * 12 if c.get("inches") else d),
                               "in" if c.get("inches") else c.get("unit")))
            if c["kind"] == "oh" and c.get("earth", True):
                for a in ph:
                    d = c["pos"][a][1]
                    sp.append(("distance_" + a + "E", repr(d * 12 if c.get("inches") else d),
                               "in" if c.get("inches") else c.get("unit")))
            cc = [("conductor_" + p, nm + "_pc", None) for p in c["phases"]]
            if c["neutral"]:
                cc.append(("conductor_N", nm + "_nc", None))
            if sp:
                objs.append(("line_spacing", nm + "_sp", sp))
                cc.append(("spacing", nm + "_sp", None))
            objs.append(("line_configuration", nm, cc))
        elif c["kind"] == "z":
            cc = []
            if c.get("conductors"):
                objs.append(("overhead_line_conductor", nm + "_pc", [("geometric_mean_radius", "0.01", None),
                                                                     ("resistance", "1.0", None)]))
                cc += [("conductor_" + p, nm + "_pc", None) for p in c["phases"]]
            f, u = (1 / 1.609344, "/km") if c.get("metric") else (1.0, "/mile")
            for a in range(3):
                for b in range(3):
                    if "ABC"[a] in c["phases"] and "ABC"[b] in c["phases"]:
                        z = _c(c["z"][a][b] * f)
                        cc.append((f"z{a+1}{b+1}", z.replace("j", "i") if c.get("i") else z,
                                   "Ohm" + u if c.get("metric") or c.get("stated") else None))
                        if c.get("c"):
                            cc.append((f"c{a+1}{b+1}", repr(c["c"][a][b] * f), "nF" + u if c.get("metric") or c.get("stated") else None))
            objs.append(("line_configuration", nm, cc))
    seen_t = set()
    for t in net.xfmrs + net.cts:
        cn = t["cfg"]
        if cn in seen_t:
            continue
        seen_t.add(cn)
        p = []
        if t in net.cts:
            p += [("connect_type", "SINGLE_PHASE_CENTER_TAPPED" if t.get("longconn", True) else "5", None)]
        else:
            lab = {"YY": ("1", "WYE_WYE"), "DD": ("2", "DELTA_DELTA"), "DY": ("3", "DELTA_GWYE"), "1P": ("4", "SINGLE_PHASE")}
            p += [("connect_type", lab[t["conn"]][1 if t.get("longconn", True) else 0], None)]
        if t.get("kv"):
            p += [_united("primary_voltage", f"{t['vp'] / 1e3:.15f}", "kV", "blank" if t["kv"] == "blank" else "attached")]
        else:
            p += [("primary_voltage", repr(t["vp"]), "V" if t.get("units") else None)]
        if t.get("kv2"):
            p += [_united("secondary_voltage", f"{t['vs'] / 1e3:.15f}", "kV", "blank" if t["kv2"] == "blank" else "attached")]
        else:
            p += [("secondary_voltage", repr(t["vs"]), "V" if t.get("units") else None)]
        if t.get("rating") == "phases":
            parts = {1: [1.0], 2: [.375, .625], 3: [.25, .5, .25]}[len(t["phases"])]
            for q, w in zip(t["phases"], parts):
                p += [(f"power{q}_rating", repr(t["kva"] * w), None)]
        elif t.get("rating") == "one":
            p += [(f"power{t['phase']}_rating", repr(t["kva"]), None)]
        else:
            p += [("power_rating", repr(t["kva"]), "kVA" if t.get("units") else None)]
        if t.get("style") == "impedance":
            p += [("impedance", _c(complex(t["r"], t["x"])), None)]
        else:
            p += [("resistance", repr(t["r"]), None), ("reactance", repr(t["x"]), None)]
            if t.get("x1") is not None:
                p += [("impedance1", _c(complex(t["r"], t["x1"])), None), ("impedance2", _c(complex(t["r"], t["x2"])), None)]
        if t.get("shunt"):
            p += [("shunt_impedance", _c(t["shunt"]), None)]
        objs.append(("transformer_configuration", cn, p))
    for r in net.regs:
        p = [("connect_type", "1", None), ("band_center", "2400", None), ("band_width", "2.0", None), ("time_delay", "30.0", None),
             ("raise_taps", str(r["raise"]), None), ("lower_taps", str(r["lower"]), None),
             ("current_transducer_ratio", "700", None), ("power_transducer_ratio", "20", None),
             ("compensator_r_setting_A", "3.0", None), ("compensator_x_setting_A", "9.0", None),
             ("CT_phase", "ABC", None), ("PT_phase", "ABC", None), ("regulation", repr(r["regulation"]), None),
             ("Control", r.get("control", "MANUAL"), None), ("Type", r["type"], None)]
        p += [(f"tap_pos_{q}", str(r["taps"][q]), None) for q in "ABC"]
        objs.append(("regulator_configuration", r["name"] + "_cfg", p))

    for kind, o in net.order:
        if kind == "node":
            if o.get("load_only"):
                continue
            cls = o["cls"]
            p = []
            if cls in ("triplex_node", "triplex_meter"):
                p += [("phases", _phs([o["tphase"]], False, "S"), None)]
            else:
                p += [("phases", _phs(o["phases"], o["neutral"]), None)]
            if o["parent"] is not None:
                p += [("parent", o["parent"], None)]
            if o["name"] == net.swing or o["name"] in getattr(net, "swings", ()):
                p += [("bustype", "SWING", None)]
            if cls in ("node", "meter") and (o.get("guess", True)):
                p += [("voltage_" + q, _c(cmath.rect(abs(o["e"][q]), cmath.phase(o["e"][q]))), None) for q in o["phases"]]
            if cls in ("triplex_node", "triplex_meter") and o.get("guess", True):
                p += [("voltage_1", _c(o["e"]["1"]), None), ("voltage_2", _c(o["e"]["2"]), None)]
            p += [("nominal_voltage", repr(o["nom"]), None)]
            for conn, val in o["power"].items():
                p += [(conn, _c(val), None)]
            objs.append((cls, o["name"], p))
        elif kind == "lines":
            cls = {"oh": "overhead_line", "ug": "underground_line", "tpx": "triplex_line", "z": "overhead_line"}[net.cfgs[o["cfg"]]["kind"]]
            if cls == "triplex_line":
                ph = _phs([o["tphase"]], False, "S")
            else:
                ph = _phs(o["phases"], net.cfgs[o["cfg"]].get("neutral", False))
            objs.append((cls, o["name"], [("phases", ph, None), ("from", o["from"], None), ("to", o["to"], None),
                                          _length(o), ("configuration", o["cfg"], None)]))
        elif kind in ("xfmrs", "cts"):
            ph = _phs([o["phase"]], False, "S") if kind == "cts" else _phs(o["phases"], o["conn"] in ("YY", "1P"))
            objs.append(("transformer", o["name"], [("phases", ph, None), ("from", o["from"], None), ("to", o["to"], None),
                                                    ("configuration", o["cfg"], None)]))
        elif kind == "regs":
            objs.append(("regulator", o["name"], [("phases", "ABCN", None), ("from", o["from"], None), ("to", o["to"], None),
                                                  ("configuration", o["name"] + "_cfg", None)]))
        elif kind == "switches":
            objs.append(("switch" if not o.get("recloser") else "recloser", o["name"],
                         [("phases", _phs(o["phases"], True), None), ("from", o["from"], None), ("to", o["to"], None)]
                         + _states(o)))
        elif kind == "fuses":
            objs.append(("fuse", o["name"], [("phases", _phs(o["phases"], True), None), ("from", o["from"], None),
                                             ("to", o["to"], None), ("current_limit", repr(o["limit"]), "A" if o.get("units") else None)]
                         + [(f"phase_{q}_status", o.get("status", {}).get(q, "GOOD"), None) for q in o["phases"] if q not in o.get("unstated", ())]))
        elif kind == "caps":
            p = [("parent", o["parent"], None), ("phases", _phs(o["phases"], True), None),
                 ("phases_connected", _phs(o["connected"], True), None), ("control", o["control"], None),
                 ("cap_nominal_voltage", repr(o["vnom"]), None), ("nominal_voltage", repr(o["vnom"]), None)]
            p += [(f"capacitor_{q}", repr(v), None) for q, v in o["var"].items()]
            if o["control"] == "MANUAL":
                p += [(f"switch{q}", "CLOSED" if o["closed"].get(q) else "OPEN", None) for q in o["var"] if q in o["closed"]]
            if "high" in o:
                p += [("voltage_set_high", repr(o["high"]), None), ("voltage_set_low", repr(o["low"]), None)]
            objs.append(("capacitor", o["name"], p))
        elif kind == "loads":
            if o.get("on_triplex"):
                continue                       # written as power_ on the triplex node
            p = [("phases", _phs(o["phases"], not o.get("delta"), None, o.get("delta")), None)]
            if not o.get("own_node"):
                p += [("parent", o["node"], None)]
            p += [("nominal_voltage", repr(o["nom"]), None)]
            for (k, conn), val in o["terms"].items():
                key = {"S": "constant_power_", "Z": "constant_impedance_", "I": "constant_current_"}[k]
                if k == "S" and o.get("short") and len(conn) == 1:
                    key = "power_"
                p += [(key + conn, _c(val), None)]
            objs.append(("load", o["name"], p))
    return objs


def _states(o):
    st = {q: "CLOSED" if o["closed"].get(q, True) else "OPEN" for q in o["phases"]}
    rows = [(f"phase_{q}_state", v, None) for q, v in st.items() if q not in o.get("unstated", ())]
    rest = {v for q, v in st.items() if q in o.get("unstated", ())}
    if len(rest) == 2:                      # phases left to the overall status have to agree
        return [(f"phase_{q}_state", v, None) for q, v in st.items()]
    return rows + ([("status", rest.pop(), None)] if rest and ("OPEN" in rest or o.get("overall")) else [])


def write(net, rng=None, style=None):
    """style: dict of optional spelling freedoms (comments, quotes, indent, semicolons, colon names, order...)"""
    st = style or {}
    objs = emit(net)
    R = rng
    out = []
    if st.get("header", True):
        out += ["clock {", "  timezone EST+5EDT;", "  starttime '2000-01-01 0:00:00';", "};", "module powerflow {",
                "  solver_method NR;", "};", "#set relax_naming_rules=1", ""]

    def maybe(k, p=0.3):
        return st.get(k) and R is not None and R.random() < p

    if st.get("shuffle_cfg") and R is not None:
        cfg = [o for o in objs if o[0] in CFG]
        rest = [o for o in objs if o[0] not in CFG]
        R.shuffle(cfg)
        objs = cfg + rest if R.random() < 0.5 else rest + cfg
    if st.get("shuffle_el") and R is not None:
        # nodes must precede what refers to them as a parent; everything else is free
        nodes = [o for o in objs if o[0] in NODES and not any(p[0] == "parent" for p in o[2])]
        kids = [o for o in objs if o[0] in NODES and any(p[0] == "parent" for p in o[2])]
        rest = [o for o in objs if o[0] not in NODES]
        R.shuffle(nodes)
        R.shuffle(rest)
        k = R.randint(0, len(rest))
        objs = rest[:k] + nodes + kids + rest[k:]
    for cls, nm, props in objs:
        props = list(props)
        if st.get("shuffle_props") and R is not None:
            R.shuffle(props)
        if maybe("comments"):
            out.append("// " + R.choice(["object load { name ghost; };", "a comment", "length 99;"]))
        ind = " " * R.randint(0, 6) if maybe("indent", .8) else ("\t" if maybe("tabs", .5) else "    ")
        colon = ":" in nm
        cm = " // opening" if maybe("comments") else ""
        out.append(f"object {cls + ':' + nm.split(':')[1] if colon else cls} {{{cm}")
        lines = [] if colon else [("name", nm, None)]
        for k, v, u in lines + props:
            if u is not None and st.get("no_units"):
                u = u if u not in (None, "ft", "V", "A", "kVA", "Ohm/mile") else None
            q = '"' if (k in ("phases", "phases_connected", "name", "from", "to", "configuration", "parent") and maybe("quotes", .5)) else ""
            sp = " " * R.randint(1, 5) if maybe("indent", .6) else " "
            tail = " // was 12;" if maybe("comments", .15) else ""
            out.append(f"{ind}{k}{sp}{q}{v}{q}{' ' + u if u else ''};{tail}")
            if maybe("comments", .08):
                out.append(f"{ind}// {k} 12345;")
            if maybe("blank", .1):
                out.append("")
        if maybe("recorders", .15):
            out += [ind + "object recorder {", ind * 2 + "property voltage_A;" if False else ind * 2 + "file x.csv;", ind + "};"] if False else []
        out.append("}" + ("" if maybe("nosemi", .5) else ";"))
        if maybe("blank", .5):
            out.append("")
        if maybe("recorders", .15):
            out += ["object recorder {", "    name r" + str(R.randint(0, 10 ** 6)) + ";", "    interval 60;", "};"]
    return "\n".join(out) + "\n"


CFG = {"overhead_line_conductor", "underground_line_conductor", "triplex_line_conductor", "line_spacing",
       "line_configuration", "triplex_line_configuration", "transformer_configuration", "regulator_configuration"}
NODES = {"node", "meter", "triplex_node", "triplex_meter"}


# --------------------------------------------------------------------------- generation

def oh_cfg(rng, phases, neutral=True, **kw):
    order = rng.sample(phases, len(phases))
    x, pos = 0.0, {}
    h = rng.uniform(25, 40)
    level = rng.random() < .6
    for p in order:
        pos[p] = (x, h if level else h + rng.uniform(0, 5))
        x += rng.uniform(1.5, 7)
    if neutral:
        pos["N"] = (rng.uniform(0, max(x - 2, 1)), h - rng.uniform(2, 6))
    c = {"kind": "oh", "phases": sorted(phases), "neutral": neutral, "pos": pos, "r": rng.uniform(.15, 1.2),
         "gmr": rng.uniform(.005, .04), "rn": rng.uniform(.3, 1.5), "gmrn": rng.uniform(.004, .03),
         "dia": rng.uniform(.3, 1.1), "dian": rng.uniform(.3, .8), "inches": rng.random() < .3,
         "unit": rng.choice([None, "ft"]), "metric": rng.choice([None, None, None, "attached", "blank"]),
         "earth": rng.random() < .85}
    c.update(kw)
    return c


def z_cfg(rng, phases):
    """impedances, perhaps capacitances, stated directly per pair of phases"""
    A, C = np.zeros((3, 3), dtype=complex).tolist(), np.zeros((3, 3)).tolist()
    for i in range(3):
        A[i][i] = complex(rng.uniform(.3, .6), rng.uniform(.9, 1.3))
        C[i][i] = rng.uniform(12, 20)
        for j in range(i):
            A[i][j] = A[j][i] = complex(rng.uniform(.08, .16), rng.uniform(.3, .5))
            C[i][j] = C[j][i] = -rng.uniform(2, 6)
    return {"kind": "z", "phases": sorted(phases), "z": A, "c": C if rng.random() < .6 else None, "neutral": False,
            "metric": rng.random() < .3, "stated": rng.random() < .5, "i": rng.random() < .3, "conductors": rng.random() < .3}


def ug_cfg(rng, phases, neutral=False, **kw):
    od = rng.uniform(1.0, 1.8)
    pos, x = {}, 0.0
    for p in sorted(phases):
        pos[p] = (x, rng.choice([0.0, 0.2]))
        x += rng.uniform(.4, 1.0)
    if neutral:
        pos["N"] = (x + .2, .1)
    c = {"kind": "ug", "phases": sorted(phases), "neutral": neutral, "pos": pos, "od": od, "nd": rng.uniform(.05, .1),
         "r": rng.uniform(.2, 1.2), "gmr": rng.uniform(.008, .025), "cd": rng.uniform(.3, .8), "strands": rng.randint(6, 16),
         "nr": rng.uniform(3, 15), "ngmr": rng.uniform(.001, .004), "rn": rng.uniform(.3, 1.2), "gmrn": rng.uniform(.006, .02),
         "inches": rng.random() < .3, "unit": rng.choice([None, "ft"]),
         "metric": rng.choice([None, None, None, "attached", "blank"])}
    c.update(kw)
    return c


def tpx_cfg(rng):
    return {"kind": "tpx", "r": rng.uniform(.5, 1.8), "gmr": rng.uniform(.005, .015), "rn": rng.uniform(.5, 1.8),
            "gmrn": rng.uniform(.005, .015), "dia": rng.uniform(.25, .6), "ins": rng.uniform(.05, .1)}


def balanced(mag, ang=0.0, phases="ABC"):
    return {p: cmath.rect(mag, math.radians(ANG[p] + ang)) for p in phases}


def tiny_case():
    """A swing bus, one line, and one of every nonlinear device: fills the derivative cache."""
    import random
    r = random.Random(7)
    net = Net()
    net.swing = "s"
    net.node("s", "ABC", balanced(7200.0), 7200.0)
    net.node("b", "ABC", balanced(7200.0), 7200.0)
    net.cfgs["c"] = oh_cfg(r, list("ABC"))
    net.add("lines", {"name": "l", "from": "s", "to": "b", "phases": list("ABC"), "length_ft": 1000.0, "cfg": "c"})
    net.add("loads", {"name": "ld", "node": "b", "phases": list("ABC"), "nom": 7200.0,
                      "terms": {("S", "A"): 1e4 + 2e3j, ("Z", "B"): 5000 + 100j, ("I", "C"): -1 + 1j}})
    net.add("xfmrs", {"name": "t", "cfg": "tc", "conn": "YY", "phases": list("ABC"), "from": "b", "to": "lv", "vp": 7200.0,
                      "vs": 240.0, "kva": 100.0, "r": .01, "x": .05})
    net.node("lv", "ABC", balanced(240.0), 240.0)
    net.order.append(net.order.pop(-2))
    net.node("m", "ABC", balanced(7200.0), 7200.0)
    net.add("switches", {"name": "sw", "from": "b", "to": "m", "phases": list("ABC"), "closed": {}})
    net.add("fuses", {"name": "fu", "from": "b", "to": "f", "phases": list("ABC"), "limit": 500.0})
    net.node("f", "ABC", balanced(7200.0), 7200.0)
    net.order.append(net.order.pop(-2))
    net.add("caps", {"name": "ca", "parent": "f", "phases": list("ABC"), "connected": list("ABC"), "control": "MANUAL",
                     "vnom": 7200.0, "var": {"A": 1e4}, "closed": {"A": True}})
    net.node("tn", "12", {"1": 120 + 0j, "2": -120 + 0j}, 120.0, cls="triplex_node", tphase="A")
    net.nodes["tn"]["power"] = {"power_1": 1000 + 0j}
    net.add("loads", {"name": "load_tn", "node": "tn", "phases": ["1", "2"], "nom": 120.0, "terms": {("S", "1"): 1000 + 0j},
                      "on_triplex": True})
    net.add("cts", {"name": "ct", "cfg": "ctc", "phase": "A", "phases": ["A"], "from": "b", "to": "tn", "vp": 7200.0,
                    "vs": 120.0, "kva": 25.0, "r": .01, "x": .02, "style": "impedance"})
    return write(net)


DEFAULT = {"ug": .3, "single": .35, "xfmr": .35, "ct": .35, "switch": .2, "fuse": .15, "reg": .15, "cap": .25, "loop": .25,
           "load": .8, "loadnode": .3, "delta_load": .25, "zload": .35, "iload": .25, "meter": .3, "child": .25, "tpx_line": .5,
           "vcap": .0, "dd": .25, "dy": .4, "km": .15, "openswitch": .3, "volt": 7199.558, "neutral_off": .15, "ugn": .2,
           "offtap": .8, "triplex_load_cls": .25, "ids": 0.2, "p1p": .3, "noguess": .2, "ll_load": .2, "loadparent_child": .3,
           "capunits": .0, "zmat": .1, "reactance3": .4, "bare": .12, "twins": .12}


def random_net(rng, nmin=4, nmax=14, features=None):
    F = dict(DEFAULT)
    F.update(features or {})
    P = lambda k: rng.random() < F[k]
    net = Net()
    volt = rng.choice([F["volt"], 2401.777, 7621.02, 14376.0]) if rng.random() < .5 else F["volt"]
    a0 = rng.choice([0.0, 0.0, rng.uniform(-40, 40)])
    net.swing = "swing"
    e0 = balanced(volt, a0)
    if rng.random() < .3:
        e0 = {p: v * rng.uniform(.9998, 1.0002) * cmath.rect(1, rng.uniform(-.02, .02)) for p, v in e0.items()}
    net.node("swing", "ABC", e0, volt, cls=rng.choice(["node", "meter"]))
    target = rng.randint(nmin, nmax)
    cfg_of = {}

    def cfg(kind, phases, neutral):
        key = (kind, "".join(phases), neutral)
        if key in cfg_of and rng.random() < .6:
            return cfg_of[key]
        nm = net.name("cfg")
        if kind == "tpx":
            net.cfgs[nm] = tpx_cfg(rng)
        elif kind == "ug":
            net.cfgs[nm] = ug_cfg(rng, phases, neutral)
        elif kind == "z":
            net.cfgs[nm] = z_cfg(rng, phases)
        else:
            net.cfgs[nm] = oh_cfg(rng, phases, neutral)
        cfg_of[key] = nm
        return nm

    def oname(prefix, cls=None):
        nm = net.name(prefix)
        if cls and P("ids"):
            nm = f"{cls}:{net.n}"
        return nm

    def mknode(phases, e, nom, guess=None):
        cls = "meter" if P("meter") else "node"
        nd = net.node(oname("n", cls), phases, e, nom, cls=cls, neutral=True)
        # the initial guess must have the nominal magnitude inside a region; angle is free
        nd["guess"] = (not P("noguess")) if guess is None else guess
        return nd

    def add_line(a, b, phases):
        lv = net.nodes[a]["nom"] < 1000
        length = rng.uniform(50, 300) if lv else rng.uniform(300, 6000)
        l = {"name": oname("l"), "from": a, "to": b, "phases": sorted(phases), "length_ft": length}
        if P("zmat"):
            l["cfg"] = cfg("z", sorted(phases), False)
        elif P("ug"):
            l["cfg"] = cfg("ug", sorted(phases), P("ugn") or len(phases) == 1)
        else:
            l["cfg"] = cfg("oh", sorted(phases), len(phases) == 1 or not P("neutral_off"))
        l["km"] = rng.choice([True, "blank", "mile", "mi"]) if P("km") else False
        l["ft"] = rng.random() < .2
        return net.add("lines", l)

    def add_load(node, phases, nom, size):
        own = {"name": oname("ld"), "node": node, "phases": sorted(phases), "nom": nom, "terms": {}, "short": rng.random() < .3}
        if len(phases) == 3 and P("delta_load"):
            own["delta"] = True
            scale = SQ3
            conns = rng.sample("ABC", rng.randint(1, 3))
        else:
            scale = 1.0
            conns = rng.sample(sorted(phases), rng.randint(1, len(phases)))
            if len(phases) == 3 and P("ll_load"):
                conns.append(rng.choice(["AB", "BC", "CA"]))
        for c in conns:
            vm = nom * (SQ3 if (own.get("delta") or len(c) == 2) else 1)
            s = size * rng.uniform(.2, 1) * cmath.rect(1, rng.uniform(-.3, .6))
            r = rng.random()
            if rng.random() < .15:             # real or reactive power alone
                s = complex(s.real, 0) if rng.random() < .7 else complex(0, s.imag)
            kinds = ["S"]
            if r < F["zload"]:
                kinds = ["Z"]
            elif r < F["zload"] + F["iload"]:
                kinds = ["I"]
            elif rng.random() < .15:
                kinds = ["S", "Z"]
            if len(c) == 2:
                kinds = ["S"]              # only constant power may be specified line to line
            for k in kinds:
                if k == "S":
                    own["terms"][("S", c)] = s
                elif k == "Z":
                    own["terms"][("Z", c)] = vm ** 2 / s.conjugate()
                else:
                    e = net.nodes[net.root(node)]["e"]
                    u = e[c[0]] - (e[NEXT[c]] if own.get("delta") else (e[c[1]] if len(c) == 2 else 0))
                    own["terms"][("I", c)] = (s / u).conjugate()
        net.add("loads", own)
        if P("twins"):                       # a second load that is almost, but not quite, the same
            e = 1 + 10 ** rng.uniform(-5, -2)
            net.add("loads", {**own, "name": oname("ld"), "terms": {k: v * e for k, v in own["terms"].items()}})
        return own

    # frontier of attachable nodes: (name)
    grow = ["swing"]
    made = 0
    while made < target:
        a = rng.choice(grow[-6:] if rng.random() < .6 else grow)
        nd = net.nodes[a]
        ph = nd["phases"]
        lv = nd["nom"] < 1000
        r = rng.random()
        made += 1
        if len(ph) == 3 and not lv and P("xfmr") and rng.random() < .6:
            vs = rng.choice([277.13, 240.0, 2401.777])
            conn = "YY"
            if P("dy"):
                conn = "DY"
            elif P("dd"):
                conn = "DD"
            vp = nd["nom"]
            sh = 30.0 if conn == "DY" else 0.0
            base = cmath.phase(nd["e"]["A"])
            e = {p: cmath.rect(vs, math.radians(ANG[p] + sh) + base) for p in "ABC"}
            b = mknode(ph, e, vs)
            kva = rng.choice([300.0, 500.0, 1000.0])
            net.add("xfmrs", {"name": oname("t"), "cfg": net.name("tc"), "conn": conn, "phases": list("ABC"), "from": a,
                              "to": b["name"], "vp": vp, "vs": vs, "kva": kva, "r": rng.uniform(.003, .02),
                              "x": rng.uniform(.02, .07), "style": rng.choice(["impedance", "rx"]),
                              "rating": rng.choice(["total", "phases"]), "longconn": rng.random() < .5, "kv": rng.choice([None, None, None, "attached", "blank"]), "kv2": rng.choice([None, None, None, "attached", "blank"]),
                              "units": rng.random() < .2, "shunt": None})
            if conn == "DD":
                net.add("loads", {"name": oname("gl"), "node": b["name"], "phases": list("ABC"), "nom": vs,
                                  "terms": {("Z", p): vs ** 2 / (kva * 50.0) * rng.uniform(.9, 1.1) + 0j for p in "ABC"}})
            grow.append(b["name"])
            if P("load"):
                add_load(b["name"], ph, vs, kva * 1e3 / 30)
        elif not lv and P("ct") and rng.random() < .7:
            p = rng.choice(ph)
            base = nd["e"][p] / abs(nd["e"][p])
            nm = oname("x")
            tp = net.node(nm, "12", {"1": 120 * base, "2": -120 * base}, 120.0,
                          cls=rng.choice(["triplex_node", "triplex_meter"]), tphase=p)
            kva = rng.choice([25.0, 50.0, 75.0])
            t = {"name": oname("t"), "cfg": net.name("tc"), "phase": p, "phases": [p], "from": a, "to": nm, "vp": nd["nom"],
                 "vs": 120.0, "kva": kva, "r": rng.uniform(.006, .015), "x": rng.uniform(.01, .03),
                 "style": rng.choice(["impedance", "rx"]), "rating": rng.choice(["total", "one"]),
                 "longconn": rng.random() < .5, "kv": rng.choice([None, None, None, "attached", "blank"]),
                 "kv2": rng.choice([None, None, None, "attached", "blank"]), "units": rng.random() < .2, "shunt": None}
            if t["style"] == "rx" and P("reactance3"):
                t["x1"], t["x2"] = rng.uniform(.005, .015), rng.uniform(.005, .015)
            if P("bare"):
                t[rng.choice("rx")] = 0.0
            net.add("cts", t)
            leaf = tp
            if P("tpx_line"):
                nm2 = net.name("x")
                leaf = net.node(nm2, "12", dict(tp["e"]), 120.0, cls=rng.choice(["triplex_node", "triplex_meter"]), tphase=p)
                net.add("lines", {"name": net.name("tl"), "from": nm, "to": nm2, "phases": ["1", "2"], "tphase": p,
                                  "length_ft": rng.uniform(20, 150), "cfg": cfg("tpx", ["1", "2"], True)})
            terms = {}
            for c in rng.sample(["1", "2", "12"], rng.randint(1, 3)):
                s = rng.uniform(500, kva * 60) * cmath.rect(1, rng.uniform(0, .5))
                if P("zload") and terms:
                    terms[("Z", c)] = (240.0 if c == "12" else 120.0) ** 2 / s.conjugate()
                else:
                    terms[("S", c)] = s
            leaf["power"] = {("impedance_" if k == "Z" else "power_") + c: v for (k, c), v in terms.items()}
            net.add("loads", {"name": "load_" + leaf["name"], "node": leaf["name"], "phases": ["1", "2"], "nom": 120.0,
                              "terms": terms, "on_triplex": True})
        elif len(ph) == 3 and not lv and P("reg"):
            b = mknode(ph, dict(nd["e"]), nd["nom"])
            net.add("regs", {"name": oname("r"), "from": a, "to": b["name"], "raise": 16, "lower": rng.choice([16, 16, 10]),
                             "regulation": rng.choice([.1, .05]), "type": rng.choice(["A", "B"]),
                             "taps": {p: rng.randint(-6, 8) for p in "ABC"}})
            # anchor: a real line so that the regulated bus carries something
            grow.append(b["name"])
            if P("load"):
                add_load(b["name"], ph, nd["nom"], 4e4)
        elif P("switch"):
            b = mknode(ph, dict(nd["e"]), nd["nom"])
            net.add("switches", {"name": oname("sw"), "from": a, "to": b["name"], "phases": list(ph), "closed": {},
                                 "recloser": rng.random() < .3})
            grow.append(b["name"])
            if P("load"):
                add_load(b["name"], ph, nd["nom"], 3e4 if not lv else 3e3)
        elif P("fuse") and not lv:
            b = mknode(ph, dict(nd["e"]), nd["nom"])
            net.add("fuses", {"name": oname("fu"), "from": a, "to": b["name"], "phases": list(ph), "limit": 5000.0,
                              "units": rng.random() < .3})
            grow.append(b["name"])
            if P("load"):
                add_load(b["name"], ph, nd["nom"], 3e4)
        else:
            sub = ph
            if len(ph) == 3 and P("single"):
                sub = sorted(rng.sample(ph, rng.randint(1, 2)))
            e = {p: nd["e"][p] for p in sub}
            if P("loadnode"):
                nm = oname("ld")
                b = net.node(nm, sub, e, nd["nom"])
                b["load_only"] = True
                ln = add_line(a, nm, sub)
                size = 5e4 if not lv else 4e3
                net.n += 0
                o = add_load(nm, sub, nd["nom"], size)
                o["name"], o["own_node"] = nm, True
                if o.get("delta"):
                    pass
            else:
                b = mknode(sub, e, nd["nom"])
                add_line(a, b["name"], sub)
                grow.append(b["name"])
                if P("load"):
                    add_load(b["name"], sub, nd["nom"], 5e4 if not lv else 4e3)
        # child nodes
        if P("child"):
            par = rng.choice([g for g in grow])
            pn = net.nodes[par]
            ch = net.node(oname("m"), pn["phases"], dict(pn["e"]), pn["nom"], cls="meter", parent=par)
            add_load(ch["name"], pn["phases"], pn["nom"], 2e4 if pn["nom"] > 1000 else 2e3)
        if P("cap") and not lv:
            par = rng.choice([g for g in grow if net.nodes[g]["nom"] > 1000])
            pn = net.nodes[par]
            con = sorted(rng.sample(pn["phases"], rng.randint(1, len(pn["phases"]))))
            cp = {"name": oname("ca"), "parent": par, "phases": list(pn["phases"]), "connected": con, "control": "MANUAL",
                  "vnom": pn["nom"], "var": {p: rng.uniform(1e4, 1e5) for p in pn["phases"]},
                  "closed": {p: rng.random() < .7 for p in pn["phases"] if rng.random() < .85}}
            net.add("caps", cp)
    if P("loop"):
        c = [l for l in net.lines if net.cfgs[l["cfg"]]["kind"] in ("oh", "ug")]
        if c:
            l = rng.choice(c)
            add_line(l["from"], l["to"], l["phases"]) if rng.random() < .5 else add_line(l["to"], l["from"], l["phases"])
    if P("openswitch"):
        c = [g for g in grow if len(net.nodes[g]["phases"]) == 3]
        a = b = None
        if len(c) >= 2:
            a = rng.choice(c)
            c = [g for g in c if g != a and net.nodes[g]["nom"] == net.nodes[a]["nom"]] or [a]
            b = rng.choice(c)
        if a != b:
            net.add("switches", {"name": net.name("so"), "from": a, "to": b, "phases": list("ABC"),
                                 "closed": {p: False for p in "ABC"}})
    return net


def drop_states(net, rng):
    """leave the states of some switches and fuses to the overall status or the default"""
    for o in net.switches + net.fuses:
        r = rng.random()
        if r < .25:
            o["unstated"] = list(o["phases"])
        elif r < .35:
            o["unstated"] = [rng.choice(o["phases"])]
        o["overall"] = rng.random() < .5
    return net


def scale_loads(net, k):
    for l in net.loads:
        for t in l["terms"]:
            l["terms"][t] = l["terms"][t] / k if t[0] == "Z" else l["terms"][t] * k
    for nd in net.nodes.values():
        for t in nd["power"]:
            nd["power"][t] = nd["power"][t] / k if t.startswith("imp") else nd["power"][t] * k
    return net


def features_of(net):
    f = set()
    for l in net.lines:
        c = net.cfgs[l["cfg"]]
        f.add(("line", c["kind"], len(l["phases"]), bool(c.get("neutral"))))
    for t in net.xfmrs:
        f.add(("xfmr", t["conn"], t["style"] if "style" in t else "", t.get("rating")))
    for t in net.cts:
        f.add(("ct", t["phase"], t["style"], t.get("x1") is not None))
    for r in net.regs:
        f.add(("reg", r["type"]))
    for s in net.switches:
        f.add(("switch", tuple(s["closed"].values())[:1]))
    for s in net.fuses:
        f.add(("fuse", len(s["phases"])))
    for c in net.caps:
        f.add(("cap", len(c["connected"])))
    for l in net.loads:
        for (k, c) in l["terms"]:
            f.add(("load", k, len(c), bool(l.get("delta")), bool(l.get("own_node")), bool(l.get("on_triplex"))))
    return f
