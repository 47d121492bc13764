"""RAW cases: a data model of our own, a writer for revisions 30/32/33/34, and the file's power balance.

Nothing here looks at the code under test.  The reference semantics are those of the PSS/E
data format: loads and shunts in MW/Mvar on the system base, pi-model branches, two-winding
transformers as an ideal complex ratio on the I side with the series impedance (scaled by the
J-side ratio squared) on the J side.
"""
import cmath
import copy
import json
import math

import numpy as np

SB = 100.0


# --------------------------------------------------------------------------- model

def new_case():
    return {"sbase": SB, "buses": [], "loads": [], "fshunts": [], "gens": [], "branches": [],
            "xfmrs": [], "xfmrs3": [], "sshunts": []}


def bus(i, ide=1, vm=1.0, va=0.0, kv=138.0, name=None, gl=0.0, bl=0.0):
    return {"i": i, "name": name if name is not None else f"B{i}", "kv": kv, "ide": ide, "vm": vm, "va": va,
            "gl": gl, "bl": bl}


def load(i, pl, ql, id="1", status=1, ip=0.0, iq=0.0, yp=0.0, yq=0.0):
    return {"i": i, "id": id, "status": status, "pl": pl, "ql": ql, "ip": ip, "iq": iq, "yp": yp, "yq": yq}


def gen(i, pg, vs, id="1", qg=0.0, qt=9999.0, qb=-9999.0, stat=1, pt=9999.0, pb=-9999.0):
    return {"i": i, "id": id, "pg": pg, "qg": qg, "qt": qt, "qb": qb, "vs": vs, "stat": stat, "pt": pt, "pb": pb}


def branch(i, j, r, x, b=0.0, ckt="1", st=1, gi=0.0, bi=0.0, gj=0.0, bj=0.0):
    return {"i": i, "j": j, "ckt": ckt, "r": r, "x": x, "b": b, "st": st, "gi": gi, "bi": bi, "gj": gj, "bj": bj}


def xfmr(i, j, r, x, ckt="1", cw=1, cz=1, sbase=100.0, windv1=1.0, windv2=1.0, nomv1=0.0, nomv2=0.0,
         ang=0.0, stat=1, cod=0, cont=0, rma=1.1, rmi=0.9, vma=1.1, vmi=0.9, ntp=33, rata=0.0):
    return dict(i=i, j=j, ckt=ckt, r=r, x=x, cw=cw, cz=cz, sbase=sbase, windv1=windv1, windv2=windv2,
                nomv1=nomv1, nomv2=nomv2, ang=ang, stat=stat, cod=cod, cont=cont, rma=rma, rmi=rmi,
                vma=vma, vmi=vmi, ntp=ntp, rata=rata)


def xfmr3(i, j, k, r, x, ckt="1", cw=1, cz=1, sbase=(100.0, 100.0, 100.0), windv=(1.0, 1.0, 1.0),
          nomv=(0.0, 0.0, 0.0), ang=(0.0, 0.0, 0.0), stat=1):
    """r, x: pair impedances 1-2, 2-3, 3-1"""
    return dict(b=(i, j, k), r=list(r), x=list(x), ckt=ckt, cw=cw, cz=cz, sbase=list(sbase), windv=list(windv),
                nomv=list(nomv), ang=list(ang), stat=stat)


def sshunt(i, binit, modsw=1, stat=1, vhi=1.05, vlo=0.95, steps=((1, 50.0),)):
    return {"i": i, "binit": binit, "modsw": modsw, "stat": stat, "vhi": vhi, "vlo": vlo, "steps": list(steps)}


# --------------------------------------------------------------------------- reference physics

def online(case):
    off = {b["i"] for b in case["buses"] if b["ide"] == 4}
    return [b["i"] for b in case["buses"] if b["i"] not in off], off


def xfmr_params(case, t):
    """(complex ratio on the I side, series admittance on the J side), per unit"""
    kv = {b["i"]: b["kv"] for b in case["buses"]}
    bi, bj = kv[t["i"]], kv[t["j"]]
    ni = t["nomv1"] if t["nomv1"] > 0 else bi
    nj = t["nomv2"] if t["nomv2"] > 0 else bj
    if t["cw"] == 1:
        ti, tj = t["windv1"], t["windv2"]
    elif t["cw"] == 2:
        ti, tj = t["windv1"] / bi, t["windv2"] / bj
    else:
        ti, tj = t["windv1"] * ni / bi, t["windv2"] * nj / bj
    if t["cz"] == 1:
        r, x = t["r"], t["x"]
    elif t["cz"] == 2:
        r, x = t["r"] * case["sbase"] / t["sbase"], t["x"] * case["sbase"] / t["sbase"]
    else:
        rp = t["r"] / (1e6 * t["sbase"])
        xp = math.sqrt(t["x"] ** 2 - rp ** 2)
        r, x = rp * case["sbase"] / t["sbase"], xp * case["sbase"] / t["sbase"]
    z = complex(r, x) * tj * tj
    return cmath.rect(ti / tj, math.radians(t["ang"])), 1 / z


def xfmr3_params(case, t):
    """[(bus, complex ratio, admittance to the star point)] of the windings in service"""
    kv = {b["i"]: b["kv"] for b in case["buses"]}
    z = []
    for n in range(3):
        r, x, sb = t["r"][n], t["x"][n], t["sbase"][n]
        if t["cz"] == 2:
            r, x = r * case["sbase"] / sb, x * case["sbase"] / sb
        elif t["cz"] == 3:
            rp = r / (1e6 * sb)
            r, x = rp * case["sbase"] / sb, math.sqrt(x * x - rp * rp) * case["sbase"] / sb
        z.append(complex(r, x))
    star = [(z[0] + z[2] - z[1]) / 2, (z[0] + z[1] - z[2]) / 2, (z[1] + z[2] - z[0]) / 2]
    out_of_service = {2: 1, 3: 2, 4: 0}.get(t["stat"])
    off = {b["i"] for b in case["buses"] if b["ide"] == 4}
    res = []
    for n in range(3):
        b = t["b"][n]
        if n == out_of_service or b in off:
            continue
        v = t["windv"][n]
        if t["cw"] == 2:
            v = v / kv[b]
        elif t["cw"] == 3:
            v = v * (t["nomv"][n] or kv[b]) / kv[b]
        res.append((b, cmath.rect(v, math.radians(t["ang"][n])), 1 / star[n]))
    return res


def ybus(case):
    """nodal admittance matrix of everything linear in the file, with index by bus number"""
    on, off = online(case)
    ix = {b: k for k, b in enumerate(on)}
    n = len(on)
    Y = np.zeros((n, n), dtype=complex)
    sb = case["sbase"]
    for b in case["buses"]:
        if b["i"] in ix and (b["gl"] or b["bl"]):
            Y[ix[b["i"]], ix[b["i"]]] += complex(b["gl"], b["bl"]) / sb
    for l in case["branches"]:
        if l["st"] != 1 or l["i"] in off or l["j"] in off:
            continue
        a, c = ix[l["i"]], ix[l["j"]]
        y = 1 / complex(l["r"], l["x"])
        Y[a, a] += y + 1j * l["b"] / 2 + complex(l["gi"], l["bi"])
        Y[c, c] += y + 1j * l["b"] / 2 + complex(l["gj"], l["bj"])
        Y[a, c] -= y
        Y[c, a] -= y
    for t in case["xfmrs"]:
        if t["stat"] != 1 or t["i"] in off or t["j"] in off:
            continue
        a, c = ix[t["i"]], ix[t["j"]]
        m, y = xfmr_params(case, t)
        Y[a, a] += y / abs(m) ** 2
        Y[a, c] -= y / m.conjugate()
        Y[c, a] -= y / m
        Y[c, c] += y
    for t in case["xfmrs3"]:
        if t["stat"] == 0:
            continue
        w = xfmr3_params(case, t)
        ys = sum(y for _, _, y in w)
        # eliminate the star point, which carries no injection
        for b1, m1, y1 in w:
            Y[ix[b1], ix[b1]] += y1 / abs(m1) ** 2
            for b2, m2, y2 in w:
                Y[ix[b1], ix[b2]] -= (y1 / m1.conjugate()) * (y2 / m2) / ys
    for f in case["fshunts"]:
        if f["status"] == 1 and f["i"] in ix:
            Y[ix[f["i"]], ix[f["i"]]] += complex(f["gl"], f["bl"]) / sb
    for s in case["sshunts"]:
        if s["stat"] == 1 and s["i"] in ix and s["modsw"] != 2:
            Y[ix[s["i"]], ix[s["i"]]] += 1j * s["binit"] / sb
    return Y, ix


def load_power(case, V, ix):
    """complex power consumed by in-service loads at each bus, per unit"""
    S = np.zeros(len(ix), dtype=complex)
    for l in case["loads"]:
        if l["status"] == 1 and l["i"] in ix:
            k = ix[l["i"]]
            v = abs(V[k])
            S[k] += (complex(l["pl"], l["ql"]) + complex(l["yp"], -l["yq"]) * v * v) / case["sbase"]
            if case.get("fixed_currents"):        # the known misreading of constant-current loads
                S[k] += V[k] * complex(l["ip"], l["iq"]).conjugate()
            else:
                S[k] += complex(l["ip"], l["iq"]) * v / case["sbase"]
    return S


def roles(case):
    """bus -> ('slack', Vset complex) | ('pv', P, Vset) | ('pq', S fixed generation)"""
    on, off = online(case)
    out = {}
    for b in case["buses"]:
        i = b["i"]
        if i in off:
            continue
        gs = sorted([g for g in case["gens"] if g["i"] == i and g["stat"] == 1], key=lambda g: g["id"])
        if b["ide"] == 3:
            out[i] = ("slack", cmath.rect(gs[0]["vs"], math.radians(b["va"])))
            continue
        fixed = [g for g in gs if abs(g["qt"] - g["qb"]) < 1e-6]
        reg = [g for g in gs if abs(g["qt"] - g["qb"]) >= 1e-6]
        sv = [s for s in case["sshunts"] if s["i"] == i and s["stat"] == 1 and s["modsw"] == 2]
        sfix = sum(complex(g["pg"], g["qt"]) for g in fixed) / case["sbase"]
        if b["ide"] == 2 and reg:
            out[i] = ("pv", sum(g["pg"] for g in reg) / case["sbase"], reg[0]["vs"], sfix)
        elif sv:
            out[i] = ("pv", 0.0, (sv[0]["vhi"] + sv[0]["vlo"]) / 2, sfix if b["ide"] == 2 else 0)
        elif b["ide"] == 2:
            out[i] = ("pq", sfix)
        else:
            out[i] = ("pq", 0j)
    return out


def mismatch(case, volts):
    """Per-bus violations of what the file says, given bus voltages {number: complex}.
    Returns list of (bus, kind, magnitude) and the injected slack / generator powers."""
    Y, ix = ybus(case)
    V = np.array([volts[b] for b in ix])
    I = Y @ V
    S = V * I.conj()                      # leaving each bus into the network and shunts
    SL = load_power(case, V, ix)
    rl = roles(case)
    bad = []
    gen_out = {}
    for b, k in ix.items():
        role = rl[b]
        need = S[k] + SL[k]               # what generation has to supply at this bus
        if role[0] == "slack":
            bad.append((b, "slackV", abs(V[k] - role[1])))
            gen_out[b] = need
        elif role[0] == "pv":
            bad.append((b, "P", abs((need - role[3]).real - role[1])))
            bad.append((b, "V", abs(abs(V[k]) - role[2])))
            gen_out[b] = need - role[3]
        else:
            bad.append((b, "S", abs(need - role[1])))
    return bad, gen_out


# --------------------------------------------------------------------------- writer

def _f(x):
    return repr(float(x))


def _q(s, w=12):
    return "'" + str(s).ljust(w) + "'"


def write(case, rev=33, delim=",", comments=False, rng=None, pad=False, trailing=True, shuffle=False, blank=0.0, eol=0.0):
    """Text of the case.  `comments` adds '@!' rows, `pad` adds blanks around fields,
    `shuffle` permutes the records inside each section, `blank` leaves fields holding the format's default
    value empty with that probability, `eol` appends end-of-record comments."""
    # the case is kept on the 100 MVA base; a file on another base says the same with other per-unit impedances
    fb = case.get("fbase", SB)
    if fb != SB:
        k = fb / SB
        case = json.loads(json.dumps(case))
        for l in case["branches"]:
            l.update(r=l["r"] * k, x=l["x"] * k, **{q: l[q] / k for q in ("b", "gi", "bi", "gj", "bj")})
        for t in case["xfmrs"]:
            if t["cz"] == 1:
                t.update(r=t["r"] * k, x=t["x"] * k)
        for t in case["xfmrs3"]:
            if t["cz"] == 1:
                t.update(r=[v * k for v in t["r"]], x=[v * k for v in t["x"]])

    def D(value, default, text=None):
        if blank and rng is not None and value == default and rng.random() < blank:
            return ""
        return text if text is not None else (_f(value) if isinstance(value, float) or isinstance(default, float) else value)

    def row(fields):
        if eol and rng is not None and rng.random() < eol and delim == ",":
            return row0(fields) + rng.choice([" / note", "  /* note 12 */", " / BUS 5 OUT"])
        return row0(fields)

    def row0(fields):
        if delim == " ":
            return " ".join(str(f) for f in fields)
        if pad:
            return ", ".join(" " * (rng.randint(0, 3) if rng else 1) + str(f) + " " * (rng.randint(0, 2) if rng else 0)
                             for f in fields)
        return ",".join(str(f) for f in fields)

    def order(rs):
        rs = list(rs)
        if shuffle and rng is not None:
            rng.shuffle(rs)
        return rs

    out = []
    sec_n = [0]

    def section(name, rows, hdr="I,..."):
        if comments:
            out.append("@!   " + hdr)
        out.extend(rows)
        out.append("0 / END OF %s DATA%s BEGIN NEXT DATA" % (name, "," if delim == "," else "") if trailing else "0")

    if rev == 30:
        out.append(row(["0", _f(fb)]) + ("  / case, rev 30" if False else ""))
    else:
        if comments:
            out.append("@!IC, SBASE,REV,XFRRAT,NXFRAT,BASFRQ" if delim == "," else "@!IC SBASE REV XFRRAT NXFRAT BASFRQ")
        out.append(row(["0", _f(fb), rev, 0, 0, "60.00"]) + ("   / generated case" if trailing and delim == "," else ""))
    out.append("GENERATED CASE")
    out.append("SECOND HEADER LINE")
    if rev == 34:
        out.append("GENERAL, THRSHZ=0.0002, PQBRAK=0.7, BLOWUP=5.0" if delim == "," else "GENERAL THRSHZ=0.0002")
        out.append("0 / END OF SYSTEM-WIDE DATA" + (", BEGIN BUS DATA" if delim == "," else ""))

    rows = []
    for b in order(case["buses"]):
        if rev == 30:
            rows.append(row([b["i"], _q(b["name"]), _f(b["kv"]), D(b["ide"], 1), D(b["gl"], 0.0), D(b["bl"], 0.0), 1, 1,
                             D(b["vm"], 1.0), D(b["va"], 0.0), 1]))
        else:
            r = [b["i"], _q(b["name"]), _f(b["kv"]), D(b["ide"], 1), 1, 1, 1, D(b["vm"], 1.0), D(b["va"], 0.0)]
            if rev in (33, 34):
                r += ["1.10000", "0.90000", "1.10000", "0.90000"]
            rows.append(row(r))
    section("BUS", rows)
    rows = []
    for l in order(case["loads"]):
        r = [l["i"], D(l["id"], "1", _q(l["id"], 2)), D(l["status"], 1), 1, 1, D(l["pl"], 0.0), D(l["ql"], 0.0), D(l["ip"], 0.0),
             D(l["iq"], 0.0), D(l["yp"], 0.0), D(l["yq"], 0.0), 1]
        if rev != 30:
            r += [1]
        if rev >= 33:
            r += [0]
        if rev >= 34:
            r += ["0.0", "0.0", 1]
        rows.append(row(r))
    section("LOAD", rows)
    fs = list(case["fshunts"])
    if rev != 30:
        for b in case["buses"]:
            if b["gl"] or b["bl"]:
                fs.append({"i": b["i"], "id": "BS", "status": 1, "gl": b["gl"], "bl": b["bl"]})
        rows = [row([f["i"], D(f["id"], "1", _q(f["id"], 2)), D(f["status"], 1), D(f["gl"], 0.0), D(f["bl"], 0.0)]) for f in order(fs)]
        section("FIXED SHUNT", rows)
    rows = []
    for g in order(case["gens"]):
        r = [g["i"], D(g["id"], "1", _q(g["id"], 2)), D(g["pg"], 0.0), D(g["qg"], 0.0), D(g["qt"], 9999.0), D(g["qb"], -9999.0),
             D(g["vs"], 1.0), 0, "100.0", "0.0", "1.0", "0.0", "0.0", "1.0", D(g["stat"], 1), "100.0", D(g["pt"], 9999.0), D(g["pb"], -9999.0),
             1, "1.0000", 0, "1.0000", 0, "1.0000", 0, "1.0000"]
        if rev != 30:
            r += [0, "1.0000"]
        rows.append(row(r))
    section("GENERATOR", rows)
    rows = []
    for l in order(case["branches"]):
        if rev == 34:
            r = [l["i"], l["j"], D(l["ckt"], "1", _q(l["ckt"], 2)), _f(l["r"]), _f(l["x"]), D(l["b"], 0.0), _q("")] + ["0.00"] * 12 + \
                [D(l["gi"], 0.0), D(l["bi"], 0.0), D(l["gj"], 0.0), D(l["bj"], 0.0), l["st"], 1, "0.00", 1, "1.0", 0, "1.0", 0, "1.0", 0, "1.0"]
        else:
            r = [l["i"], l["j"], D(l["ckt"], "1", _q(l["ckt"], 2)), _f(l["r"]), _f(l["x"]), D(l["b"], 0.0), "0.00", "0.00", "0.00",
                 D(l["gi"], 0.0), D(l["bi"], 0.0), D(l["gj"], 0.0), D(l["bj"], 0.0), l["st"], 1, "0.00", 1, "1.0", 0, "1.0", 0, "1.0", 0, "1.0"]
        rows.append(row(r))
    section("BRANCH", rows)
    if rev == 34:
        section("SYSTEM SWITCHING DEVICE", [])
    rows = []
    for t in order(case["xfmrs"]):
        r1 = [t["i"], t["j"], 0, _q(t["ckt"], 2), D(t["cw"], 1), D(t["cz"], 1), 1, "0.0", "0.0", 2, _q(""), D(t["stat"], 1),
              1, "1.0", 0, "1.0", 0, "1.0", 0, "1.0"]
        if rev in (33, 34):
            r1 += [_q("")]
        r3 = [D(t["windv1"], 1.0), D(t["nomv1"], 0.0), D(t["ang"], 0.0), _f(t["rata"]), "0.0", "0.0", t["cod"], t["cont"], _f(t["rma"]),
              _f(t["rmi"]), _f(t["vma"]), _f(t["vmi"]), t["ntp"], 0, "0.0", "0.0"]
        if rev in (33, 34):
            r3 += ["0.0"]
        rows.append("\n".join([row(r1), row([D(t["r"], 0.0), _f(t["x"]), D(t["sbase"], 100.0)]), row(r3),
                               row([D(t["windv2"], 1.0), D(t["nomv2"], 0.0)])]))
    for t in order(case["xfmrs3"]):
        r1 = [t["b"][0], t["b"][1], t["b"][2], _q(t["ckt"], 2), D(t["cw"], 1), D(t["cz"], 1), 1, "0.0", "0.0", 2, _q(""), D(t["stat"], 1),
              1, "1.0", 0, "1.0", 0, "1.0", 0, "1.0"]
        if rev in (33, 34):
            r1 += [_q("")]
        r2 = [v for n in range(3) for v in (_f(t["r"][n]), _f(t["x"][n]), _f(t["sbase"][n]))] + ["1.0", "0.0"]
        ws = []
        for n in range(3):
            w = [D(t["windv"][n], 1.0), D(t["nomv"][n], 0.0), D(t["ang"][n], 0.0), "0.0", "0.0", "0.0", 0, 0, "1.5", "0.5", "1.1", "0.9",
                 33, 0, "0.0", "0.0"]
            if rev in (33, 34):
                w += ["0.0"]
            ws.append(row(w))
        rows.append("\n".join([row(r1), row(r2)] + ws))
    if shuffle and rng is not None:
        rng.shuffle(rows)
    section("TRANSFORMER", rows)
    section("AREA", [])
    section("TWO-TERMINAL DC", [])
    section("VSC DC LINE", [])

    def ss_rows():
        rows = []
        for s in order(case["sshunts"]):
            blocks = [v for n, b in s["steps"] for v in (n, _f(b))]
            if rev == 30:
                r = [s["i"], s["modsw"], _f(s["vhi"]), _f(s["vlo"]), 0, "100.0", _q(""), _f(s["binit"])] + blocks
                r += [0, "0.0"] * (8 - len(s["steps"]))
            else:
                r = [s["i"], s["modsw"], 0, s["stat"], _f(s["vhi"]), _f(s["vlo"]), 0, "100.0", _q(""), _f(s["binit"])] + blocks
            rows.append(row(r))
        return rows

    if rev == 30:
        section("SWITCHED SHUNT", ss_rows())
    for nm in ("IMPEDANCE CORRECTION", "MULTI-TERMINAL DC", "MULTI-SECTION LINE", "ZONE", "INTER-AREA TRANSFER",
               "OWNER", "FACTS DEVICE"):
        section(nm, [])
    if rev != 30:
        section("SWITCHED SHUNT", ss_rows())
    if rev in (33, 34):
        section("GNE", [])
    if rev == 34:
        section("INDUCTION MACHINE", [])
        section("SUBSTATION", [])
    out.append("Q")
    return "\n".join(out) + "\n"


# --------------------------------------------------------------------------- generation

def tiny_pv_case():
    c = new_case()
    c["buses"] = [bus(1, 3), bus(2, 2), bus(3, 1)]
    c["gens"] = [gen(1, 0, 1.0), gen(2, 10, 1.0)]
    c["branches"] = [branch(1, 2, 0.01, 0.1), branch(2, 3, 0.01, 0.1)]
    return c


def random_case(rng, nmin=3, nmax=12, features=None, stress=1.0, rev=33):
    """A connected random network whose exact solution is known by construction.
    Returns (case, {bus: complex V})."""
    F = {"pv": .3, "xfmr": .35, "shift": .5, "offnominal": .8, "cw": .5, "cz": .5, "fshunt": .3, "sshunt": .2,
         "svc": .1, "multiload": .3, "off_elems": .5, "off_bus": .3, "parallel": .3, "fixedq": .2, "multigen": 0.25,
         "busshunt": .3 if rev == 30 else 0.0, "xf3": .3, "lineshunt": .15, "slack_load": .4, "slack_va": .4, "negx": .05,
         "ids": .5, "mult_slack_gen": .2, "narrow": .1, "vsdiff": 0.0, "twins": .15, "base": .12, "zload": .1, "half": .6, "parted": .12, "r0": .1, "xf3off": .25}
    if features:
        F.update(features)
    if rev == 30:
        F["fshunt"] = 0.0            # revision 30 has no fixed shunt section
    P = lambda k: rng.random() < F[k]
    n = rng.randint(nmin, nmax)
    style = rng.choice(["seq", "sparse", "big"])
    if style == "seq":
        nums = list(range(1, n + 1))
    elif style == "sparse":
        nums = rng.sample(range(1, 5000), n)
    else:
        nums = rng.sample(range(90000, 999998), n)
    case = new_case()
    kvs = [13.8, 69.0, 138.0, 230.0, 345.0]
    slack_va = (rng.uniform(-60, 60) if P("half") else rng.uniform(-180, 180)) if P("slack_va") else 0.0
    vmag = {b: rng.uniform(0.96, 1.05) for b in nums}
    vang = {b: slack_va + stress * rng.uniform(-12, 12) for b in nums}
    slack = rng.choice(nums)
    vang[slack] = slack_va
    kv = {b: rng.choice(kvs) for b in nums}
    # topology
    edges = []
    order = nums[:]
    rng.shuffle(order)
    for k in range(1, n):
        edges.append((order[k], order[rng.randrange(k)]))
    for _ in range(rng.randint(0, n)):
        a, b = rng.sample(nums, 2)
        edges.append((a, b))
    if n >= 3 and P("xf3"):
        for _ in range(rng.choice([1, 1, 2])):
            tri = rng.sample(nums, 3)
            stat = rng.choice([1, 1, 1, 2, 3, 4, 0])
            ends = [b for e in edges for b in e]
            leaves = [b for b in tri if ends.count(b) == 1]
            if leaves and rng.random() < .6:
                # the three-winding transformer becomes the leaf's only connection
                kept = [e for e in edges if leaves[0] not in e]
                others = [b for b in tri if b != leaves[0]]
                if all(any(b in e for e in kept) or n == 3 for b in others) and len(kept) >= 1:
                    edges, stat = kept, 1
            x3 = [rng.uniform(.06, .2) for _ in range(3)]
            x3[2] = rng.uniform(max(abs(x3[0] - x3[1]) * 1.05, .06), (x3[0] + x3[1]) * 0.9)
            r3 = [v * rng.choice([0.0, 0.03]) for v in x3]
            t = xfmr3(*tri, r3, x3, ckt=rng.choice(["1", "T3"]) if not case["xfmrs3"] else "9", stat=stat,
                      ang=[rng.choice([0.0, 0.0, 30.0, -30.0, rng.uniform(-10, 10)]) for _ in range(3)])
            t["cz"] = rng.choice([1, 2, 3]) if P("cz") else 1
            if t["cz"] > 1:
                t["sbase"] = [rng.choice([100.0, 50.0, 250.0]) for _ in range(3)]
                for q in range(3):
                    t["r"][q] *= t["sbase"][q] / 100
                    t["x"][q] *= t["sbase"][q] / 100
                    if t["cz"] == 3:
                        t["r"][q] *= 1e6 * t["sbase"][q]
            t["cw"] = rng.choice([1, 2, 3]) if P("cw") else 1
            for q in range(3):
                v = rng.uniform(.96, 1.04) if P("offnominal") else 1.0
                if t["cw"] == 3:
                    t["nomv"][q] = rng.choice([0.0, kv[tri[q]], kv[tri[q]] * .98])
                    v *= kv[tri[q]] / (t["nomv"][q] or kv[tri[q]])
                t["windv"][q] = v * (kv[tri[q]] if t["cw"] == 2 else 1.0)
            case["xfmrs3"].append(t)
    deg_ang = {}
    for a, b in edges:
        if rng.random() < .5:
            a, b = b, a
        if P("xfmr"):
            t = xfmr(a, b, rng.choice([0.0, rng.uniform(0.0005, 0.02)]), rng.uniform(0.03, 0.25))
            t["cz"] = rng.choice([1, 2, 3]) if P("cz") else 1
            t["sbase"] = rng.choice([100.0, 50.0, 250.0]) if t["cz"] > 1 else 100.0
            if t["cz"] > 1:
                t["x"] = max(t["x"], 0.05) * t["sbase"] / 100
                t["r"] = t["r"] * t["sbase"] / 100
            if t["cz"] == 3:
                t["r"] = t["r"] * 1e6 * t["sbase"] * rng.choice([0, 1]) * 0.5
            ti = rng.uniform(0.94, 1.06) if P("offnominal") else 1.0
            tj = rng.uniform(0.97, 1.03) if P("offnominal") and rng.random() < .4 else 1.0
            t["cw"] = rng.choice([1, 2, 3]) if P("cw") else 1
            if t["cw"] == 1:
                t["windv1"], t["windv2"] = ti, tj
            elif t["cw"] == 2:
                t["windv1"], t["windv2"] = ti * kv[a], tj * kv[b]
            else:
                t["nomv1"] = rng.choice([0.0, kv[a], kv[a] * 1.02])
                t["nomv2"] = rng.choice([0.0, kv[b]])
                t["windv1"] = ti * kv[a] / (t["nomv1"] or kv[a])
                t["windv2"] = tj * kv[b] / (t["nomv2"] or kv[b])
            if P("shift") and rng.random() < .6:
                t["ang"] = rng.choice([rng.uniform(-8, 8), -30.0, 30.0, 15.0])
            t["cod"] = rng.choice([0, 0, 1, 3])
            t["cont"] = rng.choice([0, a, b])
            case["xfmrs"].append(t)
        else:
            case["branches"].append(branch(a, b, rng.uniform(0.0, 0.05), rng.uniform(0.02, 0.25),
                                           rng.choice([0.0, rng.uniform(0, 0.2)])))
    # make angles consistent with phase shifters: walk the tree and offset
    adj = {}
    for l in case["branches"]:
        adj.setdefault(l["i"], []).append((l["j"], 0.0))
        adj.setdefault(l["j"], []).append((l["i"], 0.0))
    for t in case["xfmrs"]:
        adj.setdefault(t["i"], []).append((t["j"], -t["ang"]))
        adj.setdefault(t["j"], []).append((t["i"], t["ang"]))
    for t in case["xfmrs3"]:
        if t["stat"] == 1:
            for q in range(3):
                for s in range(3):
                    if q != s:
                        adj.setdefault(t["b"][q], []).append((t["b"][s], t["ang"][s] - t["ang"][q]))
    off = {slack: 0.0}
    stack = [slack]
    while stack:
        u = stack.pop()
        for v, d in adj.get(u, []):
            if v not in off:
                off[v] = off[u] + d
                stack.append(v)
    # loops through phase shifters with inconsistent shifts carry large circulating flows; keep shifts consistent
    for t in case["xfmrs"]:
        want = off[t["i"]] - off[t["j"]]
        if abs(want - t["ang"]) > 10:
            t["ang"] = want + rng.uniform(-5, 5)
    for t in case["xfmrs3"]:
        if t["stat"] == 0:
            continue
        star = off[t["b"][0]] - t["ang"][0]
        for q in (1, 2):
            want = off[t["b"][q]] - star
            if abs(want - t["ang"][q]) > 10:
                t["ang"][q] = want + rng.uniform(-5, 5)
    for b in nums:
        vang[b] += off[b]
    # parallel circuits
    if P("parallel"):
        used = [(l["i"], l["j"]) for l in case["branches"]]
        if used:
            a, b = rng.choice(used)
            case["branches"].append(branch(a, b, rng.uniform(0, .04), rng.uniform(.05, .2), rng.uniform(0, .1), ckt="2"))
            case["branches"].append(branch(b, a, rng.uniform(0, .04), rng.uniform(.05, .2), 0.0, ckt="1"))
            if P("twins"):
                l, e = case["branches"][-2], 1 + 10 ** rng.uniform(-5, -2)
                case["branches"].append(branch(a, b, l["r"] * e, l["x"], l["b"] * e, ckt="3"))
        if case["xfmrs"]:
            t = dict(rng.choice(case["xfmrs"]))
            t["ckt"] = "2"
            case["xfmrs"].append(t)
    # unique (i,j,ckt)
    for key in ("branches", "xfmrs"):
        seen = {}
        for l in case[key]:
            k = (l["i"], l["j"])
            seen[k] = seen.get(k, 0) + 1
            l["ckt"] = str(seen[k]) if not P("ids") else chr(64 + seen[k])
            while sum(1 for m in case[key] if (m["i"], m["j"], m["ckt"]) == (*k, l["ckt"])) > 1:
                l["ckt"] = rng.choice("ABCDEFGHJK") + rng.choice("123456789")
    for l in case["branches"]:
        if P("r0"):
            l["r"] = 0.0
        if P("r0"):
            l["b"] = 0.0
    if P("lineshunt") and case["branches"]:
        l = rng.choice(case["branches"])
        l["gi"], l["bi"] = rng.uniform(0, .01), rng.uniform(-.05, .05)
        if rng.random() < .6:
            l["gj"], l["bj"] = rng.uniform(0, .01), rng.uniform(-.05, .05)
    for b in nums:
        gl, bl = (rng.uniform(0, 5), rng.uniform(-20, 20)) if P("busshunt") else (0.0, 0.0)
        case["buses"].append(bus(b, 1, 1.0, 0.0, kv[b], name=f"N{b}", gl=gl, bl=bl))
        if P("fshunt"):
            case["fshunts"].append({"i": b, "id": "1", "status": 1, "gl": rng.choice([0.0, rng.uniform(0, 10)]),
                                    "bl": rng.uniform(-30, 40)})
            if rng.random() < .3:
                case["fshunts"].append({"i": b, "id": "2", "status": rng.choice([0, 1]), "gl": 3.0, "bl": -10.0})
        if P("sshunt"):
            case["sshunts"].append(sshunt(b, rng.uniform(-40, 60), modsw=rng.choice([0, 1, 3, 4]),
                                          stat=1 if rev == 30 else rng.choice([1, 1, 1, 0]),
                                          steps=[(rng.randint(1, 4), rng.uniform(5, 30)) for _ in range(rng.randint(1, 3))]))
    bymap = {b["i"]: b for b in case["buses"]}
    bymap[slack]["ide"] = 3
    on, _ = online(case)
    case["stars"] = sum(1 for t in case["xfmrs3"] if t["stat"] != 0)
    # decoy offline elements
    if P("off_bus") and n >= 3:
        x = max(nums) + 1 if max(nums) < 999997 else min(nums) - 1
        case["buses"].append(bus(x, 4, 1.0, 0.0, 138.0, name=f"N{x}"))
        a = rng.choice(nums)
        case["branches"].append(branch(a, x, .01, .1, .5, st=1))
        case["loads"].append(load(x, 500, 200))
        if rev != 30:
            case["fshunts"].append({"i": x, "id": "1", "status": 1, "gl": 50.0, "bl": 50.0})
        case["gens"].append(gen(x, 300, 1.04))
        if rng.random() < .5:
            case["xfmrs"].append(xfmr(x, a, .001, .05))
        if rng.random() < .5 and rev != 30:
            case["sshunts"].append(sshunt(x, 80.0))
        if P("xf3off"):                      # a three-winding transformer with one winding on the isolated bus
            a, b = rng.sample(nums, 2)
            if abs(off[a] - off[b]) < 1e-9:
                tri = [a, b]
                tri.insert(rng.randrange(3), x)
                case["xfmrs3"].append(xfmr3(*tri, [rng.choice([0.0, .005]) for _ in range(3)], [.2, .25, .3], ckt="X"))
                case["stars"] += 1
    if P("off_elems"):
        a, b = rng.sample(nums, 2)
        if not any((l["i"], l["j"]) == (a, b) for l in case["branches"]):
            case["branches"].append(branch(a, b, .001, .01, 1.0, ckt="9", st=0))
        a, b = rng.sample(nums, 2)
        if not any((l["i"], l["j"]) == (a, b) for l in case["xfmrs"]):
            case["xfmrs"].append(xfmr(a, b, .001, .01, ckt="9", windv1=1.2, stat=0))
        case["loads"].append(load(rng.choice(nums), 300, 300, id="X", status=0))
        if rev != 30:
            case["fshunts"].append({"i": rng.choice(nums), "id": "X", "status": 0, "gl": 100.0, "bl": 100.0})
    V = {b: cmath.rect(vmag[b], math.radians(vang[b])) for b in nums}
    # roles and injections that make V the exact solution
    pv = set()
    for b in nums:
        if b != slack and P("pv"):
            pv.add(b)
    svc = set()
    for b in nums:
        if b != slack and b not in pv and P("svc") and not any(s["i"] == b for s in case["sshunts"]):
            svc.add(b)
            w = rng.uniform(0.0, 0.03)
            case["sshunts"].append(sshunt(b, 0.0, modsw=2, vhi=vmag[b] + w, vlo=vmag[b] - w, steps=[(1, 100.0), (1, -100.0)]))
    Y, ix = ybus(case)
    vec = np.array([V[b] for b in ix])
    S = vec * (Y @ vec).conj() * case["sbase"]
    ids = ["1", "2", "3", "A", "B1", "99"]
    for b in nums:
        s = complex(S[ix[b]])
        fixed_gen = 0j
        if b == slack:
            bymap[b]["vm"], bymap[b]["va"] = vmag[b], vang[b]
            case["gens"].append(gen(b, rng.uniform(-50, 200), vmag[b]))
            if P("mult_slack_gen"):
                case["gens"].append(gen(b, rng.uniform(0, 50), vmag[b], id="2"))
            if P("slack_load"):
                case["loads"].append(load(b, rng.uniform(0, 80), rng.uniform(-20, 40)))
            continue
        if b in pv:
            bymap[b]["ide"] = 2
            pl, ql = rng.uniform(0, 80), rng.uniform(-10, 40)
            if rng.random() < .6:
                case["loads"].append(load(b, pl, ql))
            else:
                pl = ql = 0.0
            need = s.real + pl
            if P("fixedq"):
                q = rng.uniform(-20, 20)
                p = rng.uniform(1, 30)
                case["gens"].append(gen(b, p, vmag[b], id="7", qg=q, qt=q, qb=q))
                need -= p
            parts = [need]
            if P("multigen"):
                a = rng.uniform(.2, .8)
                parts = [need * a, need * (1 - a)]
            for k, p in enumerate(parts):
                case["gens"].append(gen(b, p, vmag[b], id=ids[k], qg=rng.uniform(-5, 5), qt=rng.uniform(200, 400), qb=-rng.uniform(200, 400)))
                if P("narrow"):              # limits are not enforced, but equal ones mean a fixed output
                    g = case["gens"][-1]
                    g["qb"] = g["qt"] - 10 ** rng.uniform(-4, 1)
                if k and P("vsdiff"):
                    case["gens"][-1]["vs"] = round(vmag[b] + rng.uniform(-.03, .03), 4)
            if rng.random() < .2:
                case["gens"].append(gen(b, 100.0, 1.1, id="99", stat=0))
            continue
        if b in svc:
            case["loads"].append(load(b, -s.real, rng.uniform(-10, 30)))
            continue
        if P("fixedq") and rng.random() < .5:
            bymap[b]["ide"] = 2
            q, p = rng.uniform(-30, 30), rng.uniform(1, 60)
            case["gens"].append(gen(b, p, 1.0, id="1", qg=q, qt=q, qb=q))
            fixed_gen = complex(p, q)
        d = -s + fixed_gen
        if P("twins"):                       # alike, but not quite
            e = 10 ** rng.uniform(-5, -2) * rng.choice([-1, 1])
            case["loads"].append(load(b, d.real * (1 + e) / 2, d.imag * (1 - e) / 2, id="1"))
            case["loads"].append(load(b, d.real * (1 - e) / 2, d.imag * (1 + e) / 2, id="2"))
        elif P("parted"):                     # real power only, reactive power only
            case["loads"].append(load(b, d.real, 0.0, id="1"))
            case["loads"].append(load(b, 0.0, d.imag, id="2"))
        elif P("multiload"):
            a = complex(rng.uniform(-20, 60), rng.uniform(-10, 20))
            case["loads"].append(load(b, a.real, a.imag, id=rng.choice(["1", "A"])))
            case["loads"].append(load(b, (d - a).real, (d - a).imag, id="2"))
        else:
            case["loads"].append(load(b, d.real, d.imag, id=rng.choice(["1", "Z1"])))
    for l in case["loads"]:
        if P("zload") and rng.random() < .5:
            m2 = vmag.get(l["i"], 1.0) ** 2
            l["yp"], l["yq"] = rng.choice([0.0, rng.uniform(-5, 30)]), rng.choice([0.0, rng.uniform(-20, 20)])
            if l["status"] == 1:
                l["pl"] -= l["yp"] * m2
                l["ql"] += l["yq"] * m2
    if P("base"):
        case["fbase"] = rng.choice([1.0, 10.0, 50.0, 200.0, 1000.0, rng.uniform(5, 500)])
    # starting point
    mode = rng.choice(["near", "near", "exact", "shifted"])
    for b in nums:
        if b == slack:
            continue
        bb = bymap[b]
        if mode == "exact":
            bb["vm"], bb["va"] = vmag[b], vang[b]
        elif mode == "near":
            bb["vm"], bb["va"] = vmag[b] + rng.uniform(-.01, .01), vang[b] + rng.uniform(-2, 2)
        else:
            bb["vm"], bb["va"] = 1.0, slack_va + off[b]
    case["mode"] = mode
    return case, V
