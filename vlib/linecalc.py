"""Carson / Kron line constants, written from Kersting (3rd ed., ch. 4 and 5); ohm and siemens per mile."""
import math

import numpy as np

PH = ["A", "B", "C", "N"]


def _carson(gmrs_res, D, kind):
    rd, ke = (0.09530, 7.93402) if kind != "ug" else (0.09327, 7.95153)
    n = len(gmrs_res)
    Z = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            if i == j:
                r, gmr = gmrs_res[i]
                Z[i, j] = r + rd + 0.12134j * (math.log(1 / gmr) + ke)
            else:
                Z[i, j] = rd + 0.12134j * (math.log(1 / D[i][j]) + ke)
    return Z


def kron(Z, k):
    """eliminate all conductors after the first k"""
    if k == len(Z):
        return Z
    A, B, C, D = Z[:k, :k], Z[:k, k:], Z[k:, :k], Z[k:, k:]
    return A - B @ np.linalg.solve(D, C)


def overhead_z(wires, dist):
    """wires: list of (phase, r ohm/mile, gmr ft), neutral last; dist(p, q) in feet"""
    n = len(wires)
    D = [[dist(wires[i][0], wires[j][0]) if i != j else 0 for j in range(n)] for i in range(n)]
    Z = _carson([(w[1], w[2]) for w in wires], D, "oh")
    return kron(Z, sum(1 for w in wires if w[0] != "N"))


def overhead_y(wires, pos):
    """wires: (phase, diameter in), pos[phase] = (x, y) feet -> shunt susceptance matrix S/mile (total)"""
    n = len(wires)
    P = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            xi, yi = pos[wires[i][0]]
            xj, yj = pos[wires[j][0]]
            S = math.hypot(xi - xj, yi + yj)
            D = wires[i][1] / 24.0 if i == j else math.hypot(xi - xj, yi - yj)
            P[i, j] = 11.17689 * math.log(S / D)
    k = sum(1 for w in wires if w[0] != "N")
    return 2 * math.pi * 60 * 1e-6 * np.linalg.inv(kron(P, k))


def underground_z(cables, neutral, dist):
    """cables: list of dicts(phase, r, gmr, od, nd, strands, nr, ngmr); neutral: (r, gmr) or None"""
    items = []
    for c in cables:
        items.append(("c", c))
    for c in cables:
        items.append(("n", c))
    if neutral is not None:
        items.append(("x", {"phase": "N", "r": neutral[0], "gmr": neutral[1]}))
    n = len(items)
    gr, D = [], [[0] * n for _ in range(n)]
    for kind, c in items:
        if kind in ("c", "x"):
            gr.append((c["r"], c["gmr"]))
        else:
            R = (c["od"] - c["nd"]) / 24.0
            k = c["strands"]
            gr.append((c["nr"] / k, (c["ngmr"] * k * R ** (k - 1)) ** (1.0 / k)))
    for i, (ki, ci) in enumerate(items):
        for j, (kj, cj) in enumerate(items):
            if i == j:
                continue
            if ci["phase"] == cj["phase"]:
                D[i][j] = (ci["od"] - ci["nd"]) / 24.0
            else:
                D[i][j] = dist(ci["phase"], cj["phase"])
    return kron(_carson(gr, D, "ug"), len(cables))


def underground_y(cables):
    out = np.zeros((len(cables), len(cables)))
    for i, c in enumerate(cables):
        Rb = (c["od"] - c["nd"]) / 2.0
        out[i, i] = 77.3619e-6 / (math.log(Rb / (c["cd"] / 2)) - math.log(c["strands"] * (c["nd"] / 2) / Rb) / c["strands"])
    return out


def triplex_z(r1, gmr1, rn, gmrn, dia, ins):
    d12, d1n = (dia + 2 * ins) / 12.0, (dia + ins) / 12.0
    D = [[0, d12, d1n], [d12, 0, d1n], [d1n, d1n, 0]]
    return kron(_carson([(r1, gmr1), (r1, gmr1), (rn, gmrn)], D, "oh"), 2)
