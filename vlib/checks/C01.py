"""RAW solves satisfy the file's own power balance (independent bus-admittance oracle)."""
import cmath
import math

from vlib import api, rawgen

TOL = 2e-5


def run_case(ctx):
    rng = ctx.rng
    rev = rng.choice([30, 32, 33, 34])
    big = ctx.tier == "thorough" and rng.random() < .25
    case, V = rawgen.random_case(rng, 3, 60 if big else 14, stress=rng.choice([0.5, 1.0, 1.5]), rev=rev)
    current = [l for l in case["loads"] if l["status"] == 1 and l["i"] in V] if ctx.index % 40 == 17 else []
    if current:
        l = rng.choice(current)
        l["ip"], l["iq"] = rng.uniform(.01, .08), rng.uniform(-.03, .03)
    p = ctx.write("case.RAW", rawgen.write(case, rev, delim=rng.choice([",", ",", " "]) if rev != 30 else ",",
                                           comments=rev > 30 and rng.random() < .2))
    kw = {}
    if rng.random() < .15:
        kw["voltage_limiting"] = True
    tol = TOL
    if rng.random() < .3:
        kw["tolerance"] = 1e-8
        tol = 1e-7
    if rng.random() < .15:
        kw["tx_stepping"] = True
    healthy = case["mode"] in ("near", "exact") and not kw.get("voltage_limiting")
    try:
        res = api.solve_file(p, api.settings(**kw))
        solved = res.is_success
    except Exception:
        if healthy and not current:
            raise
        solved = False
    if not solved:
        if current:
            ctx.count("constant_current_unsolved")
            return
        # started at or near a healthy solution every one of these cases is solvable
        if healthy:
            ctx.violation("not-solved", f"a {len(V)}-bus case started near its solution was reported unsuccessful")
            return
        ctx.count("unsuccessful_far_start")
        for b in case["buses"]:
            if b["i"] in V:
                b["vm"], b["va"] = abs(V[b["i"]]), math.degrees(cmath.phase(V[b["i"]]))
        tol = TOL
        p = ctx.write("case.RAW", rawgen.write(case, rev))
        res = api.solve_file(p)
        if not ctx.expect(res.is_success, "not-solved", f"a {len(V)}-bus case started at its solution was reported unsuccessful"):
            return
    volts = api.voltages_by_bus(res)
    miss = [b for b in V if b not in volts]
    if not ctx.expect(not miss, "bus-missing", f"no voltage reported for in-service buses {miss}"):
        return
    off = [b["i"] for b in case["buses"] if b["ide"] == 4]
    ctx.expect(not [b for b in off if b in volts], "offline-bus-solved", f"isolated buses {off} have a reported voltage")
    bad, _ = rawgen.mismatch(case, volts)
    if current:
        ctx.count("constant_current")
        if any(not m < tol for _, _, m in bad):
            as_known, _ = rawgen.mismatch(dict(case, fixed_currents=True), volts)
            if all(m < tol for _, _, m in as_known):
                ctx.violation("raw-constant-current-loads", f"rev {rev}: load {l['ip']:.4f}+j{l['iq']:.4f} (MVA at 1 pu) at bus {l['i']}: balance off by "
                              f"{max(m for _, _, m in bad):.3e}; it draws {l['ip']:.4f}+j{l['iq']:.4f} pu of the case base at a fixed angle")
                bad = as_known
    for b, kind, m in bad:
        ctx.ok()
        ctx.count("checked_" + kind)
        ctx.peak(kind + (" tight" if tol < TOL else ""), m)
        if not m < tol:
            ctx.violation("balance:" + kind, f"rev {rev} bus {b}: {kind} off by {m:.3e} (tolerance {tol})")
    ctx.count("networks")
    ctx.count("buses", len(V))
    for k in ("xfmrs", "xfmrs3", "fshunts", "sshunts", "gens", "loads", "branches"):
        ctx.count(k, len(case[k]))
    ctx.state(rev, case["mode"], *[bool(case[k]) for k in ("xfmrs", "xfmrs3", "fshunts", "sshunts")],
              sorted({(t["cw"], t["cz"]) for t in case["xfmrs"]}), len(V))
    if ctx.index < 2:
        ctx.sample(f"rev {rev}: {len(V)} buses, {len(case['branches'])} branches, {len(case['xfmrs'])}+{len(case['xfmrs3'])} "
                   f"transformers; worst mismatch {max(m for _, _, m in bad):.1e} pu")
