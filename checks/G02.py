"""Two layer model against the plain reference solution."""

import itertools

import common
import data
import sim
from checks.G01 import LONG, USUAL, extremes, symbols

ORACLE = "harness/ref.py RefTwoLayer, all outputs of every year; mixed plus deep heat equals total"
BOUNDS = {
    "quick": "all forcing histories of length 4 over 6 yearly symbols; every parameter over 2-6 values, all pairs over all values and triples at end values on a 14 year history; depths of both layers in steps of 15 m; all histories of length 3 with any of 6 extreme symbols, of length 2 at 5 sizes between 1e-8 and 100; ramps of 251 and 600 years",
    "thorough": "all histories of length 6 over 6 symbols, depths in steps of 5 m",
}


def cases(tier):
    for h in common.histories(USUAL, 4 if tier == "quick" else 6):
        yield {"h": h, "p": {}}
    yield from extremes(common.TWO_VALUES)
    table = common.TWO_VALUES
    for p in common.singles(table) + common.pairs(table, 9):
        yield {"h": LONG, "p": p}
    for a, b, d in itertools.combinations(table, 3):
        for x in (table[a][0], table[a][-1]):
            for y in (table[b][0], table[b][-1]):
                for z in (table[d][0], table[d][-1]):
                    yield {"h": LONG, "p": {a: x, b: y, d: z}}
    for m in [float(x) for x in range(5, 1000, 5 if tier != "quick" else 15)]:
        for d in (50.0, 300.0, 700.0, 1200.0, 4000.0):
            yield {"h": LONG, "p": {"mixed": m, "deep": d}}
    for p in ({}, {"ocean_efficacy": 1.5, "k": 1.0}):
        yield {"ramp": 251, "p": p}
        yield {"ramp": 251, "p": p, "slope": -0.7}
    yield {"ramp": 600, "p": {}, "slope": 0.2}
    for share in ([0.5, 0.0, 1.0, 0.2], [0.9, 0.9, 0.0, 0.4]):
        for d in (1.0, -0.3):
            yield {"h": [1, 2, 3, 5], "p": {"delta_lambda_aero": d}, "share": share}
    for sun in ([0.0, 1.0, 0.0, -0.5], [0.3, 0.3, 0.3, 0.3]):
        yield {"h": [1, 2, 3, 5], "p": {}, "sun": sun}


def run(case, c):
    if "ramp" in case:
        n = case["ramp"]
        f = case.get("slope", 1.0)
        seq = [(0.05 * i * f + (i % 5) * 0.1, 0.04 * i * f - (i % 7) * 0.1) for i in range(n)]
        w = data.forcing_world(seq, nystart=1850, thermal_model="twolayer")
    else:
        syms = symbols(case)
        ncn = max(len(s[2]) for s in syms)
        ncs = max(len(s[3]) for s in syms)
        w = data.forcing_world(
            [(s[0], s[1]) for s in syms], thermal_model="twolayer",
            volc=[(s[2] + [0.0] * (ncn - len(s[2])), s[3] + [0.0] * (ncs - len(s[3]))) for s in syms],
            w_aero=case.get("share"), sun=case.get("sun"),
        )
        for i in range(len(syms)):
            c.state("h", tuple(case["h"][: i + 1]), str(case["p"]), str(case.get("share")), str(case.get("sun")), case.get("f"))
    res, _ = sim.full_forcing(c, w, case["p"])
    c.close("mixed + deep heat", res["OHC_MIXED"] + res["OHC_DEEP"], res["OHCTOT"])
