"""Upwelling diffusion model against the plain reference solution."""

import common
import data
import sim

# forcing of a year: north, south, volcanic columns north, south
ALPHABET = [
    (0.0, 0.0, [0.0], [0.0]),
    (2.5, 2.5, [0.0], [0.0]),
    (4.0, -1.0, [0.0], [0.0]),
    (-3.0, 0.5, [-4.0, 0.0, -1.0], [0.0, 0.0, -2.0]),
    (0.7, 3.0, [0.0], [-5.0]),
    (12.0, 9.0, [0.0, 0.0, 0.0, -6.0], [-1.0, 0.0]),
    # extremes
    (60.0, 45.0, [0.0], [30.0]), (-60.0, -35.0, [-50.0, 0.0], [0.0]), (1e-4, -2e-4, [0.0], [-1e-5]),
    (2.0, 0.0, [0.0], [0.0]), (0.0, -3.0, [0.0], [0.0]), (0.0, 0.0, [0.0], [4.0, -9.0]),
]
USUAL = 6
LONG2 = [6, 6, 7, 8, 6, 3, 7, 7, 8, 2, 9, 10, 11]
SCALES = [1e-8, 1e-6, 1e-4, 5.0, 100.0]
LONG = [i % 6 for i in range(0, 40, 7)] + [3, 5, 1, 0, 2, 4, 5, 5]
ORACLE = "harness/ref.py RefUDM (Thomas solution of the documented column equations), all outputs of every year"
BOUNDS = {
    "quick": "all forcing histories of length 4 over 6 yearly symbols (hemispheric and volcanic), default parameters; all of length 3 with any of 6 extreme symbols, all of length 2 at 5 sizes between 1e-8 and 100, every parameter value on an extreme history; every parameter over 3-6 values and all pairs at their end values on a 14 year history; layer/step grid, every depth of the mixed layer in steps of 25 m and either side of each 100 m, every number of layers 8-60 and of steps 1-36; 251 year ramps up and down, 600 years",
    "thorough": "all histories of length 5 over 6 symbols, parameters in pairs over all values on a 14 year history, layer/step/depth grid, every depth in steps of 5 m with 6 parameter sets, 251 year ramps",
}
ASSUMPTIONS = ["mixed layer shallower than 700 m and at least 8 layers (the model's own range)"]


def extremes(table):
    for h in common.histories(len(ALPHABET), 3):
        if max(h) >= USUAL:
            yield {"h": h, "p": {}}
    for p in common.singles(table):
        yield {"h": LONG2, "p": p}
    for f in SCALES:
        for h in common.histories(USUAL, 2):
            yield {"h": h, "p": {}, "f": f}
        for p in common.singles(table)[::3]:
            if f <= 5:  # beyond, feedbacks of the upwelling make the temperatures blow up
                yield {"h": LONG2, "p": p, "f": f}


def cases(tier):
    depth = 4 if tier == "quick" else 5
    for h in common.histories(USUAL, depth):
        yield {"h": h, "p": {}}
    yield from extremes(common.UDM_VALUES)
    table = common.UDM_VALUES
    for p in common.singles(table):
        yield {"h": LONG, "p": p}
    for p in common.pairs(table, 2 if tier == "quick" else 9):
        yield {"h": LONG, "p": p}
    mixed = [25.0, 100.0, 107.0, 650.0] if tier == "quick" else [10.0, 25.0, 60, 99.5, 100.0, 107.0, 150, 200.0, 333.0, 650.0]
    for lm in (8, 9, 10, 20, 40, 50):
        for nt in (1, 4, 12, 24):
            for m in mixed:
                yield {"h": LONG, "p": {"lm": lm, "ldtime": nt, "mixed": m}}
    # every depth of the mixed layer, number of layers and of steps
    step = 25 if tier == "quick" else 5
    depths = [float(m) for m in range(step, 700, step)] + [m + d for m in range(100, 700, 100) for d in (-0.5, 0.5)]
    for m in depths:
        for p in ({}, {"akapa": 3.0, "W": 0.5}) if tier == "quick" else ({}, {"akapa": 3.0, "W": 0.5}, {"threstemp": 0}, {"lm": 12}, {"ebbeta": 2.0}, {"cpi": 0.9}):
            yield {"h": LONG, "p": {"mixed": m, **p}}
    for lm in range(8, 61):
        yield {"h": LONG, "p": {"lm": lm, "akapa": 3.0}}
    for nt in range(1, 37):
        yield {"h": LONG, "p": {"ldtime": nt}}
    for p in ({}, {"threstemp": 0}, {"ebbeta": 3.0, "ocean_efficacy": 1.3}):
        yield {"ramp": 251, "p": p}
        yield {"ramp": 251, "p": p, "slope": -0.7}
    yield {"ramp": 600, "p": {}, "slope": 0.2}
    for share in ([0.5, 0.0, 1.0, 0.2], [0.9, 0.9, 0.0, 0.4]):
        for p in ({"delta_lambda_aero": 1.0}, {"delta_lambda_aero": 2.0, "ebbeta": 1.0, "lambda": 1.0}):
            yield {"h": [1, 2, 3, 5], "p": p, "share": share}


def symbols(case):
    f = case.get("f", 1.0)
    return [(a * f, b * f, [x * f for x in n], [x * f for x in s]) for a, b, n, s in (ALPHABET[i] for i in case["h"])]


def run(case, c):
    if "ramp" in case:
        n = case["ramp"]
        f = case.get("slope", 1.0)
        seq = [(0.05 * i * f + (i % 5) * 0.1, 0.04 * i * f - (i % 7) * 0.1) for i in range(n)]
        w = data.forcing_world(seq, nystart=1850)
    else:
        syms = symbols(case)
        # every row of a table has equally many columns
        ncn = max(len(s[2]) for s in syms)
        ncs = max(len(s[3]) for s in syms)
        w = data.forcing_world(
            [(s[0], s[1]) for s in syms],
            volc=[(s[2] + [0.0] * (ncn - len(s[2])), s[3] + [0.0] * (ncs - len(s[3]))) for s in syms],
            w_aero=case.get("share"),
        )
        for i in range(len(syms)):
            c.state("h", tuple(case["h"][: i + 1]), str(case["p"]), str(case.get("share")), case.get("f"))
    sim.full_forcing(c, w, case["p"])
