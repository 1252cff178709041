"""Stratospheric ozone forcing counts chlorine and bromine of every gas."""

import itertools
import os

import numpy as np

import data
import ref
import sim

ORACLE = "harness/ref.py with atoms per molecule from the chemical formulas; independence of row order; no influence of gases without chlorine and bromine"
BOUNDS = {
    "quick": "each of 36 named halogen gases alone and in all pairs of 14; run lengths 1-8; all level histories of length 4 over 3 levels for 3 gas kinds; all orders of 4 gases and 30 rotations of the whole table; the 4 gas tables of the repository; emission and concentration runs; each gas without chlorine or bromine; whole runs of two to four centuries",
    "thorough": "all pairs of 36 gases, histories of length 6, all orders of 5 gases",
}
BASIC = ["CO2", "CH4", "N2O", "SO2", "NOx", "CO", "NMVOC", "NH3", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O",
         "BMB_AEROS_BC", "BMB_AEROS_OC", "BMB_AEROS", "LANDUSE", "BC", "OC", "OTHER"]
WITHOUT = ["HFC134a", "HFC125", "HFC23", "HFC-32", "HFC4310mee", "C2F6", "CF4", "SF6", "NF3", "SO2F2", "cC4F8", "C6F14"]


def cases(tier):
    deep = tier != "quick"
    names = list(ref.HALO_COUNTS)
    for g in names + WITHOUT:
        for cr in (None, True):
            yield {"t": "gases", "g": [g], "n": 7, "conc_run": cr}
    pool = names if deep else ["CFC-11", "CFC-113", "CCl4", "CH3Br", "HCFC-22", "HCFC-141b", "H-1211", "H-2402",
                               "CHCl3", "CH2BrCl", "HFC134a", "CF4", "CFC-114a", "HCFC-123"]
    for a, b in itertools.combinations(pool, 2):
        yield {"t": "gases", "g": [a, b], "n": 6, "conc_run": None}
    for n in range(1, 9):
        for es in (-1, 0, 1, 2, 3, 5, 9):
            for cr in (None, True):
                yield {"t": "gases", "g": ["CFC-11", "H-1211", "CH3Br"], "n": n, "conc_run": cr, "es": es}
    for g in ("CFC-11", "H-1211", "CH3Br"):
        for h in itertools.product(range(3), repeat=6 if deep else 4):
            yield {"t": "hist", "g": g, "h": list(h)}
    for perm in itertools.permutations(["CFC-113", "CH3Br", "H-1211", "HFC134a"] + (["CCl4"] if deep else [])):
        yield {"t": "order", "perm": list(perm)}
    for r in range(len(data.GAS_ROWS) + 1):
        yield {"t": "rotate", "r": r}
    for g in data.GAS_FILES:
        for cr in (None, True):
            yield {"t": "table", "gas": g, "conc_run": cr}
    for g in WITHOUT:
        yield {"t": "inert", "g": g}
    yield from sim.centuries(tier, every=True)


def gas_rows(names):
    full = data.gas_table()
    out = {g: full[g] for g in BASIC}
    for i, g in enumerate(names):
        out[g] = dict(full["CFC-11"])
        out[g].update({"TAU1": 4.0 + 7 * i, "BETA": 20.0 + i})
    return out


def both(c, w, em=None):
    em = {"ref_yr": 2000, **(em or {})}
    res = sim.run(w, None, em)
    out = ref.simulate(w, None, em)
    c.step(len(out["years"]))
    c.trace()
    sim.cmp_forc(c, res, out, ("STRAT_O3",))
    v = sim.col(res["forcing"], "STRAT_O3")
    c.true(bool((v[:3] == 0).all()), f"forcing in the first three years: {v[:3]}")
    return res, out


def run(case, c):
    t = case["t"]
    if t == "century":
        w = sim.century_world(case, gas=gas_rows(list(ref.HALO_COUNTS)))
        res, out = sim.century(c, case, w)
        sim.cmp_forc(c, res, out, ("STRAT_O3",))
    elif t == "gases":
        n = case["n"]
        w = data.make_world(nystart=1998, nyend=1998 + n - 1, emstart=1998 + case.get("es", 2),
                            gas=gas_rows(case["g"]), conc_run=case["conc_run"])
        res, _ = both(c, w)
        v = sim.col(res["forcing"], "STRAT_O3")
        if n > 4:
            hal = any(g in ref.HALO_COUNTS for g in case["g"])
            c.true(bool(np.any(v != 0)) == hal, f"influence of {case['g']} on stratospheric ozone: {v}")
    elif t == "hist":
        n = len(case["h"])
        w = data.make_world(nystart=1998, nyend=1998 + n + 3, emstart=2020, gas=gas_rows([case["g"]]))
        for i, s in enumerate(case["h"]):
            w["conc"][case["g"]][1999 + i] = (0.0, 265.0, 900.0)[s]
            c.state(case["g"], tuple(case["h"][: i + 1]))
        both(c, w)
    elif t == "order":
        w = data.make_world(nystart=1998, nyend=2004, emstart=2000, gas=gas_rows(case["perm"]))
        # give each gas the same properties in every order
        full = data.gas_table()
        for g in case["perm"]:
            w["gas"][g] = full[g]
        res, _ = both(c, w)
        base = data.make_world(nystart=1998, nyend=2004, emstart=2000, gas=gas_rows(sorted(case["perm"])))
        for g in case["perm"]:
            base["gas"][g] = full[g]
        other = sim.run(base, None, {"ref_yr": 2000})
        c.close("order of gases", sim.col(res["forcing"], "STRAT_O3"), sim.col(other["forcing"], "STRAT_O3"))
    elif t == "rotate":
        names = list(data.GAS_ROWS)
        r = case["r"]
        names = names[r:] + names[:r] if r < len(names) else names[::-1]
        full = data.gas_table()
        w = data.make_world(nystart=1998, nyend=2004, emstart=2000, gas={g: full[g] for g in names})
        res, out = both(c, w)
        sim.cmp_forc(c, res, out)
    elif t == "table":
        gas = data.parse_gas(os.path.join(data.TEST_DATA, case["gas"]))
        w = data.make_world(nystart=1998, nyend=2006, emstart=2001, gas=gas, conc_run=case["conc_run"])
        both(c, w)
    else:
        gas = gas_rows(["CFC-11", case["g"], "H-1211"])
        w = data.make_world(nystart=1998, nyend=2004, emstart=2000, gas=gas)
        res, _ = both(c, w)
        for y in w["em"][case["g"]]:
            w["em"][case["g"]][y] *= 7.0
            w["conc"][case["g"]][y] *= 3.0 + 0.1 * (y % 3)
        other, _ = both(c, w)
        c.close("inert gas", sim.col(other["forcing"], "STRAT_O3"), sim.col(res["forcing"], "STRAT_O3"))
