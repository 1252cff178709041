"""Component forcings against their documented formulas."""

import itertools
import os

import common
import data
import ref
import sim

ORACLE = "harness/ref.py forcing formulas, every component of every year"
BOUNDS = {
    "quick": "concentration runs over all histories of length 2 of 27 CO2/CH4/N2O level triples (after a fixed first year) and single steps over a 12^3 level grid; emission histories of length 3 over 4 symbols for each of 6 emitted species; every efficiency parameter x values x 4 run kinds and all pairs; reference years x start years; each gas's efficiency and adjustment factor; the repository's gas tables; unchanged inputs; whole runs of two to four centuries; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "histories of length 3 of the level triples, 16^3 grid, emission histories of length 5",
}
LEV = {"CO2": (278.0, 400.0, 1100.0), "CH4": (700.0, 1800.0, 3800.0), "N2O": (270.0, 330.0, 420.0)}
TRIP = list(itertools.product(range(3), repeat=3))
SP = ["SO2", "BC", "OC", "NMVOC", "NH3", "NOx", "CO", "BMB_AEROS_OC", "BMB_AEROS_BC", "CH4", "CO2_FF"]


def cases(tier):
    deep = tier != "quick"
    for h in common.histories(27, 2):
        yield {"t": "lev", "h": h}
    if deep:
        for h in common.histories(27, 3):
            yield {"t": "lev", "h": h}
    n = 16 if deep else 12
    for a in range(n):
        yield {"t": "grid", "a": a, "n": n}
    for sp in SP:
        for h in itertools.product(range(4), repeat=5 if deep else 3):
            yield {"t": "em", "sp": sp, "h": list(h)}
    for k in range(4):
        for q in common.singles(common.EMICONC_VALUES):
            yield {"t": "par", "k": k, "q": q}
    for q in common.pairs(common.EMICONC_VALUES):
        yield {"t": "par", "k": 0, "q": q}
    for y0 in (1996, 1998, 2001):
        for r in range(1994, 2016, 1 if deep else 2):
            for cr in (None, True):
                yield {"t": "ref", "y0": y0, "r": r, "conc_run": cr}
    for g in data.GAS_ROWS:
        for colname in ("ALPHA", "SARF_TO_ERF"):
            for f in (0.0, 2.5, -1.0):
                for cr in (None, True):
                    yield {"t": "row", "g": g, "col": colname, "f": f, "conc_run": cr}
    for g in data.GAS_FILES:
        for cr in (None, True):
            yield {"t": "table", "gas": g, "conc_run": cr}
    for k in range(4):
        yield {"t": "still", "k": k}
    for g in ("NOx", "CO", "NMVOC", "CH4"):
        for d in (1e-4, 1e-3, 0.01, 0.1, 0.5):
            for sign in (1, -1):
                yield {"t": "near", "g": g, "d": sign * d}
    yield from sim.sized(("em", "conc", "luc"))
    for cent in sim.centuries(tier, every=True):
        for q in ({}, {"qbmb": 0.1, "qnox": 0.01, "qnmvoc": 0.02, "ref_yr": 2011}):
            yield {**cent, "q": q}
    for n in (1, 2, 3, 4, 30):
        yield {"t": "len", "n": n}


KW = [{}, {"thermal_model": "twolayer"}, {"carbon_cycle_model": "box"}, {"conc_run": True}]


def both(c, w, em):
    res = sim.run(w, None, em)
    out = ref.simulate(w, None, em)
    c.step(len(out["years"]))
    c.trace()
    sim.cmp_forc(c, res, out)
    sim.cmp_total(c, res, out)
    return res, out


def run(case, c):
    t = case["t"]
    em = {"ref_yr": 2000}
    if t == "sized":
        q = {"qbmb": 0.1, "qnox": 0.01, "qnmvoc": 0.02, "qnh3": 0.03}
        _, res, out = sim.run_sized(c, case, None, None, q)
        sim.cmp_forc(c, res, out)
        sim.cmp_total(c, res, out)
    elif t == "century":
        w = sim.century_world(case)
        res, out = sim.century(c, case, w, None, case["q"])
        sim.cmp_forc(c, res, out)
        sim.cmp_total(c, res, out)
    elif t == "lev":
        w = data.make_world(nystart=1999, nyend=1999 + len(case["h"]), emstart=2001, conc_run=True)
        for i, s in enumerate(case["h"]):
            for g, lv in zip(("CO2", "CH4", "N2O"), TRIP[s]):
                w["conc"][g][2000 + i] = LEV[g][lv]
            c.state(tuple(case["h"][: i + 1]))
        both(c, w, {"ref_yr": 1999})
    elif t == "grid":
        n = case["n"]
        w = data.make_world(nystart=1999, nyend=1999 + n * n, emstart=2001, conc_run=True, span=(1999, 2000 + n * n))
        w["conc"]["CO2"][1999], w["conc"]["CH4"][1999], w["conc"]["N2O"][1999] = 350.0, 1500.0, 320.0
        for b in range(n):
            for d in range(n):
                y = 2000 + b * n + d
                w["conc"]["CO2"][y] = 180.0 * (2000.0 / 180.0) ** (case["a"] / (n - 1))
                w["conc"]["CH4"][y] = 340.0 * (3500.0 / 340.0) ** (b / (n - 1))
                w["conc"]["N2O"][y] = 200.0 + 325.0 * d / (n - 1)
                c.state("grid", case["a"], b, d)
        both(c, w, em)
    elif t == "em":
        n = len(case["h"])
        w = data.make_world(nystart=1999, nyend=1999 + n, emstart=2000)
        q = {"qbmb": 0.3, "qnmvoc": 0.02, "qnh3": -0.01, "qnox": 0.015}
        for i, s in enumerate(case["h"]):
            w["em"][case["sp"]][2000 + i] *= (0.0, 1.0, 3.0, -0.5 if case["sp"] != "CH4" else 0.5)[s]
            c.state(case["sp"], tuple(case["h"][: i + 1]))
        both(c, w, {**em, **q})
    elif t == "par":
        w = data.make_world(nystart=1999, nyend=2005, emstart=2001, **KW[case["k"]])
        both(c, w, {**em, "qbmb": 0.1, "qnox": 0.01, **case["q"]})
    elif t == "ref":
        w = data.make_world(nystart=case["y0"], nyend=case["y0"] + 5, emstart=2000, conc_run=case["conc_run"])
        both(c, w, {"ref_yr": case["r"]})
    elif t == "row":
        g, f = case["g"], case["f"]
        w = data.make_world(nystart=1999, nyend=2005, emstart=2001, conc_run=case["conc_run"])
        val = w["gas"][g][case["col"]]
        if val == 0 and case["col"] == "ALPHA":
            # an own efficiency is only given for species with emissions or concentrations
            if g not in w["em"] or g in ("CO", "CO2", "CH4", "N2O"):
                return
            val = 0.01
        w["gas"][g][case["col"]] = val * f
        both(c, w, {**em, "qbmb": 0.1, "qnox": 0.01})
    elif t == "table":
        gas = data.parse_gas(os.path.join(data.TEST_DATA, case["gas"]))
        w = data.make_world(nystart=1999, nyend=2006, emstart=2001, gas=gas, conc_run=case["conc_run"])
        both(c, w, em)
    elif t == "near":  # ozone in the first year is nearly what it is in the reference year
        w = data.make_world(nystart=1999, nyend=2006, emstart=2003, conc_run=True)
        for s in [w["em"][x] for x in ("NOx", "CO", "NMVOC")] + [w["conc"]["CH4"]]:
            s[2003] = s[1999]
        s = w["conc"]["CH4"] if case["g"] == "CH4" else w["em"][case["g"]]
        s[1999] = s[2003] * (1 + case["d"])
        both(c, w, {"ref_yr": 2003})
    elif t == "len":
        w = data.make_world(nystart=1998, nyend=1998 + case["n"] - 1, emstart=1999, span=(1990, 2040))
        both(c, w, {"ref_yr": 2012})
    else:
        w = data.make_world(nystart=1999, nyend=2006, emstart=2020, **KW[case["k"]])
        for table in ("em", "conc"):
            for s in w[table].values():
                for y in s:
                    s[y] = s[1999]
        w["luc"] = [0.0] * 8
        res, _ = both(c, w, {"ref_yr": 2003, "qbmb": 0.1, "qnox": 0.01})
        for name in res["forcing"].columns:
            if name in ("Year", "Total_forcing") or (name in ("CO2", "N2O") and case["k"] != 3):
                continue  # CO2 is computed from emissions here, and overlaps
            v = sim.col(res["forcing"], name)
            c.true(bool((abs(v) < 1e-12).all()), f"unchanged inputs give forcing of {name}: {v[:5]}")
