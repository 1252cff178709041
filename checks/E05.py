"""Which concentrations and forcings an emitted species can and does change."""

import numpy as np

import data
import sim

ORACLE = "dependency table of the documented model: sets of changed concentration and forcing columns in the year of the change and later, comparing two runs"
BOUNDS = {
    "quick": "every emitted species x every year after the first of an 8 year run x {TAR, WIGLEY, CONSTANT_12, CONSTANT} with default carbon/thermal models and {box, two-layer, concentration run, late emission start} with TAR; 4 levels of all inputs and 4 sizes of the change, of either sign, x 4 rules; 5 kinds at another level",
    "thorough": "also all combinations of the rules with the other kinds, two sizes of change of either sign, 10 year run",
}
KINDS = [{}, {"carbon_cycle_model": "box"}, {"thermal_model": "twolayer"}, {"conc_run": True}, {"emstart": 2004}]
MODES = ["TAR", "WIGLEY", "CONSTANT_12", "CONSTANT"]
Y0 = 2000
HALO = ["CFC-11", "CFC-113", "CH3Br", "CCl4", "HCFC-22", "H-1211"]
OTHERS = ["HFC134a", "CF4", "SF6"]
EM = {"ref_yr": Y0 - 2, "qbmb": 0.3, "qnmvoc": 0.02, "qnh3": -0.01, "qnox": 0.015}
# forcing of the aerosol and gas emissions themselves
DIRECT = {"SO2": {"SO4_DIR", "SO4_IND"}, "BC": {"BC"}, "OC": {"OC"}, "NMVOC": {"NMVOC"}, "NH3": {"NH3"},
          "NOx": {"NOx"}, "BMB_AEROS_OC": {"BMB_AEROS"}, "BMB_AEROS_BC": set(), "CO": set()}


def cases(tier):
    deep = tier != "quick"
    n = 10 if deep else 8
    combos = [(k, m) for k in range(5) for m in range(4) if deep or k == 0 or m == 0]
    for k, m in combos:
        for sp in data.EM_BASE:
            for i in range(1, n):
                for f in ((2.5, 0.5) if deep else (2.5,)):
                    yield {"k": k, "m": m, "sp": sp, "i": i, "n": n, "f": f}
    # other levels of everything else, and other sizes of the change
    for m in range(4):
        for sp in data.EM_BASE:
            for lvl in (0.1, 0.4, 2.0, 6.0):
                yield {"k": 0, "m": m, "sp": sp, "i": 3, "n": 8, "f": 2.5, "lvl": lvl}
            for f in (-1.0, 0.0, 0.5, 6.0):
                yield {"k": 2, "m": m, "sp": sp, "i": 3, "n": 8, "f": f}
    for k in range(5):
        for sp in data.EM_BASE:
            for i in (1, 4):
                yield {"k": k, "m": 1, "sp": sp, "i": i, "n": 8, "f": 1.8, "lvl": 3.0}


def same_year(sp, mode, computed):
    """Changed concentrations and forcings in the year of the change."""
    if sp.startswith("CO2"):
        return ({"CO2"}, {"CO2", "N2O"}) if computed is not None else (set(), set())
    conc, forc = set(), set(DIRECT.get(sp, ()))
    methane = {"CH4", "N2O", "STRAT_H2O", "TROP_O3"}  # own, overlap, water vapour, ozone
    if sp in ("NOx", "CO", "NMVOC"):
        conc.add("TROP_O3")
        forc.add("TROP_O3")
        if computed and mode == "TAR":
            conc.add("CH4")
            forc |= methane
    if computed:
        if sp == "CH4":
            conc |= {"CH4", "TROP_O3"}
            forc |= methane
        elif sp == "N2O":
            conc.add("N2O")
            forc |= {"N2O", "CO2", "CH4", "STRAT_H2O"}
        elif sp in HALO + OTHERS:
            conc.add(sp)
            forc.add(sp)
    return conc, forc


def later(sp, mode, conc, forc, box_or_conc):
    """Everything that may change in later years: own memory, and CO2 through temperature."""
    c2, f2 = set(conc), set(forc)
    if forc and not box_or_conc:
        c2.add("CO2")
        f2 |= {"CO2", "N2O"}
    if sp in HALO:
        f2.add("STRAT_O3")
    return c2, f2


_BASE = {}


def world(k, n, lvl=1.0):
    kw = {"emstart": 2001, **KINDS[k]}
    w = data.make_world(nystart=Y0, nyend=Y0 + n - 1, span=(1994, 2020), **kw)
    if lvl != 1.0:
        for g, s in w["em"].items():
            w["em"][g] = {y: v * lvl for y, v in s.items()}
        for g, s in w["conc"].items():
            f = {"CO2": 1.0, "CH4": 0.5 + 0.5 * lvl}.get(g, lvl)
            w["conc"][g] = {y: v * f for y, v in s.items()}
    return w


def changed(a, b, table, i):
    out = set()
    for name in a[table].columns:
        if name in ("Year", "Total_forcing"):
            continue
        x, y = sim.col(a[table], name), sim.col(b[table], name)
        if abs(x[i] - y[i]) > 1e-11 * max(1e-3, np.abs(x).max()):
            out.add(name)
    return out


def run(case, c):
    k, mode, sp, i, n = case["k"], MODES[case["m"]], case["sp"], case["i"], case["n"]
    em = {**EM, "lifetime_mode": mode}
    lvl = case.get("lvl", 1.0)
    if (k, mode, n, lvl) not in _BASE:
        _BASE[(k, mode, n, lvl)] = sim.run(world(k, n, lvl), None, em)
    a = _BASE[(k, mode, n, lvl)]
    w = world(k, n, lvl)
    # halogens are changed more, their forcing is small
    w["em"][sp][Y0 + i] *= 1 + (case["f"] - 1) * (30 if sp in HALO + OTHERS else 1)
    b = sim.run(w, None, em)
    c.step(n)
    c.trace()
    conc_run = bool(w.get("conc_run"))
    computed = None if conc_run else (Y0 + i >= w["emstart"])
    want_c, want_f = same_year(sp, mode, computed)
    lat_c, lat_f = later(sp, mode, want_c, want_f, conc_run)
    for j in range(n):
        got_c, got_f = changed(a, b, "concentrations", j), changed(a, b, "forcing", j)
        c.state(k, mode, sp, i, j, lvl, case["f"], tuple(sorted(got_c)), tuple(sorted(got_f)))
        if j < i:
            c.true(not got_c and not got_f, f"{sp}: earlier year {j} changed: {got_c} {got_f}")
        elif j == i:
            c.true(got_c == want_c, f"{sp}: concentrations changed {sorted(got_c)}, expected {sorted(want_c)}")
            c.true(got_f == want_f, f"{sp}: forcings changed {sorted(got_f)}, expected {sorted(want_f)}")
        else:
            c.true(got_c <= lat_c, f"{sp}: later concentrations changed {sorted(got_c - lat_c)}")
            allowed = lat_f if j >= i + 3 else lat_f - {"STRAT_O3"}
            c.true(got_f <= allowed, f"{sp}: later forcings changed {sorted(got_f - allowed)}")
            if j == i + 3 and sp in HALO and computed:
                c.true("STRAT_O3" in got_f, f"{sp}: no effect on stratospheric ozone after three years")
            if j == i + 1 and want_f and not conc_run and lvl >= 1 and case["f"] >= 2:  # large enough to tell from rounding
                c.true("CO2" in got_c, f"{sp}: no effect on CO2 through temperature")
    # emissions reported: only this one, this year
    for name in a["emissions"].columns:
        d = np.abs(sim.col(a["emissions"], name) - sim.col(b["emissions"], name)) > 0
        want = name == ("CO2" if sp.startswith("CO2") else sp)
        c.true(bool(d.any()) == want and (not want or (d.sum() == 1 and d[i])), f"reported emissions of {name}")
