"""Forcing perturbations."""

import itertools

import numpy as np

import data
import ref
import sim

ORACLE = "harness/ref.py with the perturbation added to component, total and weighted hemispheres; difference to the unperturbed run in concentration runs is exactly the perturbation"
BOUNDS = {
    "quick": "every one of 28 components x every year of a 6 year run x {emission, concentration}; all ordered pairs of 12 rows and all orders of 4 rows; 6 sizes from 1e-9 to 60 of either sign for every component; file and data; two runs of one object; rows outside the run; perturbation in single-component runs; whole runs of one to four centuries",
    "thorough": "all ordered triples of 12 rows; 4 run kinds",
}
Y0, N = 1999, 6
ROWS = [["CO2", 2000, 1.0], ["CO2", 2000, -0.4], ["CO2", 2001, 0.3], ["CFC-11", 2000, 0.5], ["CFC-11", 2000, 0.25],
        ["CFC-11", 2003, -0.5], ["SO2", 2001, -2.0], ["STRAT_O3", 2001, 0.2], ["TROP_O3", 2000, 0.7], ["LANDUSE", 2001, 0.9],
        ["BC", 2000, 1.1], ["OTHER", 2004, 2.0]]
SIZES = [1e-9, 1e-3, -1e-3, -12.0, 15.0, 60.0]
KINDS = [{}, {"conc_run": True}, {"carbon_cycle_model": "box", "thermal_model": "twolayer"}, {"emstart": 1990}]
EM = {"ref_yr": 2000}


def cases(tier):
    deep = tier != "quick"
    for k in range(4 if deep else 2):
        for g in data.GAS_ROWS:
            for i in range(N):
                yield {"k": k, "rows": [[g, Y0 + i, 1.25]], "form": "data"}
    for r in itertools.product(range(len(ROWS)), repeat=2):
        for k in (1, 2):
            yield {"k": k, "rows": [ROWS[i] for i in r], "form": "data"}
    if deep:
        for r in itertools.product(range(len(ROWS)), repeat=3):
            yield {"k": 1, "rows": [ROWS[i] for i in r], "form": "data"}
    for r in itertools.permutations((0, 3, 5, 9)):
        for form in ("data", "file"):
            yield {"k": 1, "rows": [ROWS[i] for i in r], "form": form}
    for k in range(4):
        for form in ("data", "file"):
            yield {"k": k, "rows": ROWS, "form": form}
            yield {"k": k, "rows": ROWS[::-1] + ROWS, "form": form}
            yield {"k": k, "rows": ROWS + [["CO2", 1990, 9.0], ["CFC-11", 1990, 9.0], ["BC", 2030, 9.0], ["CFC-11", 2030, 4.0]], "form": form}
            yield {"k": k, "rows": [["CO2", 2001, 2], ["CFC-11", 2001, 3]], "form": form}
    for g in data.GAS_ROWS:
        for other in ("CO2", "CFC-11", "BC"):
            yield {"k": 1, "rows": [[g, 2001, 1.5], [other, 2002, 0.5]], "form": "data", "one": g}
    for g in ("BC_ASIA", "SO2_ASIA"):
        yield {"k": 0, "rows": [[g, 2001, 1.5], ["BC", 2001, 1.0]], "form": "data", "region": g}
    yield from sim.centuries(tier, every=True)
    for g in data.GAS_ROWS:
        for v in SIZES:
            yield {"k": 3 if v > 0 else 1, "rows": [[g, 2001, v], ["OTHER", 2002, 1.0]], "form": "data"}
    for idx in range(2):
        yield {"k": 0, "rows": ROWS, "form": "data", "index": idx}


def century(case, c):
    """A row in every year of every component in turn."""
    comps = list(data.GAS_ROWS)
    w = sim.century_world(case)
    w["perturb_forc"] = [[comps[y % len(comps)], y, 0.2 + 0.01 * (y % 30)] for y in range(case["y0"], case["y1"] + 1)]
    res, out = sim.century(c, case, w, None, EM)
    sim.cmp_forc(c, res, out)
    sim.cmp_total(c, res, out)
    sim.cmp_thermal(c, res, out)


def run(case, c):
    if case.get("t") == "century":
        return century(case, c)
    gas = data.gas_table()
    if case.get("region"):
        gas[case["region"]] = {**gas["BC"], "ALPHA": 0.05}
    kw = {"emstart": 2001, **KINDS[case["k"]]}
    w = data.make_world(nystart=Y0, nyend=Y0 + N - 1, gas=gas, **kw)
    em = dict(EM)
    if case.get("one"):
        em["just_one"] = case["one"]
    base = sim.run(w, None, em)
    w["perturb_forc"] = case["rows"]
    cfg = data.cfg_with_files(w, ["perturb_forc"] if case["form"] == "file" else [], c.tmp())
    if "index" in case:
        df = cfg["perturb_forc_data"]
        df.index = [0] * len(df) if case["index"] == 0 else list(range(len(df), 0, -1))
        cfg["perturb_forc_data"] = df[["forcing", "component", "year"]] if case["index"] else df
    out = ref.simulate(w, None, em)
    m = sim.CICEROSCM(cfg)
    for _ in range(2):
        res = sim.rerun(m, None, em)
        c.step(N)
        c.trace()
        sim.cmp_forc(c, res, out)
        sim.cmp_total(c, res, out)
        sim.cmp_thermal(c, res, out)
    if w.get("conc_run"):
        tot = np.zeros(N)
        for name in res["forcing"].columns:
            if name in ("Year", "Total_forcing"):
                continue
            want = np.zeros(N)
            for g, y, v in case["rows"]:
                if sim.fname(g) == name and Y0 <= y < Y0 + N:
                    want[y - Y0] += v
            if not case.get("one") or name == sim.fname(case["one"]):
                tot += want
            c.close(f"change of {name}", sim.col(res["forcing"], name) - sim.col(base["forcing"], name), want, srel=1e-8)
        c.close("change of the total", res["Total_forcing"] - base["Total_forcing"], tot, srel=1e-8)
