"""Emission perturbations."""

import itertools

import data
import sim

ORACLE = "the run with the perturbations already added to the emission table (no perturbation table); reported emissions differ from the unperturbed ones by exactly the perturbations"
BOUNDS = {
    "quick": "every emitted component x every year of a 6 year run x {emission, concentration run} ; all ordered pairs of 10 rows (same/other component/year, repeated rows); all orders of 4 rows; file and data form; whole-number tables; three row sets over two runs of one object; regional species; 7 sizes from 1e-9 to 3000 of either sign for every component; repeated rows; whole runs of one to four centuries",
    "thorough": "all ordered triples of 10 rows, 4 run kinds",
}
Y0, N = 1999, 6
ROWS = [["CO2", 2000, 5.0], ["CO2", 2000, -2.0], ["CO2", 2001, 1.5], ["CH4", 2000, 50.0], ["CH4", 2003, 10.0],
        ["SO2", 2001, -30.0], ["CFC-11", 2000, 70.0], ["CFC-11", 2002, 33.0], ["NOx", 2001, 4.0], ["CO2_AFOLU", 2001, 0.5]]
SIZES = [1e-9, 1e-4, -1e-4, 0.3, 40.0, -700.0, 3000.0]
DOUBLE = [[ROWS[i]] * n + [ROWS[8]] for i in (0, 3, 6, 8) for n in (2, 3)] + [ROWS + ROWS, [["CO2", 2000, 0.0], ["CH4", 2001, 0.0]]]
KINDS = [{}, {"conc_run": True}, {"carbon_cycle_model": "box", "thermal_model": "twolayer"}, {"emstart": 1990}]
EM = {"ref_yr": 2000, "qnox": 0.01, "qbmb": 0.1, "qnmvoc": 0.01, "qnh3": 0.02}


def cases(tier):
    deep = tier != "quick"
    comps = ["CO2" if g == "CO2_FF" else g for g in data.EM_BASE]
    for k in range(4 if deep else 2):
        for g in comps:
            for i in range(N):
                yield {"k": k, "rows": [[g, Y0 + i, 7.5]], "form": "data"}
    for r in itertools.product(range(len(ROWS)), repeat=3 if deep else 2):
        yield {"k": 2, "rows": [ROWS[i] for i in r], "form": "data"}
    for r in itertools.permutations((0, 3, 6, 8)):
        for form in ("data", "file"):
            yield {"k": 2, "rows": [ROWS[i] for i in r], "form": form}
    for k in range(4):
        for form in ("data", "file"):
            yield {"k": k, "rows": ROWS, "form": form}
            yield {"k": k, "rows": ROWS[::-1], "form": form}
            yield {"k": k, "rows": [["CFC-11", 2001, 7], ["CO2", 2002, 1]], "form": form}
            yield {"k": k, "rows": ROWS, "form": form, "emfile": True}
    for g in comps:
        yield {"k": 0, "rows": [[g, 2001, 2.5]], "form": "data", "whole": True}
        yield {"k": 2, "rows": [[g, 2001, 2.5], [g, 2003, 3]], "form": "file", "whole": True, "emfile": True}
    for g in comps:
        for v in SIZES:
            yield {"k": 2, "rows": [[g, 2001, v], ["CO", 2002, 1.0]], "form": "data"}
    for r in DOUBLE:
        for form in ("data", "file"):
            for k in (0, 2):
                yield {"k": k, "rows": r, "form": form}
    for cent in sim.centuries(tier, ("em",), every=True):
        yield cent
    for idx in range(2):
        yield {"k": 0, "rows": ROWS, "form": "data", "index": idx}
    yield {"k": 0, "rows": [["BC_ASIA", 2001, 2.0], ["BC", 2001, 1.0], ["BC_ASIA", 2002, -1.0]], "form": "data", "region": True}


def world(case):
    gas = data.gas_table()
    if case.get("region"):
        gas["BC_ASIA"] = {**gas["BC"], "ALPHA": 0.05}
    kw = {"emstart": 2001, **KINDS[case["k"]]}
    w = data.make_world(nystart=Y0, nyend=Y0 + N - 1, gas=gas, **kw)
    if case.get("whole"):
        for g in w["em"]:
            for y in w["em"][g]:
                w["em"][g][y] = int(w["em"][g][y]) + 1
    return w


def century(case, c):
    """A row in every year of every component in turn, and two a year for one."""
    comps = ["CO2" if g == "CO2_FF" else g for g in data.EM_BASE]
    years = range(case["y0"], case["y1"] + 1)
    rows = [[comps[y % len(comps)], y, 0.5 + 0.01 * (y % 50)] for y in years] + [["CH4", y, 3.0] for y in years]
    w, added = sim.century_world(case), sim.century_world(case)
    for g, y, v in rows:
        added["em"]["CO2_FF" if g == "CO2" else g][y] += v
    w["perturb_em"] = rows
    a, b = sim.run(w), sim.run(added)
    c.step(len(years))
    c.trace()
    sim.same(c, "perturbed through centuries", sim.snapshot(a), sim.snapshot(b))


def run(case, c):
    if case.get("t") == "century":
        return century(case, c)
    w = world(case)
    added = world(case)
    for g, y, v in case["rows"]:
        g = "CO2_FF" if g == "CO2" else g
        added["em"][g][y] += v
    want = sim.run(added, None, EM)
    w["perturb_em"] = case["rows"]
    keys = (["perturb_em"] if case["form"] == "file" else []) + (["emissions"] if case.get("emfile") else [])
    cfg = data.cfg_with_files(w, keys, c.tmp())
    if "index" in case:  # labels of the rows mean nothing
        df = cfg["perturb_em_data"]
        df.index = [0] * len(df) if case["index"] == 0 else list(range(len(df), 0, -1))
        cfg["perturb_em_data"] = df[["emission", "component", "year"]] if case["index"] else df
    m = sim.CICEROSCM(cfg)
    for _ in range(2):  # perturbations are not added again in the next run
        got = sim.rerun(m, None, EM)
        c.step(N)
        c.trace()
        sim.same(c, "perturbed", sim.snapshot(got), sim.snapshot(want))
    plain = {**w, "perturb_em": None}
    for g in got["emissions"].columns:
        if g == "Year":
            continue
        diff = [0.0] * N
        for comp, y, v in case["rows"]:
            if comp == g or (g == "CO2" and comp in ("CO2_FF", "CO2_AFOLU")):
                diff[y - Y0] += v
        if g == "CO2":
            orig = [plain["em"]["CO2_FF"][Y0 + i] + plain["em"]["CO2_AFOLU"][Y0 + i] for i in range(N)]
        else:
            orig = [plain["em"][g][Y0 + i] for i in range(N)]
        c.close(f"emissions of {g}", sim.col(got["emissions"], g), [a + b for a, b in zip(orig, diff)])
