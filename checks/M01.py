"""Prescribing what an emission run produced gives the run again."""

import copy

import data
import sim
from common import REMOVABLE

ORACLE = "the emission run itself: the same numbers must come out of the concentration run and of every later switch to emissions that are fed with its concentrations"
BOUNDS = {
    "quick": "all (first year, length 2-7, emission start) around the run x {default, box carbon} x {two-layer, upwelling diffusion} x {concentration run, every year of the run as switch to emissions}; 3 lifetime modes x natural emissions given or not; every gas raised, lowered, pulsed or switched off for a year; emission perturbations of every gas; gases with concentrations given other emissions in the concentration run; tables sent as file; one species taken out at a time; every input at 9 sizes; runs of two to four centuries",
    "thorough": "lengths to 12, all gases with both carbon and thermal models and two seasons of emission start",
}
CARBON = {"preindustrial_co2_conc": 356.0}
REF = 1995


def cases(tier):
    deep = tier != "quick"
    for cc in ("default", "box"):
        for th in ("twolayer", "default"):
            for y0 in (1998, 2001):
                for n in range(2, 13 if deep else 8) if th == "twolayer" else (2, 5):
                    for es in range(y0 - 1, y0 + n + 1) if n < 6 or deep else (y0 - 1, y0, y0 + 1, y0 + n // 2, y0 + n):
                        yield {"t": "win", "y0": y0, "n": n, "es": es, "cc": cc, "th": th}
            for mode in ("TAR", "CONSTANT_12", "WIGLEY"):
                for nat in ("both", "ch4", "n2o", "none"):
                    yield {"t": "mode", "mode": mode, "nat": nat, "cc": cc, "th": th}
    for cc, th in (("default", "default"), ("box", "twolayer"), ("default", "twolayer"), ("box", "default")) if deep else (("default", "twolayer"), ("box", "twolayer")):
        for g in data.EM_BASE:
            for how in ("up", "down", "pulse", "gap") if cc == "box" or deep else ("pulse",):
                yield {"t": "em", "g": g, "how": how, "cc": cc, "th": th}
            yield {"t": "pert", "g": g, "cc": cc, "th": th}
    for g in data.GAS_ROWS:
        if g in REMOVABLE:
            yield {"t": "without", "g": g}
    for keys in (["concentrations"], ["emissions"], ["concentrations", "emissions"], ["gaspam"]):
        for cc in ("default", "box"):
            yield {"t": "file", "keys": keys, "cc": cc}
    yield from sim.sized(("em",), ("em",))
    yield from sim.sized(("nat_ch4", "nat_n2o", "luc"), ("em",))
    yield from sim.centuries(tier, ("em",), every=True)


def worlds(case):
    """World of the emission run and its parameters."""
    t = case["t"]
    em = {"ref_yr": 1998 if t == "file" else REF, "lifetime_mode": case.get("mode", "WIGLEY")}
    if t == "sized":
        return sim.sized_world(case), em
    if t == "century":
        w = sim.century_world(case)
        em["ref_yr"] = case["y0"] if case["es"] > case["y0"] else None
        return w, em
    kw = {"carbon_cycle_model": case.get("cc", "box"), "thermal_model": case.get("th", "twolayer")}
    gas = None
    if t == "without":
        gas = data.gas_table([g for g in data.GAS_ROWS if g != case["g"]])
    y0, n, es = case.get("y0", 1998), case.get("n", 6), case.get("es", 2000)
    w = data.make_world(nystart=y0, nyend=y0 + n - 1, emstart=es, gas=gas, **kw)
    data.add_sunvolc(w)
    if t == "mode":
        for nat in ("ch4", "n2o"):
            if case["nat"] not in (nat, "both"):
                w["nat_" + nat] = None
    elif t == "em":
        s = w["em"][case["g"]]
        for y in s:
            s[y] *= {"up": 1.7, "down": 0.3, "pulse": 4.0 if y == 2001 else 1.0, "gap": 0.0 if y == 2001 else 1.0}[case["how"]]
    elif t == "pert":
        g = "CO2" if case["g"] == "CO2_FF" else case["g"]
        w["perturb_em"] = [[g, 2001, 0.4 * w["em"][case["g"]][2001]], [g, 2003, -0.2 * w["em"][case["g"]][2003]]]
    return w, em


def fed(w, res, **kw):
    """The same world with the concentrations of the run as prescribed ones."""
    b = copy.deepcopy(w)
    b.update(kw)
    for g in b["conc"]:
        for i, y in enumerate(data.np_years(w)):
            b["conc"][g][int(y)] = float(res["concentrations"][g].iloc[i])
    return b


def compare(c, name, a, b, skip=()):
    """All results, without what only one kind of run reports."""
    sa, sb = sim.snapshot(a), sim.snapshot(b)
    for s in (sa, sb):
        for k in [k for k in s if k.startswith(skip)] if skip else []:
            del s[k]
    c.trace()
    sim.same(c, name, sa, sb)


def run(case, c):
    w, em = worlds(case)
    if em["ref_yr"] is None:
        return
    cfg = lambda x: data.cfg_with_files(x, case["keys"], c.tmp()) if case["t"] == "file" else None  # noqa: E731
    a = sim.run(w, None, em, carbon=dict(CARBON), cfg=cfg(w))
    years = [int(y) for y in data.np_years(w)]
    c.step(len(years))
    for y in years:
        c.state(str(case), y)
    # the whole run prescribed
    b = fed(w, a, conc_run=True)
    res = sim.run(b, None, em, carbon=dict(CARBON), cfg=cfg(b))
    c.step(len(years))
    compare(c, "prescribed", a, res, skip=("carbon cycle",))
    # what is emitted of a gas with a prescribed concentration does not count
    if case["t"] in ("em", "pert", "without", "mode"):
        b2 = copy.deepcopy(b)
        for g in b2["em"]:
            if g in b2["conc"] or g.startswith("CO2"):
                for y in b2["em"][g]:
                    b2["em"][g][y] *= 2.5
        b2["perturb_em"] = [r for r in b2.get("perturb_em") or [] if not (r[0] in b2["conc"])] or None
        res2 = sim.run(b2, None, em, carbon=dict(CARBON))
        c.step(len(years))
        compare(c, "other emissions", a, res2, skip=("carbon cycle", "emissions"))
    # any later switch to emissions
    later = [es for es in range(years[0] + 1, years[-1] + 2)]
    if case["t"] == "century":
        later = [years[1], years[len(years) // 2], years[-1], years[-1] + 1]
    elif case["t"] not in ("win", "em", "pert"):
        later = later[1::2]
    elif case.get("th") == "default" and case["t"] != "win":
        later = later[1::3]
    for es in later:
        if es < w["emstart"]:  # those years were not emission driven
            continue
        d = fed(w, a, emstart=es)
        res = sim.run(d, None, em, carbon=dict(CARBON), cfg=cfg(d))
        c.step(len(years))
        compare(c, f"emissions from {es}", a, res)
