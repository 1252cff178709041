"""Hemispheric weights and single-component runs."""

import itertools

import data
import ref
import sim

ORACLE = "harness/ref.py: hemispheric sums with documented weights drive the reference thermal model; hemispheric temperatures and imbalances of the upwelling diffusion model, all outputs of both models"
BOUNDS = {
    "quick": "every one of 28 components alone x {solar+volcanic off, on} x {emission, concentration run} x {both thermal models, two parameter sets}; unit perturbation of every component in each of 2 years and of every pair of 12 components; histories of 3 aerosol/ozone/land use levels of length 4; solar, volcanic and land use forcing at 6 sizes of either sign; whole runs of two to four centuries; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "all pairs of 28 components, histories of length 6",
}
PARS = [{}, {"foan": 0.4, "foas": 0.9, "ebbeta": 2.0, "threstemp": 0}]


def cases(tier):
    deep = tier != "quick"
    names = list(data.GAS_ROWS)
    for th in ("default", "twolayer"):
        for g in names:
            for sun in (0, 1):
                for cr in (None, True):
                    for p in (0, 1):
                        if p and th == "twolayer":
                            continue
                        yield {"t": "one", "g": g, "sun": sun, "conc_run": cr, "th": th, "p": p}
        for g in names:
            for y in (2000, 2002):
                yield {"t": "pert", "th": th, "rows": [[g, y, 4.0]]}
                yield {"t": "pert", "th": th, "rows": [[g, y, 4.0]], "one": g}
    pool = names if deep else ["CO2", "CH4", "CFC-11", "SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "TROP_O3",
                               "STRAT_O3", "LANDUSE", "OTHER"]
    for a, b in itertools.combinations(pool, 2):
        yield {"t": "pert", "th": "default", "rows": [[a, 2001, 3.0], [b, 2001, -5.0]]}
    for h in itertools.product(range(3), repeat=4 if not deep else 6):
        yield {"t": "hist", "h": list(h)}
    yield from sim.sized(kinds=("conc",))
    for th in ("default", "twolayer"):
        for f in (-60.0, -5.0, -0.5, 1e-4, 5.0, 40.0):
            for one in (None, "BC", "CO2", "LANDUSE"):
                for what in ("sun", "luc", "volc"):
                    yield {"t": "outer", "th": th, "f": f, "one": one, "what": what}
    for cent in sim.centuries(tier, every=True):
        for sun in (0, 1):
            yield {**cent, "sun": sun}
    for reg in (["SO2_ASIA"], ["BC_ASIA", "OC_ASIA"], ["BMB_AEROS_OC_ASIA"]):
        yield {"t": "region", "names": reg}


def run(case, c):
    t = case["t"]
    em, udm = {"ref_yr": 2000}, None
    if t == "sized":
        _, res, out = sim.run_sized(c, case, sim.sized_world(case, thermal_model="default", nyend=2004))
        sim.cmp_thermal(c, res, out)
        sim.cmp_total(c, res, out)
        return
    if t == "century":
        w = sim.century_world(case, **({"sunvolc": 1} if case["sun"] else {}))
        if case["k"] == "conc":  # the model with two hemispheres
            w["thermal_model"] = "default"
        res, out = sim.century(c, case, w)
        sim.cmp_thermal(c, res, out)
        sim.cmp_total(c, res, out)
        return
    kw = {"nystart": 1999, "nyend": 2004, "emstart": 2001}
    if t == "one":
        w = data.make_world(**kw, thermal_model=case["th"], conc_run=case["conc_run"])
        if case["sun"]:
            data.add_sunvolc(w)
        em["just_one"] = case["g"]
        udm = PARS[case["p"]]
    elif t == "outer":  # sizes and signs of solar, volcanic and land use forcing
        w = data.add_sunvolc(data.make_world(**kw, thermal_model=case["th"], conc_run=True))
        f = [case["f"] * x for x in (0.0, 1.0, 0.3, -0.2, 1.0, 0.0)]
        if case["what"] == "volc":
            w["volc_n"], w["volc_s"] = [[x] * 12 for x in f], [[0.5 * x, x] * 6 for x in f]
        else:
            w[case["what"]] = f
        if case["one"]:
            em["just_one"] = case["one"]
    elif t == "pert":
        w = data.make_world(**kw, thermal_model=case["th"])
        w["perturb_forc"] = case["rows"]
        if case.get("one"):
            em["just_one"] = case["one"]
    elif t == "region":
        gas = data.gas_table()
        for g in case["names"]:
            gas[g] = dict(gas["BC"])
            gas[g]["ALPHA"] = 0.05
        w = data.make_world(**kw, gas=gas)
    else:
        w = data.make_world(nystart=1999, nyend=1999 + len(case["h"]) - 1, emstart=2001)
        for i, s in enumerate(case["h"]):
            y = 1999 + i
            for g, f in (("SO2", (1, 2, 0.2)), ("BC", (1, 0.5, 3)), ("NOx", (1, 1.5, 0.7)), ("OC", (0.4, 1, 2))):
                w["em"][g][y] *= f[s]
            w["luc"][i] = (-0.5, 0.0, 0.7)[s]
            c.state(tuple(case["h"][: i + 1]))
    res = sim.run(w, udm, em)
    out = ref.simulate(w, udm, em)
    c.step(len(out["years"]))
    c.trace()
    sim.cmp_thermal(c, res, out)
    sim.cmp_total(c, res, out)
    if w.get("thermal_model") != "twolayer":
        # hemispheres of the same run: mean of the weights is one
        c.close("global mean of hemispheres", (res["dT_NH"] + res["dT_SH"]) / 2, res["dT_glob"])
