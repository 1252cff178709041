"""The box carbon cycle: exchange rates and conservation of carbon."""

import numpy as np

import common
import data
import ref
import sim
from ciceroscm.carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel

ORACLE = "carbon budget of every year (emissions = change of atmosphere, vegetation, soil, mixed and deep ocean) and harness/ref.py RefBox"
BOUNDS = {
    "quick": "all histories of length 3 over 9 (emission, temperature) symbols x 3 parameter sets; every single parameter value and every pair of end values x 3 histories, new object and rerun; whole emission runs with every parameter value (given to the run, on a new object and after other runs); runs in concentration mode; pools drained and filled over 40 and 150 years by 6 parameter sets x 3 emissions; 300 years",
    "thorough": "all histories of length 4; all pairs of all values x 5 histories",
}
SYM = [(0.0, 0.0), (10.0, 0.0), (10.0, 1.5), (-5.0, 0.5), (60.0, 3.0), (10.0, -1.0), (0.0, 6.0), (250.0, 9.0), (3, 1)]
SETS = [{}, {"beta_f": 20.0, "land_temp_sensitivity": 12.0, "ocean_exchange_rate": 0.2},
        {"soil_respiration_rate": 0.05, "vegetation_to_soil_fraction": 0.3, "ocean_solubility_base": 0.3, "ocean_solubility_temp_coeff": -0.2}]
EMPTY = [{"soil_respiration_rate": 0.6, "vegetation_to_soil_fraction": 0.0}, {"soil_respiration_rate": 0.3, "vegetation_to_soil_fraction": 0.9},
         {"beta_f": 0.0, "land_temp_sensitivity": 60.0, "vegetation_to_soil_fraction": 0.5}, {"ocean_exchange_rate": 0.9},
         {"ocean_exchange_rate": 0.5, "ocean_solubility_base": 1.0}, {"ocean_solubility_temp_coeff": 0.3}]
HIST = [[(10.0, 0.0), (10.0, 0.5), (10.0, 1.0), (12.0, 1.5), (0.0, 2.0)],
        [(80.0, 1.0), (300.0, 4.0), (900.0, 8.0), (-100.0, 12.0), (5.0, -2.0)],
        [(-10.0, -0.2), (-10.0, -5.0), (0.0, 3.0), (20.0, 0.3), (20.0, 0.0)],
        [(1.0, 0.0)] * 5, [(2.0, 0.1 * i) for i in range(5)]]
POOLS = ("vegetation_carbon", "soil_carbon", "ocean_mixed_layer_carbon", "ocean_deep_carbon")


def cases(tier):
    deep = tier != "quick"
    for s in range(3):
        for h in common.histories(9, 4 if deep else 3):
            yield {"t": "hist", "s": s, "h": h}
    for p in common.singles(common.BOX_VALUES):
        for k in range(5):
            yield {"t": "par", "p": p, "k": k}
        for kind in ({}, {"thermal_model": "twolayer"}, {"emstart": 1990, "idtm": 12}, {"conc_run": True}):
            for after in (False, True):
                yield {"t": "run", "p": p, "kw": kind, "after": after}
    for p in common.pairs(common.BOX_VALUES, 3 if deep else 2):
        for k in range(5 if deep else 3):
            yield {"t": "par", "p": p, "k": k}
    for s in range(3):
        yield {"t": "long", "s": s, "n": 300}
    for sc in (0.0, -1.0, 6.0):
        for kind in ({}, {"conc_run": True}):
            yield {"t": "run", "p": {}, "kw": kind, "after": False, "scale": sc}
    yield {"t": "run", "p": {"ocean_mixed_layer_depth": 100.0}, "kw": {}, "after": False}
    for s in range(len(EMPTY)):
        for n in (40, 150):
            for e in (0.0, 15.0, -8.0):
                yield {"t": "empty", "s": s, "n": n, "e": e}
    yield {"t": "nofeedback"}


def make(n, p=None):
    return CarbonCycleModel({"idtm": 24, "nystart": 2000, "nyend": 2000 + n - 1}, p)


def pools(m):
    """Carbon on land and in the ocean and the concentration, where the model shows them under these names."""
    if not all(hasattr(m, p) for p in (*POOLS, "atmospheric_co2")):
        return None
    return [float(getattr(m, p)) for p in (*POOLS, "atmospheric_co2")]


def drive(c, m, r, seq):
    got, want = [], []
    for i, (e, t) in enumerate(seq):
        before = pools(m)
        got.append(m.co2em2conc(2000 + i, e, feedback_dict={"dtemp": t}))
        want.append(r.year(e, t))
        after = pools(m)
        if before and after:
            change = sum(a - b for a, b in zip(after[:-1], before)) + ref.PPM_TO_PGC * (after[-1] - before[-1])
            c.close("carbon budget of the year", change, e, atol=1e-8)
            c.close("atmosphere", after[-1], got[-1])
        c.step()
    c.close("CO2", got, want)
    for p, a, v in zip(POOLS, pools(m) or (), (r.veg, r.soil, r.mixed, r.deep)):
        c.close(p, a, v)
    temps = np.array([float(t) for _, t in seq])
    df = m.get_carbon_cycle_output(np.arange(2000, 2000 + len(seq)), conc_series=np.array(got),
                                   feedback_dict_series={"dtemp": temps})
    c.close("production", df["Net primary production"], [r.npp(x, t) for x, t in zip(got, temps)])
    c.close("ocean flux", df["Ocean carbon flux"], [r.ocean(x, t) for x, t in zip(got, temps)])
    c.true(list(df.index) == list(range(2000, 2000 + len(seq))), "years of the output")
    c.trace()


def run(case, c):
    t = case["t"]
    if t == "hist":
        p = SETS[case["s"]]
        seq = [SYM[i] for i in case["h"]]
        for i in range(len(seq)):
            c.state(case["s"], tuple(case["h"][: i + 1]))
        drive(c, make(len(seq), dict(p) if p else None), ref.RefBox(p), seq)
    elif t == "par":
        p, seq = case["p"], HIST[case["k"]]
        drive(c, make(5, dict(p)), ref.RefBox(p), seq)
        m = make(5)
        for i, (e, x) in enumerate(HIST[0]):
            m.co2em2conc(2000 + i, e, feedback_dict={"dtemp": x})
        m.reset_co2_hold(dict(p))
        drive(c, m, ref.RefBox(p), seq)
        m.reset_co2_hold()
        drive(c, m, ref.RefBox(p), seq)
    elif t == "run":
        w = data.make_world(**{"nyend": 2004, "carbon_cycle_model": "box", **case["kw"]})
        if case.get("scale") is not None:
            for s in ("CO2_FF", "CO2_AFOLU"):
                w["em"][s] = {y: v * case["scale"] for y, v in w["em"][s].items()}
        em = {"ref_yr": 2000}
        m = sim.build(w)
        if case["after"]:
            sim.rerun(m, None, em)
        res = sim.rerun(m, None, em, case["p"])
        out = ref.simulate(w, None, em, case["p"])
        c.step(len(out["years"]))
        c.trace()
        sim.cmp_conc(c, res, out, ("CO2",))
        sim.cmp_carbon(c, res, w, out)
        if not w.get("conc_run"):
            cum = np.cumsum([w["em"]["CO2_FF"][y] + w["em"]["CO2_AFOLU"][y] for y in out["years"]])
            want = np.full(len(cum), np.nan) if (cum == 0).any() else (np.array(out["conc"]["CO2"]) - 278.0) / cum * ref.PPM_TO_PGC
            c.close("airborne fraction", res["carbon cycle"]["Airborne fraction CO2"], want)
    elif t == "nofeedback":
        for kw in ({}, {"feedback_dict": {}}):
            m, r = make(4), ref.RefBox()
            c.close("CO2 without temperature", [m.co2em2conc(2000 + i, 9.0, **kw) for i in range(4)], [r.year(9.0) for _ in range(4)])
            c.trace()
    elif t == "empty":
        p, seq, r = EMPTY[case["s"]], [], ref.RefBox(EMPTY[case["s"]])
        for i in range(case["n"]):
            seq.append((case["e"], 0.05 * i * (1 if i < 90 else -0.2)))
            if r.year(*seq[-1]) < 20.0:  # the equations end where no carbon is left in the air
                break
        drive(c, make(len(seq), dict(p)), ref.RefBox(p), seq[:-1])
    else:
        p = SETS[case["s"]]
        drive(c, make(case["n"], dict(p) if p else None), ref.RefBox(p),
              [(2 + 0.05 * i, 0.01 * i) for i in range(case["n"])])
