"""The default carbon cycle: response function equations for any emission and temperature history."""

import itertools

import numpy as np

import common
import data
import ref
import sim
from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

ORACLE = "harness/ref.py RefCarbon (written from the documentation), concentrations, land and ocean fluxes, production, depth, solubility of every year"
BOUNDS = {
    "quick": "all histories of length 3 over 10 (emission, temperature) symbols at 24 steps a year, of length 2 at 1, 2, 5 and 12 steps; every single parameter value and every pair of end values x 3 histories; reset and rerun; whole runs with carbon outputs over parameters, step counts, both thermal models; temperatures of up to 60 degrees either way; runs of 150 and 320 years",
    "thorough": "all histories of length 4 at 4 steps counts, all pairs of all values x 5 histories, 350 year runs",
}
SYM = [(0.0, 0.0), (10.0, 0.0), (10.0, 1.5), (-5.0, 0.5), (60.0, 3.0), (10.0, -1.0), (0.0, 6.0), (250.0, 10.0),
       (-30.0, -3.0), (3, 1)]
HIST = [[(10.0, 0.0), (10.0, 0.5), (10.0, 1.0), (12.0, 1.5), (0.0, 2.0)],
        [(80.0, 1.0), (300.0, 4.0), (900.0, 8.0), (-100.0, 12.0), (5.0, -2.0)],
        [(-10.0, -0.2), (-10.0, -5.0), (0.0, -40.0), (20.0, 0.3), (20.0, 0.0)],
        [(1.0, 0.0)] * 5, [(2.0, 0.1 * i) for i in range(5)]]


def cases(tier):
    deep = tier != "quick"
    for h in common.histories(10, 4 if deep else 3):
        yield {"t": "hist", "h": h, "idtm": 24}
    for n in (1, 2, 5, 12):
        for h in common.histories(10, 3 if deep else 2):
            yield {"t": "hist", "h": h, "idtm": n}
    for p in common.singles(common.CARBON_VALUES):
        for k in range(5):
            yield {"t": "par", "p": p, "k": k}
    for p in common.pairs(common.CARBON_VALUES, 3 if deep else 2):
        for k in range(5 if deep else 2):
            yield {"t": "par", "p": p, "k": k}
    for p in common.singles(common.CARBON_VALUES):
        yield {"t": "run", "p": p, "kw": {}}
    for n in (1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 18, 20, 24, 30, 36, 48, 52, 60, 96):
        for kw in ({}, {"thermal_model": "twolayer"}, {"emstart": 1990}, {"emstart": 2030}, {"nystart": 1995}):
            yield {"t": "run", "p": {}, "kw": {**kw, "idtm": n}}
    for sc in (0.0, -1.0, 5.0, 30.0):
        yield {"t": "run", "p": {}, "kw": {}, "scale": sc}
    for p in common.singles(common.CARBON_VALUES):
        yield {"t": "conc", "p": p}
    for n in (1, 3, 24):
        for lvl in (0.05, 0.4, 0.7, 1.0, 1.6, 4.0, 12.0):
            yield {"t": "conc", "p": {}, "idtm": n, "lvl": lvl}
    for n in ((150, 350) if deep else (150,)):
        for sc in (1.0, 4.0, -0.5):
            yield {"t": "long", "n": n, "scale": sc}
    yield {"t": "long", "n": 320, "scale": 1.0}
    for h in common.histories(6, 2):
        yield {"t": "hot", "h": h}
    yield {"t": "nofeedback"}
    for t in np.linspace(-60, 60, 41):
        yield {"t": "temp", "dtemp": float(t)}


def drive(c, m, r, seq, nystart=2000):
    got, want = [], []
    for i, (e, t) in enumerate(seq):
        got.append(m.co2em2conc(nystart + i, e, feedback_dict={"dtemp": t}))
        want.append(r.year(e, t))
        c.step(m.pamset["idtm"])
    c.close("CO2", got, want)
    c.close("land flux", m.get_biosphere_carbon_flux(), r.yearly_land())
    c.close("ocean flux", m.get_ocean_carbon_flux(), r.yearly_ocean())
    c.trace()
    temps = np.array([float(t) for _, t in seq])
    df = m.get_carbon_cycle_output(np.arange(nystart, nystart + len(seq)), conc_run=False,
                                   conc_series=np.array(got), feedback_dict_series={"dtemp": temps})
    c.close("reported land flux", df["Biosphere carbon flux"], r.yearly_land())
    c.close("reported ocean flux", df["Ocean carbon flux"], r.yearly_ocean())
    c.close("reported depth", df["Mixed layer depth"], [r.depth(t) for t in temps])
    c.close("reported solubility", df["CO2 solubility"], [r.solubility(t) for t in temps])
    c.close("reported production", df["Net Primary Production"], [r.npp_factor(t) for t in temps])
    c.true(list(df.index) == list(range(nystart, nystart + len(seq))), "years of the output")


def make(n, idtm, p=None, nystart=2000):
    return CarbonCycleModel({"idtm": idtm, "nystart": nystart, "nyend": nystart + n - 1}, p)


def run(case, c):
    t = case["t"]
    if t == "hot":
        seq = [(8.0, x) for x in [(-60.0, -16.0, 0.0, 15.5, 25.0, 60.0)[i] for i in case["h"]] + [1.0]]
        drive(c, make(3, 24), ref.RefCarbon(24), seq)
    elif t == "hist":
        seq = [SYM[i] for i in case["h"]]
        for i in range(len(seq)):
            c.state(case["idtm"], tuple(case["h"][: i + 1]))
        drive(c, make(len(seq), case["idtm"]), ref.RefCarbon(case["idtm"]), seq)
    elif t == "par":
        seq, p = HIST[case["k"]], case["p"]
        drive(c, make(5, 24, dict(p)), ref.RefCarbon(24, p), seq)
        m = make(5, 24)
        for i, (e, tt) in enumerate(HIST[1]):  # another run, then the parameters
            m.co2em2conc(2000 + i, e, feedback_dict={"dtemp": tt})
        m.reset_co2_hold(dict(p))
        drive(c, m, ref.RefCarbon(24, p), seq)
    elif t == "run":
        w = data.make_world(**{"nyend": 2004, **case["kw"]})
        sc = case.get("scale")
        if sc is not None:
            for s in ("CO2_FF", "CO2_AFOLU"):
                w["em"][s] = {y: v * sc for y, v in w["em"][s].items()}
        em = {"ref_yr": 2000}
        res = sim.run(w, None, em, case["p"])
        out = ref.simulate(w, None, em, case["p"])
        c.step(len(out["years"]))
        c.trace()
        sim.cmp_conc(c, res, out, ("CO2",))
        sim.cmp_carbon(c, res, w, out)
        tot = [w["em"]["CO2_FF"][y] + w["em"]["CO2_AFOLU"][y] for y in out["years"]]
        pre = case["p"].get("preindustrial_co2_conc", w["conc"]["CO2"][w["nystart"]])
        airborne(c, res, out["conc"]["CO2"], tot, pre)
    elif t == "conc":
        w = data.make_world(nyend=2003, conc_run=True, idtm=case.get("idtm", 24))
        w["conc"]["CO2"] = {y: v * (1 + (case.get("lvl", 1.0) - 1) * (y - 1998) / 5) for y, v in w["conc"]["CO2"].items()}
        em = {"ref_yr": 2000}
        res = sim.run(w, None, em, case["p"])
        out = ref.simulate(w, None, em, case["p"])
        df, temp, conc = res["carbon cycle"], out["temp"], out["conc"]["CO2"]
        c.step(len(temp))
        c.trace()
        pam = {"preindustrial_co2_conc": w["conc"]["CO2"][1998], **case["p"]}
        r = ref.RefCarbon(w["idtm"], pam)
        c.close("land flux for prescribed CO2", df["Biosphere carbon flux"], r.land_for(conc, temp))
        c.close("depth", df["Mixed layer depth"], [r.depth(x) for x in temp])
        c.close("solubility", df["CO2 solubility"], [r.solubility(x) for x in temp])
        c.close("production", df["Net Primary Production"], [r.npp_factor(x) for x in temp])
        airborne(c, res, conc, df["Emissions"].to_numpy(), pam["preindustrial_co2_conc"])
    elif t == "long":
        n = case["n"]
        seq = [(case["scale"] * (2 + i * 0.05 * (1 if i < 120 else -0.5)), 0.01 * i) for i in range(n)]
        m = make(n, 24)
        r = ref.RefCarbon(24)
        drive(c, m, r, seq)
    elif t == "nofeedback":
        m, r = make(4, 24), ref.RefCarbon(24)
        c.close("CO2 without temperature", [m.co2em2conc(2000 + i, 9.0) for i in range(4)], [r.year(9.0) for _ in range(4)])
        m, r = make(4, 24), ref.RefCarbon(24)
        c.close("CO2 without temperature", [m.co2em2conc(2000 + i, 9.0, feedback_dict={}) for i in range(4)], [r.year(9.0) for _ in range(4)])
        c.trace(2)
    else:
        d = case["dtemp"]
        for p in common.singles(common.CARBON_VALUES):
            m, r = make(2, 1, dict(p)), ref.RefCarbon(1, p)
            c.close("production", m.fnpp_from_temp(d), r.npp_factor(d))
            c.close("depth", m.mixed_layer_temp_feedback(d), r.depth(d))
            c.close("solubility", m.solubility_temp_feedback(d), r.solubility(d))
            c.step()
        c.trace()


def airborne(c, res, conc, em, pre):
    cum = np.cumsum(em)
    want = np.full(len(cum), np.nan) if (cum == 0).any() else (np.array(conc) - pre) / cum * ref.PPM_TO_PGC
    c.close("airborne fraction", res["carbon cycle"]["Airborne fraction CO2"], want, rtol=1e-7)
