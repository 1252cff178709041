"""Back-calculated emissions reproduce the concentrations they were calculated from."""

import itertools

import numpy as np

import common
import data
import ref
import sim
from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

ORACLE = "forward run of harness/ref.py RefCarbon and of the implementation with the back-calculated emissions gives the concentration series back (relative 1e-6; solver tolerance 1e-7)"
BOUNDS = {
    "quick": "all concentration histories of length 3 over 7 yearly changes x 3 temperature histories, 24 steps; length 3 over 5 changes at 1, 2 and 6 steps; every single parameter value, step count and 6 temperature histories from -9 to 12 K x 11 series of 12 years; 4 series of 70 to 130 years; concentration runs: reported emissions and ocean flux against reference, runs before and after",
    "thorough": "all histories of length 4 over 7 changes x 4 temperatures; pairs of parameters; 60 year series",
}
CHANGES = (-20.0, -3.0, -0.5, 0.0, 0.5, 3.0, 20.0)
TEMPS = [[0.0] * 8, [0.3 * i for i in range(8)], [3.0, 1.0, -1.0, 2.0, 0.0, 5.0, 1.0, 1.0], [0.0, 0, 1, 0, 2, 0, 1, 3]]
WARM = {"cold": lambda i: -0.4 * i - 2, "colder": lambda i: -9.0, "hot": lambda i: 1.0 * i, "hotter": lambda i: 12.0,
        "swing": lambda i: 6.0 * (-1) ** i, "tiny": lambda i: 1e-6 * i}
SERIES = {
    "rise": lambda i: 278 * 1.01**i, "const": lambda i: 278.0, "low": lambda i: 250.0,
    "jump": lambda i: 278.0 if i < 3 else 400.0, "double": lambda i: 556.0, "four": lambda i: 1112.0,
    "peak": lambda i: 278 + 5 * min(i, 12 - i), "fall": lambda i: 278.0 - 3 * i, "osc": lambda i: 278.0 + 15 * (i % 2),
    "high": lambda i: 360.0 + 2 * i, "recede": lambda i: 380.0 - 5 * i,
}


def cases(tier):
    deep = tier != "quick"
    for h in common.histories(7, 4 if deep else 3):
        for t in range(4 if deep else 3):
            yield {"t": "hist", "h": h, "temp": t, "idtm": 24}
    for n in (1, 2, 6):
        for h in itertools.product((0, 1, 3, 5, 6), repeat=4 if deep else 3):
            yield {"t": "hist", "h": list(h), "temp": 1, "idtm": n}
    for s in SERIES:
        for p in common.singles(common.CARBON_VALUES):
            yield {"t": "series", "s": s, "p": p, "n": 12, "idtm": 12}
        for n in (1, 2, 4, 24, 30):
            yield {"t": "series", "s": s, "p": {}, "n": 12, "idtm": n}
        if deep:
            for p in common.pairs(common.CARBON_VALUES):
                yield {"t": "series", "s": s, "p": p, "n": 12, "idtm": 24 if s in ("double", "four") else 6}
            yield {"t": "series", "s": s, "p": {}, "n": 60, "idtm": 12}
        for warm in WARM:
            yield {"t": "series", "s": s, "p": {}, "n": 12, "idtm": 12, "warm": warm}
        if s in ("rise", "osc", "high", "fall"):
            yield {"t": "series", "s": s, "p": {}, "n": 70 if s == "fall" else 90 if s == "rise" else 130, "idtm": 12}
    for p in common.singles(common.CARBON_VALUES):
        yield {"t": "run", "p": p, "kw": {}}
    for kw in ({"idtm": 6}, {"idtm": 1}, {"thermal_model": "twolayer"}, {"nystart": 2000}, {"functions": data_functions()}):
        for g in (1.0, 0.97, 1.05):
            yield {"t": "run", "p": {}, "kw": kw, "growth": g}
    for rep in (1, 2):
        for what in ("direct", "fluxes", "outputs"):
            for n in (6, 45):
                yield {"t": "after", "rep": rep, "what": what, "n": n}
    for p in common.singles(common.CARBON_VALUES):
        yield {"t": "runs", "p": p}
    yield {"t": "notemp"}


def data_functions():
    return {"rb_function": {"coeffs": [0.5, 0.25, 0.25], "timescales": [2.5, 10, 60]}}


def make(n, idtm, p=None):
    return CarbonCycleModel({"idtm": idtm, "nystart": 2000, "nyend": 2000 + n - 1}, dict(p) if p else None)


def back(c, m, conc, temp, idtm, p):
    conc, temp = np.array(conc, dtype=float), np.array(temp[: len(conc)], dtype=float)
    keep = conc.copy(), temp.copy()
    em = m.back_calculate_emissions(conc, feedback_dict_series={"dtemp": temp})
    c.true((conc == keep[0]).all() and (temp == keep[1]).all(), "input series changed")
    r, f = ref.RefCarbon(idtm, p), make(len(conc), idtm, p)
    c.close("CO2 forward in the reference", [r.year(e, t) for e, t in zip(em, temp)], conc, rtol=1e-6, srel=0)
    c.close("CO2 forward", [f.co2em2conc(2000 + i, e, feedback_dict={"dtemp": temp[i]}) for i, e in enumerate(em)], conc, rtol=1e-6, srel=0)
    c.step(len(conc))
    c.trace()
    return em


def run(case, c):
    t = case["t"]
    if t == "hist":
        conc = list(278.0 + np.cumsum([CHANGES[i] for i in case["h"]]))
        for i in range(len(conc)):
            c.state(case["idtm"], case["temp"], tuple(case["h"][: i + 1]))
        back(c, make(len(conc), case["idtm"]), conc, TEMPS[case["temp"]], case["idtm"], {})
    elif t == "series":
        n, p = case["n"], case["p"]
        conc = [SERIES[case["s"]](i) for i in range(n)]
        temp = [WARM[case["warm"]](i) if "warm" in case else 0.05 * i for i in range(n)]
        back(c, make(n, case["idtm"], p), conc, temp, case["idtm"], p)
    elif t == "run":
        w = data.make_world(**{"nyend": 2004, "conc_run": True, **case["kw"]})
        if "growth" in case:
            w["conc"]["CO2"] = {y: 330.0 * case["growth"] ** (y - 1998) for y in w["conc"]["CO2"]}
        em = {"ref_yr": 2000}
        res = sim.run(w, None, em, case["p"])
        df = res["carbon cycle"]
        out = ref.simulate(w, None, em, case["p"])
        pam = {"preindustrial_co2_conc": w["conc"]["CO2"][w["nystart"]], **case["p"]}
        r = ref.RefCarbon(w.get("idtm", 24), pam, w.get("functions"))
        conc = [r.year(e, x) for e, x in zip(df["Emissions"], out["temp"])]
        c.close("CO2 from the reported emissions", conc, out["conc"]["CO2"], rtol=1e-6, srel=0)
        c.close("ocean flux of the reported emissions", df["Ocean carbon flux"], r.yearly_ocean(), rtol=1e-4, srel=1e-4, atol=1e-4)
        c.true([int(y) for y in df.index] == out["years"], "years")
        c.step(len(conc))
        c.trace()
    elif t == "after":
        n = case["n"]
        conc = [SERIES["rise"](i) for i in range(n)]
        m = make(n, 12)
        want = make(n, 12)
        expect = [want.co2em2conc(2000 + i, 8.0, feedback_dict={"dtemp": 0.1 * i}) for i in range(n)]
        temp = np.array([0.2 * i for i in range(n)])
        em0 = make(n, 12).back_calculate_emissions(np.array(conc), feedback_dict_series={"dtemp": temp})
        for _ in range(case["rep"]):
            for i in range(4):
                m.co2em2conc(2000 + i, 20.0, feedback_dict={"dtemp": 1.0})
            if case["what"] == "direct":
                em = m.back_calculate_emissions(np.array(conc), feedback_dict_series={"dtemp": temp})
            elif case["what"] == "fluxes":
                m.get_ocean_carbon_flux(conc_run=True, co2_conc_series=np.array(conc), dtemp_series=temp)
                em = m.back_calculate_emissions(np.array(conc), feedback_dict_series={"dtemp": temp})
            else:
                em = m.get_carbon_cycle_output(np.arange(2000, 2000 + n), conc_run=True, conc_series=np.array(conc),
                                               feedback_dict_series={"dtemp": temp})["Emissions"]
            c.close("emissions calculated again", em, em0, rtol=1e-4, atol=1e-4)
            m.reset_co2_hold()
            got = [m.co2em2conc(2000 + i, 8.0, feedback_dict={"dtemp": 0.1 * i}) for i in range(n)]
            c.close("forward run after a back calculation", got, expect)
            c.step(6)
        c.trace()
    elif t == "runs":
        w = data.make_world(nyend=2003, conc_run=True)
        em = {"ref_yr": 2000}
        m = sim.build(w)
        first = sim.snapshot(sim.rerun(m, None, em, case["p"]))
        again = sim.snapshot(sim.rerun(m, None, em, case["p"]))
        plain = sim.snapshot(sim.rerun(m, None, em, case["p"], out={"results_as_dict": True}))
        sim.same(c, "second run", again, first)
        sim.same(c, "run without carbon outputs", plain, {k: v for k, v in first.items() if not k.startswith("carbon cycle")})
        c.step(3)
        c.trace(3)
    else:
        conc = np.array([SERIES["rise"](i) for i in range(5)])
        em = make(5, 12).back_calculate_emissions(conc)
        r = ref.RefCarbon(12)
        c.close("CO2 without temperature", [r.year(e) for e in em], conc, rtol=1e-6, srel=0)
        c.trace()
