"""Nothing depends on the future."""

import copy

import data
import sim

ORACLE = "comparison of two runs: all results of the years before the change (or of the shorter run) are equal"
BOUNDS = {
    "quick": "every input series (22 emission, 12 concentration, natural, land use, solar, volcanic, perturbations, forcing) changed in every year of a 7 year run x 5 run kinds; all inputs at once raised, lowered, switched off, at zero, multiplied or negative in one year or from that year on x every year x 24 kinds (models, response functions, parameters near thresholds); every pair of horizons of lengths 1-9 x 24 kinds; whole runs of one to four centuries",
    "thorough": "every input x year x 24 kinds of a 10 year run; horizons of lengths 1-16",
}
KINDS = [
    {}, {"conc_run": True}, {"carbon_cycle_model": "box"}, {"thermal_model": "twolayer"},
    {"thermal_model": "twolayer", "carbon_cycle_model": "box"}, {"conc_run": True, "thermal_model": "twolayer"},
    {"emstart": 2030}, {"emstart": 1990}, {"idtm": 3}, {"mode": "WIGLEY"},
    # from here on only all inputs at once, and horizons
    {"fun": "short", "thermal_model": "twolayer"}, {"fun": "middle", "thermal_model": "twolayer"}, {"fun": "long"}, {"flat": True, "thermal_model": "twolayer"},
    {"udm": {"threstemp": 0, "ebbeta": 2.0, "delta_lambda_aero": 1.0, "W": 4.0}}, {"udm": {"threstemp": 0.05, "mixed": 200.0, "lm": 10}},
    {"carbon": {"t_half": 0.1, "t_threshold": 0.1, "w_threshold": 1.0, "ml_t_half": 0.05, "solubility_limit": 0.9, "ml_depth_min": 70.0}},
    {"carbon": {"solubility_sens": 0.4, "solubility_limit": 0.6, "preindustrial_co2_conc": 250.0}, "conc_run": True, "thermal_model": "twolayer"},
    {"carbon_cycle_model": "box", "carbon": {"beta_f": 20.0, "land_temp_sensitivity": 40.0, "ocean_solubility_temp_coeff": -3.0}},
    {"regional": True, "thermal_model": "twolayer"}, {"mode": "CONSTANT_12", "emi": {"just_one": "TROP_O3"}, "thermal_model": "twolayer"}, {"nonat": True, "thermal_model": "twolayer"},
    {"idtm": 1, "thermal_model": "twolayer"}, {"fun": "middle", "conc_run": True, "thermal_model": "twolayer"},
]
FUN = {
    "short": {"rb_function": {"coeffs": [0.7, 0.3], "timescales": [0.4, 0.9]}, "rs_function": {"coeffs": [0.2, 0.8], "timescales": [0.5]}},
    "middle": {"rb_function": {"coeffs": [0.5, 0.5], "timescales": [1.1, 1.6]}, "rs_function": {"coeffs": [0.1, 0.5, 0.4], "timescales": [1.0, 3.0]}},
    "long": {"rb_function": {"coeffs": [0.2, 0.8], "timescales": [4.0, 60.0]}, "rs_function": {"coeffs": [0.3, 0.3, 0.4], "timescales": [20.0, 90.0]}},
}
FLAT = {"rb_coef0": 0.7, "rb_coef1": 0.3, "rb_tim0": 0.8, "rb_tim1": 1.5, "rs_coef0": 0.2, "rs_coef1": 0.8, "rs_tim0": 1.1}
Y0 = 2001
WAYS = ("up", "down", "off", "none", "huge", "minus")


def inputs():
    names = ["em:" + g for g in list(data.EM_BASE)] + ["conc:" + g for g in data.CONC_BASE]
    return names + ["nat_ch4", "nat_n2o", "luc", "sun", "volc_n", "volc_s", "perturb_em", "perturb_forc"]


def cases(tier):
    deep = tier != "quick"
    n = 10 if deep else 7
    for k in range(len(KINDS) if deep else 5):
        for name in inputs():
            for i in range(1, n):
                yield {"t": "input", "k": k, "name": name, "i": i, "n": n}
    for k in range(len(KINDS)):
        for i in range(1, n):
            for way in WAYS:
                yield {"t": "all", "k": k, "i": i, "n": n, "way": way}
                if i in (1, n // 2, n - 1) and way not in ("huge", "minus"):  # from that year on to the end of the tables
                    yield {"t": "all", "k": k, "i": i, "n": n, "way": way, "on": True}
        for m in range(1, 16 if deep else 9):  # every length
            yield {"t": "horizon", "k": k, "m": m, "n": 16 if deep else 9}
    for cent in sim.centuries(tier, every=True):
        for m in (20, 90, 111):  # years of the shorter run, and the year from which all inputs differ
            yield {**cent, "m": m, "n": 0}
    for model in ("default", "twolayer"):
        for i in range(1, n):
            for what in ("n", "s", "sun", "volc", "share"):
                yield {"t": "forcing", "model": model, "i": i, "n": n, "what": what}
        for m in range(1, n):
            yield {"t": "fhorizon", "model": model, "m": m, "n": n}


def world(k, n):
    kw = dict(KINDS[k])
    mode = kw.pop("mode", "TAR")
    kw.setdefault("emstart", 2003)
    fun, flat, udm, carbon, emi, regional, nonat = (kw.pop(x, None) for x in ("fun", "flat", "udm", "carbon", "emi", "regional", "nonat"))
    if regional:
        kw["gas"] = data.gas_table()
        for name, alpha in (("SO2_A", -0.004), ("BC_A", 0.03), ("OC_B", -0.02)):
            kw["gas"][name] = {**kw["gas"][name.split("_", maxsplit=1)[0]], "ALPHA": alpha}
    w = data.make_world(nystart=Y0, nyend=Y0 + n - 1, span=(1994, 2020), **kw)
    data.add_sunvolc(w)
    if nonat:
        w["nat_ch4"] = w["nat_n2o"] = None
    if fun:
        w["functions"] = copy.deepcopy(FUN[fun])
    em = {"ref_yr": Y0, "lifetime_mode": mode, "qbmb": 0.1, "qnox": 0.01, "qnmvoc": 0.01, "qnh3": 0.02, **(emi or {})}
    return w, {"emiconc": em, "udm": udm, "carbon": dict(FLAT) if flat else carbon}


_BASE = {}


def base(key, make):
    if key not in _BASE:
        _BASE[key] = make()
    return _BASE[key]


def change(w, name, i, way="up"):
    y = Y0 + i
    if name.startswith("em:"):
        w["em"][name[3:]][y] = {"up": w["em"][name[3:]][y] * 1.7 + 1.0, "down": w["em"][name[3:]][y] * 0.3, "off": 0.0, "none": 0.0, "huge": w["em"][name[3:]][y] * 15 + 20.0, "minus": -0.5 * w["em"][name[3:]][y]}[way]
    elif name.startswith("conc:"):
        w["conc"][name[5:]][y] *= {"up": 1.4, "down": 0.7, "off": 0.999, "none": 0.0 if name[5:] not in ("CO2", "CH4", "N2O") else 0.2, "huge": 6.0, "minus": 0.9}[way]
    elif name in ("nat_ch4", "nat_n2o"):
        if w[name]:
            w[name][y] *= {"up": 3.0, "down": 0.5, "off": 0.0, "none": 0.0, "huge": 10.0, "minus": 0.2}[way]
    elif name in ("luc", "sun"):
        w[name][i] += {"up": 0.8, "huge": 20.0, "minus": -20.0}.get(way, -0.8)
    elif name.startswith("volc"):
        w[name][i] = [v - 2.0 if way != "huge" else 9.0 - v for v in w[name][i]]
    elif name == "perturb_em":
        w["perturb_em"] = [["CO2", y, 5.0], ["SO2", y, 20.0], ["CFC-11", y, 300.0]]
    else:
        w["perturb_forc"] = [["CO2", y, 3.0], ["CFC-11", y, 1.0]]


def before(c, a, b, n, what):
    """The first n values of every series are equal."""
    for k in a:
        if k.endswith("#columns"):
            c.true(a[k] == b[k], f"{what}: {k}")
        elif not k.endswith("#index"):
            c.close(f"{what}: {k}", b[k][:n], a[k][:n], rtol=1e-11, srel=1e-12)


def century(case, c):
    full = sim.century_world(case, sunvolc=1)
    m, em = case["m"], {"ref_yr": case["y0"] + 10, "lifetime_mode": "WIGLEY"}
    a = base((case["y0"], case["y1"], case["es"], case["k"]), lambda: sim.snapshot(sim.run(full, None, em)))
    cut = sim.century_world({**case, "y1": case["y0"] + m - 1}, sunvolc=1)
    b = sim.snapshot(sim.run(cut, None, em))
    before(c, {x: v[:m] if not x.endswith("#columns") else v for x, v in a.items()}, b, m, "shorter run")
    for table in ("em", "conc"):
        for g in full[table]:
            for y in range(case["y0"] + m, case["y1"] + 1):
                full[table][g][y] *= 1.3
    for y in range(case["y0"] + m, case["y1"] + 1):
        full["nat_ch4"][y] *= 0.8
    b = sim.snapshot(sim.run(full, None, em))
    before(c, a, b, m, "later inputs")
    c.step(2 * m)
    c.trace(2)


def run(case, c):
    t, n = case["t"], case["n"]
    if t == "century":
        return century(case, c)
    if t in ("input", "all", "horizon"):
        k = case["k"]

        def make():
            w, em = world(k, n)
            return sim.snapshot(sim.run(w, **em))

        a = base((k, n), make)
        if t == "horizon":
            w, em = world(k, case["m"])
            b = sim.snapshot(sim.run(w, **em))
            c.step(case["m"])
            before(c, {x: v[: case["m"]] if not x.endswith("#columns") else v for x, v in a.items()}, b, case["m"], "shorter run")
        else:
            w, em = world(k, n)
            for name in [case["name"]] if t == "input" else inputs():
                last = case["i"]
                if case.get("on"):
                    last = n - 1 if not name.startswith(("em:", "conc:")) else 2020 - Y0
                for i in range(case["i"], last + 1):
                    change(w, name, i, case.get("way", "up"))
            b = sim.snapshot(sim.run(w, **em))
            c.step(n)
            before(c, a, b, case["i"], f"change in year {case['i']}")
        c.trace()
        return
    model = case["model"]
    seq = [(1.0 + i % 3, 0.5 * i) for i in range(n)]
    volc = [([-0.1 * i, 0.0], [0.0, -0.2 * (i % 2)]) for i in range(n)]

    def fw(n_):
        return data.forcing_world(seq[:n_], thermal_model=model, volc=volc[:n_], sun=[0.1 * (i % 3) for i in range(n_)],
                                  w_aero=[0.1 * (i % 4) for i in range(n_)])

    pam = {"delta_lambda_aero": 0.5}
    a = base((model, n), lambda: sim.snapshot(sim.forcing_run(fw(n), pam)))
    if t == "fhorizon":
        b = sim.snapshot(sim.forcing_run(fw(case["m"]), pam))
        before(c, {x: v[: case["m"]] for x, v in a.items()}, b, case["m"], "shorter run")
    else:
        w, i, what = fw(n), case["i"], case["what"]
        if what in ("n", "s"):
            w["forc_" + what][i] += 5.0
            w["forc"][i] += 2.5
        elif what == "sun":
            w["sun"][i] += 1.0
        elif what == "volc":
            w["volc_n"][i] = [-9.0, 1.0]
        else:
            w["w_aero"][i] = 0.95
        b = sim.snapshot(sim.forcing_run(w, pam))
        before(c, a, b, i, f"change in year {i}")
    c.step(n)
    c.trace()
