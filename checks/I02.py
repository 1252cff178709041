"""Variables asked by their common names."""

import itertools
import os

import numpy as np

import data
import sim
from ciceroscm.formattingtools.reformat_cscm_results import CSCMREADER
from ciceroscm.formattingtools.reformat_inputdata_to_cscm_format import COMMONSFILEWRITER
from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper

ORACLE = "table of names written out in this check; values from the in-memory results of the same run"
BOUNDS = {
    "quick": "every one of 130+ names x 13 run kinds (forcing and emissions of either sign) x 2 gas tables x unit source (file, data); every single removed gas; every subset of size 1 to 3 of 10 aggregate members present; run windows; names asked in both orders and through the ensemble wrapper",
    "thorough": "every pair of removed gases, subsets of size 4 and 5",
}
FGAS = ["HFC125", "HFC134a", "HFC143a", "HFC152a", "HFC227ea", "HFC236fa", "HFC23", "HFC245fa", "HFC32", "HFC365mfc",
        "HFC4310mee", "NF3", "C2F6", "C3F8", "C4F10", "C5F12", "C6F14", "C7F16", "C8F18", "cC4F8", "CF4", "SF6", "SO2F2"]
MONTREAL = {"CFC-11": "CFC|CFC11", "CFC-12": "CFC|CFC12", "CFC-113": "CFC|CFC113", "CFC-114": "CFC|CFC114", "CFC-115": "CFC|CFC115",
            "CH3Br": "CH3Br", "CCl4": "CCl4", "CH3CCl3": "CH3CCl3", "H-1202": "Halon1202", "H-1211": "Halon1211",
            "H-1301": "Halon1301", "H-2402": "Halon2402", "HCFC-123": "HCFC123", "HCFC-142b": "HCFC142b",
            "HCFC-141b": "HCFC141b", "HCFC-22": "HCFC22", "CHCl3": "CHCl3", "CH3Cl": "CH3Cl", "CH2Cl2": "CH2Cl2"}
ERF = "Effective Radiative Forcing"
DIRECT = ["BC", "OC", "SO4_DIR"]
GHG = FGAS + list(MONTREAL) + ["CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "STRAT_H2O"]
# name -> members of the forcing results that add up to it
FORC = {
    f"{ERF}|Anthropogenic": ["Total_forcing"], f"{ERF}|Anthropogenic|Aerosol": DIRECT + ["SO4_IND"],
    f"{ERF}|Anthropogenic|Aerosol|Aerosol-radiation Interactions": DIRECT,
    f"{ERF}|Anthropogenic|Aerosol|Aerosol-radiation Interactions|BC": ["BC"],
    f"{ERF}|Anthropogenic|Aerosol|Aerosol-radiation Interactions|OC": ["OC"],
    f"{ERF}|Anthropogenic|Aerosol|Aerosol-radiation Interactions|Sulfate": ["SO4_DIR"],
    f"{ERF}|Aerosols|Direct Effect|SOx": ["SO4_DIR"],
    f"{ERF}|Anthropogenic|Aerosol|Aerosol-cloud Interactions": ["SO4_IND"],
    f"{ERF}|Greenhouse Gases": GHG, f"{ERF}|Anthropogenic|F-Gases": FGAS,
    f"{ERF}|Anthropogenic|CO2": ["CO2"], f"{ERF}|Anthropogenic|CH4": ["CH4"], f"{ERF}|Anthropogenic|N2O": ["N2O"],
    f"{ERF}|Anthropogenic|Other|Stratospheric H2O": ["STRAT_H2O"],
    f"{ERF}|Anthropogenic|Ozone|Stratospheric Contribution": ["STRAT_O3"],
    f"{ERF}|Anthropogenic|Ozone|Tropospheric Contribution": ["TROP_O3"],
}
AGGREGATES = [k for k, v in FORC.items() if len(v) > 1]
CONC = {f"Atmospheric Concentrations|{g}": g for g in ("CO2", "CH4", "N2O")}


def fgas_name(g):
    if g.startswith("HFC"):
        return "HFC|" + g
    return "PFC|" + g if g[0] in "Cc" else g


for _g in FGAS:
    FORC[f"{ERF}|Anthropogenic|F-Gases|{fgas_name(_g)}"] = [_g]
    CONC[f"Atmospheric Concentrations|F-Gases|{fgas_name(_g)}"] = _g
for _g, _n in MONTREAL.items():
    FORC[f"{ERF}|Anthropogenic|Montreal Gases|{_n}"] = [_g]
    CONC[f"Atmospheric Concentrations|Montreal Gases|{_n}"] = _g
EMI = {f"Emissions|{g}": g for g in ("CO2", "CH4", "N2O")}
TEMP = {"Surface Air Temperature Change": "dT_glob_air", "Surface Air Ocean Blended Temperature Change": "dT_glob",
        "Surface Air Ocean Temperature Change": "dT_glob_sea"}
OHC = {"Heat Content|Ocean": "OHCTOT", "Heat Content|Ocean|0-700m": "OHC700"}
CARBON = ["Carbon Flux|Land", "Carbon Flux|Ocean", "Airborne fraction CO2", "Carbon Pool|Land", "Carbon Pool|Ocean", "Net Flux to Atmosphere|CO2"]
ALL = [ERF, *FORC, *CONC, *EMI, *TEMP, *OHC, "Heat Uptake", *CARBON]
WRONG = ["Nonsense", "Emissions|SF6x", f"{ERF}|Anthropogenic|CO", f"{ERF}|Anthropogenic|F-Gases|HFC", "Atmospheric Concentrations|CFC-11",
         "Atmospheric Concentrations|F-Gases", "Heat", "Heat Content", "Carbon Pool", "Surface Air Temperature", "Emissions", "dT_glob", "CO2",
         f"{ERF}|Anthropogenic|Montreal Gases|CFC", "Net Flux to Atmosphere", "Carbon Flux|Ocean ", ""]
KINDS = {
    "em": {}, "conc": {"conc_run": True}, "em_two": {"thermal_model": "twolayer"}, "em_box": {"carbon_cycle_model": "box"},
    "conc_box": {"conc_run": True, "carbon_cycle_model": "box"}, "em_sun": {"sun": True}, "conc_sun": {"sun": True, "conc_run": True},
    "nocarbon": {"nocarbon": True}, "pert": {"pert": True}, "signs": {"signs": True}, "conc_signs": {"signs": True, "conc_run": True}, "sink": {"sink": True}, "idtm": {"idtm": 6},
}
MEMBERS = ["HFC134a", "CF4", "SF6", "CFC-11", "CFC-113", "CH3Br", "CCl4", "HCFC-22", "H-1211", "BC"]
EM = {"ref_yr": 2000}
BIG = os.path.join(data.TEST_DATA, data.GAS_FILES[-1])


def table(which):
    if which == "big":
        gas = data.parse_gas(BIG)
        for i, g in enumerate(gas):  # different for every gas
            if gas[g]["CONC_UNIT"] != "-":
                gas[g]["ALPHA"] = gas[g]["ALPHA"] or 1e-5
        for g in (*FGAS, *MONTREAL):
            if g not in gas:
                gas[g] = {**gas["CF4"], "TAU1": 40.0 + len(g)}
        return gas
    return data.gas_table()


def cases(tier):
    deep = tier != "quick"
    for k, tab, src in itertools.product(KINDS, ("small", "big"), ("data", "file")):
        yield {"t": "all", "k": k, "tab": tab, "src": src}
    for g in [*FGAS, *MONTREAL]:
        yield {"t": "without", "tab": "big", "drop": [g]}
    for g in ("BC", "OC"):
        yield {"t": "without", "tab": "small", "drop": [g]}
    for n in ((1, 2, 3, 4, 5) if deep else (1, 2, 3)):
        for sub in itertools.combinations(MEMBERS, n):
            yield {"t": "without", "tab": "small", "drop": [g for g in MEMBERS if g not in sub]}
    if deep:
        for pair in itertools.combinations([*FGAS, *MONTREAL], 2):
            yield {"t": "without", "tab": "big", "drop": list(pair)}
    for a, b in ((1996, 1996), (1996, 2004), (2000, 2003), (1999, 2010)):
        for k in ("em", "conc", "em_two"):
            yield {"t": "window", "k": k, "a": a, "b": b}
    for k in ("em", "conc", "em_two", "em_box"):
        yield {"t": "wrapper", "k": k}
    yield {"t": "regional"}


def world(kind, gas, a=1998, b=2003):
    kw = dict(KINDS[kind])
    kw.pop("nocarbon", None)
    sun, pert, signs, sink = (kw.pop(x, None) for x in ("sun", "pert", "signs", "sink"))
    w = data.make_world(nystart=a, nyend=b, gas=gas, **kw)
    if sun:
        data.add_sunvolc(w)
    if signs:  # of either sign, small and large
        data.add_sunvolc(w)
        n = b - a + 1
        w["sun"] = [(-1) ** i * 0.4 * i for i in range(n)]
        w["volc_n"] = [[(-2.0) ** (i % 5) + m for m in range(12)] for i in range(n)]
        w["volc_s"] = [[3.0 * i - m for m in range(12)] for i in range(n)]
        w["perturb_forc"] = [[g, a + i, (-1) ** i * 3.0 * (i + 1)] for i in range(n) for g in ("CO2", "CFC-11", "BC", "STRAT_H2O")]
    if sink:  # emissions below zero
        for g in ("CO2_FF", "CO2_AFOLU", "CH4", "N2O"):
            w["em"][g] = {y: (-1) ** y * 0.6 * v for y, v in w["em"][g].items()}
    if pert:
        w["perturb_forc"] = [["CO2", 2001, 0.5], ["CFC-11", 2002, 0.1]]
    return w


def expected(name, res, w):
    """(values, unit test) or None when the results do not hold the quantity."""
    if name == ERF:
        return (res["Total_forcing"] + res["Solar_forcing"] + (res["Volcanic_forcing_NH"] + res["Volcanic_forcing_SH"]) / 2, "W/m^2")
    if name in FORC:
        f = res["forcing"]
        have = [g for g in FORC[name] if g in f.columns]
        if not have and name not in AGGREGATES:
            return None
        tot = np.zeros(len(f))
        for g in have:
            tot = tot + f[g].to_numpy()
        return tot, "W/m^2"
    if name in CONC:
        g = CONC[name]
        return (res["concentrations"][g].to_numpy(), w["gas"][g]["CONC_UNIT"]) if g in res["concentrations"] else None
    if name in EMI:
        g = EMI[name]
        cc = res.get("carbon cycle")
        if g == "CO2" and cc is not None and "Emissions" in cc:
            return cc["Emissions"].to_numpy(), "emission"
        return res["emissions"][g].to_numpy(), "emission"
    if name in TEMP:
        return (res[TEMP[name]], "K") if TEMP[name] in res else None
    if name in OHC:
        return res[OHC[name]] * 10.0, "ZJ"
    if name == "Heat Uptake":
        return res["RIB_glob"] * 3.61e14 * 86400 * 365 / 1e21, "ZJ / yr"
    cc = res.get("carbon cycle")
    if cc is None:
        return None
    land, sea = "Biosphere carbon flux", "Ocean carbon flux"
    if name == "Airborne fraction CO2":
        return (cc[name].to_numpy(), "Unitless") if name in cc else None
    if name == "Net Flux to Atmosphere|CO2":
        return (-(cc[land] + cc[sea]).to_numpy(), "Pg C / yr") if land in cc and sea in cc else None
    flux = land if name.endswith("Land") else sea
    if flux not in cc:
        return None
    x = cc[flux].to_numpy()
    return (np.cumsum(x), "Pg C") if "Pool" in name else (x, "Pg C / yr")


def ask(c, reader, writer, res, w, names, years):
    for name in names:
        exp = expected(name, res, w)
        c.step()
        try:
            ys, vals, unit = reader.get_variable_timeseries(res, name, writer)
        except (KeyError, ValueError, IndexError):
            c.true(exp is None, f"{name}: not found")
            continue
        if exp is None:
            c.true(len(vals) == 0 and len(ys) == 0 and unit == "NoUnit", f"{name}: not in the results but returned {list(vals)[:3]} {unit}")
            continue
        c.close(name, np.array(vals, dtype=float), exp[0])
        c.true([int(y) for y in ys] == years, f"{name}: years {list(ys)}")
        check_unit(c, name, unit, exp[1], w)


def check_unit(c, name, unit, want, w):
    if want == "emission":
        base = w["gas"][EMI[name]]["EM_UNIT"].replace("_", "")
        c.true(unit.replace("_", "").startswith(base) and unit.endswith("/ yr"), f"{name}: unit {unit}")
    else:
        c.true(unit == want, f"{name}: unit {unit} instead of {want}")


def run(case, c):
    t = case["t"]
    kind = case.get("k", "em")
    gas = table(case.get("tab", "small"))
    for g in case.get("drop", ()):
        gas.pop(g, None)
    a, b = case.get("a", 1998), case.get("b", 2003)
    w = world(kind, gas, a, b)
    emi = {"ref_yr": max(a, min(b, 2000))}
    if t == "regional":
        w["gas"]["BC_ASIA"] = {**w["gas"]["BC"], "ALPHA": 0.03}
        w["em"]["BC_ASIA"] = w["em"]["BC"]
    cfg = data.cfg_data(w)
    years = list(range(a, b + 1))
    if t == "wrapper":
        wr = CSCMParWrapper({**cfg, "scenname": "scen"})
        out = wr.run_over_cfgs([{"pamset_emiconc": emi, "Index": "i1"}], [n for n in ALL if expected_safe(n, w, cfg, emi)] + WRONG)
        res = sim.run(w, None, emi)
        c.trace()
        names = [n for n in ALL if expected(n, res, w) is not None]
        c.true(list(out["variable"]) == names, "variables of the ensemble")
        for _, row in out.iterrows():
            exp = expected(row["variable"], res, w)
            c.close(row["variable"], [row[y] for y in years], exp[0])
            check_unit(c, row["variable"], row["unit"], exp[1], w)
            c.step()
        return
    opts = {"results_as_dict": True} if KINDS[kind].get("nocarbon") else None
    res = sim.run(w, None, emi, out=opts)
    c.trace()
    if case.get("src") == "file":
        path = os.path.join(c.tmp(), "gas.txt")
        data.write_gas(w, path)
        writer = COMMONSFILEWRITER(path, a, b)
    else:
        writer = COMMONSFILEWRITER(data.df_gas(w), a, b)
    reader = CSCMREADER(a, b)
    names = ALL + WRONG
    if t == "without":
        names = [n for n in ALL if n.startswith(ERF) or "Gases" in n]
    if t == "regional":
        names = [n for n in ALL if n not in AGGREGATES]
    if t == "all":
        snap = sim.snapshot({k: v for k, v in res.items() if v is not None})
    for order in (names, names[::-1]) if t == "all" else (names,):
        for n in order:
            if n in WRONG:
                ys, vals, unit = reader.get_variable_timeseries(res, n, writer)
                c.true(len(ys) == 0 and len(vals) == 0 and unit == "NoUnit", f"{n!r} returned something")
                c.step()
        ask(c, reader, writer, res, w, [n for n in order if n not in WRONG], years)
    if t == "all":
        sim.same(c, "results after reading", sim.snapshot({k: v for k, v in res.items() if v is not None}), snap)


def expected_safe(name, w, cfg, emi):
    res = sim.run(w, None, emi) if not hasattr(expected_safe, "res") or expected_safe.key != id(w) else expected_safe.res
    expected_safe.res, expected_safe.key = res, id(w)
    return expected(name, res, w) is not None
