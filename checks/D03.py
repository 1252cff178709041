"""Unusable configurations are refused, usable ones are not."""

import itertools
import os

import data
import sim

ORACLE = "list of defects: every configuration with one or two of them must raise, from construction or run, and every configuration without any must give the reference results"
BOUNDS = {
    "quick": "every single defect (missing input, missing file, wrong unit of each column, units of any two columns exchanged, one unit for all, unknown model, missing required gas) x 4 valid base configurations, pairs of 14 defect kinds; all 2^8 presence patterns of optional inputs",
    "thorough": "all pairs of all defects on one base",
}
REQ = ("gaspam", "emissions", "concentrations")
BASES = [
    {"files": ["gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s",
               "perturb_em", "perturb_forc"], "kw": {}},
    {"files": ["gaspam", "emissions", "concentrations"], "kw": {"conc_run": True}},
    {"files": ["emissions", "concentrations"], "kw": {"carbon_cycle_model": "box"}},
    {"files": ["gaspam", "emissions", "concentrations", "rf_luc"], "kw": {"thermal_model": "twolayer"}},
]
EM = {"ref_yr": 2000}
NEEDED = ("CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "STRAT_H2O")


def row_of(g):
    return data.gas_table()["CO2" if g.startswith("CO2") else g]


def swaps(names, col):
    """Pairs of columns with different units, one representative of each unit with every other column."""
    reps = {row_of(g)[col]: g for g in reversed(list(names))}
    return sorted({tuple(sorted((a, b))) for a in reps.values() for b in names if row_of(a)[col] != row_of(b)[col]})


def defects():
    out = [["missing", k] for k in REQ]
    out += [["nofile", k] for k in data.FILE_KEYS] + [["nofile", "rf_volc"]]
    out += [["isdir", k] for k in REQ]
    out += [["emunit", g] for g in data.EM_BASE] + [["concunit", g] for g in data.CONC_BASE]
    out += [["emswap", f"{a} {b}"] for a, b in swaps(data.EM_BASE, "EM_UNIT")] + [["concswap", f"{a} {b}"] for a, b in swaps(data.CONC_BASE, "CONC_UNIT")]
    out += [["emsame", g] for g in ("CO2_FF", "CH4", "N2O", "CFC-11")] + [["concsame", g] for g in ("CO2", "CH4", "CFC-11")]
    out += [["emgap", g] for g in ("CH4", "SO2", "HFC134a", "CO2_FF")]
    out += [["emgap2", g] for g in ("CH4",)]
    out += [["thermal", x] for x in ("udm", "", "Default", "two_layer", "box")]
    out += [["carbon", x] for x in ("boxes", "", "DEFAULT", "none", "twolayer")]
    out += [["nogas", g] for g in NEEDED]
    out += [["noemis", g] for g in ("CO2_FF", "CO2_AFOLU", "CH4", "N2O", "SO2", "NOx", "HFC134a")]
    out += [["noconc", g] for g in ("CO2", "CH4", "N2O", "CFC-11")]
    return out


REPS = [["missing", "gaspam"], ["missing", "emissions"], ["missing", "concentrations"], ["nofile", "gaspam"],
        ["nofile", "emissions"], ["nofile", "rf_luc"], ["nofile", "perturb_forc"], ["emunit", "CH4"], ["concunit", "CO2"],
        ["emunit", "SO2"], ["thermal", "udm"], ["carbon", "boxes"], ["nogas", "CO2"], ["noemis", "N2O"]]


def cases(tier):
    alld = defects()
    for b in range(4):
        yield {"t": "good", "b": b}
        for d in alld:
            if d[0] == "noemis" and d[1] in ("HFC134a", "CH4", "N2O") and b == 1:
                continue  # concentration runs do not use it
            if d[0] == "nofile" and d[1] in ("rf_sun", "rf_volc_n", "rf_volc_s", "rf_volc") and b:
                continue  # ignored while the switch is off
            yield {"t": "bad", "b": b, "d": [d]}
    for x, y in itertools.combinations(REPS if tier == "quick" else [d for d in alld if not d[0].endswith("swap")], 2):
        yield {"t": "bad", "b": 0, "d": [x, y]}
    opts = ["nat_ch4", "nat_n2o", "rf_luc", "rf_sun", "rf_volc_n+rf_volc_s", "perturb_em", "perturb_forc", "conc_run"]
    for on in itertools.product((0, 1), repeat=len(opts)):
        for form in ("data", "file"):
            yield {"t": "optional", "on": list(on), "form": form}
    for d in ("nofile", "empty", "badmodel"):
        for model in ("default", "twolayer"):
            yield {"t": "forcing", "d": d, "model": model}
    for unused in ("BMB_AEROS_BC",):
        for g in ("CH4", "SO2", "CO2_AFOLU", "N2O", "CFC-11", "BC", None):
            yield {"t": "lacking", "unused": unused, "g": g}
        for g in ("CO2", "CH4", "CFC-11"):
            yield {"t": "lackconc", "unused": unused, "g": g}


def world(b):
    w = data.make_world(nystart=1999, nyend=2003, emstart=2001, **BASES[b]["kw"])
    if b == 0:
        data.add_sunvolc(w)
        w["perturb_em"] = [["CO2", 2001, 1.0]]
        w["perturb_forc"] = [["CO2", 2001, 1.0]]
    return w


def spoil(c, w, cfg, ds):
    """Apply the defects to the world (tables) and to the configuration."""
    units_e, units_c = {}, {}
    for kind, x in ds:
        if kind == "emunit":
            units_e[x] = "Pg_C" if x in ("CH4", "SO2") else "Mt"
            if w["gas"]["CO2" if x.startswith("CO2") else x]["EM_UNIT"] == units_e[x]:
                units_e[x] = "Gg"
        elif kind == "concunit":
            units_c[x] = "ppm" if x != "CO2" else "ppb"
        elif kind in ("emswap", "concswap"):
            col, units = ("EM_UNIT", units_e) if kind == "emswap" else ("CONC_UNIT", units_c)
            p, q = x.split()
            units[p], units[q] = row_of(q)[col], row_of(p)[col]
        elif kind in ("emsame", "concsame"):  # every column has the unit of this one
            col, units, names = ("EM_UNIT", units_e, data.EM_BASE) if kind == "emsame" else ("CONC_UNIT", units_c, data.CONC_BASE)
            units.update({g: row_of(x)[col] for g in names})
        elif kind in ("emgap", "emgap2"):
            units_e[x] = "kg"
            if kind == "emgap2":
                del w["em"]["BMB_AEROS_BC"]
        elif kind == "nogas":
            del w["gas"][x]
        elif kind == "noemis":
            del w["em"][x]
        elif kind == "noconc":
            del w["conc"][x]
    full = data.gas_table()
    for key in BASES[cfg]["files"]:
        if key in ("emissions", "concentrations") and any(k == "nogas" for k, _ in ds):
            # the file still holds the gas
            gas, w["gas"] = w["gas"], full
            data.write_file(w, key, c.tmp())
            w["gas"] = gas
    out = data.cfg_data(w)
    for key in BASES[cfg]["files"]:
        if key + "_data" in out:
            del out[key + "_data"]
            path = os.path.join(c.tmp(), key + ".txt")
            if key == "emissions":
                gas, w["gas"] = w["gas"], full
                data.write_em(w, path, units=units_e)
                w["gas"] = gas
            elif key == "concentrations":
                gas, w["gas"] = w["gas"], full
                data.write_conc(w, path, units=units_c)
                w["gas"] = gas
            else:
                data.write_file(w, key, c.tmp())
            out[key + "_file"] = path
    for kind, x in ds:
        if kind == "missing":
            out.pop(x + "_file", None)
            out.pop(x + "_data", None)
        elif kind == "nofile":
            out.pop(x + "_data", None)
            out[x + "_file"] = os.path.join(c.tmp(), "there", "is", "none.txt")
        elif kind == "isdir":
            out.pop(x + "_data", None)
            out[x + "_file"] = c.tmp()
        elif kind == "thermal":
            out["thermal_model"] = x
        elif kind == "carbon":
            out["carbon_cycle_model"] = x
    return out


def attempt(cfg):
    m = sim.CICEROSCM(cfg)
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True}, pamset_emiconc=EM)


def run(case, c):
    t = case["t"]
    if t == "good":
        w = world(case["b"])
        cfg = spoil(c, w, case["b"], [])
        sim.full(c, w, None, EM, None, cfg)
    elif t == "bad":
        w = world(case["b"])
        cwd = os.getcwd()
        os.chdir(c.tmp())  # default places are looked up in the working folder
        try:
            cfg = spoil(c, w, case["b"], case["d"])
            c.raises(f"configuration with {case['d']}", lambda: attempt(cfg))
        finally:
            os.chdir(cwd)
        c.step()
        c.trace()
    elif t in ("lacking", "lackconc"):
        w = data.make_world(nystart=1999, nyend=2003, emstart=2001)
        del w["em"][case["unused"]]
        cfg = data.cfg_with_files(w, ("concentrations",), c.tmp())
        del cfg["emissions_data"]
        path = os.path.join(c.tmp(), "em.txt")
        units = {case["g"]: "kg"} if case["g"] else None
        data.write_em(w, path, units=units if t == "lacking" else None)
        if t == "lackconc":
            data.write_conc(w, cfg["concentrations_file"], units=units)
        cfg["emissions_file"] = path
        c.step()
        c.trace()
        if case["g"] is None:
            sim.full(c, w, None, EM, None, cfg)
        else:
            c.raises(f"wrong unit of {case['g']} in a file lacking {case['unused']}", lambda: attempt(cfg))
    elif t == "forcing":
        w = data.forcing_world([(1.0, 2.0)] * 4, thermal_model=case["model"])
        cfg = data.cfg_forcing(w)
        if case["d"] == "badmodel":
            cfg["thermal_model"] = "nonsense"
        else:
            del cfg["forc_data"]
            cfg["forc_file"] = os.path.join(c.tmp(), "f.csv")
            if case["d"] == "empty":
                with open(cfg["forc_file"], "w", encoding="utf8") as f:
                    f.write("year,FORC_NH,FORC_SH\n")
        c.step()
        c.trace()
        c.raises(f"forcing run with {case['d']}", lambda: attempt(cfg))
    else:
        nat_ch4, nat_n2o, luc, sun, volc, pem, pfo, conc = case["on"]
        w = data.make_world(nystart=1999, nyend=2002, emstart=2001, carbon_cycle_model="box", thermal_model="twolayer",
                            conc_run=True if conc else None)
        d = data.DEFAULT_DATA
        full = data.add_sunvolc(dict(w))
        if sun or volc:
            w["sunvolc"] = 1
            w["sun"] = full["sun"] if sun else [data.parse_rows(os.path.join(d, "solar_IPCC.txt"))[y][0] for y in range(1999, 2003)]
            both = [data.parse_rows(os.path.join(d, "meanVOLCmnd_ipcc_NH.txt"))[y] for y in range(1999, 2003)]
            w["volc_n"], w["volc_s"] = (full["volc_n"], full["volc_s"]) if volc else (both, both)
        if pem:
            w["perturb_em"] = [["SO2", 2001, 12.0]]
        if pfo:
            w["perturb_forc"] = [["BC", 2001, 1.0]]
        if not nat_ch4:
            w["nat_ch4"] = None
        if not nat_n2o:
            w["nat_n2o"] = None
        if not luc:
            w["luc"] = [data.parse_rows(os.path.join(d, "IPCC_LUCalbedo.txt"))[y][0] for y in range(1999, 2003)]
        cfg = data.cfg_with_files(w, data.FILE_KEYS if case["form"] == "file" else (), c.tmp())
        for present, keys in ((luc, ["rf_luc"]), (sun, ["rf_sun"]), (volc, ["rf_volc_n", "rf_volc_s"])):
            if not present:
                for k in keys:
                    cfg.pop(k + "_data", None)
                    cfg.pop(k + "_file", None)
        sim.full(c, w, None, EM, None, cfg)
