"""Small synthetic worlds (all inputs of a run) and their file and data forms."""

import math
import os

import numpy as np
import pandas as pd

FIRST, LAST = 1994, 2016  # years covered by the synthetic inputs

COLS = ["EM_UNIT", "CONC_UNIT", "BETA", "ALPHA", "TAU1", "TAU2", "TAU3", "NAT_EM", "SARF_TO_ERF"]
# Every class of species the model distinguishes; all factors differ on purpose.
GAS_ROWS = {
    "CO2": ["Pg_C", "ppm", 2.123, 0.0, 150.0, 0.0, 0.0, 0.3, 1.02],
    "CH4": ["Tg", "ppb", 2.78, 0.0, 9.6, 120.0, 160.0, 275.0, 0.87],
    "N2O": ["Tg_N", "ppb", 4.81, 0.0, 121.0, 0.0, 0.0, 9.5, 1.07],
    "SO2": ["Tg_SO2", "-", 11.0, 0.0, 0.02, 0.0, 0.0, 0.0, 1.0],
    "CFC-11": ["Gg", "ppt", 22.6, 0.00026, 45.0, 0.0, 0.0, 0.0, 1.13],
    "CFC-113": ["Gg", "ppt", 32.5, 0.0003, 85.0, 0.0, 0.0, 2.0, 0.93],
    "CH3Br": ["Gg", "ppt", 16.4, 0.000004, 0.8, 0.0, 0.0, 140.0, 1.05],
    "CCl4": ["Gg", "ppt", 25.3, 0.00017, 26.0, 0.0, 0.0, 0.0, 0.97],
    "HCFC-22": ["Gg", "ppt", 14.9, 0.00021, 11.9, 0.0, 0.0, 0.0, 1.01],
    "H-1211": ["Gg", "ppt", 28.37, 0.00029, 16.0, 0.0, 0.0, 0.0, 1.04],
    "HFC134a": ["Gg", "ppt", 18.09, 0.00016, 13.4, 0.0, 0.0, 0.0, 1.06],
    "CF4": ["Gg", "ppt", 15.6, 0.00009, 50000.0, 0.0, 0.0, 11.0, 0.99],
    "SF6": ["Gg", "ppt", 25.89, 0.00057, 3200.0, 0.0, 0.0, 0.0, 1.08],
    "NOx": ["Mt_N", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "CO": ["Mt", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "NMVOC": ["Mt", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "NH3": ["Mt", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "SO4_IND": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "TROP_O3": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.03],
    "STRAT_O3": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.96],
    "STRAT_H2O": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.94],
    "BMB_AEROS_BC": ["Tg", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "BMB_AEROS_OC": ["Tg", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "BMB_AEROS": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "LANDUSE": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "BC": ["Tg", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "OC": ["Tg", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
    "OTHER": ["X", "-", 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0],
}
NO_EMISSION = ("SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS", "LANDUSE", "OTHER")
EM_BASE = {
    "CO2_FF": 7.5, "CO2_AFOLU": 1.2, "CH4": 320.0, "N2O": 7.0, "SO2": 55.0, "NOx": 38.0,
    "CO": 850.0, "NMVOC": 150.0, "NH3": 45.0, "BMB_AEROS_BC": 2.6, "BMB_AEROS_OC": 23.0,
    "BC": 5.5, "OC": 12.0, "CFC-11": 100.0, "CFC-113": 40.0, "CH3Br": 60.0, "CCl4": 60.0,
    "HCFC-22": 300.0, "H-1211": 8.0, "HFC134a": 130.0, "CF4": 12.0, "SF6": 6.0,
}
CONC_BASE = {
    "CO2": 360.0, "CH4": 1745.0, "N2O": 312.0, "CFC-11": 265.0, "CFC-113": 83.0, "CH3Br": 9.0,
    "CCl4": 100.0, "HCFC-22": 125.0, "H-1211": 3.6, "HFC134a": 6.0, "CF4": 72.0, "SF6": 3.9,
}


def wobble(name, yr):
    """Deterministic, different for every name and year, never monotone for long."""
    h = sum((i + 3) * ord(c) for i, c in enumerate(name)) % 97
    t = yr - FIRST
    return 0.06 * math.sin(0.9 * t + h) + 0.004 * ((h + 5 * t) % 11) + 0.011 * t


def gas_table(names=None):
    return {
        g: dict(zip(COLS, row)) for g, row in GAS_ROWS.items() if names is None or g in names
    }


def make_world(nystart=1998, nyend=2006, emstart=2001, gas=None, span=(FIRST, LAST), **kw):
    """World in plain dictionaries, the form the reference model reads."""
    w = {"nystart": nystart, "nyend": nyend, "emstart": emstart}
    w["gas"] = gas if gas is not None else gas_table()
    yrs = range(span[0], span[1] + 1)
    em_names = ["CO2_FF", "CO2_AFOLU"] + [
        g for g in w["gas"] if g not in NO_EMISSION and g != "CO2"
    ]
    w["em"] = {
        g: {y: EM_BASE.get(g, 10.0) * (1 + wobble("e" + g, y)) for y in yrs} for g in em_names
    }
    w["conc"] = {
        g: {y: CONC_BASE.get(g, 20.0) * (1 + wobble("c" + g, y)) for y in yrs}
        for g, row in w["gas"].items() if row["CONC_UNIT"] != "-"
    }
    w["nat_ch4"] = {y: 250.0 * (1 + wobble("nat_ch4", y)) for y in yrs}
    w["nat_n2o"] = {y: 9.0 * (1 + wobble("nat_n2o", y)) for y in yrs}
    n = nyend - nystart + 1
    w["luc_by_year"] = {y: -0.1 * (1 + wobble("luc", y)) for y in yrs}
    w["luc"] = [w["luc_by_year"][nystart + i] for i in range(n)]
    w["sun"] = [0.0] * n
    w["volc_n"] = [[0.0] * 12 for _ in range(n)]
    w["volc_s"] = [[0.0] * 12 for _ in range(n)]
    w.update(kw)
    return w


def add_sunvolc(w, ncol_n=12, ncol_s=12):
    """Switch on solar and volcanic forcing given as data."""
    ys = range(w["nystart"], w["nyend"] + 1)
    w["sunvolc"] = 1
    w["sun"] = [0.05 * wobble("sun", y) for y in ys]
    w["volc_n"] = [[-0.3 * wobble(f"vn{c}", y) for c in range(ncol_n)] for y in ys]
    w["volc_s"] = [[-0.5 * wobble(f"vs{c}", y) for c in range(ncol_s)] for y in ys]
    return w


# ---------------------------------------------------------------- data form
def df_gas(w):
    return pd.DataFrame.from_dict(w["gas"], orient="index")[COLS]


def df_em(w):
    return pd.DataFrame(w["em"])


def df_conc(w):
    return pd.DataFrame(w["conc"])


def rows_df(values, nystart):
    return pd.DataFrame(values, index=range(nystart, nystart + len(values)))


def pert_df(rows, what):
    return pd.DataFrame(rows, columns=["component", "year", what])


def cfg_data(w):
    """Instance configuration with every input sent as data."""
    c = {
        "nystart": w["nystart"], "nyend": w["nyend"], "emstart": w["emstart"],
        "gaspam_data": df_gas(w), "emissions_data": df_em(w), "concentrations_data": df_conc(w),
        "rf_luc_data": rows_df(w["luc"], w["nystart"]),
    }
    for nat, comp in (("nat_ch4", "CH4"), ("nat_n2o", "N2O")):
        if w.get(nat) is not None:
            c[nat + "_data"] = pd.DataFrame({comp: w[nat]})
    if w.get("sunvolc"):
        c["sunvolc"] = 1
        c["rf_sun_data"] = rows_df(w["sun"], w["nystart"])
        c["rf_volc_n_data"] = rows_df(w["volc_n"], w["nystart"])
        c["rf_volc_s_data"] = rows_df(w["volc_s"], w["nystart"])
    if w.get("perturb_em"):
        c["perturb_em_data"] = pert_df(w["perturb_em"], "emission")
    if w.get("perturb_forc"):
        c["perturb_forc_data"] = pert_df(w["perturb_forc"], "forcing")
    for key in ("conc_run", "idtm", "thermal_model", "carbon_cycle_model"):
        if w.get(key) is not None:
            c[key] = w[key]
    c.update(w.get("functions") or {})
    return c


# ---------------------------------------------------------------- file form
def _r(x):
    return repr(float(x))


def write_gas(w, path):
    with open(path, "w", encoding="utf8") as f:
        f.write("GAS\tEM_UNIT\tCONC_UNIT\tBETA\tALPHA\tTAU1(YEARS)\tTAU2\tTAU3\tNATURAL_EMISSIONS\tSARF_TO_ERF\n")
        for g, row in w["gas"].items():
            f.write("\t".join([g] + [row[c] if isinstance(row[c], str) else _r(row[c]) for c in COLS]) + "\n")


def write_em(w, path, first=None, last=None, units=None):
    names = list(w["em"])
    have = sorted(w["em"][names[0]])
    first, last = first or have[0], last or have[-1]
    head = ["CO2" if n.startswith("CO2_") else n for n in names]
    unit = [(units or {}).get(n, w["gas"]["CO2" if n.startswith("CO2_") else n]["EM_UNIT"]) for n in names]
    with open(path, "w", encoding="utf8") as f:
        f.write("\t".join(["Component"] + head) + "\n")
        f.write("\t".join(["Unit"] + unit) + "\n")
        f.write("\t".join(["Description"] + ["total"] * len(names)) + "\n")
        f.write("\t".join(["Reference"] + ["synthetic"] * len(names)) + "\n")
        for y in range(first, last + 1):
            f.write("\t".join([str(y)] + [_r(w["em"][n][y]) for n in names]) + "\n")


def write_conc(w, path, first=None, last=None, units=None):
    names = list(w["conc"])
    have = sorted(w["conc"][names[0]])
    first, last = first or have[0], last or have[-1]
    with open(path, "w", encoding="utf8") as f:
        f.write("\t".join(["Component"] + names) + "\n")
        f.write("\t".join(["Unit"] + [(units or {}).get(n, w["gas"][n]["CONC_UNIT"]) for n in names]) + "\n")
        f.write("\t".join(["Description"] + ["total"] * len(names)) + "\n")
        f.write("\t".join(["Reference"] + ["synthetic"] * len(names)) + "\n")
        for y in range(first, last + 1):
            f.write("\t".join([str(y)] + [_r(w["conc"][n][y]) for n in names]) + "\n")


def write_nat(series, path):
    with open(path, "w", encoding="utf8") as f:
        for y in range(1750, 2501):
            f.write(_r(series.get(y, 1000.0 + y)) + "\n")


def write_rows_from_1750(values, nystart, path, extra=3):
    """One row per year from 1750; rows outside the run hold values nobody may use."""
    ncol = len(values[0]) if isinstance(values[0], (list, tuple)) else 1
    with open(path, "w", encoding="utf8") as f:
        for y in range(1750, nystart + len(values) + extra):
            i = y - nystart
            row = values[i] if 0 <= i < len(values) else [777.0 + y] * ncol
            row = row if isinstance(row, (list, tuple)) else [row]
            f.write(" ".join(_r(v) for v in row) + "\n")


def write_pert(rows, what, path):
    with open(path, "w", encoding="utf8") as f:
        f.write(f"component,year,{what}\n")
        for r in rows:
            f.write(f"{r[0]},{r[1]},{_r(r[2])}\n")


FILE_KEYS = ("gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_luc", "rf_sun",
             "rf_volc_n", "rf_volc_s", "perturb_em", "perturb_forc")


def write_file(w, key, folder):
    path = os.path.join(folder, key + ".txt")
    ny = w["nystart"]
    if key == "gaspam":
        write_gas(w, path)
    elif key == "emissions":
        write_em(w, path)
    elif key == "concentrations":
        write_conc(w, path)
    elif key in ("nat_ch4", "nat_n2o"):
        write_nat(w[key], path)
    elif key == "rf_luc":
        write_rows_from_1750(w["luc"], ny, path)
    elif key == "rf_sun":
        write_rows_from_1750(w["sun"], ny, path)
    elif key in ("rf_volc_n", "rf_volc_s"):
        write_rows_from_1750(w["volc_" + key[-1]], ny, path)
    elif key == "perturb_em":
        write_pert(w["perturb_em"], "emission", path)
    elif key == "perturb_forc":
        write_pert(w["perturb_forc"], "forcing", path)
    else:
        raise ValueError(key)
    return path


def cfg_with_files(w, keys, folder):
    """cfg_data with the inputs in keys sent as files instead."""
    c = cfg_data(w)
    for key in keys:
        if key + "_data" in c:
            del c[key + "_data"]
            c[key + "_file"] = write_file(w, key, folder)
    return c


def np_years(w):
    return np.arange(w["nystart"], w["nyend"] + 1)


# ---------------------------------------------------------------- forcing runs
def forcing_world(seq, nystart=2000, thermal_model=None, volc=None, sun=None, w_aero=None):
    """seq: list of (north, south) forcing by year; volc: list of (rows north, rows south)."""
    n = len(seq)
    w = {"nystart": nystart, "nyend": nystart + n - 1, "thermal_model": thermal_model}
    w["forc_n"] = [float(a) for a, _ in seq]
    w["forc_s"] = [float(b) for _, b in seq]
    w["forc"] = [(a + b) / 2 for a, b in seq]
    w["w_aero"] = list(w_aero) if w_aero is not None else [0.0] * n
    w["has_share"] = w_aero is not None
    w["sun"] = list(sun) if sun is not None else [0.0] * n
    w["volc_n"] = [list(v[0]) for v in volc] if volc is not None else [[0.0] * 12] * n
    w["volc_s"] = [list(v[1]) for v in volc] if volc is not None else [[0.0] * 12] * n
    w["sunvolc"] = 1 if (volc is not None or sun is not None) else 0
    return w


def forc_df(w):
    df = pd.DataFrame(
        {"total": w["forc"], "FORC_NH": w["forc_n"], "FORC_SH": w["forc_s"]},
        index=range(w["nystart"], w["nyend"] + 1),
    )
    if w.get("has_share"):
        df["w_aero"] = w["w_aero"]
    return df


def cfg_forcing(w):
    c = {"nystart": w["nystart"], "nyend": w["nyend"], "forc_data": forc_df(w),
         "rf_luc_data": rows_df([0.0] * len(w["forc"]), w["nystart"])}
    if w.get("thermal_model"):
        c["thermal_model"] = w["thermal_model"]
    if w.get("sunvolc"):
        c["sunvolc"] = 1
        c["rf_sun_data"] = rows_df(w["sun"], w["nystart"])
        c["rf_volc_n_data"] = rows_df(w["volc_n"], w["nystart"])
        c["rf_volc_s_data"] = rows_df(w["volc_s"], w["nystart"])
    return c


# ---------------------------------------------------------------- files of the repository
REPO = os.environ.get("VERIF_REPO", "/repo")
TEST_DATA = os.path.join(REPO, "tests", "test-data")
DEFAULT_DATA = os.path.join(REPO, "src", "ciceroscm", "default_data")
GAS_FILES = ("gases_v1RCMIP.txt", "gases_vupdate_2022_AR6.txt", "gases_vupdate_2024_WMO.txt",
             "gases_vupdate_2024_WMO_added_new.txt")


def parse_gas(path):
    with open(path, encoding="utf8") as f:
        rows = [line.split() for line in f if line.strip()]
    head = [{"TAU1(YEARS)": "TAU1", "NATURAL_EMISSIONS": "NAT_EM"}.get(h, h) for h in rows[0][1:]]
    out = {}
    for r in rows[1:]:
        vals = dict(zip(head, r[1:]))
        out[r[0]] = {k: (vals[k] if k.endswith("UNIT") else float(vals[k])) for k in COLS}
    return out


def parse_table(path):
    """Emission or concentration file: {column: {year: value}}, second CO2 column is land use."""
    with open(path, encoding="utf8") as f:
        rows = [line.split() for line in f if line.strip()]
    names, out, seen = [], {}, 0
    for h in rows[0][1:]:
        if h == "CO2":
            names.append(("CO2_FF", "CO2_AFOLU")[seen] if rows[0].count("CO2") == 2 else "CO2")
            seen += 1
        else:
            names.append(h)
    for n in names:
        out[n] = {}
    for r in rows[4:]:
        for n, v in zip(names, r[1:]):
            out[n][int(r[0])] = float(v)
    return out


def parse_rows(path, first=1750):
    with open(path, encoding="utf8") as f:
        rows = [[float(x) for x in line.split()] for line in f if line.strip()]
    return {first + i: r for i, r in enumerate(rows)}


def real_world(nystart=1750, nyend=2100, emstart=1850, gas_file=GAS_FILES[0], sunvolc=1, **kw):
    """World of the repository's ssp245 test data, and the configuration naming the files."""
    t = TEST_DATA
    w = {"nystart": nystart, "nyend": nyend, "emstart": emstart}
    w["gas"] = parse_gas(os.path.join(t, gas_file))
    w["em"] = parse_table(os.path.join(t, "ssp245_em_RCMIP.txt"))
    w["conc"] = parse_table(os.path.join(t, "ssp245_conc_RCMIP.txt"))
    w["nat_ch4"] = {y: r[0] for y, r in parse_rows(os.path.join(t, "natemis_ch4.txt")).items()}
    w["nat_n2o"] = {y: r[0] for y, r in parse_rows(os.path.join(t, "natemis_n2o.txt")).items()}
    ys = range(nystart, nyend + 1)
    luc = parse_rows(os.path.join(DEFAULT_DATA, "IPCC_LUCalbedo.txt"))
    w["luc"] = [luc[y][0] for y in ys]
    cfg = {
        "nystart": nystart, "nyend": nyend, "emstart": emstart,
        "gaspam_file": os.path.join(t, gas_file),
        "emissions_file": os.path.join(t, "ssp245_em_RCMIP.txt"),
        "concentrations_file": os.path.join(t, "ssp245_conc_RCMIP.txt"),
        "nat_ch4_file": os.path.join(t, "natemis_ch4.txt"),
        "nat_n2o_file": os.path.join(t, "natemis_n2o.txt"),
    }
    w["sunvolc"] = sunvolc
    if sunvolc:
        cfg["sunvolc"] = 1
        sun = parse_rows(os.path.join(DEFAULT_DATA, "solar_IPCC.txt"))
        volc = parse_rows(os.path.join(DEFAULT_DATA, "meanVOLCmnd_ipcc_NH.txt"))
        w["sun"] = [sun[y][0] for y in ys]
        w["volc_n"] = [volc[y] for y in ys]
        w["volc_s"] = [volc[y] for y in ys]
    else:
        w["sun"] = [0.0] * len(ys)
        w["volc_n"] = w["volc_s"] = [[0.0] * 12] * len(ys)
    for key in ("conc_run", "idtm", "thermal_model", "carbon_cycle_model"):
        if kw.get(key) is not None:
            cfg[key] = kw[key]
    w.update(kw)
    return w, cfg


def long_profile(name, yr, low, high):
    """From low to high through the twentieth century, never monotone for long, positive in any year."""
    h = sum((i + 3) * ord(c) for i, c in enumerate(name)) % 97
    rise = 1.0 / (1.0 + math.exp(-(yr - 1960.0) / 35.0))
    ripple = 1.0 + 0.05 * math.sin(0.9 * yr + h) + 0.004 * ((h + 5 * yr) % 11)
    return (low + (high - low) * rise) * ripple


def long_world(nystart=1750, nyend=2100, emstart=1850, gas=None, **kw):
    """World with realistic levels in every year of a run of centuries."""
    w = make_world(nystart, nyend, emstart, gas, (nystart, nyend), **kw)
    yrs = range(nystart, nyend + 1)
    for g in w["em"]:
        base = EM_BASE.get(g, 10.0)
        w["em"][g] = {y: long_profile("e" + g, y, 0.08 * base, 1.2 * base) for y in yrs}
    for g in w["conc"]:
        base = CONC_BASE.get(g, 20.0)
        low = {"CO2": 0.75, "CH4": 0.42, "N2O": 0.87}.get(g, 0.02)
        w["conc"][g] = {y: long_profile("c" + g, y, low * base, 1.15 * base) for y in yrs}
    w["nat_ch4"] = {y: long_profile("nat_ch4", y, 200.0, 250.0) for y in yrs}
    w["nat_n2o"] = {y: long_profile("nat_n2o", y, 9.5, 9.0) for y in yrs}
    w["luc_by_year"] = {y: -long_profile("luc", y, 0.01, 0.12) for y in yrs}
    n = nyend - nystart + 1
    if "luc" not in kw:
        w["luc"] = [w["luc_by_year"][y] for y in yrs]
    if "sun" not in kw and w.get("sunvolc"):
        w["sun"] = [0.1 * math.sin(0.57 * i) for i in range(n)]
        w["volc_n"] = [[-0.05 * ((7 * i + m) % 5) for m in range(12)] for i in range(n)]
        w["volc_s"] = [[-0.04 * ((5 * i + 2 * m) % 7) for m in range(12)] for i in range(n)]
    return w
