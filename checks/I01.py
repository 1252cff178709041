"""Result files against in-memory results under every combination of output options."""

import itertools
import os

import numpy as np
import pandas as pd

import data
import sim

ORACLE = "in-memory results of a new object with the same inputs; file numbers equal to the printed precision, all other outputs to rounding"
BOUNDS = {
    "quick": "whole runs of two to three centuries in memory and files; 12 run kinds x {dict absent/True/False} x {carbon absent/True/False} x 5 folders x 3 prefixes; all ordered pairs and triples of 5 output option sets on one object; plots x kinds; extreme magnitudes; files of an earlier run in the folder; different first and last years",
    "thorough": "all ordered triples and quadruples of option sets x 6 kinds",
}
KINDS = {
    "em": {}, "conc": {"conc_run": True}, "em_two": {"thermal_model": "twolayer"}, "conc_two": {"conc_run": True, "thermal_model": "twolayer"},
    "em_box": {"carbon_cycle_model": "box"}, "conc_box": {"conc_run": True, "carbon_cycle_model": "box"},
    "em_sun": {"sun": True}, "em_pre": {"emstart": 2030}, "regional": {"region": True}, "pert": {"pert": True},
    "forc": {"forc": True}, "forc_two": {"forc": True, "thermal_model": "twolayer"}, "forc_array": {"forc": True, "array": True},
    "one": {"one": "CFC-11"},
}
ABSENT = "absent"
FOLDERS = (ABSENT, "out", "deep/er/folder", "ABS", "with space")
PREFIXES = (ABSENT, "run1", "a.b_c")
EM = {"ref_yr": 2000}
SETS = [{}, {"results_as_dict": True}, {"results_as_dict": True, "carbon_cycle_outputs": True}, {"carbon_cycle_outputs": True},
        {"output_prefix": "other", "output_folder": "second"}]
TEMP = ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"]
RIB = ["RIB_glob", "RIB_N", "RIB_S"]
FIRSTS = [(1998, 2002), (1996, 1999), (2000, 2000), (1999, 2008)]
LONG = [(1750, 1970, 1850), (1850, 2170, 2015)]


def cases(tier):
    deep = tier != "quick"
    for k in KINDS:
        for d, cc in itertools.product((ABSENT, True, False), repeat=2):
            for f, p in itertools.product(FOLDERS, PREFIXES):
                if deep or (f, p) in ((ABSENT, ABSENT), ("out", "run1"), ("ABS", ABSENT)) or (d in (ABSENT,) and cc is True):
                    yield {"t": "opts", "k": k, "d": d, "c": cc, "f": f, "p": p, "plot": False}
    for k in ("em", "conc_two", "forc", "forc_two", "em_box"):
        for d in (ABSENT, True):
            yield {"t": "opts", "k": k, "d": d, "c": True, "f": "out", "p": ABSENT, "plot": True}
    for k in list(KINDS)[:6] if deep else ("em", "conc"):
        for n in (2, 3, 4) if deep else (2, 3):
            for seq in itertools.product(range(5), repeat=n):
                yield {"t": "seq", "k": k, "seq": list(seq)}
    for k in KINDS:
        for j in range(len(FIRSTS)):
            yield {"t": "years", "k": k, "j": j}
    for k in ("em", "conc", "forc", "forc_array"):
        for j in range(2):
            for out in ({}, {"results_as_dict": True, "carbon_cycle_outputs": True}):
                yield {"t": "long", "k": k, "j": j, "out": out}
    for k in ("em", "conc", "forc"):
        for mag in (1e-12, 1e6):
            yield {"t": "size", "k": k, "mag": mag}
    for k in KINDS:
        yield {"t": "stale", "k": k}


def make(kind, nystart=1998, nyend=2002, mag=None):
    kw = dict(KINDS[kind])
    emi = dict(EM)
    if kw.pop("one", None):
        emi["just_one"] = KINDS[kind]["one"]
    if kw.pop("forc", None):
        array = kw.pop("array", None)
        n = nyend - nystart + 1
        w = data.forcing_world([((mag or 1) * (0.51234567 + 0.31415926 * i), (mag or 1) * (0.21234567 - 0.17320508 * i)) for i in range(n)], nystart,
                               volc=[([-0.112345678 * (i + j) for j in range(12)], [0.05 * j for j in range(12)]) for i in range(n)],
                               sun=[0.0123456789 * i for i in range(n)], **kw)
        cfg = data.cfg_forcing(w)
        if array:
            cfg["forc_data"] = np.array(w["forc"])
        return cfg, None
    gas = data.gas_table()
    if kw.pop("region", None):
        gas["BC_ASIA"] = {**gas["BC"], "ALPHA": 0.03}
    sun, pert = kw.pop("sun", None), kw.pop("pert", None)
    w = data.make_world(nystart=nystart, nyend=nyend, gas=gas, **kw)
    if sun:
        data.add_sunvolc(w)
    if pert:
        w["perturb_em"] = [["CH4", 2001, 30.0], ["CO2", 2002, 3.0]]
        w["perturb_forc"] = [["CO2", 2001, 0.5]]
    if mag:
        for g in ("SF6", "BC"):
            w["em"][g] = {y: v * mag for y, v in w["em"][g].items()}
    return data.cfg_data(w), emi


def long_cfg(kind, a, b, es):
    if kind.startswith("forc"):
        n = b - a + 1
        w = data.forcing_world([(0.01 * i, 0.01 * i) for i in range(n)], a, thermal_model="twolayer", sun=[0.1 * np.sin(0.57 * i) for i in range(n)])
        cfg = data.cfg_forcing(w)
        if kind == "forc_array":
            cfg["forc_data"] = np.array(w["forc"])
        return cfg, None
    w = data.long_world(a, b, es, sunvolc=1, thermal_model="twolayer", carbon_cycle_model="box", conc_run=True if kind == "conc" else None)
    return data.cfg_data(w), {"ref_yr": (a + b) // 2, "lifetime_mode": "WIGLEY"}


def memory(kind, **kw):
    cfg, emi = make(kind, **kw)
    m = sim.CICEROSCM(cfg)
    m._run(dict(sim.OUT), pamset_emiconc=emi)
    return m.results


def same_text(c, name, got, want):
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        c.fail(f"{name}: {g.shape} instead of {w.shape}")
        return
    ok = (np.abs(g - w) <= 6e-6 * np.abs(w) + 1e-11 * (np.abs(w).max() if w.size else 0)) | (np.isnan(g) & np.isnan(w))
    c.true(ok.all(), f"{name}: file has {g.tolist()}, memory {w.tolist()}")


def read(path):
    return pd.read_csv(path, sep="\t")


def check_files(c, folder, prefix, mem, years, carbon):
    forc_run = "forcing" not in mem
    want = {"ohc", "rib", "temp", "sunvolc", "forc"}
    if not forc_run:
        want |= {"em", "conc"}
        if carbon and mem["carbon cycle"] is not None:
            want.add("carbon")
    have = {f for f in os.listdir(folder) if f.startswith(prefix + "_")}
    c.true(have == {f"{prefix}_{x}.txt" for x in want}, f"files {sorted(have)}")
    tables = {
        "ohc": {k: mem[k] for k in ("OHC700", "OHCTOT")}, "rib": {k: mem[k] for k in RIB if k in mem},
        "temp": {k: mem[k] for k in TEMP if k in mem},
        "sunvolc": {k: mem[k] for k in ("Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH")},
    }
    if forc_run:
        tables["forc"] = {"Total_forcing": mem["Total_forcing"]}
    else:
        for short, name in (("em", "emissions"), ("conc", "concentrations"), ("forc", "forcing"), ("carbon", "carbon cycle")):
            if short in want:
                tables[short] = {k: mem[name][k] for k in mem[name].columns if k != "Year"}
    for short, cols in tables.items():
        path = os.path.join(folder, f"{prefix}_{short}.txt")
        if not os.path.exists(path):
            continue
        df = read(path)
        c.true(set(df.columns) - {"Year"} == set(cols), f"columns of {short}: {sorted(set(df.columns) ^ set(cols))}")
        if short != "carbon" or "Year" in df.columns:
            c.true(list(df["Year"]) == years, f"years of {short}: {list(df['Year'])}")
        for k, v in cols.items():
            if k in df.columns:
                same_text(c, f"{short} {k}", df[k], v)


def thermal_same(c, m, mem):
    for k, v in mem.items():
        if not hasattr(v, "columns") and v is not None:
            c.close(f"in memory {k}", m.results[k], v, rtol=1e-9, srel=1e-10)


def one_run(c, m, emi, out, mem, years, plot=False):
    """Run with output options out and check everything that comes out."""
    root = os.getcwd()
    folder = os.path.join(root, out.get("output_folder", "output"))
    os.makedirs(folder, exist_ok=True)
    for f in os.listdir(folder):
        if os.path.isfile(os.path.join(folder, f)):
            os.remove(os.path.join(folder, f))
    given = dict(out)
    m._run(out, pamset_emiconc=emi, make_plot=plot)
    c.true(out == given, "output options changed")
    c.step(len(years))
    c.trace()
    thermal_same(c, m, mem)
    if out.get("results_as_dict"):
        snap = sim.snapshot({k: v for k, v in m.results.items() if v is not None})
        want = {k: v for k, v in mem.items() if v is not None}
        if not out.get("carbon_cycle_outputs"):
            want.pop("carbon cycle", None)
        sim.same(c, "results", snap, sim.snapshot(want))
        c.true(not [f for f in os.listdir(folder) if f.endswith(".txt")], "files written although results asked in memory")
    else:
        check_files(c, folder, out.get("output_prefix", "output"), mem, years, out.get("carbon_cycle_outputs"))


def run(case, c):
    here = os.getcwd()
    os.chdir(c.tmp())
    try:
        _run(case, c)
    finally:
        os.chdir(here)


def _run(case, c):
    t, k = case["t"], case["k"]
    if t == "opts":
        out = {}
        for key, v in (("results_as_dict", case["d"]), ("carbon_cycle_outputs", case["c"]), ("output_prefix", case["p"])):
            if v != ABSENT:
                out[key] = v
        if case["f"] == "ABS":
            out["output_folder"] = os.path.join(c.tmp(), "absolute")
        elif case["f"] != ABSENT:
            out["output_folder"] = case["f"]
        cfg, emi = make(k)
        m = sim.CICEROSCM(cfg)
        years = list(range(1998, 2003))
        if case["plot"]:
            import matplotlib.figure
            import matplotlib.pyplot as plt
            saved = matplotlib.figure.Figure.savefig
            matplotlib.figure.Figure.savefig = lambda self, fname, *a, **kw: open(fname, "w", encoding="utf8").close()
            try:
                one_run(c, m, emi, out, memory(k), years, plot=True)
            finally:
                matplotlib.figure.Figure.savefig = saved
                plt.close("all")
        else:
            one_run(c, m, emi, out, memory(k), years)
    elif t == "seq":
        cfg, emi = make(k)
        m, mem = sim.CICEROSCM(cfg), memory(k)
        for i, s in enumerate(case["seq"]):
            c.state(k, tuple(case["seq"][: i + 1]))
            one_run(c, m, emi, dict(SETS[s]), mem, list(range(1998, 2003)))
    elif t == "years":
        a, b = FIRSTS[case["j"]]
        cfg, emi = make(k, nystart=a, nyend=b)
        one_run(c, sim.CICEROSCM(cfg), emi, {"carbon_cycle_outputs": True}, memory(k, nystart=a, nyend=b), list(range(a, b + 1)))
    elif t == "long":
        a, b, es = LONG[case["j"]]
        cfg, emi = long_cfg(k, a, b, es)
        m = sim.CICEROSCM(cfg)
        m._run({**sim.OUT, "results_as_dict": True}, pamset_emiconc=emi)
        cfg, emi = long_cfg(k, a, b, es)
        mem = m.results
        years = list(range(a, b + 1))
        c.close("solar", mem["Solar_forcing"], [0.1 * np.sin(0.57 * i) for i in range(len(years))])
        one_run(c, sim.CICEROSCM(cfg), emi, dict(case["out"]), mem, years)
    elif t == "size":
        cfg, emi = make(k, mag=case["mag"])
        one_run(c, sim.CICEROSCM(cfg), emi, {}, memory(k, mag=case["mag"]), list(range(1998, 2003)))
    else:  # results of a longer run lie in the same files
        cfg, emi = make(k, nystart=1998, nyend=2008)
        os.makedirs("output")
        sim.CICEROSCM(cfg)._run({"carbon_cycle_outputs": True}, pamset_emiconc=emi)
        cfg, emi = make(k)
        sim.CICEROSCM(cfg)._run({"carbon_cycle_outputs": True}, pamset_emiconc=emi)
        check_files(c, "output", "output", memory(k), list(range(1998, 2003)), True)
        c.step(2)
        c.trace()
