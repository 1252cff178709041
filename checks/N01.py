"""Solar, volcanic and land use forcing: year, hemisphere, season, switch."""

import itertools
import os

import numpy as np

import data
import ref
import sim

ORACLE = ("harness/ref.py driven with the given solar, volcanic and land use values of each calendar year; "
          "hemispheric results, reported solar and volcanic (annual mean) series, land use component")
BOUNDS = {
    "quick": "one impulse in each (input, year, column) of a 5 year run; all column counts 1,2,3,4,6,12 x steps 1,2,3,4,6,12,24 of each hemisphere alone and together; data/file forms, symmetric volcanic input, default files for 6 start years; sunvolc off/absent; both thermal models; emission, concentration and forcing runs; whole runs of two to four centuries; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "column counts 1-12,24 x steps 1-24 in pairs of hemispheres; impulses in pairs; 12 start years",
}
KINDS = ("forcing", "emission", "conc")
MODELS = ("default", "twolayer")
NY = 5


def cases(tier):
    deep = tier != "quick"
    for kind, model in itertools.product(KINDS, MODELS):
        for src in ("sun", "luc"):
            for y in range(NY):
                for form in ("data", "file"):
                    yield {"t": "impulse", "kind": kind, "model": model, "src": src, "y": y, "form": form}
        for src in ("n", "s"):
            for y in range(NY):
                for col in range(12):
                    yield {"t": "impulse", "kind": kind, "model": model, "src": src, "y": y, "col": col, "form": "data"}
                    if col in (0, 5, 11):
                        yield {"t": "impulse", "kind": kind, "model": model, "src": src, "y": y, "col": col, "form": "file"}
        for form in ("rf_volc_data", "rf_volc_file"):
            for nc in (1, 3, 12):
                yield {"t": "both", "kind": kind, "model": model, "form": form, "nc": nc}
        for sw in (0, None):
            for form in ("data", "file"):
                yield {"t": "off", "kind": kind, "model": model, "sw": sw, "form": form}
        for sw in (0, 1):
            yield {"t": "noluc", "kind": kind, "model": model, "sw": sw}
    cols = (1, 2, 3, 4, 6, 12) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 24)
    steps = (1, 2, 3, 4, 6, 12, 24) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 18, 24)
    for a in cols:
        for b in cols:
            for nt in steps:
                yield {"t": "grid", "a": a, "b": b, "nt": nt}
        for b in cols:
            yield {"t": "grid2", "a": a, "b": b}
    starts = (1750, 1751, 1800, 1900, 1990, 2005) if not deep else (1750, 1751, 1752, 1760, 1800, 1814, 1850, 1900, 1950, 1990, 2005, 2050)
    yield from sim.centuries(tier, every=True)
    for model in MODELS:
        for array in (False, True):
            yield {"t": "long", "model": model, "array": array}
    yield from sim.sized(("luc", "sun", "volc_n", "volc_s"))
    for y0 in starts:
        for model in MODELS:
            for sw in (0, 1, None):
                for n in (1, 7, 40):
                    yield {"t": "default", "y0": y0, "model": model, "sw": sw, "n": n}


def reported(c, res, sun, vn, vs):
    c.close("reported solar", res["Solar_forcing"], sun)
    c.close("reported volcanic NH", res["Volcanic_forcing_NH"], [sum(r) / len(r) for r in vn])
    c.close("reported volcanic SH", res["Volcanic_forcing_SH"], [sum(r) / len(r) for r in vs])


def world(case):
    ny, n = 1998, case.get("n", NY)
    if case.get("kind", "forcing") == "forcing":
        w = data.forcing_world([(1.0 + i, 0.5 * i) for i in range(n)], nystart=ny, thermal_model=case.get("model"),
                               w_aero=[(0.0, 0.3, 0.6, 0.9, 1.0)[i % 5] for i in range(n)])
        w["luc"] = [0.0] * n
    else:
        w = data.make_world(nystart=ny, nyend=ny + n - 1, emstart=2000, thermal_model=case["model"],
                            conc_run=True if case["kind"] == "conc" else None)
        w["sunvolc"] = 1
    w["sunvolc"] = 1
    return w


def go(c, w, kind, cfg, pam=None):
    m = sim.CICEROSCM(cfg)
    out_opt = {"results_as_dict": True}
    em = {"ref_yr": 2000}
    if kind == "forcing":
        m._run(out_opt, pamset_udm=pam)
        out = ref.simulate_forcing(w, pam)
    else:
        m._run(out_opt, pamset_udm=pam, pamset_emiconc=em)
        out = ref.simulate(w, pam, em)
        sim.cmp_forc(c, m.results, out, ("LANDUSE",))
    sim.cmp_thermal(c, m.results, out)
    sim.cmp_total(c, m.results, out)
    reported(c, m.results, w["sun"], w["volc_n"], w["volc_s"])
    c.step(w["nyend"] - w["nystart"] + 1)
    c.trace()
    return m.results


def base_cfg(w, kind):
    cfg = data.cfg_forcing(w) if kind == "forcing" else data.cfg_data(w)
    cfg["rf_luc_data"] = data.rows_df(w["luc"], w["nystart"])
    return cfg


def run(case, c):
    t = case["t"]
    if t == "sized":
        for th in MODELS:
            w, res, out = sim.run_sized(c, case, sim.sized_world(case, thermal_model=th))
            sim.cmp_forc(c, res, out, ("LANDUSE",))
            sim.cmp_thermal(c, res, out)
            sim.cmp_total(c, res, out)
            reported(c, res, w["sun"], w["volc_n"], w["volc_s"])
    elif t == "long":
        res, w = sim.long_forcing(c, case["model"], array=case["array"])
        reported(c, res, w["sun"], w["volc_n"], w["volc_s"])
    elif t == "century":
        w = sim.century_world(case, sunvolc=1)
        res, out = sim.century(c, case, w)
        sim.cmp_forc(c, res, out, ("LANDUSE",))
        sim.cmp_thermal(c, res, out)
        sim.cmp_total(c, res, out)
        reported(c, res, w["sun"], w["volc_n"], w["volc_s"])
    elif t == "impulse":
        w = world(case)
        w["volc_n"] = [[0.0] * 12 for _ in range(NY)]
        w["volc_s"] = [[0.0] * 12 for _ in range(NY)]
        w["sun"], w["luc"] = [0.0] * NY, [0.0] * NY
        src, y = case["src"], case["y"]
        if src in ("sun", "luc"):
            w[src][y] = 1.5
        else:
            w["volc_" + src][y][case["col"]] = -9.0
        cfg = base_cfg(w, case["kind"])
        if case["form"] == "file":
            key = {"sun": "rf_sun", "luc": "rf_luc", "n": "rf_volc_n", "s": "rf_volc_s"}[src]
            del cfg[key + "_data"]
            cfg[key + "_file"] = data.write_file(w, key, c.tmp())
        go(c, w, case["kind"], cfg)
    elif t in ("grid", "grid2"):
        model = "default" if t == "grid" else "twolayer"
        n = 3
        vn = [[-1.0 * ((i * 5 + k * 3) % 7) for k in range(case["a"])] for i in range(n)]
        vs = [[-0.7 * ((i * 3 + k * 5) % 11) for k in range(case["b"])] for i in range(n)]
        w = data.forcing_world([(0.0, 0.0)] * n, thermal_model=model, volc=list(zip(vn, vs)))
        w["luc"] = [0.0] * n
        pam = {"ldtime": case["nt"]} if t == "grid" else {}
        go(c, w, "forcing", data.cfg_forcing(w), pam)
    elif t == "both":
        w = world(case)
        rows = [[-0.3 * ((i + 2 * k) % 5) for k in range(case["nc"])] for i in range(NY)]
        w["volc_n"] = w["volc_s"] = rows
        w["sun"] = [0.1 * i for i in range(NY)]
        cfg = base_cfg(w, case["kind"])
        for k in ("rf_volc_n_data", "rf_volc_s_data"):
            del cfg[k]
        if case["form"] == "rf_volc_data":
            cfg["rf_volc_data"] = data.rows_df(rows, w["nystart"])
        else:
            path = os.path.join(c.tmp(), "volc.txt")
            data.write_rows_from_1750(rows, w["nystart"], path)
            cfg["rf_volc_file"] = path
        go(c, w, case["kind"], cfg)
    elif t == "off":
        w = world(case)
        w["sun"] = [0.4] * NY
        w["volc_n"] = w["volc_s"] = [[-3.0] * 12] * NY
        cfg = base_cfg(w, case["kind"])
        if case["form"] == "file":
            for key in ("rf_sun", "rf_volc_n", "rf_volc_s"):
                del cfg[key + "_data"]
                cfg[key + "_file"] = data.write_file(w, key, c.tmp())
        else:
            for key in ("rf_sun", "rf_volc_n", "rf_volc_s"):
                del cfg[key + "_data"]
        cfg.pop("sunvolc", None)
        if case["sw"] is not None:
            cfg["sunvolc"] = case["sw"]
        w["sun"] = [0.0] * NY
        w["volc_n"] = w["volc_s"] = [[0.0] * 12] * NY
        go(c, w, case["kind"], cfg)
    elif t == "noluc":
        # land use falls back to the default table of the same years
        w = world(case)
        w["sunvolc"] = case["sw"]
        table = data.parse_rows(os.path.join(data.DEFAULT_DATA, "IPCC_LUCalbedo.txt"))
        if case["kind"] != "forcing":
            w["luc"] = [table[y][0] for y in data.np_years(w)]
        w["sun"] = [0.2 * case["sw"] * i for i in range(NY)]
        cfg = base_cfg(w, case["kind"])
        del cfg["rf_luc_data"]
        if case["sw"] == 0:
            w["volc_n"] = w["volc_s"] = [[0.0] * 12] * NY
        go(c, w, case["kind"], cfg)
    else:
        y0, n = case["y0"], case["n"]
        d = data.DEFAULT_DATA
        sun = data.parse_rows(os.path.join(d, "solar_IPCC.txt"))
        volc = data.parse_rows(os.path.join(d, "meanVOLCmnd_ipcc_NH.txt"))
        luc = data.parse_rows(os.path.join(d, "IPCC_LUCalbedo.txt"))
        if y0 + n - 1 not in sun or y0 + n - 1 not in volc or y0 + n - 1 not in luc:
            return
        on = case["sw"] == 1
        w = data.forcing_world([(0.0, 0.0)] * n, nystart=y0, thermal_model=case["model"])
        if on:
            w["sun"] = [sun[y0 + i][0] for i in range(n)]
            w["volc_n"] = [volc[y0 + i] for i in range(n)]
            w["volc_s"] = [volc[y0 + i] for i in range(n)]
        cfg = data.cfg_forcing(w)
        del cfg["rf_luc_data"]
        if case["sw"] is not None:
            cfg["sunvolc"] = case["sw"]
        res = go(c, w, "forcing", cfg)
        if on:
            c.true(np.any(np.array(res["Solar_forcing"]) != 0) == any(w["sun"]), "default solar forcing is used")
