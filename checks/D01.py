"""File and data forms of every input, in any combination."""

import itertools
import os
import re

import pandas as pd

import data
import sim

ORACLE = "equality with the run of the same inputs sent as data"
BOUNDS = {
    "quick": "all 2^11 subsets of the inputs sent as files for emission runs with the fast components, subsets of size <=2 and >=9 for 3 further run kinds; file plus different data for every input and for pairs; changed rows outside the run for every file; column orders; every file in 7 other spellings (blanks, tabs, line ends, number formats); repeated rows of perturbations; forcing runs in 5 layouts, 4 headers x 2 thermal models",
    "thorough": "all 2^11 subsets for 4 run kinds",
}
KEYS = data.FILE_KEYS
KINDS = [{"carbon_cycle_model": "box", "thermal_model": "twolayer"}, {}, {"conc_run": True}, {"idtm": 4, "thermal_model": "twolayer"}]


def cases(tier):
    deep = tier != "quick"
    for k in range(4):
        for r in range(len(KEYS) + 1):
            if k and not deep and 2 < r < 9:
                continue
            for keys in itertools.combinations(range(len(KEYS)), r):
                yield {"t": "subset", "k": k, "keys": list(keys)}
        for key in range(len(KEYS)):
            yield {"t": "both", "k": k, "keys": [key]}
            yield {"t": "outside", "k": k, "keys": [key]}
        yield {"t": "both", "k": k, "keys": list(range(len(KEYS)))}
        for table in ("emissions", "concentrations", "gaspam"):
            for rot in (1, 5, -1):
                yield {"t": "columns", "k": k, "table": table, "rot": rot}
    for how in TEXT:
        for key in range(len(KEYS)):
            if how != "columns" or KEYS[key].startswith("perturb"):
                yield {"t": "text", "k": 0, "keys": [key], "how": how}
        yield {"t": "text", "k": 1, "keys": list(range(len(KEYS))), "how": how}
    for a, b in itertools.combinations(range(len(KEYS)), 2):
        yield {"t": "both", "k": 0, "keys": [a, b]}
    for model in ("default", "twolayer"):
        for lay in ("hemi", "total", "components", "share", "column"):
            for d in (0.0, 1.0):
                yield {"t": "forcing", "model": model, "layout": lay, "d": d}
                yield {"t": "forcing", "model": model, "layout": lay, "d": d, "both": True}
                for head in ("Year", "YEAR", "Years"):
                    if lay != "column":
                        yield {"t": "forcing", "model": model, "layout": lay, "d": d, "head": head}
        for keys in itertools.product((0, 1), repeat=4):
            yield {"t": "forcsub", "model": model, "keys": list(keys)}
    for form in ("rf_volc_file", "rf_volc_data"):
        for k in (0, 1):
            yield {"t": "volc", "form": form, "k": k}


def world(k):
    w = data.make_world(nystart=1998, nyend=2004, emstart=2001, **KINDS[k])
    data.add_sunvolc(w)
    w["perturb_em"] = [["CO2", 2000, 3.0], ["SO2", 2002, -10.0], ["CFC-11", 2002, 55.5], ["CO2", 2000, 1.0],
                       ["CO2", 2000, 3.0], ["CFC-11", 2002, 55.5]]
    w["perturb_forc"] = [["CO2", 2001, 0.5], ["CFC-11", 2003, 0.25], ["BC", 2001, -0.75], ["CO2", 2001, 0.5], ["CFC-11", 2003, 0.25]]
    return w


# the same table written in other ways
TEXT = ("blanks", "tabs", "mixed", "crlf", "noend", "whole", "exponent", "columns")


def rewrite(path, key, how):
    with open(path, encoding="utf8", newline="") as f:
        text = f.read()
    table = key not in ("nat_ch4", "nat_n2o") and not key.startswith("perturb")
    if how in ("blanks", "tabs", "mixed") and table:
        sep = {"blanks": "   ", "tabs": "\t", "mixed": " \t "}[how]
        text = "\n".join(sep.join(line.split()) for line in text.split("\n"))
    elif how == "crlf":
        text = text.replace("\n", "\r\n")
    elif how == "noend":
        text = text.rstrip("\n")
    elif how == "whole":  # 3.0 as 3
        text = re.sub(r"(?<![0-9.])(-?[0-9]+)\.0(?![0-9])", r"\1", text)
    elif how == "exponent" and key != "gaspam":
        text = re.sub(r"(?<![0-9A-Za-z_.-])-?[0-9]+\.[0-9]+(?![0-9eE])", lambda m: f"{float(m.group()):.17e}", text)
    elif how == "columns" and key.startswith("perturb"):
        text = "\n".join(",".join(line.split(",")[::-1]) for line in text.split("\n"))
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(text)


EM = {"ref_yr": 2000, "qbmb": 0.1}
_BASE = {}


def base(k):
    if k not in _BASE:
        _BASE[k] = sim.snapshot(sim.run(world(k), None, EM))
    return _BASE[k]


def garbage(w, key):
    """The input as data, with other values."""
    c = data.cfg_data(w)
    df = c[key + "_data"].copy()
    if key == "gaspam":
        df["BETA"] = df["BETA"] * 3.0 + 1.0
        df["SARF_TO_ERF"] = df["SARF_TO_ERF"] * 2.0
    elif key.startswith("perturb"):
        df[df.columns[2]] = df[df.columns[2]] * 5.0 + 1.0
    else:
        df = df * 4.0 + 2.0
    return df


def compare(c, k, cfg, what):
    res = sim.run(None, None, EM, cfg=cfg)
    c.step(7)
    c.trace()
    sim.same(c, what, sim.snapshot(res), base(k))


def run(case, c):
    t = case["t"]
    if t in ("forcing", "forcsub"):
        return forcing(case, c)
    k = case["k"]
    w = world(k)
    if t == "subset":
        cfg = data.cfg_with_files(w, [KEYS[i] for i in case["keys"]], c.tmp())
        compare(c, k, cfg, "files " + ",".join(KEYS[i] for i in case["keys"]))
    elif t == "text":
        cfg = data.cfg_with_files(w, [KEYS[i] for i in case["keys"]], c.tmp())
        for i in case["keys"]:
            rewrite(cfg[KEYS[i] + "_file"], KEYS[i], case["how"])
        compare(c, k, cfg, f"files written with {case['how']}")
    elif t == "both":
        cfg = data.cfg_data(w)
        for i in case["keys"]:
            cfg[KEYS[i] + "_file"] = data.write_file(w, KEYS[i], c.tmp())
            cfg[KEYS[i] + "_data"] = garbage(w, KEYS[i])
        compare(c, k, cfg, "file and data")
    elif t == "outside":
        key = KEYS[case["keys"][0]]
        w2 = world(k)
        for y in list(range(data.FIRST, 1998)) + list(range(2005, data.LAST + 1)):
            if key == "emissions":
                for g in w2["em"]:
                    w2["em"][g][y] = w2["em"][g][y] * 3 + 50.0
            elif key == "concentrations":
                for g in w2["conc"]:
                    w2["conc"][g][y] = w2["conc"][g][y] * 3 + 50.0
            elif key in ("nat_ch4", "nat_n2o"):
                w2[key][y] = 1e5
        cfg = data.cfg_data(w)
        del cfg[key + "_data"]
        path = data.write_file(w2, key, c.tmp())
        if key in ("rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s"):
            with open(path, encoding="utf8") as f:
                rows = f.read().split("\n")
            ncol = len(rows[1998 - 1750].split())
            rows = [r if 1998 - 1750 <= i <= 2004 - 1750 else " ".join(["-55.5"] * ncol) for i, r in enumerate(rows) if r]
            with open(path, "w", encoding="utf8") as f:
                f.write("\n".join(rows) + "\n" + (" ".join(["9.0"] * ncol) + "\n") * 60)
        elif key == "perturb_forc":
            with open(path, "a", encoding="utf8") as f:
                f.write("CO2,1990,5.0\nCFC-11,1990,5.0\nCO2,2050,5.0\nCFC-11,2050,7.0\n")
        cfg[key + "_file"] = path
        compare(c, k, cfg, f"rows of {key} outside the run")
    elif t == "columns":
        rot = case["rot"]
        w2 = world(k)
        for table in {"emissions": ["em"], "concentrations": ["conc"], "gaspam": ["gas"]}[case["table"]]:
            names = list(w2[table])
            names = names[::-1] if rot == -1 else names[rot:] + names[:rot]
            if table == "em":  # the two CO2 columns keep their order
                names.remove("CO2_FF")
                names.insert(names.index("CO2_AFOLU"), "CO2_FF")
            w2[table] = {g: w2[table][g] for g in names}
        cfg = data.cfg_with_files(w2, [case["table"]], c.tmp())
        res = sim.snapshot(sim.run(None, None, EM, cfg=cfg))
        c.step(7)
        c.trace()
        sim.same(c, "order of columns", res, base(k))
    elif t == "volc":
        rows = [[-0.2 * ((i + j) % 4) for j in range(6)] for i in range(7)]
        w["volc_n"] = w["volc_s"] = rows
        want = sim.snapshot(sim.run(w, None, EM))
        cfg = data.cfg_data(w)
        del cfg["rf_volc_n_data"], cfg["rf_volc_s_data"]
        if case["form"] == "rf_volc_data":
            cfg["rf_volc_data"] = data.rows_df(rows, 1998)
        else:
            path = os.path.join(c.tmp(), "volc.txt")
            data.write_rows_from_1750(rows, 1998, path)
            cfg["rf_volc_file"] = path
        got = sim.snapshot(sim.run(None, None, EM, cfg=cfg))
        c.step(14)
        c.trace(2)
        sim.same(c, "volcanic forcing of both hemispheres", got, want)
    return None


def forcing(case, c):
    n, y0, model = 5, 2000, case["model"]
    nh, sh = [1.0, 2.0, -1.0, 0.5, 3.0], [0.5, 4.0, -2.0, 0.0, 1.0]
    comps = {"CO2": [0.1 * i for i in range(n)], "BC": [0.3, -0.2, 0.4, 0.0, 1.0], "OTHER": [1.0] * n,
             "SO4_IND": [-0.5, -1.0, 0.0, 0.2, -0.1], "BMB_AEROS_OC": [0.05 * i for i in range(n)], "OC": [-0.3] * n, "SO2": [-0.2 * i for i in range(n)]}
    if case["t"] == "forcsub":
        w = data.forcing_world(list(zip(nh, sh)), nystart=y0, thermal_model=model, sun=[0.1] * n,
                               volc=[([-0.1 * i, 0.0, 0.2], [0.3, -0.2 * i]) for i in range(n)])
        want = sim.snapshot(sim.forcing_run(w))
        cfg = data.cfg_forcing(w)
        for on, key in zip(case["keys"], ("forc", "rf_sun", "rf_volc_n", "rf_volc_s")):
            if not on:
                continue
            del cfg[key + "_data"]
            if key == "forc":
                path = os.path.join(c.tmp(), "f.csv")
                data.forc_df(w).to_csv(path, index_label="year")
                cfg["forc_file"] = path
            else:
                cfg[key + "_file"] = data.write_file(w, key, c.tmp())
        m = sim.CICEROSCM(cfg)
        m._run({"results_as_dict": True})
        c.step(2 * n)
        c.trace(2)
        sim.same(c, "forcing run", sim.snapshot(m.results), want)
        return
    lay = case["layout"]
    tot = [(a + b) / 2 for a, b in zip(nh, sh)]
    share = [0.5, 0.0, 0.1, 1.0, 0.3]
    frame = {"total": tot, "FORC_NH": nh, "FORC_SH": sh}
    cols = {"hemi": {"FORC_NH": nh, "FORC_SH": sh}, "total": dict(frame), "share": {**frame, "w_aero": share},
            "components": comps, "column": None}[lay]
    if lay == "components":
        tot = [sum(v[i] for v in comps.values()) for i in range(n)]
        frame = {"total": tot, "FORC_NH": tot, "FORC_SH": tot,
                 "w_aero": [sum(abs(v[i]) for g, v in comps.items() if g not in ("CO2", "OTHER")) / sum(abs(v[i]) for v in comps.values()) for i in range(n)]}
    elif lay == "share":
        frame = cols
    elif lay == "column":
        frame = {"total": nh, "FORC_NH": nh, "FORC_SH": nh}
    w = data.forcing_world(list(zip(nh, sh)), nystart=y0, thermal_model=model)
    cfg = data.cfg_forcing(w)
    cfg["forc_data"] = pd.DataFrame(frame, index=range(y0, y0 + n))
    pam = {"delta_lambda_aero": case["d"]}
    m = sim.CICEROSCM(cfg)
    m._run({"results_as_dict": True}, pamset_udm=pam)
    want = sim.snapshot(m.results)
    path = os.path.join(c.tmp(), "f.csv")
    with open(path, "w", encoding="utf8") as f:
        if cols is None:
            f.writelines(f"{x!r}\n" for x in nh)
        else:
            f.write(case.get("head", "year") + "," + ",".join(cols) + "\n")
            for i in range(n):
                f.write(f"{y0 + i}," + ",".join(repr(float(v[i])) for v in cols.values()) + "\n")
    cfg2 = data.cfg_forcing(w)
    if case.get("both"):
        cfg2["forc_data"] = cfg["forc_data"] * 7 + 1
    else:
        del cfg2["forc_data"]
    cfg2["forc_file"] = path
    m = sim.CICEROSCM(cfg2)
    m._run({"results_as_dict": True}, pamset_udm=pam)
    c.step(2 * n)
    c.trace(2)
    sim.same(c, f"forcing file as {lay}", sim.snapshot(m.results), want)
