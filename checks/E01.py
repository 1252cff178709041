"""Single-lifetime gases against their exact one-box solution."""

import itertools
import math
import os

import numpy as np

import data
import sim
from checks.F04 import BASIC

ORACLE = "closed form c = e/(beta q) (1 - exp(-q)) + c_prev exp(-q), q = 1/lifetime, gas by gas; finite everywhere"
BOUNDS = {
    "quick": "all emission sequences of length 6 over {0, 10, -5, 1000} (64 gases with different lifetimes per run) from start concentrations {0, 100}; lifetimes 0.05-50000 x factors x natural emissions grid; all emission start years of a 6 year window; each gas of the repository's 4 tables; changing any other gas; emissions and concentrations of every second power of ten from 1e-13 to 1e9; tables of exactly the run's years with every emission start",
    "thorough": "all sequences of length 8",
}
EM = (0.0, 10.0, -5.0, 1000.0)
TAUS = (0.05, 0.3, 1.0, 2.7, 12.0, 45.0, 100.0, 640.0, 3200.0, 50000.0)


def cases(tier):
    n = 6 if tier == "quick" else 8
    for block in range(4**n // 64):
        yield {"t": "seq", "n": n, "block": block, "c0": block % 2 * 100.0}
    for es in (0, 1750, 1850, 1900, 1940, 1970, 1996, 1998, 1999, 2000, 2002, 2003, 2004, 2010, 2100):
        for nat in (0.0, 11.0, -3.0):
            yield {"t": "tau", "es": es, "nat": nat}
    for g in data.GAS_FILES:
        for es in (1999, 2002):
            yield {"t": "table", "gas": g, "es": es}
    for g in ("CO2_FF", "CH4", "N2O", "SO2", "NOx", "CO", "NMVOC", "CFC-11", "HFC134a", "SF6"):
        yield {"t": "other", "g": g}
    for y in range(1999, 2006):
        for p in ([["CFC-11", y, 50.0]], [["SF6", y, -100.0], ["CF4", 2002, 8.0]]):
            yield {"t": "pert", "rows": p}
    for k in range(12):  # sizes of emissions and start concentrations, from 1e-12 to 1e9
        for when in ("all", "one", "start"):
            yield {"t": "size", "k": k, "when": when}
    for y0 in (1998, 2000):
        for n in (1, 2, 3, 6):
            for es in range(y0 - 2, y0 + n + 2):
                yield {"t": "exact", "y0": y0, "n": n, "es": es}
    for n in (60, 250):
        yield {"t": "long", "n": n}


def expect(c, w, res, names):
    ys = data.np_years(w)
    df = res["concentrations"]
    for g in names:
        row = w["gas"][g]
        got = sim.col(df, g)
        want, prev = [], None
        for y in ys:
            if y < w["emstart"]:
                prev = w["conc"][g][y]
            else:
                if prev is None:
                    prev = w["conc"][g][y]
                e = w["em"][g][y] + row["NAT_EM"]
                for p in w.get("perturb_em") or []:
                    if p[0] == g and p[1] == y:
                        e += p[2]
                q = 1.0 / row["TAU1"]
                prev = e / row["BETA"] / q * (1 - math.exp(-q)) + prev * math.exp(-q)
            want.append(prev)
        c.true(bool(np.isfinite(got).all()), f"{g} is not finite")
        c.close(g, got, want)


def extra(names, row_of):
    full = data.gas_table()
    gas = {g: full[g] for g in BASIC}
    for i, g in enumerate(names):
        gas[g] = dict(full["HFC134a"])
        gas[g].update(row_of(i))
    return gas


def run(case, c):
    t = case["t"]
    if t == "seq":
        n = case["n"]
        names = [f"HFCx{i:03d}" for i in range(64)]
        gas = extra(names, lambda i: {"TAU1": TAUS[(i + case["block"]) % 10], "BETA": 10.0 + i % 7, "NAT_EM": float(i % 3)})
        w = data.make_world(nystart=1999, nyend=1999 + n, emstart=2000, gas=gas)
        seqs = itertools.islice(itertools.product(range(4), repeat=n), case["block"] * 64, case["block"] * 64 + 64)
        for g, s in zip(names, seqs):
            w["conc"][g] = {y: case["c0"] for y in w["conc"][g]}
            for i, k in enumerate(s):
                w["em"][g][2000 + i] = EM[k]
                c.state(s[: i + 1], case["c0"])
        c.step(64 * n)
    elif t == "tau":
        names = [f"HFCx{i:03d}" for i in range(40)]
        gas = extra(names, lambda i: {"TAU1": TAUS[i % 10], "BETA": (0.5, 3.0, 20.0, 180.0)[i // 10], "NAT_EM": case["nat"] * (1 + i % 2)})
        w = data.make_world(nystart=1998, nyend=2004, emstart=case["es"], gas=gas)
    elif t == "size":  # no forcing, so that nothing else reacts
        names = [f"HFCx{i:03d}" for i in range(44)]
        gas = extra(names, lambda i: {"TAU1": TAUS[i % 10], "BETA": 10.0 + i % 7, "NAT_EM": 0.0, "ALPHA": 1e-30})
        w = data.make_world(nystart=1998, nyend=2005, emstart=2000, gas=gas)
        for i, g in enumerate(names):
            f = (10.0 ** (2 * ((case["k"] + i // 4) % 12) - 13)) * (1, -1, 3, -3)[i % 4]
            for y in w["em"][g]:
                if case["when"] == "all" or (case["when"] == "one" and y == 2002):
                    w["em"][g][y] *= f
            if case["when"] == "start":
                for y in w["conc"][g]:
                    w["conc"][g][y] *= abs(f)
        c.step(44 * 6)
    elif t == "exact":  # tables of exactly the years of the run
        w = data.make_world(nystart=case["y0"], nyend=case["y0"] + case["n"] - 1, emstart=case["es"], span=(case["y0"], case["y0"] + case["n"] - 1))
        names = w_names()
        res = sim.run(w, None, {"ref_yr": case["y0"], "lifetime_mode": "WIGLEY"})
        c.step(case["n"])
        c.trace()
        return expect(c, w, res, names)
    elif t == "table":
        gas = data.parse_gas(os.path.join(data.TEST_DATA, case["gas"]))
        w = data.make_world(nystart=1998, nyend=2008, emstart=case["es"], gas=gas)
        names = [g for g, r in gas.items() if r["CONC_UNIT"] != "-" and g not in ("CO2", "CH4", "N2O")]
    elif t == "long":
        names = [g for g in w_names()]
        w = data.make_world(nystart=1998, nyend=1998 + case["n"], emstart=2003, span=(1990, 2000 + case["n"]))
    else:
        w = data.make_world(nystart=1998, nyend=2005, emstart=2000)
        names = w_names()
        if t == "pert":
            w["perturb_em"] = case["rows"]
        else:
            for y in w["em"][case["g"]]:
                w["em"][case["g"]][y] *= 3.0
    res = sim.run(w, None, {"ref_yr": 2000})
    c.step(w["nyend"] - w["nystart"] + 1)
    c.trace()
    expect(c, w, res, names)


def w_names():
    return ["CFC-11", "CFC-113", "CH3Br", "CCl4", "HCFC-22", "H-1211", "HFC134a", "CF4", "SF6"]
