"""Only the position of a year among the inputs counts, not its number."""

import copy

import data
import sim
from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper

ORACLE = "the run in the original years: the same numbers must come out of the run with every input moved by the same number of years"
BOUNDS = {
    "quick": "every shift of -240 to +480 years and 30 more to the years 1 to 9000, for a run with all kinds of inputs (natural emissions, sun, volcanoes, land use, emission and forcing perturbations); 60 shifts x 12 kinds of runs (emission, concentration, single component, forcing as frame and array, default and box carbon, both thermal models, step numbers); all 2^5 subsets of inputs sent as files x 6 shifts; windows of 1 to 6 years x emission start x 12 shifts; runs of centuries moved by 14 shifts; ensembles moved by 8 shifts",
    "thorough": "every shift of -240 to +1000 years for every kind of run",
}
KINDS = {
    "em": {"thermal_model": "twolayer", "carbon_cycle_model": "box"},
    "cc": {"thermal_model": "twolayer"},
    "udm": {"carbon_cycle_model": "box"},
    "plain": {},
    "conc": {"thermal_model": "twolayer", "conc_run": True},
    "concbox": {"thermal_model": "twolayer", "carbon_cycle_model": "box", "conc_run": True},
    "idtm": {"thermal_model": "twolayer", "idtm": 6},
    "one": {"thermal_model": "twolayer", "carbon_cycle_model": "box"},
    "const": {"thermal_model": "twolayer", "carbon_cycle_model": "box"},
    "forc": {"thermal_model": "twolayer"},
    "forcudm": {},
    "array": {"thermal_model": "twolayer"},
}
FAR = [1 - 1990, 2 - 1990, -1900, -1500, -1000, -900, -800, -700, -500, -300, -250, 500, 501, 600, 700, 750, 800, 999, 1000, 1001, 1500, 2000, 3000, 4000, 5000, 6000, 6700, 7000]
SOME = [*FAR, -248, -240, -200, -150, -149, -148, -147, -146, -101, -100, -99, -51, -50, -49, -25, -11, -10, -9, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 49, 50, 51, 52, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 150, 200, 250, 300, 400, 480]
ROWS = ["rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s"]


def cases(tier):
    deep = tier != "quick"
    for k in (*range(-240, 481), *FAR):
        yield {"t": "kind", "kind": "em", "k": k}
    for kind in KINDS:
        if kind != "em":
            slow = kind in ("udm", "plain", "forcudm")
            for k in range(-240, 1001) if deep else SOME[::2] if slow else SOME:
                yield {"t": "kind", "kind": kind, "k": k}
    keys = ["emissions", "concentrations", "perturb_em", "perturb_forc", "rows"]
    for mask in range(1, 2 ** len(keys)):
        for k in (-240, -100, -1, 1, 100, 480) if not deep else SOME:
            if not -248 <= k <= 480 and mask & 16:
                continue
            yield {"t": "file", "keys": [x for i, x in enumerate(keys) if mask >> i & 1], "k": k}
    for n in range(1, 7):
        for es in range(1997, 2006):
            yield {"t": "win", "n": n, "es": es}
    for y0, y1, es in sim.WINDOWS:
        for kind in ("em", "conc"):
            yield {"t": "century", "y0": y0, "y1": y1, "es": es, "k": kind}
    for k in (-240, -100, -10, -1, 1, 10, 100, 200):
        yield {"t": "ens", "k": k}


def moved(w, k):
    """The same world k years later."""
    w = copy.deepcopy(w)
    for key in ("nystart", "nyend", "emstart"):
        if key in w:
            w[key] += k
    for key in ("em", "conc"):
        w[key] = {g: {y + k: v for y, v in s.items()} for g, s in w.get(key, {}).items()}
    for key in ("nat_ch4", "nat_n2o", "luc_by_year"):
        if w.get(key) is not None:
            w[key] = {y + k: v for y, v in w[key].items()}
    for key in ("perturb_em", "perturb_forc"):
        if w.get(key):
            w[key] = [[g, y + k, v] for g, y, v in w[key]]
    return w


def world(kind, nystart=1998, n=8, es=2001):
    w = data.make_world(nystart=nystart, nyend=nystart + n - 1, emstart=es, **KINDS[kind])
    data.add_sunvolc(w)
    last = nystart + n - 1
    w["perturb_em"] = [["SO2", min(2001, last), 4.0], ["CH4", min(2002, last), 20.0], ["CO2", last, 1.0]]
    w["perturb_forc"] = [["OTHER", nystart, 0.2], ["SF6", min(2003, last), 0.1], ["CH4", last, -0.1]]
    return w


def forcing(kind, k):
    seq = [(0.3 * i + 0.1, 0.2 * i - 0.05 * (i % 3)) for i in range(9)]
    w = data.forcing_world(seq, nystart=1998 + k, thermal_model=KINDS[kind].get("thermal_model"), sun=[0.01 * i for i in range(9)],
                           volc=[([-0.1 * (i % 4)] * 12, [-0.2 * (i % 3)] * 12) for i in range(9)], w_aero=[0.05 * i for i in range(9)])
    cfg = data.cfg_forcing(w)
    if kind == "array":
        cfg["forc_data"] = cfg["forc_data"]["total"].to_numpy()
    return w, cfg


def go(kind, w, k, cfg=None, ref_yr=1995):
    """Results in plain form with the years counted from the original ones."""
    em = {"ref_yr": ref_yr + k, "lifetime_mode": "CONSTANT_12" if kind == "const" else "WIGLEY"}
    if kind == "one":
        em["just_one"] = "CH4"
    res = sim.run(w, {"delta_lambda_aero": 0.3}, em, cfg=cfg)
    return shape(res, k)


def shape(res, k):
    snap = sim.snapshot(res)
    for key in list(snap):
        if key.endswith("#index"):
            base = k if len(snap[key]) and min(snap[key]) > 0 else 0  # counted from 0 or by year
            snap[key] = [i - base for i in snap[key]]
        elif key.endswith("|Year"):
            snap[key] = snap[key] - k
    return snap


_BASE = {}


def base(key, make):
    if key not in _BASE:
        if len(_BASE) > 200:
            _BASE.clear()
        _BASE[key] = make()
    return _BASE[key]


def run(case, c):
    t, k = case["t"], case.get("k", 0)
    c.trace()
    if t == "kind":
        kind = case["kind"]
        if kind in ("forc", "forcudm", "array"):
            w, cfg = forcing(kind, 0)
            want = base(kind, lambda: go(kind, w, 0, cfg))
            w2, cfg2 = forcing(kind, k)
            got = go(kind, w2, k, cfg2)
        else:
            w = world(kind)
            want = base(kind, lambda: go(kind, w, 0))
            got = go(kind, moved(w, k), k)
        c.step(8)
        c.state(kind, k)
        sim.same(c, f"moved by {k} years", got, want)
    elif t == "file":
        w = world("em")
        want = base("file", lambda: go("em", w, 0, ref_yr=1998))  # files are cut to the years of the run
        m = moved(w, k)
        keys = [x for key in case["keys"] for x in (ROWS if key == "rows" else [key])]
        got = go("em", m, k, data.cfg_with_files(m, keys, c.tmp()), ref_yr=1998)
        c.step(8)
        c.state(str(keys), k)
        sim.same(c, f"files moved by {k} years", got, want)
    elif t == "win":
        for kind in ("em", "cc"):
            w = world(kind, 1999, case["n"], case["es"])
            want = go(kind, w, 0)
            for k in (-240, -150, -50, -3, -1, 1, 2, 5, 100, 101, 251, 480) if kind == "em" else (-100, 1, 250):
                c.step(case["n"])
                c.state("win", kind, case["n"], case["es"], k)
                c.trace()
                sim.same(c, f"{kind} moved by {k} years", go(kind, moved(w, k), k), want)
    elif t == "century":
        w = sim.century_world(case)
        want = go("em", w, 0, ref_yr=case["y0"])
        for k in (-300, -200, -100, -50, -7, -1, 1, 3, 11, 50, 100, 250, 300, 1000):
            c.step(case["y1"] - case["y0"] + 1)
            c.state("century", case["y0"], case["es"], case["k"], k)
            c.trace()
            sim.same(c, f"moved by {k} years", go("em", moved(w, k), k, ref_yr=case["y0"]), want)
    else:
        names = ["Surface Air Ocean Blended Temperature Change", "Effective Radiative Forcing", "Atmospheric Concentrations|CH4", "Emissions|CH4"]
        frames = []
        for j in (0, k):
            cfg = data.cfg_data(moved(world("em"), j))
            cfg.update(scenname="s", udir="none")
            frames.append(CSCMParWrapper(cfg).run_over_cfgs(
                [{"Index": "0", "pamset_emiconc": {"ref_yr": 1995 + j, "lifetime_mode": "WIGLEY"}}, {"Index": "1", "pamset_udm": {"lambda": 0.7}, "pamset_emiconc": {"ref_yr": 1995 + j, "lifetime_mode": "WIGLEY"}}], names))
        a, b = frames
        years = [x for x in a.columns if not isinstance(x, str)]
        c.step(16)
        c.state("ens", k)
        if c.true(len(a) == len(b) and len(a) > 0 and len(years) == 8, f"{len(a)} and {len(b)} rows over {len(years)} years"):
            c.true([x + k for x in years] == [x for x in b.columns if not isinstance(x, str)], f"years {list(b.columns)}")
            c.close("ensemble", b[[x + k for x in years]].to_numpy(dtype=float), a[years].to_numpy(dtype=float))
