"""Order of species in the tables, unlisted species and smaller or larger gas tables."""

import itertools

import pandas as pd

from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper

import data
import sim
from common import REMOVABLE

ORACLE = "equality with the run of the same species in the standard order, and with the run of the full gas table for the species kept"
BOUNDS = {
    "quick": "every rotation, adjacent exchange and move to the front or back of the 28 rows of the gas table and of the columns of both other tables, data and files, 3 run kinds; all 120 orders of 5 main species at the front; unlisted species (4 names, every position, 2 tables, data and files); all subsets of 13 removable gases with at most 3 or at least 10 members taken out of all tables or of the gas table only, 2 run kinds; ensembles over every rotation",
    "thorough": "all 2^13 subsets for 4 run kinds, all orders of 6 species, all exchanges of two rows",
}
KINDS = {"box": {"carbon_cycle_model": "box", "thermal_model": "twolayer"}, "conc": {"conc_run": True, "thermal_model": "twolayer"},
         "em": {}, "conc_udm": {"conc_run": True}}
TABLES = ("gaspam", "emissions", "concentrations")
MAIN = ["CO2", "CH4", "BC", "CFC-11", "SO2", "NOx"]
EXTRA = ["FOO", "CFC-12", "HFC125", "BC_ASIA"]
EM = {"ref_yr": 2000, "qnmvoc": 0.01, "qnh3": -0.003}
VARS = ["Surface Air Ocean Blended Temperature Change", "Effective Radiative Forcing", "Effective Radiative Forcing|Aerosols", "Atmospheric Concentrations|CH4",
        "Atmospheric Concentrations|CO2", "Emissions|CO2", "Emissions|CH4", "Emissions|N2O", "Emissions|Sulfur", "Effective Radiative Forcing|CFC11",
        "Atmospheric Concentrations|N2O", "Emissions|SF6", "Atmospheric Concentrations|SF6"]


def subsets(deep):
    for r in range(len(REMOVABLE) + 1):
        if deep or r <= 3 or r >= 10:
            yield from itertools.combinations(range(len(REMOVABLE)), r)


def cases(tier):
    deep = tier != "quick"
    for k in KINDS:
        for tab in TABLES:
            for how in (0, 1):
                n = len(columns(world(k), tab))
                for i in range(n):
                    if k in ("em", "conc_udm") and not deep and (i % 5 or k == "conc_udm"):
                        continue
                    yield {"t": "order", "k": k, "tab": tab, "file": how, "op": "rotate", "i": i}
                    yield {"t": "order", "k": k, "tab": tab, "file": how, "op": "first", "i": i}
                    yield {"t": "order", "k": k, "tab": tab, "file": how, "op": "last", "i": i}
                    yield {"t": "order", "k": k, "tab": tab, "file": how, "op": "swap", "i": i, "j": i + 1}
                    if deep and k == "box":
                        for j in range(i + 2, n):
                            yield {"t": "order", "k": k, "tab": tab, "file": how, "op": "swap", "i": i, "j": j}
                yield {"t": "order", "k": k, "tab": tab, "file": how, "op": "reverse"}
                if tab == "gaspam":
                    continue
                for name in EXTRA:
                    for pos in range(0, n + 1, 1 if deep or k == "box" else 7):
                        yield {"t": "extra", "k": k, "tab": tab, "file": how, "name": name, "pos": pos}
    for perm in itertools.permutations(range(6 if deep else 5)):
        for k in ("box", "conc"):
            yield {"t": "main", "k": k, "perm": list(perm)}
    for s in subsets(deep):
        for k in KINDS if deep else ("box", "conc"):
            yield {"t": "subset", "k": k, "s": list(s), "all": 1}
            if deep or len(s) <= 2 or len(s) >= 12:
                yield {"t": "subset", "k": k, "s": list(s), "all": 0}
    for i in range(len(data.GAS_ROWS)):
        for k in ("box", "conc"):
            yield {"t": "ens", "k": k, "i": i}


def world(k):
    w = data.make_world(nystart=1999, nyend=2003, emstart=2001, **KINDS[k])
    data.add_sunvolc(w)
    return w


def columns(w, tab):
    return list(w[{"gaspam": "gas", "emissions": "em", "concentrations": "conc"}[tab]])


def reorder(names, case):
    op, i = case["op"], case.get("i", 0)
    names = list(names)
    if op == "rotate":
        return names[i:] + names[:i]
    if op == "reverse":
        return names[::-1]
    if op == "swap":
        j = case["j"] % len(names)
        names[i], names[j] = names[j], names[i]
        return names
    g = names.pop(i)
    return [g] + names if op == "first" else names + [g]


def co2_pair(names):
    """In files the first CO2 column is fossil, by definition."""
    i, j = names.index("CO2_FF"), names.index("CO2_AFOLU")
    if i > j:
        names[i], names[j] = names[j], names[i]
    return names


def with_order(w, tab, names):
    key = {"gaspam": "gas", "emissions": "em", "concentrations": "conc"}[tab]
    w[key] = {n: w[key][n] for n in names}


_BASE = {}


def base(k):
    if k not in _BASE:
        _BASE[k] = sim.snapshot(sim.run(world(k), None, EM))
    return _BASE[k]


def compare(c, what, k, cfg, skip=()):
    res = sim.run(None, None, EM, cfg=cfg)
    c.step(5)
    c.trace()
    snap = sim.snapshot(res)
    for key in list(snap):
        if key.endswith("#columns"):
            snap[key] = [x for x in snap[key] if x not in skip]
        if key.split("|")[-1] in skip:
            del snap[key]
    sim.same(c, what, snap, base(k))


def cfg_of(w, c, tab, as_file):
    return data.cfg_with_files(w, [tab], c.tmp()) if as_file else data.cfg_data(w)


def run(case, c):
    t, k = case["t"], case["k"]
    w = world(k)
    if t == "order":
        names = reorder(columns(w, case["tab"]), case)
        if case["tab"] == "emissions" and case["file"]:
            names = co2_pair(names)
        with_order(w, case["tab"], names)
        compare(c, f"other order in {case['tab']}", k, cfg_of(w, c, case["tab"], case["file"]))
    elif t == "main":
        front = [MAIN[i] for i in case["perm"]]
        with_order(w, "gaspam", front + [g for g in w["gas"] if g not in front])
        compare(c, f"gas table starting with {front}", k, data.cfg_data(w))
    elif t == "extra":
        name, tab = case["name"], case["tab"]
        key = "em" if tab == "emissions" else "conc"
        names = columns(w, tab)
        names.insert(case["pos"], name)
        w[key][name] = {y: 1000.0 + 13.0 * y for y in range(data.FIRST, data.LAST + 1)}
        with_order(w, tab, names)
        full = dict(w["gas"])
        w["gas"][name] = dict(w["gas"]["CF4"])  # for the unit line of a file
        cfg = cfg_of(w, c, tab, case["file"])
        w["gas"] = full
        cfg["gaspam_data"] = data.df_gas(w)
        compare(c, f"column for {name}, not in the gas table", k, cfg, skip=(name,))
    elif t == "subset":
        subset(case, c, w)
    else:
        want = ensemble(k, w)
        with_order(w, "gaspam", reorder(list(w["gas"]), {"op": "rotate", "i": case["i"]}))
        got = ensemble(k, w, False)
        c.trace()
        c.true(list(got["variable"]) == list(want["variable"]) and list(got["unit"]) == list(want["unit"]),
               f"variables and units of the ensemble: {list(zip(got['variable'], got['unit']))} instead of {list(zip(want['variable'], want['unit']))}")
        for y in range(1999, 2004):
            c.close(f"ensemble in {y}", got[y].to_numpy(dtype=float), want[y].to_numpy(dtype=float))


_ENS = {}


def ensemble(k, w, keep=True):
    if keep and k in _ENS:
        return _ENS[k]
    out = CSCMParWrapper({**data.cfg_data(w), "scenname": "s"}).run_over_cfgs([{"pamset_emiconc": EM, "Index": "i"}], VARS)
    if not isinstance(out, pd.DataFrame):
        out = out.timeseries()
    if keep:
        _ENS[k] = out
    return out


def subset(case, c, w):
    k = case["k"]
    gone = [REMOVABLE[i] for i in case["s"]]
    c.state(k, tuple(gone), case["all"])
    for g in gone:
        del w["gas"][g]
        if case["all"]:
            w["em"].pop(g, None)
            w["conc"].pop(g, None)
    res = sim.run(w, None, EM)
    c.step(5)
    c.trace()
    snap, full = sim.snapshot(res), base(k)
    conc_run = KINDS[k].get("conc_run")
    hold = {"emissions": set(), "concentrations": set() if conc_run else {"CO2"},
            "forcing": {"STRAT_O3", "Total_forcing"} | (set() if conc_run else {"CO2", "CH4", "N2O"})}
    for table, free in hold.items():
        for name in res[table].columns:
            if name in free or (table == "emissions" and name in gone):
                continue
            c.close(f"{table} of {name} without {gone}", snap[f"{table}|{name}"], full[f"{table}|{name}"])
        missing = {x for x in full[f"{table}|#columns"] if x not in gone} - set(snap[f"{table}|#columns"])
        c.true(not missing, f"{table} without {gone}: no results for {sorted(missing)}")
        extra = set(snap[f"{table}|#columns"]) - set(full[f"{table}|#columns"])
        c.true(not extra, f"{table} without {gone}: results for {sorted(extra)}")
        if table != "emissions" or case["all"]:
            left = [g for g in gone if g in snap[f"{table}|#columns"]]
            c.true(not left, f"{table} still has {left}")
