"""Ensembles: every scenario with every configuration, once, as if run alone."""

import concurrent.futures
import concurrent.futures.process
import copy
import functools
import itertools
import os
import sys

import numpy as np
import pandas as pd

import data
import pool
import ref
import sim
from ciceroscm import CICEROSCM
from ciceroscm.parallel._configdistro import _ConfigDistro
from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper, run_ciceroscm_parallel
from ciceroscm.parallel.distributionrun import DistributionRun

ORACLE = "a single run of a new model object for each scenario and configuration, with the quantities read directly from its results; multiset of labels"
BOUNDS = {
    "quick": "1..4 scenarios x 1..6 configurations x 1..9 workers in 1 to 3 completion orders; every completion order for up to 4 jobs; all ordered sequences of 1..3 of 8 configurations (thermal, emission, carbon, response function, single component, none) on 4 kinds of scenarios, with 1 and 2 workers; 9 kinds of scenarios in all ordered pairs; a failing configuration or scenario at every position x workers; variable lists, with an unknown variable at any place; 13 unusual labels; distribution runs; real process pools; up to 101 configurations and 30 scenarios x 7 numbers of workers",
    "thorough": "1..5 scenarios x 1..9 configurations x 1..12 workers; sequences of length 3 with all workers; every completion order for up to 5 jobs",
}
ASSUMPTIONS = ["jobs of the controlled pool get pickled copies of their arguments, as worker processes do"]
BLOCK = 3
META = ["climate_model", "model", "run_id", "scenario", "region", "variable", "unit"]
OBS = {  # variable: (results key, column or None, factor)
    "Surface Air Temperature Change": ("dT_glob_air", None, 1.0),
    "Surface Air Ocean Blended Temperature Change": ("dT_glob", None, 1.0),
    "Heat Content|Ocean": ("OHCTOT", None, 10.0),
    "Heat Content|Ocean|0-700m": ("OHC700", None, 10.0),
    "Effective Radiative Forcing|Anthropogenic": ("Total_forcing", None, 1.0),
    "Effective Radiative Forcing|Anthropogenic|CH4": ("forcing", "CH4", 1.0),
    "Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-radiation Interactions|BC": ("forcing", "BC", 1.0),
    "Atmospheric Concentrations|CO2": ("concentrations", "CO2", 1.0),
    "Atmospheric Concentrations|N2O": ("concentrations", "N2O", 1.0),
    "Atmospheric Concentrations|Montreal Gases|CFC|CFC11": ("concentrations", "CFC-11", 1.0),
    "Emissions|CH4": ("emissions", "CH4", 1.0),
    "Carbon Flux|Ocean": ("carbon cycle", "Ocean carbon flux", 1.0),
}
SHORT = ["Surface Air Ocean Blended Temperature Change", "Atmospheric Concentrations|CO2", "Effective Radiative Forcing|Anthropogenic"]
THERMAL = ["Surface Air Ocean Blended Temperature Change", "Heat Content|Ocean"]
FUNCS = {"rb_coef0": 0.5, "rb_coef1": 0.25, "rb_coef2": 0.25, "rb_tim0": 2.5, "rb_tim1": 10.0, "rb_tim2": 60.0}
CFGS = {
    "none": {"pamset_udm": {}, "pamset_emiconc": {}},
    "udm": {"pamset_udm": {"lambda": 0.9, "mixed": 80.0}, "pamset_emiconc": {}},
    "emi": {"pamset_udm": {}, "pamset_emiconc": {"qbc": 0.05, "lifetime_mode": "WIGLEY"}},
    "carbon": {"pamset_udm": {}, "pamset_emiconc": {}, "pamset_carbon": {"beta_f": 0.45, "mixed_carbon": 60.0}},
    "funcs": {"pamset_udm": {}, "pamset_emiconc": {}, "pamset_carbon": dict(FUNCS)},
    "one": {"pamset_udm": {}, "pamset_emiconc": {"just_one": "CH4"}},
    "all": {"pamset_udm": {"lambda": 0.4}, "pamset_emiconc": {"qo3": 0.4, "ref_yr": 2000}, "pamset_carbon": {"beta_f": 0.12, "solubility_sens": 0.05}},
    "bare": {},
}
BAD = {  # refused by the model
    "function": {"pamset_udm": {}, "pamset_emiconc": {}, "pamset_carbon": {"rb_function": {"coeffs": [0.5, -0.5], "timescales": [1.0, 2.0]}}},
    "component": {"pamset_udm": {}, "pamset_emiconc": {"just_one": "NOSUCH"}},
}
LABELS = ["a.b", "1.5", "ssp2 4.5", 3, 2.5, "", "ø/å", "x|y", "World", 0, -1, "i0", "nan"]
CHEAP = ["two", "two_box", "two_conc", "two_em2", "two_late"]
SCENS = ["em", "em2", "conc", "box", "two", "file", "late", "forc", "idtm"]


def small_gas():
    drop = {"CFC-113", "CH3Br", "CCl4", "HCFC-22", "H-1211", "CF4", "SF6", "NH3"}
    return {g: r for g, r in data.gas_table().items() if g not in drop}


def scen(kind, name, folder=None):
    """Scenario data."""
    parts = kind.split("_")
    a, b = (2001, 2002) if "late" in parts else (2000, 2002)
    kw = {}
    for part in parts:
        kw.update({"conc": {"conc_run": True}, "box": {"carbon_cycle_model": "box"}, "two": {"thermal_model": "twolayer"}, "idtm": {"idtm": 12}}.get(part, {}))
    if kind == "forc":
        w = data.forcing_world([(1.0 + i, 0.5 * i) for i in range(3)], nystart=2000)
        d = data.cfg_forcing(w)
        d["gaspam_data"] = data.df_gas({"gas": data.gas_table()})
    else:
        w = data.make_world(a, b, 2001, gas=small_gas(), **kw)
        if "em2" in parts:
            for y in w["em"]["CO2_FF"]:
                w["em"]["CO2_FF"][y] *= 1.7
                w["em"]["CH4"][y] *= 1.2
        if kind == "file":
            data.add_sunvolc(w)
            d = data.cfg_with_files(w, data.FILE_KEYS, folder)
        else:
            d = data.cfg_data(w)
    d["scenname"] = name
    return d


EM = {"pamset_emiconc": {"ref_yr": 2000}}


def cfg_list(names):
    out = []
    for i, n in enumerate(names):
        cfg = copy.deepcopy({**CFGS, **BAD}[n])
        if "pamset_emiconc" in cfg:
            cfg["pamset_emiconc"].setdefault("ref_yr", 2000)
        cfg["Index"] = f"i{i}"
        out.append(cfg)
    return out


def many(n):
    """n different configurations."""
    return [{"pamset_udm": {"lambda": 0.4 + 0.1 * i}, "pamset_emiconc": {"ref_yr": 2000, "qbc": 0.01 * (i + 1)},
             "pamset_carbon": {"beta_f": 0.2 + 0.03 * i}, "Index": f"n{i}"} for i in range(n)]


@functools.lru_cache(maxsize=4000)
def _alone(kind, cfgkey, folder):
    import json

    cfg = json.loads(cfgkey)
    m = CICEROSCM(scen(kind, "x", folder))
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True}, pamset_udm=cfg.get("pamset_udm"),
           pamset_emiconc=cfg.get("pamset_emiconc"), pamset_carbon=cfg.get("pamset_carbon"))
    out = {}
    for v, (key, col, fac) in OBS.items():
        r = m.results.get(key)
        if r is None or (col is not None and col not in r):
            continue
        out[v] = np.asarray(r if col is None else r[col], dtype=float) * fac
    return out, list(range(m.cfg["nystart"], m.cfg["nyend"] + 1))


def alone(kind, cfg, folder=None):
    import json

    return _alone(kind, json.dumps({k: v for k, v in cfg.items() if k != "Index"}, sort_keys=True), folder)


def cases(tier):
    deep = tier != "quick"
    ns, nc, nw = (5, 9, 12) if deep else (4, 6, 9)
    for s in range(1, ns + 1):
        for k in range(1, nc + 1):
            for w in range(1, nw + 1):
                yield {"t": "sizes", "s": s, "c": k, "w": w}
    for s, k, w in ((1, 2, 2), (1, 3, 3), (1, 4, 4), (2, 1, 2), (2, 2, 4), (3, 1, 3), (3, 1, 2), (4, 1, 2), (2, 2, 3), (1, 4, 3), (4, 2, 3)):
        yield {"t": "orders", "s": s, "c": k, "w": w, "n": 4}
    if deep:
        for s, k, w in ((1, 5, 5), (5, 1, 2), (5, 1, 5)):
            yield {"t": "orders", "s": s, "c": k, "w": w, "n": 5}
    for kind in ("two", "em", "conc", "idtm"):
        for n in (1, 2, 3):
            for seq in itertools.product(CFGS, repeat=n):
                if "bare" in seq and kind != "two":
                    continue
                if n == 3 and not deep and (kind != "two" or len({"carbon", "funcs", "all", "one"} & set(seq)) < 2):
                    continue
                if n == 2 and not deep and kind in ("conc", "idtm") and len({"carbon", "funcs", "all", "one"} & set(seq)) < 2:
                    continue
                yield {"t": "cfgs", "kind": kind, "cfgs": list(seq)}
    for a, b in itertools.product(SCENS, repeat=2):
        yield {"t": "scens", "kinds": [a, b]}
    for n in (1, 2, 3, 4):
        for pos in range(n):
            for bad in BAD:
                for w in (1, 2, 3, 5):
                    for s in (1, 2):
                        yield {"t": "badcfg", "n": n, "pos": pos, "bad": bad, "w": w, "s": s}
    for n in (1, 2, 3):
        for pos in range(n):
            for what in ("gaspam", "unit", "model"):
                for w in (1, 2, 4):
                    yield {"t": "badscen", "n": n, "pos": pos, "what": what, "w": w}
    names = list(OBS)
    for n in (1, 2):
        for sub in itertools.permutations(range(len(names)), n):
            yield {"t": "vars", "vars": [names[i] for i in sub]}
    for form in ("list", "dict"):
        for w in (1, 2, 4):
            yield {"t": "distro", "form": form, "w": w}
    for s, k in ((1, 25), (1, 101), (2, 60), (12, 3), (25, 1), (30, 2)) if not deep else itertools.product((1, 2, 5, 12, 30), (1, 3, 20, 25, 64, 101)):
        for w in (1, 3, 4, 8, 13, 32, 200):
            yield {"t": "big", "s": s, "c": k, "w": w}
    for s, k, w in ((1, 3, 2), (2, 2, 3), (3, 1, 2), (1, 1, 4)):
        yield {"t": "real", "s": s, "c": k, "w": w}
    yield {"t": "defaults"}
    for kind in ("em", "conc", "forc"):
        for seq in itertools.permutations(("none", "carbon", "one"), 2):
            yield {"t": "wrapper", "kind": kind, "cfgs": list(seq)}
    yield {"t": "sameindex"}
    for i in range(len(LABELS)):
        for w in (1, 3):
            yield {"t": "labels", "i": i, "w": w}
    gone = ["Ocean Acidity"]  # a name the model does not know is left out
    for kind in ("two", "two_conc", "two_box", "em"):
        for n in (1, 2, 3):
            for sub in itertools.permutations([*gone, *SHORT, "Carbon Flux|Ocean"], n):
                if (gone[0] in sub or "Carbon Flux|Ocean" in sub) and list(sub) != gone:
                    if n < 3 or kind == "two":
                        yield {"t": "some", "kind": kind, "vars": list(sub)}
    yield {"t": "samename"}


def jobs(case):
    return case["s"] * case["c"]


class FakePool:
    """Stands for the process pool of the ensemble."""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        def stand_in(max_workers=None, *_a, **_k):
            return pool.Pool(self.sched, max_workers)

        # wherever the ensemble takes its pool from
        places = [concurrent.futures, concurrent.futures.process]
        places += [m for n, m in sys.modules.items() if n.startswith("ciceroscm.") and hasattr(m, "ProcessPoolExecutor")]
        self.old = [(m, m.ProcessPoolExecutor) for m in places]
        for m in places:
            m.ProcessPoolExecutor = stand_in
        self.ns = pool.no_sleep()
        self.ns.__enter__()
        return self.sched

    def __exit__(self, *a):
        for m, old in self.old:
            m.ProcessPoolExecutor = old
        self.ns.__exit__()


def ensemble(scens, cfgs, variables, workers, ranks=()):
    sched = pool.Schedule(ranks, isolate=True)
    with FakePool(sched):
        return run_ciceroscm_parallel(scens, cfgs, variables, max_workers=workers), sched


def expect(items, cfgs, variables, folder=None):
    """{(scenario, index, variable): list of (years, values)}"""
    out = {}
    for name, kind in items:
        for cfg in cfgs:
            vals, years = alone(kind, cfg, folder)
            for v in variables:
                if v in vals:
                    out.setdefault((name, cfg["Index"], v), []).append((years, vals[v]))
    return out


UNITS = {"Surface Air": ("K",), "Heat Content": ("ZJ",), "Effective Radiative Forcing": ("W/m^2",), "Carbon Flux": ("Pg C / yr",),
         "Atmospheric Concentrations|CO2": ("ppm",), "Atmospheric Concentrations|N2O": ("ppb",)}


def judge(c, what, df, want):
    c.trace()
    if not isinstance(df, pd.DataFrame):
        c.fail(f"{what}: result is {type(df)}")
        return
    years = [x for x in df.columns if x not in META]
    c.true(set(META) <= set(df.columns), f"{what}: columns {list(df.columns)[:9]}")
    left = {k: list(v) for k, v in want.items()}
    for row in df.to_dict("records"):
        key = (row["scenario"], row["run_id"], row["variable"])
        if key not in left or not left[key]:
            c.fail(f"{what}: unexpected or repeated series {key}")
            return
        ys, vals = left[key].pop(0)
        c.step()
        c.true(row["region"] == "World" and row["model"] == key[0] and str(row["climate_model"]).startswith("CICERO"), f"{what}: labels {row['region']}, {row['model']}")
        for start, units in UNITS.items():
            if key[2].startswith(start):
                c.true(row["unit"] in units, f"{what}: unit {row['unit']} of {key}")
        got = {y: row[y] for y in years if not pd.isna(row[y])}
        if not c.true(sorted(got) == ys, f"{what}: {key} years {sorted(got)[:3]}..{len(got)} instead of {ys[:3]}..{len(ys)}"):
            return
        if not c.close(f"{what}: {key}", [got[y] for y in ys], vals, rtol=1e-9):
            return
    missing = [k for k, v in left.items() if v]
    c.true(not missing, f"{what}: {len(missing)} series missing, first {missing[:2]}")


def run(case, c):
    t = case["t"]
    if t == "sizes":
        items = [(f"s{i}", CHEAP[i]) for i in range(case["s"])]
        cfgs = many(case["c"])
        want = expect(items, cfgs, SHORT)
        for order in ("forward", "backward", "mixed"):
            n = 40
            ranks = {"forward": list(range(n)), "backward": list(range(n))[::-1], "mixed": [(i * 7) % 40 for i in range(n)]}[order]
            if case["w"] == 1 and order != "forward":
                continue
            if order == "forward" and case["w"] > 2:  # the scheduler's other orders are harder
                continue
            df, sched = ensemble([scen(k, s) for s, k in items], cfgs, SHORT, case["w"], ranks)
            c.state("sizes", case["s"], case["c"], case["w"], tuple(sched.finished))
            judge(c, order, df, want)
    elif t == "big":
        names = [f"scen{i}" for i in range(case["s"])]
        cfgs = [{"pamset_udm": {"lambda": 0.8 + 0.01 * i}, "Index": f"n{i}"} for i in range(case["c"])]
        var = SHORT[:1]
        scens, want = [], {}
        for j, s in enumerate(names):
            w = data.forcing_world([(1.0 + j, 0.5), (2.0, 1.0)], nystart=2000, thermal_model="twolayer")
            scens.append({**data.cfg_forcing(w), "gaspam_data": data.df_gas({"gas": data.gas_table()}), "scenname": s})
            for cfg in cfgs:
                out = ref.simulate_forcing(w, cfg["pamset_udm"])
                want[(s, cfg["Index"], var[0])] = [([2000, 2001], [x["dT_glob"] for x in out["thermal"]])]
        df, sched = ensemble(scens, cfgs, var, case["w"], list(range(300))[::-1])
        c.state("big", case["s"], case["c"], case["w"], len(sched.finished))
        judge(c, "big", df, want)
    elif t == "orders":
        items = [(f"s{i}", CHEAP[i]) for i in range(case["s"])]
        cfgs = many(case["c"])
        want = expect(items, cfgs, SHORT[:2])
        for perm in itertools.permutations(range(min(case["n"], jobs(case)))):
            df, sched = ensemble([scen(k, s) for s, k in items], cfgs, SHORT[:2], case["w"], list(perm))
            c.state("orders", case["s"], case["c"], case["w"], tuple(sched.finished))
            judge(c, f"order {perm}", df, want)
    elif t == "cfgs":
        cfgs = cfg_list(case["cfgs"])
        want = expect([("s", case["kind"])], cfgs, SHORT)
        for w in (1, 2)[: len(cfgs)]:
            df, _ = ensemble([scen(case["kind"], "s")], cfgs, SHORT, w)
            judge(c, f"{w} workers", df, want)
    elif t == "wrapper":
        cfgs = cfg_list(case["cfgs"])
        if case["kind"] == "forc":
            for x in cfgs:
                x.pop("pamset_carbon", None)
        names = THERMAL if case["kind"] == "forc" else SHORT
        df = CSCMParWrapper(scen(case["kind"], "s")).run_over_cfgs(cfgs, names)
        judge(c, "wrapper", df, expect([("s", case["kind"])], cfgs, names))
    elif t == "scens":
        folder = c.tmp() if "file" in case["kinds"] else None
        items = [(f"s{i}", k) for i, k in enumerate(case["kinds"])]
        names = THERMAL if "forc" in case["kinds"] else SHORT
        cfgs = cfg_list(["none", "udm"])
        want = expect(items, cfgs, names, folder)
        for w in (1, 3):
            df, _ = ensemble([scen(k, s, folder) for s, k in items], cfgs, names, w, [3, 2, 1, 0])
            judge(c, f"{w} workers", df, want)
    elif t in ("badcfg", "badscen"):
        if t == "badcfg":
            names = ["none"] * case["n"]
            names[case["pos"]] = case["bad"]
            cfgs = cfg_list(names)
            scens = [scen("em", f"s{i}") for i in range(case["s"])]
        else:
            cfgs = cfg_list(["none", "udm"])
            scens = [scen("em", f"s{i}") for i in range(case["n"])]
            bad = scens[case["pos"]]
            if case["what"] == "gaspam":
                del bad["emissions_data"]
            elif case["what"] == "model":
                bad["thermal_model"] = "nosuch"
            else:
                path = os.path.join(c.tmp(), "em.txt")
                data.write_em(data.make_world(1999, 2003, 2001, gas=small_gas()), path, units={"CH4": "Gg"})
                del bad["emissions_data"]
                bad["emissions_file"] = path
        for ranks in ([], [9, 8, 7, 6, 5, 4, 3, 2, 1, 0]):
            c.trace()
            c.raises("an ensemble with a failing run", lambda: ensemble(scens, cfgs, SHORT, case["w"], ranks))
    elif t == "vars":
        cfgs = cfg_list(["none", "all"])
        df, _ = ensemble([scen("em", "s")], cfgs, case["vars"], 2)
        judge(c, "variables", df, expect([("s", "em")], cfgs, case["vars"]))
    elif t == "distro":
        run_ = DistributionRun(_ConfigDistro({"lambda": [0.5, 1.0], "beta_f": [0.2, 0.3], "qbc": [0.01, 0.02]}, {"ref_yr": 2000}), numvalues=3)
        sch = pool.Schedule([3, 2, 1, 0], isolate=True)
        with FakePool(sch):
            one = scen("em", "s")
            df = run_.run_over_distribution(one if case["form"] == "dict" else [one], SHORT, max_workers=case["w"])
        judge(c, "distribution", df, expect([("s", "em")], run_.cfgs, SHORT))
    elif t == "real":
        items = [(f"s{i}", ("em", "two", "conc")[i]) for i in range(case["s"])]
        cfgs = many(case["c"])
        df = run_ciceroscm_parallel([scen(k, s) for s, k in items], cfgs, SHORT, max_workers=case["w"])
        judge(c, "real pool", df, expect(items, cfgs, SHORT))
    elif t == "defaults":
        _w, cfg = data.real_world()
        for k in ("nystart", "nyend", "emstart"):
            del cfg[k]
        m = CICEROSCM({**cfg, "nystart": 1750, "nyend": 2100, "emstart": 1850})
        m._run({"results_as_dict": True})
        df, _ = ensemble([{**cfg, "scenname": "s"}], [{"pamset_udm": {}, "pamset_emiconc": {}, "Index": "0"}], SHORT, 1)
        want = {("s", "0", v): [(list(range(1750, 2101)), np.asarray(m.results[OBS[v][0]] if OBS[v][1] is None else m.results[OBS[v][0]][OBS[v][1]]))] for v in SHORT}
        judge(c, "defaults", df, want)
    elif t == "labels":
        cfgs = many(3)
        lab = LABELS[case["i"]]
        cfgs[1]["Index"] = lab
        items = [("s", "two"), (str(lab) or "s1", "two_em2")]
        df, _ = ensemble([scen(k, s) for s, k in items], cfgs, SHORT, case["w"], [3, 2, 1, 0])
        judge(c, f"label {lab!r}", df, expect(items, cfgs, SHORT))
    elif t == "some":
        cfgs = cfg_list(["none", "all"])
        df, _ = ensemble([scen(case["kind"], "s")], cfgs, case["vars"], 2)
        judge(c, "variables", df, expect([("s", case["kind"])], cfgs, case["vars"]))
    elif t == "sameindex":
        cfgs = many(3)
        for x in cfgs:
            x["Index"] = "same"
        one = [cfgs[0]] * 3
        for w in (1, 2, 4):
            df, _ = ensemble([scen("two", "s"), scen("two", "s")], copy.deepcopy(one), SHORT, w)
            judge(c, "the same pair again", df, expect([("s", "two"), ("s", "two")], one, SHORT))
        for w in (1, 2, 3):
            df, _ = ensemble([scen("em", "s")], cfgs, SHORT, w)
            judge(c, "same index", df, expect([("s", "em")], cfgs, SHORT))
    else:
        cfgs = many(2)
        items = [("s", "em"), ("s", "em2")]
        for w in (1, 2):
            df, _ = ensemble([scen(k, s) for s, k in items], cfgs, SHORT[:1], w)
            c.true(len(df) == 4, f"{len(df)} series for two scenarios of one name")
            want = expect(items, cfgs, SHORT[:1])
            got = sorted(float(r[2002]) for r in df.to_dict("records"))
            c.close("same name", got, sorted(float(v[1][-1]) for vs in want.values() for v in vs))
