"""Everything the caller passes in, before and after every operation."""

import copy
import itertools
import os

import numpy as np
import pandas as pd

import data
from checks import A01, B01
from ciceroscm import CICEROSCM
from ciceroscm.component_factory_functions import create_carbon_cycle_model, create_thermal_model
from ciceroscm.formattingtools.reformat_cscm_results import CSCMREADER
from ciceroscm.formattingtools.reformat_inputdata_to_cscm_format import COMMONSFILEWRITER
from ciceroscm.input_handler import InputHandler
from ciceroscm.parallel._configdistro import _ConfigDistro
from ciceroscm.parallel._parallel_process import _parallel_process
from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper
from ciceroscm.parallel.distributionrun import DistributionRun
from ciceroscm.pub_utils import make_cl_and_br_dictionaries, make_regional_aerosol_gaspamdata

ORACLE = "a deep fingerprint (types, keys and their order, values, labels, types of columns) of every object handed over, taken before and after the call"
BOUNDS = {
    "quick": "7 kinds of models x 3 layouts of their tables (plain, whole numbers, labelled and of mixed type) x all 128 subsets of 7 optional inputs for 2 kinds and none/each/all for the rest; every one of 25 runs on 14 kinds of models, refused ones included, each followed by 10 more on 5 kinds; ensembles of 1-3 configurations (refused ones included) x 1-3 workers x 9 scenarios; 5 x 5 x 4 distributions with up to 7 numbers of samples and chunk sizes; all single helpers",
    "thorough": "all subsets of optional inputs for all kinds and layouts, every run followed by 25 more on every kind, ensembles of 1-3 configurations from 10",
}
BLOCK = 6
OPT = ("nat_ch4", "nat_n2o", "rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s", "perturb_em", "perturb_forc")
GROUPS = (("nat_ch4",), ("nat_n2o",), ("rf_luc",), ("rf_sun",), ("rf_volc_n", "rf_volc_s"), ("perturb_em",), ("perturb_forc",))
MORE_OPS = {
    "text": {"udm": {"lambda": "high", "mixed": None}, "emi": {"qbc": "no", "nosuch": 1}, "carbon": {"beta_f": "x", "nosuch": 3}},
    "flat2": {"carbon": {"rs_coef0": 0.1, "rs_coef1": 0.6, "rs_coef2": 0.4, "rs_tim0": 0.8, "rs_tim1": 7.0, "rb_coef0": 1.0, "rb_tim0": 9.0, "beta_f": 0.3}},
    "empty": {"udm": {}, "emi": {}, "carbon": {}},
    "array": {"carbon": {"rb_function": {"coeffs": np.array([0.5, 0.5]), "timescales": np.array([3.0, 9.0])}}},
}
OPS = {**A01.OPS, **MORE_OPS}
KINDS = list(A01.KINDS) + ["forc_array", "forc_two", "funcs"]


def fp(x):
    """Deep fingerprint."""
    if isinstance(x, dict):
        return ("dict", type(x).__name__, tuple((repr(k), fp(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fp(v) for v in x))
    if isinstance(x, pd.DataFrame):
        return ("frame", fp(x.index), fp(x.columns), tuple((str(x.dtypes.iloc[j]), tuple(map(repr, x.iloc[:, j].tolist()))) for j in range(x.shape[1])), repr(x.attrs))
    if isinstance(x, pd.Series):
        return ("series", fp(x.index), repr(x.name), str(x.dtype), tuple(map(repr, x.tolist())))
    if isinstance(x, pd.Index):
        return ("index", repr(x.name), str(x.dtype), tuple(map(repr, x.tolist())))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), tuple(map(repr, x.ravel().tolist())))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    return (type(x).__name__, repr(x))


def where(a, b, path=""):
    """First place where two fingerprints differ."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                label = p[0] if isinstance(p, tuple) and p and isinstance(p[0], str) else i
                return where(p, q, f"{path}/{label}")
    return f"{path}: {str(a)[:160]} became {str(b)[:160]}"


class Watch:
    """Objects handed over, with their fingerprints."""

    def __init__(self, c):
        self.c, self.items = c, []

    def add(self, name, obj):
        self.items.append((name, obj, fp(obj)))
        return obj

    def check(self, what):
        self.c.step()
        ok = True
        for i, (name, obj, old) in enumerate(self.items):
            new = fp(obj)
            if new != old:
                ok = False
                self.c.fail(f"{what}: {name} was modified: {where(old, new)}")
                self.items[i] = (name, obj, new)
        return ok

    def call(self, what, fun, *args, **kw):
        """Call, allowed to refuse; everything handed over is looked at afterwards."""
        try:
            out = fun(*args, **kw)
        except Exception:  # noqa: BLE001 - a refusal may not modify anything either
            out = None
        self.c.trace()
        self.check(what)
        return out


def layout(cfg, how):
    """The same inputs in another layout."""
    if how == "whole":
        for k in ("emissions_data", "concentrations_data", "nat_ch4_data", "nat_n2o_data"):
            if k in cfg:
                cfg[k] = cfg[k].round(0).astype(int)
    elif how == "object":
        for k in ("perturb_em_data", "perturb_forc_data"):
            if k in cfg:
                cfg[k] = cfg[k].astype(object)
        for k in ("emissions_data", "concentrations_data"):
            if k in cfg:
                cfg[k].index.name = "Year"
                cfg[k].attrs["source"] = "x"
    return cfg


def config(kind, opts=None, how="plain"):
    if kind == "forc_array":
        w = data.forcing_world([(1.0, 1.0), (2.0, 2.0), (0.5, 0.5)], nystart=1999)
        cfg = data.cfg_forcing(w)
        cfg["forc_data"] = np.array([1.0, 2.0, 0.5])
        return cfg
    if kind == "forc_two":
        return data.cfg_forcing(data.forcing_world([(1.0, 0.5), (2.0, 1.0), (0.5, 3.0)], nystart=1999, thermal_model="twolayer", sun=[0.1, 0.2, 0.3],
                                                   volc=[([-1.0, -2.0], [0.0, -1.0])] * 3))
    if kind == "funcs":
        cfg = A01.config("two")
        cfg["rb_function"] = copy.deepcopy(A01.RB)
        cfg["rs_function"] = copy.deepcopy(A01.RS)
        return cfg
    if opts is None:
        return A01.config(kind)
    kw = dict(A01.KINDS[kind])
    for k in ("sun", "pert", "regional"):
        kw.pop(k, None)
    w = data.add_sunvolc(data.make_world(2000, 2002, 2001, gas=A01.small_gas(), **kw))
    w["perturb_em"] = [["CH4", 2001, 30.0], ["CO2", 2000, 2.0], ["CH4", 2001, 1.5]]
    w["perturb_forc"] = [["CH4", 2001, 0.3], ["CFC-11", 2002, 0.2], ["SO2", 2000, -0.2], ["CH4", 2001, 0.1]]
    cfg = data.cfg_data(w)
    for k in OPT:
        if k not in opts:
            cfg.pop(k + "_data", None)
    if not {"rf_sun", "rf_volc_n"} & set(opts):
        cfg.pop("sunvolc", None)
    return layout(cfg, how)


DISTROS = {
    "none": None,
    "thermal": {"lambda": [0.5, 1.0], "mixed": [50.0, 100.0]},
    "mixed": {"lambda": [0.5, 1.0], "beta_f": [0.2, 0.3], "qbc": (0.01, 0.02), "rb_coef0": [0.4, 0.6], "rb_coef1": [0.3, 0.4]},
    "odd": {"lambda": [0.5, 1.0], "qbc": [0.01], "beta_f": "x"},
    "swapped": {"lambda": [1.0, 0.5], "akapa": np.array([0.3, 0.6])},
}
SETS = {"none": None, "empty": {}, "year": {"ref_yr": 2000}, "both": {"lambda": 0.7, "beta_f": 0.25, "qo3": 0.4}, "fun": {"rb_function": copy.deepcopy(A01.RB), "threstemp": 7}}
OPTIONS = {"none": None, "forc": {"forc": True}, "gauss": {"method": "gaussian", "forc": False}, "empty": {}}


def cases(tier):
    deep = tier != "quick"
    subsets = [list(itertools.chain.from_iterable(g for g, on in zip(GROUPS, bits) if on)) for bits in itertools.product((0, 1), repeat=len(GROUPS))]
    small = [s for s in subsets if len(s) in (0, 8) or any(list(g) == s for g in GROUPS)]
    for kind in ("em", "conc", "two", "box", "two_box", "conc_two", "idtm"):
        for how in ("plain", "whole", "object"):
            for s in subsets if deep or (kind in ("em", "conc_two") and how != "whole") else small:
                yield {"t": "build", "k": kind, "opts": s, "how": how}
    for kind in KINDS:
        for op in OPS:
            yield {"t": "run", "k": kind, "op": op, "then": sorted(OPS) if deep else A01.CORE}
    names = list(B01.CFGS) + list(B01.BAD)
    for kind in B01.SCENS:
        for n in (1, 2, 3):
            for seq in itertools.product(names, repeat=n):
                if n == 3 and not (deep and kind in ("two", "em")):
                    continue
                if n == 2 and not deep and kind not in ("two", "em"):
                    continue
                yield {"t": "ens", "kind": kind, "cfgs": list(seq)}
    for kinds in itertools.permutations(("two", "em2", "conc", "forc"), 2):
        for w in (1, 2, 3):
            yield {"t": "ens2", "kinds": list(kinds), "w": w}
    for d, s, o in itertools.product(DISTROS, SETS, OPTIONS):
        yield {"t": "distro", "d": d, "s": s, "o": o}
    for t in ("regional", "clbr", "reader", "writer", "thermal", "carbon", "handler", "files", "map"):
        yield {"t": t}


def go(w, m, op, folder, rf=False):
    """One run with everything handed over watched."""
    o = OPS[op]
    out = dict(o.get("out", A01.DICT))
    if o.get("files"):
        out.update(output_folder=folder, output_prefix="x")
    pams = {"pamset_udm": copy.deepcopy(o.get("udm")), "pamset_emiconc": copy.deepcopy(o.get("emi")), "pamset_carbon": copy.deepcopy(o.get("carbon"))}
    w.add(f"output options of {op}", out)
    for k, v in pams.items():
        w.add(f"{k} of {op}", v)
    w.call(f"run {op}", m._run, out, **pams)


def run(case, c):
    t = case["t"]
    folder = c.tmp()
    w = Watch(c)
    c.state(t, repr(case))
    if t == "build":
        cfg = w.add("configuration", config(case["k"], case["opts"], case["how"]))
        w.call("input handler", InputHandler, cfg)
        m = w.call("construction", CICEROSCM, cfg)
        if not c.true(m is not None, "construction failed"):
            return
        go(w, m, "plain", folder)
        go(w, m, "emi", folder)
    elif t == "run":
        cfg = w.add("configuration", config(case["k"]))
        m = w.call("construction", CICEROSCM, cfg)
        go(w, m, case["op"], folder)
        for b in case["then"] if case["k"] in ("two", "two_box", "conc_two", "forc", "funcs") or len(case["then"]) > 10 else ("plain",):
            if b == "files" and case["op"] == "files":
                continue
            go(w, m, b, folder)
            c.state(case["k"], case["op"], b)
            if c.fails:
                return
            w.items = w.items[:-4] if len(w.items) > 30 else w.items
    elif t == "ens":
        cfgs = w.add("configurations", B01.cfg_list(case["cfgs"]))
        variables = w.add("variables", list(B01.THERMAL if case["kind"] == "forc" else B01.SHORT))
        scens = w.add("scenarios", [B01.scen(case["kind"], "s", folder)])
        for workers in (1, 2)[: len(cfgs)]:
            w.call(f"ensemble, {workers} workers", B01.ensemble, scens, cfgs, variables, workers)
        one = w.add("scenario", B01.scen(case["kind"], "s", folder))
        try:
            par = CSCMParWrapper(one)
        except Exception:  # noqa: BLE001
            par = None
        w.check("wrapper")
        if par is not None:
            w.call("wrapper run", par.run_over_cfgs, cfgs, variables)
    elif t == "ens2":
        scens = w.add("scenarios", [B01.scen(k, f"s{i}", folder) for i, k in enumerate(case["kinds"])])
        variables = w.add("variables", list(B01.THERMAL))
        for cfgs in (B01.cfg_list(["none", "carbon", "all"]), B01.many(5), B01.cfg_list(["funcs"])):
            w.add("configurations", cfgs)
            w.call("ensemble", B01.ensemble, scens, cfgs, variables, case["w"], [3, 2, 1, 0])
    elif t == "distro":
        d, s, o = copy.deepcopy(DISTROS[case["d"]]), copy.deepcopy(SETS[case["s"]]), copy.deepcopy(OPTIONS[case["o"]])
        for n, x in (("distribution", d), ("fixed values", s), ("options", o)):
            w.add(n, x)
        dist = w.call("distribution", _ConfigDistro, d, s, o)
        if dist is None:
            return
        meta = w.add("meta information", {"a": [1, {"b": 2}], "c": "x"})
        for i, (n, chunk) in enumerate(((1, None), (2, 1), (5, 2), (3, 3), (4, 9))):
            path = os.path.join(folder, f"d{i}.json")
            lists = w.call("lists", dist.make_config_lists, n, json_fname=path, indexer_pre="p", max_chunk_size=chunk, meta_info=meta)
            if lists is None:
                continue
            w.add(f"lists {i}", lists)
            # what is done with one list later may not show in what was given
            for cfg in lists if chunk is None or chunk > n else lists[0]:
                cfg = copy.deepcopy(cfg)
        run_ = w.call("distribution run", DistributionRun, dist, numvalues=3)
        if run_ is not None:
            w.add("configurations of the run", run_.cfgs)
            w.call("writing", run_.write_configs_to_json, os.path.join(folder, "w.json"), meta)
            if case["d"] in ("thermal", "mixed") and case["o"] in ("none", "forc"):
                scen = w.add("scenario", B01.scen("two" if case["o"] == "none" else "forc", "s"))
                names = w.add("variables", list(B01.THERMAL))
                sched = B01.pool.Schedule([2, 1, 0], isolate=True)
                with B01.FakePool(sched):
                    w.call("run over distribution", run_.run_over_distribution, scen, names, max_workers=2)
    elif t == "regional":
        rf = pd.DataFrame({"SO2": [-0.1, -0.2], "BC": [0.3, 0.4], "OC": [-0.5, -0.6]}, index=["EAS", "NAM"])
        for cols in itertools.chain.from_iterable(itertools.combinations(rf.columns, n) for n in (1, 2, 3)):
            for mapping in ({"ASIA": "EAS"}, {"OECD": "NAM", "ASIA": "EAS"}, {"A": "EAS", "B": "EAS"}):
                for gas in (data.df_gas({"gas": data.gas_table()}), data.df_gas({"gas": data.gas_table()}).astype(object)):
                    w = Watch(c)
                    w.add("gas table", gas)
                    part = w.add("efficiencies", rf[list(cols)].copy())
                    w.add("mapping", mapping)
                    for conv in (1e9, 1.0):
                        out = w.call("regional table", make_regional_aerosol_gaspamdata, gas, part, reg_mapping=mapping, unit_conversion=conv)
                        c.true(out is not None, "regional table failed")
        full = pd.DataFrame({"SO2": [-0.1] * 5}, index=["EAS", "SAM", "NAF", "NAM", "RBU"])
        w = Watch(c)
        gas = w.add("gas table", data.df_gas({"gas": data.gas_table()}))
        w.add("efficiencies", full)
        c.true(w.call("regional table", make_regional_aerosol_gaspamdata, gas, full) is not None, "regional table failed")
    elif t == "clbr":
        for fname in data.GAS_FILES:
            idx = list(data.parse_gas(os.path.join(data.TEST_DATA, fname)))
            for form in (idx, pd.Index(idx), np.array(idx), tuple(idx)):
                w = Watch(c)
                w.add("names", form)
                w.call("chlorine and bromine", make_cl_and_br_dictionaries, form)
    elif t == "reader":
        for kind in ("em", "conc", "two", "box", "sun"):
            m = CICEROSCM(A01.config(kind))
            m._run(dict(A01.DICT))
            w = Watch(c)
            w.add("results", m.results)
            reader = CSCMREADER(2000, 2002)
            for v in B01.OBS:
                w.call(f"reading {v}", reader.get_variable_timeseries, m.results, v)
            for v in ("Emissions|F-Gases", "Emissions|Montreal Gases", "Effective Radiative Forcing|F-Gases", "Effective Radiative Forcing|Aerosols", "nosuch",
                      "Effective Radiative Forcing", "Effective Radiative Forcing|Solar", "Effective Radiative Forcing|Volcanic", "Emissions|CO2", "Emissions|CH4",
                      "Effective Radiative Forcing|Anthropogenic", "Atmospheric Concentrations|N2O", "Heat Content|Ocean", "Airborne fraction CO2", "Biosphere carbon flux"):
                w.call(f"reading {v}", reader.get_variable_timeseries, m.results, v)
    elif t == "writer":
        for gas in (data.df_gas({"gas": data.gas_table()}), data.df_gas({"gas": data.gas_table()}).astype(object)):
            w = Watch(c)
            w.add("gas table", gas)
            out = w.call("writer", COMMONSFILEWRITER, gas)
            c.true(out is not None, "writer failed")
    elif t == "thermal":
        for model, pams in (("default", [None, {}, {"lambda": 0.9, "lm": 20, "ldtime": 6}, {"lambda": "x", "nosuch": 1}, {"threstemp": 0}]),
                            ("twolayer", [None, {}, {"lambda": 0.9, "mixed": 80.0}, {"lambda": "x", "nosuch": 1}])):
            for p in pams:
                for n in (1, 2, 12, 24):
                    w = Watch(c)
                    pam = w.add("parameters", copy.deepcopy(p))
                    m = w.call("thermal model", create_thermal_model(model), pam)
                    vn, vs = w.add("northern volcanic", np.linspace(-1, 0, n)), w.add("southern volcanic", np.linspace(-3, -1, n))
                    held = []
                    for share in (0.2, 0.0, 0.7):
                        w.call("feedback", m.set_feedback_gregory, share)
                        out = w.call("energy budget", m.energy_budget, 1.0, 0.5, vn, vs)
                        held.append(out)
                        w.add("output", out)
    elif t == "carbon":
        em = {"idtm": 6, "nystart": 2000, "nyend": 2003}
        for model in ("default", "box"):
            for p in (None, {}, {"beta_f": 0.4, "mixed_carbon": 60.0}, {"rb_function": copy.deepcopy(A01.RB), "rs_function": copy.deepcopy(A01.RS)}, dict(A01.FLAT),
                      {"beta_f": "x", "nosuch": 2, "preindustrial_co2_conc": 270.0}):
                w = Watch(c)
                e, pam = w.add("model parameters", dict(em)), w.add("carbon parameters", copy.deepcopy(p))
                m = w.call("carbon model", create_carbon_cycle_model, model, e, pam)
                fb = w.add("feedbacks", {"dtemp": 0.3})
                for yr in range(2000, 2004):
                    w.call("year", m.co2em2conc, yr, 8.0, feedback_dict=fb)
                ser = w.add("concentrations", np.array([280.0, 282.0, 283.0, 281.0]))
                fbs = w.add("feedback series", {"dtemp": np.array([0.0, 0.1, 0.2, 0.3])})
                w.call("back calculation", m.back_calculate_emissions, ser, feedback_dict_series=fbs)
                w.call("outputs", m.get_carbon_cycle_output, np.arange(2000, 2004), conc_series=ser, feedback_dict_series=fbs)
                for p2 in (None, {"beta_f": 0.2}, {"rb_function": copy.deepcopy(A01.RB)}, dict(A01.FLAT), {"rb_function": {"coeffs": [1.0], "timescales": [1.0, 2.0]}}):
                    q = w.add("new carbon parameters", p2)
                    w.call("reset", m.reset_co2_hold, q)
                    w.call("year", m.co2em2conc, 2000, 8.0, feedback_dict=fb)
    elif t == "handler":
        for kind in KINDS:
            w = Watch(c)
            cfg = w.add("configuration", config(kind))
            ih = w.call("input handler", InputHandler, cfg)
            for what in ("gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s", "perturb_em", "perturb_forc", "forc"):
                w.call(f"reading {what}", ih.get_data, what)
            ms = [w.call("construction", CICEROSCM, cfg) for _ in range(2)]
            for m in ms:
                go(w, m, "plain", folder)
                go(w, m, "carbon", folder)
    elif t == "files":
        for kind in ("em", "conc", "forc", "sun"):
            w = Watch(c)
            cfg = w.add("configuration", config(kind))
            m = w.call("construction", CICEROSCM, cfg)
            for out in ({"output_folder": folder, "output_prefix": "q", "carbon_cycle_outputs": True}, {"output_folder": folder}, {"output_folder": folder, "output_prefix": "r"}):
                w.add("options", out)
                w.call("files", m._run, out)
            out = w.add("options", {"output_folder": os.path.join(folder, "new", "deep"), "output_prefix": "q", "results_as_dict": False})
            w.call("new folder", m._run, out)
            out = w.add("options", {"output_folder": folder, "output_prefix": "p"})
            w.call("plots", m._run, out, make_plot=True)
    else:
        jobs = [{"x": [i]} for i in range(4)]
        w.add("jobs", jobs)
        kw = [{"configs": jobs, "config_are_kwargs": True}, {"configs": jobs}]
        for k in kw:
            for front in (0, 1, 9):
                w.call("map", _parallel_process, func=(_kw if k.get("config_are_kwargs") else _pos), desc="d", front_serial=front, front_parallel=0, pool=None, **k)


def _kw(x):
    return x[0]


def _pos(cfg):
    return cfg["x"][0]
