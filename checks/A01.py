"""Histories of runs on one model object."""

import copy
import itertools
import os

import numpy as np
import pandas as pd

import data
import sim
from ciceroscm import CICEROSCM

ORACLE = "the last run of the history repeated on a newly made model object of the same configuration, with the carbon cycle parameters given so far"
BOUNDS = {
    "quick": "all ordered histories of 2 runs over 21 runs for 4 kinds of models and over 21 x 10 runs for 7 more; all histories of 3 runs over 10 runs for 2 kinds; every run repeated 5 times; 5 histories of 16 to 42 runs for every kind; two objects used in turn; results handed out earlier compared after each later run",
    "thorough": "all histories of 3 runs over 21 runs for 4 kinds, of 4 runs over 7 runs for 2 kinds",
}
BLOCK = 6
RB = {"coeffs": [0.5, 0.25, 0.25], "timescales": [2.5, 10.0, 60.0]}
RS = {"coeffs": [0.1, 0.6, 0.15, 0.15], "timescales": [0.8, 7.0, 80.0]}
FLAT = {"rb_coef0": 0.7, "rb_coef1": 0.3, "rb_tim0": 5.0, "rb_tim1": 30.0}
DICT = {"results_as_dict": True, "carbon_cycle_outputs": True}
OPS = {
    "plain": {},
    "udm": {"udm": {"lambda": 0.9, "mixed": 80.0, "akapa": 0.5}},
    "udm2": {"udm": {"delta_lambda_aero": 1.5, "ocean_efficacy": 0.8, "threstemp": 0, "W": 1.0, "beto": 0.0, "foan": 0.4, "k": 0.9, "deep": 900.0}},
    "grid": {"udm": {"lm": 20, "ldtime": 6, "mixed": 120.0}},
    "emi": {"emi": {"qbc": 0.05, "qo3": 0.3, "qdirso2": -0.006, "qnox": 0.01, "qbmb": 0.3, "ref_yr": 2001}},
    "life": {"emi": {"lifetime_mode": "WIGLEY"}},
    "life12": {"emi": {"lifetime_mode": "CONSTANT_12"}},
    "one": {"emi": {"just_one": "CH4"}},
    "one_gas": {"emi": {"just_one": "CFC-11"}},
    "one_aer": {"emi": {"just_one": "SO4_IND", "qindso2": -0.03}},
    "years": {"emi": {"nystart": 1990, "nyend": 2012, "emstart": 1995, "idtm": 6, "conc_run": "x"}},
    "carbon": {"carbon": {"beta_f": 0.45, "mixed_carbon": 60.0, "ocean_exchange_rate": 0.2, "land_temp_sensitivity": 0.5}},
    "carbon2": {"carbon": {"beta_f": 0.12, "solubility_sens": 0.05, "ml_fracmax": 0.3, "t_half": 0.3, "ml_depth_min": 74.9}},
    "preind": {"carbon": {"preindustrial_co2_conc": 270.0}},
    "flat": {"carbon": dict(FLAT)},
    "dicts": {"carbon": {"rb_function": RB, "rs_function": RS}},
    "nocarbon": {"out": {"results_as_dict": True}},
    "files": {"out": {"carbon_cycle_outputs": True}, "files": True},
    "badfun": {"carbon": {"beta_f": 0.3, "rb_function": {"coeffs": [0.5, -0.5], "timescales": [1.0, 2.0]}}, "bad": True},
    "badone": {"emi": {"just_one": "NOSUCH", "qbc": 0.1}, "udm": {"lambda": 2.0}, "bad": True},
    "badudm": {"udm": {"lambda": 0.0, "lm": 2}, "emi": {"lifetime_mode": "WIGLEY", "qo3": 0.1}, "bad": True},
}
CORE = ["plain", "udm2", "emi", "one_gas", "carbon", "carbon2", "flat", "dicts", "badfun", "files"]
CORE7 = ["plain", "emi", "one", "carbon", "flat", "dicts", "badone"]
KINDS = {
    "em": {}, "conc": {"conc_run": True}, "two": {"thermal_model": "twolayer"}, "box": {"carbon_cycle_model": "box"},
    "two_box": {"thermal_model": "twolayer", "carbon_cycle_model": "box"}, "conc_two": {"conc_run": True, "thermal_model": "twolayer"},
    "sun": {"sun": True, "thermal_model": "twolayer"}, "pert": {"pert": True, "thermal_model": "twolayer"}, "idtm": {"idtm": 6, "thermal_model": "twolayer"},
    "forc": {}, "regional": {"regional": True, "thermal_model": "twolayer"},
}
CHEAP = ("two_box", "idtm", "conc_two")


def small_gas():
    drop = {"CFC-113", "CH3Br", "CCl4", "HCFC-22", "CF4", "SF6", "NH3"}
    return {g: r for g, r in data.gas_table().items() if g not in drop}


def config(kind):
    kw = dict(KINDS[kind])
    if kind == "forc":
        w = data.forcing_world([(1.0, 0.5), (2.0, 1.0), (0.5, 3.0), (-1.0, 0.0)], nystart=1999, w_aero=[0.1, 0.3, 0.2, 0.0])
        return data.cfg_forcing(w)
    sun, pert, reg = kw.pop("sun", 0), kw.pop("pert", 0), kw.pop("regional", 0)
    gas = small_gas()
    if reg:
        for name, alpha in (("SO2_A", -0.004), ("BC_A", 0.03), ("BC_B", 0.02)):
            gas[name] = {**gas[name[:2] if name[0] == "B" else "SO2"], "ALPHA": alpha}
    w = data.make_world(2000, 2002, 2001, gas=gas, **kw)
    if sun:
        data.add_sunvolc(w)
    if pert:
        w["perturb_em"] = [["CH4", 2001, 30.0], ["CO2", 2000, 2.0]]
        w["perturb_forc"] = [["CH4", 2001, 0.3], ["CFC-11", 2002, 0.2], ["SO2", 2000, -0.2]]
    return data.cfg_data(w)


def cases(tier):
    deep = tier != "quick"
    for kind in KINDS:
        for a in OPS:
            if kind == "forc" and ("emi" in OPS[a] or "carbon" in OPS[a]):
                continue
            yield {"t": "h", "k": kind, "first": a, "full": deep or kind in ("two", "box", "em", "forc")}
            yield {"t": "rep", "k": kind, "op": a}
    if deep:
        for kind in ("two", "em", "two_box", "conc"):
            for a, b in itertools.product(OPS, repeat=2):
                yield {"t": "h3", "k": kind, "a": a, "b": b, "ops": "all"}
        for kind in ("two", "two_box"):
            for a, b, d in itertools.product(CORE7, repeat=3):
                yield {"t": "h4", "k": kind, "p": [a, b, d]}
    else:
        for kind in ("two", "conc_two"):
            for a, b in itertools.product(CORE, repeat=2):
                yield {"t": "h3", "k": kind, "a": a, "b": b, "ops": "core"}
    for kind in KINDS:
        for way in range(5):
            yield {"t": "long", "k": kind, "way": way}
    for k1, k2 in itertools.combinations(("em", "two", "conc", "box", "forc"), 2):
        yield {"t": "turns", "ks": [k1, k2]}


def carry(carbon, op, kind):
    """Carbon parameters in force after a run."""
    if OPS[op].get("bad"):
        # the box carbon cycle reads no response functions and so does not refuse them
        return {**carbon, "beta_f": OPS[op]["carbon"]["beta_f"]} if "box" in kind and op == "badfun" else carbon
    new = dict(carbon)
    for k, v in (OPS[op].get("carbon") or {}).items():
        fam = k[:3] if k[:3] in ("rb_", "rs_") else None
        if fam and (k.endswith("function") or k == fam + "coef0"):
            new = {x: y for x, y in new.items() if not x.startswith(fam)}
        new[k] = v
    return new


def perform(m, op, folder, carbon=None, rf=False):
    """Run op on m; its results, with files read back."""
    o = OPS[op]
    out = dict(o.get("out", DICT))
    if o.get("files"):
        out.update(output_folder=folder, output_prefix="x")
    cp = o.get("carbon") if carbon is None else carbon
    kw = {"pamset_udm": copy.deepcopy(o.get("udm")), "pamset_emiconc": copy.deepcopy(o.get("emi")), "pamset_carbon": copy.deepcopy(cp) or None}
    if rf:
        kw = {"pamset_udm": kw["pamset_udm"]}
    if o.get("bad"):
        try:
            m._run(out, **kw)
        except Exception:  # noqa: BLE001 - meant to fail, or not to matter
            pass
        return None
    m._run(out, **kw)
    snap = sim.snapshot(m.results)
    if o.get("files"):
        for f in sorted(os.listdir(folder)):
            df = pd.read_csv(os.path.join(folder, f), sep="\t")
            for col in df.columns:
                snap[f"file {f}|{col}"] = df[col].to_numpy(dtype=float)
            os.remove(os.path.join(folder, f))
    return snap


_FRESH = {}


def fresh(kind, op, carbon, folder):
    key = (kind, op, repr(sorted(carbon.items())))
    if key not in _FRESH:
        if len(_FRESH) > 3000:
            _FRESH.clear()
        _FRESH[key] = perform(CICEROSCM(config(kind)), op, folder, carbon=carbon, rf=kind == "forc")
    return _FRESH[key]


def possible(kind, ops):
    # in a single component run with the carbon sets there is nothing special; all can be combined
    return not (kind == "forc" and any("emi" in OPS[o] or "carbon" in OPS[o] for o in ops))


def history(c, kind, ops, folder, all_steps=False):
    m = CICEROSCM(config(kind))
    carbon, held = {}, []
    for i, op in enumerate(ops):
        snap = perform(m, op, folder, rf=kind == "forc")
        carbon = carry(carbon, op, kind)
        c.step()
        c.state(kind, tuple(ops[: i + 1]))
        for j, (res, old) in enumerate(held if all_steps else []):
            sim.same(c, f"results of run {j} of {ops[: i + 1]} afterwards", sim.snapshot(res), old)
        if snap is None:
            continue
        held.append((m.results, {k: v for k, v in snap.items() if not k.startswith("file ")}))
        if all_steps or i == len(ops) - 1:
            c.trace()
            sim.same(c, f"run {i} of {ops[: i + 1]}", snap, fresh(kind, op, carbon, folder))
    return m


def run(case, c):
    folder = c.tmp()
    t = case["t"]
    if t == "h":
        for b in OPS if case["full"] else CORE:
            if possible(case["k"], [case["first"], b]) and not OPS[b].get("bad"):
                history(c, case["k"], [case["first"], b], folder, all_steps=b == "plain")
    elif t == "rep":
        if OPS[case["op"]].get("bad"):
            history(c, case["k"], [case["op"]] * 4 + ["plain"], folder, all_steps=True)
        else:
            history(c, case["k"], [case["op"]] * 5, folder, all_steps=True)
    elif t == "long":
        ops = [o for o in OPS if possible(case["k"], [o])]
        n = len(ops)
        seq = [ops, ops[::-1], [ops[5 * i % n if n % 5 else 3 * i % n] for i in range(n)], ["plain"] * 16, [x for o in ops for x in (o, "plain")]][case["way"]]
        history(c, case["k"], seq, folder, all_steps=True)
    elif t == "h3":
        for d in CORE if case["ops"] == "core" else OPS:
            if not OPS[d].get("bad"):
                history(c, case["k"], [case["a"], case["b"], d], folder)
    elif t == "h4":
        for d in CORE7:
            if not OPS[d].get("bad"):
                history(c, case["k"], [*case["p"], d], folder)
    else:
        a, b = case["ks"]
        for seq in (["plain", "udm", "files"], ["udm2", "grid", "plain"], ["emi", "carbon", "one"], ["dicts", "flat", "plain"]):
            seqs = {k: [o for o in seq if possible(k, [o])] for k in (a, b)}
            ms = {k: CICEROSCM(config(k)) for k in (a, b)}
            carb = {k: {} for k in (a, b)}
            for i in range(3):
                for k in (a, b):
                    if i < len(seqs[k]):
                        op = seqs[k][i]
                        snap = perform(ms[k], op, folder, rf=k == "forc")
                        carb[k] = carry(carb[k], op, k)
                        c.step()
                        c.trace()
                        sim.same(c, f"{k} run {i} of {seqs[k]} in turn with {b if k == a else a}", snap, fresh(k, op, carb[k], folder))
