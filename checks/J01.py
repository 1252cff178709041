"""Every parameter left out, given as its default, given otherwise, given wrongly, and strangers."""

import copy
import itertools

import numpy as np

import data
import ref
import sim
from checks import common
from ciceroscm import CICEROSCM

ORACLE = "reference model with the documented defaults, and the same run with the parameter left out or given as its default"
BOUNDS = {
    "quick": "every parameter of both thermal models, both carbon cycles and the emission/concentration part: left out, default in every number type, every alphabet value in every number type against the reference, 9 non-numeric values, left out while all others are given; all pairs of parameters given as defaults and all pairs at non-default values with one of them foreign; every parameter of every other part and 7 made-up names as strangers in every set; configuration: all subsets of 7 defaulted entries",
    "thorough": "all triples of parameters given as defaults or not, all pairs of alphabet values against the reference",
}
BLOCK = 8
WRONG = ["high", "", None, [1.0], (0.5, 2.0), {"a": 1}, "0.9", 1j, b"1"]
MADE_UP = {"nosuch": 3.0, "Lambda": 0.1, "LAMBDA": 0.1, "lambda ": 0.1, "mixed2": 10.0, "q": 1.0, "": 5.0}
WHOLE = ("lm", "ldtime", "ref_yr")
SETS = {
    "udm": (ref.UDM_DEFAULT, common.UDM_VALUES), "two": (ref.TWO_DEFAULT, common.TWO_VALUES), "emi": (ref.EMICONC_DEFAULT, common.EMICONC_VALUES),
    "carbon": (ref.CARBON_DEFAULT, common.CARBON_VALUES), "box": (ref.BOX_DEFAULT, common.BOX_VALUES),
}
ARG = {"udm": "udm", "two": "udm", "emi": "emiconc", "carbon": "carbon", "box": "carbon"}


def world(part):
    if part in ("udm", "two"):
        return data.forcing_world([(3.0, 1.0), (1.0, 4.0), (-2.0, 0.5), (2.5, 2.5)], nystart=2000, thermal_model="twolayer" if part == "two" else None,
                                  volc=[([-1.0, 0.0] * 6, [0.5] * 12)] * 4, sun=[0.1, -0.1, 0.2, 0.0], w_aero=[0.3, 0.0, 0.6, 0.1])
    kw = {"thermal_model": "twolayer"}
    if part == "box":
        kw["carbon_cycle_model"] = "box"
    gas = {g: r for g, r in data.gas_table().items() if g not in ("CFC-113", "CH3Br", "CCl4", "HCFC-22", "CF4", "SF6")}
    return data.make_world(2008, 2011, 2009, gas=gas, **kw)


_W = {}


def base(part):
    if part not in _W:
        _W[part] = world(part)
    return _W[part]


def default(part, p):
    if p == "preindustrial_co2_conc":
        w = base(part)
        return w["conc"]["CO2"][w["nystart"]]
    return SETS[part][0][p]


def values(part, p):
    vals = SETS[part][1].get(p, [])
    if p == "ref_yr":
        return [2008, 2009, 2011]
    return vals


def names(part):
    ns = [p for p in SETS[part][0] if p != "lifetime_mode"]
    return ns


def run_part(part, pam, extra=None):
    """A run with pam for this part (extra: sets for other parts)."""
    kw = {"udm": None, "emiconc": None, "carbon": None}
    kw.update(extra or {})
    kw[ARG[part]] = pam
    w = base(part)
    if part in ("udm", "two"):
        return sim.snapshot(sim.forcing_run(w, kw["udm"]))
    return sim.snapshot(sim.run(w, **kw))


_REF = {}


def against_ref(c, what, part, pam, res):
    """Compare a snapshot with the reference model."""
    w = base(part)
    if part in ("udm", "two"):
        out = ref.simulate_forcing(w, pam)
        for k in out["thermal"][0]:
            c.close(f"{what}: {k}", res[k], [t[k] for t in out["thermal"]])
        return
    kw = {"udm": None, "emiconc": None, "carbon": None}
    kw[ARG[part]] = pam
    out = ref.simulate(w, **kw)
    for g, s in out["conc"].items():
        c.close(f"{what}: concentration of {g}", res[f"concentrations|{g}"], s)
    for g, s in out["forc"].items():
        c.close(f"{what}: forcing of {g}", res[f"forcing|{sim.fname(g)}"], s)
    c.close(f"{what}: total forcing", res["Total_forcing"], out["Total_forcing"])
    for k in out["thermal"][0]:
        c.close(f"{what}: {k}", res[k], [t[k] for t in out["thermal"]])


def forms(p, v):
    """The same number in other types."""
    if p in WHOLE:
        return [int(v), np.int64(v), np.int32(v)]
    out = [float(v), np.float64(v), np.array([float(v)])[0]]
    if float(v).is_integer():
        out += [int(v), np.int64(int(v)), np.int32(int(v))]
    return out


def others(part):
    """Parameters of other parts that this part does not read."""
    out = {}
    for o, (d, vals) in SETS.items():
        if o == part:
            continue
        for p in d:
            if p not in SETS[part][0] and p not in ("idtm", "nystart", "nyend", "emstart"):
                out[p] = (vals.get(p) or [d[p]])[-1]
    if part in ("udm", "two", "carbon", "box"):
        out["lifetime_mode"] = "WIGLEY"
        out["just_one"] = "CO2"
    if part in ("emi", "udm", "two", "box"):
        out["rb_function"] = {"coeffs": [1.0], "timescales": [2.0]}
        out["rb_coef0"] = 1.0
    return out


def nondefault(part):
    """One value other than the default for each parameter."""
    out = {}
    for p in names(part):
        vals = [v for v in values(part, p) if v != default(part, p)]
        if vals:
            out[p] = vals[0] if p != "mixed" else 60
    return out


def cases(tier):
    deep = tier != "quick"
    for part in SETS:
        ns = names(part)
        yield {"t": "all", "part": part}
        for p in ns:
            yield {"t": "one", "part": part, "p": p}
            yield {"t": "wrong", "part": part, "p": p}
            yield {"t": "omit", "part": part, "p": p}
        for a, b in itertools.combinations(ns, 2):
            yield {"t": "pair", "part": part, "ps": [a, b]}
        if deep:
            for trio in itertools.combinations(ns, 3):
                yield {"t": "pair", "part": part, "ps": list(trio)}
            for pam in common.pairs({p: values(part, p) for p in ns if values(part, p)}, nval=9):
                yield {"t": "ref", "part": part, "pam": pam}
        for p in list(others(part)) + list(MADE_UP):
            yield {"t": "foreign", "part": part, "p": p}
    yield {"t": "wholeset"}
    for bits in itertools.product((0, 1), repeat=5):
        yield {"t": "cfg", "given": list(bits)}
    for given in itertools.chain.from_iterable(itertools.combinations(("nystart", "nyend", "emstart", "idtm"), n) for n in range(5)):
        yield {"t": "years", "given": list(given)}
    for key in ("nystart", "nyend", "emstart", "idtm"):
        yield {"t": "badyears", "key": key}
    yield {"t": "cfgforeign"}


_BASE = {}


def left_out(part):
    if part not in _BASE:
        _BASE[part] = run_part(part, None)
    return _BASE[part]


def run(case, c):
    t, part = case["t"], case.get("part")
    if t in ("one", "wrong", "omit", "pair", "foreign", "all", "ref"):
        want = left_out(part)

    def look(what, pam, expected=None, extra=None):
        c.step()
        c.trace()
        c.state(part, repr(sorted((str(k), repr(v)) for k, v in (pam or {}).items())), repr(extra))
        got = run_part(part, copy.deepcopy(pam), extra)
        sim.same(c, what, got, want if expected is None else expected)
        return got

    if t == "all":
        against_ref(c, "nothing given", part, None, want)
        look("empty set", {})
        full = {p: default(part, p) for p in names(part)}
        look("all defaults given", full)
        look("all defaults given, other order", dict(reversed(list(full.items()))))
        nd = nondefault(part)
        got = run_part(part, dict(nd))
        against_ref(c, "all parameters given", part, nd, got)
        look("given in another order", dict(reversed(list(nd.items()))), got)
        look("with strangers among them", {**{k: v for k, v in others(part).items()}, **nd, **MADE_UP}, got)
    elif t == "one":
        p = case["p"]
        for v in forms(p, default(part, p)):
            look(f"{p} given as its default {v!r}", {p: v})
        for v in values(part, p):
            got = run_part(part, {p: v})
            c.trace()
            against_ref(c, f"{p}={v!r}", part, {p: v}, got)
            for f in forms(p, v)[1:]:
                look(f"{p}={f!r} of type {type(f).__name__}", {p: f}, got)
    elif t == "wrong":
        p = case["p"]
        for v in WRONG:
            look(f"{p}={v!r}", {p: v})
        nd = nondefault(part)
        rest = {k: v for k, v in nd.items() if k != p}
        expected = run_part(part, dict(rest))
        look(f"{p} not a number among others", {**rest, p: "x"}, expected)
    elif t == "omit":
        p = case["p"]
        rest = {k: v for k, v in nondefault(part).items() if k != p}
        got = run_part(part, dict(rest))
        against_ref(c, f"all but {p}", part, rest, got)
        look(f"all others and {p} as its default", {**rest, p: default(part, p)}, got)
        look(f"all others and {p} as its default first", {p: default(part, p), **rest}, got)
    elif t == "pair":
        ps = case["ps"]
        look(f"{ps} as defaults", {p: default(part, p) for p in ps})
        nd = nondefault(part)
        for p in ps:
            if p in nd:
                rest = {q: default(part, q) for q in ps if q != p}
                look(f"{p} alone or with defaults of {list(rest)}", {**rest, p: nd[p]}, run_part(part, {p: nd[p]}))
    elif t == "ref":
        got = run_part(part, dict(case["pam"]))
        c.trace()
        c.step()
        c.state(part, repr(case["pam"]))
        against_ref(c, f"{case['pam']}", part, case["pam"], got)
    elif t == "foreign":
        p = case["p"]
        v = {**others(part), **MADE_UP}[p]
        look(f"stranger {p}", {p: v})
        for w in (0, "x", None):
            look(f"stranger {p}={w!r}", {p: w} if p != "just_one" else {p: v})
        nd = nondefault(part)
        first = sorted(nd)[0]
        look(f"stranger {p} besides {first}", {first: nd[first], p: v}, run_part(part, {first: nd[first]}))
    elif t == "wholeset":
        # what one part's set holds for other parts does not reach them
        for part_ in ("emi", "carbon", "box"):
            plain = left_out(part_)
            for arg in ("udm", "emiconc", "carbon"):
                own = {"udm": ref.TWO_DEFAULT, "emiconc": ref.EMICONC_DEFAULT, "carbon": ref.BOX_DEFAULT if part_ == "box" else ref.CARBON_DEFAULT}[arg]
                pam = {}
                for o, (_d, vals) in SETS.items():
                    pam.update({p: v[-1] for p, v in vals.items() if p not in own})
                c.step()
                c.trace()
                res = sim.run(base(part_), **{arg: pam})
                sim.same(c, f"parameters of other parts in {arg}", sim.snapshot(res), plain)
    elif t == "cfg":
        gas = {g: r for g, r in data.gas_table().items() if g not in ("CFC-113", "CH3Br", "CCl4", "HCFC-22", "CF4", "SF6")}
        w = data.make_world(2008, 2010, 2009, gas=gas)
        cfg = data.cfg_data(w)
        plain = CICEROSCM(dict(cfg))
        plain._run(dict(sim.OUT))
        keys = ("idtm", "thermal_model", "carbon_cycle_model", "conc_run", "sunvolc")
        vals = (24, "default", "default", False, 0)
        given = {k: v for k, v, on in zip(keys, vals, case["given"]) if on}
        for full in ({**cfg, **given}, {**given, **cfg}):
            c.step()
            c.trace()
            c.state("cfg", repr(given))
            m = CICEROSCM(full)
            m._run(dict(sim.OUT))
            sim.same(c, f"{given} given", sim.snapshot(m.results), sim.snapshot(plain.results))
    elif t in ("years", "badyears"):
        _w, cfg = data.real_world(thermal_model="twolayer", sunvolc=0)
        full = {"nystart": 1750, "nyend": 2100, "emstart": 1850, "idtm": 24}
        for k in full:
            cfg.pop(k, None)
        ref_m = CICEROSCM({**cfg, **full})
        ref_m._run(dict(sim.OUT))
        tries = [{k: full[k] for k in case["given"]}] if t == "years" else [{**full, case["key"]: v} for v in ("x", None, [1])]
        if t == "years" and case["given"]:
            tries.append({k: np.int64(full[k]) for k in case["given"]})
        for g in tries:
            c.step()
            c.trace()
            c.state("years", repr(g))
            m = CICEROSCM({**cfg, **g})
            m._run(dict(sim.OUT))
            sim.same(c, f"{g} given", sim.snapshot(m.results), sim.snapshot(ref_m.results))
    else:
        w = base("emi")
        plain = left_out("emi")
        extra = {"lambda": 3.0, "beta_f": 0.9, "qbc": 2.0, "nosuch": 1, "Index": "x", "scenname": "y", "scenario_name": "z", "just_one": "CO2", "lifetime_mode": "WIGLEY", "mixed": 1.0, "preindustrial_co2_conc": 1.0}
        for n in (1, 2):
            for sub in itertools.combinations(extra, n):
                c.step()
                c.trace()
                c.state("cfgforeign", sub)
                m = CICEROSCM({**data.cfg_data(w), **{k: extra[k] for k in sub}})
                m._run(dict(sim.OUT))
                sim.same(c, f"{sub} in the configuration", sim.snapshot(m.results), plain)
