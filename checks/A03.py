"""Several model objects in one process: nested, in threads, in turn."""

import copy
import itertools
import os
import sys
import tempfile
import threading

import numpy as np

import alone
import data
import sim
from checks import A01, common
from ciceroscm import CICEROSCM
from ciceroscm.component_factory_functions import create_carbon_cycle_model, create_thermal_model

ORACLE = "the same construction and run in a process of its own that has used the package for nothing else"
BOUNDS = {
    "quick": "40 configurations (each differing from one base in one thing, and 11 kinds of models): all 6 interleavings of building and running base and each, and all pairs of 9 kinds with all interleavings (3 pairs with two runs each); 50 ordered pairs of kinds and base with each other configuration with a whole second model built and run inside the first at every call of depth 2; 6 pairs with it at any one call of depth 3; 4 pairs of threads with every schedule of two switches at calls of depth 2; all interleavings of years of 15 pairs of thermal and 36 pairs of carbon models; 350 triples of models equal but for one thing (any emission, concentration, natural or forcing series, gas table entry, parameter, response function, perturbation, year) in 9 contexts (no natural emissions given, files of the same name in other folders, rewritten files, ...), one after the other and built before any is run",
    "thorough": "all pairs of kinds nested at every call of depth 3, 12 pairs with nesting at any one call, 11 pairs of threads with every schedule of two switches at calls and returns and 4 of three switches at calls, all interleavings of building and two runs for all pairs of kinds, triples for every thing in every context",
}
BLOCK = 1
HERE = "/ciceroscm/"
RB = {"coeffs": [0.5, 0.25, 0.25], "timescales": [2.5, 10.0, 60.0]}
KINDS = list(A01.KINDS)
# differences from the base configuration
WORLD = {
    "base": {}, "earlier": {"nystart": 1999}, "longer": {"nyend": 2003}, "emstart": {"emstart": 2002}, "emstart0": {"emstart": 2000},
    "idtm": {"idtm": 6}, "conc": {"conc_run": True}, "udm": {"thermal_model": "default"}, "box": {"carbon_cycle_model": "box"},
}
CHANGE = ("em CO2_FF", "em CH4", "em NOx", "em SO2", "em BC", "em CFC-11", "em HFC134a", "conc CO2", "conc CH4", "conc CFC-11", "conc HFC134a", "nat_ch4", "nat_n2o", "luc", "sun", "volc",
          "perturb_em", "perturb_forc", "gas TAU1 CFC-11", "gas BETA CFC-11", "gas ALPHA CFC-11", "gas TAU1 CH4", "gas SARF_TO_ERF CH4", "gas NAT_EM CF4", "gas drop", "gas regional", "functions")
RUNS = {"em": "emi", "carbon": "carbon", "udm": "udm", "flat": "flat", "one": "one", "life": "life"}
VARIANTS = list(WORLD)[1:] + list(CHANGE) + ["run " + r for r in RUNS.values()]


def variant(name):
    """(configuration, run)"""
    op = "plain"
    short = name.startswith("short")
    if short:
        name = name[6:] or "base"
    if name.startswith("run "):
        op, name = name[4:], "base"
    if name.startswith("kind "):
        return A01.config(name[5:]), op
    kw = {"nystart": 2000, "nyend": 2002, "emstart": 2001, "thermal_model": "twolayer", "gas": A01.small_gas()}
    kw["gas"]["CF4"] = dict(data.gas_table()["CF4"])
    kw.update(WORLD.get(name, {}))
    if short:
        kw.update(nyend=2001, gas={g: r for g, r in kw["gas"].items() if g not in ("CF4", "HFC134a")})
    gas = kw["gas"]
    if name.startswith("gas "):
        parts = name.split()
        if parts[1] == "drop":
            del gas["HFC134a"]
        elif parts[1] == "regional":
            gas["BC_A"] = {**gas["BC"], "ALPHA": 0.03}
            gas["SO2_A"] = {**gas["SO2"], "ALPHA": -0.004}
        else:
            gas[parts[2]][parts[1]] = gas[parts[2]][parts[1]] * 1.5
    w = data.make_world(**kw)
    if name.startswith(("em ", "conc ")) and name != "conc":
        kind, g = name.split()
        for y in w[kind][g]:
            w[kind][g][y] *= 1.4
    elif name in ("nat_ch4", "nat_n2o"):
        w[name] = {y: v * 1.3 for y, v in w[name].items()}
    elif name == "luc":
        w["luc"] = [v - 0.2 for v in w["luc"]]
    elif name in ("sun", "volc"):
        data.add_sunvolc(w, 12, 12)
        if name == "volc":
            w["volc_n"] = [[2 * x for x in r] for r in w["volc_n"]]
    elif name == "perturb_em":
        w["perturb_em"] = [["CH4", 2001, 30.0], ["CFC-11", 2002, 20.0]]
    elif name == "perturb_forc":
        w["perturb_forc"] = [["CH4", 2001, 0.3], ["CFC-11", 2002, 0.2]]
    cfg = data.cfg_data(w)
    if name == "functions":
        cfg["rb_function"] = {k: list(v) for k, v in RB.items()}
    return cfg, op


def do_run(m, op):
    o = A01.OPS[op]
    kw = {"pamset_udm": o.get("udm"), "pamset_emiconc": o.get("emi"), "pamset_carbon": o.get("carbon")}
    m._run(dict(A01.DICT), **{k: dict(v) for k, v in kw.items() if v})
    return sim.snapshot(m.results)


def whole(name):
    cfg, op = variant(name)
    return do_run(CICEROSCM(cfg), op)


_ALONE = {}


def by_itself(name):
    if name not in _ALONE:
        _ALONE[name] = alone.forked(whole, name)
    return _ALONE[name]


# ------------------------------------------------------------------ models differing in one thing
CONTEXT = {
    "data": {}, "nonat": {"nat_ch4": None, "nat_n2o": None}, "conc": {"conc_run": True}, "box": {"carbon_cycle_model": "box"}, "udm": {"thermal_model": "default"},
    "sun": {}, "folders": {}, "rewritten": {}, "regional": {},
}
LEVELS = (1.0, 1.5, 0.7)
RS = {"coeffs": [0.1, 0.6, 0.15, 0.15], "timescales": [0.8, 7.0, 80.0]}
PARAMS = {"two": ("pamset_udm", common.TWO_VALUES), "udm": ("pamset_udm", common.UDM_VALUES), "emi": ("pamset_emiconc", common.EMICONC_VALUES),
          "carbon": ("pamset_carbon", common.CARBON_VALUES), "box": ("pamset_carbon", common.BOX_VALUES)}
_TMP = [None]


def twin_world(ctx):
    gas = A01.small_gas()
    gas["CF4"] = dict(data.gas_table()["CF4"])
    if ctx == "regional":
        for name, alpha in (("SO2_A", -0.004), ("BC_A", 0.03), ("BC_B", 0.02)):
            gas[name] = {**gas[name[:2] if name[0] == "B" else "SO2"], "ALPHA": alpha}
    kw = {"nystart": 2000, "nyend": 2002, "emstart": 2001, "thermal_model": "twolayer", "gas": gas}
    kw.update(CONTEXT[ctx])
    w = data.make_world(**kw)
    if ctx == "sun":
        data.add_sunvolc(w)
    return w


def differences(ctx):
    """Everything two models of this context can differ in."""
    w = twin_world(ctx)
    out = [["em", g] for g in w["em"]] + [["conc", g] for g in w["conc"]] + [["table", x] for x in ("nat_ch4", "nat_n2o", "luc") if w.get(x)]
    out += [["gas", g, k] for g, row in w["gas"].items() for k, v in row.items() if not k.endswith("UNIT") and v not in (0.0, 1.0)]
    if ctx == "sun":
        out += [["table", x] for x in ("sun", "volc_n", "volc_s")]
    out += [["perturb_em", g] for g in ("CH4", "CO2", "CFC-11")] + [["perturb_forc", g] for g in ("CH4", "CFC-11", "SO2")]
    out += [["fun", f, k] for f in ("rb", "rs") for k in ("coeffs", "timescales")] + [["flat", f, k] for f in ("rb", "rs") for k in ("coef1", "tim1")]
    parts = ["udm" if ctx == "udm" else "two", "emi", "box" if ctx == "box" else "carbon"]
    out += [["par", part, p] for part in parts for p in PARAMS[part][1]] + [["span", k] for k in ("nystart", "nyend", "emstart", "idtm", "lifetime_mode", "just_one")]
    return out


def twin(ctx, d, level):
    """(configuration, keywords of the run) of a model with thing d at one of three levels."""
    w = twin_world(ctx)
    x, run = LEVELS[level], {"pamset_emiconc": {"ref_yr": 2001}}
    fun = {}
    kind = d[0]
    if kind in ("em", "conc"):
        w[kind][d[1]] = {y: v * x for y, v in w[kind][d[1]].items()}
    elif kind == "table":
        v = w[d[1]]
        w[d[1]] = {y: q * x for y, q in v.items()} if isinstance(v, dict) else [[q * x for q in r] if isinstance(r, list) else r * x for r in v]
    elif kind == "gas":
        w["gas"][d[1]][d[2]] *= x
    elif kind == "perturb_em":
        w["perturb_em"] = [[d[1], 2001, 3.0 * x]]
    elif kind == "perturb_forc":
        w["perturb_forc"] = [[d[1], 2001, 0.3 * x]]
    elif kind == "fun":
        fun = {"rb_function": copy.deepcopy(RB), "rs_function": copy.deepcopy(RS)}
        fun[d[1] + "_function"][d[2]][1] *= x
    elif kind == "flat":
        flat = dict(A01.FLAT, rs_coef0=0.2, rs_coef1=0.5, rs_coef2=0.3, rs_tim0=0.9, rs_tim1=12.0)
        flat[f"{d[1]}_{d[2]}"] *= x
        run["pamset_carbon"] = flat
    elif kind == "par":
        arg, vals = PARAMS[d[1]]
        vs = [2000, 2001, 2002] if d[2] == "ref_yr" else vals[d[2]]
        run[arg] = {**run.get(arg, {}), d[2]: vs[level % len(vs)]}
    elif kind == "span":
        if d[1] == "lifetime_mode":
            run["pamset_emiconc"]["lifetime_mode"] = ("TAR", "WIGLEY", "CONSTANT_12")[level]
        elif d[1] == "just_one":
            run["pamset_emiconc"]["just_one"] = ("CH4", "CFC-11", "CO2")[level]
        elif d[1] == "idtm":
            w["idtm"] = (24, 6, 12)[level]
        elif d[1] == "emstart":
            w["emstart"] = (2001, 2002, 2000)[level]
        else:
            w = data.make_world(**{**{k: w[k] for k in ("nystart", "nyend", "emstart", "thermal_model", "gas")}, **CONTEXT[ctx], d[1]: w[d[1]] + (0, -1, -2 if d[1] == "nystart" else 1)[level]})
    if ctx in ("folders", "rewritten"):
        folder = tempfile.mkdtemp(dir=_TMP[0]) if ctx == "folders" else os.path.join(_TMP[0], "same")
        os.makedirs(folder, exist_ok=True)
        cfg = data.cfg_with_files(w, data.FILE_KEYS, folder)
    else:
        cfg = data.cfg_data(w)
    cfg.update(fun)
    return cfg, run


def twin_run(m, run):
    m._run(dict(A01.DICT), **copy.deepcopy(run))
    return sim.snapshot(m.results)


def twin_whole(ctx, d, level):
    cfg, run = twin(ctx, d, level)
    return twin_run(CICEROSCM(cfg), run)


TWIN_ORDER = (1, 0, 2, 1, 0)


def twins(ctx, d):
    """One after the other, and all built before any is run."""
    out = [(f"model {i} of levels {TWIN_ORDER}", x, twin_whole(ctx, d, x)) for i, x in enumerate(TWIN_ORDER)]
    if ctx != "rewritten":
        made = [(twin(ctx, d, x), x) for x in (0, 1, 2)]
        ms = [(CICEROSCM(cfg), run, x) for (cfg, run), x in made]
        out += [("built in order 0 1 2, run in order 2 0 1", ms[i][2], twin_run(ms[i][0], ms[i][1])) for i in (2, 0, 1)]
        out += [("at the end", x, sim.snapshot(m.results)) for m, _run, x in ms]
    return out


# ------------------------------------------------------------------ points inside a model
TOOL = 4
_ACTIVE = {}  # thread: its Points


class Points:
    """Calls fun(n) at the n-th call (and return) of package functions to some depth."""

    def __init__(self, fun, depth, returns=False):
        self.fun, self.depth, self.returns, self.n, self.busy, self.now = fun, depth, returns, 0, False, 0

    def hit(self):
        n = self.n
        self.n += 1
        self.busy = True
        try:
            self.fun(n)
        finally:
            self.busy = False

    def run(self, fun, *args):
        start_monitor()
        me = threading.get_ident()
        _ACTIVE[me] = self
        try:
            return fun(*args)
        finally:
            del _ACTIVE[me]


def _start(code, _offset):
    if HERE not in code.co_filename:
        return MON.DISABLE
    p = _ACTIVE.get(threading.get_ident())
    if p is not None and not p.busy:
        p.now += 1
        if p.now <= p.depth:
            p.hit()
    return None


def _return(code, _offset, _value):
    if HERE not in code.co_filename:
        return MON.DISABLE
    p = _ACTIVE.get(threading.get_ident())
    if p is not None and not p.busy:
        if p.returns and p.now <= p.depth:
            p.hit()
        p.now -= 1
    return None


def _unwind(code, _offset, _exc):
    if HERE in code.co_filename:
        p = _ACTIVE.get(threading.get_ident())
        if p is not None and not p.busy:
            p.now -= 1


MON = sys.monitoring


def start_monitor():
    """Watch calls and returns in this process (a child made for one exploration)."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "points")
        ev = MON.events
        MON.register_callback(TOOL, ev.PY_START, _start)
        MON.register_callback(TOOL, ev.PY_RETURN, _return)
        MON.register_callback(TOOL, ev.PY_UNWIND, _unwind)
        MON.set_events(TOOL, ev.PY_START | ev.PY_RETURN | ev.PY_UNWIND)


def count_points(name, depth, returns=False):
    p = Points(lambda n: None, depth, returns)
    p.run(whole, name)
    return p.n


def nested(outer, inner, depth, at=None):
    """Results of outer, and those of inner run inside it (at one point, or at all of them)."""
    got = []

    def fun(n):
        if at is None or n == at:
            got.append((n, whole(inner)))

    p = Points(fun, depth)
    out = p.run(whole, outer)
    return out, got, p.n


class Baton:
    """Two threads, one runs at a time; switches after given numbers of points."""

    def __init__(self, names, budgets, depth, returns):
        self.names, self.depth, self.returns = names, depth, returns
        self.budgets = list(budgets)  # alternating, the first for thread 0
        self.turn, self.left = 0, (self.budgets.pop(0) if self.budgets else None)
        self.cond = threading.Condition()
        self.done = [False, False]
        self.out = [None, None]
        self.points = 0

    def wait(self, me):
        with self.cond:
            while self.turn != me:
                self.cond.wait()

    def switch(self, me):
        with self.cond:
            self.turn = 1 - me
            self.left = self.budgets.pop(0) if self.budgets else None
            self.cond.notify_all()
            while self.turn != me:
                self.cond.wait()

    def point(self, me):
        self.points += 1
        if self.done[1 - me] or self.left is None:
            return
        if self.left == 0:
            self.switch(me)
        else:
            self.left -= 1

    def body(self, me):
        self.wait(me)
        try:
            self.out[me] = Points(lambda n: self.point(me), self.depth, self.returns).run(whole, self.names[me])
        except BaseException as err:  # noqa: BLE001
            self.out[me] = err
        with self.cond:
            self.done[me] = True
            self.turn = 1 - me
            self.left = None
            self.cond.notify_all()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.out


def orders(n, m):
    """All interleavings of n steps of one and m of the other."""
    for pos in itertools.combinations(range(n + m), n):
        yield [0 if i in pos else 1 for i in range(n + m)]


# ------------------------------------------------------------------ components
THERMAL = {
    "udm": ("default", {}), "udm_par": ("default", {"lambda": 0.9, "mixed": 80.0, "delta_lambda_aero": 1.0}), "udm_grid": ("default", {"lm": 20, "ldtime": 6, "threstemp": 0}),
    "two": ("twolayer", {}), "two_par": ("twolayer", {"lambda": 0.9, "mixed": 80.0, "delta_lambda_aero": 1.0}),
}
EM = {"idtm": 6, "nystart": 2000, "nyend": 2002}
CARBON = {
    "def": ("default", EM, {}), "def_fun2": ("default", EM, {"rb_function": {"coeffs": [0.6, 0.1, 0.3], "timescales": [3.5, 12.0, 40.0]}}), "def_par": ("default", EM, {"beta_f": 0.45, "mixed_carbon": 60.0, "preindustrial_co2_conc": 270.0}), "def_fun": ("default", EM, {"rb_function": RB}),
    "def_idtm": ("default", {**EM, "idtm": 12}, {}), "def_long": ("default", {**EM, "nyend": 2004}, {}),
    "box": ("box", EM, {}), "box_par": ("box", EM, {"beta_f": 0.45, "land_temp_sensitivity": 0.5}),
}


class Thermal:
    """Steps of a thermal model object: build, then three years."""

    steps = 4

    def __init__(self, name):
        self.model, self.pam = THERMAL[name]
        self.out = []
        self.m = None
        self.i = 0

    def step(self):
        if self.m is None:
            self.m = create_thermal_model(self.model)(dict(self.pam))
            return
        self.m.set_feedback_gregory((0.3, 0.0, 0.6)[self.i])
        v = self.m.energy_budget(1.0 + self.i, 0.5, np.full(12, -0.2 * self.i), np.full(12, -0.4))
        self.out.append({k: float(x) for k, x in v.items() if np.ndim(x) == 0})
        self.i += 1


class Carbon:
    """Steps of a carbon model object: build, two years, back calculation, third year, outputs."""

    steps = 5

    def __init__(self, name):
        self.spec = CARBON[name]
        self.out = []
        self.m = None
        self.i = 0

    def step(self):
        model, em, pam = self.spec
        if self.m is None:
            self.m = create_carbon_cycle_model(model, dict(em), {k: (dict(v) if isinstance(v, dict) else v) for k, v in pam.items()})
            self.m.reset_co2_hold()
            return
        self.i += 1
        ser = np.array([280.0, 283.0, 281.0] + [284.0] * (em["nyend"] - 2002))
        if self.i in (1, 2, 3):
            self.out.append({"conc": float(self.m.co2em2conc(1999 + self.i, 9.0 * self.i, feedback_dict={"dtemp": 0.4 * self.i}))})
        else:
            fb = {"dtemp": np.linspace(0, 1, len(ser))}
            df = self.m.get_carbon_cycle_output(np.arange(em["nystart"], em["nyend"] + 1), conc_series=ser, feedback_dict_series=fb)
            self.out.append({str(k): [float(x) for x in df[k]] for k in df.columns} if df is not None else {})


def comp(kind, name):
    return (Thermal if kind == "thermal" else Carbon)(name)


def lone(kind, name):
    x = comp(kind, name)
    for _ in range(x.steps):
        x.step()
    return x.out


def cases(tier):
    deep = tier != "quick"
    for v in VARIANTS:
        yield {"t": "seq", "a": "base", "b": v, "runs": 1}
    for ctx in CONTEXT:
        ds = differences(ctx)
        if not deep and ctx not in ("data", "nonat", "folders"):
            ds = [d for d in ds if d[0] not in ("gas", "par")] if ctx in ("rewritten", "conc") else ds[:: 3 if ctx != "udm" else 8]
        if not deep and ctx == "folders":
            ds = [d for d in ds if d[0] not in ("par", "flat")]
        if not deep and ctx == "nonat":
            ds = [d for d in ds if d[0] in ("gas", "em", "span")]
        if ctx in ("box", "udm") and not deep:
            ds += [d for d in differences(ctx) if d[0] == "par" and d[1] == ctx and d not in ds]
        for d in ds:
            yield {"t": "twins", "ctx": ctx, "d": d}
    some = ["two", "em", "conc_two", "box", "two_box", "sun", "forc", "regional", "pert"]
    for a, b in itertools.combinations(KINDS if deep else some, 2):
        yield {"t": "seq", "a": "kind " + a, "b": "kind " + b, "runs": 2 if deep else 1}
    if not deep:
        for a, b in (("two", "conc_two"), ("two_box", "box"), ("idtm", "two")):
            yield {"t": "seq", "a": "kind " + a, "b": "kind " + b, "runs": 2}
    for a, b in itertools.permutations(KINDS, 2):
        if not deep and a not in ("two", "two_box", "conc_two", "em", "forc"):
            continue
        yield {"t": "every", "a": "kind " + a, "b": "kind " + b, "depth": 3 if deep else 2}
    for v in VARIANTS:
        yield {"t": "every", "a": "base", "b": v, "depth": 2}
    pairs = [("kind two", "kind two_box"), ("kind two_box", "kind idtm"), ("base", "functions"), ("base", "em CO2_FF"), ("kind forc", "kind em"), ("gas regional", "base")]
    if deep:
        pairs += [("kind em", "kind conc"), ("kind conc_two", "kind two"), ("kind pert", "base"), ("kind sun", "volc"), ("base", "run carbon"), ("longer", "base")]
    for a, b in pairs:
        for part in range(8):
            yield {"t": "one", "a": a, "b": b, "depth": 9 if deep else 3, "part": part, "of": 8}
    threads = [("short", "short run carbon"), ("short box", "short idtm"), ("short", "kind forc"), ("short conc", "short")]
    if deep:
        threads += [("kind two", "kind conc_two"), ("kind em", "kind box"), ("base", "run flat"), ("longer", "base"), ("kind pert", "kind regional"), ("base", "gas drop"), ("kind sun", "kind forc")]
    for a, b in threads:
        for part in range(16):
            yield {"t": "two", "a": a, "b": b, "part": part, "of": 16, "returns": deep}
    if deep:
        for a, b in threads[:4]:
            for part in range(64):
                yield {"t": "three", "a": a, "b": b, "part": part, "of": 64, "returns": False}
    for kind, specs in (("thermal", THERMAL), ("carbon", CARBON)):
        for a, b in itertools.combinations_with_replacement(specs, 2):
            yield {"t": "years", "kind": kind, "a": a, "b": b}
    for bad in ("model", "file", "unit", "function"):
        for v in ("base", "kind conc", "kind box", "kind forc"):
            yield {"t": "refused", "bad": bad, "b": v}


def compare(c, what, got, name):
    if isinstance(got, BaseException):
        c.fail(f"{what}: {name} failed: {type(got).__name__}: {got}")
        return
    sim.same(c, f"{what}: {name}", got, by_itself(name))


def sequence(a, b, runs):
    out = []
    for order in orders(1 + runs, 1 + runs):
        ms, res = [None, None], [[], []]
        conf = [variant(a), variant(b)]
        for who in order:
            if ms[who] is None:
                ms[who] = CICEROSCM(conf[who][0])
            else:
                res[who].append(do_run(ms[who], conf[who][1]))
        out.append((order, res, [sim.snapshot(m.results) for m in ms]))
    return out


def thread_schedules(a, b, budgets, returns):
    out = []
    for bud in budgets:
        x = Baton((a, b), bud, 2, returns)
        res = x.go()
        out.append((bud, [str(r) if isinstance(r, BaseException) else r for r in res], x.points))
    return out


def one_points(a, b, depth, points):
    return [(n, *nested(a, b, depth, n)) for n in points]


def years(kind, a, b):
    out = []
    x, y = comp(kind, a), comp(kind, b)
    for order in orders(x.steps, y.steps):
        objs = [comp(kind, a), comp(kind, b)]
        for who in order:
            objs[who].step()
        out.append((order, [o.out for o in objs]))
    return out


def flat(o):
    return [np.ravel(v) for d in o for _k, v in sorted(d.items())]


def refused(bad, name, folder):
    cfg, _ = variant("base")
    try:
        if bad == "model":
            CICEROSCM({**cfg, "thermal_model": "nosuch"})
        elif bad == "file":
            CICEROSCM({**cfg, "gaspam_file": folder + "/nosuch.txt"})
        elif bad == "unit":
            path = folder + "/em.txt"
            data.write_em(data.make_world(2000, 2002, 2001), path, units={"CH4": "Gg"})
            cfg.pop("emissions_data")
            CICEROSCM({**cfg, "emissions_file": path})
        else:
            CICEROSCM(cfg)._run(dict(A01.DICT), pamset_carbon={"beta_f": 0.5, "rb_function": {"coeffs": [0.5, -0.5], "timescales": [1.0, 2.0]}})
    except Exception:  # noqa: BLE001
        pass
    return whole(name)


def run(case, c):
    t = case["t"]
    a, b = case.get("a"), case.get("b")
    _TMP[0] = c.tmp()
    if t == "twins":
        ctx, d = case["ctx"], case["d"]
        want = [alone.forked(twin_whole, ctx, d, x) for x in (0, 1, 2)]
        for i, (what, x, got) in enumerate(alone.forked(twins, ctx, d)):
            c.state(ctx, tuple(d), i)
            c.step(2)
            c.trace()
            sim.same(c, f"{d} at level {x} ({what})", got, want[x])
            if c.fails:
                return
    elif t == "seq":
        for order, res, last in alone.forked(sequence, a, b, case["runs"]):
            c.step(len(order))
            c.state(a, b, tuple(order))
            c.trace(2)
            for i, name in enumerate((a, b)):
                for j, r in enumerate(res[i]):
                    if not name.startswith("run ") or j == 0 or name in ("run udm", "run emi", "run one", "run life"):
                        compare(c, f"order {order} run {j}", r, name)
                compare(c, f"results at the end of order {order}", last[i], name) if case["runs"] == 1 else None
            if c.fails:
                return
    elif t == "every":
        out, got, n = alone.forked(nested, a, b, case["depth"])
        c.step(n)
        c.trace(1 + len(got))
        c.true(len(got) > 10, f"only {len(got)} points")
        compare(c, f"with {b} run inside at every point", out, a)
        for at, r in got:
            c.state(a, b, at)
            compare(c, f"inside {a} at point {at}", r, b)
            if c.fails:
                return
    elif t == "one":
        n = alone.forked(count_points, a, case["depth"])
        points = list(range(case["part"], n, case["of"]))
        for at, out, got, m in alone.forked(one_points, a, b, case["depth"], points):
            c.state(a, b, case["depth"], at)
            c.step(2)
            c.trace(2)
            compare(c, f"with {b} run inside at point {at}", out, a)
            compare(c, f"inside {a} at point {at}", got[0][1], b)
            if c.fails:
                return
    elif t in ("two", "three"):
        na, nb = (alone.forked(count_points, x, 2, case["returns"]) for x in (a, b))
        if t == "two":
            scheds = list(itertools.product(range(na), range(nb)))
        else:
            scheds = [(i, j, k) for i in range(na) for j in range(nb) for k in range(na - i)]
        for bud, res, pts in alone.forked(thread_schedules, a, b, scheds[case["part"] :: case["of"]], case["returns"]):
            c.state(a, b, bud)
            c.step(pts)
            c.trace(2)
            for name, r in zip((a, b), res):
                if isinstance(r, str):
                    c.fail(f"schedule {bud}: {name} failed: {r}")
                else:
                    compare(c, f"schedule {bud}", r, name)
            if c.fails:
                return
    elif t == "years":
        want = [alone.forked(lone, case["kind"], n) for n in (a, b)]
        for order, outs in alone.forked(years, case["kind"], a, b):
            c.step(len(order))
            c.state(case["kind"], a, b, tuple(order))
            c.trace(2)
            for name, o, ref in zip((a, b), outs, want):
                for k, (p, q) in enumerate(zip(flat(o), flat(ref))):
                    c.close(f"order {order}: {name} value {k}", p, q)
            if c.fails:
                return
    else:
        c.step(2)
        c.trace()
        compare(c, f"after a refused {case['bad']}", alone.forked(refused, case["bad"], b, c.tmp()), b)
