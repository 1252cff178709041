"""Parameter distributions: which parameters, where, and which values."""

import contextlib
import functools
import itertools
import math

import numpy as np
from scipy.stats import qmc

from ciceroscm.parallel._configdistro import _ConfigDistro
from ciceroscm.parallel.distributionrun import DistributionRun

ORACLE = "list of the parameters each component reads, written out in this check; strata counted directly; centre and half width"
BOUNDS = {
    "quick": "every one of 59 parameters and all pairs of them varying/fixed/both x forcing or not x 2 methods x 1..3 values; 1..6 disjoint intervals x 1..12 values, 2 intervals x 13..139 values and 14 sizes up to 5000; every output of the Latin hypercube sampler for 1..3 values in 1..2 dimensions with 3 offsets; every sequence of 1..3 standard normal draws over 5 values; 7 intervals below, across, up to and from zero; option dictionaries; defaults; moments of 40000 Gaussian values",
    "thorough": "all triples of parameters, 1..40 values in 6 intervals, up to 400 in 2, sampler outputs for 4 values",
}
ASSUMPTIONS = ["sampler outputs are enumerated through scipy's LatinHypercube.random and numpy.random's normal generators; with any other generator the checks on values drawn still apply"]
THERMAL = ["rlamdo", "akapa", "cpi", "W", "beto", "lambda", "mixed", "ocean_efficacy", "delta_lambda_aero", "threstemp", "lm", "ldtime",
           "foan", "foas", "ebbeta", "deep", "k"]
CARBON = ["beta_f", "mixed_carbon", "ml_w_sigmoid", "ml_fracmax", "ml_t_half", "t_half", "w_sigmoid", "t_threshold", "w_threshold",
          "solubility_sens", "solubility_limit", "ml_depth_min", "preindustrial_co2_conc", "rb_coef0", "rb_coef1", "rb_coef2", "rb_tim0",
          "rb_tim1", "rb_tim2", "rb_coef10", "rs_tim12", "rs_coef0", "rs_coef1", "rs_coef3", "rs_tim0", "rs_tim2", "land_temp_sensitivity", "soil_respiration_rate",
          "ocean_mixed_layer_depth", "ocean_exchange_rate", "vegetation_to_soil_fraction", "ocean_solubility_base", "ocean_solubility_temp_coeff"]
EMI = ["qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "ref_yr", "qnmvoc", "qnh3", "qnox"]
HOME = {**{p: "pamset_udm" for p in THERMAL}, **{p: "pamset_carbon" for p in CARBON}, **{p: "pamset_emiconc" for p in EMI}}
NAMES = list(HOME)
SETS = ("pamset_udm", "pamset_emiconc", "pamset_carbon")
Z = (-3.0, -0.5, 0.0, 1.0, 2.5)


SIGNS = ([-0.7, 3.4], [-5.0, -1.0], [-3.5, 0.2], [0.0, 2.0], [-2.0, 0.0], [-1e-3, 2e-3], [1e3, 4e5])


def interval(p):
    """Different for every parameter and disjoint."""
    i = NAMES.index(p) if p in NAMES else 99
    return [10.0 * i - 200.0 + 0.25, 10.0 * i - 200.0 + 0.25 + (1.0 + 0.1 * (i % 7))]


def fixed(p):
    return 5000.0 + NAMES.index(p)


def cases(tier):
    deep = tier != "quick"
    for p in NAMES:
        for role in ("vary", "both"):
            yield {"t": "one", "p": p, "role": role}
    for p in NAMES:
        yield {"t": "pairs", "p": p}
    if deep:
        for p, q in itertools.combinations(NAMES, 2):
            yield {"t": "triples", "p": p, "q": q}
    for n in (range(1, 41) if deep else range(1, 13)):
        for d in range(1, 7):
            yield {"t": "latin", "n": n, "d": d}
    for n in (1, 2, 3, 7):
        for d in (1, 2, 6):
            for signs in range(1, len(SIGNS) + 1):
                yield {"t": "latin", "n": n, "d": d, "signs": signs}
    top = 400 if deep else 140
    for n in [*range(13, top), 150, 199, 200, 250, 256, 300, 500, 512, 999, 1000, 1001, 1024, 2000, 5000]:
        yield {"t": "latin", "n": n, "d": 2}
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for d in (1, 2):
            if n == 4 and d == 2:
                continue
            yield {"t": "sampler", "n": n, "d": d}
    for n in (1, 2, 3):
        for d in (1, 2):
            for signs in range(len(SIGNS) + 1):
                yield {"t": "normals", "n": n, "d": d, "signs": signs}
    for o in (None, {}, {"forc": True}, {"forc": False}, {"method": "latin"}, {"method": "gaussian"}, {"method": "other"},
              {"forc": True, "method": "gaussian"}, {"forc": True, "method": "latin"}, {"forc": False, "method": "gaussian"}):
        yield {"t": "options", "o": o}
        yield {"t": "defaults", "o": o}
    for d in (1, 3):
        yield {"t": "moments", "d": d}
    for n in (1, 2, 7):
        yield {"t": "again", "n": n}
        yield {"t": "run", "n": n}
    yield {"t": "values"}


def check(c, what, cfgs, n, distro, setv, forc, method, prefix=""):
    c.step(n)
    c.trace()
    if not c.true(isinstance(cfgs, list) and len(cfgs) == n, f"{what}: {len(cfgs)} configurations instead of {n}"):
        return
    vary = [p for p in distro if p not in setv and (not forc or p in THERMAL)]
    want = {s: set() for s in SETS}
    for p in [*vary, *setv]:
        want[HOME[p]].add(p)
    for cfg in cfgs:
        c.true(set(cfg) == {*SETS, "Index"}, f"{what}: keys {sorted(cfg)}")
        for s in SETS:
            if not c.true(set(cfg[s]) == want[s], f"{what}: {s} holds {sorted(set(cfg[s]) ^ want[s])} wrongly"):
                return
        for p, v in setv.items():
            c.true(cfg[HOME[p]][p] == v, f"{what}: fixed {p} is {cfg[HOME[p]][p]}")
    c.true(len({cfg["Index"] for cfg in cfgs}) == n, f"{what}: index repeated")
    c.true(all(str(cfg["Index"]).startswith(prefix) for cfg in cfgs), f"{what}: prefix")
    for p in vary:
        lo, hi = distro[p]
        vals = [float(cfg[HOME[p]][p]) for cfg in cfgs]
        if method == "latin":
            u = [(v - lo) / (hi - lo) * n for v in vals]
            # a value on a boundary between strata may count for either
            strata = sorted(min(n - 1, max(0, math.floor(x + 1e-9))) for x in u)
            alt = sorted(min(n - 1, max(0, math.ceil(x - 1e-9) - 1)) for x in u)
            ok = all(-1e-9 <= x <= n + 1e-9 for x in u) and (strata == list(range(n)) or alt == list(range(n)))
            c.true(ok, f"{what}: {p} in [{lo}, {hi}] has values {vals[:6]}")
        else:
            c.true(all(abs(v - (lo + hi) / 2) < 12 * (hi - lo) / 2 for v in vals), f"{what}: {p} in [{lo}, {hi}] has values {vals[:6]}")


@contextlib.contextmanager
def sampler(rows):
    """The Latin hypercube sampler gives these rows."""
    old = qmc.LatinHypercube.random
    count = [0]

    def fake(self, n=1, **_kw):
        count[0] += 1
        return np.array(rows, dtype=float).reshape(n, -1)

    qmc.LatinHypercube.random = fake
    try:
        yield count
    finally:
        qmc.LatinHypercube.random = old


@contextlib.contextmanager
def normals(zs):
    """numpy's generators of normal values give these standard values in turn."""
    names = ("normal", "standard_normal", "randn")
    old = {k: getattr(np.random, k) for k in names}
    it = itertools.cycle(zs)
    count = [0]

    def normal(loc=0.0, scale=1.0, size=None):
        count[0] += 1
        shape = np.broadcast(loc, scale).shape if size is None else size
        n = int(np.prod(shape)) if shape != () else 1
        z = np.array([next(it) for _ in range(n)]).reshape(shape)
        return loc + scale * z

    np.random.normal = normal
    np.random.standard_normal = lambda size=None: normal(size=size)
    np.random.randn = lambda *shape: normal(size=shape)
    try:
        yield count
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


@functools.lru_cache(maxsize=1)
def quiet():
    return None


def make(distro, setv, opts, n, **kw):
    return _ConfigDistro(distro, setv, opts).make_config_lists(n, **kw)


OPTS = [{"forc": f, "method": m} for f in (False, True) for m in ("latin", "gaussian")]


def enough(distro, setv, forc):
    """At least one varying parameter (Latin hypercubes need one)."""
    return any(p not in setv and (not forc or p in THERMAL) for p in distro)


def run(case, c):
    t = case["t"]
    if t == "one":
        p = case["p"]
        other = "lambda" if p != "lambda" else "mixed"
        for o in OPTS:
            distro = {p: interval(p), other: interval(other)}
            setv = {p: fixed(p)} if case["role"] == "both" else {}
            for n in (1, 2, 3):
                c.state(p, case["role"], str(o), n)
                check(c, f"{p} {o}", make(distro, setv, o, n), n, distro, setv, o["forc"], o["method"])
    elif t in ("pairs", "triples"):
        p = case["p"]
        for q in NAMES:
            if q in (p, case.get("q")):
                continue
            for o in OPTS[:2] if t == "triples" else OPTS:
                distro = {p: interval(p)}
                if t == "triples":
                    distro[case["q"]] = interval(case["q"])
                for setv in ({q: fixed(q)}, {}):
                    d = dict(distro) if setv else {q: interval(q), **distro}
                    if not enough(d, setv, o["forc"]):
                        continue
                    c.state(p, q, bool(setv), str(o))
                    check(c, f"{list(d)} {list(setv)} {o}", make(d, setv, o, 2), 2, d, setv, o["forc"], o["method"])
    elif t == "latin":
        n, d = case["n"], case["d"]
        pick = ["lambda", "beta_f", "qbc", "mixed", "rs_tim2", "cpi"][:d]
        for orderly in (pick, pick[::-1]):
            distro = {p: interval(p) for p in orderly}
            if case.get("signs"):
                distro = {p: list(SIGNS[(case["signs"] - 1 + i) % len(SIGNS)]) for i, p in enumerate(orderly)}
            check(c, f"{n}x{d}", make(distro, {}, {"method": "latin"}, n, indexer_pre="pre"), n, distro, {}, False, "latin", "pre")
    elif t == "sampler":
        n, d = case["n"], case["d"]
        pick = ["qbc", "lambda"][:d]
        distro = {p: interval(p) for p in pick}
        for perms in itertools.product(itertools.permutations(range(n)), repeat=d):
            for off in itertools.product((0.0001, 0.5, 0.9999), repeat=min(n * d, 4)):
                rows = [[(perms[j][i] + off[(i * d + j) % len(off)]) / n for j in range(d)] for i in range(n)]
                with sampler(rows):
                    cfgs = make(distro, {}, {"method": "latin"}, n)
                c.state("sampler", str(rows))
                check(c, "sampler", cfgs, n, distro, {}, False, "latin")
    elif t == "normals":
        n, d = case["n"], case["d"]
        pick = ["qbc", "lambda"][:d]
        distro = {p: interval(p) for p in pick}
        signs = case.get("signs")
        if signs:  # below zero, across it and ending or starting in it
            distro = {p: list(SIGNS[(signs - 1 + i) % len(SIGNS)]) for i, p in enumerate(pick)}
        for zs in itertools.product(Z, repeat=min(4, n * d)):
            with normals(zs) as count:
                cfgs = make(distro, {}, {"method": "gaussian"}, n)
            c.state("normals", n, d, zs)
            check(c, "normals", cfgs, n, distro, {}, False, "gaussian")
            if not count[0]:
                continue
            for p in pick:
                lo, hi = distro[p]
                for cfg in cfgs:
                    z = (cfg[HOME[p]][p] - (lo + hi) / 2) / ((hi - lo) / 2)
                    c.true(any(abs(z - x) < 1e-9 for x in zs), f"{p} in [{lo}, {hi}]: {z} standard deviations from the centre instead of {zs}")
    elif t == "options":
        o = case["o"]
        forc, method = (o or {}).get("forc", False), (o or {}).get("method", "latin")
        distro = {p: interval(p) for p in ("lambda", "qbc", "beta_f", "akapa")}
        for setv in ({}, {"lm": 12, "qo3": 0.4}, {"lambda": 1.0}, {"beta_f": 0.2, "qbc": 0.1, "threstemp": 5.0}):
            for n in (1, 4):
                check(c, f"{o} {setv}", make(distro, dict(setv), o if o is None else dict(o), n), n, distro, setv, forc, method)
    elif t == "defaults":
        o = case["o"]
        forc, method = (o or {}).get("forc", False), (o or {}).get("method", "latin")
        setv = {"threstemp": 7.0, "lm": 40, "ldtime": 12, "qbmb": 0, "qh2o_ch4": 0.091915}
        cfgs = _ConfigDistro(options=o).make_config_lists(5)
        c.trace()
        c.true(len(cfgs) == 5, "number of values")
        for cfg in cfgs:
            for s in SETS:
                for p in cfg[s]:
                    c.true(p == "npp0" or HOME.get(p) == s or (p.startswith(("rb_", "rs_")) and s == "pamset_carbon"), f"{p} in {s}")
            for p, v in setv.items():
                c.true(cfg[HOME[p]][p] == v, f"default value of {p}")
            for p in ("rlamdo", "akapa", "cpi", "W", "beto", "lambda", "mixed", "ocean_efficacy", "delta_lambda_aero"):
                c.true(p in cfg["pamset_udm"], f"{p} missing")
            for p in ("beta_f", "mixed_carbon", "t_half", "rb_coef0", "rs_tim2"):
                c.true((p in cfg["pamset_carbon"]) != forc, f"{p}")
            for p in ("qo3", "qdirso2", "qindso2", "qbc", "qoc"):
                c.true((p in cfg["pamset_emiconc"]) != forc, f"{p}")
        if method == "latin":
            for p, (lo, hi) in {"rlamdo": (5, 25), "akapa": (0.06, 0.8), "cpi": (0.161, 0.569), "W": (0.55, 2.55), "beto": (0, 7), "mixed": (25, 125)}.items():
                u = sorted(math.floor((cfg["pamset_udm"][p] - lo) / (hi - lo) * 5) for cfg in cfgs)
                c.true(u == [0, 1, 2, 3, 4], f"{p}: strata {u}")
    elif t == "moments":
        n = 40000
        pick = ["lambda", "beta_f", "qbc"][: case["d"]]
        distro = {p: interval(p) for p in pick}
        np.random.seed(11)
        cfgs = make(distro, {}, {"method": "gaussian"}, n)
        c.trace()
        for p in pick:
            lo, hi = distro[p]
            z = (np.array([cfg[HOME[p]][p] for cfg in cfgs]) - (lo + hi) / 2) / ((hi - lo) / 2)
            # ten standard errors
            c.true(abs(z.mean()) < 10 / math.sqrt(n), f"{p}: mean {z.mean()} standard deviations off the centre")
            c.true(abs(z.std() - 1) < 10 / math.sqrt(2 * n), f"{p}: standard deviation {z.std()} half widths")
            c.true(abs((z**3).mean()) < 10 * math.sqrt(15 / n) and abs((z**4).mean() - 3) < 10 * math.sqrt(96 / n), f"{p}: not Gaussian")
        if case["d"] > 1:
            x = np.array([[cfg[HOME[p]][p] for p in pick] for cfg in cfgs])
            r = np.corrcoef(x.T)
            c.true(np.all(np.abs(r - np.eye(len(pick))) < 10 / math.sqrt(n)), f"parameters drawn together: {r}")
    elif t == "again":
        for o in OPTS:
            distro = {p: interval(p) for p in ("lambda", "qbc", "beta_f")}
            setv = {"lm": 12, "qo3": 0.4, "rb_coef0": 0.2}
            d = _ConfigDistro(dict(distro), dict(setv), dict(o))
            first = d.make_config_lists(case["n"])
            kept = [{k: (dict(v) if isinstance(v, dict) else v) for k, v in x.items()} for x in first]
            for n in (3, case["n"]):
                more = d.make_config_lists(n)
                check(c, "second list", more, n, distro, setv, o["forc"], o["method"])
                for x in more:
                    x["pamset_udm"]["lm"] = 99
            check(c, "third list", d.make_config_lists(4), 4, distro, setv, o["forc"], o["method"])
            c.true(first == kept, "a list changed when another was made")
    elif t == "run":
        distro = {p: interval(p) for p in ("lambda", "qbc", "beta_f")}
        for o in OPTS:
            r = DistributionRun(_ConfigDistro(distro, {"lm": 12}, o), numvalues=case["n"], indexer_pre="run")
            check(c, "run", r.cfgs, case["n"], distro, {"lm": 12}, o["forc"], o["method"], "run")
    else:
        # fixed values of any kind are kept as they are
        for v in (0, 0.0, -1.5, 7, True, np.float64(0.3), np.int64(4), 1e-300, 1e300):
            for p in ("lambda", "beta_f", "qbc", "rs_coef0", "lm"):
                distro = {"mixed": [25.0, 125.0], "qo3": [-0.5, 0.5], "t_half": [-2.0, -1.0]}
                check(c, f"value {v!r}", make(distro, {p: v}, {}, 3), 3, distro, {p: v}, False, "latin")
        for iv in ([-5.0, -1.0], [-1.0, 1.0], [0.0, 1e-9], [1e8, 1.1e8], [0, 7], [1, 2], (0.5, 0.75), np.array([2.0, 4.0])):
            for m in ("latin", "gaussian"):
                check(c, f"interval {iv}", make({"W": iv}, {}, {"method": m}, 6), 6, {"W": iv}, {}, False, m)
