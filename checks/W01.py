"""Nothing but the inputs counts, and a run leaves the process as it was."""

import contextlib
import gc
import itertools
import json
import logging
import os
import pkgutil
import random
import subprocess
import sys
import threading
import warnings

import A01
import data
import numpy as np
import pandas as pd
import sim
from procstate import state

import ciceroscm
from ciceroscm import CICEROSCM
from ciceroscm.formattingtools.reformat_cscm_results import CSCMREADER
from ciceroscm.formattingtools.reformat_inputdata_to_cscm_format import COMMONSFILEWRITER
from ciceroscm.parallel._configdistro import _ConfigDistro
from ciceroscm.parallel.cscmparwrapper import CSCMParWrapper, run_ciceroscm_parallel

ORACLE = "the same run in an ordinary process, and the state of the process before the run"
BOUNDS = {
    "quick": "each of 19 settings of the process and all pairs of them x 11 kinds of models (results as dictionary and as files); 24 processes with other hash seeds, 8 with other interpreter options and variables, and one for every module of the package imported first, each with a run of every kind; 23 items of process state before and after every operation and, for 15 of them, around the first operation of a new process (11 kinds x 6 runs, refused runs, ensembles, distributions, readers, tables)",
    "thorough": "triples of settings for 4 kinds, 200 hash seeds",
}
MODULES = sorted(m.name for m in pkgutil.walk_packages(ciceroscm.__path__, "ciceroscm.") if "_version" not in m.name)
OPTIONS = {
    "-O": (["-O"], {}), "-OO": (["-OO"], {}), "ascii": ([], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}),
    "time zone": ([], {"TZ": "Pacific/Kiritimati"}), "no home": ([], {"HOME": "/nonexistent", "XDG_CONFIG_HOME": "/nonexistent"}),
    "dev": (["-X", "dev", "-W", "ignore"], {}), "isolated": (["-s"], {"PYTHONNOUSERSITE": "1"}), "four threads": ([], {"OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4"}),
}
RUNS = ("dict", "carbon", "files", "prefix", "plot", "again")


def cases(tier):
    deep = tier != "quick"
    names = list(SETTINGS)
    for r in (1, 2, 3) if deep else (1, 2):
        for s in itertools.combinations(names, r):
            yield {"t": "settings", "s": list(s)}
    for n in range(0, 200 if deep else 24):
        yield {"t": "process", "seed": n, "first": "-", "o": None}
    for o in OPTIONS:
        yield {"t": "process", "seed": 0, "first": "-", "o": o}
    for m in MODULES:
        yield {"t": "process", "seed": 0, "first": m, "o": None}
    for kind in A01.KINDS:
        for how in RUNS:
            yield {"t": "after", "kind": kind, "how": how}
    for what in OTHERS:
        yield {"t": "after", "what": what}
    for kind in A01.KINDS if deep else ("em", "two_box", "forc"):
        for how in RUNS:
            yield {"t": "first", "kind": kind, "how": how}
    for what in OTHERS:
        yield {"t": "first", "what": what}


# ------------------------------------------------------------ settings
@contextlib.contextmanager
def cwd(_tmp):
    old = os.getcwd()
    os.chdir(_tmp)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def in_root(_tmp):
    old = os.getcwd()
    os.chdir("/")
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def seeds(_tmp):
    a, b = np.random.get_state(), random.getstate()
    np.random.seed(12345)
    random.seed(99)
    try:
        yield
    finally:
        np.random.set_state(a)
        random.setstate(b)


def printing(**kw):
    @contextlib.contextmanager
    def setting(_tmp):
        with np.printoptions(**kw):
            yield

    return setting


def frames(*pairs):
    @contextlib.contextmanager
    def setting(_tmp):
        with pd.option_context(*pairs):
            yield

    return setting


def errors(**kw):
    @contextlib.contextmanager
    def setting(_tmp):
        with np.errstate(**kw):
            yield

    return setting


class Count(logging.Handler):
    def emit(self, record):
        record.getMessage()
        self.format(record)


@contextlib.contextmanager
def verbose(_tmp):
    h, root, level, off = Count(), logging.getLogger(), logging.getLogger().level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    try:
        yield
    finally:
        root.removeHandler(h)
        root.setLevel(level)
        logging.disable(off)


@contextlib.contextmanager
def variables(_tmp):
    new = {"OUTPUT": "/nonexistent", "CICEROSCM": "1", "DEBUG": "1", "PATH": "/nonexistent", "TMPDIR": _tmp, "LANG": "nb_NO.UTF-8"}
    old = {k: os.environ.get(k) for k in new}
    os.environ.update(new)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextlib.contextmanager
def no_collection(_tmp):
    was = gc.isenabled()
    gc.disable()
    try:
        yield
    finally:
        if was:
            gc.enable()


@contextlib.contextmanager
def arguments(_tmp):
    old = sys.argv
    sys.argv = ["prog", "--nystart", "1900", "output"]
    try:
        yield
    finally:
        sys.argv = old


@contextlib.contextmanager
def mask(_tmp):
    old = os.umask(0o027)
    try:
        yield
    finally:
        os.umask(old)


@contextlib.contextmanager
def shown(_tmp):
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        yield


@contextlib.contextmanager
def other_files(_tmp):
    """The working directory holds files and folders with names the model might look for."""
    old = os.getcwd()
    folder = os.path.join(_tmp, "crowded")
    os.makedirs(os.path.join(folder, "output"), exist_ok=True)
    os.makedirs(os.path.join(folder, "input_OTHER", "NATEMIS"), exist_ok=True)
    for name in ("natemis_ch4.txt", "natemis_n2o.txt"):
        with open(os.path.join(folder, "input_OTHER", "NATEMIS", name), "w", encoding="utf8") as f:
            f.write("1.0\n" * 751)
    for name in ("solar_IPCC.txt", "IPCC_LUCalbedo.txt", "meanVOLCmnd_ipcc_NH.txt", "gases.txt", "emissions.txt", "numpy.txt"):
        with open(os.path.join(folder, name), "w", encoding="utf8") as f:
            f.write("1.0\n" * 751)
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def nothing(_tmp):
    yield


SETTINGS = {
    "other folder": cwd, "root folder": in_root, "other files around": other_files, "random numbers": seeds,
    "numbers printed short": printing(precision=2, suppress=True), "numbers printed in parts": printing(threshold=3, edgeitems=1),
    "frames printed short": frames("display.precision", 2, "display.max_rows", 3), "frames printed with a format": frames("display.float_format", "{:.1f}".format),
    "numpy errors ignored": errors(all="ignore"), "numpy errors warned of": errors(all="warn"), "all log messages": verbose, "no log messages": None,
    "variables": variables, "no garbage collection": no_collection, "arguments": arguments, "umask": mask, "warnings shown": shown,
    "thread": None, "frames without numexpr": frames("compute.use_numexpr", False, "compute.use_bottleneck", False),
}


@contextlib.contextmanager
def silent(_tmp):
    old = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(old)


SETTINGS["no log messages"] = silent
SETTINGS["thread"] = nothing  # done by within()


def within(settings, tmp, fun):
    """fun() with these settings, in a thread of its own where asked for."""
    with contextlib.ExitStack() as stack:
        for s in settings:
            stack.enter_context(SETTINGS[s](tmp))
        if "thread" not in settings:
            return fun()
        out = []

        def work():
            try:
                out.append(fun())
            except Exception as err:  # noqa: BLE001 - handed on
                out.append(err)

        t = threading.Thread(target=work)
        t.start()
        t.join()
        if isinstance(out[0], Exception):
            raise out[0]
        return out[0]


# ------------------------------------------------------------ runs
def one(kind):
    m = CICEROSCM(A01.config(kind))
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True})
    snap = sim.snapshot(m.results)
    for k, v in m.results.items():
        if hasattr(v, "columns"):
            snap[f"{k}|order #columns"] = [str(x) for x in v.columns]
    return snap


def everything():
    return {kind: one(kind) for kind in A01.KINDS}


def to_files(kind, folder):
    out = os.path.join(folder, "out_" + kind)
    os.makedirs(out, exist_ok=True)
    CICEROSCM(A01.config(kind))._run({"output_folder": out, "output_prefix": "r", "carbon_cycle_outputs": True})
    got = {}
    for name in sorted(os.listdir(out)):
        df = pd.read_csv(os.path.join(out, name), sep="\t")
        for col in df.columns:
            got[f"{name}|{col}"] = df[col].to_numpy(dtype=float)
    return got


_BASE = {}


def base(c):
    if not _BASE:
        _BASE["dict"] = everything()
        _BASE["files"] = {k: to_files(k, c.tmp()) for k in A01.KINDS}
    return _BASE


# ------------------------------------------------------------ state of the process
def files(folder):
    return sorted(os.path.join(d, f)[len(folder):] for d, _, fs in os.walk(folder) for f in fs)


def scenario(name="s", **kw):
    cfg = A01.config("two_box")
    cfg.update(scenname=name, udir="none", **kw)
    return cfg


NAMES = ["Surface Air Ocean Blended Temperature Change", "Effective Radiative Forcing", "Atmospheric Concentrations|CH4", "Heat Content|Ocean"]


def refused():
    for cfg in ({"nystart": 2000, "nyend": 2002}, {**A01.config("two"), "thermal_model": "unknown"}, {**A01.config("two"), "concentrations_file": "/nonexistent/x"}):
        try:
            CICEROSCM(cfg)
        except Exception:  # noqa: BLE001 - meant to fail
            pass
    m = CICEROSCM(A01.config("em"))
    for carbon in ({"rb_coef0": 0.5}, {"rs_function": {"coeffs": [0.1], "timescales": [1, 2]}}):
        try:
            m._run({"results_as_dict": True}, pamset_carbon=carbon)
        except Exception:  # noqa: BLE001 - meant to fail
            pass


def reader():
    m = CICEROSCM(A01.config("two_box"))
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True})
    r, wr = CSCMREADER(2000, 2002), COMMONSFILEWRITER(data.df_gas(data.make_world()), 2000, 2003)
    for n in (*NAMES, "Emissions|CH4", "Nonsense"):
        r.get_variable_timeseries(m.results, n, wr)


def gaussian():
    was = np.random.get_state()
    _ConfigDistro({"lambda": [0.5, 1.0], "qbc": [0.01, 0.02]}, {}, {"method": "gaussian"}).make_config_lists(4)
    np.random.set_state(was)  # drawing is what it is for


OTHERS = {
    "refused": refused, "reader": reader,
    "latin": lambda: _ConfigDistro({"lambda": [0.5, 1.0], "qbc": [0.01, 0.02]}, {}).make_config_lists(4), "gaussian": gaussian,
    "wrapper": lambda: CSCMParWrapper(scenario()).run_over_cfgs([{"Index": "0"}, {"Index": "1", "pamset_udm": {"lambda": 0.7}}], NAMES),
    "failing wrapper": lambda: quiet(lambda: CSCMParWrapper(scenario()).run_over_cfgs([{"Index": "0", "pamset_carbon": {"rb_coef0": 1.0}}], NAMES)),
    "ensemble": lambda: run_ciceroscm_parallel([scenario("a"), scenario("b")], [{"Index": "0"}, {"Index": "1"}], NAMES, 2),
    "ensemble of one": lambda: run_ciceroscm_parallel([scenario("a")], [{"Index": "0"}], NAMES, 1),
}


def quiet(fun):
    try:
        fun()
    except Exception:  # noqa: BLE001 - meant to fail
        pass


def perform(kind, how, folder):
    m = CICEROSCM(A01.config(kind))
    opt = {"results_as_dict": True}
    if how == "carbon":
        opt["carbon_cycle_outputs"] = True
    elif how in ("files", "prefix", "plot"):
        out = os.path.join(folder, "out")
        os.makedirs(out, exist_ok=True)
        opt = {"output_folder": out}
        if how != "files":
            opt["output_prefix"] = "pre"
    m._run(opt, make_plot=how == "plot")
    if how == "again":
        m._run(opt, pamset_udm={"lambda": 0.9})


def process(c, first, seed=0, opts=(), env=None):
    """What envrun.py reports from a process of its own."""
    folder = os.path.join(c.tmp(), "process")
    os.makedirs(folder, exist_ok=True)
    out = os.path.join(c.tmp(), "out.json")
    script = os.path.join(os.path.dirname(os.path.abspath(sim.__file__)), "envrun.py")
    e = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", **(env or {})}
    r = subprocess.run([sys.executable, *opts, script, first, out], env=e, cwd=folder, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=140, check=False)
    if not c.true(r.returncode == 0, f"process failed: {r.stderr[-400:]!r}"):
        return None
    with open(out, encoding="ascii") as f:
        return json.load(f)


def operation(what):
    """The operation of an "after" or "first" case: the name of one of OTHERS, or kind:how."""
    if what in OTHERS:
        return OTHERS[what]
    kind, how = what.split(":")
    return lambda: perform(kind, how, os.getcwd())


def run(case, c):
    t = case["t"]
    c.trace()
    if t == "settings":
        want = base(c)
        folder = os.path.join(c.tmp(), "w")
        os.makedirs(folder, exist_ok=True)
        for kind in A01.KINDS if len(case["s"]) < 3 else ("em", "two_box", "conc_two", "forc"):
            c.step(2)
            c.state(kind, tuple(case["s"]))
            sim.same(c, f"{kind} with {case['s']}", within(case["s"], folder, lambda kind=kind: one(kind)), want["dict"][kind])
            if len(case["s"]) == 1 or kind in ("two_box", "forc"):
                got = within(case["s"], folder, lambda kind=kind: to_files(kind, c.tmp()))
                same_files(c, f"files of {kind} with {case['s']}", got, want["files"][kind])
    elif t == "process":
        want = base(c)["dict"]
        c.step(len(want))
        c.state("process", case["seed"], case["first"], case["o"])
        got = process(c, case["first"], case["seed"], *(OPTIONS[case["o"]] if case["o"] else ([], {})))
        for kind, snap in want.items():
            if got is not None:
                sim.same(c, f"{kind} in another process", {k: v if k.endswith(("#columns", "#index")) else np.array(v) for k, v in got[kind].items()}, snap)
    elif t == "first":
        name = case.get("what") or f"{case['kind']} {case['how']}"
        got = process(c, "first:" + (case.get("what") or f"{case['kind']}:{case['how']}"))
        c.step()
        c.state("first", name)
        c.true(got is None or not got, f"the first {name} of a process changed {got}")
    else:
        folder = os.path.join(c.tmp(), "w")
        os.makedirs(folder, exist_ok=True)
        old = os.getcwd()
        os.chdir(folder)
        try:
            fun = operation(case.get("what") or f"{case['kind']}:{case['how']}")
            name = case.get("what") or f"{case['kind']} {case['how']}"
            fun()  # what is set up once on first use
            seen = files(folder)
            gc.collect()
            before = state(folder)
            fun()
            gc.collect()
            after = state(folder)
            c.step()
            c.state(name)
            for k in before:
                c.true(before[k] == after.get(k), f"{name} changed {k}: {str(before[k])[:150]} -> {str(after.get(k))[:150]}")
            c.true(files(folder) == seen, f"{name} left other files")
            stray = [f for f in files(folder) if not f.startswith("/out/")]
            c.true(not stray, f"{name} left files {stray[:4]}")
        finally:
            os.chdir(old)


def same_files(c, name, got, want):
    c.true(set(got) == set(want), f"{name}: {sorted(set(got) ^ set(want))[:5]}")
    for k in want:
        if k in got and not c.close(f"{name}: {k}", got[k], want[k], rtol=1e-9):
            return
