"""Figures made with the plotting option show every result once, with its own years and values."""

import itertools
import os

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

import data
import sim
from common import REMOVABLE

ORACLE = "in-memory results of a new object with the same inputs, against the lines drawn in every saved figure (recorded when it is saved)"
BOUNDS = {
    "quick": "gas tables from 12 components fewer to 45 more than the standard 28 (every number, both sides of every figure and row boundary); every removable gas left out; 9 run kinds x 2 output folders x files or memory; run lengths 1-4, 12, 60, 130; forcing of 5 sizes; all ordered pairs of 5 runs with plots in one process",
    "thorough": "all pairs of removable gases left out, every number of components for 4 run kinds, all ordered triples of 5 runs",
}
KINDS = {
    "em": {}, "conc": {"conc_run": True}, "em_two": {"thermal_model": "twolayer"}, "conc_two": {"conc_run": True, "thermal_model": "twolayer"},
    "em_box": {"carbon_cycle_model": "box"}, "forc": {"forc": True}, "forc_two": {"forc": True, "thermal_model": "twolayer"},
    "pert": {"pert": True}, "two_box": {"thermal_model": "twolayer", "carbon_cycle_model": "box"},
}
FAST = ("em_two", "conc_two")
EM = {"ref_yr": 2000, "qnmvoc": 0.01, "qnh3": -0.003}
NOT_SHOWN = ("NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC")
PAIRS = ("em", "conc_two", "forc", "forc_two", "em_box")


def cases(tier):
    deep = tier != "quick"
    for k in KINDS:
        for f, d in itertools.product(("out", "deep/er", None), (None, True)):
            yield {"t": "one", "k": k, "f": f, "d": d}
    for n in range(-12, 46):
        for k in ("em_two", "conc_two", "em", "conc") if deep else (FAST[n % 2],):
            yield {"t": "one", "k": k, "n": n}
    for r in range(1, 3 if deep else 2):
        for g in itertools.combinations(REMOVABLE, r):
            yield {"t": "one", "k": "em_two", "drop": list(g)}
    for n in range(1, 5):
        for k in ("em_two", "conc_two", "forc"):
            yield {"t": "one", "k": k, "years": n}
    for n in (12, 60, 130):
        for k in ("two_box", "conc_two", "forc", "forc_two"):
            yield {"t": "one", "k": k, "years": n}
    for size in (-30.0, -1.0, 0.01, 10.0, 30.0):
        for k in ("forc", "forc_two"):
            yield {"t": "one", "k": k, "size": size}
    for seq in itertools.product(PAIRS, repeat=3 if deep else 2):
        yield {"t": "seq", "seq": list(seq)}


def make(case, kind):
    kw = dict(KINDS[kind])
    years = case.get("years", 4)
    if kw.pop("forc", None):
        w = data.forcing_world([((0.5 * i + 0.25) * case.get("size", 1.0), 0.125 * i * case.get("size", 1.0)) for i in range(years)], nystart=1998, **kw)
        return data.cfg_forcing(w), None
    pert = kw.pop("pert", None)
    n = case.get("n", 0)
    gas = data.gas_table()
    for g in REMOVABLE[:-n] if n < 0 else case.get("drop", ()):
        gas.pop(g, None)
    for i in range(max(n, 0)):
        gas[f"GAS{i}"] = {**gas["CF4"], "TAU1": 5.0 + i, "ALPHA": 0.001 * (i + 1)}
    if years > 10:
        w = data.long_world(1998, 1998 + years - 1, 1999, **kw)
    else:
        w = data.make_world(nystart=1998, nyend=1998 + years - 1, emstart=1999, gas=gas, **kw)
    if pert:
        w["perturb_forc"] = [["CO2", 1999, 0.5], ["BC", 2000, -0.25]]
        w["perturb_em"] = [["CH4", 1999, 30.0]]
    return data.cfg_data(w), {**EM, "ref_yr": min(2000, w["nyend"])}


class Recorder:
    """Stands in for saving figures; keeps what each figure shows at that moment."""

    def __enter__(self):
        self.saved = []
        self.old = matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout
        rec = self

        def savefig(fig, fname, *_, **__):
            panels = []
            for ax in fig.axes:
                lo, hi = sorted(ax.get_xlim())
                lines = [(ln.get_label(), np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float), lo, hi) for ln in ax.lines]
                if lines:
                    panels.append((ax.get_title(), lines))
            rec.saved.append((os.path.abspath(str(fname)), panels))
            open(fname, "wb").close()

        matplotlib.figure.Figure.savefig = savefig
        matplotlib.figure.Figure.tight_layout = lambda *_, **__: None
        return self

    def __exit__(self, *_):
        matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout = self.old


def series(c, what, line, years, values):
    c.close(f"years of {what}", line[1], years)
    c.true(line[3] <= years[0] and line[4] >= years[-1], f"{what} is cut off at the years {line[3]:.2f} to {line[4]:.2f}")
    c.close(f"values of {what}", line[2], values)


def tables(res, cfg):
    """For each table the panels it has to have, by title."""
    units = cfg["gaspam_data"]
    for name, unit in (("forcing", None), ("emissions", "EM_UNIT"), ("concentrations", "CONC_UNIT")):
        want = {}
        for comp in res[name].columns:
            if comp == "Year" or (unit is None and comp in NOT_SHOWN) or (unit is not None and units[unit].get(comp) == "X"):
                continue
            want["Total anthropogenic" if comp == "Total_forcing" else comp] = sim.col(res[name], comp)
        yield name, want


def check(c, saved, folder, res, cfg, years, frames):
    c.step(len(saved))
    names = [p for p, _ in saved]
    c.true(len(set(names)) == len(names), f"a figure file is written twice: {sorted(os.path.basename(n) for n in names)}")
    for p in names:
        c.true(os.path.dirname(p) == os.path.join(folder, "plots"), f"figure {p} is not in the plots folder of {folder}")
    base = {os.path.basename(p): panels for p, panels in saved}
    for f in ("ohc.png", "rib.png", "temp.png"):
        c.true(f in base, f"{f} is missing")
    for title, lines in base.get("ohc.png", ()):
        if c.true(title in res and len(lines) == 1, f"heat content panel {title!r}"):
            series(c, title, lines[0], years, res[title])
    c.true(sorted(t for t, _ in base.get("ohc.png", ())) == ["OHC700", "OHCTOT"], "panels of the heat content figure")
    for f, start in (("rib.png", "RIB_"), ("temp.png", "dT_")):
        want = {k for k in res if k.startswith(start) and (start == "RIB_" or k.split("_")[1] in ("glob", "NH", "SH", "SHsea"))}
        seen = set()
        for title, lines in base.get(f, ()):
            labels = [ln[0] for ln in lines]
            c.true(len(set(labels)) == len(labels), f"{f} panel {title!r} shows a series twice: {labels}")
            for ln in lines:
                seen.add(ln[0])
                if c.true(ln[0] in res, f"{f} has a line for {ln[0]!r}"):
                    series(c, ln[0], ln, years, res[ln[0]])
        c.true(seen == want, f"{f} shows {sorted(seen)} instead of {sorted(want)}")
    rest = [(os.path.basename(p), panels) for p, panels in saved if os.path.basename(p) not in ("ohc.png", "rib.png", "temp.png")]
    if not frames:
        c.true(not rest, "figures of emissions, concentrations or forcing without such results written")
        return
    start = {"forcing": "forc", "emissions": "em", "concentrations": "conc"}
    for name, want in tables(res, cfg):
        got = [panel for f, panels in rest if f.startswith(start[name]) for panel in panels]
        titles = [t for t, _ in got]
        c.true(sorted(titles) == sorted(want), f"{name}: panels {sorted(set(titles) ^ set(want))[:5]} missing or too many, {len(titles)} panels for {len(want)} components")
        for t, lines in got:
            if t in want and c.true(len(lines) == 1, f"{name} panel {t}: {len(lines)} lines"):
                series(c, f"{name} of {t}", lines[0], years, want[t])
        c.state(name, len(want))


_MEM = {}


def memory(case, kind):
    key = (kind, case.get("n", 0), tuple(case.get("drop", ())), case.get("years", 4), case.get("size", 1.0))
    if key not in _MEM:
        cfg, emi = make(case, kind)
        m = sim.CICEROSCM(cfg)
        m._run({"results_as_dict": True}, pamset_emiconc=emi)
        _MEM[key] = m.results
    return _MEM[key]


def one(c, case, kind, folder, as_dict):
    cfg, emi = make(case, kind)
    out = {}
    if folder is not None:
        out["output_folder"] = folder
    if as_dict is not None:
        out["results_as_dict"] = as_dict
    path = os.path.join(os.getcwd(), folder or "output")
    os.makedirs(path, exist_ok=True)
    with Recorder() as rec:
        m = sim.CICEROSCM(cfg)
        m._run(out, pamset_emiconc=emi, make_plot=True)
        c.trace()
    frames = not as_dict and not kind.startswith("forc")
    years = list(range(1998, 1998 + case.get("years", 4)))
    check(c, rec.saved, path, memory(case, kind), cfg, years, frames)


def run(case, c):
    here = os.getcwd()
    os.chdir(c.tmp())
    try:
        if case["t"] == "one":
            one(c, case, case["k"], case.get("f", "out"), case.get("d"))
        else:
            for i, k in enumerate(case["seq"]):
                c.state("seq", tuple(case["seq"][: i + 1]))
                one(c, case, k, ("first", "second", "first")[i], None)
    finally:
        plt.close("all")  # only here: the runs of a sequence share a process with open figures
        os.chdir(here)
