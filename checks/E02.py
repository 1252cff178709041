"""Methane and nitrous oxide budgets and the methane lifetime rule."""

import itertools

import common
import data
import ref
import sim

ORACLE = "harness/ref.py one-box budgets with the chosen lifetime rule, concentrations of every year"
BOUNDS = {
    "quick": "all histories of length 3 over 8 yearly symbols (CH4/N2O, NOx, CO, NMVOC, natural emissions) x 4 lifetime rules; lifetimes and factors of the gas table; emission start years; natural emissions by year, constant from the gas table, by file; run sequences of all ordered pairs and triples of rules on one object; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "all histories of length 4",
}
MODES = ("TAR", "CONSTANT_12", "WIGLEY", "CONSTANT")
# factors of CH4, N2O, NOx, CO, NMVOC emissions and natural CH4, N2O
SYM = [(1, 1, 1, 1, 1, 1, 1), (0, 0, 1, 1, 1, 1, 1), (4, 3, 1, 1, 1, 1, 1), (1, 1, 2, 1, 1, 1, 1),
       (1, 1, 1, 3, 1, 1, 1), (1, 1, 1, 1, 4, 1, 1), (1, 1, 1, 1, 1, 0, 2), (2, 0.5, 0.1, 0.2, 0, 3, 0)]


def cases(tier):
    for mode in MODES:
        for h in common.histories(8, 3 if tier == "quick" else 4):
            yield {"t": "hist", "mode": mode, "h": h}
        for es in (1990, 1998, 1999, 2001, 2004, 2005, 2030):
            for nat in ("year", "table", "file"):
                yield {"t": "start", "mode": mode, "es": es, "nat": nat}
        for g in ("CH4", "N2O"):
            for colname, f in itertools.product(("BETA", "TAU1", "TAU2", "TAU3", "NAT_EM"), (0.3, 2.0, 20.0)):
                yield {"t": "row", "mode": mode, "g": g, "col": colname, "f": f}
        for c0 in (300.0, 1700.0, 1751.0, 4000.0):
            yield {"t": "level", "mode": mode, "c0": c0}
    for k in (1, 2, 3):
        for seq in itertools.product(range(4), repeat=k):
            yield {"t": "runs", "seq": list(seq)}
    yield {"t": "default"}
    for mode in MODES:
        for nat in ("year", "table", "file"):
            yield {"t": "whole", "mode": mode, "nat": nat}
    for y0 in (1997, 2000, 2001):
        yield {"t": "year2000", "y0": y0}
    yield from sim.sized(("em:CH4", "em:N2O", "em:NOx", "em:CO", "em:NMVOC", "nat_ch4", "nat_n2o", "conc:CH4", "conc:N2O"), ("em",))
    for n in (40, 250):
        for mode in MODES:
            yield {"t": "long", "mode": mode, "n": n}


def both(c, w, em, cfg=None):
    res = sim.run(w, None, em, cfg=cfg)
    out = ref.simulate(w, None, em)
    c.step(len(out["years"]))
    c.trace()
    sim.cmp_conc(c, res, out, ("CH4", "N2O"))
    return res


def run(case, c):
    t = case["t"]
    em = {"ref_yr": 2000}
    if case.get("mode"):
        em["lifetime_mode"] = case["mode"]
    if t == "sized":
        for mode in MODES if abs(case["f"]) < 3 else MODES[1:]:
            _, res, out = sim.run_sized(c, case, None, None, {"lifetime_mode": mode})
            sim.cmp_conc(c, res, out, ("CH4", "N2O"))
    elif t == "hist":
        n = len(case["h"])
        w = data.make_world(nystart=2000, nyend=2000 + n, emstart=2001, thermal_model="twolayer", carbon_cycle_model="box")
        for i, s in enumerate(case["h"]):
            f, y = SYM[s], 2001 + i
            for g, x in zip(("CH4", "N2O", "NOx", "CO", "NMVOC"), f):
                w["em"][g][y] *= x
            w["nat_ch4"][y] *= f[5]
            w["nat_n2o"][y] *= f[6]
            c.state(case["mode"], tuple(case["h"][: i + 1]))
        both(c, w, em)
    elif t == "start":
        w = data.make_world(nystart=1998, nyend=2004, emstart=case["es"])
        cfg = None
        if case["nat"] == "table":
            w["nat_ch4"] = w["nat_n2o"] = None
        elif case["nat"] == "file":
            cfg = data.cfg_with_files(w, ("nat_ch4", "nat_n2o"), c.tmp())
        both(c, w, em, cfg)
    elif t == "row":
        w = data.make_world(nystart=1999, nyend=2004, emstart=2000)
        if case["col"] == "NAT_EM":
            w["nat_ch4"] = w["nat_n2o"] = None
        w["gas"][case["g"]][case["col"]] *= case["f"]
        both(c, w, em)
    elif t == "whole":  # whole numbers everywhere
        w = data.make_world(nystart=1999, nyend=2004, emstart=2000)
        for g in w["gas"]:
            w["gas"][g]["NAT_EM"] = int(w["gas"][g]["NAT_EM"])
        for table in ("em", "conc"):
            for g in w[table]:
                for y in w[table][g]:
                    w[table][g][y] = int(w[table][g][y]) + 1
        cfg = None
        if case["nat"] == "table":
            w["nat_ch4"] = w["nat_n2o"] = None
        elif case["nat"] == "file":
            cfg = data.cfg_with_files(w, ("nat_ch4", "nat_n2o", "gaspam"), c.tmp())
        both(c, w, em, cfg)
    elif t == "level":
        w = data.make_world(nystart=1999, nyend=2004, emstart=2000)
        for y in w["conc"]["CH4"]:
            w["conc"]["CH4"][y] = case["c0"]
        both(c, w, em)
    elif t == "runs":
        w = data.make_world(nystart=1999, nyend=2004, emstart=2000)
        m = sim.build(w)
        for k in case["seq"]:
            e = {"ref_yr": 2000, "lifetime_mode": MODES[k]}
            res = sim.rerun(m, None, e)
            out = ref.simulate(w, None, e)
            c.step(6)
            c.trace()
            sim.cmp_conc(c, res, out, ("CH4", "N2O"))
        res = sim.rerun(m, None, {"ref_yr": 2000})  # the rule is TAR when none is chosen
        sim.cmp_conc(c, res, ref.simulate(w, None, {"ref_yr": 2000}), ("CH4", "N2O"))
        c.trace()
    elif t == "default":
        both(c, data.make_world(), {})
        both(c, data.make_world(), None)
    elif t == "year2000":
        w = data.make_world(nystart=case["y0"], nyend=case["y0"] + 6, emstart=2002)
        both(c, w, em)
        for g in ("NOx", "CO", "NMVOC"):
            w["em"][g][2000] *= 1.7
            both(c, w, em)
    else:
        w = data.make_world(nystart=1998, nyend=1998 + case["n"], emstart=2000, span=(1990, 2000 + case["n"]))
        both(c, w, em)
