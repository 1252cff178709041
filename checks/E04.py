"""Prescribed before the emission start, computed from it on."""

import data
import ref
import sim

ORACLE = "prescribed series before the start year (exact), harness/ref.py from it on; CO2 of emission runs always from the reference carbon cycle"
BOUNDS = {
    "quick": "all (first year, length, emission start) with first year in 3, length 1-8, start from 3 years before to 3 after the run x {emission, concentration run} x {default, box carbon}; the same with each of em/conc sent as file; starts 12 centuries to 30 years away from the run; every gas changed before/after the start; whole runs of two to four centuries; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "6 first years, lengths 1-12, both thermal models",
}


def cases(tier):
    deep = tier != "quick"
    firsts = range(1995, 2001) if deep else (1996, 1999, 2000)
    for y0 in firsts:
        for n in range(1, 13 if deep else 9):
            for es in range(y0 - 3, y0 + n + 3):
                for cr in (None, True):
                    for cc in ("default", "box"):
                        for th in ("default", "twolayer") if deep else ("default",):
                            yield {"t": "win", "y0": y0, "n": n, "es": es, "conc_run": cr, "cc": cc, "th": th}
    for es in range(1996, 2006):
        for cr in (None, True):
            for keys in (["emissions"], ["concentrations"], ["emissions", "concentrations"]):
                yield {"t": "file", "es": es, "conc_run": cr, "keys": keys}
    yield from sim.centuries(tier, every=True)
    for es in (0, 1, 1500, 1750, 1850, 1900, 1947, 1949, 1970, 2050, 2100, 3000):  # far from the run
        for y0, n in ((1998, 4), (2001, 1)):
            for cr in (None, True):
                for cc in ("default", "box"):
                    yield {"t": "win", "y0": y0, "n": n, "es": es, "conc_run": cr, "cc": cc, "th": "twolayer"}
    yield from sim.sized(("em", "conc"))
    for g in data.CONC_BASE:
        for y in range(1998, 2004):
            yield {"t": "use", "g": g, "y": y}


def prescribed(c, w, res):
    for i, y in enumerate(data.np_years(w)):
        y = int(y)
        if w.get("conc_run") or y < w["emstart"]:
            for g in w["conc"]:
                if g == "CO2" and not w.get("conc_run"):
                    continue
                got = float(res["concentrations"][g].iloc[i])
                c.true(abs(got - w["conc"][g][y]) <= 1e-12 * abs(got), f"{g} in {y}: {got}, prescribed {w['conc'][g][y]}")


def run(case, c):
    t = case["t"]
    if t == "sized":
        w, res, out = sim.run_sized(c, case)
        sim.cmp_conc(c, res, out)
        prescribed(c, w, res)
        return
    if t == "century":
        w = sim.century_world(case)
        res, out = sim.century(c, case, w)
        sim.cmp_conc(c, res, out)
        prescribed(c, w, res)
        return
    if t == "win":
        y0 = case["y0"]
        w = data.make_world(nystart=y0, nyend=y0 + case["n"] - 1, emstart=case["es"], conc_run=case["conc_run"],
                            carbon_cycle_model=case["cc"], thermal_model=case["th"])
        cfg = None
    elif t == "file":
        w = data.make_world(nystart=1998, nyend=2003, emstart=case["es"], conc_run=case["conc_run"])
        cfg = data.cfg_with_files(w, case["keys"], c.tmp())
    else:
        # a prescribed value counts before the start, in the year before it, and never after
        w = data.make_world(nystart=1998, nyend=2003, emstart=2001)
        g, y = case["g"], case["y"]
        w["conc"][g][y] *= 1.5
        cfg = None
    em = {"ref_yr": 2000}
    res = sim.run(w, None, em, cfg=cfg)
    out = ref.simulate(w, None, em)
    c.step(len(out["years"]))
    c.trace()
    for y in out["years"]:
        c.state(str(case), y)
    sim.cmp_years(c, res, w)
    sim.cmp_conc(c, res, out)
    prescribed(c, w, res)
