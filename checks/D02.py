"""Every input value acts in its calendar year."""

import itertools

import numpy as np

import data
import ref
import sim

ORACLE = "harness/ref.py with inputs indexed by calendar year; results of a run whose whole calendar is shifted are the same"
BOUNDS = {
    "quick": "14 first years 1750-2480 x lengths 1,2,5,9 x {tables exactly covering, 1 and 4 years more before and after} x {data, files} ; every emission start; emission and concentration runs and both carbon/thermal model pairs; forcing runs with labelled tables covering more years; every single input value changed in every year of a 5 year run in both forms; whole runs of one to four centuries",
    "thorough": "30 first years, lengths 1-9",
}
BASE = 1998
KINDS = [{"carbon_cycle_model": "box", "thermal_model": "twolayer"}, {}, {"conc_run": True}]


def cases(tier):
    deep = tier != "quick"
    firsts = [1750, 1751, 1752, 1759, 1800, 1849, 1850, 1851, 1900, 1999, 2000, 2095, 2101, 2480]
    if deep:
        firsts += [1755, 1765, 1775, 1820, 1870, 1920, 1940, 1960, 1970, 1980, 1990, 2010, 2020, 2040, 2099, 2100]
    for y0 in firsts:
        for n in (1, 2, 5, 9) if not deep else range(1, 10):
            for b, a in ((0, 0), (1, 0), (0, 1), (4, 4)):
                if y0 - b < 1750:
                    continue
                for form in ("data", "file"):
                    for k in range(3):
                        if k and (n in (1, 2)) and not deep:
                            continue
                        yield {"t": "win", "y0": y0, "n": n, "b": b, "a": a, "form": form, "k": k}
    for es in range(-2, 9):
        for form in ("data", "file"):
            for y0 in (1750, 1850, 2003):
                yield {"t": "start", "y0": y0, "es": es, "form": form}
    names = ["em:" + g for g in data.EM_BASE] + ["conc:" + g for g in data.CONC_BASE]
    names += ["nat_ch4", "nat_n2o", "luc", "sun", "volc_n", "volc_s"]
    for name in names:
        for i in range(5):
            for form in ("data", "file"):
                yield {"t": "value", "name": name, "i": i, "form": form}
    for cent in sim.centuries(tier, every=True):
        for form in ("data", "file"):
            yield {**cent, "form": form}
    for model, y0, b, a in itertools.product(("default", "twolayer"), (1750, 1751, 1850, 2000, 2300), (0, 3), (0, 3)):
        if y0 - b >= 1700:
            yield {"t": "forc", "model": model, "y0": y0, "b": b, "a": a, "form": "data"}
            yield {"t": "forc", "model": model, "y0": y0, "b": b, "a": a, "form": "file"}


def shift(w, d, b, a):
    """Move the world by d years; tables cover b years before and a after the run."""
    y0, y1 = w["nystart"], w["nyend"]
    for table in ("em", "conc"):
        w[table] = {g: {y + d: v for y, v in s.items() if y0 - b <= y <= y1 + a} for g, s in w[table].items()}
    for nat in ("nat_ch4", "nat_n2o"):
        w[nat] = {y + d: v for y, v in w[nat].items() if y0 - b <= y <= y1 + a}
    for key in ("nystart", "nyend", "emstart"):
        w[key] += d
    return w


def go(c, w, form, em, what):
    if form == "file":
        cfg = data.cfg_with_files(w, data.FILE_KEYS, c.tmp())
    else:
        cfg = data.cfg_data(w)
    res = sim.run(w, None, em, cfg=cfg)
    out = ref.simulate(w, None, em)
    c.step(len(out["years"]))
    c.trace()
    for y in out["years"]:
        c.state(what, y)
    sim.cmp_all(c, res, w, out)
    ys = out["years"]
    for g in w["em"]:
        if not g.startswith("CO2"):
            c.close(f"reported emissions of {g}", sim.col(res["emissions"], g), [w["em"][g][y] for y in ys])
    c.close("reported emissions of CO2", sim.col(res["emissions"], "CO2"),
            [w["em"]["CO2_FF"][y] + w["em"]["CO2_AFOLU"][y] for y in ys])
    c.close("reported solar", res["Solar_forcing"], w["sun"])
    c.close("reported volcanic NH", res["Volcanic_forcing_NH"], [np.mean(r) for r in w["volc_n"]])
    c.close("reported volcanic SH", res["Volcanic_forcing_SH"], [np.mean(r) for r in w["volc_s"]])
    return res


def run(case, c):
    t = case["t"]
    if t == "century":
        w = sim.century_world(case, sunvolc=1)
        go(c, w, case["form"], {"ref_yr": 2010}, str(case))
    elif t == "win":
        w = data.make_world(nystart=BASE, nyend=BASE + case["n"] - 1, emstart=BASE + 2, **KINDS[case["k"]])
        data.add_sunvolc(w)
        em = {"ref_yr": BASE + case["n"] // 2, "lifetime_mode": "WIGLEY"}
        want = sim.snapshot(sim.run(w, None, em))
        d = case["y0"] - BASE
        shift(w, d, case["b"], case["a"])
        em["ref_yr"] += d
        res = go(c, w, case["form"], em, str(case))
        c.trace()
        snap = sim.snapshot(res)
        skip = {x for x in want if x.endswith("|Year") or x.endswith("#index")}
        sim.same(c, "shifted calendar", snap, want, skip=skip)
    elif t == "start":
        w = data.make_world(nystart=BASE, nyend=BASE + 6, emstart=BASE + case["es"])
        data.add_sunvolc(w)
        d = case["y0"] - BASE
        shift(w, d, 0, 0)
        go(c, w, case["form"], {"ref_yr": case["y0"] + 3, "lifetime_mode": "WIGLEY"}, str(case))
    elif t == "value":
        w = data.make_world(nystart=BASE, nyend=BASE + 4, emstart=BASE + 2)
        data.add_sunvolc(w)
        name, i = case["name"], case["i"]
        y = BASE + i
        if ":" in name:
            table, g = name.split(":")
            w[table][g][y] = w[table][g][y] * 2 + 1
        elif name.startswith("nat"):
            w[name][y] *= 2
        elif name in ("luc", "sun"):
            w[name][i] += 1.0
        else:
            w[name][i] = [v - 1.0 for v in w[name][i]]
        go(c, w, case["form"], {"ref_yr": 2000}, str(case))
    else:
        n, y0, b, a = 4, case["y0"], case["b"], case["a"]
        seq = [(1.0 + (i * i) % 5, 0.3 * i - 1) for i in range(-b, n + a)]
        full = data.forcing_world(seq, nystart=y0 - b, thermal_model=case["model"])
        w = data.forcing_world(seq[b : b + n], nystart=y0, thermal_model=case["model"], sun=[0.1 * i for i in range(n)],
                               volc=[([-0.1 * i, 0.3], [0.2 * i]) for i in range(n)])
        cfg = data.cfg_forcing(w)
        cfg["forc_data"] = data.forc_df(full)
        if case["form"] == "file":
            path = c.tmp() + "/forc.csv"
            cfg.pop("forc_data").to_csv(path, index_label="year")
            cfg["forc_file"] = path
            if y0 >= 1750:
                for key in ("rf_sun", "rf_volc_n", "rf_volc_s"):
                    del cfg[key + "_data"]
                    cfg[key + "_file"] = data.write_file(w, key, c.tmp())
        m = sim.CICEROSCM(cfg)
        m._run({"results_as_dict": True})
        out = ref.simulate_forcing(w)
        c.step(n)
        c.trace()
        sim.cmp_thermal(c, m.results, out)
        sim.cmp_total(c, m.results, out)
        c.true(len(m.results["dT_glob"]) == n, "number of years")
