"""Total forcing is the sum of the reported components."""

import itertools
import os

import numpy as np

import common
import data
import ref
import sim

ORACLE = "sum over the reported component columns of the same run (no reference model); single-component and forcing runs: the component, and given forcing plus solar"
BOUNDS = {
    "quick": "gas tables without each one and each pair of 13 removable gases; each of 28 components alone; all forcing perturbation sets of size 1-2 over 8 components x 2 years; 4 run kinds x 2 thermal models x 2 carbon models; forcing files in 4 layouts; all start/emission years of a window; the 4 gas tables of the repository with real data; whole runs of two to four centuries; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "also triples of removed gases, perturbation sets of size 3, regional tables",
}
KINDS = [("em", "default", "default"), ("em", "twolayer", "default"), ("em", "default", "box"), ("conc", "default", "default")]
PERT = ["CO2", "CFC-11", "SO2", "BC", "STRAT_O3", "TROP_O3", "LANDUSE", "OTHER"]


def cases(tier):
    deep = tier != "quick"
    for k in range(2 + 2 * deep):
        for r in ([0, 1, 2] + ([3] if deep and k == 0 else [])):
            for rem in itertools.combinations(common.REMOVABLE, r):
                yield {"t": "drop", "k": k, "rem": list(rem)}
    for k in range(4):
        for g in data.GAS_ROWS:
            for sun in (0, 1):
                yield {"t": "one", "k": k, "g": g, "sun": sun}
        for rows in itertools.product(PERT, (2000, 2003)):
            yield {"t": "pert", "k": k, "rows": [list(rows)]}
    for a, b in itertools.combinations(list(itertools.product(PERT, (2000, 2003))), 2):
        yield {"t": "pert", "k": (len(a[0]) + b[1]) % 4, "rows": [list(a), list(b)]}
    if deep:
        for tri in itertools.combinations(list(itertools.product(PERT, (2000, 2003))), 3):
            yield {"t": "pert", "k": 0, "rows": [list(x) for x in tri]}
    for model in ("default", "twolayer"):
        for layout in ("column", "hemi", "total", "components", "data"):
            for sun in (0, 1):
                yield {"t": "forcing", "model": model, "layout": layout, "sun": sun}
    for y0 in (1996, 1998, 2000):
        for ny in (1, 2, 4, 6, 9):
            for es in (-1, 0, 1, 3, 5, 20):
                yield {"t": "years", "y0": y0, "ny": ny, "es": y0 + es}
    for g in data.GAS_FILES:
        for cr in (None, True):
            if "added_new" not in g:  # the data hold no values for the gases added there
                yield {"t": "real", "gas": g, "conc_run": cr}
        for k in range(4):
            yield {"t": "table", "gas": g, "k": k}
    for q in common.singles(common.EMICONC_VALUES):
        yield {"t": "par", "q": q}
    yield from sim.centuries(tier, every=True)
    yield from sim.sized()


def sum_check(c, res):
    df = res["forcing"]
    names = [x for x in df.columns if x not in ("Year", "Total_forcing")]
    c.true(len(set(names)) == len(names), "components reported more than once")
    tot = df[names].to_numpy(dtype=float).sum(axis=1)
    c.close("sum of components", df["Total_forcing"].to_numpy(dtype=float), tot)
    c.close("total in results", res["Total_forcing"], tot)
    return names


def kind_kw(k):
    kind, th, cc = KINDS[k]
    return {"thermal_model": th, "carbon_cycle_model": cc, "conc_run": True if kind == "conc" else None}


def world(k, **kw):
    a = {"nystart": 1999, "nyend": 2005, "emstart": 2001}
    a.update(kw)
    return data.make_world(**a, **kind_kw(k))


def expected_names(w):
    return {sim.fname(g) for g in w["gas"]}


def run(case, c):
    t = case["t"]
    if t == "forcing":
        return forcing(case, c)
    if t == "sized":
        w, res, out = sim.run_sized(c, case)
        c.true(set(sum_check(c, res)) == expected_names(w), "components reported")
        sim.cmp_total(c, res, out)
        return None
    if t == "century":
        w = sim.century_world(case)
        w["perturb_forc"] = [["CO2", case["y0"] + 70, 0.7], ["CFC-11", case["y1"] - 1, 0.4], ["BC", case["y0"] + 3, -0.3]]
        res, out = sim.century(c, case, w)
        c.true(set(sum_check(c, res)) == expected_names(w), "components reported")
        sim.cmp_total(c, res, out)
        return None
    em = {"ref_yr": 2000}
    if t == "real":
        w, cfg = data.real_world(1990, 2020, 1995, case["gas"], conc_run=case["conc_run"])
        m = sim.CICEROSCM(cfg)
        m._run({"results_as_dict": True})
        c.step(31)
        c.trace()
        names = sum_check(c, m.results)
        c.true(set(names) == expected_names(w), "components reported")
        return None
    if t == "drop":
        w = world(case["k"], gas=data.gas_table([g for g in data.GAS_ROWS if g not in case["rem"]]))
    elif t == "one":
        w = world(case["k"])
        if case["sun"]:
            data.add_sunvolc(w)
        em["just_one"] = case["g"]
    elif t == "table":
        w = world(case["k"], gas=data.parse_gas(os.path.join(data.TEST_DATA, case["gas"])))
    elif t == "pert":
        w = world(case["k"])
        w["perturb_forc"] = [[g, y, 0.3 + i + 0.1 * len(g)] for i, (g, y) in enumerate(case["rows"])]
    elif t == "years":
        w = world(0, nystart=case["y0"], nyend=case["y0"] + case["ny"] - 1, emstart=case["es"])
    else:
        w = world(0)
        data.add_sunvolc(w)
        em.update(case["q"])
    res = sim.run(w, None, em)
    c.step(w["nyend"] - w["nystart"] + 1)
    c.trace()
    for y in range(w["nystart"], w["nyend"] + 1):
        c.state(str(sorted(case.items(), key=str)), y)
    if t == "one":
        own = sim.col(res["forcing"], sim.fname(case["g"]))
        c.close("single component total", res["Total_forcing"], own)
        c.close("single component total column", sim.col(res["forcing"], "Total_forcing"), own)
        full = sim.run(w, None, {"ref_yr": 2000})
        if w.get("conc_run"):  # same component forcing as in the full run
            c.close("component forcing", own, sim.col(full["forcing"], sim.fname(case["g"])))
        return None
    names = sum_check(c, res)
    c.true(set(names) == expected_names(w), f"components reported: {sorted(set(names) ^ expected_names(w))}")
    if t == "pert":
        base = sim.run({**w, "perturb_forc": None}, None, em)
        if w.get("conc_run"):
            want = np.array(base["Total_forcing"])
            for g, y, v in w["perturb_forc"]:
                want[y - w["nystart"]] += v
            c.close("total with perturbation", res["Total_forcing"], want)
    return None


def forcing(case, c):
    n, y0 = 5, 1999
    comps = {"CO2": [0.1 * i for i in range(n)], "BC": [0.3, -0.2, 0.4, 0.0, 1.0], "OTHER": [1.0] * n}
    nh, sh = [1.0, 2.0, -1.0, 0.5, 3.0], [0.5, 4.0, -2.0, 0.0, 1.0]
    lay = case["layout"]
    if lay in ("hemi", "data"):
        seq = list(zip(nh, sh))
        tot = [(a + b) / 2 for a, b in seq]
    elif lay == "total":
        seq = list(zip(nh, sh))
        tot = [(a + b) / 2 + 0.25 for a, b in seq]
    else:
        tot = nh if lay == "column" else [sum(v[i] for v in comps.values()) for i in range(n)]
        seq = [(x, x) for x in tot]
    w = data.forcing_world(seq, nystart=y0, thermal_model=case["model"])
    w["forc"] = tot
    if case["sun"]:
        w["sunvolc"] = 1
        w["sun"] = [0.05 * (i + 1) for i in range(n)]
    cfg = data.cfg_forcing(w)
    if lay != "data":
        del cfg["forc_data"]
        path = os.path.join(c.tmp(), "forc.csv")
        with open(path, "w", encoding="utf8") as f:
            if lay == "column":
                f.writelines(f"{x!r}\n" for x in tot)
            else:
                cols = {"hemi": {"FORC_NH": nh, "FORC_SH": sh},
                        "total": {"total": tot, "FORC_NH": nh, "FORC_SH": sh}, "components": comps}[lay]
                f.write("year," + ",".join(cols) + "\n")
                for i in range(n):
                    f.write(f"{y0 + i}," + ",".join(repr(float(v[i])) for v in cols.values()) + "\n")
        cfg["forc_file"] = path
    m = sim.CICEROSCM(cfg)
    m._run({"results_as_dict": True})
    c.step(n)
    c.trace()
    out = ref.simulate_forcing(w)
    c.close("total of forcing run", m.results["Total_forcing"], [a + b for a, b in zip(tot, w["sun"])])
    c.close("solar", m.results["Solar_forcing"], w["sun"])
    sim.cmp_thermal(c, m.results, out)
