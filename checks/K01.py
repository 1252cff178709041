"""Gas tables with regional aerosols."""

import itertools
import os

import numpy as np
import pandas as pd

import data
import ref
import sim
from checks import A01
from ciceroscm import CICEROSCM
from ciceroscm.pub_utils import make_regional_aerosol_gaspamdata

ORACLE = "reference model (own forcing for each region, direct forcing of the global aerosol off, all else as without regions), runs without regions, and a table written out by hand"
BOUNDS = {
    "quick": "all 512 choices of regions (subsets of 3) for SO2, BC and OC in emission or concentration runs, all 8 choices of aerosols x 2 thermal models x 2 carbon cycles x 5 parameter sets, every region alone perturbed, as single component and in emission and forcing perturbations; all efficiencies of 1 to 3 regions of an aerosol over 4 to 6 values; all emission sequences of 3 levels over 3 years of two regions; runs repeated with other parameters; tables made from all subsets of 3 aerosols x all mappings of up to 3 of 4 regions x 3 factors; repository's regional scenario; whole runs of one to four centuries; 15 awkward names of regions alone and together",
    "thorough": "the same with all orders of the table's rows of up to 4 regional species, all 512 choices in both kinds of runs and both thermal models, sequences over 4 years",
}
BLOCK = 8
AER = ("SO2", "BC", "OC")
REG = ("ASIA", "B", "C_D")
ALPHA = {"SO2": -0.004, "BC": 0.031, "OC": -0.006}
Q = {"SO2": "qdirso2", "BC": "qbc", "OC": "qoc"}
EMI = [None, {"qbc": 0.05, "qdirso2": -0.006, "qoc": -0.009}, {"qbc": 0.0, "qindso2": -0.03, "qbmb": 0.4}, {"qdirso2": 0.01}, {"qoc": 0.02, "qnox": 0.01, "ref_yr": 2001},
       {"qoc": -0.5, "qdirso2": -0.3, "qbc": 3.0}, {"qoc": 1e-9, "qdirso2": 1.0, "qbc": -0.2}]


# names of regions that look like other species, or have parts, digits or blanks
NAMES = ("SO2", "BC", "OC", "OCEANIA", "EAST_ASIA", "BMB_AEROS", "IND", "CO2", "OTHER", "north", "R5.2LAM", "1", "REST OF WORLD", "TOTAL", "X" * 30)


def small():
    return {g: dict(r) for g, r in data.gas_table().items() if g not in ("CFC-113", "CH3Br", "CCl4", "HCFC-22", "CF4", "SF6")}


def species(choice):
    """choice: for each aerosol the regions as a bit mask."""
    return [f"{a}_{r}" for a, mask in zip(AER, choice) for i, r in enumerate(REG) if mask >> i & 1]


def alpha(name):
    a, r = name.split("_", 1)
    return ALPHA[a] * (1 + 0.3 * REG.index(r))


def world(regional, kw=None, place="end"):
    gas = small()
    rows = {n: {**gas[n.split("_", 1)[0]], "ALPHA": alpha(n)} for n in regional}
    if place == "start":
        gas = {"CO2": gas["CO2"], **rows, **gas}
    elif place == "between":
        out = {}
        for g, r in gas.items():
            out.update({n: rows[n] for n in rows if n.split("_", 1)[0] == g})
            out[g] = r
        gas = out
    else:
        gas.update(rows)
    return data.make_world(2000, 2002, 2001, gas=gas, **{"thermal_model": "twolayer", **(kw or {})})


def cases(tier):
    deep = tier != "quick"
    for i, choice in enumerate(itertools.product(range(8), repeat=3)):
        for conc in (False, True) if deep else (bool(i % 2),):
            for th in ("twolayer", "default") if deep else ("twolayer",):
                yield {"t": "choice", "ch": list(choice), "conc": conc, "th": th, "place": ("end", "start", "between")[(i + conc) % 3]}
    for choice in itertools.product((0, 1, 6), repeat=3):
        if max(choice) == 6 and min(choice) == 1:
            continue
        for th, cc in itertools.product(("twolayer", "default"), ("default", "box")):
            for e in range(len(EMI)):
                if deep or 6 not in choice or th == "twolayer":
                    yield {"t": "kinds", "ch": list(choice), "th": th, "cc": cc, "e": e}
    for choice in ((1, 0, 0), (0, 3, 0), (0, 0, 6), (1, 1, 1), (7, 7, 7), (3, 0, 5)):
        for n in species(choice):
            yield {"t": "region", "ch": list(choice), "n": n}
        for e, f in itertools.permutations(range(len(EMI)), 2):
            yield {"t": "again", "ch": list(choice), "es": [e, f]}
    years = 4 if deep else 3
    for seq in itertools.product((0.0, 1.0, 7.0), repeat=years):
        for seq2 in itertools.product((0.0, 3.0), repeat=years):
            yield {"t": "seq", "a": list(seq), "b": list(seq2)}
    for a in AER:
        for n in (1, 2, 3):
            for vals in itertools.product((0.0, 0.02, -0.02, 1e-9, 1.0, -0.04) if n < 3 else (0.0, 0.02, -0.02, -0.04), repeat=n):
                # an efficiency of zero means the general factor, which only the aerosols themselves have
                yield {"t": "values", "a": a, "vals": list(vals), "conc": bool(sum(v > 0 for v in vals) % 2)}
    for place in ("end", "start", "between"):
        yield {"t": "place", "place": place}
    if deep:
        for ch in ((1, 1, 1), (3, 1, 0), (0, 3, 3)):
            for perm in itertools.permutations(species(ch)):
                yield {"t": "perm", "names": list(perm)}
    forcing_regions = ("EAS", "NAM", "RBU", "SAM")
    for cols in itertools.chain.from_iterable(itertools.permutations(AER, n) for n in range(4)):
        yield {"t": "table", "cols": list(cols), "regs": list(forcing_regions)}
    yield {"t": "default_mapping"}
    for kind in ("em", "conc"):
        yield {"t": "pipeline", "kind": kind}
    yield {"t": "real", "conc": False}
    yield {"t": "real", "conc": True}
    yield {"t": "lookalike"}
    for a in AER:
        for r in NAMES:
            for conc in (False, True):
                yield {"t": "named", "names": [f"{a}_{r}"], "conc": conc}
    for conc in (False, True):
        for r in NAMES:
            yield {"t": "named", "names": [f"{a}_{r}" for a in AER], "conc": conc}
        for a in AER:
            yield {"t": "named", "names": [f"{a}_{r}" for r in NAMES], "conc": conc}
    for cent in sim.centuries(tier, every=True):
        yield cent


def check_run(c, what, w, udm=None, emi=None, carbon=None, m=None):
    if m is None:
        m = CICEROSCM(data.cfg_data(w))
    m._run(dict(sim.OUT), pamset_udm=udm, pamset_emiconc=emi, pamset_carbon=carbon)
    out = ref.simulate(w, udm, emi, carbon)
    c.step(len(out["years"]))
    c.trace()
    sim.cmp_all(c, m.results, w, out)
    for n in w["gas"]:
        if n.split("_", 1)[0] in AER and n not in AER:
            yrs = out["years"]
            want = [w["gas"][n]["ALPHA"] * (w["em"][n][y] - w["em"][n][yrs[0]]) for y in yrs]
            c.close(f"{what}: forcing of {n}", sim.col(m.results["forcing"], n), want)
            g = n.split("_", 1)[0]
            c.close(f"{what}: direct forcing of {g}", sim.col(m.results["forcing"], sim.fname(g)), [0.0] * len(yrs))
    names = [x for x in m.results["forcing"].columns if x not in ("Year", "Total_forcing")]
    c.close(f"{what}: sum", sum(sim.col(m.results["forcing"], x) for x in names), m.results["Total_forcing"])
    return m


def base_table(extra=()):
    g = data.df_gas({"gas": data.gas_table()})
    return g


def run(case, c):
    t = case["t"]
    c.state(repr(sorted((k, repr(v)) for k, v in case.items())))
    if t == "named":
        gas = small()
        for i, n in enumerate(case["names"]):
            a = n.split("_", 1)[0]
            gas[n] = {**gas[a], "ALPHA": ALPHA[a] * (1 + 0.2 * i)}
        check_run(c, "named", data.make_world(2000, 2002, 2001, gas=gas, thermal_model="twolayer", **({"conc_run": True} if case["conc"] else {})))
    elif t == "values":
        gas = small()
        for r, v in zip(REG, case["vals"]):
            gas[f"{case['a']}_{r}"] = {**gas[case["a"]], "ALPHA": v}
        check_run(c, "efficiencies", data.make_world(2000, 2002, 2001, gas=gas, thermal_model="twolayer", **({"conc_run": True} if case["conc"] else {})))
    elif t == "century":
        gas = data.gas_table()
        for n in species((3, 1, 6)):
            gas[n] = {**gas[n.split("_", 1)[0]], "ALPHA": alpha(n)}
        check_run(c, "centuries", sim.century_world(case, gas=gas), emi={"ref_yr": 2010})
    elif t == "choice":
        kw = {"thermal_model": case["th"]}
        if case["conc"]:
            kw["conc_run"] = True
        check_run(c, "run", world(species(case["ch"]), kw, case["place"]))
    elif t == "kinds":
        kw = {"thermal_model": case["th"], "carbon_cycle_model": case["cc"]}
        w = world(species(case["ch"]), kw)
        check_run(c, "run", w, emi=EMI[case["e"]], udm={"delta_lambda_aero": 0.0})
        # all that is not an aerosol split in regions is as without regions
        plain = sim.run(world([], kw), emiconc=EMI[case["e"]])
        res = sim.run(w, emiconc=EMI[case["e"]])
        split = {a for a, m in zip(AER, case["ch"]) if m}
        for x in plain["forcing"].columns:
            name = "SO2" if x == "SO4_DIR" else x
            if name in split or x in ("Total_forcing",) or (x in ("CO2", "TROP_O3", "CH4", "N2O", "STRAT_H2O")):
                continue
            c.close(f"forcing of {x} with and without regions", sim.col(res["forcing"], x), sim.col(plain["forcing"], x))
    elif t == "region":
        w = world(species(case["ch"]))
        n = case["n"]
        a = sim.run(w)
        w2 = world(species(case["ch"]))
        for y in (2001, 2002):
            w2["em"][n][y] *= 1.5
        b = sim.run(w2)
        c.trace(2)
        c.step(2)
        d = w["em"][n][2001] * 0.5 * alpha(n)
        fa, fb = sim.col(a["forcing"], n), sim.col(b["forcing"], n)
        c.close(f"forcing of {n} with more emissions", fb - fa, [0.0, d, w["em"][n][2002] * 0.5 * alpha(n)], srel=1e-7)
        for x in a["forcing"].columns:
            if x not in (n, "Total_forcing", "CO2", "CH4", "N2O"):  # CO2 through temperature, N2O and CH4 by overlap
                c.close(f"forcing of {x} with other emissions of {n}", sim.col(b["forcing"], x), sim.col(a["forcing"], x))
        c.close("total in the year", b["Total_forcing"][1] - a["Total_forcing"][1], d, srel=1e-7)
        check_run(c, "more emissions", w2)
        # single component, perturbations
        for y in (2000, 2001, 2002):
            w3 = world(species(case["ch"]))
            w3["perturb_forc"] = [[n, y, 0.37], [n, y, 0.1], ["CH4", 2001, 0.2]]
            m = CICEROSCM(data.cfg_data(w3))
            m._run(dict(sim.OUT))
            sim.cmp_all(c, m.results, w3, ref.simulate(w3))
            w4 = world(species(case["ch"]))
            w4["perturb_em"] = [[n, y, 5.0]]
            plus = world(species(case["ch"]))
            plus["em"][n][y] += 5.0
            c.trace(2)
            sim.same(c, f"emissions of {n} perturbed in {y}", sim.snapshot(sim.run(w4)), sim.snapshot(sim.run(plus)))
        one = {"just_one": n}
        res = sim.run(w, emiconc=one)
        out = ref.simulate(w, None, one)
        c.close(f"only {n}: total", res["Total_forcing"], [alpha(n) * (w["em"][n][y] - w["em"][n][2000]) for y in (2000, 2001, 2002)])
        sim.cmp_thermal(c, res, out)
    elif t == "again":
        w = world(species(case["ch"]))
        m = None
        for e in case["es"] + case["es"][:1]:
            m = check_run(c, f"after {case['es']}", w, emi=EMI[e], m=m)
    elif t == "seq":
        w = world(["SO2_ASIA", "BC_B"], {"nyend": None} if False else None)
        w["nyend"] = 1999 + len(case["a"])
        w["luc"] = [w["luc_by_year"][2000 + i] for i in range(len(case["a"]))]
        w["sun"] = [0.0] * len(case["a"])
        w["volc_n"] = w["volc_s"] = [[0.0] * 12] * len(case["a"])
        for i, (x, y) in enumerate(zip(case["a"], case["b"])):
            w["em"]["SO2_ASIA"][2000 + i] = x
            w["em"]["BC_B"][2000 + i] = y
        check_run(c, "sequence", w)
    elif t == "place":
        names = species((3, 1, 7))
        a = sim.snapshot(sim.run(world(names, place=case["place"])))
        sim.same(c, "place of the rows", a, sim.snapshot(sim.run(world(names[::-1]))))
        c.trace(2)
        c.step()
    elif t == "perm":
        check_run(c, "order", world(case["names"]))
    elif t == "table":
        regs, cols = case["regs"], case["cols"]
        full = pd.DataFrame({a: [ALPHA[a] * 1e-9 * (1 + i) * (1 + j) for i in range(len(regs))] for j, a in enumerate(AER)}, index=regs)
        rf = full[cols]
        gas = data.df_gas({"gas": data.gas_table()})
        # factors of zero and of either sign; a second table made from the first
        mapping = {"R0": regs[0], "R1": regs[2]}
        made = gas
        for scale in ((0.0, 1.0, 1.0, 1.0), (0.0,) * 4, (-1.0, 1.0, 1e-6, 1e6), (1.0, 2.0, 3.0, 4.0)):
            zero = rf.mul(scale, axis=0)
            before = made.copy(deep=True)
            out = make_regional_aerosol_gaspamdata(made, zero, reg_mapping=dict(mapping))
            c.step()
            c.trace()
            c.true(made.equals(before) and list(made.index) == list(before.index), "the table given was changed")
            c.true(list(out.index) == list(gas.index) + [f"{a}_{k}" for a in cols for k in mapping], f"rows with factors {scale}: {list(out.index)[-6:]}")
            for a in cols:
                for k, r in mapping.items():
                    if f"{a}_{k}" in out.index:
                        c.close(f"efficiency of {a}_{k} with factors {scale}", float(out.loc[f"{a}_{k}", "ALPHA"]), full.loc[r, a] * scale[regs.index(r)] * 1e9)
            made = out
        for n in range(4):
            for targets in itertools.product(regs, repeat=n):
                for conv in (1e9, 1.0, 2.5e6):
                    mapping = {f"R{i}": r for i, r in enumerate(targets)}
                    gas = data.df_gas({"gas": data.gas_table()})
                    old = gas.copy(deep=True)
                    out = make_regional_aerosol_gaspamdata(gas, rf, reg_mapping=mapping, unit_conversion=conv)
                    c.step()
                    c.trace()
                    c.state(tuple(cols), targets, conv)
                    want = {f"{a}_{k}": (a, rf.loc[r, a] * conv) for a in cols for k, r in mapping.items()}
                    c.true(set(out.index) == set(old.index) | set(want) and len(out) == len(old) + len(want), f"rows {sorted(set(out.index) ^ (set(old.index) | set(want)))[:5]}")
                    c.true(out.loc[old.index].equals(old) or (out.loc[old.index].astype(str) == old.astype(str)).all().all(), "rows of the global table changed")
                    c.true(list(out.columns) == list(old.columns), "columns changed")
                    for name, (a, v) in want.items():
                        if name not in out.index:
                            continue
                        c.close(f"efficiency of {name}", float(out.loc[name, "ALPHA"]), v)
                        for col in old.columns:
                            if col != "ALPHA":
                                c.true(out.loc[name, col] == old.loc[a, col], f"{col} of {name}")
                    if c.fails:
                        return
    elif t == "default_mapping":
        rf = pd.DataFrame({a: [ALPHA[a] * 1e-9 * (1 + i) for i in range(7)] for a in AER}, index=["EAS", "SAM", "NAF", "NAM", "RBU", "XXX", "GLO"])
        out = make_regional_aerosol_gaspamdata(data.df_gas({"gas": data.gas_table()}), rf)
        c.step()
        c.trace()
        for a in AER:
            for k, r in {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}.items():
                c.close(f"efficiency of {a}_{k}", float(out.loc[f"{a}_{k}", "ALPHA"]), rf.loc[r, a] * 1e9)
        c.true(len(out) == len(data.gas_table()) + 15, f"{len(out)} rows")
    elif t == "pipeline":
        regs = ["EAS", "NAM"]
        for cols in itertools.chain.from_iterable(itertools.combinations(AER, n) for n in (1, 2, 3)):
            rf = pd.DataFrame({a: [ALPHA[a] * 1e-9, ALPHA[a] * 2e-9] for a in cols}, index=regs)
            mapping = {"ASIA": "EAS", "OECD": "NAM"}
            w = data.make_world(2000, 2002, 2001, gas=small(), thermal_model="twolayer", **({"conc_run": True} if case["kind"] == "conc" else {}))
            table = make_regional_aerosol_gaspamdata(data.df_gas(w), rf, reg_mapping=mapping)
            gas = {g: {k: (v if isinstance(v, str) else float(v)) for k, v in r.items()} for g, r in table.to_dict("index").items()}
            w = data.make_world(2000, 2002, 2001, gas=gas, thermal_model="twolayer", **({"conc_run": True} if case["kind"] == "conc" else {}))
            cfg = data.cfg_data(w)
            cfg["gaspam_data"] = table
            check_run(c, "table made", w, m=CICEROSCM(cfg))
    elif t == "real":
        path = os.path.join(data.TEST_DATA, "ssp245_with_regional_aerosols_em_RCMIP.txt")
        kw = {"thermal_model": "twolayer"}
        if case["conc"]:
            kw["conc_run"] = True
        w, cfg = data.real_world(1990, 2014, 2000, gas_file="gases_vupdate_2022_AR6.txt", sunvolc=0, **kw)
        rf = pd.read_csv(os.path.join(data.TEST_DATA, "HTAP_reg_aerosol_RF.txt"), sep="\t", index_col=0).rename(columns={"sulfate": "SO2"})
        for a in AER:
            for k, r in {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}.items():
                w["gas"][f"{a}_{k}"] = {**w["gas"][a], "ALPHA": float(rf.loc[r, a]) * 1e9}
        w["em"] = data.parse_table(path)
        cfg.pop("gaspam_file")
        cfg["gaspam_data"] = data.df_gas(w)
        cfg["emissions_file"] = path
        w["functions"] = None
        check_run(c, "regional scenario", w, m=CICEROSCM(cfg))
    else:
        # names that start like an aerosol but are no regions of it
        for names in ((), ("BC_ASIA",), ("OC_ASIA",), ("SO2_ASIA",)):
            for drop in ((), ("BMB_AEROS_BC",)):
                w = world(list(names))
                for g in drop:
                    del w["gas"][g]
                    del w["em"][g]
                check_run(c, f"{names}", w)
                res = sim.run(w)
                for a in AER:
                    zero = np.allclose(sim.col(res["forcing"], sim.fname(a)), 0.0)
                    c.true(zero == any(n.startswith(a + "_") for n in names), f"direct forcing of {a} with {names}")
