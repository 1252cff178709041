"""Pattern effect: feedback from the aerosol share of the same year."""

import itertools

import data
import ref
import sim

SHARE = [0.0, 0.3, 1.0]
FORC = [(2.0, 1.0), (-1.0, 0.5), (3.0, 3.0), (0.5, -0.5)]
DELTA = [0.0, -0.7, 0.9, 3.4]
ORACLE = "harness/ref.py with feedback = base + sensitivity * share of the year; equality of runs with different shares when the sensitivity is zero"
BOUNDS = {
    "quick": "all share histories of length 4 over 3 values x 4 sensitivities x 2 thermal models; component forcing files with all sign patterns of 4 columns; emission runs over all 2-level histories of SO2 and CH4 emissions; runs with only small changes of SO2, BC and CH4, all signs x 3 sizes; whole runs of two to four centuries; every input at 9 sizes from 1e-9 to 1e3 in all years, one year or from a year on",
    "thorough": "share histories of length 5",
}


def cases(tier):
    n = 4 if tier == "quick" else 5
    for model in ("default", "twolayer"):
        for d in DELTA:
            for h in itertools.product(range(3), repeat=n):
                yield {"kind": "column", "model": model, "d": d, "h": list(h)}
        for d in (0.9, -0.4):
            for signs in itertools.product((-1, 0, 1), repeat=4):
                for names in (["CO2", "SO2", "BC", "OTHER"], ["CH4", "SO4_IND", "OC_ASIA", "BMB_AEROS"]):
                    for scale in (1.0, 1e-4) if d > 0 else (1.0, 30.0):
                        yield {"kind": "file", "model": model, "d": d, "signs": list(signs), "names": names, "scale": scale}
        for d in (0.0, 1.3, -0.5):
            for h in itertools.product(range(2), repeat=6):
                yield {"kind": "emission", "model": model, "d": d, "h": list(h)}
        for d in (1.3, -0.5):
            for comps in itertools.product((-1, 0, 1), repeat=3):
                for scale in (1e-4, 1e-2, 0.3):
                    yield {"kind": "small", "model": model, "d": d, "comps": list(comps), "scale": scale}
        if model == "twolayer":
            for one in sim.sized():
                yield {**one, "kind": "sized", "model": model, "d": 1.1}
            for cent in sim.centuries(tier, every=True):
                yield {**cent, "kind": "century", "model": model, "d": 1.1}
        yield {"kind": "long", "model": model, "d": 1.4}
        for d in (0.0, 1.7):
            yield {"kind": "absent", "model": model, "d": d}


def run(case, c):
    model, d = case["model"], case["d"]
    if case["kind"] == "column":
        share = [SHARE[i] for i in case["h"]]
        seq = [FORC[i % 4] for i in range(len(share))]
        w = data.forcing_world(seq, thermal_model=model, w_aero=share)
        for i in range(len(share)):
            c.state(model, d, tuple(case["h"][: i + 1]))
        res, _ = sim.full_forcing(c, w, {"delta_lambda_aero": d})
        if d == 0.0:
            other = sim.forcing_run(data.forcing_world(seq, thermal_model=model), {})
            c.trace()
            sim.same(c, "share without sensitivity", sim.snapshot(res), sim.snapshot(other))
    elif case["kind"] == "sized":
        _, res, out = sim.run_sized(c, case, None, {"delta_lambda_aero": d})
        sim.cmp_thermal(c, res, out)
    elif case["kind"] == "long":
        sim.long_forcing(c, model, udm={"delta_lambda_aero": d})
    elif case["kind"] == "century":
        w = sim.century_world(case)
        res, out = sim.century(c, case, w, {"delta_lambda_aero": d})
        sim.cmp_thermal(c, res, out)
    elif case["kind"] == "absent":
        seq = FORC
        w = data.forcing_world(seq, thermal_model=model)
        sim.full_forcing(c, w, {"delta_lambda_aero": d})
    elif case["kind"] == "file":
        import os

        rows = []
        for i in range(4):
            base = [1.0 + i, 0.4 * i, 0.3, 0.2 * (3 - i)]
            rows.append([case["scale"] * s * b for s, b in zip(case["signs"], base)])
        path = os.path.join(c.tmp(), "forc.csv")
        with open(path, "w", encoding="utf8") as f:
            f.write("year," + ",".join(case["names"]) + "\n")
            for i, r in enumerate(rows):
                f.write(f"{2000 + i}," + ",".join(repr(float(x)) for x in r) + "\n")
        tot = [sum(r) for r in rows]
        share = []
        for r in rows:
            a = sum(abs(x) for x, n in zip(r, case["names"]) if n[:2] in ref.AERO_PREFIX)
            t = sum(abs(x) for x in r)
            share.append(a / t if t else 0.0)
        w = data.forcing_world([(x, x) for x in tot], thermal_model=model, w_aero=share)
        cfg = data.cfg_forcing(w)
        del cfg["forc_data"]
        cfg["forc_file"] = path
        m = sim.CICEROSCM(cfg)
        m._run({"results_as_dict": True}, pamset_udm={"delta_lambda_aero": d})
        out = ref.simulate_forcing(w, {"delta_lambda_aero": d})
        c.step(4)
        c.trace()
        sim.cmp_thermal(c, m.results, out)
        sim.cmp_total(c, m.results, out)
    elif case["kind"] == "small":
        w = data.make_world(nystart=1999, nyend=2002, emstart=2005, thermal_model=model, conc_run=True)
        w["luc"] = [0.0] * 4
        w["luc_by_year"] = {y: 0.0 for y in w["luc_by_year"]}
        for table in ("em", "conc"):
            for g in w[table]:
                w[table][g] = {y: w[table][g][1999] for y in w[table][g]}
        for g, sign in zip(("SO2", "BC", "CH4"), case["comps"]):
            for y in range(2000, 2003):
                table = "conc" if g == "CH4" else "em"
                w[table][g][y] *= 1.0 + 0.5 * sign * case["scale"] * (y - 1999)
        c.state(model, d, "small", tuple(case["comps"]), case["scale"])
        res = sim.run(w, {"delta_lambda_aero": d}, {"ref_yr": 2001})
        out = ref.simulate(w, {"delta_lambda_aero": d}, {"ref_yr": 2001})
        c.step(4)
        c.trace()
        sim.cmp_thermal(c, res, out)
    else:
        w = data.make_world(nystart=1999, nyend=2004, emstart=2001, thermal_model=model)
        for i, sym in enumerate(case["h"]):
            y = 1999 + i
            w["em"]["SO2"][y] *= 1.0 + 1.5 * sym
            w["em"]["CH4"][y] *= 1.8 - sym
            c.state(model, d, "em", tuple(case["h"][: i + 1]))
        res = sim.run(w, {"delta_lambda_aero": d})
        out = ref.simulate(w, {"delta_lambda_aero": d})
        c.step(6)
        c.trace()
        sim.cmp_thermal(c, res, out)
        if d == 0.0:
            c.trace()
            other = sim.run(w)
            sim.same(c, "no sensitivity", sim.snapshot(res), sim.snapshot(other))
