"""Zero, scaling, superposition and mirror relations of both thermal models."""

import itertools

import numpy as np

import common
import data
import sim

LEVELS = [(0.0, 0.0), (3.0, 1.0), (-2.0, 4.0), (0.5, 0.0)]
VOLC = [([0.0, 0.0], [0.0, 0.0]), ([-3.0, 1.0], [0.0, -2.0])]
ORACLE = "relations between runs: zero, factor, sum, mirror; no reference values"
BOUNDS = {
    "quick": "all histories of length 3 over 8 symbols for zero/scale/mirror, all pairs of histories of length 2 over 4 symbols for sums; both thermal models; 6 parameter sets",
    "thorough": "all histories of length 4 over 8 symbols, all pairs of histories of length 3 over 4 symbols",
}
PSETS = {
    "default": [{"threstemp": 0}, {"threstemp": 0, "ebbeta": 2.0, "ocean_efficacy": 1.4, "lm": 12},
                {"threstemp": 0, "W": 0.8, "mixed": 30.0, "ldtime": 4, "beto": 2.0}],
    "twolayer": [{}, {"ocean_efficacy": 1.4, "mixed": 80.0}, {"k": 2.6, "deep": 300.0}],
}
SYM = [(a, b) for a in range(4) for b in range(2)]
SWAP = [("dT_NH", "dT_SH"), ("dT_NH_air", "dT_SH_air"), ("dT_NH_sea", "dT_SHsea"), ("RIB_N", "RIB_S"),
        ("Volcanic_forcing_NH", "Volcanic_forcing_SH")]


def cases(tier):
    d, dd = (3, 2) if tier == "quick" else (4, 3)
    for model in ("default", "twolayer"):
        for p in range(3):
            for n in (1, 5, 30, 120):
                yield {"kind": "zero", "model": model, "p": p, "n": n}
            for n in (60, 130):
                yield {"kind": "one", "model": model, "p": p, "h": [(i * i + p) % 8 for i in range(n)]}
                yield {"kind": "sum", "model": model, "p": p, "a": [i % 4 for i in range(n)],
                       "b": [(i * i) % 3 for i in range(n)]}
            for conc_run in (True, False):
                yield {"kind": "still", "model": model, "p": p, "conc_run": conc_run}
        for h in common.histories(len(SYM), d):
            # parameter sets alternate by history so that each is used with a third of them
            yield {"kind": "one", "model": model, "p": sum(h) % 3, "h": h}
        hs = common.histories(4, dd)
        for a, b in itertools.combinations_with_replacement(range(len(hs)), 2):
            yield {"kind": "sum", "model": model, "p": (a + b) % 3, "a": hs[a], "b": hs[b]}


def world(h, model, factor=1.0, swap=False):
    seq, volc = [], []
    for i in h:
        a, b = SYM[i]
        fn, fs = LEVELS[a]
        vn, vs = VOLC[b]
        if swap:
            fn, fs, vn, vs = fs, fn, vs, vn
        seq.append((fn * factor, fs * factor))
        volc.append(([x * factor for x in vn], [x * factor for x in vs]))
    return data.forcing_world(seq, thermal_model=model, volc=volc)


def outputs(res):
    return {k: np.array(v, dtype=float) for k, v in res.items()}


def run(case, c):
    model, pam = case["model"], PSETS[case["model"]][case["p"]]
    if case["kind"] == "zero":
        n = case["n"]
        zero_pam = {k: v for k, v in pam.items() if k != "threstemp"}
        for p in (pam, zero_pam):
            for volc in (None, [([0.0] * 12, [0.0] * 12)] * n):
                res = sim.forcing_run(data.forcing_world([(0.0, 0.0)] * n, thermal_model=model, volc=volc), p)
                c.step(n)
                c.trace()
                for k, v in outputs(res).items():
                    c.true(len(v) == n and np.all(np.abs(v) < 1e-13), f"zero forcing: {k} is {v[:4]}")
        return
    if case["kind"] == "still":
        w = data.make_world(nystart=2000, nyend=2008, emstart=2009, thermal_model=model, conc_run=case["conc_run"])
        for table in ("em", "conc"):
            for series in w[table].values():
                for y in series:
                    series[y] = series[2000]
        for n in ("CO2_FF", "CO2_AFOLU"):
            w["em"][n] = {y: 0.0 for y in w["em"][n]}
        if case["conc_run"]:
            w["conc"]["CO2"] = {y: 278.0 for y in w["conc"]["CO2"]}
        w["gas"]["CO2"]["NAT_EM"] = 0.0
        w["luc"] = [0.0] * 9
        res = sim.run(w, pam, {"ref_yr": 2004})
        c.step(9)
        c.trace()
        for k in [k for k in res if k.startswith(("dT", "RIB", "OHC", "Total"))]:
            v = np.array(res[k], dtype=float)
            c.true(len(v) == 9 and np.all(np.abs(v) < 1e-9), f"unchanged inputs: {k} is {v[:4]}")
        return
    if case["kind"] == "sum":
        sa = [LEVELS[i] for i in case["a"]]
        sb = [LEVELS[i] for i in case["b"]]
        both = [(x[0] + y[0], x[1] + y[1]) for x, y in zip(sa, sb)]
        ra, rb, rc = (outputs(sim.forcing_run(data.forcing_world(s, thermal_model=model), pam)) for s in (sa, sb, both))
        c.step(3 * len(both))
        c.trace(3)
        for k in rc:
            c.close(f"sum: {k}", rc[k], ra[k] + rb[k], srel=1e-8, atol=1e-11)
        return
    h = case["h"]
    base = outputs(sim.forcing_run(world(h, model), pam))
    c.step(8 * len(h))
    c.trace(8)
    for i in range(len(h)):
        c.state(model, case["p"], tuple(h[: i + 1]))
    for f in (-1.0, 3.0, 60.0, 1e-3, 1e-6):
        other = outputs(sim.forcing_run(world(h, model, f), pam))
        for k in base:
            c.close(f"scaled by {f}: {k}", other[k], f * base[k], srel=1e-8, atol=1e-11 * min(1.0, abs(f)))
    eq = {**pam, "foan": 0.7, "foas": 0.7}
    one = outputs(sim.forcing_run(world(h, model), eq))
    two = outputs(sim.forcing_run(world(h, model, swap=True), eq))
    swapped = {k for pair in SWAP for k in pair}
    for a, b in SWAP:
        if a in one:
            c.close(f"mirror: {a} and {b}", two[a], one[b], srel=1e-8)
            c.close(f"mirror: {b} and {a}", two[b], one[a], srel=1e-8)
    for k in one:
        if k not in swapped:
            c.close(f"mirror: {k}", two[k], one[k], srel=1e-8)
