"""Response functions in either form, and refused ones."""

import itertools

import numpy as np

import data
import ref
import sim
from ciceroscm.carbon_cycle.carbon_cycle_mod import CarbonCycleModel

ORACLE = "harness/ref.py RefCarbon with the normalised response functions; refusal followed by unchanged later runs"
BOUNDS = {
    "quick": "7 biosphere and 7 ocean functions of 1 to 12 terms (all pairs) x 7 forms and places x 2 histories; every choice of 3 numbers below 6 as numbering, keys that only look numbered; every order of the keys of a 2+2 term set (all 24) and 6 orders of all; scales; whole runs with the function in configuration or run; every length mismatch up to 4 terms and every negative position x form x place, with histories run, refused, run",
    "thorough": "all pairs x forms x 3 step counts, all 120 orders of a five key set, refused sets in every position of 3 run histories",
}
RB = [None, ([0.5], [3.0]), ([0.5, 0.25, 0.25], [2.5, 10, 60]), ([5, 2, 3], [2, 10, 50]), ([0.1, 0.0, 0.4], [9.0, 4.0, 1.0]),
      ([1e-3, 4e-3], [100.0, 0.5]), ([0.1 * (i + 1) for i in range(12)], [1.0 + 3 * i for i in range(12)])]
RS = [None, ([0.1, 0.9], [5.0]), ([0.1, 0.6, 0.15, 0.15], [0.8, 7, 80]), ([1, 6, 3], [1, 50]), ([0.0, 0.2, 0.3], [80.0, 0.4]),
      ([7.0], []), ([0.05 * (i + 1) for i in range(12)], [0.5 + 5 * i for i in range(11)])]
FORMS = ("dict_new", "flat_new", "array_new", "tuple_new", "dict_reset", "flat_reset", "array_reset")
SEQ = [[(10.0, 0.0), (10.0, 0.5), (30.0, 1.0), (-12.0, 1.5)], [(100.0, 3.0), (0.0, 1.0), (5.0, 0.0), (5.0, -2.0)]]


def bad_sets():
    """Sets that have to be refused."""
    for nc, nt in itertools.product(range(0, 5), repeat=2):
        if nc != nt and nc + nt > 0:
            yield "rb", [0.2] * nc, [3.0 + i for i in range(nt)]
        if nc != nt + 1 and nc + nt > 0:
            yield "rs", [0.2] * nc, [3.0 + i for i in range(nt)]
    for n in (1, 2, 3):
        for i in range(n):
            c, t = [0.3] * n, [2.0] * n
            c[i] = -0.1
            yield "rb", c, t
            c, t = [0.3] * n, [2.0] * n
            t[i] = -2.0
            yield "rb", c, t
            c, t = [0.3] * (n + 1), [2.0] * n
            t[i] = -2.0
            yield "rs", c, t
        for i in range(n + 1):
            c = [0.3] * (n + 1)
            c[i] = -0.1
            yield "rs", c, [2.0] * n


def pam(rb=None, rs=None, form="dict"):
    out = {}
    for name, f in (("rb", rb), ("rs", rs)):
        if f is None:
            continue
        if form == "flat":
            out.update({f"{name}_coef{i}": v for i, v in enumerate(f[0])})
            out.update({f"{name}_tim{i}": v for i, v in enumerate(f[1])})
        else:
            kind = {"dict": list, "array": np.array, "tuple": tuple}[form]
            out[name + "_function"] = {"coeffs": kind(f[0]), "timescales": kind(f[1])}
    return out


def cases(tier):
    deep = tier != "quick"
    for b, s in itertools.product(range(len(RB)), range(len(RS))):
        for form in FORMS:
            for k in range(2):
                for n in ((12, 1, 24) if deep else (12,)):
                    yield {"t": "form", "b": b, "s": s, "form": form, "k": k, "idtm": n}
    for perm in itertools.permutations(range(4)):
        yield {"t": "order", "which": "rb", "perm": list(perm)}
    for perm in itertools.permutations(range(5)):
        if deep or perm[0] in (0, 4):
            yield {"t": "order", "which": "rs", "perm": list(perm)}
    for r in range(6):
        yield {"t": "order12", "r": r}
    for b, s in itertools.product(range(len(RB)), range(len(RS))):
        for sc in (0.01, 7, 1e3):
            yield {"t": "scale", "b": b, "s": s, "sc": sc}
    for b in range(1, len(RB)):
        for s in range(len(RS)):
            for kind in ({}, {"conc_run": True}):
                yield {"t": "place", "b": b, "s": s, "kw": kind}
    for i, _ in enumerate(bad_sets()):
        for form in ("dict", "flat", "array"):
            yield {"t": "bad", "i": i, "form": form}
            for pos in ((0, 1, 2) if deep else (1,)):
                yield {"t": "badrun", "i": i, "form": form, "pos": pos}
    for which in ("rb", "rs"):
        for nums in itertools.combinations(range(12 if deep else 6), 3):
            yield {"t": "numbers", "which": which, "nums": list(nums)}
        for junk in ("coefx", "coef", "coef_1", "tim-1", "tims", "function_x"):
            yield {"t": "junk", "which": which, "junk": junk}
    for what in ("rb", "rs"):
        for first in ("cfg", "run"):
            yield {"t": "partial", "what": what, "first": first}


def make(p=None, idtm=12):
    return CarbonCycleModel({"idtm": idtm, "nystart": 2000, "nyend": 2003}, p)


def drive(c, m, r, seq):
    got = [m.co2em2conc(2000 + i, e, feedback_dict={"dtemp": t}) for i, (e, t) in enumerate(seq)]
    want = [r.year(e, t) for e, t in seq]
    c.close("CO2", got, want)
    c.close("land flux", m.get_biosphere_carbon_flux(), r.yearly_land())
    c.close("ocean flux", m.get_ocean_carbon_flux(), r.yearly_ocean())
    c.step(len(seq))
    c.trace()


def run(case, c):
    t = case["t"]
    if t == "form":
        rb, rs = RB[case["b"]], RS[case["s"]]
        form, place = case["form"].split("_")
        r = ref.RefCarbon(case["idtm"], None, pam(rb, rs))
        if place == "new":
            m = make(pam(rb, rs, form), case["idtm"])
        else:
            m = make(None, case["idtm"])
            m.co2em2conc(2000, 50.0, feedback_dict={"dtemp": 1.0})
            m.reset_co2_hold(pam(rb, rs, form))
        drive(c, m, r, SEQ[case["k"]])
        m.reset_co2_hold({"beta_f": 0.4})  # functions stay
        drive(c, m, ref.RefCarbon(case["idtm"], {"beta_f": 0.4}, pam(rb, rs)), SEQ[case["k"]])
    elif t == "order":
        f = ([0.2, 0.8], [3.0, 40.0]) if case["which"] == "rb" else ([0.1, 0.5, 0.4], [2.0, 60.0])
        kw = {case["which"]: f}
        items = list(pam(form="flat", **kw).items())
        p = dict(items[i] for i in case["perm"])
        drive(c, make(p), ref.RefCarbon(12, None, pam(**kw)), SEQ[0])
        m = make()
        m.reset_co2_hold(p)
        drive(c, m, ref.RefCarbon(12, None, pam(**kw)), SEQ[1])
    elif t == "numbers":  # any ascending numbers
        f = ([0.2, 0.5, 0.3], [3.0, 40.0, 8.0]) if case["which"] == "rb" else ([0.1, 0.5, 0.4], [2.0, 60.0])
        kw, nums = {case["which"]: f}, case["nums"]
        p = {f"{case['which']}_coef{i}": v for i, v in zip(nums, f[0])}
        p.update({f"{case['which']}_tim{i}": v for i, v in zip(nums, f[1])})
        for q in (p, dict(reversed(list(p.items())))):
            drive(c, make(q), ref.RefCarbon(12, None, pam(**kw)), SEQ[0])
            m = make()
            m.reset_co2_hold(q)
            drive(c, m, ref.RefCarbon(12, None, pam(**kw)), SEQ[1])
    elif t == "junk":  # not a number, so not a parameter of ours
        key = f"{case['which']}_{case['junk']}"
        for kw in ({}, {"rb": RB[2]}, {"rs": RS[2]}):
            p = {key: 3.0, **pam(form="flat", **kw)}
            drive(c, make(p), ref.RefCarbon(12, None, pam(**kw)), SEQ[0])
            m = make()
            m.reset_co2_hold(p)
            drive(c, m, ref.RefCarbon(12, None, pam(**kw)), SEQ[1])
    elif t == "order12":
        items = list(pam(RB[-1], RS[-1], "flat").items())
        r = case["r"]
        order = {0: items, 1: items[::-1], 2: sorted(items), 3: items[1::2] + items[::2], 4: items[7:] + items[:7],
                 5: sorted(items, key=lambda x: x[0][::-1])}[r]
        drive(c, make(dict(order)), ref.RefCarbon(12, None, pam(RB[-1], RS[-1])), SEQ[0])
    elif t == "scale":
        rb, rs, sc = RB[case["b"]], RS[case["s"]], case["sc"]
        srb = rb and ([v * sc for v in rb[0]], rb[1])
        srs = rs and ([v * sc for v in rs[0]], rs[1])
        for form in ("dict", "flat"):
            drive(c, make(pam(srb, srs, form)), ref.RefCarbon(12, None, pam(rb, rs)), SEQ[0])
    elif t == "place":
        f = pam(RB[case["b"]], RS[case["s"]])
        em = {"ref_yr": 2000}
        w = data.make_world(nyend=2002, idtm=12, **case["kw"])
        wf = sim.reset_world(w, functions=f)
        flat = pam(RB[case["b"]], RS[case["s"]], "flat")
        snaps = [sim.snapshot(sim.run(wf, None, em)), sim.snapshot(sim.run(w, None, em, f)), sim.snapshot(sim.run(w, None, em, flat))]
        m = sim.build(w)
        sim.rerun(m, None, em)
        snaps.append(sim.snapshot(sim.rerun(m, None, em, flat)))
        for s in snaps[1:]:
            sim.same(c, "function given another way", s, snaps[0])
        out = ref.simulate(wf, None, em)
        c.close("CO2", snaps[0]["concentrations|CO2"], out["conc"]["CO2"])
        if not w.get("conc_run"):
            c.close("land flux", snaps[0]["carbon cycle|Biosphere carbon flux"], out["cc"].yearly_land())
        c.step(4)
        c.trace(4)
    elif t == "bad":
        name, co, ti = list(bad_sets())[case["i"]]
        p = {"beta_f": 0.4, "mixed_carbon": 40.0, **pam(form=case["form"], **{name: (co, ti)})}
        c.raises(f"new model with {p}", lambda: make(p), (ValueError, TypeError, IndexError))
        m = make()
        c.raises(f"reset with {p}", lambda: m.reset_co2_hold(p), (ValueError, TypeError, IndexError))
        m.reset_co2_hold()
        drive(c, m, ref.RefCarbon(12), SEQ[0])
        good = pam(RB[2], RS[2])
        m = make({"beta_f": 0.2, **good})
        c.raises(f"reset with {p}", lambda: m.reset_co2_hold(p), (ValueError, TypeError, IndexError))
        m.reset_co2_hold()
        drive(c, m, ref.RefCarbon(12, {"beta_f": 0.2}, good), SEQ[0])
        if case["form"] == "dict":
            w = data.make_world(nyend=2000, idtm=12, functions=pam(form="dict", **{name: (co, ti)}))
            c.raises(f"configuration with {p}", lambda: sim.run(w, None, {"ref_yr": 2000}), (ValueError, TypeError, IndexError))
    elif t == "badrun":
        name, co, ti = list(bad_sets())[case["i"]]
        p = {"beta_f": 0.4, "mixed_carbon": 40.0, **pam(form=case["form"], **{name: (co, ti)})}
        em = {"ref_yr": 2000}
        w = data.make_world(nystart=1999, nyend=2001, idtm=6)
        m = sim.build(w)
        want = ref.simulate(w, None, em)["conc"]["CO2"]
        for k in range(3):
            if k == case["pos"]:
                c.raises(f"run with {p}", lambda: sim.rerun(m, None, em, p), (ValueError, TypeError, IndexError))
            res = sim.rerun(m, None, em)
            c.close("CO2 of a later run", sim.col(res["concentrations"], "CO2"), want)
            c.step()
        c.trace()
    else:
        # one function given, then the other: the first stays
        em = {"ref_yr": 2000}
        w = data.make_world(nystart=1999, nyend=2001, idtm=6)
        one, two = (pam(RB[2], None), pam(None, RS[2])) if case["what"] == "rb" else (pam(None, RS[2]), pam(RB[2], None))
        if case["first"] == "cfg":
            m = sim.build(sim.reset_world(w, functions=one))
        else:
            m = sim.build(w)
            sim.rerun(m, None, em, one)
        for p, want in (({}, one), (two, {**one, **two}), ({}, {**one, **two})):
            res = sim.rerun(m, None, em, p)
            out = ref.simulate(sim.reset_world(w, functions=want), None, em)
            c.close("CO2", sim.col(res["concentrations"], "CO2"), out["conc"]["CO2"])
            c.step()
        c.trace()
