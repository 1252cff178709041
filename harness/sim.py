"""Running the real model and comparing it with the reference model."""

import copy

import numpy as np

import data
import ref

import ciceroscm
from ciceroscm import CICEROSCM

OUT = {"results_as_dict": True, "carbon_cycle_outputs": True}
REPO_SRC = ciceroscm.__file__


def build(w, cfg=None):
    return CICEROSCM(cfg if cfg is not None else data.cfg_data(w))


def run(w, udm=None, emiconc=None, carbon=None, cfg=None, out=None):
    """Results of one run of a new model object."""
    m = build(w, cfg)
    m._run(dict(OUT if out is None else out), pamset_udm=udm, pamset_emiconc=emiconc, pamset_carbon=carbon)
    return m.results


def rerun(m, udm=None, emiconc=None, carbon=None, out=None):
    m._run(dict(OUT if out is None else out), pamset_udm=udm, pamset_emiconc=emiconc, pamset_carbon=carbon)
    return m.results


def reset_world(w, **kw):
    w = copy.deepcopy(w)
    w.update(kw)
    return w


def fname(gas):
    return "SO4_DIR" if gas == "SO2" else gas


def col(frame, name):
    return frame[name].to_numpy(dtype=float)


def cmp_conc(c, res, out, gases=None):
    for g, s in out["conc"].items():
        if gases is None or g in gases:
            c.close(f"concentration of {g}", col(res["concentrations"], g), s)


def cmp_forc(c, res, out, gases=None):
    for g, s in out["forc"].items():
        if gases is None or g in gases:
            c.close(f"forcing of {g}", col(res["forcing"], fname(g)), s)


def cmp_total(c, res, out):
    c.close("total forcing", res["Total_forcing"], out["Total_forcing"])


def cmp_thermal(c, res, out, names=None):
    for k in out["thermal"][0]:
        if names is None or k in names:
            c.close(k, res[k], [t[k] for t in out["thermal"]])


def cmp_years(c, res, w):
    ys = list(range(w["nystart"], w["nyend"] + 1))
    for k in ("emissions", "concentrations", "forcing"):
        c.true(list(res[k]["Year"]) == ys, f"years of {k}: {list(res[k]['Year'])}")
        c.true(len(res[k]) == len(ys), f"rows of {k}")
    for k in ("dT_glob", "Total_forcing", "OHCTOT"):
        c.true(len(res[k]) == len(ys), f"length of {k}")


def cmp_carbon(c, res, w, out):
    """Carbon outputs of emission runs against the reference calculation."""
    df = res["carbon cycle"]
    cc = out["cc"]
    n = len(out["years"])
    if w.get("carbon_cycle_model") == "box":
        # outputs are functions of the year's concentration and temperature
        conc, temp = out["conc"]["CO2"], out["temp"]
        c.close("NPP", col(df, "Net primary production"), [cc.npp(conc[i], temp[i]) for i in range(n)])
        c.close("ocean flux", col(df, "Ocean carbon flux"), [cc.ocean(conc[i], temp[i]) for i in range(n)])
        return
    temp = out["temp"]
    c.close("ocean carbon flux", col(df, "Ocean carbon flux"), cc.yearly_ocean())
    c.close("biosphere carbon flux", col(df, "Biosphere carbon flux"), cc.yearly_land())
    c.close("mixed layer depth", col(df, "Mixed layer depth"), [cc.depth(t) for t in temp])
    c.close("CO2 solubility", col(df, "CO2 solubility"), [cc.solubility(t) for t in temp])
    c.close("NPP", col(df, "Net Primary Production"), [cc.npp_factor(t) for t in temp])


def cmp_all(c, res, w, out):
    cmp_years(c, res, w)
    cmp_conc(c, res, out)
    cmp_forc(c, res, out)
    cmp_total(c, res, out)
    cmp_thermal(c, res, out)


def full(c, w, udm=None, emiconc=None, carbon=None, cfg=None, parts=None):
    """Run implementation and reference on w and compare everything."""
    res = run(w, udm, emiconc, carbon, cfg)
    out = ref.simulate(w, udm, emiconc, carbon)
    c.step(len(out["years"]))
    c.trace()
    cmp_all(c, res, w, out)
    return res, out


def snapshot(res):
    """Results as plain arrays, for comparing two runs."""
    snap = {}
    for k, v in res.items():
        if hasattr(v, "columns"):
            arr = v.to_numpy(dtype=float)
            for j, col_ in enumerate(v.columns):
                snap[f"{k}|{col_}"] = arr[:, j].copy()
            snap[f"{k}|#columns"] = sorted(str(x) for x in v.columns)
            snap[f"{k}|#index"] = [int(i) for i in v.index]
        else:
            snap[k] = np.array(v, dtype=float)
    return snap


def same(c, name, a, b, rtol=1e-9, skip=()):
    """Two snapshots hold the same."""
    ka, kb = {k for k in a if k not in skip}, {k for k in b if k not in skip}
    c.true(ka == kb, f"{name}: different results present: {sorted(ka ^ kb)[:6]}")
    for k in sorted(ka & kb):
        if k.endswith("#columns") or k.endswith("#index"):
            c.true(a[k] == b[k], f"{name}: {k}")
        else:
            if not c.close(f"{name}: {k}", a[k], b[k], rtol=rtol, srel=1e-10):
                return


def full_forcing(c, w, udm=None, names=None):
    """Forcing run of implementation and reference."""
    m = CICEROSCM(data.cfg_forcing(w))
    m._run({"results_as_dict": True}, pamset_udm=udm)
    out = ref.simulate_forcing(w, udm)
    c.step(len(w["forc"]))
    c.trace()
    cmp_thermal(c, m.results, out, names)
    c.close("total forcing", m.results["Total_forcing"], out["Total_forcing"])
    return m.results, out


def forcing_run(w, udm=None):
    m = CICEROSCM(data.cfg_forcing(w))
    m._run({"results_as_dict": True}, pamset_udm=udm)
    return m.results


def long_forcing(c, model, n=420, nystart=1700, udm=None, array=False):
    """A forcing run of centuries with solar and volcanic forcing and aerosol shares."""
    import math

    seq = [(0.01 * i + 0.3 * math.sin(0.31 * i), 0.009 * i - 0.2 * math.cos(0.17 * i)) for i in range(n)]
    if array:
        seq = [(a, a) for a, _ in seq]
    w = data.forcing_world(seq, nystart, thermal_model=model, sun=[0.1 * math.sin(0.57 * i) for i in range(n)],
                           volc=[([-0.05 * ((7 * i + m) % 5) for m in range(12)], [-0.04 * ((5 * i + 2 * m) % 7) for m in range(12)]) for i in range(n)],
                           w_aero=None if array else [0.5 + 0.5 * math.sin(0.41 * i) for i in range(n)])
    cfg = data.cfg_forcing(w)
    if array:
        cfg["forc_data"] = np.array(w["forc"])
    m = CICEROSCM(cfg)
    m._run({"results_as_dict": True}, pamset_udm=udm)
    out = ref.simulate_forcing(w, udm)
    c.step(n)
    c.trace()
    for i in range(n):
        c.state("long forcing", model, n, nystart, array, i)
    cmp_thermal(c, m.results, out)
    c.close("total forcing", m.results["Total_forcing"], out["Total_forcing"])
    return m.results, w


WINDOWS = [(1750, 2100, 1850), (1850, 2200, 2015), (1990, 2105, 1995), (1750, 2015, 1750), (1900, 2130, 2200)]


def centuries(tier="quick", kinds=("em", "conc"), every=False):
    """Cases of runs of centuries with the fast components."""
    for y0, y1, es in WINDOWS if every or tier != "quick" else WINDOWS[:3]:
        for k in kinds:
            yield {"t": "century", "y0": y0, "y1": y1, "es": es, "k": k}


def century_world(case, **kw):
    return data.long_world(case["y0"], case["y1"], case["es"], thermal_model="twolayer", carbon_cycle_model="box",
                           conc_run=True if case["k"] == "conc" else None, **kw)


def century(c, case, w, udm=None, em=None):
    """Implementation and reference on a run of centuries."""
    em = {"ref_yr": 2010, **(em or {})}
    res = run(w, udm, em)
    out = ref.simulate(w, udm, em)
    c.step(len(out["years"]))
    c.trace()
    for y in out["years"]:
        c.state("century", case["y0"], case["y1"], case["es"], case["k"], int(y))
    cmp_years(c, res, w)
    return res, out


# ------------------------------------------------- sizes of every input
SIZES = (1e-9, 1e-6, 1e-3, 0.0, 0.4, -1.0, -3.0, 30.0, 1e3)
LEVELS = (1e-4, 0.01, 0.3, 0.999999, 1.000001, 3.0, 30.0, 1e3)
SMALL = {"CO2_FF": 3.0, "CO2_AFOLU": 30.0, "CH4": 30.0, "N2O": 30.0, "NOx": 30.0}  # emissions for which concentrations stay positive


def sized(names=None, kinds=("em", "conc"), sizes=SIZES):
    """Cases of short runs with one input of another size: in all years, one year or from a year on."""
    for k in kinds:
        for name in [*["em:" + g for g in data.EM_BASE], *["conc:" + g for g in data.CONC_BASE], "nat_ch4", "nat_n2o", "luc", "sun", "volc_n", "volc_s"]:
            if names and not (name in names or name.split(":")[0] in names):
                continue
            for f in LEVELS if name.startswith("conc:") else sizes if ":" in name or name.startswith("nat") else (*sizes, -30.0):
                if abs(f) > SMALL.get(name[3:], 1e9) or (name in ("nat_ch4", "nat_n2o", "em:CH4") and abs(f) > 30) or (f == -3.0 and name in ("em:CO2_FF", "em:CH4")):
                    continue
                if name in ("conc:CO2", "conc:CH4", "conc:N2O") and not 0.005 < f < 100:
                    continue
                for when in ("all", "one", "from"):
                    yield {"t": "sized", "k": k, "name": name, "f": f, "when": when}


def sized_world(case, **kw):
    kw = {"thermal_model": "twolayer", "carbon_cycle_model": "box", "nystart": 1999, "nyend": 2006, "emstart": 2001, **kw}
    w = data.make_world(conc_run=True if case["k"] == "conc" else None, **kw)
    data.add_sunvolc(w)
    name, f = case["name"], case["f"]
    first, last = {"all": (0, 9999), "one": (2003, 2003), "from": (2002, 9999)}[case["when"]]
    if ":" in name or name.startswith("nat"):
        s = w[name.split(":")[0]][name.split(":")[1]] if ":" in name else w[name]
        for y in s:
            if first <= y <= last:
                s[y] *= f
    else:
        for i in range(w["nyend"] - w["nystart"] + 1):
            if first <= w["nystart"] + i <= last:
                v = w[name][i]
                w[name][i] = [x * f for x in v] if isinstance(v, list) else v * f
    return w


def run_sized(c, case, w=None, udm=None, em=None):
    """Implementation and reference on such a run."""
    w = sized_world(case) if w is None else w
    em = {"ref_yr": 2000, "lifetime_mode": "TAR" if abs(case["f"]) < 3 else "WIGLEY", **(em or {})}
    res = run(w, udm, em)
    out = ref.simulate(w, udm, em)
    c.step(len(out["years"]))
    c.trace()
    for y in out["years"]:
        c.state("sized", case["k"], case["name"], case["f"], case["when"], int(y))
    cmp_years(c, res, w)
    return w, res, out
