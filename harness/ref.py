"""Boring reference model of CICERO-SCM: plain loops, plain dictionaries, no caching.

Written from the published/documented equations, used as the oracle for the
implementation in /repo. Nothing here imports ciceroscm.
"""

import math

import numpy as np

SEC_YEAR = 86400 * 365.0
AERO_PREFIX = ("BC", "OC", "SO", "BM")
HEMI_AERO = ("SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC")

UDM_DEFAULT = {
    "rlamdo": 15.0, "akapa": 0.66, "cpi": 0.21, "W": 2.2, "beto": 6.9,
    "threstemp": 7.0, "lambda": 0.61, "mixed": 107.0, "foan": 0.61, "foas": 0.81,
    "ebbeta": 0.0, "lm": 40, "ldtime": 12, "ocean_efficacy": 1.0,
    "delta_lambda_aero": 0.0,
}
TWO_DEFAULT = {
    "lambda": 3.74 / 3, "mixed": 50, "deep": 1200, "k": 0.5, "ocean_efficacy": 1,
    "foan": 0.61, "foas": 0.81, "delta_lambda_aero": 0.0,
}
EMICONC_DEFAULT = {
    "qbmb": 0.0, "qo3": 0.5, "qdirso2": -0.00308, "qindso2": -0.97 / 57.052577209999995,
    "qbc": 0.0279, "qoc": -0.00433, "qh2o_ch4": 0.091915, "ref_yr": 2010,
    "qnmvoc": 0.0, "qnh3": 0.0, "qnox": 0.0, "lifetime_mode": "TAR",
}
CARBON_DEFAULT = {
    "beta_f": 0.287, "mixed_carbon": 75.0, "ml_w_sigmoid": 3.0, "ml_fracmax": 0.5,
    "ml_t_half": 0.5, "t_half": 0.5, "w_sigmoid": 7, "t_threshold": 4, "w_threshold": 7,
    "solubility_sens": 0.02, "solubility_limit": 0.5, "ml_depth_min": 10.0,
    "preindustrial_co2_conc": 278.0,
}
BOX_DEFAULT = {
    "beta_f": 0.287, "land_temp_sensitivity": 0.1, "soil_respiration_rate": 0.02,
    "ocean_mixed_layer_depth": 25.0, "ocean_exchange_rate": 0.01,
    "vegetation_to_soil_fraction": 0.1, "ocean_solubility_base": 0.02,
    "ocean_solubility_temp_coeff": -0.01,
}
PPM_TO_PGC = 2.123


def pick(default, given):
    """Documented parameter rule: known numeric values are used, the rest is ignored."""
    out = dict(default)
    for key, val in (given or {}).items():
        if key not in default:
            continue
        if isinstance(default[key], str) or (
            isinstance(val, (int, float, np.integer, np.floating))
        ):
            out[key] = val
    return out


# ------------------------------------------------------------------ thermal
def thomas(low, diag, up, rhs):
    """Solve a tridiagonal system; low[i] couples row i to i-1, up[i] row i to i+1."""
    n = len(diag)
    c = [0.0] * n
    d = [0.0] * n
    c[0] = up[0] / diag[0]
    d[0] = rhs[0] / diag[0]
    for i in range(1, n):
        m = diag[i] - low[i] * c[i - 1]
        c[i] = up[i] / m if i < n - 1 else 0.0
        d[i] = (rhs[i] - low[i] * d[i - 1]) / m
    x = [0.0] * n
    x[-1] = d[-1]
    for i in range(n - 2, -1, -1):
        x[i] = d[i] - c[i] * x[i + 1]
    return x


class RefUDM:
    """Upwelling diffusion model, one hemisphere column each, ldtime steps a year."""

    def __init__(self, pam=None):
        self.p = pick(UDM_DEFAULT, pam)
        self.lm = int(self.p["lm"])
        self.nt = int(self.p["ldtime"])
        self.dz = [float(self.p["mixed"])] + [100.0] * (self.lm - 1)
        self.tn = [0.0] * self.lm
        self.ts = [0.0] * self.lm
        self.fn = self.fs = 0.0
        self.feedback = 1.0 / self.p["lambda"]

    def pattern(self, w_aero):
        self.feedback = 1.0 / self.p["lambda"] + self.p["delta_lambda_aero"] * w_aero

    def _matrix(self, t_surf, focean, gam_own, gam_other, blm2):
        p, dz, lm = self.p, self.dz, self.lm
        dt = SEC_YEAR / self.nt
        c1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400
        wdt = p["W"] / self.nt
        if p["threstemp"] != 0:
            wdt *= 1 - 0.3 * t_surf / p["threstemp"]
        exchange = (
            p["rlamdo"] * (1.0 - focean * gam_other / (gam_other * gam_own - blm2))
            * dt / (c1 * dz[0])
        )
        kap = 2e-4 * p["akapa"] * dt
        low, diag, up = [0.0] * lm, [0.0] * lm, [0.0] * lm
        top = -kap / (dz[0] * dz[1])
        diag[0] = 1.0 - top + exchange - wdt / dz[0]
        up[0] = top
        low[1] = -kap / dz[1] ** 2 + wdt / dz[1]
        for i in range(1, lm - 1):
            up[i] = -kap / (dz[i] * (dz[i] + dz[i + 1])) - wdt / dz[i]
            diag[i] = 1.0 - low[i] - up[i]
            low[i + 1] = -kap / (dz[i + 1] * (dz[i] + dz[i + 1]))
        diag[-1] = 1.0 - low[-1] + wdt / dz[-1]
        # efficacy: deep ocean uptake seen by the mixed layer is scaled
        scaled = top * p["ocean_efficacy"]
        diag[0] += top - scaled
        up[0] = scaled
        return low, diag, up, wdt, dt, c1

    def year(self, fn, fs, vn, vs):
        p, lm, nt, dz = self.p, self.lm, self.nt, self.dz
        blm = p["ebbeta"] / p["rlamdo"]
        lam = self.feedback
        gn = p["foan"] + lam / p["rlamdo"] + blm
        gs = p["foas"] + lam / p["rlamdo"] + blm
        det = gn * gs - blm * blm
        ratio = p["foan"] / p["foas"]
        xn = lam + p["foan"] * p["rlamdo"] + p["ebbeta"]
        xs = lam + p["foas"] * p["rlamdo"] + p["ebbeta"]
        start_n, start_s = list(self.tn), list(self.ts)
        acc = {k: 0.0 for k in ("n", "s", "na", "sa", "ns", "ss")}
        t1n = t1s = 0.0
        for im in range(nt):
            # upwelling feedback uses the surface of the previous step of this year
            mn = self._matrix(t1n, p["foan"], gn, gs, blm * blm)
            ms = self._matrix(t1s, p["foas"], gs, gn, blm * blm)
            wdt_n, dt, c1 = mn[3:]
            wdt_s = ms[3]
            w = (im + 1) / nt
            qn = w * fn + (1 - w) * self.fn + vn[im * len(vn) // nt]
            qs = w * fs + (1 - w) * self.fs + vs[im * len(vs) // nt]
            h0 = dt / (c1 * dz[0])
            tn, ts = self.tn, self.ts
            rn, rs = [0.0] * lm, [0.0] * lm
            rn[0] = (
                tn[0] * (1 - p["cpi"] * wdt_n / dz[0] - p["beto"] * h0)
                + ts[0] * (p["beto"] + p["foas"] * p["ebbeta"] / det) * h0
                + qn * gs / det * h0 + qs * blm / det * h0
            )
            rs[0] = (
                ts[0] * (1 - p["cpi"] * wdt_s / dz[0] - ratio * p["beto"] * h0)
                + tn[0] * (ratio * p["beto"] + p["foan"] * p["ebbeta"] / det) * h0
                + qs * gn / det * h0 + qn * blm / det * h0
            )
            for i in range(1, lm):
                ex = p["beto"] * dt / (c1 * dz[i])
                rn[i] = tn[i] + ex * (ts[i] - tn[i])
                rs[i] = ts[i] + ratio * ex * (tn[i] - ts[i])
            rn[-1] += p["cpi"] * wdt_n / dz[-1] * tn[0]
            rs[-1] += p["cpi"] * wdt_s / dz[-1] * ts[0]
            self.tn = thomas(*mn[:3], rn)
            self.ts = thomas(*ms[:3], rs)
            t1n, t1s = self.tn[0], self.ts[0]
            # atmosphere in balance above land and ocean
            un = qn + p["foan"] * p["rlamdo"] * t1n
            us = qs + p["foas"] * p["rlamdo"] * t1s
            den = xn * xs - p["ebbeta"] ** 2
            an = (un * xs + p["ebbeta"] * us) / den
            as_ = (us * xn + p["ebbeta"] * un) / den
            acc["n"] += (p["foan"] * t1n + (1 - p["foan"]) * an) / nt
            acc["s"] += (p["foas"] * t1s + (1 - p["foas"]) * as_) / nt
            acc["na"] += an / nt
            acc["sa"] += as_ / nt
            acc["ns"] += t1n / nt
            acc["ss"] += t1s / nt
        self.fn, self.fs = fn, fs
        deep = sum(
            4184 * 1000 * dz[i]
            * ((self.tn[i] - start_n[i]) * p["foan"] + (self.ts[i] - start_s[i]) * p["foas"])
            for i in range(1, lm)
        ) / SEC_YEAR
        anom = (p["ocean_efficacy"] - 1.0) * deep
        rib_n = fn + sum(vn) / len(vn) - lam * acc["n"] - anom
        rib_s = fs + sum(vs) / len(vs) - lam * acc["s"] - anom
        heat = [
            1030.0 * 3.997e-19 * 2.55e14 * dz[i]
            * (self.tn[i] * p["foan"] + self.ts[i] * p["foas"])
            for i in range(lm)
        ]
        # down to 700 m: the mixed layer, whole layers, and the rest of the next one
        bottom, ohc700 = 0.0, 0.0
        for i in range(lm):
            ohc700 += heat[i] * max(0.0, min(1.0, (700.0 - bottom) / dz[i]))
            bottom += dz[i]
        return {
            "dT_glob": (acc["n"] + acc["s"]) / 2, "dT_NH": acc["n"], "dT_SH": acc["s"],
            "dT_glob_air": (acc["na"] + acc["sa"]) / 2, "dT_NH_air": acc["na"],
            "dT_SH_air": acc["sa"], "dT_glob_sea": (acc["ns"] + acc["ss"]) / 2,
            "dT_NH_sea": acc["ns"], "dT_SHsea": acc["ss"], "RIB_N": rib_n, "RIB_S": rib_s,
            "RIB_glob": (rib_n + rib_s) / 2, "OHC700": ohc700, "OHCTOT": sum(heat),
        }


class RefTwoLayer:
    """Two layer energy balance model, one explicit step a year."""

    def __init__(self, pam=None):
        self.p = pick(TWO_DEFAULT, pam)
        self.fast = self.slow = 0.0
        self.feedback = self.p["lambda"]

    def pattern(self, w_aero):
        self.feedback = self.p["lambda"] + self.p["delta_lambda_aero"] * w_aero

    def year(self, fn, fs, vn, vs):
        p = self.p
        cap_f = p["mixed"] * 1000 * 4184 / SEC_YEAR
        cap_s = p["deep"] * 1000 * 4184 / SEC_YEAR
        forc = (fn + fs) / 2 + (sum(vn) / len(vn) + sum(vs) / len(vs)) / 2
        down = p["k"] * (self.fast - self.slow)
        new_f = self.fast + (forc - self.feedback * self.fast - p["ocean_efficacy"] * down) / cap_f
        new_s = self.slow + down / cap_s
        self.fast, self.slow = new_f, new_s
        area = 3.61e14 / 1e22
        mixed = self.fast * p["mixed"] * 1000 * 4184 * area
        deep = self.slow * p["deep"] * 1000 * 4184 * area
        if p["mixed"] >= 700:
            ohc700 = mixed * 700 / p["mixed"]
        else:
            ohc700 = mixed + deep * min(1.0, (700 - p["mixed"]) / p["deep"])
        focean = (p["foan"] + p["foas"]) / 2
        return {
            "dT_glob": forc / self.feedback * (1 - focean) + self.fast * focean,
            "dT_fast": self.fast, "dT_slow": self.slow,
            "RIB_glob": forc - self.feedback * self.fast
            - (p["ocean_efficacy"] - 1) * p["k"] * (self.fast - self.slow),
            "OHC_MIXED": mixed, "OHC_DEEP": deep, "OHCTOT": mixed + deep, "OHC700": ohc700,
        }


def make_thermal(kind, pam):
    return RefTwoLayer(pam) if kind == "twolayer" else RefUDM(pam)


# ------------------------------------------------------------------ carbon
def response_ocean_default(t):
    if t < 2.0:
        return (0.12935 + 0.21898 * math.exp(-t / 0.034569) + 0.17003 * math.exp(-t / 0.26936)
                + 0.24071 * math.exp(-t / 0.96083) + 0.24093 * math.exp(-t / 4.9792))
    return (0.022936 + 0.24278 * math.exp(-t / 1.2679) + 0.13963 * math.exp(-t / 5.2528)
            + 0.089318 * math.exp(-t / 18.601) + 0.03782 * math.exp(-t / 68.736)
            + 0.035549 * math.exp(-t / 232.3))


def response_land_default(t):
    return (0.70211 * math.exp(-0.35 * t) + 13.4141e-3 * math.exp(-t / 20.0)
            - 0.71846 * math.exp(-55 * t / 120.0) + 2.9323e-3 * math.exp(-t / 100.0))


def response_ocean(coeffs, times, t):
    tot = sum(coeffs)
    return coeffs[0] / tot + sum(
        c / tot * math.exp(-t / x) for c, x in zip(coeffs[1:], times)
    )


def response_land(coeffs, times, t):
    tot = sum(coeffs)
    return sum(c / tot / x**2 * t * math.exp(-t / x) for c, x in zip(coeffs, times))


def flat_to_functions(pam):
    """Flat response parameters rb_coef0.. are another spelling of the dictionaries."""
    out = {}
    for fun in ("rb", "rs"):
        coef = sorted(
            (int(k[7:]), v) for k, v in pam.items()
            if k.startswith(fun + "_coef") and k[7:].isdigit()
        )
        tim = sorted(
            (int(k[6:]), v) for k, v in pam.items()
            if k.startswith(fun + "_tim") and k[6:].isdigit()
        )
        if coef or tim:
            out[fun + "_function"] = {
                "coeffs": [v for _, v in coef], "timescales": [v for _, v in tim]
            }
        elif fun + "_function" in pam:
            out[fun + "_function"] = pam[fun + "_function"]
    return out


class RefCarbon:
    """Impulse response carbon cycle with idtm steps a year."""

    def __init__(self, nsteps_year, pam=None, functions=None):
        self.p = pick(CARBON_DEFAULT, pam)
        self.n = int(nsteps_year)
        fun = dict(functions or {})
        fun.update(flat_to_functions(pam or {}))
        self.fun = fun
        self.uptake = []  # air to sea flux per step (ppm)
        self.npp = []  # extra primary production per step
        self.land = []  # net land uptake per step (PgC/yr)
        self.press = [0.0]
        self.conc = self.p["preindustrial_co2_conc"]
        self.em = []
        self.pile = 0.0
        self.rs, self.rb = [], []

    def _resp(self, n):
        while len(self.rs) < n:
            t = len(self.rs) / self.n
            if "rs_function" in self.fun:
                f = self.fun["rs_function"]
                self.rs.append(response_ocean(list(f["coeffs"]), list(f["timescales"]), t))
            else:
                self.rs.append(response_ocean_default(t))
            if "rb_function" in self.fun:
                f = self.fun["rb_function"]
                self.rb.append(response_land(list(f["coeffs"]), list(f["timescales"]), t))
            else:
                self.rb.append(response_land_default(t))

    def npp_factor(self, dtemp):
        p = self.p

        def shape(x):
            return (1 / (1 + math.exp(-(x - p["t_half"]) / p["w_sigmoid"]))
                    * (1 - 1 / (1 + math.exp(-(x - p["t_threshold"]) / p["w_threshold"]))))

        return 60.0 * shape(dtemp) / shape(0.0)

    def depth(self, dtemp):
        p = self.p

        def shape(x):
            return 1 - p["ml_fracmax"] / (1 + math.exp(-(x - p["ml_t_half"]) / p["ml_w_sigmoid"]))

        return max(p["mixed_carbon"] * shape(dtemp) / shape(0.0), p["ml_depth_min"])

    def solubility(self, dtemp):
        return min(max(math.exp(-self.p["solubility_sens"] * dtemp), 0.0),
                   1 + self.p["solubility_limit"])

    @staticmethod
    def pressure(z):
        zmax = 293.5
        pol = [1.3021, 3.7929e-3, 9.1193e-6, 1.488e-8, 1.2425e-10]
        if z <= zmax:
            return sum(c * z ** (i + 1) for i, c in enumerate(pol))
        at = sum(c * zmax ** (i + 1) for i, c in enumerate(pol))
        slope = sum((i + 1) * c * zmax**i for i, c in enumerate(pol))
        return at + slope * zmax * math.log(z / zmax)

    def year(self, emission, dtemp=0.0):
        p, n = self.p, self.n
        dt = 1.0 / n
        area, ge = 3.62e14, 1.0 / (3.62e14 * 9.06)
        rate = area * ge
        cc1 = dt * rate / (1 + dt * rate / 2)
        fnpp, depth, sol = self.npp_factor(dtemp), self.depth(dtemp), self.solubility(dtemp)
        for _ in range(n):
            it = len(self.uptake)
            self._resp(it + 1)
            if it == 0:
                self.npp.append(0.0)
                decay = 0.0
            else:
                self.npp.append(
                    fnpp * p["beta_f"] * float(np.log(self.conc / p["preindustrial_co2_conc"]))
                )
                decay = float(
                    np.dot(np.array(self.npp[1:it]), np.array(self.rb[: it - 1])[::-1])
                )
            land = self.npp[it] - dt * decay
            self.land.append(land)
            em = (emission - land) / PPM_TO_PGC
            self.em.append(em)
            # trapezoidal integral of emissions minus what the ocean took so far
            integral = self.pile + 0.5 * (self.em[0] + em) / rate - self.press[-1] / (dt * rate)
            flux = cc1 * integral
            self.uptake.append(flux)
            self.pile += em / rate - flux
            sumz = 0.0
            if it > 0:
                sumz = float(
                    np.dot(np.array(self.uptake[: it - 1]), np.array(self.rs[1:it])[::-1])
                )
            z = 1.722e17 * ge * dt / depth * (sumz + 0.5 * flux)
            self.press.append(sol * self.pressure(z))
            self.conc = (
                flux + 0.5 * (self.press[-1] + self.press[-2]) + p["preindustrial_co2_conc"]
            )
        return self.conc

    def land_for(self, concs, temps):
        """Yearly land uptake when concentrations are prescribed (constant within a year)."""
        extra = [
            self.npp_factor(t) * self.p["beta_f"] * math.log(c / self.p["preindustrial_co2_conc"])
            for c, t in zip(concs, temps) for _ in range(self.n)
        ]
        self._resp(len(extra))
        rb, arr = np.array(self.rb), np.array(extra)
        flux = [arr[i] - (float(np.dot(arr[1:i], rb[: i - 1][::-1])) / self.n if i > 1 else 0.0) for i in range(len(arr))]
        return [sum(flux[i : i + self.n]) / self.n for i in range(0, len(flux), self.n)]

    def yearly_land(self):
        return [sum(self.land[i : i + self.n]) / self.n for i in range(0, len(self.land), self.n)]

    def yearly_ocean(self):
        return [
            sum(self.uptake[i : i + self.n]) / self.n * PPM_TO_PGC / 9.06
            for i in range(0, len(self.uptake), self.n)
        ]


class RefBox:
    """Box carbon cycle: atmosphere, vegetation, soil, mixed and deep ocean."""

    def __init__(self, pam=None):
        self.p = pick(BOX_DEFAULT, pam)
        self.conc, self.veg, self.soil, self.mixed, self.deep = 278.0, 600.0, 3000.0, 0.0, 0.0

    def npp(self, conc, dtemp):
        return max(0.0, 60.0 + self.p["beta_f"] * math.log(conc / 278.0)
                   - self.p["land_temp_sensitivity"] * dtemp)

    def ocean(self, conc, dtemp):
        return (self.p["ocean_solubility_base"]
                * (1 + self.p["ocean_solubility_temp_coeff"] * dtemp) * (conc - 278.0))

    def year(self, emission, dtemp=0.0):
        p = self.p
        npp, up = self.npp(self.conc, dtemp), self.ocean(self.conc, dtemp)
        litter = self.veg * p["vegetation_to_soil_fraction"]
        resp = self.soil * p["soil_respiration_rate"]
        mix = (self.mixed - self.deep) * p["ocean_exchange_rate"]
        self.veg += npp - litter
        self.soil += litter - resp
        self.mixed += up - mix
        self.deep += mix
        self.conc += (emission - up + resp - npp) / PPM_TO_PGC
        return self.conc


# ------------------------------------------------------------------ gases
HALO_COUNTS = {  # (chlorine, bromine) atoms per molecule, from the chemical formula
    "CFC-11": (3, 0), "CFC-12": (2, 0), "CFC-113": (3, 0), "CFC-114": (2, 0),
    "CFC-115": (1, 0), "CFC-112": (4, 0), "CFC-112a": (4, 0), "CFC-113a": (3, 0),
    "CFC-114a": (2, 0), "CFC-13": (1, 0),
    "CCl4": (4, 0), "CH3CCl3": (3, 0), "CHCl3": (3, 0),
    "CH2Cl2": (2, 0), "CH3Cl": (1, 0), "CH3Br": (0, 1), "HCFC-22": (1, 0),
    "HCFC-141b": (2, 0), "HCFC-142b": (1, 0), "HCFC-123": (2, 0), "HCFC-124": (1, 0),
    "HCFC-31": (1, 0), "HCFC-124a": (1, 0), "HCFC-133a": (1, 0),
    "HCFC-225ca": (2, 0), "HCFC-225cb": (2, 0),
    "H-1211": (1, 1), "H-1301": (0, 1), "H-2402": (0, 2), "H-1202": (0, 2),
    "H-2311": (1, 1), "H-1121": (2, 1), "H-1031": (3, 1), "HCFC-1233zd": (1, 0), "CH2Br2": (0, 2), "CHBr3": (0, 3), "CH2BrCl": (1, 1), "CHBrCl2": (2, 1),
    "CHBr2Cl": (1, 2),
}


def is_precalculated(gas, row):
    return row["CONC_UNIT"] != "-" and gas not in ("CO2", "CH4", "N2O")


class RefRun:
    """One run of the whole model over world data; see simulate()."""

    def __init__(self, w, udm=None, emiconc=None, carbon=None):
        self.w = w
        self.years = list(range(w["nystart"], w["nyend"] + 1))
        self.pe = pick(EMICONC_DEFAULT, emiconc)
        self.just_one = (emiconc or {}).get("just_one")
        self.udm_pam, self.carbon_pam = udm, dict(carbon or {})
        self.gas = w["gas"]  # {name: {col: val}}
        for aer, fac in (("SO2", "qdirso2"), ("BC", "qbc"), ("OC", "qoc")):
            if any(g.startswith(aer + "_") for g in self.gas):
                self.pe[fac] = 0.0

    def em(self, sp, yr):
        val = self.w["em"][sp][yr]
        for row in self.w.get("perturb_em") or []:
            comp = "CO2_FF" if row[0] == "CO2" else row[0]
            if comp == sp and row[1] == yr:
                val += row[2]
        return val

    def pert_forc(self, gas, yr):
        return sum(
            r[2] for r in self.w.get("perturb_forc") or [] if r[0] == gas and r[1] == yr
        )

    def prescribed(self, yr):
        return bool(self.w.get("conc_run")) or yr < self.w["emstart"]

    def halo(self):
        """Concentrations of the gases with one constant lifetime."""
        self.conc = {}
        for g, row in self.gas.items():
            if not is_precalculated(g, row):
                continue
            series = {}
            for yr in self.years:
                if self.prescribed(yr):
                    series[yr] = self.w["conc"][g][yr]
                    continue
                prev = series.get(yr - 1, self.w["conc"][g][yr])
                q = 1.0 / row["TAU1"]
                src = (self.em(g, yr) + row["NAT_EM"]) / row["BETA"]
                series[yr] = src / q * (1 - math.exp(-q)) + prev * math.exp(-q)
            self.conc[g] = series

    def strat_o3(self, yr):
        y0 = self.years[0]
        if yr - y0 < 3:
            return 0.0
        cl = br = 0.0
        for g in self.conc:
            if g not in HALO_COUNTS:
                continue
            ncl, nbr = HALO_COUNTS[g]
            d = self.conc[g][yr - 3] - self.conc[g][y0]
            if ncl:
                cl += math.copysign((ncl * abs(d)) ** 1.7, d)
            br += nbr * d
        return -0.05 / 0.17377 * (0.000552 * cl + 3.048 * br) / 1000.0 * self.gas["STRAT_O3"]["SARF_TO_ERF"]

    def ch4_n2o(self, yr):
        for g, nat in (("CH4", "nat_ch4"), ("N2O", "nat_n2o")):
            if self.prescribed(yr):
                self.conc[g][yr] = self.w["conc"][g][yr]
                continue
            prev = self.conc[g].get(yr - 1, self.w["conc"][g][yr])
            row = self.gas[g]
            q = 1.0 / row["TAU1"]
            if g == "CH4":
                mode = self.pe["lifetime_mode"]
                if mode == "TAR":
                    dln = (
                        -0.32 * (math.log(prev) - math.log(1751.0))
                        + 0.0042 * (self.em("NOx", yr) - self.em("NOx", 2000))
                        - 0.000105 * (self.em("CO", yr) - self.em("CO", 2000))
                        - 0.000315 * (self.em("NMVOC", yr) - self.em("NMVOC", 2000))
                    )
                    q *= 1 + dln
                elif mode == "CONSTANT_12":
                    q = 1.0 / 12.0
                elif mode == "WIGLEY":
                    q *= (prev / 1700.0) ** -0.238
                q += 1.0 / row["TAU2"] + 1.0 / row["TAU3"]
            if self.w.get(nat) is not None:
                natural = self.w[nat][yr]
            else:
                natural = row["NAT_EM"]
            eq = (self.em(g, yr) + natural) / row["BETA"] / q
            self.conc[g][yr] = eq + (prev - eq) * math.exp(-q)

    def forcing(self, yr, luc):
        y0 = self.years[0]
        c, c0 = ({g: self.conc[g][y] for g in ("CO2", "CH4", "N2O")} for y in (yr, y0))
        f = {}
        e = {g: self.gas[g]["SARF_TO_ERF"] for g in self.gas}
        dc = c["CO2"] - c0["CO2"]
        mean = {g: 0.5 * (c[g] + c0[g]) for g in c}
        f["CO2"] = e["CO2"] * (
            -2.4e-7 * dc**2 + 7.2e-4 * abs(dc) - 2.1e-4 * mean["N2O"] + 5.36
        ) * math.log(c["CO2"] / c0["CO2"])
        f["N2O"] = e["N2O"] * (
            -8.0e-6 * mean["CO2"] + 4.2e-6 * mean["N2O"] - 4.9e-6 * mean["CH4"] + 0.117
        ) * (math.sqrt(c["N2O"]) - math.sqrt(c0["N2O"]))
        f["CH4"] = e["CH4"] * (
            -1.3e-6 * mean["CH4"] - 8.2e-6 * mean["N2O"] + 0.043
        ) * (math.sqrt(c["CH4"]) - math.sqrt(c0["CH4"]))
        ref = self.pe["ref_yr"]
        self.conc["TROP_O3"][yr] = (
            30.0
            + 6.7 * (math.log(c["CH4"]) - math.log(self.w["conc"]["CH4"][ref]))
            + 0.17 * (self.em("NOx", yr) - self.em("NOx", ref))
            + 0.0014 * (self.em("CO", yr) - self.em("CO", ref))
            + 0.0042 * (self.em("NMVOC", yr) - self.em("NMVOC", ref))
        )
        src = {"SO2": ("SO2", "qdirso2"), "SO4_IND": ("SO2", "qindso2"), "OC": ("OC", "qoc"),
               "BC": ("BC", "qbc"), "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"),
               "NMVOC": ("NMVOC", "qnmvoc"), "NH3": ("NH3", "qnh3"), "NOx": ("NOx", "qnox")}
        aero = 0.0
        for g, row in self.gas.items():
            if g in f:
                continue
            q = 0.0
            if is_precalculated(g, row):
                q = row["ALPHA"] * row["SARF_TO_ERF"] * (self.conc[g][yr] - self.conc[g][y0])
            elif g == "LANDUSE":
                q = luc
            elif g in ("NMVOC", "NH3", "NOx") or g[:2] in AERO_PREFIX:
                if row["ALPHA"] != 0:
                    q = row["ALPHA"] * (self.em(g, yr) - self.em(g, y0))
                elif g in src:
                    q = self.pe[src[g][1]] * (self.em(src[g][0], yr) - self.em(src[g][0], y0))
                aero += abs(q)
            elif g == "TROP_O3":
                o0 = self.conc["TROP_O3"][y0]
                if o0 != 30.0:
                    q = (self.conc["TROP_O3"][yr] - o0) / (30.0 - o0) * self.pe["qo3"] * e[g]
            elif g == "STRAT_H2O":
                q = self.pe["qh2o_ch4"] * f["CH4"] * e[g]
            elif g == "STRAT_O3":
                q = self.strat_o3(yr)
            f[g] = q
        for g in f:
            f[g] += self.pert_forc(g, yr)
        if self.just_one:
            parts = {self.just_one: f[self.just_one]}
        else:
            parts = f
        tot = sum(parts.values())
        nh = sh = 0.0
        for g, q in parts.items():
            fac = hemi_factor(g)
            nh += q * fac
            sh += q * (2 - fac)
        denom = sum(
            abs(q) for g, q in f.items()
            if g != "STRAT_O3" and not is_precalculated(g, self.gas[g])
        )
        self.w_aero.append(aero / denom if denom > 0 else 0.0)
        return f, tot, nh, sh

    def run(self):
        w = self.w
        th = make_thermal(w.get("thermal_model"), self.udm_pam)
        self.w_aero = []
        out = {"years": self.years, "thermal": [], "Total_forcing": [], "forc": {}, "hemi": []}
        box = w.get("carbon_cycle_model") == "box"
        pam = dict(self.carbon_pam)
        if box:
            cc = RefBox(pam)
        else:
            pam.setdefault("preindustrial_co2_conc", w["conc"]["CO2"][w["nystart"]])
            cc = RefCarbon(w.get("idtm", 24), pam, w.get("functions"))
        self.cc = cc
        self.halo()
        self.conc.update({"CO2": {}, "CH4": {}, "N2O": {}, "TROP_O3": {}})
        temp = []
        for i, yr in enumerate(self.years):
            if w.get("conc_run"):
                self.conc["CO2"][yr] = w["conc"]["CO2"][yr]
            else:
                e = self.em("CO2_FF", yr) + self.em("CO2_AFOLU", yr) + self.gas["CO2"]["NAT_EM"]
                self.conc["CO2"][yr] = cc.year(e, temp[-1] if temp else 0.0)
            self.ch4_n2o(yr)
            f, tot, nh, sh = self.forcing(yr, w["luc"][i])
            for g, q in f.items():
                out["forc"].setdefault(g, []).append(q)
            out["Total_forcing"].append(tot)
            sun = w["sun"][i]
            th.pattern(self.w_aero[-1])
            out["hemi"].append((nh + sun, sh + sun))
            v = th.year(nh + sun, sh + sun, list(w["volc_n"][i]), list(w["volc_s"][i]))
            out["thermal"].append(v)
            temp.append(v["dT_glob"])
        out["conc"] = {g: [s[y] for y in self.years] for g, s in self.conc.items()}
        out["temp"] = temp
        out["w_aero"] = self.w_aero
        out["cc"] = cc
        return out


def hemi_factor(g):
    if g in HEMI_AERO:
        return 1.47
    return {"TROP_O3": 1.45, "LANDUSE": 1.42}.get(g, 1.0)


def simulate(w, udm=None, emiconc=None, carbon=None):
    return RefRun(w, udm, emiconc, carbon).run()


def simulate_forcing(w, udm=None):
    """Forcing run: w has forc_n, forc_s, forc, w_aero lists by year, sun, volc."""
    th = make_thermal(w.get("thermal_model"), udm)
    out = {"thermal": [], "Total_forcing": []}
    n = w["nyend"] - w["nystart"] + 1
    for i in range(n):
        th.pattern(w["w_aero"][i])
        s = w["sun"][i]
        out["Total_forcing"].append(w["forc"][i] + s)
        out["thermal"].append(
            th.year(w["forc_n"][i] + s, w["forc_s"][i] + s, list(w["volc_n"][i]), list(w["volc_s"][i]))
        )
    return out
