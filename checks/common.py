"""Shared alphabets and parameter values of the checks."""

import itertools

UDM_VALUES = {  # documented prior ranges and beyond
    "rlamdo": [1.0, 5.0, 16.2, 25.0, 60.0], "akapa": [0.0, 0.06, 0.341, 0.8, 3.0], "cpi": [0.0, 0.161, 0.569, 1.0],
    "W": [0.0, 0.55, 2.55, 4.0, 9.0], "beto": [0.0, 3.5, 7.0, 20.0], "threstemp": [0, 3.0, 7, 10.0],
    "lambda": [0.3, 0.54, 2.16, 4.0], "mixed": [25.0, 60, 100.0, 125.0, 350.0, 699.0],
    "foan": [0.3, 0.5, 0.9], "foas": [0.3, 0.61, 0.95], "ebbeta": [0.0, 0.5, 2.0, 17.0, 40.0],
    "lm": [8, 12, 39, 41, 60], "ldtime": [1, 2, 6, 13, 24], "ocean_efficacy": [0.5, 0.8, 1.2, 2.0],
    "delta_lambda_aero": [-0.7, 0.4, 3.4],
}
TWO_VALUES = {
    "lambda": [0.2, 0.5, 1.0, 2.5, 5.0], "mixed": [10.0, 50, 125, 400.0, 700.0, 900.0],
    "deep": [100.0, 500, 650.0, 1000.0, 3000.0], "k": [0.0, 0.3, 1.5, 3.0],
    "ocean_efficacy": [0.5, 1.2, 2.0], "foan": [0.3, 0.9], "foas": [0.2, 0.95],
    "delta_lambda_aero": [-0.7, 0.4, 3.4],
}
EMICONC_VALUES = {
    "qbmb": [0.0, 0.05, 2.0], "qo3": [0.0, 0.4, 0.6], "qdirso2": [-0.006, 0.0, 0.002],
    "qindso2": [-0.03, 0.0], "qbc": [0.004, 0.05], "qoc": [-0.008, 0.0], "qh2o_ch4": [0.0, 0.15],
    "qnmvoc": [0.01, -0.02], "qnh3": [-0.003, 0.02], "qnox": [-0.01, 0.02],
    "ref_yr": [1998, 2004, 2012],
}
CARBON_VALUES = {
    "beta_f": [0.0, 0.11, 0.465, 1.5], "mixed_carbon": [25.0, 60, 125.0], "ml_w_sigmoid": [2.0, 4.0],
    "ml_fracmax": [0.0, 0.3, 0.8], "ml_t_half": [-0.5, 1.0], "t_half": [0.3, 0.8],
    "w_sigmoid": [5.0, 10.0], "t_threshold": [3.0, 7.0], "w_threshold": [5.0, 10.0],
    "solubility_sens": [0.0, 0.01, 0.3], "solubility_limit": [0.001, 0.8],
    "ml_depth_min": [1.0, 74.9999, 90.0], "preindustrial_co2_conc": [270.0, 285.0],
}
BOX_VALUES = {
    "beta_f": [0.0, 5.0, 20.0], "land_temp_sensitivity": [0.0, 0.5, 40.0],
    "soil_respiration_rate": [0.0, 0.025, 0.6], "ocean_exchange_rate": [0.0, 0.2, 0.9],
    "vegetation_to_soil_fraction": [0.0, 0.15, 0.8], "ocean_solubility_base": [0.0, 0.05, 1.0],
    "ocean_solubility_temp_coeff": [0.0, 0.1, -0.2],
}


def singles(table):
    return [{k: v} for k, vals in table.items() for v in vals]


def pairs(table, nval=2):
    """All pairs of parameters, each over its first and last (nval=2) values."""
    def ends(vals):
        return [vals[0], vals[-1]] if nval == 2 else vals
    out = []
    for a, b in itertools.combinations(table, 2):
        for x in ends(table[a]):
            for y in ends(table[b]):
                out.append({a: x, b: y})
    return out


def histories(n, depth):
    return [list(h) for h in itertools.product(range(n), repeat=depth)]


# gases a gas table can do without
REMOVABLE = ["CFC-11", "CFC-113", "CH3Br", "CCl4", "HCFC-22", "H-1211", "HFC134a", "CF4", "SF6", "NH3",
             "BMB_AEROS_BC", "BC", "OC"]
