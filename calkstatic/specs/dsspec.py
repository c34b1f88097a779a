"""Processing a whole metadata table, written independently, row by row."""

import numpy as np
import pandas as pd
import pipespec
import PyCO2SYS as pyco2

NAMES = (
    "file_path",
    "col_measurement",
    "col_temperature",
    "col_titrant_amount",
    "delimiter",
    "skip_header",
    "analyte_mass",
    "analyte_volume",
    "molinity_H2SO4",
    "molinity_HCl",
    "molinity_NaCl",
    "temperature_override",
    "titrant_amount_unit",
    "titrant_density",
    "titrant",
    "dic",
    "dilute_totals_for_ks",
    "total_alpha",
    "total_beta",
    "total_ammonia",
    "total_phosphate",
    "total_silicate",
    "total_sulfide",
    "total_borate",
    "total_fluoride",
    "total_sulfate",
    "k_alpha",
    "k_ammonia",
    "k_beta",
    "k_bisulfate",
    "k_borate",
    "k_carbonic_1",
    "k_carbonic_2",
    "k_fluoride",
    "k_phosphoric_1",
    "k_phosphoric_2",
    "k_phosphoric_3",
    "k_silicate",
    "k_sulfide",
    "k_water",
    "opt_k_bisulfate",
    "opt_k_carbonic",
    "opt_k_fluoride",
    "opt_pH_scale",
    "opt_total_borate",
    "alkalinity_init",
    "double",
    "emf0_init",
    "gran_logic",
    "pH_min",
    "pH_max",
    "titrant_normality",
    "titrant_total_sulfate",
    "titrant_total_phosphate",
    "titrant_total_fluoride",
    "titrant_molinity_init",
    "solve_mode",
)


def options(row, given):
    """What applies to one row: its own entry, else the call's setting."""
    out = {}
    for k in NAMES:
        if k in given:
            out[k] = given[k]
        if k in row and not pd.isnull(row[k]):
            out[k] = row[k]
    return out


def estimates(ds, given):
    """Salts estimated from salinity where neither table nor call has them."""
    if "opt_total_borate" not in ds:
        ds["opt_total_borate"] = np.nan
    opt = given["opt_total_borate"] if "opt_total_borate" in given else 1
    ds["opt_total_borate"] = ds["opt_total_borate"].where(
        ds["opt_total_borate"].notnull(), opt
    )
    est = pyco2.sys(
        salinity=ds["salinity"].to_numpy(),
        opt_total_borate=ds["opt_total_borate"].to_numpy(),
    )
    for salt in ("total_sulfate", "total_borate", "total_fluoride"):
        if salt in given and not pd.isnull(given[salt]):
            continue
        if salt not in ds:
            ds[salt] = np.nan
        ds[salt] = ds[salt].where(ds[salt].notnull(), est[salt])
    return ds


def valid(o, mode):
    """Can this row be processed at all?"""
    unit = o["titrant_amount_unit"].lower() if "titrant_amount_unit" in o else "ml"
    if unit not in ("ml", "g", "kg"):
        return False
    if unit == "ml" and "titrant" in o:
        density = o["titrant_density"] if "titrant_density" in o else None
        if density is None and o["titrant"].lower() not in ("hcl", "h2so4"):
            return False
    has_mass = "analyte_mass" in o and not pd.isnull(o["analyte_mass"])
    has_volume = "analyte_volume" in o and not pd.isnull(o["analyte_volume"])
    if not has_mass and not has_volume:
        return False
    if mode == "emf" or mode == "pH_adjust":
        if "gran_logic" in o and o["gran_logic"] not in ("legacy", "v23.7+"):
            return False
    lo = o["pH_min"] if "pH_min" in o else 3
    hi = o["pH_max"] if "pH_max" in o else 4
    return lo < hi


def solve_row(row, given):
    out = {
        "alkalinity_npts": 0,
        "alkalinity_std": np.nan,
        "alkalinity": np.nan,
        "emf0": np.nan,
        "gran_alkalinity": np.nan,
        "gran_emf0": np.nan,
        "pH_init": np.nan,
        "temperature_init": np.nan,
    }
    good = row["file_good"] if "file_good" in row else True
    if good and not pd.isnull(row["titrant_molinity"]):
        o = options(row, given)
        mode = o.pop("solve_mode", "emf")
        if not valid(o, mode):
            return pd.Series(out)
        r = pipespec.solve(
            row["file_name"],
            row["titrant_molinity"],
            row["salinity"],
            solve_mode=mode,
            **o,
        )
        out["alkalinity_npts"] = np.sum(r["used"])
        out["alkalinity"] = r["alkalinity"]
        out["pH_init"] = r["pH"][0]
        out["temperature_init"] = r["temperature"][0]
        if mode != "pH_gran":
            out["alkalinity_std"] = np.std(r["alkalinity_all"][r["used"]])
        if mode == "emf" or mode == "pH_adjust":
            out["emf0"] = r["emf0"]
            out["gran_alkalinity"] = r["gran_alkalinity"] * 1e6
            out["gran_emf0"] = r["gran_emf0"]
    return pd.Series(out)


def solve(ds, given):
    estimates(ds, given)
    return ds.apply(solve_row, axis=1, given=given)


def here_row(row, given):
    good = row["file_good"] if "file_good" in row else True
    if good and not pd.isnull(row["alkalinity_certified"]):
        o = options(row, given)
        mode = o.pop("solve_mode", "emf")
        if not valid(o, mode):
            return np.nan
        return pipespec.calibrate(
            row["file_name"],
            row["alkalinity_certified"],
            row["salinity"],
            solve_mode=mode,
            **o,
        )
    return np.nan


def here(ds, given):
    """Titrant molinity found from each titration of a reference."""
    estimates(ds, given)
    return ds.apply(here_row, axis=1, given=given)


def chosen(group):
    """The individually calibrated values of a batch that count."""
    x = group["titrant_molinity_here"]
    ok = x.notnull()
    if "reference_good" in group:
        ok = group["reference_good"] & ok
    return x[ok]


def mean_of(group):
    return chosen(group).mean()


def std_of(group):
    return chosen(group).std()


def count_of(group):
    return chosen(group).count()


def batch_molinity(ds):
    """Mean of the values that count among the rows of each row's batch."""
    if "analysis_batch" not in ds:
        ds["analysis_batch"] = 0
    return ds["analysis_batch"].map(ds.groupby("analysis_batch").apply(mean_of))


def batch_table(ds):
    by = ds.groupby("analysis_batch")
    return {
        "titrant_molinity": by.apply(mean_of),
        "titrant_molinity__std": by.apply(std_of),
        "titrant_molinity__count": by.apply(count_of),
    }


SALTS = ("total_sulfate", "total_fluoride", "total_borate", "total_phosphate",
         "total_silicate", "total_ammonia", "total_sulfide", "total_alpha",
         "total_beta")
SPECIES = ("HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4", "HSO4", "HF",
           "H3SiO4", "NH3", "HS", "OH")


def entry(row, given, name):
    return given[name] if name in given else row[name]


def titration(row, given):
    """One titration on its own: the call's settings replace the row's."""
    o = {}
    for k in NAMES:
        if k in given:
            if not pd.isnull(given[k]):
                o[k] = given[k]
        elif k in row and not pd.isnull(row[k]):
            o[k] = row[k]
    mode = o.pop("solve_mode", "emf")
    mol = entry(row, given, "titrant_molinity")
    salinity = entry(row, given, "salinity")
    r = pipespec.solve(
        entry(row, given, "file_name"), mol, salinity, solve_mode=mode, **o
    )
    normality = o["titrant_normality"] if "titrant_normality" in o else 1
    tm, am, temperature = r["titrant_mass"], r["analyte_mass"], r["temperature"]
    acid = tm * mol * normality
    out = {
        "alkalinity": r["alkalinity"],
        "alkalinity_npts": np.sum(r["used"]),
        "pH_init": r["pH"][0],
        "temperature_init": temperature[0],
        "analyte_mass": am,
        "salinity": salinity,
        "titrant_molinity": mol,
        "titrant_normality": normality,
    }
    t = {
        "titrant_mass": tm,
        "temperature": temperature,
        "pH": r["pH"],
        "used": r["used"],
        "dilution_factor": am / (am + tm),
        "H": 10 ** -r["pH"],
        "alkalinity_from_acid": (r["alkalinity"] * 1e-6 * am - acid) / (am + tm),
    }
    for k in r["totals"]:
        t[k] = r["totals"][k]
    for k in r["k_constants"]:
        t[k] = r["k_constants"][k]
    if mode != "pH_gran":
        out["alkalinity_std"] = np.std(r["alkalinity_all"][r["used"]])
    if mode == "emf" or mode == "pH_adjust":
        out["emf0"] = r["emf0"]
        out["gran_alkalinity"] = r["gran_alkalinity"] * 1e6
        out["gran_emf0"] = r["gran_emf0"]
        t["emf"] = r["emf"]
        t["gran_func"] = r["gran_func"]
        t["gran_emf0"] = r["gran_emf0s"]
        t["gran_pH"] = r["gran_pH"]
        t["gran_used"] = r["gran_used"]
    if mode == "pH_gran":
        t["gran_func"] = r["gfunc"]
        t["gran_used"] = r["used"]
    state = {}
    for k in SALTS:
        state[k] = r["totals"][k] * 1e6 if k in r["totals"] else 0
    for k in r["k_constants"]:
        state[k] = r["k_constants"][k]
    c = pyco2.sys(
        par1=r["totals"]["dic"] * 1e6,
        par1_type=2,
        par2=r["pH"],
        par2_type=3,
        opt_pH_scale=3,
        temperature=temperature,
        salinity=salinity,
        **state,
    )
    for k in SPECIES:
        t[k] = c[k] * 1e-6
    t["k_CO2"] = c["k_CO2"]
    t["alk_alpha"] = c["alkalinity_alpha"] * 1e-6
    t["alk_beta"] = c["alkalinity_beta"] * 1e-6
    t["alkalinity_from_pH"] = c["alkalinity"] * 1e-6
    t["alkalinity_estimate"] = (
        t["alkalinity_from_pH"] + acid / (am + tm)
    ) * (am + tm) / am
    return out, t


def titration_at(ds, index, given):
    return titration(ds.loc[index], given)
