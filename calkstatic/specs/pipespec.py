"""The whole processing chain for one titration, written independently."""

import os

import chemspec
import densityspec
import numpy as np
import pandas as pd
import PyCO2SYS as pyco2
import readspec
from scipy.optimize import least_squares


def masses(
    amount,
    temperature,
    salinity,
    analyte_mass=None,
    analyte_volume=None,
    molinity_H2SO4=0.1,
    molinity_HCl=0.1,
    molinity_NaCl=0.6,
    temperature_override=None,
    titrant_amount_unit="ml",
    titrant_density=None,
    titrant="HCl",
):
    """(titrant mass in kg, temperature, analyte mass in kg)"""
    if temperature_override is not None:
        temperature = np.full_like(temperature, temperature_override)
    unit = titrant_amount_unit.lower()
    if unit == "kg":
        tm = amount
    elif unit == "g":
        tm = amount / 1000
    elif titrant_density is not None:
        tm = amount * titrant_density / 1000
    elif titrant.lower() == "h2so4":
        tm = amount * densityspec.h2so4(molinity_H2SO4) / 1000
    else:
        tm = amount * densityspec.hcl_nacl(molinity_HCl, molinity_NaCl) / 1000
    if pd.isnull(analyte_mass):
        analyte_mass = (
            analyte_volume * densityspec.seawater(temperature[0], salinity) / 1000
        )
    return tm, temperature, analyte_mass


def nutrient(opt_k_carbonic, x):
    """PyCO2SYS: GEOSECS and freshwater cases have no nutrients."""
    return np.where((opt_k_carbonic == 6) | (opt_k_carbonic == 8), 0.0, x)


def contents(
    salinity,
    dic=0,
    total_alpha=0,
    total_beta=0,
    total_ammonia=0,
    total_phosphate=0,
    total_silicate=0,
    total_sulfide=0,
    total_borate=None,
    total_fluoride=None,
    total_sulfate=None,
    opt_k_carbonic=10,
    opt_total_borate=1,
):
    """Undiluted contents in mol/kg, and the same as PyCO2SYS names them."""
    p = pyco2.salts.assemble(
        salinity,
        total_silicate,
        total_phosphate,
        total_ammonia,
        total_sulfide,
        opt_k_carbonic,
        opt_total_borate,
    )
    if not pd.isnull(total_borate):
        p["TB"] = total_borate / 1e6
    if not pd.isnull(total_fluoride):
        p["TF"] = total_fluoride / 1e6
    if not pd.isnull(total_sulfate):
        p["TSO4"] = total_sulfate / 1e6
    t = {
        "dic": dic / 1e6,
        "total_borate": p["TB"],
        "total_fluoride": p["TF"],
        "total_sulfate": p["TSO4"],
    }
    if total_alpha > 0:
        t["total_alpha"] = total_alpha / 1e6
        p["alpha"] = total_alpha / 1e6
    if total_beta > 0:
        t["total_beta"] = total_beta / 1e6
        p["beta"] = total_beta / 1e6
    if total_ammonia > 0:
        t["total_ammonia"] = nutrient(opt_k_carbonic, total_ammonia) / 1e6
    if total_phosphate > 0:
        t["total_phosphate"] = nutrient(opt_k_carbonic, total_phosphate) / 1e6
    if total_silicate > 0:
        t["total_silicate"] = nutrient(opt_k_carbonic, total_silicate) / 1e6
    if total_sulfide > 0:
        t["total_sulfide"] = nutrient(opt_k_carbonic, total_sulfide) / 1e6
    return t, p


def constants(
    p,
    temperature,
    k_alpha=None,
    k_ammonia=None,
    k_beta=None,
    k_bisulfate=None,
    k_borate=None,
    k_carbonic_1=None,
    k_carbonic_2=None,
    k_fluoride=None,
    k_phosphoric_1=None,
    k_phosphoric_2=None,
    k_phosphoric_3=None,
    k_silicate=None,
    k_sulfide=None,
    k_water=None,
    opt_k_bisulfate=1,
    opt_k_carbonic=10,
    opt_k_fluoride=1,
    opt_pH_scale=3,
):
    given = {}
    # bisulfate and fluoride also set the pH-scale conversions of the others
    if not pd.isnull(k_bisulfate):
        given["KSO4"] = k_bisulfate
    if not pd.isnull(k_fluoride):
        given["KF"] = k_fluoride
    e = pyco2.equilibria.assemble(
        temperature,
        0,
        p,
        opt_pH_scale,
        opt_k_carbonic,
        opt_k_bisulfate,
        opt_k_fluoride,
        3,
        Ks=given,
    )

    k = {}
    k["k_alpha"] = e["k_alpha"] if pd.isnull(k_alpha) else k_alpha
    k["k_ammonia"] = e["KNH3"] if pd.isnull(k_ammonia) else k_ammonia
    k["k_beta"] = e["k_beta"] if pd.isnull(k_beta) else k_beta
    k["k_bisulfate"] = e["KSO4"]
    k["k_borate"] = e["KB"] if pd.isnull(k_borate) else k_borate
    k["k_carbonic_1"] = e["K1"] if pd.isnull(k_carbonic_1) else k_carbonic_1
    k["k_carbonic_2"] = e["K2"] if pd.isnull(k_carbonic_2) else k_carbonic_2
    k["k_fluoride"] = e["KF"]
    k["k_phosphoric_1"] = e["KP1"] if pd.isnull(k_phosphoric_1) else k_phosphoric_1
    k["k_phosphoric_2"] = e["KP2"] if pd.isnull(k_phosphoric_2) else k_phosphoric_2
    k["k_phosphoric_3"] = e["KP3"] if pd.isnull(k_phosphoric_3) else k_phosphoric_3
    k["k_silicate"] = e["KSi"] if pd.isnull(k_silicate) else k_silicate
    k["k_sulfide"] = e["KH2S"] if pd.isnull(k_sulfide) else k_sulfide
    k["k_water"] = e["KW"] if pd.isnull(k_water) else k_water
    if opt_pH_scale == 1:
        k["k_fluoride"] = k["k_fluoride"] * (1 + p["TSO4"] / k["k_bisulfate"])
    return k


DILUTED = ("TB", "TF", "TSO4", "TCa", "alpha", "beta", "TPO4", "TSi", "TNH3", "TH2S")


def through(
    salinity,
    tm,
    temperature,
    am,
    dic=0,
    dilute_totals_for_ks=False,
    total_alpha=0,
    total_beta=0,
    total_ammonia=0,
    total_phosphate=0,
    total_silicate=0,
    total_sulfide=0,
    total_borate=None,
    total_fluoride=None,
    total_sulfate=None,
    opt_k_carbonic=10,
    opt_total_borate=1,
    **ks,
):
    """Contents and constants through the titration."""
    t, p = contents(
        salinity,
        dic=dic,
        total_alpha=total_alpha,
        total_beta=total_beta,
        total_ammonia=total_ammonia,
        total_phosphate=total_phosphate,
        total_silicate=total_silicate,
        total_sulfide=total_sulfide,
        total_borate=total_borate,
        total_fluoride=total_fluoride,
        total_sulfate=total_sulfate,
        opt_k_carbonic=opt_k_carbonic,
        opt_total_borate=opt_total_borate,
    )
    f = am / (am + tm)
    t = {k: v * f for k, v in t.items()}
    if dilute_totals_for_ks:
        for k in DILUTED:
            if k in p:
                p[k] = p[k] * f
    return t, constants(p, temperature, opt_k_carbonic=opt_k_carbonic, **ks)


def prepare(
    file_name,
    salinity,
    file_path=None,
    col_measurement=1,
    col_temperature=2,
    col_titrant_amount=0,
    delimiter="\t",
    skip_header=2,
    analyte_mass=None,
    analyte_volume=None,
    molinity_H2SO4=0.1,
    molinity_HCl=0.1,
    molinity_NaCl=0.6,
    temperature_override=None,
    titrant_amount_unit="ml",
    titrant_density=None,
    titrant="HCl",
    **kw,
):
    if file_path is not None:
        file_name = os.path.join(file_path, file_name)
    amount, measured, temperature = readspec.genfromtxt(
        file_name,
        col_measurement=col_measurement,
        col_temperature=col_temperature,
        col_titrant_amount=col_titrant_amount,
        delimiter=delimiter,
        skip_header=skip_header,
    )
    tm, temperature, am = masses(
        amount,
        temperature,
        salinity,
        analyte_mass=analyte_mass,
        analyte_volume=analyte_volume,
        molinity_H2SO4=molinity_H2SO4,
        molinity_HCl=molinity_HCl,
        molinity_NaCl=molinity_NaCl,
        temperature_override=temperature_override,
        titrant_amount_unit=titrant_amount_unit,
        titrant_density=titrant_density,
        titrant=titrant,
    )
    t, k = through(salinity, tm, temperature, am, **kw)
    return tm, measured, temperature, am, t, k


def add_titrant(t, tm, am, mol, sulfate, phosphate, fluoride):
    """Contents after mixing in what the titrant itself carries."""
    t = dict(t)
    if sulfate is not None:
        t["total_sulfate"] = t["total_sulfate"] + tm * mol * sulfate / (tm + am)
    if phosphate is not None:
        old = t["total_phosphate"] if "total_phosphate" in t else 0
        t["total_phosphate"] = old + tm * mol * phosphate / (tm + am)
    if fluoride is not None:
        t["total_fluoride"] = t["total_fluoride"] + tm * mol * fluoride / (tm + am)
    return t


def alkalinity_of(
    mode,
    mol,
    tm,
    measured,
    temperature,
    am,
    t,
    k,
    alkalinity_init=None,
    double=True,
    emf0_init=None,
    gran_logic="v23.7+",
    pH_min=3,
    pH_max=4,
    titrant_normality=1,
    titrant_total_sulfate=None,
    titrant_total_phosphate=None,
    titrant_total_fluoride=None,
):
    t = add_titrant(
        t,
        tm,
        am,
        mol,
        titrant_total_sulfate,
        titrant_total_phosphate,
        titrant_total_fluoride,
    )
    if mode == "pH":
        r = chemspec.solve_pH(
            mol, tm, measured, temperature, am, t, k, pH_min, pH_max, titrant_normality
        )
    elif mode == "pH_gran":
        r = chemspec.solve_pH_gran(
            mol, tm, measured, temperature, am, t, k, pH_min, pH_max, titrant_normality
        )
    else:
        if mode == "pH_adjust":
            measured = chemspec.pH_to_emf(measured, 0, temperature)
            emf0_init = 0
        r = chemspec.solve_emf(
            mol,
            tm,
            measured,
            temperature,
            am,
            t,
            k,
            alkalinity_init=alkalinity_init,
            double=double,
            emf0_init=emf0_init,
            gran_logic=gran_logic,
            pH_min=pH_min,
            pH_max=pH_max,
            titrant_normality=titrant_normality,
        )
    r = dict(r)
    r["totals"] = t
    r["k_constants"] = k
    r["titrant_mass"] = tm
    r["analyte_mass"] = am
    r["temperature"] = temperature
    r["titrant_molinity"] = mol
    if mode == "emf" or mode == "pH_adjust":
        r["emf"] = measured
    return r


def split(
    alkalinity_init=None,
    double=True,
    emf0_init=None,
    gran_logic="v23.7+",
    pH_min=3,
    pH_max=4,
    titrant_normality=1,
    titrant_total_sulfate=None,
    titrant_total_phosphate=None,
    titrant_total_fluoride=None,
    titrant_molinity_init=0.1,
    **other,
):
    solver = {
        "alkalinity_init": alkalinity_init,
        "double": double,
        "emf0_init": emf0_init,
        "gran_logic": gran_logic,
        "pH_min": pH_min,
        "pH_max": pH_max,
        "titrant_normality": titrant_normality,
        "titrant_total_sulfate": titrant_total_sulfate,
        "titrant_total_phosphate": titrant_total_phosphate,
        "titrant_total_fluoride": titrant_total_fluoride,
    }
    return solver, other, titrant_molinity_init


def solve(file_name, mol, salinity, solve_mode="emf", **options):
    solver, other, _ = split(**options)
    tm, measured, temperature, am, t, k = prepare(file_name, salinity, **other)
    return alkalinity_of(
        solve_mode, mol, tm, measured, temperature, am, t, k, **solver
    )


def residual(x, certified, mode, tm, measured, temperature, am, t, k, solver):
    r = alkalinity_of(mode, x[0], tm, measured, temperature, am, t, k, **solver)
    return r["alkalinity"] - certified


def calibrate(file_name, certified, salinity, solve_mode="emf", **options):
    solver, other, guess = split(**options)
    tm, measured, temperature, am, t, k = prepare(file_name, salinity, **other)
    opt = least_squares(
        residual,
        [guess],
        args=(certified, solve_mode, tm, measured, temperature, am, t, k, solver),
    )
    return opt["x"][0]
