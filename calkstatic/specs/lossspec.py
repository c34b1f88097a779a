"""Loss of dissolved inorganic carbon (DIC) to the air during a titration."""

import numpy as np
from scipy import interpolate, optimize


def after_step(dic, k, dfco2, step, mass):
    """DIC after adding `step` of titrant to `mass` of solution."""
    return dic * mass / (mass + step) - k * dfco2 * step


def fitted(k, tm, dfco2, start, analyte_mass, step):
    dic = np.full_like(dfco2, np.nan)
    dic[0] = start * 1e6
    for i in range(len(dic) - 1):
        dic[i + 1] = after_step(
            dic[i], k, dfco2[i], step, analyte_mass + tm[i]
        )
    return dic


def residual(k, tm, dfco2, start, analyte_mass, step, target):
    return fitted(k, tm, dfco2, start, analyte_mass, step) - target


def fco2(dic, pH, k0, k1, k2):
    h = np.power(10, -pH)
    return dic * h**2 / (h**2 + k1 * h + k1 * k2) / k0


def future(
    k, tm, pH, k0, k1, k2, dfco2_start, dic_start, pH_start, k0_start,
    k1_start, k2_start, analyte_mass, step, fCO2_air=450,
):
    dic = np.full_like(tm, np.nan)
    dfco2 = np.full_like(tm, np.nan)
    dic[0] = after_step(
        dic_start, k, dfco2_start, step, analyte_mass + tm[0] - step
    )
    dfco2[0] = fco2(dic[0], pH_start, k0_start, k1_start, k2_start) - fCO2_air
    for i in range(len(dic) - 1):
        dic[i + 1] = after_step(
            dic[i], k, dfco2[i], step, analyte_mass + tm[i]
        )
        dfco2[i + 1] = (
            fco2(dic[i + 1], pH[i + 1], k0[i + 1], k1[i + 1], k2[i + 1])
            - fCO2_air
        )
    return dic, dfco2


def hires(
    tm, pH, dic_loss, fCO2_loss, k0, k1, k2, analyte_mass, dic_start,
    fCO2_air=450, split_pH=5.5,
):
    at = interpolate.pchip_interpolate
    dic_loss = np.where(np.isnan(dic_loss), 0, dic_loss)
    fCO2_loss = np.where(
        np.isnan(fCO2_loss), np.nanmax(fCO2_loss), fCO2_loss
    )
    dfco2 = fCO2_loss - fCO2_air
    step = np.median(np.diff(tm)) / 10
    grid = np.arange(0, np.max(tm), step)
    grid_pH = at(tm, pH, grid)
    past = grid[grid_pH >= split_pH]
    rest = grid[grid_pH < split_pH]
    last = past[-1]
    past_dfco2 = at(tm, dfco2, past)
    past_loss = at(tm, dic_loss, past)
    opt = optimize.least_squares(
        residual, 1.0,
        args=(past, past_dfco2, dic_start, analyte_mass, step, past_loss),
    )
    k = opt["x"]
    past_dic = fitted(k, past, past_dfco2, dic_start, analyte_mass, step)
    rest_dic, rest_dfco2 = future(
        k, rest, at(tm, pH, rest), at(tm, k0, rest), at(tm, k1, rest),
        at(tm, k2, rest), past_dfco2[-1], past_dic[-1], at(tm, pH, last),
        at(tm, k0, last), at(tm, k1, last), at(tm, k2, last), analyte_mass,
        step, fCO2_air=fCO2_air,
    )
    return (
        k[0], grid, grid_pH, np.concatenate((past_dic, rest_dic)),
        np.concatenate((past_dfco2, rest_dfco2)),
    )


def loss(
    tm, pH, dic_loss, fCO2_loss, k0, k1, k2, analyte_mass, dic_start,
    fCO2_air=450, split_pH=5.5,
):
    k, grid, _, dic, dfco2 = hires(
        tm, pH, dic_loss, fCO2_loss, k0, k1, k2, analyte_mass, dic_start,
        fCO2_air=fCO2_air, split_pH=split_pH,
    )
    at = interpolate.pchip_interpolate
    return (
        k,
        at(grid, dic, tm) * 1e-6,
        at(grid, dfco2, tm) + fCO2_air,
        pH >= split_pH,
    )
