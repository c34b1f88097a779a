"""Independent statement of the titration chemistry (never executed: read by
the same analysis as the code, so that both sides are compared as terms)."""

import numpy as np
from scipy.optimize import least_squares
from scipy.stats import linregress

R = 8.3144621  # J / (K mol)
F = 96.4853365  # kC / mol
T0 = 273.15


# ---------------------------------------------------------------- electrode
def emf_to_h(emf, emf0, t):
    return np.exp((emf - emf0) * F / (R * (t + T0)))


def emf_to_pH(emf, emf0, t):
    return -np.log10(np.exp((emf - emf0) * F / (R * (t + T0))))


def h_to_emf(h, emf0, t):
    return emf0 + R * (t + T0) / F * np.log(h)


def pH_to_emf(pH, emf0, t):
    return emf0 + R * (t + T0) / F * np.log(10.0**-pH)


def f_to_demf0(f, t):
    return R * (t + T0) / F * np.log(f)


# ---------------------------------------------------------------- speciation
def diprotic(total, k1, k2, h):
    d = h * h + k1 * h + k1 * k2
    return total * h * h / d, total * k1 * h / d, total * k1 * k2 / d


def monoprotic_base(total, k, h):
    return total * k / (k + h)


def extra(total, k, h):
    """Contribution to alkalinity of an additional acid-base pair."""
    base = total * k / (k + h)
    return np.where(-np.log10(k) <= 4.5, base - total, base)


def components(pH, totals, ks, scale=3):
    h = 10.0**-pH
    out = {"H": h}
    if "k_water" in ks:
        out["OH"] = ks["k_water"] / h
    if "dic" in totals:
        co2, hco3, co3 = diprotic(
            totals["dic"], ks["k_carbonic_1"], ks["k_carbonic_2"], h
        )
        out["CO2"] = co2
        out["HCO3"] = hco3
        out["CO3"] = co3
    if "total_borate" in totals:
        out["BOH4"] = monoprotic_base(totals["total_borate"], ks["k_borate"], h)
    if "total_phosphate" in totals:
        t = totals["total_phosphate"]
        k1 = ks["k_phosphoric_1"]
        k2 = ks["k_phosphoric_2"]
        k3 = ks["k_phosphoric_3"]
        d = h**3 + k1 * h**2 + k1 * k2 * h + k1 * k2 * k3
        out["H3PO4"] = t * h**3 / d
        out["HPO4"] = t * k1 * k2 * h / d
        out["PO4"] = t * k1 * k2 * k3 / d
    if "total_silicate" in totals:
        out["H3SiO4"] = monoprotic_base(
            totals["total_silicate"], ks["k_silicate"], h
        )
    if "total_ammonia" in totals:
        out["NH3"] = monoprotic_base(totals["total_ammonia"], ks["k_ammonia"], h)
    if "total_sulfide" in totals:
        out["HS"] = monoprotic_base(totals["total_sulfide"], ks["k_sulfide"], h)
    if "total_alpha" in totals:
        out["alk_alpha"] = extra(totals["total_alpha"], ks["k_alpha"], h)
    if "total_beta" in totals:
        out["alk_beta"] = extra(totals["total_beta"], ks["k_beta"], h)
    if scale != 2:
        if "total_fluoride" in totals:
            out["HF"] = totals["total_fluoride"] * h / (ks["k_fluoride"] + h)
    if scale == 3:
        if "total_sulfate" in totals:
            out["HSO4"] = totals["total_sulfate"] * h / (ks["k_bisulfate"] + h)
    return out


SIGNS = {
    "H": -1,
    "OH": 1,
    "HCO3": 1,
    "CO3": 2,
    "BOH4": 1,
    "HSO4": -1,
    "HF": -1,
    "H3PO4": -1,
    "HPO4": 1,
    "PO4": 2,
    "H3SiO4": 1,
    "NH3": 1,
    "HS": 1,
    "alk_alpha": 1,
    "alk_beta": 1,
}


def alkalinity(pH, totals, ks, scale=3):
    c = components(pH, totals, ks, scale)
    total = 0
    for k, sign in SIGNS.items():
        if k in c:
            total = total + sign * c[k]
    return total


# ---------------------------------------------------------------- Gran
def gran_function(tm, emf, t, am):
    return (tm + am) * np.exp(emf * F / (R * (t + T0)))


def gran_used(g, logic):
    if logic == "legacy":
        return (g > 0.1 * np.max(g)) & (g < 0.9 * np.max(g))
    used = np.full(g.shape, False)
    first = (g > 0.1 * np.max(g)).nonzero()[0][0]
    used[first:] = True
    return used


def gran_alkalinity(tm, emf, t, am, mol, norm, logic):
    """(alkalinity in mol/kg, Gran function, used, intercept)"""
    g = gran_function(tm, emf, t, am)
    used = gran_used(g, logic)
    lr = linregress(tm[used], g[used])
    x = -lr.intercept / lr.slope
    return x * mol * norm / am, g, used, x


def gran_emf0s(tm, emf, t, am, mol, alk, norm):
    return emf - R * (t + T0) / F * np.log(
        (tm * mol * norm - am * alk) / (tm + am)
    )


def gran_guesses(tm, emf, t, am, mol, norm, logic):
    """(alkalinity mol/kg, emf0, per-point emf0, pH, g, used)"""
    alk, g, used, x = gran_alkalinity(tm, emf, t, am, mol, norm, logic)
    emf0s = gran_emf0s(tm, emf, t, am, mol, alk, norm)
    emf0 = np.mean(emf0s[used])
    return alk, emf0, emf0s, emf_to_pH(emf, emf0, t), g, used


# ---------------------------------------------------------------- solvers
def mass_balance(alk, h_alk, tm, am, mol, norm):
    """Alkalinity computed from pH minus what the acid leaves."""
    return h_alk - (alk * am - tm * mol * norm) / (tm + am)


def residual_emf(x, mol, tm, emf, t, am, totals, ks, norm):
    alk, emf0 = x
    pH = emf_to_pH(emf, emf0, t)
    return mass_balance(alk, alkalinity(pH, totals, ks), tm, am, mol, norm)


def pick(d, used):
    return {k: (v[used] if np.size(v) > 1 else v) for k, v in d.items()}


def per_point(pH, mol, tm, am, totals, ks, norm):
    """Alkalinity estimate at each point in umol/kg."""
    return (
        1e6
        * (alkalinity(pH, totals, ks) + tm * mol * norm / (tm + am))
        * (tm + am)
        / am
    )


def solve_emf_once(
    mol, tm, emf, t, am, totals, ks, alk0, emf00, pH, norm, pH_min, pH_max
):
    used = (pH >= pH_min) & (pH <= pH_max)
    opt = least_squares(
        residual_emf,
        [alk0, emf00],
        args=(
            mol,
            tm[used],
            emf[used],
            t[used],
            am,
            pick(totals, used),
            pick(ks, used),
            norm,
        ),
    )
    alk = opt["x"][0] * 1e6
    emf0 = opt["x"][1]
    pH = emf_to_pH(emf, emf0, t)
    return {
        "alkalinity": alk,
        "emf0": emf0,
        "used": used,
        "pH": pH,
        "alkalinity_std": np.std(opt["fun"]) * 1e6,
        "alkalinity_all": per_point(pH, mol, tm, am, totals, ks, norm),
    }


def solve_emf(
    mol,
    tm,
    emf,
    t,
    am,
    totals,
    ks,
    alkalinity_init=None,
    double=True,
    emf0_init=None,
    gran_logic="v23.7+",
    pH_min=3,
    pH_max=4,
    titrant_normality=1,
):
    norm = titrant_normality
    alk0, emf00, emf0s, pH, g, gused = gran_guesses(
        tm, emf, t, am, mol, norm, gran_logic
    )
    gran = {
        "gran_alkalinity": alk0,
        "gran_emf0": emf00,
        "gran_emf0s": emf0s,
        "gran_pH": pH,
        "gran_func": g,
        "gran_used": gused,
    }
    if alkalinity_init is not None:
        alk0 = alkalinity_init * 1e-6
    if emf0_init is not None:
        emf00 = emf0_init
        pH = emf_to_pH(emf, emf0_init, t)
    s = solve_emf_once(
        mol, tm, emf, t, am, totals, ks, alk0, emf00, pH, norm, pH_min, pH_max
    )
    if double:
        s = solve_emf_once(
            mol,
            tm,
            emf,
            t,
            am,
            totals,
            ks,
            s["alkalinity"] * 1e-6,
            s["emf0"],
            s["pH"],
            norm,
            pH_min,
            pH_max,
        )
    return {**s, **gran}


def solve_pH(
    mol, tm, pH, t, am, totals, ks, pH_min=3, pH_max=4, titrant_normality=1
):
    used = (pH >= pH_min) & (pH <= pH_max)
    every = per_point(pH, mol, tm, am, totals, ks, titrant_normality)
    return {
        "alkalinity": np.mean(every[used]),
        "used": used,
        "pH": pH,
        "alkalinity_std": np.std(every[used]),
        "alkalinity_all": every,
    }


def solve_pH_gran(
    mol, tm, pH, t, am, totals, ks, pH_min=3, pH_max=4, titrant_normality=1
):
    used = (pH >= pH_min) & (pH <= pH_max)
    g = (tm + am) * 10.0**-pH
    lr = linregress(tm[used], g[used])
    return {
        "alkalinity": -1e6
        * lr.intercept
        / lr.slope
        * mol
        * titrant_normality
        / am,
        "used": used,
        "pH": pH,
        "gfunc": g,
    }


# ---------------------------------------------------------------- dilution
def diluted(v, tm, am):
    return v * am / (tm + am)


def diluted_with_titrant(v, content, tm, am):
    """Analyte content v mixed with titrant containing `content`."""
    return (v * am + tm * content) / (tm + am)
