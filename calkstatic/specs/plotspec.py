"""What each figure shows.  Read by the analyser only; never run."""
import numpy as np
from scipy.interpolate import pchip_interpolate

PLUS = {"alkalinity_estimate": 1, "HCO3": 1, "CO3": 2, "BOH4": 1, "PO4": 2,
        "HPO4": 1, "H3PO4": -1, "HSO4": -1, "HF": -1, "H3SiO4": 1, "NH3": 1,
        "HS": 1, "H": -1, "OH": 1, "alk_alpha": 1, "alk_beta": 1}


def points(ax, t, y, used):
    """Grams on the x axis; unused points are hollow."""
    x = t["titrant_mass"] * 1000
    ax.scatter(x[~used], y[~used], c="none")
    ax.scatter(x[used], y[used], c="filled")


def emf(tt, ax):
    t = tt.titration
    ax.scatter(t["titrant_mass"] * 1000, t["emf"], c="filled")


def pH(tt, ax):
    t = tt.titration
    points(ax, t, t["gran_pH"], t["gran_used"])
    points(ax, t, t["pH"], t["used"])


def pH_final(tt, ax):
    t = tt.titration
    points(ax, t, t["pH"], t["used"])


def gran_emf0(tt, ax):
    t = tt.titration
    points(ax, t, t["gran_emf0"], t["gran_used"])
    ax.axhline(tt.row["gran_emf0"])


def gran_alkalinity(tt, ax):
    t = tt.titration
    points(ax, t, t["gran_func"], t["gran_used"])
    ax.axhline(0)
    lr = tt.sr.ggr.lr
    line(ax, t, lr)


def gran_alkalinity_pH(tt, ax):
    t = tt.titration
    points(ax, t, t["gran_func"], t["gran_used"])
    ax.axhline(0)
    line(ax, t, tt.sr.lr)


def line(ax, t, lr):
    root = -lr.intercept / lr.slope
    x = np.array([root, t["titrant_mass"].max()])
    ax.plot(1000 * x, lr.slope * x + lr.intercept)
    ax.axvline(1000 * root)


def alkalinity(tt, ax):
    t = tt.titration
    points(ax, t, t["alkalinity_estimate"] * 1000000, t["used"])
    ax.axhline(tt.row["alkalinity"])


def components(tt, ax):
    every(tt, ax, True)


def components_linear(tt, ax):
    every(tt, ax, False)
    ax.axhline(0)


def every(tt, ax, log):
    t = tt.titration
    first, last = t["titrant_mass"].min(), t["titrant_mass"].max()
    x = np.linspace(first, last, num=500)
    means = t[["titrant_mass", *PLUS]].groupby("titrant_mass").mean()
    for k, n in PLUS.items():
        if (t[k] > 0).all():
            if log:
                y = -np.log10(t[k] * np.abs(n))
                m = -np.log10(means[k] * np.abs(n))
            else:
                y = t[k] * n * 1000000
                m = means[k] * n * 1000000
            ax.plot(1000 * x, pchip_interpolate(
                means.index.to_numpy(), m.to_numpy(), x))
            points(ax, t, y, t["used"])


def good(data):
    if "reference_good" in data:
        return data["reference_good"]
    return np.full(len(data.index), True)


def axis(data, xvar):
    if xvar is None:
        return np.arange(len(data.index))
    return data[xvar]


def titrant_molinity(data, xvar, ax):
    g = good(data)
    x, y = axis(data, xvar), data["titrant_molinity_here"]
    ax.scatter(x[g], y[g])
    ax.scatter(x[~g], y[~g])


def batch_line(data, xvar, batch, ax):
    b = data["analysis_batch"] == batch
    ax.plot(axis(data, xvar)[b], data["titrant_molinity"][b])


def alkalinity_offset(data, xvar, ax):
    g = good(data)
    x, y = axis(data, xvar), data["alkalinity_offset"]
    ax.scatter(x[g], y[g])
    ax.scatter(x[~g], y[~g])
    ax.axhline(0)
