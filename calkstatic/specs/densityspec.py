"""Published density equations."""

import numpy as np


def seawater(t, s):
    """Millero & Poisson (1981), one atmosphere, kg/l."""
    a = 0.824493 + t * (-4.0899e-3 + t * (7.6438e-5 + t * (-8.2467e-7 + t * 5.3875e-9)))
    b = -5.72466e-3 + t * (1.0227e-4 - t * 1.6546e-6)
    c = 4.8314e-4
    w = 999.842594 + t * (
        6.793952e-2
        + t
        * (-9.095290e-3 + t * (1.001685e-4 + t * (-1.120083e-6 + t * 6.536336e-9)))
    )
    return (w + a * s + b * s**1.5 + c * s * s) / 1000


def hcl_nacl(hcl, nacl):
    """Dickson, Sabine & Christian (2007), 25 degrees, g/ml."""
    rw = 0.99704
    m = hcl + nacl
    phi_hcl = 17.854 + 1.460 * m**0.5 - 0.307 * m
    phi_nacl = 16.613 + 1.811 * m**0.5 + 0.094 * m
    molar = (36.46 * hcl + 58.44 * nacl) / m
    phi_mix = (hcl * phi_hcl + nacl * phi_nacl) / m
    return rw * (1000 + molar * m) / (1000 + phi_mix * m * rw)


def h2so4(c):
    """Quadratic fit to E-AIM, 25 degrees, g/ml."""
    return 0.99750018 + 0.06181819 * c - 0.00285491 * c * c


def outside(x, low, high):
    return np.any(x < low) or np.any(x > high)
