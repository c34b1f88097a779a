"""Titration data made with PyCO2SYS alone (nothing of calkulate is used)."""
import os
import tempfile

import numpy as np
import PyCO2SYS as pyco2

F, R, T0 = 96.4853365, 8.3144621, 273.15


def make(alkalinity=2300.0, molinity=0.1, mass=0.1, dic=2000.0, salinity=35.0,
         temperature=25.0, emf0=300.0, n=28, step=0.15e-3, normality=1.0,
         **totals):
    """titrant mass / kg, pH (free), EMF / mV, temperature."""
    tm = np.arange(n) * step
    f = mass / (mass + tm)
    t = np.full(n, float(temperature))
    alk = 1e6 * (mass * alkalinity * 1e-6 - tm * molinity * normality) / (mass + tm)
    s = pyco2.sys(salinity=salinity, temperature=temperature)
    kw = {k: s[k] * f for k in ("total_borate", "total_fluoride", "total_sulfate")}
    kw.update({k: v * f for k, v in totals.items() if k.startswith("total_")})
    kw.update({k: v for k, v in totals.items() if not k.startswith("total_")})
    r = pyco2.sys(par1=alk, par2=dic * f, par1_type=1, par2_type=2,
                  salinity=salinity, temperature=t, opt_pH_scale=3,
                  opt_k_carbonic=10, **kw)
    pH = r["pH_free"]
    emf = emf0 - pH * np.log(10) * R * (t + T0) / F
    return tm, pH, emf, t


class Folder:
    """Scratch folder that goes away."""

    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        return self

    def __exit__(self, *a):
        self.d.cleanup()

    def write(self, name, amount, measurement, temperature, fmt="%.12e"):
        p = os.path.join(self.d.name, name)
        with open(p, "w") as h:
            h.write("demo\namount\tmeasurement\ttemperature\n")
            for row in zip(amount, measurement, temperature):
                h.write("\t".join(fmt % x for x in row) + "\n")
        return p
