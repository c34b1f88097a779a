from plant import plant

HEAD = '''import numpy as np
import pandas as pd
import calkulate as calk
from calkulate import core, convert, files, interface, simulate
from simdata import Folder, make

'''
plant("b01-opt-k-fluoride-lost", "C01",
      [("calkulate/core.py", '''            "opt_k_carbonic",
            "opt_k_fluoride",
            "opt_pH_scale",
            "opt_total_borate",
        ]
    }
    k_constants =''', '''            "opt_k_carbonic",
            "opt_pH_scale",
            "opt_total_borate",
        ]
    }
    k_constants =''')],
      "a non-default opt_k_fluoride",
      "the HF constant option is silently ignored by solve and calibrate",
      HEAD + '''
tm, pH, emf, t = make()
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    a, b = (files.solve(p, 0.1, 35, analyte_mass=0.1, titrant_amount_unit="kg",
                        opt_k_fluoride=o).k_constants["k_fluoride"] for o in (1, 2))
assert np.all(np.abs(np.asarray(a) / np.asarray(b) - 1) > 1e-4), (a, b)
''')
plant("b02-calibration-drift", "C03",
      [("calkulate/core.py", '''    # Solve for alkalinity
    sr = solve_pH(
        titrant_molinity[0],''', '''    # Solve for alkalinity
    sr = solve_pH(
        titrant_molinity.item(),''')] and
      [("calkulate/core.py", '''        **titrant_totals,
    )
    return sr.alkalinity - alkalinity_certified


def calibrate_pH_gran(''', '''        **{k: v for k, v in titrant_totals.items() if v == 1},
    )
    return sr.alkalinity - alkalinity_certified


def calibrate_pH_gran(''')],
      "pH_gran calibration with a titrant content factor other than 1",
      "the titrant's contribution is not removed again between trial values, "
      "so the caller's contents drift as the search proceeds",
      HEAD + '''
tm, pH, emf, t = make(molinity=0.2)
tot = {"dic": np.full(tm.size, 2e-3), "total_phosphate": np.full(tm.size, 1e-6)}
ks = {}
core.calibrate_pH_gran(2300, tm, pH, t, 0.1, tot, ks, titrant_total_phosphate=0.5)
assert np.allclose(tot["total_phosphate"], 1e-6, rtol=1e-6), tot
''')
plant("b03-zlp-boundary", "C05",
      [("calkulate/simulate.py", "-np.log10(k_beta) <= default.zlp",
        "-np.log10(k_beta) < default.zlp")],
      "a beta system whose pK is exactly 4.5",
      "its alkalinity contribution changes sign convention at the boundary",
      HEAD + '''
from calkulate import default
pH = np.array([3.0, 4.5, 8.0])
k = 10.0 ** -4.5
assert -np.log10(k) == 4.5
c = simulate.alkalinity_components(pH, {"total_beta": 1e-5}, {"k_beta": k})
h = 10.0 ** -pH
assert np.allclose(c["alk_beta"], -1e-5 * h / (k + h)), c
''')
plant("b04-override-ignored-for-density", "C08",
      [("calkulate/convert.py", "temperature=temperature[0],",
        "temperature=dd.temperature[0],")],
      "an analyte volume together with a temperature override",
      "the analyte's density is taken at the file's temperature",
      HEAD + '''
from calkulate.read.titrations import DatData
from calkulate.density import seawater_1atm_MP81
dd = DatData(np.arange(3.0), np.arange(3.0), np.full(3, 10.0))
cv = convert.amount_units(dd, 35, analyte_volume=100, temperature_override=30)
assert np.isclose(cv.analyte_mass, 0.1 * seawater_1atm_MP81(30, 35), rtol=1e-12), cv
''')
plant("b05-phosphoric-slots", "C10",
      [("calkulate/interface.py", '''        k_constants_pyco2["KP3"] = k_phosphoric_3
    if not pd.isnull(k_silicate):''', '''        k_constants_pyco2["KP3"] = k_phosphoric_3
    if not (pd.isnull(k_phosphoric_3) or pd.isnull(k_phosphoric_2)):
        k_constants_pyco2["KP3"] = k_phosphoric_2
    if not pd.isnull(k_silicate):''')],
      "both the second and third phosphoric constants supplied",
      "the third one is replaced with the second",
      HEAD + '''
tot, totp = interface.get_totals(35.0)
k = interface.get_k_constants(totp, np.array([25.0]), k_phosphoric_2=1e-6, k_phosphoric_3=1e-9)
assert np.allclose(k["k_phosphoric_3"], 1e-9) and np.allclose(k["k_phosphoric_2"], 1e-6), k
''')
plant("b06-window-end-excluded", "C14",
      [("calkulate/core.py", '''    used = (pH >= pH_min) & (pH <= pH_max)
    gfunc =''', '''    used = (pH >= pH_min) & (pH < pH_max)
    gfunc =''')],
      "a point whose pH equals the upper end of the window (pH_gran mode)",
      "that point is left out",
      HEAD + '''
pH = np.array([5.0, 4.0, 3.8, 3.5, 3.2, 3.0, 2.9])
tm = np.linspace(2e-3, 4e-3, 7)
sr = core.solve_pH_gran(0.1, tm, pH, np.full(7, 25.0), 0.1, {}, {}, pH_min=3, pH_max=4)
assert list(sr.used) == [False, True, True, True, True, True, False], sr.used
''')
plant("b07-second-pass-normality", "C04",
      [("calkulate/core.py", '''            gran_logic=gran_logic,
            pH_min=pH_min,
            pH_max=pH_max,
            titrant_normality=titrant_normality,
        )
    return sr
''', '''            gran_logic=gran_logic,
            pH_min=pH_min,
            pH_max=pH_max,
        )
    return sr
''')],
      "EMF data, two passes and a titrant normality other than 1",
      "the second pass uses half the acid",
      HEAD + '''
tm, pH, emf, t = make(molinity=0.05, normality=2)
tot, totp = interface.get_totals(35.0, dic=2000)
tot = convert.dilute_totals(tot, tm, 0.1)
ks = interface.get_k_constants(totp, t)
sr = core.solve_emf(0.05, tm, emf, t, 0.1, tot, ks, titrant_normality=2)
assert abs(sr.alkalinity - 2300) < 5, sr.alkalinity
''')
plant("b08-gran-emf0-normality", "C21",
      [("calkulate/core.py", '''        titrant_molinity,
        ga.alkalinity,
        titrant_normality=titrant_normality,
    )''', '''        titrant_molinity,
        ga.alkalinity,
    )''')],
      "a titrant normality other than 1",
      "the Gran EMF0 estimate ignores normality while the Gran alkalinity "
      "uses it",
      HEAD + '''
tm, pH, emf, t = make(molinity=0.05, normality=2)
a = core.gran_guesses(tm, emf, t, 0.1, 0.05, titrant_normality=2)
b = core.gran_guesses(tm, emf, t, 0.1, 0.1)
assert np.allclose(a.emf0, b.emf0) and np.allclose(a.alkalinity, b.alkalinity), (a.emf0, b.emf0)
''')
plant("b09-h2so4-sulfate-dilution", "C09",
      [("calkulate/convert.py", '''        totals_pyco2["TSO4"] * analyte_mass + titrant_molinity * titrant_mass
    ) / (analyte_mass + titrant_mass)''', '''        totals_pyco2["TSO4"] * analyte_mass + titrant_molinity * titrant_mass
    ) / analyte_mass''')],
      "sulfuric acid titrant, constants' own contents",
      "sulfate is not diluted by the titrant's mass",
      HEAD + '''
tm = np.array([0.0, 1e-3, 4e-3])
t = convert.dilute_totals_pyco2_H2SO4({"TSO4": 0.028}, 0.1, tm, 0.1)
assert np.allclose(t["TSO4"] * (0.1 + tm), 0.028 * 0.1 + 0.1 * tm), t
''')
