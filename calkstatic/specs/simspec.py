"""Simulated titrations."""

import chemspec
import numpy as np
import PyCO2SYS as pyco2

TOTALS = ("total_alpha", "total_ammonia", "total_beta", "total_borate",
          "total_calcium", "total_fluoride", "total_phosphate",
          "total_silicate", "total_sulfate", "total_sulfide")
CONSTANTS = ("k_CO2", "k_carbonic_1", "k_carbonic_2", "k_water", "k_borate",
             "k_bisulfate", "k_fluoride", "k_phosphoric_1", "k_phosphoric_2",
             "k_phosphoric_3", "k_silicate", "k_ammonia", "k_sulfide",
             "k_calcite", "k_aragonite", "k_alpha", "k_beta")
OPTS = {"opt_gas_constant": 3, "opt_k_bisulfate": 1, "opt_k_carbonic": 10,
        "opt_k_fluoride": 1, "opt_total_borate": 1}


def titration(
    alkalinity,
    analyte_mass=0.1,
    dic=0,
    emf0=600,
    fCO2_air=450,
    k_dic_loss=None,
    salinity=35,
    temperature=25,
    titrant_mass_start=0,
    titrant_mass_step=0.15e-3,
    titrant_mass_stop=4.2e-3,
    titrant_molinity=0.1,
    **options,
):
    added = np.arange(titrant_mass_start, titrant_mass_stop, titrant_mass_step)
    if np.isscalar(temperature):
        temperature = np.full_like(added, temperature)
    state = dict(OPTS)
    state.update(options)
    state["salinity"] = salinity
    state["temperature"] = temperature
    state["opt_pH_scale"] = 3
    undiluted = pyco2.sys(**state)
    mixture = analyte_mass + added
    for k in TOTALS:
        state[k] = undiluted[k] * analyte_mass / mixture
    alk = (analyte_mass * alkalinity - added * titrant_molinity * 1e6) / mixture
    if k_dic_loss is None:
        carbon = dic * analyte_mass / mixture
    else:
        carbon = np.full_like(added, np.nan)
        carbon[0] = dic
        for i in range(len(carbon) - 1):
            here = {}
            for k in state:
                here[k] = state[k] if np.isscalar(state[k]) else state[k][i]
            fCO2 = pyco2.sys(
                par1=alk[i], par2=carbon[i], par1_type=1, par2_type=2, **here
            )["fCO2"]
            carbon[i + 1] = (
                carbon[i] * mixture[i] / (mixture[i] + titrant_mass_step)
                - k_dic_loss * (fCO2 - fCO2_air) * titrant_mass_step
            )
    out = pyco2.sys(
        par1=alk, par2=carbon, par1_type=1, par2_type=2, **state
    )
    emf = chemspec.pH_to_emf(out["pH_free"], emf0, temperature)
    totals = {k: out[k] * 1e-6 for k in TOTALS}
    totals["dic"] = out["dic"] * 1e-6
    constants = {k: out[k] for k in CONSTANTS}
    return added, emf, temperature, analyte_mass, totals, constants
