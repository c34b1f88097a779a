"""Shared symbolic inputs."""
from ..lib import *

TOTALS = ("dic", "total_alpha", "total_beta", "total_ammonia",
          "total_phosphate", "total_silicate", "total_sulfide",
          "total_borate", "total_fluoride", "total_sulfate")
KS = ("k_alpha", "k_ammonia", "k_beta", "k_bisulfate", "k_borate",
      "k_carbonic_1", "k_carbonic_2", "k_fluoride", "k_phosphoric_1",
      "k_phosphoric_2", "k_phosphoric_3", "k_silicate", "k_sulfide",
      "k_water")

tm, emf, pH, temp = A("titrant_mass"), A("emf"), A("pH"), A("temperature")
am, mol, norm = S("analyte_mass"), S("titrant_molinity"), \
    S("titrant_normality")
pH_min, pH_max = S("pH_min"), S("pH_max")


def totals(R, keys=TOTALS, maybe=False, owner="caller:totals", flag=A):
    return R.dict({k: (mk("present", "totals." + k) if maybe else TRUE,
                       flag("totals." + k)) for k in keys}, owner=owner)


def ks(R, keys=KS, maybe=False, owner="caller:k_constants", flag=A):
    return R.dict({k: (mk("present", "ks." + k) if maybe else TRUE,
                       flag("ks." + k)) for k in keys}, owner=owner)
