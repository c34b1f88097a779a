"""Which rules decide which property."""

import importlib
import os

RULES = {}

ASSUMPTIONS = [
    "Python, numpy, pandas, scipy and PyCO2SYS behave as their summaries in "
    "calkstatic/models.py say (array expressions are elementwise, "
    "least_squares is a function of its residual and start point, "
    "PyCO2SYS constants are functions of their arguments).",
    "Real-number arithmetic: floating-point rounding is not modelled.",
    "Caller-supplied arrays, dicts and tables are distinct objects.",
]


def check(prop):
    def deco(f):
        RULES.setdefault(prop, {"checks": []})["checks"].append(f)
        return f
    return deco


def about(prop, title, rule, assumptions=()):
    r = RULES.setdefault(prop, {"checks": []})
    r["title"], r["rule"] = title, rule
    r["assumptions"] = list(assumptions)


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f not in ("__init__.py", "registry.py",
                                           "common.py"):
            importlib.import_module("calkstatic.rules." + f[:-3])
    return RULES
