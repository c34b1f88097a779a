"""Simulated titrations and the model of DIC loss."""
from .. import models
from .common import *
from .registry import about, check

# ------------------------------------------------------------ C20
about("C20", "Simulated titrations obey mass balance and use the settings "
      "given",
      "The masses, EMFs, totals and constants that the simulator returns, as "
      "terms over its arguments and PyCO2SYS, are compared with an "
      "independent mass balance; with DIC loss the recurrence is compared "
      "step by step for titrations of N points.",
      ["With DIC loss: titrations of N points (quick 2 and 3, thorough to "
       "5)."])
ARGS = ("analyte_mass", "dic", "emf0", "fCO2_air", "salinity",
        "titrant_mass_start", "titrant_mass_step", "titrant_mass_stop",
        "titrant_molinity")
OPTS = ("opt_gas_constant", "opt_k_bisulfate", "opt_k_carbonic",
        "opt_k_fluoride", "opt_total_borate", "total_silicate",
        "total_phosphate", "total_ammonia", "total_sulfide", "total_alpha",
        "total_beta", "total_borate", "total_sulfate", "total_fluoride",
        "k_alpha", "k_beta", "k_borate")
OUT = ("titrant_mass", "emf", "temperature", "analyte_mass")


@check("C20")
def simulator(R):
    def one(R, kw, what, n=None):
        T.FINITE = n
        g = R.run("calkulate.simulate._titration", S("alkalinity"), **kw)
        w = R.run("simspec.titration", S("alkalinity"), **kw)
        for i, k in enumerate(OUT):
            R.same("simulated titration", f"simulate._titration {k} {what}",
                   R.item(g, g.value, i), R.item(w, w.value, i))
        for i in (4, 5):
            gd = g.value and g.I.getitem(g.value, num(i), g.st)
            wd = w.I.getitem(w.value, num(i), w.st)
            for c, k in w.I.elements(wd, w.st):
                R.same("simulated titration",
                       f"simulate._titration {k.args[1]} {what}",
                       R.item(g, gd, k), R.item(w, wd, k))
    full = {k: S(k) for k in ARGS}
    R.job("defaults", one, {}, "with defaults")
    R.job("arguments", one, dict(full, temperature=S("temperature")),
          "with arguments")
    R.job("temperatures", one, dict(full, temperature=A("temperature")),
          "with a temperature for each step")
    for k in OPTS:
        R.job(f"option {k}", one, dict(full, **{k: S("opt." + k)}),
              f"with {k}")
    for n in (2, 3) + ((4, 5) if R.tier == "thorough" else ()):
        for t in (S("temperature"), A("temperature")):
            R.job(f"loss {n}", one, dict(full, k_dic_loss=S("k_dic_loss"),
                                         temperature=t),
                  f"with DIC loss, {n} points", n)


# ------------------------------------------------------------ C22
about("C22", "The DIC-loss model conserves carbon",
      "Each function of the DIC-loss model is compared with an independent "
      "description (dilution by each addition, loss in proportion to the "
      "fCO2 difference): the loops by their transition terms for any number "
      "of steps, and unrolled for series of N steps.",
      ["The complete fit is compared for series of N steps (quick 2 and 3, "
       "thorough to 5)."])
AA = lambda n: sym(n, "a")  # noqa: E731 (may contain NaN)


def series(R, rule, what, got, want, n):
    if n is None or got is None or want is None:
        return R.same(rule, what, got, want)
    for i in range(n):
        R.same(rule, f"{what} step {i}", models.array_index(got, num(i)),
               models.array_index(want, num(i)))


@check("C22")
def dic_loss(R):
    LOSS = "calkulate.loss."

    def fitted(R, n):
        T.FINITE = n
        a = (S("k"), AA("tm"), AA("dfco2"), S("dic"), S("mass"), S("step"))
        g = R.run(LOSS + "dic_loss_model_fitted", *a)
        w = R.run("lossspec.fitted", *a)
        series(R, "DIC loss while fitted",
               f"loss.dic_loss_model_fitted ({n or 'any'} steps)",
               g.snap(), w.snap(), n)

    def future(R, n, kw):
        T.FINITE = n
        a = [S("k")] + [AA(x) for x in ("tm", "pH", "k0", "k1", "k2")] + [
            S(x) for x in ("dfco2_0", "dic_0", "pH_0", "k0_0", "k1_0", "k2_0",
                           "mass", "step")]
        g = R.run(LOSS + "dic_loss_model_future", *a, **kw)
        w = R.run("lossspec.future", *a, **kw)
        for i, f in enumerate(("DIC", "fCO2 difference")):
            series(R, "DIC loss forecast",
                   f"loss.dic_loss_model_future {f} ({n or 'any'} steps)"
                   + (" with fCO2_air" if kw else ""),
                   R.item(g, g.value, i), R.item(w, w.value, i), n)

    def fco2(R):
        a = [AA(x) for x in ("dic", "pH", "k0", "k1", "k2")]
        R.same("fCO2 of the mixture", "loss.get_fCO2_from_dic_pH",
               R.run(LOSS + "get_fCO2_from_dic_pH", *a).snap(),
               R.run("lossspec.fco2", *a).snap())

    A7 = ("tm", "pH", "dic_loss", "fCO2_loss", "k0", "k1", "k2")

    def whole(R, n, kw):
        T.FINITE = n
        a = [AA(x) for x in A7] + [S("mass"), S("dic")]
        tag = f"({n} steps{', with settings' if kw else ''})"
        g = R.run(LOSS + "get_dic_loss_hires", *a, **kw)
        w = R.run("lossspec.hires", *a, **kw)
        R.same("whole DIC-loss fit", f"loss.get_dic_loss_hires k {tag}",
               R.item(g, g.value, 0), R.item(w, w.value, 0))
        d = g.I.getitem(g.value, num(1), g.st)
        for i, k in enumerate(("titrant_mass", "pH", "dic", "delta_fCO2")):
            R.same("whole DIC-loss fit", f"loss.get_dic_loss_hires {k} {tag}",
                   R.item(g, d, k), R.item(w, w.value, i + 1))
        g = R.run(LOSS + "get_dic_loss", *a, **kw)
        w = R.run("lossspec.loss", *a, **kw)
        for i, k in enumerate(("k", "DIC", "fCO2", "fitted")):
            R.same("whole DIC-loss fit", f"loss.get_dic_loss {k} {tag}",
                   R.item(g, g.value, i), R.item(w, w.value, i))

    def elements(R, kw):
        """NumPy refuses to store an array, even of one element, in an
        element of another array."""
        T.FINITE, T.KEEP_VEC = 3, True
        a = [AA(x) for x in A7] + [S("mass"), S("dic")]
        g = R.run(LOSS + "get_dic_loss_hires", *a, **kw)
        T.KEEP_VEC = False
        sites = {}
        for e in g.effects:
            if e.kind == "elemstore":
                k = e.where[0] if e.where else "?"
                sites[k] = sites.get(k, False) or e.data
        for k, bad in sorted(sites.items(), key=str):
            name = getattr(k, "name", None) or str(k)
            R.record("elements are assigned single values",
                     f"{name} within loss.get_dic_loss_hires",
                     "refuted" if bad else "proved",
                     "the fit's parameters, an array of one element, are "
                     "stored in an element of an array" if bad else "")
    R.job("elements", elements, {})

    R.job("fCO2", fco2)
    more = (4, 5) if R.tier == "thorough" else ()
    air = {"fCO2_air": S("fCO2_air")}
    for n in (None, 2, 3) + more:
        R.job(f"fitted {n}", fitted, n)
        R.job(f"forecast {n}", future, n, {})
        R.job(f"forecast air {n}", future, n, air)
    for n in (2, 3) + more:
        R.job(f"whole {n}", whole, n, {})
        R.job(f"whole settings {n}", whole, n,
              dict(air, split_pH=S("split_pH")))
