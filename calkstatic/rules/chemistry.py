"""Chemistry and physics: conversions, densities, speciation, dilution."""
from .common import *
from .registry import about, check

# ------------------------------------------------------------ conversions
about("C06", "EMF, [H+] and pH conversions follow Nernst and invert each other",
      "Value-flow terms of the conversion functions are compared with the "
      "Nernst equation modulo the field/exp/log axioms, and each composed "
      "with its inverse must normalise to the identity; the solvers and the "
      "file-level functions must use the same conversion.")

h, e0 = A("h"), S("emf0")


@check("C06")
def conversions(R):
    def each(R):
        for f, x in (("emf_to_h", emf), ("emf_to_pH", emf), ("h_to_emf", h),
                     ("pH_to_emf", pH)):
            for shape, t in (("array", temp), ("scalar", S("t"))):
                g = R.run("calkulate.convert." + f, x, e0, t)
                w = R.run("chemspec." + f, x, e0, t)
                R.same("Nernst equation", f"calkulate.convert.{f} ({shape} "
                       "temperature)", g.snap(), w.snap())
        g = R.run("calkulate.convert.f_to_demf0", h, temp)
        R.same("Nernst equation", "calkulate.convert.f_to_demf0", g.snap(),
               R.run("chemspec.f_to_demf0", h, temp).snap())

    def inverse(R):
        c = "calkulate.convert."
        for there, back, x in (("emf_to_h", "h_to_emf", emf),
                               ("h_to_emf", "emf_to_h", h),
                               ("emf_to_pH", "pH_to_emf", emf),
                               ("pH_to_emf", "emf_to_pH", pH)):
            mid = R.run(c + there, x, e0, temp)
            out = R.run(c + back, mid.value, e0, temp)
            R.same("round trip is the identity", f"{c}{back} after {there}",
                   out.snap(), x)

    def used(R):
        """The pH the EMF solver reports is the Nernst pH at its own EMF0."""
        for dbl in (TRUE, FALSE):
            g = R.run("calkulate.core.solve_emf", mol, tm, emf, temp, am,
                      totals(R), ks(R), double=dbl)
            w = R.run("chemspec.emf_to_pH", emf, R.attr(g, "emf0"), temp)
            R.same("reported pH is the Nernst pH at the reported EMF0",
                   "calkulate.core.solve_emf", R.attr(g, "pH"), w.snap())
        g = R.run("calkulate.core.gran_guesses", tm, emf, temp, am, mol)
        w = R.run("chemspec.emf_to_pH", emf, R.attr(g, "emf0"), temp)
        R.same("reported pH is the Nernst pH at the reported EMF0",
               "calkulate.core.gran_guesses", R.attr(g, "pH"), w.snap())

    def gran(R):
        g = R.run("calkulate.core.gran_function", tm, emf, temp, am)
        w = R.run("chemspec.gran_function", tm, emf, temp, am)
        R.same("Nernst equation", "calkulate.core.gran_function", g.snap(),
               w.snap())

    for n, f in (("equations", each), ("inverses", inverse), ("solver", used),
                 ("gran function", gran)):
        R.job(n, f)


@check("C06")
def adjust(R):
    def chain(R):
        fn, sal = sym("file_name", "s", "nn", "str"), S("salinity")
        k = dict(analyte_mass=S("am"), titrant_amount_unit=const("kg"))
        a = R.run("calkulate.files.solve", fn, mol, sal,
                  solve_mode=const("pH_adjust"), **k)
        d = R.run("readspec.genfromtxt", fn)
        w = R.run("chemspec.pH_to_emf", R.item(d, d.value, 1), num(0),
                  R.item(d, d.value, 2))
        R.same("pH measurements become EMFs by the Nernst equation",
               "calkulate.files.solve (pH_adjust)", R.attr(a, "emf"),
               w.snap())
        for what in ("analyte_mass", "temperature", "titrant_mass"):
            b = R.run("calkulate.files.solve", fn, mol, sal,
                      solve_mode=const("pH"), **k)
            R.same("same inputs whichever way pH is used",
                   f"calkulate.files.solve (pH_adjust) {what}",
                   R.attr(a, what), R.attr(b, what))
    R.job("pH_adjust", chain)


# ------------------------------------------------------------ densities
about("C07", "Densities follow the published equations",
      "Polynomial normal forms of the density functions are compared with "
      "the published equations, coefficient by coefficient.")


@check("C07")
def densities(R):
    def go(R):
        t, s = S("t"), S("s")
        a, b = S("a"), S("b")
        d = "calkulate.density."
        for tt, nm in ((t, "scalar"), (temp, "array")):
            R.same("published density equation",
                   f"{d}seawater_1atm_MP81 ({nm})",
                   R.run(d + "seawater_1atm_MP81", tt, s).snap(),
                   R.run("densityspec.seawater", tt, s).snap())
        R.same("published density equation", d + "seawater_1atm_MP81 (names)",
               R.run(d + "seawater_1atm_MP81", salinity=s,
                     temperature=t).snap(),
               R.run("densityspec.seawater", t, s).snap())
        R.same("published density equation",
               d + "seawater_1atm_MP81 (defaults)",
               R.run(d + "seawater_1atm_MP81").snap(),
               R.run("densityspec.seawater", num(25), num(35)).snap())
        R.same("published density equation", d + "HCl_NaCl_25C_DSC07",
               R.run(d + "HCl_NaCl_25C_DSC07", molinity_HCl=a,
                     molinity_NaCl=b).snap(),
               R.run("densityspec.hcl_nacl", a, b).snap())
        R.same("published density equation",
               d + "HCl_NaCl_25C_DSC07 (positional)",
               R.run(d + "HCl_NaCl_25C_DSC07", a, b).snap(),
               R.run("densityspec.hcl_nacl", a, b).snap())
        R.same("published density equation", d + "H2SO4_25C_EAIM",
               R.run(d + "H2SO4_25C_EAIM", a).snap(),
               R.run("densityspec.h2so4", a).snap())
    R.job("equations", go)

    def defaults(R):
        d = "calkulate.density."
        a, b = S("a"), S("b")
        w1 = R.run("densityspec.hcl_nacl", num(0.1), num(0.6))
        w2 = R.run("densityspec.hcl_nacl", a, num(0.6))
        w3 = R.run("densityspec.hcl_nacl", num(0.1), b)
        R.same("default molinities are 0.1 (HCl) and 0.6 (NaCl)",
               d + "HCl_NaCl_25C_DSC07 ()",
               R.run(d + "HCl_NaCl_25C_DSC07").snap(), w1.snap())
        R.same("default molinities are 0.1 (HCl) and 0.6 (NaCl)",
               d + "HCl_NaCl_25C_DSC07 (HCl)",
               R.run(d + "HCl_NaCl_25C_DSC07", molinity_HCl=a).snap(),
               w2.snap())
        R.same("default molinities are 0.1 (HCl) and 0.6 (NaCl)",
               d + "HCl_NaCl_25C_DSC07 (NaCl)",
               R.run(d + "HCl_NaCl_25C_DSC07", molinity_NaCl=b).snap(),
               w3.snap())
    R.job("defaults", defaults)

    def uses(R):
        """Amount conversion uses these densities."""
        dd = R.run("readspec.genfromtxt", sym("fn", "s", "nn", "str"))
        cols = [R.item(dd, dd.value, i) for i in range(3)]
        D = R.I.lookup("calkulate.read.titrations.DatData")
        if D is None:
            return R.record("densities used", "DatData", "undecided",
                            "DatData not found")
        mk_ = R.I.analyse(D, cols)
        for nm, kw in (("HCl", {}), ("H2SO4", {"titrant": const("H2SO4")})):
            kw = dict(kw, analyte_volume=S("v"), molinity_HCl=S("hcl"),
                      molinity_NaCl=S("nacl"), molinity_H2SO4=S("h2so4"))
            g = R.I.analyse(R.fn("calkulate.convert.amount_units"),
                            [mk_.value, S("salinity")], kw, mk_.st)
            w = R.run("pipespec.masses", cols[0], cols[2], S("salinity"), **kw)
            for i, k in enumerate(("titrant_mass", "temperature",
                                   "analyte_mass")):
                R.same("amounts are converted with these densities",
                       f"calkulate.convert.amount_units ({nm}) {k}",
                       R.attr(g, k), R.item(w, w.value, i))
    R.job("used by the amount conversion", uses)


# ------------------------------------------------------------ speciation
about("C05", "Speciation and alkalinity follow their definitions on each pH "
      "scale",
      "Every component of the speciation, for each pH scale and every "
      "combination of present/absent totals (presence is a symbolic gate), "
      "is compared with the acid-base equilibrium it stands for; alkalinity "
      "must be the charge-weighted sum of exactly those components.")


@check("C05")
def speciation(R):
    def go(R, scale, maybe):
        t, k = totals(R, maybe=maybe), ks(R)
        g = R.run("calkulate.simulate.alkalinity_components", pH, t, k,
                  opt_pH_scale=num(scale))
        w = R.run("chemspec.components", pH, t, k, num(scale))
        gd, wd = g.I.obj(g.value, g.st), w.I.obj(w.value, w.st)
        for c in sorted({x for x in list(gd.items) + list(wd.items)},
                        key=lambda n: str(n.args)):
            ca, va = gd.items.get(c, (FALSE, NONE))
            cb, vb = wd.items.get(c, (FALSE, NONE))
            R.same("component present when its total is",
                   f"{c.args[1]} on scale {scale}", ca, cb)
            R.same("component follows its equilibrium",
                   f"{c.args[1]} on scale {scale}",
                   phi(ca, g.I.snap(va, g.st), ZERO),
                   phi(cb, w.I.snap(vb, w.st), ZERO))
        R.same("components are complete", f"scale {scale}", g.snap(), w.snap())
        a = R.run("calkulate.simulate.alkalinity", pH, t, k,
                  opt_pH_scale=num(scale))
        b = R.run("chemspec.alkalinity", pH, t, k, num(scale))
        R.same("alkalinity is the weighted sum of the components",
               f"scale {scale}", a.snap(), b.snap())

    for s in (1, 2, 3):
        for m in (True, False):
            R.job(f"scale {s}, totals {'optional' if m else 'present'}", go,
                  s, m)

    def default(R):
        t, k = totals(R, maybe=True), ks(R)
        R.same("default scale is Free", "calkulate.simulate.alkalinity",
               R.run("calkulate.simulate.alkalinity", pH, t, k).snap(),
               R.run("chemspec.alkalinity", pH, t, k, num(3)).snap())
        R.same("default scale is Free",
               "calkulate.simulate.alkalinity_components",
               R.run("calkulate.simulate.alkalinity_components", pH, t,
                     k).snap(),
               R.run("chemspec.components", pH, t, k, num(3)).snap())
    R.job("default scale", default)

    def scalars(R):
        t = totals(R, flag=S)
        k = ks(R, flag=S)
        R.same("scalar totals", "calkulate.simulate.alkalinity",
               R.run("calkulate.simulate.alkalinity", S("pH0"), t, k).snap(),
               R.run("chemspec.alkalinity", S("pH0"), t, k, num(3)).snap())
    R.job("scalar inputs", scalars)

    def bad(R):
        for v in (num(0), num(4), const("free")):
            g = R.run("calkulate.simulate.alkalinity_components", pH,
                      totals(R), ks(R), opt_pH_scale=v)
            R.same("unknown scale is rejected", T.show(v),
                   raised(g) if g.value is not None else TRUE, TRUE)
    R.job("unknown scale", bad)

    def conserve(R):
        """Species of one total add up to it, by the repo's own formulas."""
        t, k = totals(R), ks(R)
        g = R.run("calkulate.simulate.alkalinity_components", pH, t, k)
        c = {}
        for n, keys in (("dic", ("CO2", "HCO3", "CO3")),):
            s = ZERO
            for x in keys:
                s = T.add(s, R.item(g, g.value, x))
            R.same("species add up to their total", n, s, A("totals.dic"))
    R.job("conservation", conserve)

    def inside(R):
        """The solvers evaluate this same alkalinity."""
        t, k = totals(R, maybe=True), ks(R)
        g = R.run("calkulate.core.solve_pH", mol, tm, pH, temp, am, t, k)
        w = R.run("chemspec.per_point", pH, mol, tm, am, t, k, num(1))
        R.same("the solver uses this alkalinity", "calkulate.core.solve_pH",
               R.attr(g, "alkalinity_all"), w.snap())
        g = R.run("calkulate.core.solve_emf", mol, tm, emf, temp, am, t, k)
        w = R.run("chemspec.per_point", R.attr(g, "pH"), mol, tm, am, t, k,
                  num(1))
        R.same("the solver uses this alkalinity", "calkulate.core.solve_emf",
               R.attr(g, "alkalinity_all"), w.snap())
    R.job("used by the solvers", inside)


# ------------------------------------------------------------ dilution
about("C09", "Dilution and titrant contributions conserve mass",
      "Every content after mixing must be (analyte amount + titrant amount) "
      "/ total mass, for every key of the totals dictionaries (keys "
      "symbolic-present), both per function and inside the file-level chain.")


@check("C09")
def dilution(R):
    c = "calkulate.convert."
    PY = ("TB", "TF", "TSO4", "TCa", "alpha", "beta", "TPO4", "TSi", "TNH3",
          "TH2S")

    def factor(R):
        R.same("dilution factor", c + "get_dilution_factor",
               R.run(c + "get_dilution_factor", tm, am).snap(),
               T.div(am, T.add(am, tm)))

    def mapped(R, f, keys, conserved, extra=(), sulfate=None):
        d = R.dict({k: (mk("present", k), A("v." + k))
                    for k in keys + conserved}, owner="caller:totals")
        g = R.run(c + f, d, *extra, tm, am)
        o = g.I.obj(g.value, g.st)
        for k in keys + conserved:
            cond, v = o.items.get(const(k), (FALSE, NONE))
            v0 = A("v." + k)
            want = v0
            if k in keys:
                want = T.div(T.mul(v0, am), T.add(tm, am))
            if k == sulfate:
                want = T.div(T.add(T.mul(v0, am), T.mul(tm, mol)),
                             T.add(tm, am))
            R.same("mixing conserves mass", f"{c}{f}[{k}]",
                   phi(cond, g.I.snap(v, g.st), NONE),
                   phi(mk("present", k), want, NONE),
                   assume=not_(raised(g)))
        R.true("nothing else is added", c + f,
               set(o.items) <= {const(k) for k in keys + conserved},
               "extra keys " + str([T.show(k) for k in o.items]))

    R.job("factor", factor)
    R.job("dilute_totals", mapped, "dilute_totals", TOTALS, ())
    R.job("dilute_totals_pyco2", mapped, "dilute_totals_pyco2", PY,
          ("Sal", "other", "peng_correction"))

    def h2so4(R):
        mapped(R, "dilute_totals_H2SO4", TOTALS, (), (mol,), "total_sulfate")

    def h2so4p(R):
        d = R.dict({k: A("v." + k) for k in PY + ("Sal",)},
                   owner="caller:totals")
        g = R.run(c + "dilute_totals_pyco2_H2SO4", d, mol, tm, am)
        for k in PY + ("Sal",):
            v0 = A("v." + k)
            want = v0 if k == "Sal" else T.div(T.mul(v0, am), T.add(tm, am))
            if k == "TSO4":
                want = T.div(T.add(T.mul(v0, am), T.mul(tm, mol)),
                             T.add(tm, am))
            R.same("mixing conserves mass",
                   f"{c}dilute_totals_pyco2_H2SO4[{k}]",
                   R.item(g, g.value, k), want)
    R.job("dilute_totals_H2SO4", h2so4)
    R.job("dilute_totals_pyco2_H2SO4", h2so4p)

    def add(R):
        keys = ("total_sulfate", "total_phosphate", "total_fluoride",
                "total_borate", "total_ammonia")
        for prev in (None, S("prev")):
            t = totals(R, maybe=True)
            kw = {"titrant_" + k: S("m." + k) for k in keys}
            if prev is not None:
                kw["titrant_molinity_prev"] = prev
            g = R.run("calkulate.core.add_titrant_totals", t, tm, am, mol,
                      **kw)
            o = g.I.obj(g.value, g.st)
            for k in TOTALS:
                cond, v = o.items.get(const(k), (FALSE, NONE))
                p0 = mk("present", "totals." + k)
                old = phi(p0, A("totals." + k), ZERO)
                if k in keys:
                    dm = T.sub(mol, prev) if prev is not None else mol
                    want = T.add(old, T.div(
                        T.mul(T.mul(tm, dm), S("m." + k)), T.add(tm, am)))
                    wc = TRUE
                else:
                    want, wc = old, p0
                R.same("titrant contributions conserve mass",
                       f"calkulate.core.add_titrant_totals[{k}]"
                       f"{' replacing' if prev else ''}",
                       phi(cond, g.I.snap(v, g.st), NONE),
                       phi(wc, want, NONE))
    R.job("titrant contributions", add)

    def restore(R):
        """Adding and replacing leave the totals of the last molinity."""
        t = R.dict({k: A("totals." + k) for k in TOTALS})
        kw = {"titrant_total_sulfate": S("m")}
        f = "calkulate.core.add_titrant_totals"
        a = R.run(f, t, tm, am, S("mol1"), **kw)
        b = R.I.analyse(R.fn(f), [a.value, tm, am, S("mol2")],
                        dict(kw, titrant_molinity_prev=S("mol1")), a.st)
        w = T.add(A("totals.total_sulfate"),
                  T.div(T.mul(T.mul(tm, S("mol2")), S("m")), T.add(tm, am)))
        R.same("replacing a molinity leaves no trace of the previous one", f,
               R.item(b, b.value, "total_sulfate"), w)
    R.job("replacing contributions", restore)

    def bad(R):
        g = R.run("calkulate.core.add_titrant_totals", totals(R), tm, am, mol,
                  sulfate=S("m"))
        R.same("unknown contribution is rejected",
               "calkulate.core.add_titrant_totals",
               raised(g) if g.value is not None else TRUE, TRUE)
    R.job("unknown contribution", bad)

    def chain(R, mode):
        fn, sal = sym("file_name", "s", "nn", "str"), S("salinity")
        k = dict(analyte_mass=S("am"), titrant_amount_unit=const("kg"),
                 dic=S("dic"), total_phosphate=(mk("present", "p"), S("po4")),
                 titrant_total_sulfate=S("ts"), total_alpha=S("alpha"),
                 titrant_total_phosphate=(mk("present", "tp"), S("tp")),
                 dilute_totals_for_ks=S("dil"))
        g = R.run("calkulate.files.solve", fn, mol, sal,
                  solve_mode=const(mode), **k)
        w = R.run("pipespec.solve", fn, mol, sal, solve_mode=const(mode), **k)
        for a in ("totals", "k_constants", "alkalinity"):
            R.same("contents through the titration", f"files.solve ({mode}) "
                   + a, R.attr(g, a), R.item(w, w.value, a))
    for m in ("pH", "emf", "pH_adjust", "pH_gran"):
        R.job("whole chain " + m, chain, m)

    def sys(R):
        names = {"TNH3": "total_ammonia", "TPO4": "total_phosphate",
                 "TSi": "total_silicate", "TH2S": "total_sulfide",
                 "TB": "total_borate", "TF": "total_fluoride",
                 "TSO4": "total_sulfate", "total_alpha": "total_alpha",
                 "total_beta": "total_beta"}
        t = totals(R, maybe=True)
        g = R.run(c + "totals_to_pyco2", t, S("salinity"))
        for p, k in names.items():
            R.same("totals keep their identity for PyCO2SYS",
                   f"{c}totals_to_pyco2[{p}]", R.item(g, g.value, p),
                   phi(mk("present", "totals." + k), A("totals." + k), ZERO))
        R.same("totals keep their identity for PyCO2SYS",
               c + "totals_to_pyco2[Sal]", R.item(g, g.value, "Sal"),
               S("salinity"))
    R.job("totals_to_pyco2", sys)
