"""Invalid and unknown settings."""
from .common import *
from .dataset import BASE
from .pipeline import ALL, MODES, base, cert, fn, opt, sal
from .registry import about, check

about("C17", "Invalid settings are rejected and ignored ones are reported",
      "For each invalid value the entry point must have no normal exit (its "
      "raise condition is a term compared with the documented one); for each "
      "setting name the warnings issued, with their path conditions and "
      "message terms, must name it if and only if it is ignored.")
UNKNOWN = ("not_a_setting", "Titrant", "opt_k_boron")


def words(t):
    import re
    out = set()
    for x in T.walk(t):
        if x.op == "const" and isinstance(x.args[1], str):
            out |= set(re.findall(r"\w+", x.args[1]))
    return out


def reported(res, name):
    return or_(*[e.cond for e in res.of("warn")
                 if any(name in words(t) for t in e.data)])


def rejects(R, rule, what, res):
    """No normal exit."""
    if res.value is None:
        return R.record(rule, what, "proved")
    c = raised(res)
    if c is TRUE:
        return R.record(rule, what, "proved")
    if any(x.op in T.UNKNOWN_OPS for x in T.walk(c)):
        return R.record(rule, what, "undecided", why(c))
    return R.record(rule, what, "refuted",
                    "accepted: " + T.show(res.snap(), 4)[:200])


def accepts(R, rule, what, res):
    if res.value is not None:
        return R.record(rule, what, "proved")
    return R.record(rule, what, "refuted", "always raises: " + "; ".join(
        str(x[0]) for x in res.raises[:3]))


@check("C17")
def invalid(R):
    def modes(R):
        for m in ("", "EMF0", "ph-gran", "pHgran", "gran", "alkalinity"):
            for f, x in (("solve", mol), ("calibrate", cert)):
                rejects(R, "unknown solve mode is rejected",
                        f"files.{f} solve_mode={m!r}",
                        R.run("calkulate.files." + f, fn, x, sal,
                              solve_mode=const(m), **base()))
        for m in MODES:
            for f, x in (("solve", mol), ("calibrate", cert)):
                accepts(R, "valid solve mode is accepted",
                        f"files.{f} solve_mode={m!r}",
                        R.run("calkulate.files." + f, fn, x, sal,
                              solve_mode=const(m), **base()))
    R.job("modes", modes)

    def values(R, mode):
        kw = base()
        bad = {"titrant_amount_unit": ("oz", "l", "mg", ""),
               "gran_logic": ("v23", "new", "")}
        good = {"titrant_amount_unit": ("ml", "ML", "g", "G", "kg", "KG"),
                "gran_logic": ("v23.7+", "legacy")}
        for f, x in (("solve", mol), ("calibrate", cert)):
            for k in bad:
                if k == "gran_logic" and mode != "emf":
                    continue
                for ok, vals in ((False, bad[k]), (True, good[k])):
                    for v in vals:
                        g = R.run("calkulate.files." + f, fn, x, sal,
                                  solve_mode=const(mode),
                                  **dict(kw, **{k: const(v)}))
                        (accepts if ok else rejects)(
                            R, f"{'valid' if ok else 'invalid'} {k}",
                            f"files.{f} ({mode}) {k}={v!r}", g)
            for v, ok in (("H2SO4", True), ("h2so4", True), ("HCl", True),
                          ("hcl", True), ("HNO3", False), ("", False)):
                g = R.run("calkulate.files." + f, fn, x, sal,
                          solve_mode=const(mode),
                          **dict(kw, titrant_amount_unit=const("ml"),
                                 titrant=const(v)))
                (accepts if ok else rejects)(
                    R, f"{'valid' if ok else 'invalid'} titrant",
                    f"files.{f} ({mode}) titrant={v!r} in ml", g)
            g = R.run("calkulate.files." + f, fn, x, sal,
                      solve_mode=const(mode),
                      titrant_amount_unit=const("kg"))
            rejects(R, "amount of analyte is required",
                    f"files.{f} ({mode}) without analyte mass or volume", g)
            lo, hi = S("opt.pH_min"), S("opt.pH_max")
            if f == "solve" or mode != "pH_gran":
                g = R.run("calkulate.files." + f, fn, x, sal,
                          solve_mode=const(mode), **dict(
                              kw, pH_min=lo, pH_max=hi))
                proper = mk("lt0", T.sub(hi, lo))
                R.same("empty pH window is rejected", f"files.{f} ({mode})",
                       T.under(raised(g), proper, False), TRUE)
                R.same("proper pH window is accepted", f"files.{f} ({mode})",
                       T.under(raised(g, "AssertionError"), proper, True),
                       FALSE)
    for m in MODES:
        R.job(f"values {m}", values, m)

    def scales(R):
        for v in (0, 4, -1, 5):
            rejects(R, "unknown pH scale is rejected",
                    f"simulate.alkalinity opt_pH_scale={v}",
                    R.run("calkulate.simulate.alkalinity", pH, totals(R),
                          ks(R), opt_pH_scale=num(v)))
        for v in (1, 2, 3):
            accepts(R, "valid pH scale is accepted",
                    f"simulate.alkalinity opt_pH_scale={v}",
                    R.run("calkulate.simulate.alkalinity", pH, totals(R),
                          ks(R), opt_pH_scale=num(v)))
    R.job("pH scale", scales)

    def columns(R):
        kw = {"titrant_amount_unit": const("kg"), "solve_mode": const("pH")}
        need = {"calibrate": ("salinity", "alkalinity_certified",
                              "analyte_mass"),
                "solve": ("salinity", "titrant_molinity", "analyte_mass"),
                "calkulate": ("salinity", "alkalinity_certified",
                              "analyte_mass")}
        for f, cs in need.items():
            accepts(R, "complete table is accepted", f"dataset.{f}",
                    R.run("calkulate.dataset." + f, R.table(BASE), **kw))
            for c in cs:
                g = R.run("calkulate.dataset." + f,
                          R.table([x for x in BASE if x != c]), **kw)
                rejects(R, "missing required column is rejected",
                        f"dataset.{f} without {c}", g)
    R.job("columns", columns)


ODD = (NONE, FALSE, ZERO, T.NAN, const(""))
OLD = ("pH_range", "read_dat_kwargs", "read_dat_method")


@check("C17")
def unknown(R):
    def file_level(R):
        for k in ALL:
            g = R.run("calkulate.files.calibrate", fn, cert, sal,
                      **dict(base(), **{k: opt(k)}))
            R.same("a setting that is used is not reported as ignored",
                   f"files.calibrate {k}", reported(g, k), FALSE)
        for k in UNKNOWN:
            for extra in ({}, {"dic": S("opt.dic"), "zz_other": S("opt.zz")}):
                g = R.run("calkulate.files.calibrate", fn, cert, sal,
                          **dict(base(), **extra, **{k: S("opt." + k)}))
                R.same("an ignored setting is reported",
                       f"files.calibrate {k}", reported(g, k), TRUE)
            for v in ODD:
                g = R.run("calkulate.files.calibrate", fn, cert, sal,
                          **dict(base(), **{k: v}))
                R.same("an ignored setting is reported",
                       f"files.calibrate {k}={T.show(v)}", reported(g, k),
                       TRUE)
    R.job("file level", file_level)

    def table_level(R, f, names):
        kw = {"titrant_amount_unit": const("kg"), "solve_mode": const("pH")}

        def go(extra):
            return R.run("calkulate.dataset." + f, R.table(BASE),
                         **dict(kw, **extra))
        for k in names:
            R.same("a setting that is used is not reported as ignored",
                   f"dataset.{f} {k}", reported(go({k: opt(k)}), k), FALSE)
        if names:
            return
        old = {"pH_range": mk("tuple", (S("lo"), S("hi"))),
               "read_dat_method": const("genfromtxt"), "verbose": FALSE}
        for k, v in old.items():
            R.same("a setting that is used is not reported as ignored",
                   f"dataset.{f} {k}", reported(go({k: v}), k), FALSE)
        d = R.dict({"delimiter": opt("delimiter")})
        g = go({"read_dat_kwargs": d})
        for k in ("read_dat_kwargs", "delimiter"):
            R.same("a setting that is used is not reported as ignored",
                   f"dataset.{f} {k}", reported(g, k), FALSE)
        for k in UNKNOWN:
            for extra in ({}, {"dic": S("opt.dic"), "zz_other": S("opt.zz")}):
                g = go(dict(extra, **{k: S("opt." + k)}))
                R.same("an ignored setting is reported", f"dataset.{f} {k}",
                       reported(g, k), TRUE)
        for k, v in zip(UNKNOWN, ODD):
            R.same("an ignored setting is reported",
                   f"dataset.{f} {k}={T.show(v)}", reported(go({k: v}), k),
                   TRUE)
    for f in ("solve", "calibrate", "calkulate"):
        R.job(f"table level {f}", table_level, f, ())
        for i in range(0, len(ALL), 9):
            R.job(f"table level {f} {i}", table_level, f,
                  list(ALL)[i:i + 9])

    def types(R):
        for k in ("vindta2", "TIAMO", "csv"):
            g = R.run("calkulate.read.titrations.read_dat", fn,
                      file_type=const(k))
            R.same("an unknown file type is reported", f"read_dat {k}",
                   reported(g, k), TRUE)
        for k in ("genfromtxt", "vindta", "orgalk_excel", "pclims",
                  "tiamo_de"):
            g = R.run("calkulate.read.titrations.read_dat", fn,
                      file_type=const(k))
            R.same("a known file type is not reported", f"read_dat {k}",
                   reported(g, k), FALSE)
    R.job("file types", types)


@check("C17")
def ranges(R):
    def dens(R):
        t, s, m = A("t"), A("s"), S("m")
        for a, lo, hi in (("temperature", 0, 40),
                          ("salinity", "1/2", 43)):
            x = A("x")
            g = R.run("calkulate.density.seawater_1atm_MP81", **{
                "temperature": num(25), "salinity": num(35), a: x})
            w = R.run("densityspec.outside", x, num_(lo), num_(hi)).snap()
            R.same("values outside a density equation's range are reported",
                   f"density.seawater_1atm_MP81 {a}", reported(g, a), w)
        g = R.run("calkulate.density.H2SO4_25C_EAIM", m)
        w = R.run("densityspec.outside", m, num_("1/20"), num(3)).snap()
        R.same("values outside a density equation's range are reported",
               "density.H2SO4_25C_EAIM",
               or_(*[e.cond for e in g.of("warn")]), w)
    R.job("density ranges", dens)


def num_(v):
    from fractions import Fraction
    return num(Fraction(v))
