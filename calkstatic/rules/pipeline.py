"""One titration file: from file name and settings to alkalinity."""
from .common import *
from .registry import about, check

fn, cert, sal = sym("file_name", "s", "nn", "str"), S("certified"), \
    S("salinity")
MODES = ("pH", "pH_gran", "emf", "pH_adjust")
READER = dict(file_path="str", col_measurement="nn", col_temperature="nn",
              col_titrant_amount="nn", delimiter="str", skip_header="nn")
AMOUNTS = dict(analyte_mass="", analyte_volume="nn", molinity_H2SO4="nn",
               molinity_HCl="nn", molinity_NaCl="nn",
               temperature_override="", titrant_amount_unit="str",
               titrant_density="", titrant="str")
NUTRIENTS = {"total_" + k: "nn" for k in (
    "alpha", "beta", "ammonia", "phosphate", "silicate", "sulfide")}
NUTRIENTS["dic"] = "nn"
SALTS = {"total_" + k: "" for k in ("borate", "fluoride", "sulfate")}
SALTS["dilute_totals_for_ks"] = "nn"
CONSTANTS = {k: "" for k in KS}
OPTS = {"opt_" + k: "nn" for k in (
    "k_bisulfate", "k_carbonic", "k_fluoride", "pH_scale", "total_borate")}
SOLVER = dict(alkalinity_init="", double="nn", emf0_init="",
              gran_logic="str", pH_min="nn", pH_max="nn",
              titrant_normality="nn")
TITRANT = {"titrant_total_" + k: "nn" for k in (
    "sulfate", "phosphate", "fluoride")}
GROUPS = {"reading": READER, "amounts": AMOUNTS, "nutrients": NUTRIENTS,
          "salts": SALTS, "constants": CONSTANTS, "constant options": OPTS,
          "solver": SOLVER, "titrant contents": TITRANT}
ALL = {k: v for g in GROUPS.values() for k, v in g.items()}
RESULT = {"emf": ("alkalinity", "emf0", "used", "pH", "alkalinity_std",
                  "alkalinity_all", "totals", "k_constants", "titrant_mass",
                  "analyte_mass", "temperature", "titrant_molinity", "emf"),
          "pH": ("alkalinity", "used", "pH", "alkalinity_std",
                 "alkalinity_all", "totals", "k_constants", "titrant_mass",
                 "analyte_mass", "temperature", "titrant_molinity"),
          "pH_gran": ("alkalinity", "used", "pH", "totals", "k_constants",
                      "titrant_mass", "analyte_mass", "temperature",
                      "titrant_molinity")}
RESULT["pH_adjust"] = RESULT["emf"]
GRAN = {"alkalinity": "gran_alkalinity", "emf0": "gran_emf0",
        "emf0s": "gran_emf0s", "pH": "gran_pH", "gfunc": "gran_func",
        "used": "gran_used"}


def opt(k, prefix="opt."):
    f = ALL[k]
    flags = {"str": ("s", "nn", "str"), "nn": ("s", "nn"), "": ("s",)}[f]
    return sym(prefix + k, *flags)


def base():
    return {"analyte_mass": S("mass"), "titrant_amount_unit": const("kg")}


def settings(names, maybe):
    kw = base()
    for k in names:
        kw[k] = (mk("present", k), opt(k)) if maybe else opt(k)
    return kw


def compare_solve(R, mode, kw, rule, what, fields=None):
    g = R.run("calkulate.files.solve", fn, mol, sal, solve_mode=const(mode),
              **kw)
    w = R.run("pipespec.solve", fn, mol, sal, solve_mode=const(mode), **kw)
    ok = not_(raised(g))
    for k in fields or RESULT[mode]:
        R.same(rule, f"files.solve ({mode}) {k} {what}",
               R.attr(g, k), R.item(w, w.value, k), assume=ok)
    if mode in ("emf", "pH_adjust") and fields is None:
        ggr = R.get(g, g.value, "ggr")
        for a, b in GRAN.items():
            R.same(rule, f"files.solve ({mode}) ggr.{a} {what}",
                   R.attr(g, a, ggr), R.item(w, w.value, b), assume=ok)
    return g, w


def compare_calibrate(R, mode, kw, rule, what):
    kw = dict(kw, titrant_molinity_init=S("opt.titrant_molinity_init"))
    g = R.run("calkulate.files.calibrate", fn, cert, sal,
              solve_mode=const(mode), **kw)
    w = R.run("pipespec.calibrate", fn, cert, sal, solve_mode=const(mode),
              **kw)
    R.same(rule, f"files.calibrate ({mode}) molinity {what}",
           T.index(R.item(g, g.value, "x"), num(0)), w.snap(),
           assume=not_(raised(g)))


# ------------------------------------------------------------ C01
about("C01", "Every recognised setting reaches the stage it controls",
      "For each solve mode and each group of settings (present, or of "
      "symbolic presence), the result of the file-level solve and of the "
      "calibration is compared, as a value-flow term over the data file and "
      "the settings, with an independent description of the chain.")


@check("C01")
def routing(R):
    def go(R, mode, names, maybe, what):
        kw = settings(names, maybe)
        compare_solve(R, mode, kw, "setting reaches its stage", what)
        compare_calibrate(R, mode, kw, "setting reaches its stage", what)

    for mode in MODES[::-1]:
        R.job(f"no settings, {mode}", go, mode, (), False, "without settings")
        for gname, G in GROUPS.items():
            for maybe in (False, True):
                R.job(f"{gname} {'optional' if maybe else 'given'}, {mode}",
                      go, mode, tuple(G), maybe, f"with {gname} settings")
    if R.tier == "thorough":
        for mode in MODES[::-1]:
            R.job(f"all given, {mode}", go, mode, tuple(ALL), False,
                  "with all settings")

    def one(R, mode, k):
        kws = [(f"with {k}", settings((k,), False))]
        if k == "titrant_amount_unit":
            kws = [(f"in {u}", dict(base(), titrant_amount_unit=const(u)))
                   for u in ("ml", "g", "kg")]
        if k == "analyte_mass":
            kws = [(f"with {k}", dict(base(), analyte_mass=S("opt." + k))),
                   ("with a volume in place of the mass",
                    dict(base(), analyte_mass=NONE,
                         analyte_volume=S("opt.volume")))]
        for what, kw in kws:
            compare_solve(R, mode, kw, "setting reaches its stage", what,
                          ("alkalinity",))
            compare_calibrate(R, mode, kw, "setting reaches its stage", what)
    for k in ALL:
        for mode in ("emf", "pH") if R.tier == "quick" else MODES:
            R.job(f"only {k}, {mode}", one, mode, k)

    def cases(R):
        for s in ("EMF", "emf", "pH_adjust", "PH_ADJUST", "ph", "pH", "PH",
                  "pH_gran", "ph_gran"):
            m = {x.lower(): x for x in MODES}[s.lower()]
            g = R.run("calkulate.files.solve", fn, mol, sal,
                      solve_mode=const(s), **base())
            w = R.run("pipespec.solve", fn, mol, sal, solve_mode=const(m),
                      **base())
            R.same("solve mode is case-insensitive", f"files.solve {s}",
                   R.attr(g, "alkalinity"), R.item(w, w.value, "alkalinity"))
            g = R.run("calkulate.files.calibrate", fn, cert, sal,
                      solve_mode=const(s), **base())
            w = R.run("pipespec.calibrate", fn, cert, sal,
                      solve_mode=const(m), **base())
            R.same("solve mode is case-insensitive", f"files.calibrate {s}",
                   T.index(R.item(g, g.value, "x"), num(0)), w.snap())
        g = R.run("calkulate.files.solve", fn, mol, sal, **base())
        w = R.run("pipespec.solve", fn, mol, sal, **base())
        R.same("default solve mode is emf", "files.solve",
               R.attr(g, "alkalinity"), R.item(w, w.value, "alkalinity"))
        g = R.run("calkulate.files.calibrate", fn, cert, sal, **base())
        w = R.run("pipespec.calibrate", fn, cert, sal, **base())
        R.same("default solve mode is emf", "files.calibrate",
               T.index(R.item(g, g.value, "x"), num(0)), w.snap())
    R.job("mode names", cases)


# ------------------------------------------------------------ C03
about("C03", "Calibration inverts solving",
      "The residual that each calibration minimises is extracted from the "
      "value-flow term and must equal the alkalinity that the same "
      "repository's solve reports at that molinity, minus the certified "
      "value, with the same settings; the totals it works on must be the "
      "same at every evaluation.")


@check("C03")
def inversion(R):
    def go(R, mode, names, what):
        kw = settings(names, False)
        g = R.run("calkulate.files.calibrate", fn, cert, sal,
                  solve_mode=const(mode), **kw)
        x = T.index(R.item(g, g.value, "x"), num(0))
        fits = [n for n in T.walk(x) if n.op == "lsqx"]
        outer = [n for n in fits if n.args[4] == min(f.args[4] for f in fits)]
        if not outer:
            return R.record("residual", f"files.calibrate ({mode}) {what}",
                            "undecided", "no fit found in the result")
        res = outer[0].args[1]
        lev = outer[0].args[4]
        bv = mk("bv", lev, 0)
        sv, R.I.lsq_depth = R.I.lsq_depth, lev
        try:
            s = R.run("calkulate.files.solve", fn, bv, sal,
                      solve_mode=const(mode), **kw)
        finally:
            R.I.lsq_depth = sv
        want = T.sub(R.attr(s, "alkalinity"), cert)
        ok = not_(or_(raised(g), raised(s)))
        R.same("calibration residual is solved minus certified alkalinity",
               f"files.calibrate ({mode}) {what}",
               R.I.models.canon_sign(res) if hasattr(
                   R.I.models, "canon_sign") else res,
               R.I.models.canon_sign(want) if hasattr(
                   R.I.models, "canon_sign") else want, assume=ok)
        drift = any(n.op == "lsqdrift" for n in T.walk(res))
        R.true("totals are the same at every evaluation",
               f"files.calibrate ({mode}) {what}", not drift,
               "the residual depends on the previous evaluation")

    for mode in MODES[::-1]:
        R.job(f"no settings, {mode}", go, mode, (), "without settings")
        for gname, G in GROUPS.items():
            R.job(f"{gname}, {mode}", go, mode, tuple(G),
                  f"with {gname} settings")

    def core(R, mode, kw, what):
        """Same at the level below, arrays given directly."""
        t, k = R.dict({x: A("totals." + x) for x in TOTALS}), ks(R)
        data = emf if mode == "emf" else pH
        g = R.run("calkulate.core.calibrate_" + mode, cert, tm, data, temp,
                  am, t, k, **kw)
        x = T.index(R.item(g, g.value, "x"), num(0))
        fits = [n for n in T.walk(x) if n.op == "lsqx"]
        outer = [n for n in fits if n.args[4] == min(f.args[4] for f in fits)]
        lev = outer[0].args[4]
        kw = dict(kw)
        mult = {n: kw.pop(n) for n in list(kw) if n.startswith("titrant_t")}
        bv = mk("bv", lev, 0)
        R.I.lsq_depth = lev
        try:
            t2 = R.dict({x: A("totals." + x) for x in TOTALS})
            a = R.run("pipespec.add_titrant", t2, tm, am, bv,
                      *[mult.get("titrant_total_" + z, NONE) for z in
                        ("sulfate", "phosphate", "fluoride")])
            s = R.I.analyse(R.fn("calkulate.core.solve_" + mode),
                            [bv, tm, data, temp, am, a.value, k], kw, a.st)
        finally:
            R.I.lsq_depth = 0
        R.same("calibration residual is solved minus certified alkalinity",
               f"core.calibrate_{mode} {what}",
               R.I.models.canon_sign(outer[0].args[1]),
               R.I.models.canon_sign(T.sub(R.attr(s, "alkalinity"), cert)),
               assume=not_(or_(raised(g), raised(s))))
        for x in TOTALS:
            v = R.item(g, t, x)
            R.same("trial contributions are removed again",
                   f"core.calibrate_{mode} {x} {what}",
                   v and T.transform(v, lambda n: n.args[0]
                                     if n.op == "lsqdrift" else None),
                   A("totals." + x), assume=not_(raised(g)))
    for mode in ("emf", "pH", "pH_gran"):
        R.job(f"core {mode}", core, mode, {}, "")
        kw = {"pH_min": pH_min, "pH_max": pH_max, "titrant_normality": norm}
        R.job(f"core {mode} window", core, mode, kw, "with a pH window")
        kw = {n: S(n) for n in TITRANT}
        R.job(f"core {mode} titrant", core, mode, kw, "with titrant contents")


# ------------------------------------------------------------ C04
about("C04", "Reported alkalinity closes the acid-base mass balance",
      "The solver's residual, per-point alkalinity and reported statistics "
      "are compared, as terms, with the mass balance (alkalinity from pH = "
      "(initial alkalinity x analyte mass - acid added)/total mass).")


@check("C04")
def balance(R):
    def go(R, mode, opts, what):
        t, k = totals(R, maybe=True), ks(R)
        data = emf if mode == "emf" else pH
        g = R.run("calkulate.core.solve_" + mode, mol, tm, data, temp, am, t,
                  k, **opts)
        w = R.run("chemspec.solve_" + mode, mol, tm, data, temp, am, t, k,
                  **opts)
        ok = not_(raised(g))
        o = w.I.obj(w.value, w.st)
        for key in sorted(x.args[1] for x in o.items):
            if key.startswith("gran_"):
                continue
            R.same("mass balance", f"core.solve_{mode} {key} {what}",
                   R.attr(g, key), R.item(w, w.value, key), assume=ok)
        if mode == "emf":
            ggr = R.get(g, g.value, "ggr")
            for a, b in GRAN.items():
                R.same("mass balance", f"core.solve_emf ggr.{a} {what}",
                       R.attr(g, a, ggr), R.item(w, w.value, b), assume=ok)
        for a, v in (("titrant_molinity", mol), ("titrant_mass", tm),
                     ("temperature", temp), ("analyte_mass", am)):
            R.same("inputs are reported as they were given",
                   f"core.solve_{mode} {a} {what}", R.attr(g, a), v,
                   assume=ok)

    win = {"pH_min": pH_min, "pH_max": pH_max}
    for mode in ("pH", "pH_gran", "emf"):
        R.job(mode, go, mode, {}, "")
        R.job(mode + " window", go, mode, win, "with a pH window")
        R.job(mode + " normality", go, mode, {"titrant_normality": norm},
              "with a normality")
    for nm, o in (
            ("start points", {"alkalinity_init": sym("ai", "s"),
                              "emf0_init": sym("ei", "s")}),
            ("once", {"double": FALSE}),
            ("symbolic double", {"double": S("double")}),
            ("legacy", {"gran_logic": const("legacy")}),
            ("all", {"alkalinity_init": S("ai"), "emf0_init": S("ei"),
                     "double": S("double"), "gran_logic": const("legacy"),
                     "titrant_normality": norm, **win})):
        R.job("emf " + nm, go, "emf", o, f"({nm})")

    def chain(R, mode):
        compare_solve(R, mode, dict(base(), titrant_normality=norm,
                                    dic=S("dic")), "mass balance", "")
    for m in MODES:
        R.job("whole chain " + m, chain, m)


# ------------------------------------------------------------ C08
about("C08", "Amounts are converted to mass with the right units",
      "Gated terms of the amount conversion (unit, titrant, density, mass "
      "and volume all symbolic) are compared with the specification for "
      "every accepted unit, and unacceptable settings must raise.")


def amounts(R, kw):
    dd = [A("amount"), A("measurement"), A("temperature")]
    D = R.fn("calkulate.read.titrations.DatData")
    m = R.I.analyse(D, dd)
    g = R.I.analyse(R.fn("calkulate.convert.amount_units"),
                    [m.value, sal], kw, m.st)
    w = R.run("pipespec.masses", dd[0], dd[2], sal, **kw)
    return g, w


@check("C08")
def units(R):
    def go(R, kw, what):
        g, w = amounts(R, kw)
        ok = not_(raised(g))
        for i, k in enumerate(("titrant_mass", "temperature",
                               "analyte_mass")):
            R.same("conversion to mass", f"convert.amount_units {k} {what}",
                   R.attr(g, k), R.item(w, w.value, i), assume=ok)
        R.same("measurements are passed through",
               f"convert.amount_units {what}", R.attr(g, "measurement"),
               A("measurement"), assume=ok)
        R.same("salinity is passed through",
               f"convert.amount_units {what}", R.attr(g, "salinity"), sal,
               assume=ok)
        return g

    for u in ("ml", "g", "kg", "ML", "G", "Kg"):
        for t in (None, "HCl", "hcl", "H2SO4", "h2so4"):
            kw = {"titrant_amount_unit": const(u), "analyte_mass": sym(
                "mass", "s"), "analyte_volume": S("volume"),
                "molinity_HCl": S("hcl"), "molinity_NaCl": S("nacl"),
                "molinity_H2SO4": S("h2so4"),
                "titrant_density": sym("density", "s"),
                "temperature_override": sym("tov", "s")}
            if t:
                kw["titrant"] = const(t)
            R.job(f"{u} {t}", go, kw, f"{u} {t}")
    kw = {k: opt(k) for k in AMOUNTS}
    R.job("all symbolic", go, kw, "all settings symbolic")
    R.job("default unit", go, {"analyte_mass": S("mass"),
                               "titrant_density": S("density")},
          "default unit")
    R.job("default titrant", go, {"analyte_volume": S("volume"),
                                  "molinity_HCl": S("hcl"),
                                  "molinity_NaCl": S("nacl")},
          "default titrant")

    def precedence(R):
        g, _ = amounts(R, {"analyte_mass": S("mass"),
                           "analyte_volume": S("volume"),
                           "titrant_amount_unit": const("g")})
        R.same("mass takes precedence over volume", "convert.amount_units",
               R.attr(g, "analyte_mass"), S("mass"))
    R.job("precedence", precedence)

    def invalid(R):
        for what, kw in (
                ("unit", {"titrant_amount_unit": const("l"),
                          "analyte_mass": S("m")}),
                ("titrant", {"titrant": const("HNO3"),
                             "analyte_mass": S("m")}),
                ("no mass or volume", {"titrant_amount_unit": const("g")}),
                ("blank mass, no volume", {
                    "titrant_amount_unit": const("g"),
                    "analyte_mass": NAN})):
            g, _ = amounts(R, kw)
            R.same("unusable amounts are rejected", what,
                   raised(g) if g.value is not None else TRUE, TRUE)
    R.job("invalid", invalid)

    def chain(R, mode, u):
        kw = {k: opt(k) for k in AMOUNTS}
        kw["titrant_amount_unit"] = const(u)
        compare_solve(R, mode, kw, "conversion to mass", f"in {u}",
                      ("titrant_mass", "analyte_mass", "temperature",
                       "totals", "alkalinity"))
        compare_calibrate(R, mode, kw, "conversion to mass", f"in {u}")
    for m in MODES:
        for u in ("ml", "g", "kg"):
            R.job(f"whole chain {m} {u}", chain, m, u)


# ------------------------------------------------------------ C10
about("C10", "User-supplied contents and constants are used in their own slots",
      "Totals and constants through the titration are compared key by key "
      "with the specification, each user value of symbolic presence and "
      "nullness, in file-level and lower-level functions.")


@check("C10")
def slots(R):
    def tot(R):
        kw = {k: opt(k) for k in NUTRIENTS}
        kw.update({k: opt(k) for k in SALTS if k.startswith("total")})
        kw.update(opt_k_carbonic=S("okc"), opt_total_borate=S("otb"))
        g = R.run("calkulate.interface.get_totals", sal, **kw)
        w = R.run("pipespec.contents", sal, **kw)
        for i, nm in ((0, "contents"), (1, "contents for PyCO2SYS")):
            a = R.I.snap(R.I.getitem(g.value, num(i), g.st), g.st)
            b = R.I.snap(R.I.getitem(w.value, num(i), w.st), w.st)
            da = {k: (c, v) for k, c, v in a.args[1]}
            db = {k: (c, v) for k, c, v in b.args[1]}
            for k in sorted(set(da) | set(db), key=lambda n: str(n.args)):
                ca, va = da.get(k, (FALSE, NONE))
                cb, vb = db.get(k, (FALSE, NONE))
                R.same(f"{nm} in their own slots",
                       f"interface.get_totals {k.args[1]}",
                       phi(ca, va, NONE), phi(cb, vb, NONE))
    R.job("get_totals", tot)

    def one(R, k):
        g = R.run("calkulate.interface.get_totals", sal, **{k: S("x")})
        w = R.run("pipespec.contents", sal, **{k: S("x")})
        R.same("contents in their own slots",
               f"interface.get_totals with {k}", g.snap(), w.snap())
    for k in list(NUTRIENTS) + ["total_borate", "total_fluoride",
                                "total_sulfate", "opt_k_carbonic",
                                "opt_total_borate"]:
        R.job("get_totals " + k, one, k)

    def con(R, kw, what):
        p = R.run("pipespec.contents", sal)
        pd_ = R.I.getitem(p.value, num(1), p.st)
        g = R.I.analyse(R.fn("calkulate.interface.get_k_constants"),
                        [pd_, temp], kw, p.st)
        p = R.run("pipespec.contents", sal)
        pd_ = R.I.getitem(p.value, num(1), p.st)
        w = R.I.analyse(R.fn("pipespec.constants"), [pd_, temp], kw, p.st)
        for k in KS:
            R.same("constants in their own slots",
                   f"interface.get_k_constants {k} {what}",
                   R.item(g, g.value, k), R.item(w, w.value, k))
        o = g.I.obj(g.value, g.st)
        R.true("no other constants appear",
               f"interface.get_k_constants {what}",
               {k.args[1] for k in o.items} <= set(KS), "extra constants")
    R.job("get_k_constants", con, {k: opt(k) for k in KS}, "all symbolic")
    for s in (1, 2, 3):
        R.job(f"get_k_constants scale {s}", con,
              dict({k: opt(k) for k in KS}, opt_pH_scale=num(s)),
              f"scale {s}")
    for k in KS:
        R.job("get_k_constants " + k, con, {k: S("x")}, f"with {k}")
    for k in OPTS:
        if k != "opt_total_borate":
            R.job("get_k_constants " + k, con, {k: S("x")}, f"with {k}")

    def chain(R, mode, names, what):
        kw = settings(names, False)
        compare_solve(R, mode, kw, "used in their own slots", what,
                      ("totals", "k_constants", "alkalinity"))
        compare_calibrate(R, mode, kw, "used in their own slots", what)
    for m in MODES:
        for gname in ("nutrients", "salts", "constants", "constant options"):
            R.job(f"whole chain {m} {gname}", chain, m, tuple(GROUPS[gname]),
                  f"with {gname}")
    for m in ("pH", "emf"):
        for k in list(NUTRIENTS) + list(SALTS) + list(KS) + list(OPTS):
            R.job(f"whole chain {m} {k}", chain, m, (k,), f"with {k}")

    def diluted(R, mode):
        kw = settings(tuple(NUTRIENTS) + ("total_sulfate",
                                          "total_fluoride"), False)
        kw["dilute_totals_for_ks"] = TRUE
        compare_solve(R, mode, kw, "used in their own slots",
                      "with diluted contents for the constants",
                      ("totals", "k_constants", "alkalinity"))
    for m in MODES:
        R.job("diluted " + m, diluted, m)


# ------------------------------------------------------------ C14
about("C14", "Exactly the points inside the pH window are used",
      "The mask of used points, the values averaged or fitted over, and the "
      "reported count and standard deviation are compared, as terms, with "
      "the inclusive pH window.")


@check("C14")
def window(R):
    win = {"pH_min": pH_min, "pH_max": pH_max}

    def go(R, mode, opts, what):
        t, k = totals(R), ks(R)
        data = emf if mode == "emf" else pH
        g = R.run("calkulate.core.solve_" + mode, mol, tm, data, temp, am, t,
                  k, **opts)
        w = R.run("chemspec.solve_" + mode, mol, tm, data, temp, am, t, k,
                  **opts)
        ok = not_(raised(g))
        for key in ("used", "alkalinity") + (
                ("emf0", "alkalinity_std") if mode == "emf" else
                ("alkalinity_std",) if mode == "pH" else ()):
            R.same("points inside the window are used",
                   f"core.solve_{mode} {key} {what}", R.attr(g, key),
                   R.item(w, w.value, key), assume=ok)
    for mode in ("pH", "pH_gran", "emf"):
        R.job(mode, go, mode, win, "symbolic window")
        R.job(mode + " default", go, mode, {}, "default window")
        R.job(mode + " min", go, mode, {"pH_min": S("pH_min")}, "minimum")
        R.job(mode + " max", go, mode, {"pH_max": S("pH_max")}, "maximum")
    R.job("emf once", go, "emf", dict(win, double=FALSE), "single pass")
    R.job("emf start", go, "emf", dict(win, emf0_init=S("e")),
          "given EMF0")

    def chain(R, mode):
        compare_solve(R, mode, dict(base(), **win),
                      "points inside the window are used", "",
                      ("used", "alkalinity"))
        compare_calibrate(R, mode, dict(base(), **win),
                          "points inside the window are used", "")
    for m in MODES:
        R.job("whole chain " + m, chain, m)

    def ds(R, mode):
        """Count and standard deviation in the results table."""
        cols = ["file_name", "salinity", "titrant_molinity", "analyte_mass",
                "pH_min", "pH_max"]
        kw = {"solve_mode": const(mode), "titrant_amount_unit": const("kg")}
        g = R.run("calkulate.dataset.solve", R.table(cols), **kw)
        w = R.run("dsspec.solve", R.table(cols), R.dict(kw))
        for c in ("alkalinity_npts", "alkalinity_std", "alkalinity"):
            R.same("points inside the window are used",
                   f"dataset.solve ({mode}) {c}",
                   no_exc(R.item(g, g.value, c)), R.item(w, w.value, c))
    for m in MODES:
        R.job("table " + m, ds, m)


# ------------------------------------------------------------ C21
about("C21", "Gran-plot estimates follow their definitions",
      "Terms of the Gran functions, the selected points, the regression and "
      "the derived alkalinity and EMF0 are compared with the definitions for "
      "both point-selection rules.")


@check("C21")
def gran(R):
    def go(R, logic, nrm):
        kw = {}
        if logic is not None:
            kw["gran_logic"] = const(logic)
        if nrm:
            kw["titrant_normality"] = norm
        lg = const(logic or "v23.7+")
        n = norm if nrm else num(1)
        what = f"({logic or 'default'}{', normality' if nrm else ''})"
        g = R.run("calkulate.core.gran_alkalinity", tm, emf, temp, am, mol,
                  **kw)
        w = R.run("chemspec.gran_alkalinity", tm, emf, temp, am, mol, n, lg)
        for i, k in enumerate(("alkalinity", "gfunc", "used",
                               "intercept_x")):
            R.same("Gran definition", f"core.gran_alkalinity {k} {what}",
                   R.attr(g, k), R.item(w, w.value, i))
        g = R.run("calkulate.core.gran_guesses", tm, emf, temp, am, mol, **kw)
        w = R.run("chemspec.gran_guesses", tm, emf, temp, am, mol, n, lg)
        for i, k in enumerate(("alkalinity", "emf0", "emf0s", "pH", "gfunc",
                               "used")):
            R.same("Gran definition", f"core.gran_guesses {k} {what}",
                   R.attr(g, k), R.item(w, w.value, i))
        kw.pop("gran_logic", None)
        g = R.run("calkulate.core.gran_emf0s", tm, emf, temp, am, mol,
                  S("alk"), **kw)
        w = R.run("chemspec.gran_emf0s", tm, emf, temp, am, mol, S("alk"), n)
        R.same("Gran definition", f"core.gran_emf0s {what}", g.snap(),
               w.snap())
        g = R.run("calkulate.core.gran_function", tm, emf, temp, am)
        w = R.run("chemspec.gran_function", tm, emf, temp, am)
        R.same("Gran definition", "core.gran_function", g.snap(), w.snap())
    for lg in (None, "legacy", "v23.7+"):
        for n in (False, True):
            R.job(f"{lg} {n}", go, lg, n)

    def bad(R):
        g = R.run("calkulate.core.gran_alkalinity", tm, emf, temp, am, mol,
                  gran_logic=const("other"))
        R.same("unknown rule is rejected", "core.gran_alkalinity",
               raised(g) if g.value is not None else TRUE, TRUE)
    R.job("unknown rule", bad)

    def used(R, mode, lg):
        kw = dict(base(), gran_logic=const(lg), titrant_normality=norm)
        g, w = compare_solve(R, mode, kw, "Gran estimates start the solver",
                             lg, ("alkalinity", "emf0"))
        ggr = R.get(g, g.value, "ggr")
        for a, b in GRAN.items():
            R.same("Gran definition", f"files.solve ({mode}) ggr.{a} {lg}",
                   R.attr(g, a, ggr), R.item(w, w.value, b))
        compare_calibrate(R, mode, kw, "Gran estimates start the solver", lg)
    for m in ("emf", "pH_adjust"):
        for lg in ("legacy", "v23.7+"):
            R.job(f"whole chain {m} {lg}", used, m, lg)

    def ph(R):
        t, k = totals(R), ks(R)
        g = R.run("calkulate.core.solve_pH_gran", mol, tm, pH, temp, am, t, k,
                  titrant_normality=norm)
        w = R.run("chemspec.solve_pH_gran", mol, tm, pH, temp, am, t, k,
                  titrant_normality=norm)
        for a in ("alkalinity", "gfunc", "used"):
            R.same("Gran definition", f"core.solve_pH_gran {a}",
                   R.attr(g, a), R.item(w, w.value, a),
                   assume=not_(raised(g)))
        compare_solve(R, "pH_gran", dict(base(), titrant_normality=norm),
                      "Gran definition", "")
    R.job("pH Gran", ph)
