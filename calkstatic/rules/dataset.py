"""A whole metadata table: precedence, isolation, batches, results."""
from .common import *
from .pipeline import ALL, CONSTANTS, GROUPS, MODES, NUTRIENTS, OPTS, \
    READER, SOLVER, TITRANT, opt
from .registry import about, check

BASE = ("file_name", "salinity", "titrant_molinity", "analyte_mass",
        "alkalinity_certified")
REPORTED = ("alkalinity", "alkalinity_npts", "alkalinity_std", "emf0",
            "gran_alkalinity", "gran_emf0", "pH_init", "temperature_init")
FILES = ("builtins.open", "numpy.genfromtxt", "numpy.loadtxt",
         "pandas.read_csv", "pandas.read_table", "pandas.read_excel",
         "pandas.read_fwf")


def call(R, f, cols, kw, given=None):
    ds = R.table(cols, given=given)
    return R.run("calkulate.dataset." + f, ds, **kw)


def spec(R, f, cols, kw, given=None):
    return R.run("dsspec." + f, R.table(cols, given=given), R.dict(kw))


def both(R, rule, what, cols, kw, columns=("alkalinity",), here=True,
         given=None):
    g = call(R, "solve", cols, kw, given)
    w = spec(R, "solve", cols, kw, given)
    for c in columns:
        R.same(rule, f"dataset.solve {c} {what}",
               no_exc(R.item(g, g.value, c)), R.item(w, w.value, c))
    if here:
        g = call(R, "calibrate", cols, kw, given)
        w = spec(R, "here", cols, kw, given)
        R.same(rule, f"dataset.calibrate titrant_molinity_here {what}",
               no_exc(R.item(g, g.value, "titrant_molinity_here")), w.snap())


# ------------------------------------------------------------ C02
about("C02", "A table entry overrides the call's setting; blanks fall back",
      "For every setting, given as a column, as a keyword or as both, the "
      "result columns of the table-level functions (terms over the table's "
      "cells, whose nullness is symbolic) are compared with an independent "
      "row-by-row description of the precedence rule.")


def how(k, way, mode):
    cols, kw = list(BASE), {"solve_mode": const(mode)}
    if k != "titrant_amount_unit":
        kw["titrant_amount_unit"] = const("kg")
    if way != "column":
        kw[k] = opt(k)
    if way != "keyword" and k not in cols:
        cols.append(k)
    if k == "analyte_mass" and way == "keyword":
        cols.remove(k)
        cols.append("analyte_volume")
    return cols, kw


@check("C02")
def precedence(R):
    def one(R, k, mode):
        for way in ("column", "keyword", "both"):
            cols, kw = how(k, way, mode)
            both(R, "precedence of table entries", f"({mode}) {k} as {way}",
                 cols, kw)
    for k in ALL:
        if R.tier == "thorough":
            modes = MODES
        else:
            modes = ("pH", "emf") if k in SOLVER or k in ALL and k in (
                "dic", "temperature_override", "total_sulfate") else ("pH",)
        for mode in modes:
            R.job(f"{k}, {mode}", one, k, mode)

    def old(R, mode):
        cols = list(BASE)
        kw = {"solve_mode": const(mode), "titrant_amount_unit": const("kg")}
        lo, hi = S("opt.pH_min"), S("opt.pH_max")
        new = dict(kw, pH_min=lo, pH_max=hi)
        g = call(R, "solve", cols, dict(kw, pH_range=mk("tuple", (lo, hi))))
        w = spec(R, "solve", cols, new)
        R.same("old-style settings", f"dataset.solve ({mode}) pH_range",
               no_exc(R.item(g, g.value, "alkalinity")),
               R.item(w, w.value, "alkalinity"))
        d = {k: opt(k) for k in ("delimiter", "skip_header",
                                 "col_measurement")}
        g = call(R, "solve", cols, dict(kw, read_dat_kwargs=R.dict(d)))
        w = spec(R, "solve", cols, dict(kw, **d))
        R.same("old-style settings", f"dataset.solve ({mode}) read_dat_kwargs",
               no_exc(R.item(g, g.value, "alkalinity")),
               R.item(w, w.value, "alkalinity"))
        for nm in ("read_dat_method", "file_type"):
            for v in ("genfromtxt", "vindta"):
                g = call(R, "solve", cols, dict(kw, **{nm: const(v)}))
                w = spec(R, "solve", cols, kw)
                R.same("old-style settings",
                       f"dataset.solve ({mode}) {nm}={v}",
                       no_exc(R.item(g, g.value, "alkalinity")),
                       R.item(w, w.value, "alkalinity"))
        # the reader, by its old and new names
        one, two = const("genfromtxt"), const("tiamo_de")
        w1 = call(R, "solve", cols, dict(kw, file_type=one))
        for what, k2, given in (
                ("keyword", {"read_dat_method": one}, {}),
                ("column", {}, {"read_dat_method": one}),
                ("column over keyword", {"read_dat_method": two},
                 {"read_dat_method": one}),
                ("column over new keyword", {"file_type": two},
                 {"read_dat_method": one}),
                ("new column over keyword", {"read_dat_method": two},
                 {"file_type": one}),
                ("blank column", {"read_dat_method": one},
                 {"read_dat_method": T.NAN}),
                ("blank column, new keyword", {"file_type": one},
                 {"read_dat_method": T.NAN})):
            for f in ("solve", "calibrate") if mode == "pH" else ("solve",):
                ww = w1 if f == "solve" else call(
                    R, f, cols, dict(kw, file_type=one))
                g = call(R, f, cols, dict(kw, **k2), given)
                out = "alkalinity" if f == "solve" else \
                    "titrant_molinity_here"
                R.same("old-style settings",
                       f"dataset.{f} ({mode}) read_dat_method as {what}",
                       no_exc(R.item(g, g.value, out)),
                       no_exc(R.item(ww, ww.value, out)))
        # the mode itself
        kw = {"titrant_amount_unit": const("kg")}
        for way in ("default", "keyword", "column"):
            k2 = dict(kw)
            given = {}
            if way == "keyword":
                k2["solve_mode"] = const(mode)
            if way == "column":
                given["solve_mode"] = const(mode)
            m = "emf" if way == "default" else mode
            g = call(R, "solve", cols, k2, given)
            w = spec(R, "solve", cols, dict(kw, solve_mode=const(m)))
            R.same("precedence of table entries",
                   f"dataset.solve mode {mode} as {way}",
                   no_exc(R.item(g, g.value, "alkalinity")),
                   R.item(w, w.value, "alkalinity"))
    for mode in MODES:
        R.job(f"old-style, {mode}", old, mode)

    if R.tier == "thorough":
        def pairs(R, names, mode, way):
            cols, kw = list(BASE), {"solve_mode": const(mode),
                                    "titrant_amount_unit": const("kg")}
            for k in names:
                if way != "column":
                    kw[k] = opt(k)
                if way != "keyword":
                    cols.append(k)
            both(R, "precedence of table entries",
                 f"({mode}) {', '.join(names)} as {way}", cols, kw)
        ks_ = [k for k in ALL if k not in ("analyte_mass",
                                           "titrant_amount_unit")]
        for a, b in zip(ks_, ks_[1:] + ks_[:1]):
            for way in ("column", "keyword", "both"):
                R.job(f"{a}+{b} {way}", pairs, (a, b), "pH", way)


# ------------------------------------------------------------ C11
about("C11", "One bad titration never affects the others",
      "The row function's escape conditions (exceptions leaving it), the "
      "try-coverage of every fallible library call it makes, its value when "
      "any guarded step fails, the path conditions of file access and the "
      "dependence of a row's value on state left by other rows are derived "
      "from the source and checked for all tables.",
      ["Library calls that can fail on bad data are those listed as FALLIBLE "
       "in calkstatic/models.py."])
BLANK = {c: (ZERO if c == "alkalinity_npts" else NAN) for c in REPORTED}


def rows_isolated(R, f, g, what, columns):
    col = R.col
    eff = [e for e in g.effects if e.kind == "rowapply"]
    if not eff:
        R.record("rows are processed one by one", f"dataset.{f} {what}",
                 "undecided", "no row-wise application found")
    R.same("no exception leaves a row", f"dataset.{f} {what}",
           raised(g), FALSE)
    inrow = set()
    for e in eff:
        inrow |= set(range(e.data[2], e.data[3]))
    for i, e in enumerate(g.effects):
        if e.kind == "fallible" and i in inrow:
            R.true("fallible calls are guarded",
                   f"{e.where[0]}: {e.data[0]} from dataset.{f}",
                   any(e.data[1]), "an exception here ends the whole run")
        if e.kind == "fallible" and e.data[0] in FILES:
            ok = False
            for v in ("cell", "col"):
                v = T.as_bool(mk(v, const("ds"), const("file_good")))
                ok = ok or any(
                    T.under(c, v, False) is FALSE for c in e.pc)
            R.true("files marked bad are never opened",
                   f"{e.where[0]}: {e.data[0]} from dataset.{f} {what}",
                   ok, "file access is not guarded by file_good")
        if e.kind == "rowdep":
            R.same("a row's result does not depend on other rows",
                   f"dataset.{f} {what}", e.data[1], e.data[0])
        if e.kind == "cache":
            R.record("a row's result does not depend on other rows",
                     f"dataset.{f} {what}", "undecided", "memoised function")
    for c in columns:
        v = R.item(g, g.value, c)
        blank = BLANK.get(c, NAN)
        if v is None:
            R.record("column exists", c, "refuted", "missing")
            continue
        for x in excs(v):
            fail = T.transform(v, lambda n: (TRUE if n is x else FALSE)
                               if n.op == "exc" else None)
            R.same("a failed row is blank",
                   f"dataset.{f} {c} {what}", fail, blank)
        R.same("a row marked bad is blank", f"dataset.{f} {c} {what}",
               T.under(v, T.as_bool(col("file_good")), False), blank)


@check("C11")
def isolation(R):
    def go(R, f, mode, extra):
        cols = BASE + ("file_good",) + extra
        kw = {"solve_mode": const(mode)}
        g = call(R, f, cols, kw)
        columns = REPORTED if f == "solve" else ("titrant_molinity_here",)
        rows_isolated(R, f, g, f"({mode})", columns)
        key = "titrant_molinity" if f == "solve" else "alkalinity_certified"
        for c in columns:
            R.same("a row without the value to work from is blank",
                   f"dataset.{f} {c} ({mode})",
                   T.under(R.item(g, g.value, c), T.isnull(R.col(key)),
                           True), BLANK.get(c, NAN))
    for f in ("solve", "calibrate"):
        for mode in MODES:
            R.job(f"{f} {mode}", go, f, mode, ())
            R.job(f"{f} {mode} blanks", go, f, mode,
                  ("titrant_amount_unit", "file_path"))
            R.job(f"{f} {mode} more blanks", go, f, mode,
                  ("gran_logic",) if mode == "emf" else
                  ("analyte_volume",))

    def verbose(R, f):
        g = call(R, f, BASE + ("file_good",), {"verbose": TRUE})
        rows_isolated(R, f, g, "(verbose)", ())
    for f in ("solve", "calibrate"):
        R.job(f"{f} verbose", verbose, f)

    def unknown_mode(R, f):
        g = call(R, f, BASE + ("file_good", "solve_mode"), {})
        rows_isolated(R, f, g, "(mode per row)", ())
    R.job("solve any mode", unknown_mode, "solve")

    def reader(R, f, t):
        g = call(R, f, BASE + ("file_good",), {
            "solve_mode": const("pH"), "file_type": const(t)})
        rows_isolated(R, f, g, f"({t} files)", ())
    for f in ("solve", "calibrate"):
        for t in ("pclims", "tiamo_de", "orgalk_excel", "nonsense"):
            R.job(f"{f} {t}", reader, f, t)


# ------------------------------------------------------------ C12
about("C12", "Each batch is calibrated by its own good references alone",
      "The term assigned to every row's titrant molinity must be the mean, "
      "over rows with the same batch, of the individually calibrated values "
      "that are good and not null, for batch and goodness columns present "
      "or absent; blank batches get no value.")


@check("C12")
def batches(R):
    def go(R, batch, good, mode):
        cols = BASE + (("analysis_batch",) if batch else ()) + (
            ("reference_good",) if good else ())
        kw = {"solve_mode": const(mode), "titrant_amount_unit": const("kg")}
        what = (f"({mode}; batch column {'present' if batch else 'absent'}, "
                f"goodness {'present' if good else 'absent'})")
        g = call(R, "calibrate", cols, kw)
        here = R.item(g, g.value, "titrant_molinity_here")
        w = R.run("dsspec.batch_molinity", R.table(
            cols, given={"titrant_molinity_here": here}))
        R.same("batch molinity is the mean of its good references",
               f"dataset.calibrate titrant_molinity {what}",
               R.item(g, g.value, "titrant_molinity"), w.snap())
        # rows are then solved with that value
        tab = R.table(cols, given={
            "titrant_molinity": R.item(g, g.value, "titrant_molinity")})
        s = R.run("calkulate.dataset.solve", tab, **kw)
        for c in ("alkalinity", "alkalinity_npts"):
            R.same("calibrated rows are solved with their batch's molinity",
                   f"dataset.calibrate {c} {what}",
                   no_exc(R.item(g, g.value, c)),
                   no_exc(R.item(s, s.value, c)))
    for batch in (True, False):
        for good in (True, False):
            for mode in ("pH", "emf") if R.tier == "quick" else MODES:
                R.job(f"batch={batch} good={good} {mode}", go, batch, good,
                      mode)

    def stats(R):
        t = R.table(("analysis_batch", "titrant_molinity_here",
                     "reference_good"))
        g = R.run("calkulate.dataset.get_batches", t)
        w = R.run("dsspec.batch_table", R.table((
            "analysis_batch", "titrant_molinity_here", "reference_good")))
        for c in ("titrant_molinity", "titrant_molinity__std",
                  "titrant_molinity__count"):
            R.same("batch statistics", f"dataset.get_batches {c}",
                   R.item(g, g.value, c), R.item(w, w.value, c))
    R.job("statistics", stats)


# ------------------------------------------------------------ C25
about("C25", "Result columns are complete, consistent and in stated units",
      "Every reported column's term in each mode is compared with the "
      "row-by-row description; the offset must be solved minus certified; "
      "the calibrate/solve/calkulate chain must compose.")


@check("C25")
def reported(R):
    kw0 = {"titrant_amount_unit": const("kg")}

    def go(R, mode):
        kw = dict(kw0, solve_mode=const(mode))
        both(R, "reported column", f"({mode})", BASE, kw, REPORTED)
        g = call(R, "solve", BASE, kw)
        a = R.item(g, g.value, "alkalinity")
        R.same("offset is solved minus certified",
               f"dataset.solve alkalinity_offset ({mode})",
               R.item(g, g.value, "alkalinity_offset"),
               T.sub(a, R.col("alkalinity_certified")))
        for c in BASE:
            R.same("given columns are kept", f"dataset.solve {c} ({mode})",
                   R.item(g, g.value, c), R.col(c))
    for mode in MODES:
        R.job(f"columns {mode}", go, mode)

    def volume(R, mode):
        kw = dict(kw0, solve_mode=const(mode))
        cols = tuple(c for c in BASE if c != "analyte_mass") + (
            "analyte_volume",)
        both(R, "reported column", f"({mode}, analyte by volume)", cols, kw,
             ("alkalinity",))
        both(R, "reported column", f"({mode}, file_good given)",
             BASE + ("file_good",), kw, REPORTED)
    for mode in ("emf",) if R.tier == "quick" else MODES:
        R.job(f"volume {mode}", volume, mode)

    def chain(R, mode):
        kw = dict(kw0, solve_mode=const(mode))
        a = call(R, "calibrate", BASE + ("analysis_batch",), kw)
        b = call(R, "calkulate", BASE + ("analysis_batch",), kw)
        for c in ("titrant_molinity", "titrant_molinity_here", "alkalinity",
                  "alkalinity_npts", "alkalinity_offset", "pH_init"):
            R.same("calkulate is calibrate then solve",
                   f"dataset.calkulate {c} ({mode})",
                   no_exc(R.item(b, b.value, c)),
                   no_exc(R.item(a, a.value, c)))
    for mode in ("pH", "emf"):
        R.job(f"chain {mode}", chain, mode)

    def same_object(R, f):
        ds = R.table(BASE)
        g = R.run("calkulate.dataset." + f, ds, **kw0)
        o = R.I.obj(g.value, g.st)
        R.true("results are added to the table that was given",
               f"dataset.{f}", g.value is ds or not isinstance(o, HTable),
               "returns another table")
    for f in ("solve", "calibrate", "calkulate"):
        R.job(f"object {f}", same_object, f)


# ------------------------------------------------------------ C26
about("C26", "Running the same step again gives the same results",
      "The table-level functions are analysed twice in sequence on one "
      "table; every result column's term after the second run must equal "
      "the one after the first.")


@check("C26")
def again(R):
    def go(R, f, mode, cols, kw, what):
        kw = dict(kw, solve_mode=const(mode),
                  titrant_amount_unit=const("kg"))
        ds = R.table(cols)
        fn = R.fn("calkulate.dataset." + f)
        g = R.I.analyse(fn, [ds], kw)
        h = R.I.analyse(fn, [ds], kw, g.st.fork())
        columns = REPORTED + (() if f == "solve" else (
            "titrant_molinity", "titrant_molinity_here"))
        for c in columns:
            R.same("second run equals first", f"dataset.{f} {c} {what}",
                   no_exc(R.item(h, ds, c)), no_exc(R.item(g, ds, c)))
    vol = tuple(c for c in BASE if c != "analyte_mass") + ("analyte_volume",)
    for f in ("solve", "calibrate", "calkulate"):
        for mode in MODES if f == "solve" else ("pH", "emf"):
            R.job(f"{f} {mode}", go, f, mode, BASE, {}, f"({mode})")
            if R.tier == "quick" and (f, mode) not in (
                    ("solve", "pH"), ("solve", "emf"), ("calibrate", "emf")):
                continue
            R.job(f"{f} {mode} volume", go, f, mode, vol,
                  {}, f"({mode}, analyte by volume)")
    for k in ("total_borate", "total_sulfate", "opt_total_borate", "dic",
              "temperature_override", "titrant_total_sulfate", "pH_min"):
        R.job(f"keyword {k}", go, "solve", "pH", BASE, {k: opt(k)},
              f"with {k}")
        R.job(f"column {k}", go, "solve", "pH", BASE + (k,), {},
              f"with column {k}")
        R.job(f"keyword {k} calibrate", go, "calibrate", "pH", BASE,
              {k: opt(k)}, f"with {k}")

    def changed(R, k, mode, cols=BASE, what="", f="solve", vals=None):
        """A second run with another setting forgets the first one's."""
        fn = R.fn("calkulate.dataset." + f)
        kw = {"solve_mode": const(mode), "titrant_amount_unit": const("kg")}
        one, two = vals or (S("first." + k), S("second." + k))
        ds = R.table(cols)
        g = R.I.analyse(fn, [ds], dict(kw, **{k: one}))
        h = R.I.analyse(fn, [ds], dict(kw, **{k: two}), g.st.fork())
        w = call(R, f, cols, dict(kw, **{k: two}))
        for c in ("alkalinity",) if f == "solve" else (
                "titrant_molinity_here", "titrant_molinity"):
            R.same("a later run uses its own settings",
                   f"dataset.{f} ({mode}) {c}: {k}{what}",
                   no_exc(R.item(h, ds, c)),
                   no_exc(R.item(w, w.value, c)))
    for f in ("solve", "calibrate"):
        R.job(f"changed unit {f}", changed, "titrant_amount_unit", "pH",
              BASE + ("titrant_amount_unit",), ", where the table has blanks",
              f, (const("g"), const("kg")))
        for k in ("pH_min", "dic", "file_path", "titrant_normality",
                  "molinity_HCl"):
            R.job(f"changed {k} {f} again", changed, k, "pH", BASE, "", f,
                  None if k != "file_path" else (const("a"), const("b")))

    def leftover(R, f, mode):
        """Whatever earlier runs left in result columns is not used."""
        kw = {"solve_mode": const(mode), "titrant_amount_unit": const("kg")}
        out = REPORTED + ("alkalinity_offset",)
        if f != "solve":
            out += ("titrant_molinity_here", "titrant_molinity")
        cols = tuple(c for c in BASE if f == "solve"
                     or c != "titrant_molinity")
        g = call(R, f, cols + out, kw)
        w = call(R, f, cols, kw)
        for c in out:
            R.same("earlier results are not used", f"dataset.{f} ({mode}) {c}",
                   no_exc(R.item(g, g.value, c)),
                   no_exc(R.item(w, w.value, c)))
    for f in ("solve", "calibrate", "calkulate"):
        for mode in ("pH", "emf", "pH_gran") if f == "solve" else ("pH",):
            R.job(f"leftover {f} {mode}", leftover, f, mode)

    def inputs(R, f, mode, cols, what):
        """What a run adds to the table and a later one reads is not an
        outcome of the run."""
        kw = {"solve_mode": const(mode), "titrant_amount_unit": const("kg")}
        g = call(R, f, cols, kw)
        if g.value is None:
            return
        read = set(ALL) | {"reference_good", "analysis_batch", "file_good",
                           "salinity", "file_name", "alkalinity_certified"}
        for c in sorted(read):
            v = R.item(g, g.value, c)
            if v is None or f != "solve" and c == "titrant_molinity":
                continue
            bad = [x for x in T.walk(v) if x.op == "exc" or x.op == "lsqx"
                   or x.op == "app" and x.args[0] in FILES]
            R.true("what later runs read is not an outcome of this one",
                   f"dataset.{f} ({mode}) column {c} {what}", not bad,
                   "the column depends on " + ", ".join(
                       sorted({T.show(x, 2)[:60] for x in bad})[:3]))
    for f in ("solve", "calibrate", "calkulate"):
        for mode in ("pH", "emf"):
            R.job(f"inputs {f} {mode}", inputs, f, mode, BASE, "")
            R.job(f"inputs {f} {mode} volume", inputs, f, mode, vol,
                  "analyte by volume")
    for k in list(NUTRIENTS) + list(CONSTANTS) + list(TITRANT) + [
            "pH_min", "pH_max", "titrant_normality", "opt_k_bisulfate",
            "temperature_override", "opt_k_carbonic"]:
        R.job(f"changed {k}", changed, k, "pH")
    for k in ("emf0_init", "alkalinity_init"):
        R.job(f"changed {k}", changed, k, "emf")
    for mode in ("pH", "emf", "pH_gran"):
        R.job(f"changed temperature by volume {mode}", changed,
              "temperature_override", mode, vol, ", analyte by volume")
        R.job(f"changed volume {mode}", changed, "analyte_volume", mode,
              tuple(c for c in BASE if c != "analyte_mass")
              + ("analyte_volume",), ", of rows without one")

    def modes(R, first, mode):
        """Nor does a run in another mode leave anything behind."""
        fn = R.fn("calkulate.dataset.solve")
        kw = {"titrant_amount_unit": const("kg")}
        ds = R.table(vol)
        g = R.I.analyse(fn, [ds], dict(kw, solve_mode=const(first)))
        h = R.I.analyse(fn, [ds], dict(kw, solve_mode=const(mode)),
                        g.st.fork())
        f = call(R, "solve", vol, dict(kw, solve_mode=const(mode)))
        for c in REPORTED:
            R.same("a later run uses its own mode",
                   f"dataset.solve {c} ({mode} after {first})",
                   no_exc(R.item(h, ds, c)), no_exc(R.item(f, f.value, c)))
    for first, mode in (("emf", "pH"), ("emf", "pH_gran"), ("pH", "emf"),
                        ("pH_gran", "pH"), ("pH", "pH_adjust")):
        R.job(f"{mode} after {first}", modes, first, mode)
