"""A single titration as an object, and the plots made from it."""
from .common import *
from .pipeline import ALL, MODES, opt
from .registry import about, check

about("C18", "A Titration agrees with solving its row of the table",
      "Every attribute and every column of the titration table of a "
      "Titration, as terms over the row's cells and the keywords, are "
      "compared with an independent description, for every setting given in "
      "the row, as a keyword or both.")
ROW = ("file_name", "salinity", "titrant_molinity", "analyte_mass", "dic")
IDX = sym("index", "s", "nn")
KG = {"titrant_amount_unit": const("kg")}
OUT = {"emf": ("alkalinity", "alkalinity_npts", "alkalinity_std", "emf0",
               "gran_alkalinity", "gran_emf0"),
       "pH": ("alkalinity", "alkalinity_npts", "alkalinity_std"),
       "pH_gran": ("alkalinity", "alkalinity_npts")}
OUT["pH_adjust"] = OUT["emf"]
OUT = {k: v + ("pH_init", "temperature_init", "analyte_mass", "salinity",
               "titrant_molinity", "titrant_normality")
       for k, v in OUT.items()}




def compare(R, rule, what, cols, given, kw, mode, columns=None, via="to"):
    """kw: keywords; given: columns of known content."""
    ds = R.table(cols, given=given)
    if via == "to":
        g = R.run("calkulate.classes.to_Titration", ds, IDX, **kw)
    elif via == "method":
        g = R.run("calkulate.classes.Dataset.to_Titration", ds, IDX, **kw)
    else:
        g = None
    w = R.run("dsspec.titration_at", R.table(cols, given=given), IDX,
              R.dict(kw))
    if w.value is None:
        return R.record(rule, f"Titration {what}", "undecided", "no value")
    wo = w.I.getitem(w.value, num(0), w.st)
    wt = w.I.getitem(w.value, num(1), w.st)
    if g.value is None:
        return R.record(rule, f"Titration {what}", "refuted",
                        "always raises: " + "; ".join(
                            str(x[0]) for x in g.raises[:3]))
    # the analyte's amount is given (else there is nothing to compare)
    amount = [mk("cell", mk("rowof", const("ds"), IDX), const(k))
              for k in cols if k in ("analyte_mass", "analyte_volume")
              and k not in kw]
    amount += [kw[k] for k in ("analyte_mass", "analyte_volume") if k in kw]
    amount = [mk("isnull", x) for x in amount]

    def same(rule, what, got, want):
        got, want = (
            None if t is None else T.transform(
                t, lambda x: FALSE if x in amount else None)
            for t in (got, want))
        return R.same(rule, what, got, want)
    for k in OUT[mode] if columns is None else ("alkalinity",
                                                "analyte_mass"):
        want = R.item(w, wo, k)
        same(rule, f"Titration.{k} {what}", R.attr(g, k), want)
        if columns is None:
            same(rule, f"Titration[{k!r}] {what}",
                   R.item(g, g.value, k) if k != "titrant_normality"
                   else want, want)
    gt = R.get(g, g.value, "titration")
    for c, k in w.I.elements(wt, w.st):
        name = k.args[1]
        if columns is not None and name not in columns:
            continue
        same(rule, f"Titration.titration[{name!r}] {what}",
               R.item(g, gt, k), R.item(w, wt, k))


@check("C18")
def titration(R):
    for mode in MODES:
        for via in ("to", "method"):
            R.job(f"whole {mode} {via}", compare, "titration",
                  f"({mode})" + (" (method)" if via == "method" else ""),
                  ROW, dict(KG, solve_mode=const(mode)), {}, mode, None, via)
        R.job(f"whole {mode} as keyword", compare, "titration",
              f"({mode} as keyword)", ROW, KG, {"solve_mode": const(mode)},
              mode)
        R.job(f"contents {mode}", compare, "titration",
              f"({mode}) with contents", ROW + (
                  "total_silicate", "total_phosphate", "total_alpha",
                  "k_alpha", "total_sulfate", "k_borate",
                  "titrant_normality") + (("titrant_total_sulfate",)
                                          if mode[0] == "p" and
                                          mode != "pH_adjust" else ()),
              dict(KG, solve_mode=const(mode)), {}, mode)
    some = ("alkalinity_from_acid", "alkalinity_estimate",
            "alkalinity_from_pH", "HSO4", "total_silicate", "used",
            "titrant_mass", "temperature")

    fixed = {"titrant_amount_unit": ("g", "ml"), "gran_logic": (
        "legacy", "v23.7+"), "titrant": ("H2SO4", "HCl")}

    def one(R, k, mode):
        for way in ("row", "keyword", "both"):
            cols = list(ROW)
            given = {"solve_mode": const(mode)}
            if k not in ("titrant_amount_unit", "titrant"):
                given.update(KG)
            kw = {}
            if way != "row":
                kw[k] = const(fixed[k][0]) if k in fixed else opt(k)
            if way != "keyword" and k not in cols:
                if k in fixed:
                    given[k] = const(fixed[k][0 if way == "row" else 1])
                else:
                    cols.append(k)
            if k == "analyte_mass" and way == "keyword":
                cols.remove(k)
            if k == "analyte_volume":
                cols.remove("analyte_mass")
            compare(R, "settings of a titration", f"({mode}) {k} in {way}",
                    cols, given, kw, mode, some)
    for k in ALL:
        for mode in MODES if R.tier == "thorough" else (
                ("pH", "emf") if k in ("titrant_normality", "pH_min",
                                       "titrant_total_sulfate") else
                ("emf",) if k in ("emf0_init", "double", "gran_logic",
                                  "alkalinity_init") else ("pH",)):
            R.job(f"{k} {mode}", one, k, mode)

    def volume(R, mode, way):
        """A table that was prepared from volumes has blank masses."""
        cols = [c for c in ROW if c != "analyte_mass"]
        given = dict(KG, solve_mode=const(mode), analyte_mass=T.NAN)
        kw = {}
        if way == "keyword":
            kw["analyte_volume"] = opt("analyte_volume")
        else:
            cols.append("analyte_volume")
        compare(R, "titration", f"({mode}) with a blank mass, volume as {way}",
                cols, given, kw, mode, some + ("dilution_factor",))
    for mode in ("pH", "emf"):
        for way in ("row", "keyword"):
            R.job(f"volume {mode} {way}", volume, mode, way)

    def names(R, k):
        compare(R, "settings of a titration", f"{k} as keyword", ROW,
                dict(KG, solve_mode=const("pH")),
                {k: sym("kw." + k, "s", "nn", *(
                    ("str",) if k == "file_name" else ()))}, "pH", some)
    for k in ("file_name", "salinity", "titrant_molinity", "analyte_mass"):
        R.job(f"keyword {k}", names, k)

    def old(R):
        lo, hi = S("lo"), S("hi")
        for kw, eq in (({"pH_range": mk("tuple", (lo, hi))},
                        {"pH_min": lo, "pH_max": hi}),
                       ({"read_dat_kwargs": R.dict(
                           {"delimiter": opt("delimiter")})},
                        {"delimiter": opt("delimiter")})):
            g = R.run("calkulate.classes.to_Titration",
                      R.table(ROW, given=dict(KG, solve_mode=const("pH"))),
                      IDX, **kw)
            w = R.run("dsspec.titration_at", R.table(ROW, given=dict(
                KG, solve_mode=const("pH"))), IDX, R.dict(eq))
            got, want = R.attr(g, "alkalinity"), R.item(
                w, w.I.getitem(w.value, num(0), w.st), "alkalinity")
            blank = mk("isnull", mk("cell", mk("rowof", const("ds"), IDX),
                                    const("analyte_mass")))
            R.same("old-style settings", f"Titration {list(kw)[0]}",
                   *(T.transform(t, lambda x: FALSE if x is blank else None)
                     for t in (got, want)))
    R.job("old-style", old)

    def printed(R, path):
        given = dict(KG, solve_mode=const("pH"))
        cols = ROW + (("file_path",) if path else ())
        g = R.run("calkulate.classes.to_Titration",
                  R.table(cols, given=given), IDX)
        if g.value is None:
            return
        I = R.I
        for f in ("__str__", "__repr__"):
            m = R.get(g, g.value, f)
            what = f"Titration.{f} with{'' if path else 'out'} file_path"
            if m is None or m.op != "bound":
                R.record("a titration can be printed", what, "undecided",
                         "not a method")
                continue
            r = I.analyse(m, (), {}, st=g.st)
            if r.value is None:
                R.record("a titration can be printed", what, "refuted",
                         "always raises")
                continue
            name = mk("cell", mk("rowof", const("ds"), IDX),
                      const("file_name"))
            R.record("a titration can be printed", what, "proved"
                     if name in set(T.walk(r.snap())) else "refuted",
                     "does not name the file")
    for path in (False, True):
        R.job(f"printed {path}", printed, path)
