"""Metadata tables: VINDTA databases and the pandas readers."""
from .common import *
from .registry import about, check

about("C23", "VINDTA databases and metadata tables are imported row by row",
      "Every column of the imported table, as a term over the file's own "
      "columns for a generic row, is compared with an independent "
      "description of the database format.",
      ["The database has the headers that VINDTA software writes."])
RM = "calkulate.read.metadata."
FILE = sym("fname", "s", "nn", "str")
HEADERS = ("run type", "bottle", "station", "cast", "niskin", "depth",
           "batch", "cert. CRM AT", "date", "time", "salinity")
STYLE = "{s}-{c}  {n}  ({d}){b}.dat"
READ = ("pandas.read_table", "pandas.read_csv")


def norm(t, blank=False):
    """Generic-row form, with the standard headers present and filled in
    (or, with blank=True, without a date)."""
    if t is None:
        return None

    def f(x):
        if x.op == "exc":
            return TRUE if blank else FALSE
        if x.op == "app" and x.args[0] in READ:
            return const("dbs")
        return None

    def h(x):
        if x.op == "hascol" and x.args[0] is const("dbs") and \
                x.args[1].op == "const":
            return TRUE if x.args[1].args[1] in HEADERS else (
                FALSE if x.args[1].args[1] == "run_type" else None)
        if x.op == "cell" and x.args[0].op != "rowof":
            return mk("col", *x.args)
        return None
    date = mk("col", const("dbs"), const("date"))

    def b(x):
        if x.op == "isnull" and x.args[0] is date:
            return TRUE if blank else FALSE
        if x.op == "app" and x.args[0] in ("isinstance",
                                           "builtins.isinstance") \
                and date in x.args[1]:
            return FALSE if blank else TRUE
        if x.op == "isinstance" and date in x.args:
            return FALSE if blank else TRUE
        return None
    return T.transform(T.transform(T.transform(t, f), h), b)


def reading(t):
    return {x for x in T.walk(t) if x.op == "app" and x.args[0] in READ}


@check("C23")
def dbs(R):
    def one(R, kw, style, what):
        g = R.run(RM + "read_dbs", FILE, **kw)
        w = R.run("dbsspec.dbs", FILE, const(style))
        if g.value is None:
            return R.record("import", f"read_dbs {what}", "refuted",
                            "always raises")
        for c, k in w.I.elements(w.value, w.st):
            R.same("imported column", f"read_dbs {k.args[1]} {what}",
                   norm(R.item(g, g.value, k)), norm(R.item(w, w.value, k)))
        stop = [e for e in g.of("rowbreak") if e.cond is not FALSE]
        R.record("every row is read", f"read_dbs {what}",
                 "refuted" if stop else "proved",
                 f"a loop over the rows stops early: {stop[0].where}"
                 if stop else "")
        kind = mk("col", const("dbs"), const("run type"))
        v = norm(R.item(g, g.value, "alkalinity_certified"))
        R.same("certified values of reference materials", f"read_dbs {what}",
               v if v is None else T.transform(
                   v, lambda x: const("CRM") if x is kind else None),
               mk("col", const("dbs"), const("cert. CRM AT")))
        want = {"analyte_volume": kw.get("analyte_volume", num(100))} \
            if "analyte_mass" not in kw else {
                "analyte_mass": kw["analyte_mass"]}
        if "file_path" in kw:
            want["file_path"] = kw["file_path"]
        for k, v in want.items():
            R.same("settings of the import", f"read_dbs {k} {what}",
                   norm(R.item(g, g.value, k)), v)
        return g, w

    def plain(R):
        g, w = one(R, {}, STYLE, "") or (None, None)
        if g is None:
            return
        a = reading(R.item(g, g.value, "salinity"))
        b = reading(R.item(w, w.value, "salinity"))
        if len(a) == 1 and {k for k, _ in list(a)[0].args[2]} == \
                {k for k, _ in list(b)[0].args[2]}:
            R.same("table is read from the named file", "read_dbs",
                   a.pop(), b.pop())
        else:
            R.record("table is read from the named file", "read_dbs",
                     "undecided", "the file is read by other means")
        # blank dates
        v = R.item(g, g.value, "analysis_datetime")
        kinds = {n for x in excs(v) for n in names(x)}
        if kinds:
            R.record("a row without a date has no date", "read_dbs",
                     "proved" if kinds & {"AttributeError", "Exception",
                                          "BaseException"} else
                     "refuted", "caught: " + ", ".join(sorted(kinds)))
        elif norm(v) is norm(v, True):
            return R.record("a row without a date has no date", "read_dbs",
                            "undecided", "")
        R.same("a row without a date has no date", "read_dbs value",
               norm(v, True),
               R.run("dbsspec.no_date").snap())
    R.job("defaults", plain)
    vol, mass = S("volume"), S("mass")
    path = sym("path", "s", "nn", "str")
    R.job("volume", one, {"analyte_volume": vol}, STYLE, "with volume")
    R.job("mass", one, {"analyte_mass": mass}, STYLE, "with mass")
    R.job("both", one, {"analyte_mass": mass, "analyte_volume": vol}, STYLE,
          "with mass and volume")
    R.job("path", one, {"file_path": path}, STYLE, "with path")
    for s in ("{s}_{c}_{n}_{d}_{b}.txt", "x{b}-{d}.dat"):
        R.job("format " + s, one, {"filename_format": const(s)}, s,
              "with format")


def names(x):
    d = x.args
    while len(d) == 1 and isinstance(d[0], tuple):
        d = d[0]
    if d and d[0] == "is":
        return [str(n.args[1] if isinstance(n, T.Node) else n)
                for n in d[1]]
    return []


@check("C23")
def readers(R):
    def one(R, f, kw):
        args = () if f == "read_clipboard" else (FILE,)
        g = R.run(RM + f, *args, **kw)
        w = R.run("dbsspec." + f, *args, **kw)
        if g.value is None:
            return R.record("metadata reader", f, "refuted", "always raises")
        for c in ("salinity", "file_name"):
            R.same("metadata reader", f"{f} {c}", R.item(g, g.value, c),
                   R.item(w, w.value, c))
    for f in ("read_csv", "read_excel", "read_fwf", "read_table",
              "read_clipboard"):
        R.job(f, one, f, {})
        R.job(f + " with settings", one, f, {
            "skiprows": S("skiprows"), "na_values": S("na_values")})
