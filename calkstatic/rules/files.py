"""Reading and writing titration files."""
import re

from .common import *
from .registry import about, check

NAME = sym("file_name", "s", "nn", "str")
RT = "calkulate.read.titrations."
TEXT = {"str.splitlines", "str.split", "str.strip", "str.rstrip",
        "str.lstrip", "file.read", "file.readlines", "list.index",
        "str.replace", "pandas.read_csv", "pandas.read_table",
        "numpy.genfromtxt", "numpy.loadtxt", "pandas.read_excel",
        "numpy.fromstring", "csv.reader", "str.partition", "re.split",
        "str.rsplit", "builtins.open"}


def vocab(t):
    return {x.args[0] for x in T.walk(t) if x.op == "app"
            and x.args[0] in TEXT}


def lists(t):
    """Lists with conditional items, as a choice between plain lists."""
    def f(x):
        if x.op != "listsnap" or all(c is TRUE for c, _ in x.args[0]):
            return None

        def tree(items, done):
            if not items:
                return mk("listsnap", tuple((TRUE, v) for v in done))
            (c, v), rest = items[0], items[1:]
            a = tree(rest, done + (v,))
            return a if c is TRUE else phi(c, a, tree(rest, done))
        return tree(x.args[0], ()) if len(x.args[0]) <= 7 else None
    return None if t is None else T.transform(t, f)


def blank_lines(*terms):
    """A data line is not blank and a blank line may be any other line: the
    two conditions are not independent."""
    match = {}
    for t in terms:
        for x in T.walk(t):
            if x.op == "truth" and x.args[0].op == "app" and \
                    x.args[0].args[0] in ("re.match", "re.fullmatch"):
                match.setdefault(x.args[0].args[1][-1], x)

    def f(x):
        if x.op == "truth":
            y = x.args[0]
            if y in match:
                return T.or_(match[y], sym(f"text {y.id}", "s", "bool"),
                             sym(f"blank {y.id}", "s", "bool"))
            if y.op == "app" and y.args[0] in (
                    "str.strip", "str.rstrip", "str.lstrip") and \
                    len(y.args[1]) == 1 and y.args[1][0] in match:
                y = y.args[1][0]
                return T.or_(match[y], sym(f"text {y.id}", "s", "bool"))
        if x.op == "eq" and const("") in x.args:
            y = x.args[0] if x.args[1] is const("") else x.args[1]
            if y in match:
                return T.not_(f(mk("truth", y)))
        return None
    return [T.transform(t, f) for t in terms] if match else terms


FIELDS_TRIED = ("", "1", "1.5", ".", "12.25", "-1", "a", " ", "1 ", "1e5")


def patterns(t):
    return {x.args[1][0] for x in T.walk(t) if x.op == "app"
            and x.args[0] == "re.compile" and len(x.args[1]) == 1}


def other_pattern(got, want):
    """Is some pattern of the code written differently from the required one
    without being known to accept other lines?"""
    pg, pw = patterns(got), patterns(want)
    if pg == pw or len(pw) != 1:
        return False
    w = next(iter(pw))
    for g in pg - pw:
        if g.op != "const" or w.op != "const":
            return True
        try:
            a, b = re.compile(g.args[1]), re.compile(w.args[1])
        except re.error:
            return False
        lines = ["\t".join(fs[:k]) + tail
                 for k in range(1, 9)
                 for x in FIELDS_TRIED for y in FIELDS_TRIED
                 for fs in ([x] * 8, [x] + [y] * 7, [x] * (k - 1) + [y],
                            [x, y] * 4)
                 for tail in ("", "\t", " ")]
        if all(bool(a.match(s)) == bool(b.match(s)) for s in lines):
            return True
    return False


def same_text(R, rule, construct, got, want):
    """As R.same, but other ways to cut up the same text are not judged."""
    got, want = lists(got), lists(want)
    if got is not None and want is not None:
        got, want = blank_lines(got, want)
    if got is not None and T.compare(got, want) != "eq" and \
            (vocab(got) != vocab(want) or other_pattern(got, want)):
        return R.record(rule, construct, "undecided",
                        "the file is cut up by other means")
    return R.same(rule, construct, got, want)


def field(R, res, i):
    v = res.value
    if v is None:
        return None
    return R.item(res, v, i)


FIELDS = ("titrant amount", "measurement", "temperature")

# ------------------------------------------------------------ C15
about("C15", "Readers return the recorded columns of the file they are given",
      "Each reader's three fields, as terms over the file's text and the "
      "reader's settings, are compared with an independent description of "
      "the format; for the line-by-line format the file has N symbolic "
      "lines, each of which may or may not be a data line.",
      ["Line-by-line format: files of up to N lines (quick 4, thorough 6)."])


@check("C15")
def readers(R):
    def gen(R, given, via):
        kw = {}
        if given:
            kw = {k: S("opt." + k) for k in (
                "col_titrant_amount", "col_measurement", "col_temperature",
                "skip_header")}
            kw["delimiter"] = sym("opt.delimiter", "s", "nn", "str")
        w = R.run("readspec.genfromtxt", NAME, **kw)
        if via == "default":
            g = R.run(RT + "read_dat", NAME, **kw)
        elif via == "direct":
            g = R.run(RT + "read_dat_genfromtxt", NAME, **kw)
        else:
            g = R.run(RT + "read_dat", NAME, file_type=const(via), **kw)
        for i, f in enumerate(FIELDS):
            same_text(R, "column mapping",
                      f"read_dat ({via}{', with settings' if given else ''}) "
                      + f, field(R, g, i), field(R, w, i))
    for given in (False, True):
        for via in ("direct", "default", "genfromtxt", "vindta",
                    "some other type"):
            R.job(f"genfromtxt {via} {given}", gen, given, via)

    def named(R):
        g = R.run(RT + "read_dat", NAME)
        for i, a in enumerate(("titrant_amount", "measurement",
                               "temperature")):
            R.same("fields by name", f"read_dat {a}", R.attr(g, a),
                   field(R, g, i))
    R.job("field names", named)

    def tiamo(R, kw):
        w = R.run("readspec.tiamo_de", NAME, **kw)
        g = R.run(RT + "read_dat", NAME, file_type=const("tiamo_de"), **kw)
        for i, f in enumerate(FIELDS):
            same_text(R, "column mapping", f"read_dat (tiamo_de) {f}",
                      field(R, g, i), field(R, w, i))
    R.job("tiamo", tiamo, {})
    R.job("tiamo encoding", tiamo,
          {"encoding": sym("opt.encoding", "s", "nn", "str")})

    def excel(R):
        w = R.run("readspec.orgalk_excel", NAME)
        g = R.run(RT + "read_dat", NAME, file_type=const("orgalk_excel"))
        for i, f in enumerate(("acid", "base", "emf", "temperature")):
            same_text(R, "column mapping", f"read_dat (orgalk_excel) {f}",
                      field(R, g, i), field(R, w, i))
    R.job("orgalk_excel", excel)

    def pclims(R, n, kw, what):
        T.FINITE = n
        w = R.run("readspec.pclims", NAME, **kw)
        g = R.run(RT + "read_dat", NAME, file_type=const("pclims"), **kw)
        for i, f in enumerate(FIELDS):
            same_text(R, "column mapping",
                      f"read_dat (pclims{what}), {n} lines, {f}",
                      field(R, g, i), field(R, w, i))
    cols = {k: S("opt." + k) for k in (
        "col_titrant_amount", "col_measurement", "col_temperature")}
    for n in (1, 2, 3, 4) + ((5, 6) if R.tier == "thorough" else ()):
        R.job(f"pclims {n}", pclims, n, {}, "")
    R.job("pclims columns", pclims, 3, cols, " with columns")
    R.job("pclims n_cols", pclims, 3, {"n_cols": num(4)}, " of 4 columns")


# ------------------------------------------------------------ C16
about("C16", "Exported titrations overwrite nothing and read back in place",
      "The files write_dat opens (and their mode) and the concatenation of "
      "everything it writes, as terms over the data of an N-step titration, "
      "are compared with the layout that the default reader expects.",
      ["Titrations of N steps (quick 1 to 3, thorough 1 to 6)."])
ARR = ("titrant_amount", "measurement", "temperature")


@check("C16")
def writer(R):
    def opens(R, mode):
        kw = {} if mode is None else {"mode": mode}
        g = R.run(RT + "write_dat", NAME, *[A(x) for x in ARR], **kw)
        es = g.of("open")
        if not es:
            R.record("file is opened for exclusive creation", "write_dat",
                     "undecided", "the file is not written through open()")
        for e in es:
            f, m = e.data[:2]
            R.same("the named file is the one written", "write_dat", f, NAME)
            if any(x[0] == "FileExistsError" for x in g.raises):
                R.record("existing files are never overwritten",
                         "write_dat", "undecided",
                         "the existence check is made by other means")
                continue
            R.same("existing files are never overwritten by default"
                   if mode is None else "the caller's mode is used",
                   "write_dat", m, mode if mode is not None else const("x"))
    R.job("mode", opens, None)
    R.job("given mode", opens, sym("opt.mode", "s", "nn", "str"))

    def layout(R, n, kw, what):
        T.FINITE = n
        args = [A(x) for x in ARR]
        g = R.run(RT + "write_dat", NAME, *args, **kw)
        w = R.run("readspec.text", *args, **kw).snap()
        out = const("")
        for e in g.effects:
            if e.kind == "print" and len(e.data) and \
                    any(x.op == "app" and x.args[0] == "builtins.open"
                        for d in e.data for x in T.walk(d)):
                out = None
            if e.kind != "write":
                continue
            if len(e.data[1]) != 1 or out is None:
                out = None
                break
            more = interp.concat_parts([out, e.data[1][0]])
            out = phi(e.cond, more, out) if e.pc else more
        if out is None or out is const(""):
            R.record("layout", f"write_dat {what} {n} steps", "undecided",
                     "text is not written unconditionally, in one place")
            return
        R.same("layout", f"write_dat {what} {n} steps", out, w)
    fmts = {k: sym("opt." + k, "s", "nn", "str") for k in (
        "titrant_amount_fmt", "measurement_fmt", "temperature_fmt")}
    lines = {k: sym("opt." + k, "s", "nn", "str")
             for k in ("line0", "line1")}
    for n in (1, 2, 3) + ((4, 5, 6) if R.tier == "thorough" else ()):
        R.job(f"layout {n}", layout, n, {}, "default")
    R.job("layout formats", layout, 2, fmts, "with formats")
    R.job("layout headers", layout, 2, lines, "with header lines")
