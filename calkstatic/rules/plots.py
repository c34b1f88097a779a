"""Figures."""
from ..interp import HDict, HTable
from .common import *
from .effects import clean
from .registry import about, check
from .titration import IDX, KG, ROW

about("C19", "Figures show the titration's own data and change nothing",
      "Calls of the drawing methods (with the terms of their data arguments "
      "and their path conditions) are matched one to one with those of an "
      "independent description of each figure; stores into the Titration or "
      "table are reported.",
      ["The style of lines and markers, apart from filled or hollow, and the "
       "text of labels are not checked."])
AX = sym("ax", "s", "nn", "rec")
DATA = {"scatter": 2, "plot": 2, "axhline": 1, "axvline": 1}
OTHER = {"errorbar", "step", "bar", "hlines", "vlines", "stem", "imshow",
         "fill", "hist", "loglog", "semilogx", "semilogy", "add_patch",
         "add_collection", "add_line", "axline"}


def draws(res):
    out, other = [], False
    for e in res.of("draw"):
        obj, name, args, kw = e.data
        cond = no_exc(e.cond)
        if cond is FALSE or obj != "ax":
            continue
        other |= name in OTHER
        if name not in DATA:
            continue
        names = ("x", "y") if DATA[name] == 2 else (
            ("y",) if name == "axhline" else ("x",))
        kw = dict(kw)
        data = list(args[:len(names)])
        for n in names[len(data):]:
            data.append(kw.get(n, NONE))
        if name == "scatter":
            c = kw.get("c", kw.get("color", kw.get("facecolor", kw.get(
                "facecolors", NONE))))
            data.append(T.mk("truth", c) if c.op in T.UNKNOWN_OPS else
                        const(bool(c.op == "const" and
                                   c.args[1] == "none")))
        t = no_exc(mk("tuple", (const(name),) + tuple(data)))
        out.append((name, cond, t if cond is TRUE
                    else mk("phi", cond, t, NONE)))
    return out, other


def match(R, what, g, w, skip=()):
    rule = "the series drawn are those of the titration"
    if g.value is None and raised(g) is TRUE:
        return R.record(rule, what, "refuted", "always raises")
    got, other = draws(g)
    want, _ = draws(w)
    left = [d for d in got if d[0] not in skip]
    missing, unsure = [], other
    for name, _, t in want:
        hit = None
        for d in left:
            if d[0] != name:
                continue
            c = T.compare(d[2], t, 6000)
            if c == "eq":
                hit = d
                break
            unsure |= c != "ne"
        if hit is None:
            missing.append((name, t))
        else:
            left.remove(hit)
    extra = [d for d in left if d[0] in ("scatter", "plot")
             or missing and d[0] == missing[0][0]]
    if not missing and not extra:
        return R.record(rule, what, "proved")
    txt = "; ".join(f"no {n} of {T.show(t, 5)[:120]}" for n, t in missing) \
        + "; ".join(f"also {d[0]} of {T.show(d[2], 5)[:120]}" for d in extra)
    R.record(rule, what, "undecided" if unsure else "refuted",
             txt[:500] + (" (" + why(*[d[2] for d in got]) + ")"
                          if unsure else ""))


def band(R, what, r, want):
    """The shaded pH window is the one that was used."""
    rule = "the window shown is the one used"
    got, other = [], False
    for e in r.of("draw"):
        obj, name, args, kw = e.data
        if obj != "ax" or no_exc(e.cond) is FALSE:
            continue
        other |= name in ("axhspan", "fill", "add_patch", "fill_betweenx",
                          "axhline", "hlines")
        if name == "fill_between":
            kw = dict(kw)
            got.append([args[i] if len(args) > i else kw.get(k, NONE)
                        for i, k in ((1, "y1"), (2, "y2"))])
    if len(got) != 1:
        return R.record(rule, what, "refuted" if not got and not other else
                        "undecided", "no band" if not got else "two bands")
    for x, y, k in zip(got[0], want, ("pH_min", "pH_max")):
        R.same(rule, f"{what} {k}", no_exc(x), y)


FIGURES = (("emf", "emf", {}, "emf"), ("pH", "emf", {}, "pH"),
           ("pH", "emf", {"show_gran": FALSE}, "pH_final"),
           ("pH", "pH", {"show_gran": FALSE}, "pH_final"),
           ("pH", "pH", {}, "pH_final"), ("pH", "pH_adjust", {}, "pH"),
           ("gran_emf0", "emf", {}, "gran_emf0"),
           ("gran_alkalinity", "emf", {}, "gran_alkalinity"),
           ("gran_alkalinity", "pH_gran", {}, "gran_alkalinity_pH"),
           ("alkalinity", "emf", {}, "alkalinity"),
           ("alkalinity", "pH", {}, "alkalinity"),
           ("alkalinity", "pH_gran", {}, "alkalinity"),
           ("components", "emf", {}, "components"),
           ("components", "pH", {}, "components"),
           ("components", "emf", {"log_scale": FALSE}, "components_linear"))


@check("C19")
def titrations(R):
    def go(R, f, mode, kw, s, win=()):
        g = R.run("calkulate.classes.to_Titration", R.table(ROW), IDX,
                  **dict(KG, solve_mode=const(mode),
                         **{k: S("opt." + k) for k in win}))
        st = g.st.fork()
        st.pc, st.facts = (), {}
        # any titration: each column and each attribute is a symbol; the
        # figure must leave the object and its table alone
        for what, attr in (("t", "titration"), ("row", "row")):
            v = R.get(g, g.value, attr)
            o = R.I.obj(v, st)
            if o is None:
                return R.record("the series drawn are those of the "
                                "titration", f, "undecided", attr)
            d = o.cols if isinstance(o, HTable) else o.items
            flag = A if attr == "titration" else S
            d = {k: (TRUE, flag(f"{what}.{k.args[1]}")) for k in d}
            n = HTable(d, index=getattr(o, "index", None)) if isinstance(
                o, HTable) else HDict(d, kind=o.kind)
            n.owner = "caller:" + attr
            st.heap[v.args[0]] = n
        R.I.obj(g.value, st).owner = "caller:Titration"
        fn = R.fn("calkulate.plot.titration." + f)
        spec = R.fn("plotspec." + s)
        what = f"plot.titration.{f} ({mode}" + "".join(
            f", {k}={T.show(v)}" for k, v in kw.items()) + ")"
        w = R.I.analyse(spec, [g.value, AX], {}, st.fork())
        for how, args in (("", [g.value, AX]), (" new figure", [g.value])):
            r = R.I.analyse(fn, args, kw, st.fork())
            match(R, what + how, r, w)
            clean(R, "figures change nothing", what + how, r)
            if f == "pH":
                band(R, what + how, r, [S("row." + k) if k in win else d
                                        for k, d in (("pH_min", num(3)),
                                                     ("pH_max", num(4)))])
    for f, mode, kw, s in FIGURES:
        R.job(f"{f} {mode} {s}", go, f, mode, kw, s)
    for win in (("pH_min",), ("pH_max",), ("pH_min", "pH_max")):
        R.job("pH window " + " ".join(win), go, "pH", "pH", {}, "pH_final",
              win)


def batch_lines(R, what, g, w):
    """One line per batch: that batch's own rows, for any batch."""
    rule = "each batch's line is drawn through its own rows"
    got, other = draws(g)
    got = [d for d in got if d[0] == "plot"]
    if len(got) != 1 or other:
        return R.record(rule, what, "undecided" if got or other else
                        "refuted", f"{len(got)} lines drawn")
    t = got[0][2]
    if t.op == "phi":
        t = t.args[1]
    batch = S("batch")
    elems = {x for x in T.walk(t) if x.op == "elem"}
    if len(elems) != 1:
        return R.record(rule, what, "undecided", "no single batch key")
    t = T.transform(t, lambda x: batch if x.op == "elem" else None)
    want = [d for d in draws(w)[0] if d[0] == "plot"][0][2]
    R.same(rule, what, t, want)


@check("C19")
def datasets(R):
    cols = ("titrant_molinity_here", "titrant_molinity", "analysis_batch",
            "alkalinity_offset", "when")

    def go(R, f, x, good):
        c = cols + (("reference_good",) if good else ())
        w = R.run("plotspec." + f, R.table(c), x, AX)
        for batches in (FALSE, TRUE) if good else (FALSE,):
            g = R.run("calkulate.plot." + f, R.table(c), xvar=x,
                      show_batches=batches)
            what = f"plot.{f} ({'reference_good' if good else 'all good'}, " \
                + ("by analysis" if x is NONE else "by column") + (
                    ", batches)" if batches is TRUE else ")")
            match(R, what, g, w, ("plot",) if batches is TRUE else ())
            clean(R, "figures change nothing", what, g)
            if batches is TRUE and f == "titrant_molinity":
                batch_lines(R, what, g, R.run(
                    "plotspec.batch_line", R.table(c), x, S("batch"), AX))
    for f in ("titrant_molinity", "alkalinity_offset"):
        for x in (NONE, const("when")):
            for good in (True, False):
                R.job(f"{f} {T.show(x)} {good}", go, f, x, good)
