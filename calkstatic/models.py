"""Summaries of the library functions the repository uses.

Each summary states the value (as a term) and the effects of a numpy, pandas,
scipy, PyCO2SYS, matplotlib or builtin operation.  An operation without a
summary becomes an uninterpreted application: two identical applications are
equal, but a term containing one is never used to *refute* a property.
"""

import ast

from . import terms as T
from .terms import (FALSE, NAN, NONE, ONE, TRUE, ZERO, Node, and_, app,
                    as_bool, const, mk, not_, num, or_, phi)

K = T.KNOWN_APPS
K |= {
    "numpy.mean", "numpy.std", "numpy.max", "numpy.min", "numpy.sum",
    "numpy.size", "len", "fill", "numpy.abs", "numpy.round", "numpy.floor",
    "numpy.ceil", "numpy.clip", "numpy.maximum", "numpy.minimum",
    "numpy.sort", "numpy.cumsum", "numpy.diff", "numpy.median",
    "numpy.nanmean", "numpy.nanmax", "numpy.nanstd", "numpy.argmax",
    "numpy.arange", "numpy.nonzero", "numpy.concatenate", "numpy.any",
    "numpy.all", "numpy.flip", "numpy.nanmedian", "numpy.nansum",
    "numpy.prod", "numpy.trunc", "numpy.sign", "numpy.isscalar",
    "numpy.average", "numpy.interp", "numpy.gradient", "numpy.roll",
    "numpy.float32", "numpy.int64", "numpy.var", "numpy.percentile",
    "numpy.quantile", "numpy.nan_to_num", "numpy.nanmin",
    "numpy.nanmedian", "numpy.nansum", "numpy.nanvar",
    "scipy.stats.linregress", "scipy.interpolate.pchip_interpolate",
    "PyCO2SYS.sys", "PyCO2SYS.salts.assemble", "PyCO2SYS.equilibria.assemble",
    "numpy.genfromtxt", "numpy.array", "pandas.read_csv", "pandas.read_table",
    "pandas.read_excel", "pandas.read_fwf", "pandas.read_clipboard",
    "os.path.join", "os.path.exists", "os.path.isfile", "os.path.isabs",
    "os.path.isdir", "concat", "format", "str.lower", "str.upper",
    "str.format", "str.split", "str.startswith", "str.strip", "str.replace",
    "str.endswith", "str.join", "str.splitlines",
    "builtins.int", "builtins.str", "builtins.open", "builtins.round",
    "file.read", "file.readlines", "list.index", "builtins.repr",
    "matplotlib.dates.date2num", "numpy.datetime64", "re.compile",
    "re.match", "re.fullmatch", "re.search", "builtins.range", "builtins.bool", "numpy.tan", "numpy.sin",
    "numpy.cos", "numpy.log1p", "numpy.expm1", "numpy.arctan",
    "op.FloorDiv", "op.Mod", "op.MatMult", "cast.int", "pandas.to_datetime",
    "exception", "strrep", "strmod", "numpy.unique", "numpy.argmin",
    "numpy.argsort", "numpy.searchsorted", "numpy.tanh", "pandas.nunique",
    "lsq.x", "lsq.cost", "lsq.success", "lsq.status", "pandas.shift",
    "pandas.rank", "pandas.cumsum", "pandas.interpolate", "pandas.ffill",
    "pandas.bfill", "pandas.median", "pandas.reindex", "pandas.everyrow",
    "pandas.dropna", "pandas.head", "pandas.tail", "pandas.query",
    "pandas.sort_values", "pandas.sort_index", "grouptransform",
    "pyco2.total", "pyco2.K", "pyco2.gas", "lsq.jac", "lsq.nfev",
    "lsq.message", "lsq.grad", "lsq.optimality", "lsq.active_mask",
    "lsq.njev",
}

FALLIBLE = {
    "numpy.genfromtxt", "builtins.open", "scipy.stats.linregress",
    "PyCO2SYS.sys", "PyCO2SYS.salts.assemble", "PyCO2SYS.equilibria.assemble",
    "scipy.optimize.least_squares", "pandas.read_csv", "pandas.read_excel",
    "numpy.array", "builtins.float", "builtins.int", "list.index",
    "numpy.loadtxt",
}


def I_elem(I, v, st):
    return I.elements(v, st)


# ------------------------------------------------------------ attributes
STR_METHODS = {n for n in dir(str) if not n.startswith("_")}
DICT_METHODS = {n for n in dir(dict) if not n.startswith("_")} | {"__contains__", "__getitem__"}
LIST_METHODS = {n for n in dir(list) if not n.startswith("_")}
SET_METHODS = {n for n in dir(set) if not n.startswith("_")}
FRAME_METHODS = {
    "apply", "copy", "groupby", "join", "rename", "iterrows", "items",
    "assign", "drop", "where", "mask", "reset_index", "set_index", "merge",
    "to_numpy", "sort_values", "head", "tail", "itertuples", "to_dict",
    "keys", "get", "pop", "insert", "fillna", "dropna", "isnull", "notnull",
    "isna", "notna", "update", "to_csv", "to_excel", "reindex", "map",
    "applymap", "pipe", "agg", "aggregate", "sum", "mean", "std", "all",
    "any", "describe", "astype", "query", "eval", "transform", "to_pandas",
    "combine_first", "sort_index", "xs", "squeeze", "to_list", "tolist",
}
ARRAY_METHODS = {
    "sum", "mean", "std", "max", "min", "nonzero", "copy", "astype", "round",
    "clip", "where", "notnull", "isnull", "isna", "notna", "all", "any",
    "to_numpy", "tolist", "fillna", "map", "reindex", "apply", "items",
    "split", "lower", "upper", "startswith", "endswith", "strip", "format",
    "splitlines", "read", "readlines", "write", "match", "index", "replace",
    "join", "append", "mask", "flatten", "ravel", "reshape", "item", "var",
    "median", "cumsum", "sort", "argmax", "argmin", "get", "keys", "values_",
    "scatter", "plot", "legend", "grid", "set_xlabel", "set_ylabel",
    "axhline", "fill_between", "set_xlim", "get_xlim", "set_ylim", "get_ylim",
    "text", "to_list", "drop", "rename", "dropna", "unique", "transform",
    "groupby", "between", "eq", "ne", "lt", "le", "gt", "ge", "isin", "abs",
    "add", "sub", "mul", "div", "mod", "pow", "shift", "diff", "searchsorted",
    "fill", "casefold", "lstrip", "rstrip", "title", "find", "count", "encode",
    "decode", "search", "findall", "group", "fullmatch", "close", "writelines",
    "readline", "twinx", "axvline", "errorbar", "set_title", "tick_params",
    "savefig", "add_subplot", "prod", "squeeze", "take", "dot", "isdigit",
    "cumprod", "ptp", "conj", "swapaxes", "transpose", "iterrows", "combine_first",
    "update", "nunique", "ffill", "bfill", "interpolate", "rank", "head", "tail",
    "sort_values", "sort_index", "to_dict", "reset_index", "to_frame",
}


def getattr_(I, base, name, st):
    op = base.op
    if is_rec(base):
        return mk("method", base, name)
    if op == "module":
        m = base.args[0]
        sc = st.heap.get(I.modscope[m]) or I.st.heap[I.modscope[m]]
        if name in sc.vars:
            return sc.vars[name]
        if I.modpath(m + "." + name) is not None:
            # submodule not imported (yet)
            if m + "." + name in I.modscope:
                return I.modnode[m + "." + name]
            return I.load(m + "." + name)
        if name in ("__name__", "__file__", "__doc__", "__dict__"):
            return I.unk("modattr")
        I.effect("attrerror", (m, name), st)
        I.do_raise("AttributeError", st)
    if op == "ext":
        full = base.args[0] + "." + name
        c = EXTCONST.get(full)
        if c is not None:
            return c
        return mk("ext", full)
    if op == "class":
        v = class_attr(I, base.args[0], name, st)
        if v is not None:
            return v
        if base.args[0].fields is not None and name == "_fields":
            return mk("tuple", tuple(const(f) for f in base.args[0].fields))
        if name == "__name__":
            return const(base.args[0].name)
        return I.unk("classattr:" + name)
    if op == "nt":
        cls = base.args[0]
        if name in cls.fields:
            return base.args[1][cls.fields.index(name)]
        if name in ("_asdict", "_replace", "index", "count"):
            return mk("method", base, name)
        if name == "_fields":
            return mk("tuple", tuple(const(f) for f in cls.fields))
        I.effect("attrerror", (cls.name, name), st)
        I.do_raise("AttributeError", st)
    if op == "param":
        return {"name": const(base.args[0]), "default": base.args[1]}.get(
            name, I.unk("param"))
    if op == "app" and base.args[0] == "inspect.signature":
        if name == "parameters":
            return sig_params(I, base.args[1][0], st)
        return I.unk("signature")
    if op == "func":
        if name in ("__name__", "__qualname__"):
            return const(base.args[0].name.split(".")[-1])
        if name == "__kwdefaults__":
            return NONE
        return I.unk("funcattr:" + name)
    if op == "tuple":
        return mk("method", base, name)
    o = I.obj(base, st)
    from .interp import HDict, HList, HObj, HSet, HTable
    if isinstance(o, HObj):
        return obj_attr(I, base, o, name, st)
    if isinstance(o, HDict):
        if o.kind == "dict":
            if name in DICT_METHODS:
                return mk("method", base, name)
            I.effect("attrerror", ("dict", name), st)
            I.do_raise("AttributeError", st)
        if o.kind == "lsq":
            return getitem(I, base, const(name), st)
        if name in ("loc", "at", "iloc", "iat"):
            return mk("accessor", name, base)
        if name == "index":
            return mk("app", "index_of", (I.snap(base, st),), ())
        if name in ("copy", "items", "keys", "get", "update", "to_dict",
                    "notnull", "isnull", "drop", "pop", "dropna", "fillna", "isna", "notna", "rename", "reindex"):
            return mk("method", base, name)
        return getitem(I, base, const(name), st, "AttributeError")
    if isinstance(o, HTable):
        cls = getattr(o, "cls", None)
        if cls is not None:
            v = class_attr(I, cls, name, st)
            if v is not None:
                return mk("bound", v, base) if v.op == "func" else v
        if name in ("loc", "at", "iloc", "iat"):
            return mk("accessor", name, base)
        if name in FRAME_METHODS and const(name) not in o.cols:
            return mk("method", base, name)
        if name == "columns":
            if o.base is None:
                return I.new(HList([(c, k) for k, (c, _) in o.cols.items()]),
                             st)
            return mk("app", "columns", (o.base,), ())
        if name == "index":
            return o.index if o.index is not None else mk("rowindex",
                                                          o.base or NONE)
        if name == "shape":
            return mk("tuple", (mk("app", "len", (o.base or NONE,), ()),
                                I.unk("ncols")))
        if name in ("values", "T"):
            return I.snap(base, st)
        return getitem(I, base, const(name), st, "AttributeError")
    if isinstance(o, HList):
        return mk("method", base, name)
    if isinstance(o, HSet):
        return mk("method", base, name)
    # plain values (numbers, arrays, series, strings)
    if op == "accessor" or op == "groupby":
        return mk("method", base, name)
    if name in ("values", "flat", "real", "array"):
        return base
    if name == "T":
        return base
    if op == "const" and base.args[0] == "str":
        return mk("method", base, name)
    if op in ("loc", "app") and base.args and base.args[0] == \
            "scipy.stats.linregress":
        return T.attr(base, name)
    if name in ("loc", "iloc", "at", "iat"):
        return mk("accessor", name, base)
    if name in ("str", "dt"):
        return mk("straccessor", base)
    if op == "straccessor":
        return mk("method", base.args[0], name)
    if name in ARRAY_METHODS:
        return mk("method", base, name)
    if name == "size":
        return size(base)
    if op == "const" or base is NONE or T.const_val(base) is not None:
        I.effect("attrerror", (T.show(base), name), st)
        I.do_raise("AttributeError", st)
    return T.attr(base, name)


def size(x):
    if T.shape(x) == "s":
        return ONE
    while x.op == "store" or x.op == "app" and x.args[0] == "fill":
        x = x.args[0] if x.op == "store" else x.args[1][1]
    return app("numpy.size", x)


def class_attr(I, cls, name, st):
    sc = st.heap.get(cls.scope) or I.st.heap.get(cls.scope)
    if sc is not None and name in sc.vars:
        return sc.vars[name]
    for b in cls.bases:
        if b.op == "class":
            v = class_attr(I, b.args[0], name, st)
            if v is not None:
                return v
    return None


def obj_attr(I, base, o, name, st):
    if name in o.attrs:
        v = o.attrs[name]
        from .interp import UNDEF
        if v is not UNDEF:
            return I.strip_undef(v, st, name)
    v = class_attr(I, o.cls, name, st)
    if v is not None:
        if v.op == "func":
            return mk("bound", v, base)
        if v.op == "static":
            return v.args[0]
        if v.op == "property":
            return I.call(v.args[0], [base], {}, st)
        if v.op == "classm":
            return mk("bound", v.args[0], mk("class", o.cls))
        return v
    if name == "__class__":
        return mk("class", o.cls)
    if name == "__dict__":
        from .interp import HDict
        return I.new(HDict({const(k): (TRUE, x)
                            for k, x in o.attrs.items()}), st)
    ga = class_attr(I, o.cls, "__getattr__", st)
    if ga is not None:
        if name == "row":
            I.do_raise("AttributeError", st)
        return I.call(ga, [base, const(name)], {}, st)
    I.effect("attrerror", (o.cls.name, name), st)
    I.do_raise("AttributeError", st)


def setattr_(I, base, name, v, st):
    from .interp import HDict, HObj, HTable
    o = I.obj(base, st)
    if isinstance(o, HObj):
        o = I.mut(base, st, "attribute", name)
        o.attrs[name] = v
    elif isinstance(o, HTable):
        if name in ("columns", "index"):
            I.mut(base, st, name)
            return
        setitem(I, base, const(name), v, st, None)
    elif isinstance(o, HDict):
        setitem(I, base, const(name), v, st, None)
    elif base.op in ("module",):
        I.effect("mutate", (f"global:{base.args[0]}", "rebind", name), st)
        sid = I.modscope[base.args[0]]
        sc = st.heap[sid].clone()
        sc.vars[name] = v
        st.heap[sid] = sc
    elif base.op in ("ext", "class"):
        I.effect("mutate", (f"global:{T.show(base)}", "rebind", name), st)


# ------------------------------------------------------------ subscripts
def norm_key(I, key, st):
    o = I.obj(key, st)
    return I.snap(key, st) if o is not None or key.op == "tuple" else key


def getitem(I, base, key, st, exc="KeyError"):
    from .interp import UNDEF, HDict, HList, HObj, HSet, HTable
    o = I.obj(base, st)
    if isinstance(o, HDict):
        if T.is_literal(key) or key in o.items:
            p, v = o.lookup(key)
            if v is UNDEF:
                I.effect("missingkey", (T.show(key), o.kind), st)
                I.do_raise(exc, st)
            if p is not TRUE:
                I.do_raise(exc, st, key, cond=not_(p))
            return v
        if o.base is None and o.items and len(o.items) < 60:
            conds = [(and_(c, T.eq(key, k)), v)
                     for k, (c, v) in o.items.items()]
            anyc = or_(*[c for c, _ in conds])
            I.do_raise(exc, st, key, cond=not_(anyc))
            out = conds[-1][1]
            for c, v in reversed(conds[:-1]):
                out = phi(c, v, out)
            return out
        return I.unk("dictitem", key)
    if isinstance(o, HTable):
        return table_get(I, base, o, key, st, exc)
    if isinstance(o, HList):
        items = o.items
        if not getattr(o, "havoc", False) and all(c is TRUE
                                                  for c, _ in items):
            i = T.int_val(key)
            if i is not None:
                if -len(items) <= i < len(items):
                    return items[i][1]
                I.do_raise("IndexError", st)
            if key.op == "slice":
                try:
                    s = slice(*[None if x is NONE else T.int_val(x)
                                for x in key.args])
                    return I.new(HList(items[s]), st)
                except Exception:
                    pass
        return T.index(I.snap(base, st), norm_key(I, key, st)) \
            if not getattr(o, "havoc", False) else \
            I.unk("listitem", *[v for _, v in items if v.op != "ref"])
    if isinstance(o, HObj):
        m = class_attr(I, o.cls, "__getitem__", st)
        if m is not None:
            return I.call(mk("bound", m, base), [key], {}, st)
    if base.op == "accessor":
        return loc_get(I, base, key, st)
    if base.op == "groupby":
        k = norm_key(I, key, st)
        return mk("groupby", base.args[0], base.args[1], k)
    if base.op == "app" and base.args[0] == "scipy.stats.linregress":
        i = T.int_val(key)
        names = ("slope", "intercept", "rvalue", "pvalue", "stderr")
        if i is not None and -5 <= i < 5:
            return T.attr(base, names[i])
    if base.op == "ext":
        return I.unk("extitem", key)
    key = norm_key(I, key, st)
    return array_index(base, key)


def array_index(base, key):
    if base.op == "phi":
        return phi(base.args[0], array_index(base.args[1], key),
                   array_index(base.args[2], key))
    if key.op == "tuple" and len(key.args[0]) == 1:
        key = key.args[0][0]
    if key is const(Ellipsis):
        return base
    if key.op == "slice" and all(a is NONE for a in key.args):
        return base
    if base.op == "app" and base.args[0] == "fill":
        if T.int_val(key) is not None:
            return base.args[1][0]
        return mk("app", "fill", (base.args[1][0],
                                  array_index(base.args[1][1], key)), ())
    if base.op == "store":
        i, j = T.int_val(key), T.int_val(base.args[1])
        if key is base.args[1]:
            return base.args[2]
        if i is not None and j is not None:
            if T.FINITE:
                i, j = i % T.FINITE, j % T.FINITE
                if i == j:
                    return base.args[2]
            if i != j and (i < 0) == (j < 0):
                return array_index(base.args[0], key)
            return T.index(base, key)
        d = T.sub(key, base.args[1]) if key.op != "slice" and \
            base.args[1].op != "slice" and T.numericlike(key) else None
        if d is not None and T.const_val(d) not in (None, 0):
            return array_index(base.args[0], key)
    if base.op == "app" and base.args[0] == "PyCO2SYS.sys" and \
            key.op == "const":
        return T.index(base, key)
    return T.index(base, key)


def table_get(I, base, o, key, st, exc="KeyError"):
    from .interp import UNDEF, HTable
    if key.op == "const":
        p, v = o.lookup(key)
        if v is UNDEF:
            I.effect("missingkey", (T.show(key), "table"), st)
            I.do_raise(exc, st)
        if p is not TRUE:
            I.do_raise(exc, st, key, cond=not_(p))
        return v
    items = None
    if key.op in ("ref", "tuple"):
        items = I.elements(key, st)
    if items is not None and all(k.op == "const" for _, k in items):
        t = HTable(base=None, index=o.index)
        for c, k in items:
            p, v = o.lookup(k)
            if v is not UNDEF:
                t.cols[k] = (c, v)
            else:
                I.do_raise(exc, st)
        return I.new(t, st)
    if key.op in T.BOOLOPS:
        t = o.clone()
        t.owner = None
        t.cols = {k: (c, T.index(v, key)) for k, (c, v) in o.cols.items()}
        t.base = None if o.base is None else mk("filtered", o.base, key)
        if o.index is None and getattr(o, "source", None) is None:
            t.source = (dict(o.cols), o.base, key)
        return I.new(t, st)
    if o.base is None and key.op != "slice" and o.cols:
        # symbolic column name over a closed table
        out = None
        for k, (c, v) in reversed(list(o.cols.items())):
            out = v if out is None else phi(T.eq(key, k), v, out)
        return out
    return mk("col", o.base if o.base is not None else NONE, key) \
        if o.base is not None and key.op == "sym" else I.unk("tableitem", key)


def loc_get(I, acc, key, st):
    from .interp import HDict, HTable
    base = acc.args[1]
    o = I.obj(base, st)
    if isinstance(o, HTable):
        if key.op == "tuple" and len(key.args[0]) == 2:
            r, c = key.args[0]
            if c.op == "const":
                v = table_get(I, base, o, c, st)
                return row_lookup(I, o, v, r, st, fallible=True)
            return I.unk("loc", *[x for x in (r, c) if x.op != "ref"])
        if key.op in T.BOOLOPS:
            return table_get(I, base, o, key, st)
        # a row
        if key.op == "rowidx":
            return row_view(I, o, st)
        if o.base is not None:
            # generic row: columns at that row
            row = HDict({k: (c, at_row(v, key)) for k, (c, v)
                         in o.cols.items()},
                        base=mk("rowof", o.base, key), kind="series")
        else:
            row = HDict({k: (c, at_row(v, key)) for k, (c, v)
                         in o.cols.items()}, kind="series")
        return I.new(row, st)
    if isinstance(o, HDict):
        return getitem(I, base, key, st)
    key = norm_key(I, key, st)
    if acc.args[0] in ("iloc", "iat"):
        return array_index(base, key)
    if base.op == "bycol":
        return row_lookup2(I, base, key, st, True)
    return array_index(base, key)


def at_row(v, key):
    if key.op == "rowindex" or (key.op == "elem"):
        return v
    return mk_atrow(v, key)


def mk_atrow(v, key):
    if v.op in ("const", "num", "nan"):
        return v
    if v.op == "col" and T.shape(key) == "s":
        return mk("cell", mk("rowof", v.args[0], key), v.args[1])
    return mk("atrow", v, key)


def row_lookup(I, o, v, key, st, fallible):
    """Value of column v (indexed by o.index) at label(s) key."""
    if key.op in ("rowidx",) or key.op in T.BOOLOPS:
        return v if key.op == "rowidx" else T.index(v, key)
    if key.op == "slice" and all(a is NONE for a in key.args):
        return v
    if o.index is not None:
        return row_lookup2(I, mk("bycol", o.index, v), key, st, fallible)
    return mk_atrow(v, norm_key(I, key, st))


def row_lookup2(I, bycol, key, st, fallible):
    idx, v = bycol.args
    if idx.op == "nullkey" and key is idx.args[0]:
        return v
    if key is idx:
        null = T.isnull(key)
        if fallible:
            I.do_raise("KeyError", st, cond=anyrow(null))
            return v
        return phi(null, NAN, v)
    return mk("lookup", idx, v, key)


def anyrow(c):
    """Some row satisfies the elementwise condition."""
    if c is TRUE or c is FALSE:
        return c
    return mk("truth", app("numpy.any", c))


def setitem(I, base, key, v, st, expr):
    from .interp import HDict, HList, HObj, HTable
    o = I.obj(base, st)
    if isinstance(o, HDict):
        o = I.mut(base, st, "item", key)
        I.dict_set(o, key, v, st)
        return
    if isinstance(o, HTable):
        o = I.mut(base, st, "column", key)
        if key.op == "const":
            vo = I.obj(v, st)
            if isinstance(vo, HList):
                v = I.snap(v, st)
            if I.rowdepth and any(x.op == "cell" for x in T.walk(v)):
                # one row's value written to the whole column
                v = mk("app", "pandas.everyrow", (v,), ())
            o.cols[key] = (TRUE, v)
        else:
            items = I.elements(key, st)
            if items is not None and all(k.op == "const" for _, k in items):
                vals = I.elements(v, st)
                vo = I.obj(v, st)
                for n, (c, k) in enumerate(items):
                    if isinstance(vo, HTable):
                        cols = [x for _, (_, x) in vo.cols.items()]
                        val = cols[n] if n < len(cols) else I.unk("cols")
                    elif vals is not None and len(vals) == len(items):
                        val = vals[n][1]
                    else:
                        val = v if v.op != "ref" else I.unk("cols")
                    o.cols[k] = (TRUE, val)
            else:
                for k, (c, x) in list(o.cols.items()):
                    o.cols[k] = (c, I.unk("col", x))
        return
    if isinstance(o, HList):
        o = I.mut(base, st, "item", key)
        i = T.int_val(key)
        if i is not None and -len(o.items) <= i < len(o.items) and all(
                c is TRUE for c, _ in o.items):
            o.items[i] = (TRUE, v)
        else:
            o.items = [(c, I.unk("item", x)) for c, x in o.items]
        return
    if isinstance(o, HObj):
        m = class_attr(I, o.cls, "__setitem__", st)
        if m is not None:
            I.call(mk("bound", m, base), [key, v], {}, st)
        return
    if base.op == "accessor":
        loc_set(I, base, key, v, st)
        return
    key = norm_key(I, key, st)
    if v.op == "ref":
        v = I.snap(v, st)
    if T.KEEP_VEC and T.shape(key) == "s" and key.op not in T.BOOLOPS and \
            key.op not in ("slice", "tuple"):
        I.effect("elemstore", one_element(v), st)
    if key.op in T.BOOLOPS and T.shape(v) == "s":
        new = phi(key, v, base)
    elif key.op in T.BOOLOPS and T.unmask(v, key) is not None:
        new = phi(key, T.unmask(v, key), base)
    elif key.op == "slice" and all(a is NONE for a in key.args):
        new = mk("app", "fill", (v, base), ()) if T.shape(v) == "s" else v
    elif key.op == "slice" and base.op == "app" and \
            base.args[0] == "fill" and base.args[1][0] is v:
        new = base
    else:
        new = mk("store", base, key, v)
    write_back(I, expr, new, st)


def one_element(v):
    """Is v an array of one element (a fit's parameters) in any case?"""
    if v.op == "phi":
        return one_element(v.args[1]) or one_element(v.args[2])
    if v.op == "num":
        return any(a.op == "vec" for m, _ in v.args[0] for a, _e in m)
    return v.op == "vec"


def write_back(I, expr, new, st):
    if isinstance(expr, ast.Name):
        I.setvar(expr.id, new, st)
    elif isinstance(expr, ast.Attribute):
        if expr.attr in ("values",):
            write_back(I, expr.value, new, st)
            return
        b = I.ev(expr.value, st)
        I.setattr(b, expr.attr, new, st)
    elif isinstance(expr, ast.Subscript):
        b = I.ev(expr.value, st)
        k = I.ev(expr.slice, st)
        I.setitem(b, k, new, st, expr.value)


def loc_set(I, acc, key, v, st):
    from .interp import HDict, HTable, UNDEF
    base = acc.args[1]
    o = I.obj(base, st)
    if isinstance(o, HTable):
        if key.op == "tuple" and len(key.args[0]) == 2 and \
                key.args[0][1].op == "const":
            r, c = key.args[0]
            o = I.mut(base, st, "column", c)
            p, old = o.lookup(c)
            if old is UNDEF:
                old = NAN
            elif p is not TRUE:
                old = phi(p, old, NAN)
            if r.op == "rowidx":
                new = v
            elif r.op in T.BOOLOPS:
                u = T.unmask(v, r)
                new = phi(r, v if u is None else u, old)
            elif r.op == "slice" and all(a is NONE for a in r.args):
                new = v
            else:
                new = mk("store", old, norm_key(I, r, st), v)
            o.cols[c] = (TRUE, new)
            return
        o = I.mut(base, st, "rows", None)
        for k, (c, x) in list(o.cols.items()):
            o.cols[k] = (c, I.unk("locset", x))
        return
    if isinstance(o, HDict):
        setitem(I, base, key, v, st, None)


def contains(I, cont, x, st):
    if cont.op == "app" and cont.args[0] == "columns":
        return mk("hascol", cont.args[1][0], x)
    return None


# ------------------------------------------------------------ object ops
def obj_binop(I, op, a, b, oa, ob, st):
    from .interp import HDict, HList, HObj, HSet, HTable
    if isinstance(oa, HSet) or isinstance(ob, HSet):
        sa = as_set(I, a, st)
        sb = as_set(I, b, st)
        if sa is None or sb is None:
            return I.unk("setop")
        out = HSet()
        for k in list(sa) + [k for k in sb if k not in sa]:
            x, y = sa.get(k, FALSE), sb.get(k, FALSE)
            c = {"BitOr": or_(x, y), "BitAnd": and_(x, y),
                 "Sub": and_(x, not_(y)),
                 "BitXor": or_(and_(x, not_(y)), and_(y, not_(x)))}.get(op)
            if c is None:
                return I.unk("setop")
            if c is not FALSE:
                out.items[k] = c
        return I.new(out, st)
    if isinstance(oa, HDict) and isinstance(ob, HDict) and op == "BitOr" \
            and oa.kind == "dict":
        n = oa.clone()
        n.owner = None
        dict_update(I, n, b, st)
        return I.new(n, st)
    if op == "Add" and isinstance(oa, HList) and isinstance(ob, HList):
        return I.new(HList(oa.items + ob.items), st)
    if op == "Mult" and (isinstance(oa, HList) or isinstance(ob, HList)):
        l, n = (oa, b) if isinstance(oa, HList) else (ob, a)
        i = T.int_val(n)
        if i is not None:
            return I.new(HList(l.items * i), st)
    x = I.snap(a, st) if oa is not None else a
    y = I.snap(b, st) if ob is not None else b
    return I.unk("objop:" + op, x, y)


def as_set(I, v, st):
    from .interp import HDict, HSet
    o = I.obj(v, st)
    if isinstance(o, HSet):
        return o.items
    items = I.elements(v, st)
    if items is None:
        return None
    d = {}
    for c, k in items:
        d[k] = or_(d.get(k, FALSE), c)
    return d


def dict_update(I, o, src, st, cond=TRUE):
    """o (HDict, already writable) updated with the mapping src."""
    from .interp import HDict
    if src.op == "phi":
        dict_update(I, o, src.args[1], st, and_(cond, src.args[0]))
        dict_update(I, o, src.args[2], st, and_(cond, not_(src.args[0])))
        return
    so = I.obj(src, st)
    if isinstance(so, HDict) and so.base is None:
        for k, (c, v) in list(so.items.items()):
            I.dict_set(o, k, v, st, and_(cond, c))
        return
    items = I.elements(src, st)
    if items is not None:
        for c, kv in items:
            p = I.elements(kv, st)
            if p is not None and len(p) == 2:
                I.dict_set(o, p[0][1], p[1][1], st, and_(cond, c))
        return
    for k, (c, v) in list(o.items.items()):
        o.items[k] = (mk("truth", I.unk("dictupd", c)), I.unk("dictupd", v))
    o.havoc = True


def construct(I, cls, args, kw, st):
    from .interp import HDict, HObj, HTable
    if cls.fields is not None:
        vals = list(args)
        defaults = cls.defaults or {}
        for f in cls.fields[len(vals):]:
            if f in kw:
                vals.append(kw[f][1])
            elif f in defaults:
                vals.append(defaults[f])
            else:
                I.effect("arity", (cls.name, "missing " + f), st)
                I.do_raise("TypeError", st)
        if len(vals) > len(cls.fields) or any(k not in cls.fields
                                              for k in kw):
            I.effect("arity", (cls.name, "bad arguments"), st)
            I.do_raise("TypeError", st)
        return mk("nt", cls, tuple(vals))
    for b in cls.bases:
        if b.op == "ext" and b.args[0] in ("pandas.DataFrame",
                                           "pandas.core.frame.DataFrame"):
            r = make_frame(I, args, kw, st)
            o = I.obj(r, st)
            o = o.clone()
            o.cls = cls
            st.heap[r.args[0]] = o
            return r
    isexc = any(b.op == "ext" and b.args[0].startswith("builtins.")
                for b in cls.bases)
    ref = I.new(HObj(cls), st)
    init = class_attr(I, cls, "__init__", st)
    if init is not None:
        I.call(mk("bound", init, ref), args, kw, st)
    else:
        # dataclass-like: annotated fields
        pass
    return ref


def make_frame(I, args, kw, st):
    from .interp import HDict, HTable
    data = args[0] if args else kw.get("data", (TRUE, NONE))[1]
    o = I.obj(data, st)
    if isinstance(o, HTable):
        n = o.clone()
        n.owner = None
        n.cls = None
        return I.new(n, st)
    if isinstance(o, HDict):
        return I.new(HTable({k: cv for k, cv in o.items.items()},
                            base=o.base), st)
    if data.op == "ref":
        data = I.snap(data, st)
    return I.new(HTable(base=mk("frame", data)), st)


def isinstance_(I, v, cls, st):
    from .interp import HDict, HList, HObj, HSet, HTable
    if v.op == "phi":
        return phi(v.args[0], isinstance_(I, v.args[1], cls, st),
                   isinstance_(I, v.args[2], cls, st))
    if cls.op == "tuple":
        return or_(*[isinstance_(I, v, c, st) for c in cls.args[0]])
    o = I.obj(v, st)
    nm = cls.args[0] if cls.op == "ext" else None
    if v.op == "nt":
        if cls.op == "class":
            return const(v.args[0] is cls.args[0])
        return const(nm == "builtins.tuple")
    if isinstance(o, HObj):
        if cls.op == "class":
            def sub(c):
                return c is cls.args[0] or any(
                    b.op == "class" and sub(b.args[0]) for b in c.bases)
            return const(sub(o.cls))
        return FALSE
    if o is not None:
        table = {HDict: "dict" if getattr(o, "kind", "") == "dict"
                 else "Series", HList: "list", HSet: "set",
                 HTable: "DataFrame"}
        k = table.get(type(o))
        if nm:
            return const(nm.split(".")[-1] == k)
        if isinstance(o, HTable) and cls.op == "class":
            return mk("isinstance", v, cls.args[0].name)
        return FALSE
    if v.op == "const":
        return const(nm == "builtins." + v.args[0])
    if v.op == "tuple":
        return const(nm == "builtins.tuple")
    if v.op == "sym" and "str" in v.args[1]:
        return const(nm == "builtins.str")
    if v.op == "num" and T.const_val(v) is not None:
        return const(nm in ("builtins.float", "builtins.int",
                            "numbers.Number"))
    return mk("isinstance", v, nm or T.show(cls))


# ------------------------------------------------------------ ext constants
EXTCONST = {
    "numpy.nan": NAN, "math.nan": NAN, "numpy.NaN": NAN, "pandas.NA": NAN,
    "numpy.inf": T.INF, "math.inf": T.INF, "numpy.newaxis": NONE,
    "pandas.NaT": NAN,
    "inspect.Parameter.empty": mk("ext", "inspect.Parameter.empty"),
    "inspect._empty": mk("ext", "inspect.Parameter.empty"),
}

ALIASES = {
    "numpy.isnan": "isnull", "pandas.isnull": "isnull", "pandas.isna":
    "isnull", "math.isnan": "isnull", "pandas.notnull": "notnull",
    "pandas.notna": "notnull", "numpy.log": "log", "math.log": "log",
    "numpy.log10": "log10", "math.log10": "log10", "numpy.exp": "exp",
    "math.exp": "exp", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt",
    "numpy.power": "power", "math.pow": "power", "builtins.pow": "power",
    "numpy.float_power": "power",
    "numpy.add": "add", "operator.add": "add", "numpy.subtract": "sub",
    "operator.sub": "sub", "numpy.multiply": "mul", "operator.mul": "mul",
    "numpy.divide": "div", "numpy.true_divide": "div",
    "operator.truediv": "div", "numpy.negative": "neg", "operator.neg": "neg",
    "numpy.square": "square", "numpy.reciprocal": "recip",
    "numpy.logical_and": "and", "numpy.logical_or": "or",
    "numpy.logical_not": "not", "numpy.invert": "not",
    "numpy.bitwise_and": "and", "numpy.bitwise_or": "or",
    "numpy.bitwise_not": "not", "operator.and_": "and", "operator.or_": "or",
    "operator.invert": "not", "operator.not_": "not",
    "numpy.greater": "gt", "numpy.less": "lt", "numpy.greater_equal": "ge",
    "numpy.less_equal": "le", "numpy.equal": "eq", "numpy.not_equal": "ne",
    "operator.gt": "gt", "operator.lt": "lt", "operator.ge": "ge",
    "operator.le": "le", "operator.eq": "eq", "operator.ne": "ne",
    "numpy.asarray": "ident", "numpy.array": "array", "numpy.copy": "ident",
    "numpy.ascontiguousarray": "ident", "numpy.atleast_1d": "ident1",
    "numpy.squeeze": "squeeze", "numpy.ravel": "ident1",
    "numpy.float64": "ident", "builtins.float": "float",
    "copy.copy": "copy", "copy.deepcopy": "copy", "numpy.positive": "ident",
    "numpy.exp2": "exp2", "numpy.log2": "log2",
    "warnings.warn": "warn",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs",
    "math.fabs": "numpy.abs", "numpy.fabs": "numpy.abs",
    "numpy.round_": "numpy.round", "numpy.around": "numpy.round",
    "numpy.prod": "numpy.prod",
    "scipy.optimize._lsq.least_squares": "scipy.optimize.least_squares",
    "statistics.mean": "numpy.mean", "statistics.fmean": "numpy.mean",
    "numpy.shape": "shape", "PyCO2SYS.engine.nd.CO2SYS": "PyCO2SYS.sys",
    "math.fsum": "builtins.sum",
}

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def val(kw, name, default=None):
    from .interp import ABSENT
    if name in kw:
        c, v = kw[name]
        if c is TRUE:
            return v
        return phi(c, v, default if default is not None else ABSENT)
    return default


def params(names, args, kw, *defaults):
    """Positional/keyword binding for library functions."""
    out = []
    nd = len(names) - len(defaults)
    for i, n in enumerate(names):
        d = defaults[i - nd] if i >= nd else None
        if i < len(args):
            out.append(args[i])
        else:
            out.append(val(kw, n, d))
    return out


def generic(I, name, args, kw, st, method_of=None):
    from .interp import ABSENT
    a = tuple(I.snap(x, st) for x in args)
    k = tuple(sorted((n, I.snap(v, st) if c is TRUE else
                      phi(c, I.snap(v, st), ABSENT))
                     for n, (c, v) in kw.items()))
    note_fallible(I, name, st)
    return mk("app", name, a, k)


def note_fallible(I, name, st):
    if name in FALLIBLE:
        I.effect("fallible", (name, tuple(I.trycover)), st)


LIB_SIGS = {
    "PyCO2SYS.salts.assemble": (
        "salinity", "total_silicate", "total_phosphate", "total_ammonia",
        "total_sulfide", "opt_k_carbonic", "opt_total_borate", "totals"),
    "PyCO2SYS.equilibria.assemble": (
        "temperature", "pressure", "totals", "opt_pH_scale",
        "opt_k_carbonic", "opt_k_bisulfate", "opt_k_fluoride",
        "opt_gas_constant", "Ks", "pressure_atmosphere",
        "opt_pressured_kCO2"),
    "PyCO2SYS.sys": ("par1", "par2", "par1_type", "par2_type"),
    "numpy.genfromtxt": ("fname", "dtype", "comments", "delimiter",
                         "skip_header"),
    "pandas.read_csv": ("filepath_or_buffer",),
    "pandas.read_table": ("filepath_or_buffer",),
    "pandas.read_excel": ("io",),
    "pandas.read_fwf": ("filepath_or_buffer",),
    "pandas.read_clipboard": (),
    "scipy.stats.linregress": ("x", "y"),
    "scipy.interpolate.pchip_interpolate": ("xi", "yi", "x"),
    "numpy.arange": ("start", "stop", "step"),
    "builtins.open": ("file", "mode", "buffering", "encoding"),
    "numpy.round": ("a", "decimals"),
    "numpy.clip": ("a", "a_min", "a_max"),
}


def call_ext(I, name, args, kw, st):
    al = ALIASES.get(name)
    if al is not None:
        name = al
    if name in LIB_SIGS and name not in EXT:
        sig = LIB_SIGS[name]
        if len(args) <= len(sig):
            kw = dict(kw)
            for n, v in zip(sig, args):
                if n in kw and kw[n][0] is TRUE:
                    I.do_raise("TypeError", st)
                kw[n] = (TRUE, v)
            if name in ("scipy.stats.linregress",):
                xs = [I.snap(kw[n][1], st) for n in sig if n in kw]
                note_fallible(I, name, st)
                return mk("app", name, tuple(xs), ())
            if name in ("scipy.interpolate.pchip_interpolate",
                        "numpy.arange"):
                xs = tuple(I.snap(kw[n][1], st) for n in sig if n in kw)
                rest = {k: v for k, v in kw.items() if k not in sig}
                return generic(I, name, xs, rest, st)
            args = []
    f = EXT.get(name)
    if f is not None:
        r = f(I, args, kw, st, name)
        if r is not None:
            return r
    if name == "matplotlib.pyplot.subplots":
        return mk("tuple", (T.sym("fig", "s", "nn", "rec"),
                            T.sym("ax", "s", "nn", "rec")))
    if name == "matplotlib.pyplot.gca":
        return T.sym("ax", "s", "nn", "rec")
    if name.startswith(("matplotlib.pyplot", "plt")):
        I.effect("plotcall", (name, tuple(I.snap(a, st) for a in args)), st)
        return app(name, I.unk("plot"))
    return generic(I, name, args, kw, st)


# ---- elementwise
def each(fn):
    def g(I, args, kw, st, name):
        if any(I.obj(a, st) is not None for a in args):
            args = [I.snap(a, st) for a in args]
            if any(a.op in ("listsnap", "dictsnap") for a in args):
                return None
        return fn(*args[:fn.__code__.co_argcount])
    return g


def dist1(f):
    def g(x):
        if x.op == "phi":
            return phi(x.args[0], g(x.args[1]), g(x.args[2]))
        return f(x)
    return g


EXT["exp"] = each(lambda x: T.exp(x))
EXT["log10"] = each(lambda x: T.log10(x))
EXT["sqrt"] = each(lambda x: T.power(x, num(0.5)))
EXT["power"] = each(lambda x, y: T.power(x, y))
EXT["add"] = each(lambda x, y: T.add(x, y))
EXT["sub"] = each(lambda x, y: T.sub(x, y))
EXT["mul"] = each(lambda x, y: T.mul(x, y))
EXT["div"] = each(lambda x, y: T.div(x, y))
EXT["neg"] = each(lambda x: T.neg(x))
EXT["square"] = each(lambda x: T.mul(x, x))
EXT["recip"] = each(lambda x: T.div(ONE, x))
EXT["exp2"] = each(lambda x: T.power(num(2), x))
EXT["log2"] = each(lambda x: T.div(T.log(x), T.log(num(2))))
EXT["and"] = each(lambda x, y: and_(as_bool(x), as_bool(y)))
EXT["or"] = each(lambda x, y: or_(as_bool(x), as_bool(y)))
EXT["not"] = each(lambda x: not_(as_bool(x)))
EXT["gt"] = each(lambda x, y: T.lt(y, x))
EXT["lt"] = each(lambda x, y: T.lt(x, y))
EXT["ge"] = each(lambda x, y: T.le(y, x))
EXT["le"] = each(lambda x, y: T.le(x, y))
EXT["eq"] = each(lambda x, y: T.eq(x, y))
EXT["ne"] = each(lambda x, y: not_(T.eq(x, y)))


@ext("log")
def _log(I, args, kw, st, name):
    if len(args) == 2:
        return T.div(T.log(args[0]), T.log(args[1]))
    if args[0].op == "ref":
        return None
    return T.log(args[0])


@ext("isnull")
def _isnull(I, args, kw, st, name):
    x = args[0] if args else next(iter(kw.values()))[1]
    o = I.obj(x, st)
    if o is not None:
        from .interp import HDict
        if isinstance(o, HDict):
            return I.unk("isnull", I.snap(x, st))
        return FALSE
    return T.isnull(x)


@ext("notnull")
def _notnull(I, args, kw, st, name):
    return not_(_isnull(I, args, kw, st, name))


@ext("ident", "float", "ident1", "squeeze")
def _ident(I, args, kw, st, name):
    if not args:
        return None
    x = args[0]
    if name in ("float", "squeeze") and x.op == "vec" and \
            len(x.args[0]) == 1:
        return x.args[0][0]
    if name == "float":
        if x.op == "const" and x.args[0] == "str":
            try:
                return num(float(x.args[1]))
            except ValueError:
                pass
        if x.op not in ("num", "sym"):
            note_fallible(I, "builtins.float", st)
    dt = val(kw, "dtype")
    if dt is not None or len(args) > 1:
        d = dt if dt is not None else args[1]
        if not is_float_dtype(d):
            return None
    return as_array(I, x, st)


def is_float_dtype(d):
    return d in (mk("ext", "builtins.float"), const("float"),
                 const("float64"), mk("ext", "numpy.float64"), NONE,
                 mk("ext", "numpy.floating"), mk("ext", "numpy.double"))


def as_array(I, x, st):
    from .interp import HList
    o = I.obj(x, st)
    if isinstance(o, HList):
        if all(c is TRUE for c, _ in o.items) and not getattr(
                o, "havoc", False) and all(v.op != "ref"
                                           for _, v in o.items):
            return mk("vec", tuple(v for _, v in o.items))
        return I.snap(x, st)
    if x.op == "tuple":
        return mk("vec", x.args[0])
    if o is not None:
        return I.snap(x, st)
    return x


@ext("array")
def _array(I, args, kw, st, name):
    dt = val(kw, "dtype", args[1] if len(args) > 1 else None)
    x = as_array(I, args[0], st)
    if dt is None or is_float_dtype(dt):
        if x.op in ("listsnap", "unknown"):
            note_fallible(I, "numpy.array", st)
        return x
    return mk("app", "numpy.array", (x,), (("dtype", dt),))


@ext("copy")
def _copy(I, args, kw, st, name):
    o = I.obj(args[0], st)
    if o is None:
        return args[0]
    n = o.clone()
    n.owner = None
    return I.new(n, st)


@ext("warn")
def _warn(I, args, kw, st, name):
    I.effect("warn", tuple(I.snap(a, st) for a in args), st)
    return NONE


@ext("builtins.print")
def _print(I, args, kw, st, name):
    f = val(kw, "file", NONE)
    if f is not NONE:
        from .interp import concat_parts
        sep, end = (const(d) if v is NONE else v for v, d in (
            (val(kw, "sep", NONE), " "), (val(kw, "end", NONE), "\n")))
        parts = []
        for a in args:
            parts += [sep, I.snap(a, st)]
        I.effect("write", (f, (concat_parts(parts[1:] + [end]),)), st)
        return NONE
    I.effect("print", tuple(I.snap(a, st) for a in args), st)
    return NONE


@ext("shape")
def _shape_(I, args, kw, st, name):
    return T.attr(I.snap(args[0], st), "shape")


# ---- reductions
@ext("numpy.sum", "builtins.sum", "numpy.nansum")
def _sum(I, args, kw, st, name):
    x = args[0]
    start = args[1] if len(args) > 1 and name == "builtins.sum" else ZERO
    axis = val(kw, "axis", args[1] if len(args) > 1 and
               name == "numpy.sum" else NONE)
    items = I.elements(x, st)
    if items is not None and x.op != "const":
        if name == "numpy.sum" and axis is NONE and any(
                T.shape(v) != "s" for _, v in items):
            # sums over everything: linear combination of full sums
            tot = ZERO
            for c, v in items:
                tot = T.add(tot, phi(c, reduce_linear("numpy.sum", v), ZERO))
            return tot
        if any(v.op == "ref" for _, v in items):
            return None
        tot = start
        for c, v in items:
            if v.op in T.BOOLOPS:
                v = phi(v, ONE, ZERO)
            tot = T.add(tot, phi(c, v, ZERO))
        return tot
    if x.op == "ref":
        return None
    if name == "numpy.nansum":
        return app("numpy.nansum", x)
    return reduce_linear("numpy.sum", x)


def split_scalar(m):
    s = tuple((a, e) for a, e in m if T.shape(a) == "s")
    r = tuple((a, e) for a, e in m if T.shape(a) != "s")
    return s, r


def reduce_linear(name, x):
    """mean/sum are linear: pull scalar factors and split sums."""
    if x.op == "phi" and T.shape(x.args[0]) == "s":
        return phi(x.args[0], reduce_linear(name, x.args[1]),
                   reduce_linear(name, x.args[2]))
    if x.op in T.BOOLOPS:
        return app(name, x)
    p = T.poly(x)
    if len(p) > 400:
        return app(name, x)
    from fractions import Fraction
    tot = ZERO
    inner = {}
    for m, c in p.items():
        s, r = split_scalar(m)
        inner.setdefault(s, {})
        inner[s][r] = inner[s].get(r, 0) + c
    groups = {}
    for s, pol in inner.items():
        for r, c in pol.items():
            t = T._num({s: Fraction(c)})
            if not r:
                if name == "numpy.mean":
                    tot = T.add(tot, t)
                else:
                    return app(name, x)
                continue
            rest = T._num({r: Fraction(1)})
            tot = T.add(tot, T.mul(t, mk("app", name, (rest,), ())))
    return tot


@ext("numpy.mean", "numpy.nanmean")
def _mean(I, args, kw, st, name):
    x = args[0]
    if len(args) > 1 or any(k in kw for k in ("weights",)):
        return None
    items = I.elements(x, st)
    if items is not None and x.op != "const" and all(
            c is TRUE for c, _ in items) and items:
        tot = ZERO
        for _, v in items:
            tot = T.add(tot, v)
        return T.div(tot, num(len(items)))
    if x.op == "ref":
        return None
    if name == "numpy.nanmean":
        return mean_skipna(x)
    return reduce_linear("numpy.mean", x)


def notnull_filter(x):
    """x restricted to its non-null entries."""
    if x.op == "index" and x.args[1].op in T.BOOLOPS:
        return T.index(x.args[0], and_(x.args[1],
                                       not_(T.isnull(x.args[0]))))
    return T.index(x, not_(T.isnull(x)))


def mean_skipna(x):
    return reduce_linear("numpy.mean", notnull_filter(x))


@ext("numpy.std", "numpy.nanstd")
def _std(I, args, kw, st, name):
    x = args[0]
    if x.op == "ref":
        return None
    dd = val(kw, "ddof", ZERO)
    if name == "numpy.nanstd":
        x = notnull_filter(x)
    return std_term(x, dd)


def std_term(x, dd):
    p = T.poly(x)
    if not p or x.op in T.BOOLOPS:
        return mk("app", "numpy.std", (x,), (("ddof", dd),))
    if x.op == "phi" and T.shape(x.args[0]) == "s":
        return phi(x.args[0], std_term(x.args[1], dd),
                   std_term(x.args[2], dd))
    if len(p) == 1:
        (m, c), = p.items()
        lead = abs(c)
    else:
        lead = abs(sorted(p.items(), key=lambda t: T._mkey(t[0]))[-1][1])
    prim = T._num({m: c / lead for m, c in p.items()})
    # std(x) == std(-x): fix the sign
    q = T.poly(prim)
    last = sorted(q.items(), key=lambda t: T._mkey(t[0]))[-1][1]
    if last < 0:
        prim = T.neg(prim)
    return T.mul(num(lead), mk("app", "numpy.std", (prim,),
                               (("ddof", dd),)))


T.RENORMAL["numpy.std"] = lambda n: std_term(
    n.args[1][0], dict(n.args[2]).get("ddof", ZERO))


@ext("numpy.max", "numpy.min", "numpy.median", "numpy.nanmax", "numpy.nanmin",
     "numpy.argmax", "numpy.argmin", "numpy.nanmedian", "numpy.prod",
     "numpy.var")
def _red(I, args, kw, st, name):
    if len(args) != 1 or kw or args[0].op == "ref":
        return None
    x = args[0]
    if name == "numpy.min" and x.op == "app" and x.args[0] == "numpy.nonzero":
        return T.index(x, ZERO)  # positions are in rising order
    if name == "numpy.argmax" and x.op in T.BOOLOPS and T.shape(x) != "s":
        # the first that holds (no element may hold: see DESIGN.md)
        return T.index(app("numpy.nonzero", x), ZERO)
    return app(name, x)


@ext("builtins.min", "builtins.max")
def _minmax(I, args, kw, st, name):
    if kw or any(a.op == "ref" for a in args):
        return None
    if len(args) == 1:
        return _red(I, args, kw, st, "numpy." + name.split(".")[1])
    return app("numpy." + name.split(".")[1] + "imum", *args)


@ext("numpy.size", "builtins.len")
def _len(I, args, kw, st, name):
    from .interp import HDict, HList, HSet, HTable
    x = args[0]
    o = I.obj(x, st)
    if x.op == "phi":
        return phi(x.args[0], _len(I, [x.args[1]], kw, st, name),
                   _len(I, [x.args[2]], kw, st, name))
    items = None
    if name == "builtins.len" or isinstance(o, (HList,)) or x.op == "tuple":
        items = I.elements(x, st)
    if items is not None:
        if all(c is TRUE for c, _ in items):
            return num(len(items))
        return mk("count", tuple(c for c, _ in items))
    if isinstance(o, HTable):
        return app("len", o.base if o.base is not None else I.snap(x, st))
    if o is not None:
        return I.unk("len")
    if x.op == "const" and x.args[0] == "str":
        return num(len(x.args[1])) if name == "builtins.len" else ONE
    if x.op == "rowindex":
        return app("len", x.args[0])
    if x.op == "app" and x.args[0] == "fill":
        return _len(I, [x.args[1][1]], kw, st, name)
    if I.finite and T.shape(x) != "s":
        return num(I.finite)
    return size(x)


@ext("numpy.any", "builtins.any", "numpy.all", "builtins.all")
def _anyall(I, args, kw, st, name):
    x = args[0]
    isany = name.endswith("any")
    items = I.elements(x, st) if x.op != "const" else None
    if items is not None:
        cs = []
        for c, v in items:
            t = I.truth(v, st)
            cs.append(and_(c, t) if isany else or_(not_(c), t))
        return or_(*cs) if isany else and_(*cs)
    return anyall(x, isany)


def anyall(x, isany):
    b = as_bool(x)
    if T.shape(b) == "s" or b.op == "const":
        return b
    if isany:
        return mk("truth", app("numpy.any", b))
    return not_(mk("truth", app("numpy.any", not_(b))))


@ext("numpy.count_nonzero")
def _cnz(I, args, kw, st, name):
    if args[0].op == "ref" or kw:
        return None
    return app("numpy.sum", as_bool(args[0]))


@ext("numpy.where")
def _where(I, args, kw, st, name):
    if len(args) == 3:
        c, a, b = [I.snap(x, st) for x in args]
        return phi(as_bool(c), a, b)
    if len(args) == 1:
        return mk("tuple", (app("numpy.nonzero", as_bool(args[0])),))
    return None


@ext("numpy.nonzero")
def _nz(I, args, kw, st, name):
    return mk("tuple", (app("numpy.nonzero", as_bool(args[0])),))


@ext("numpy.flatnonzero")
def _fnz(I, args, kw, st, name):
    return app("numpy.nonzero", as_bool(args[0]))


@ext("numpy.select")
def _select(I, args, kw, st, name):
    cl, vl, d = params(("condlist", "choicelist", "default"), args, kw, ZERO)
    cs, vs = I.elements(cl, st), I.elements(vl, st)
    if cs is None or vs is None or len(cs) != len(vs):
        return None
    out = d
    for (_, c), (_, v) in reversed(list(zip(cs, vs))):
        out = phi(as_bool(c), v, out)
    return out


def shape_root(I, s):
    """Array whose shape is s."""
    if s.op == "attr" and s.args[1] == "shape":
        return s.args[0]
    if s.op == "app" and s.args[0] in ("numpy.size", "len"):
        return s.args[1][0]
    return mk("shape", s)


def fill(v, x):
    return mk("app", "fill", (v, x), ())


@ext("numpy.nan_to_num")
def _nan_to_num(I, args, kw, st, name):
    x = args[0]
    if len(args) > 1 or set(kw) - {"nan", "copy"} or x.op == "ref":
        return None
    if "copy" in kw and kw["copy"][1] is not TRUE:
        return None
    return phi(mk("isnull", x), kw["nan"][1] if "nan" in kw else ZERO, x)


@ext("numpy.full_like")
def _fl(I, args, kw, st, name):
    a, v, dt = params(("a", "fill_value", "dtype"), args, kw, NONE)
    if dt is not NONE and not is_float_dtype(dt) and dt is not mk(
            "ext", "builtins.bool"):
        return None
    if a.op == "ref" or v.op == "ref":
        return None
    return fill(v, a)


@ext("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like")
def _zl(I, args, kw, st, name):
    v = ZERO if "zeros" in name else ONE
    if "empty" in name:
        v = I.unk("empty")
    dt = val(kw, "dtype", args[1] if len(args) > 1 else None)
    if dt in (const("bool"), mk("ext", "builtins.bool"),
              mk("ext", "numpy.bool_")) or \
            dt in (None, NONE) and args[0].op in T.BOOLOPS:
        v = {ZERO: FALSE, ONE: TRUE}.get(v, v)
    return fill(v, args[0])


@ext("numpy.full")
def _full(I, args, kw, st, name):
    s, v = params(("shape", "fill_value"), args, kw)
    return fill(v, shape_root(I, s))


@ext("numpy.zeros", "numpy.ones", "numpy.empty")
def _zeros(I, args, kw, st, name):
    v = ZERO if "zeros" in name else ONE
    if "empty" in name:
        v = I.unk("empty")
    dt = val(kw, "dtype", args[1] if len(args) > 1 else None)
    if dt in (const("bool"), mk("ext", "builtins.bool"),
              mk("ext", "numpy.bool_")):
        v = FALSE if v is ZERO else TRUE
    s = args[0] if args else val(kw, "shape")
    return fill(v, shape_root(I, s))


@ext("numpy.isscalar", "numpy.ndim")
def _iss(I, args, kw, st, name):
    x = args[0]
    sh = T.shape(x) if x.op not in ("ref", "tuple") else "a"
    if name == "numpy.isscalar":
        if sh == "s":
            return TRUE
        if sh == "a":
            return FALSE
        return mk("truth", app("numpy.isscalar", I.snap(x, st)))
    return ZERO if sh == "s" else None


@ext("numpy.polyfit")
def _polyfit(I, args, kw, st, name):
    if len(args) == 3 and T.int_val(args[2]) == 1 and not kw:
        note_fallible(I, "scipy.stats.linregress", st)
        lr = mk("app", "scipy.stats.linregress",
                (I.snap(args[0], st), I.snap(args[1], st)), ())
        return mk("vec", (T.attr(lr, "slope"), T.attr(lr, "intercept")))
    return None


@ext("numpy.average")
def _avg(I, args, kw, st, name):
    if len(args) == 1 and not kw and args[0].op != "ref":
        return reduce_linear("numpy.mean", args[0])
    return None


@ext("numpy.dot", "numpy.inner")
def _dot(I, args, kw, st, name):
    a, b = I.elements(args[0], st), I.elements(args[1], st)
    if a is not None and b is not None and len(a) == len(b) and all(
            c is TRUE for c, _ in a + b):
        tot = ZERO
        for (_, x), (_, y) in zip(a, b):
            tot = T.add(tot, T.mul(x, y))
        return tot
    return None


@ext("numpy.polyval")
def _polyval(I, args, kw, st, name):
    a = I.elements(args[0], st)
    if a is None:
        return None
    tot = ZERO
    for _, c in a:
        tot = T.add(T.mul(tot, args[1]), c)
    return tot


@ext("numpy.polynomial.polynomial.polyval")
def _polyval2(I, args, kw, st, name):
    a = I.elements(args[1], st)
    if a is None:
        return None
    tot = ZERO
    for _, c in reversed(a):
        tot = T.add(T.mul(tot, args[0]), c)
    return tot


@ext("functools.reduce")
def _reduce(I, args, kw, st, name):
    items = I.elements(args[1], st)
    if items is None or not all(c is TRUE for c, _ in items):
        return None
    vals = [v for _, v in items]
    if len(args) > 2:
        acc = args[2]
    else:
        acc, vals = vals[0], vals[1:]
    for v in vals:
        acc = I.call(args[0], [acc, v], {}, st)
    return acc


# ---- builtins
@ext("builtins.isinstance")
def _isinst(I, args, kw, st, name):
    return isinstance_(I, args[0], args[1], st)


@ext("builtins.hasattr")
def _hasattr(I, args, kw, st, name):
    from .interp import HDict, HObj, HTable
    b, n = args
    o = I.obj(b, st)
    if isinstance(o, HObj) and n.op == "const":
        if n.args[1] in o.attrs or class_attr(I, o.cls, n.args[1],
                                              st) is not None:
            return TRUE
        if class_attr(I, o.cls, "__getattr__", st) is None:
            return FALSE
        row = o.attrs.get("row")
        ro = I.obj(row, st) if row is not None else None
        if isinstance(ro, HDict):
            return ro.lookup(n)[0]
    if isinstance(o, (HDict, HTable)):
        return o.lookup(n)[0]
    if b.op == "module":
        return const(n.args[1] in st.heap[I.modscope[b.args[0]]].vars)
    if b.op == "nt":
        return const(n.args[1] in b.args[0].fields)
    return mk("hasattr", I.snap(b, st), n)


@ext("builtins.getattr")
def _getattr(I, args, kw, st, name):
    b, n = args[0], args[1]
    if n.op == "const":
        if len(args) == 3:
            h = _hasattr(I, [b, n], {}, st, name)
            return I.branch(h, st, lambda s: I.getattr(b, n.args[1], s),
                            lambda s: args[2])
        return I.getattr(b, n.args[1], st)
    return I.unk("getattr", I.snap(b, st), n)


@ext("builtins.setattr")
def _setattr(I, args, kw, st, name):
    if args[1].op == "const":
        I.setattr(args[0], args[1].args[1], args[2], st)
    return NONE


@ext("builtins.object.__getattribute__")
def _oga(I, args, kw, st, name):
    from .interp import HObj
    b, n = args[0], args[1]
    o = I.obj(b, st)
    if isinstance(o, HObj) and n.op == "const":
        if n.args[1] in o.attrs or class_attr(I, o.cls, n.args[1],
                                              st) is not None:
            v = o.attrs.get(n.args[1])
            if v is not None:
                return v
            v = class_attr(I, o.cls, n.args[1], st)
            return mk("bound", v, b) if v.op == "func" else v
        I.do_raise("AttributeError", st)
    return I.unk("oga")


@ext("builtins.dict", "collections.OrderedDict")
def _dict(I, args, kw, st, name):
    from .interp import HDict
    o = HDict()
    if args:
        src = args[0]
        so = I.obj(src, st)
        if isinstance(so, HDict):
            o = so.clone()
            o.owner = None
            o.kind = "dict"
        else:
            dict_update(I, o, src, st)
    for k, (c, v) in kw.items():
        if k == "**":
            o.havoc = True
            continue
        I.dict_set(o, const(k), v, st, c)
    return I.new(o, st)


@ext("builtins.dict.fromkeys")
def _fromkeys(I, args, kw, st, name):
    from .interp import HDict
    o = HDict()
    items = I.elements(args[0], st) if args else None
    v = args[1] if len(args) > 1 else NONE
    if items is None:
        o.havoc = True
        return I.new(o, st)
    for c, k in items:
        I.dict_set(o, k, v, st, c)
    return I.new(o, st)


@ext("builtins.list", "builtins.tuple", "builtins.sorted",
     "builtins.reversed", "builtins.iter")
def _list(I, args, kw, st, name):
    from .interp import HList
    if not args:
        return I.new(HList(), st) if name != "builtins.tuple" else mk(
            "tuple", ())
    items = I.elements(args[0], st)
    if items is None:
        return generic(I, name, args, kw, st)
    if name == "builtins.reversed":
        items = items[::-1]
    if name == "builtins.sorted":
        try:
            items = sorted(items, key=lambda t: T.pyval(t[1]))
            if val(kw, "reverse") is TRUE:
                items = items[::-1]
        except Exception:
            if len(items) != 2 or kw or any(
                    c is not TRUE or v.op == "ref" for c, v in items):
                return generic(I, name, args, kw, st)
            a, b = items[0][1], items[1][1]
            sw = as_bool(I.compare("Lt", b, a, st))
            items = [(TRUE, phi(sw, b, a)), (TRUE, phi(sw, a, b))]
    if name == "builtins.tuple" and all(c is TRUE for c, _ in items):
        return mk("tuple", tuple(v for _, v in items))
    return I.new(HList(items), st)


@ext("builtins.set", "builtins.frozenset")
def _set(I, args, kw, st, name):
    from .interp import HSet
    if not args:
        return I.new(HSet(), st)
    d = as_set(I, args[0], st)
    if d is None:
        return None
    return I.new(HSet(d), st)


@ext("builtins.map")
def _map(I, args, kw, st, name):
    from .interp import HList
    its = [I.elements(a, st) for a in args[1:]]
    if any(i is None for i in its):
        return None
    out = []
    for row in zip(*its):
        c = and_(*[x for x, _ in row])
        out.append((c, I.call(args[0], [v for _, v in row], {}, st)))
    return I.new(HList(out), st)


@ext("builtins.filter")
def _filter(I, args, kw, st, name):
    from .interp import HList
    items = I.elements(args[1], st)
    if items is None:
        return None
    out = []
    for c, v in items:
        t = I.truth(v if args[0] is NONE else
                    I.call(args[0], [v], {}, st), st)
        out.append((and_(c, t), v))
    return I.new(HList([x for x in out if x[0] is not FALSE]), st)


@ext("builtins.enumerate", "builtins.zip", "builtins.range",
     "itertools.chain")
def _iters(I, args, kw, st, name):
    from .interp import HList
    if name == "builtins.enumerate" and (len(args) > 1 or kw):
        start = T.int_val(args[1] if len(args) > 1 else kw["start"][1])
        items = I.elements(args[0], st)
        if items is not None and start is not None and all(
                c is TRUE for c, _ in items):
            return I.new(HList([(TRUE, mk("tuple", (num(i + start), v)))
                                for i, (_, v) in enumerate(items)]), st)
    if name in ("builtins.zip",) and kw:
        kw = {}
    if name in ("builtins.enumerate", "builtins.zip"):
        # keep references to containers alive as immutable item lists
        args2 = []
        for a in args:
            it = I.elements(a, st)
            if it is not None and all(c is TRUE for c, _ in it):
                args2.append(mk("tuple", tuple(v for _, v in it)))
            else:
                args2.append(a if a.op != "ref" else I.snap(a, st))
        args = args2
    return mk("app", name, tuple(args), ())


@ext("builtins.str", "builtins.repr")
def _str(I, args, kw, st, name):
    if not args:
        return const("")
    x = args[0]
    from .interp import is_str
    if x.op == "const":
        return const(str(x.args[1]))
    if is_str(x) and name == "builtins.str":
        return x
    if T.int_val(x) is not None:
        return const(str(T.int_val(x)))
    if name == "builtins.str":
        return mk("app", "concat", (I.snap(x, st),), ())
    return None


@ext("builtins.bool")
def _bool(I, args, kw, st, name):
    return I.truth(args[0], st)


@ext("builtins.int")
def _int(I, args, kw, st, name):
    i = T.int_val(args[0])
    if i is not None:
        return args[0]
    note_fallible(I, "builtins.int", st)
    return mk("app", "builtins.int", (I.snap(args[0], st),), ())


@ext("builtins.callable")
def _callable(I, args, kw, st, name):
    return const(args[0].op in ("func", "bound", "ext", "class", "partial"))


@ext("builtins.type")
def _type(I, args, kw, st, name):
    from .interp import HObj
    x = args[0]
    o = I.obj(x, st)
    if x.op == "nt":
        return mk("class", x.args[0])
    if isinstance(o, HObj):
        return mk("class", o.cls)
    return None


@ext("builtins.format")
def _format(I, args, kw, st, name):
    return app("format", args[0], args[1] if len(args) > 1 else const(""),
               num(-1))


@ext("builtins.open")
def _open(I, args, kw, st, name):
    f, mode = params(("file", "mode"), args, kw, const("r"))
    enc = val(kw, "encoding", args[3] if len(args) > 3 else NONE)
    I.effect("open", (f, mode), st)
    note_fallible(I, "builtins.open", st)
    return mk("app", "builtins.open", (f, mode, enc if enc is not None
                                       else NONE), ())


@ext("functools.partial")
def _partial(I, args, kw, st, name):
    return mk("partial", args[0], tuple(args[1:]),
              tuple(sorted((k, v) for k, (c, v) in kw.items())))


@ext("inspect.signature")
def _sig(I, args, kw, st, name):
    return mk("app", "inspect.signature", (args[0],), ())


def sig_params(I, f, st):
    from .interp import EMPTYP, HDict
    while f.op in ("static", "classm"):
        f = f.args[0]
    if f.op != "func":
        return I.unk("signature")
    fn = f.args[0]
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = {}
    off = len(pos) - len(fn.defaults)
    for i, n in enumerate(pos):
        d[const(n)] = (TRUE, mk("param", n, fn.defaults[i - off]
                                if i >= off else EMPTYP))
    if a.vararg:
        d[const(a.vararg.arg)] = (TRUE, mk("param", a.vararg.arg, EMPTYP))
    for x, dv in zip(a.kwonlyargs, fn.kw_defaults):
        d[const(x.arg)] = (TRUE, mk("param", x.arg,
                                    dv if dv is not None else EMPTYP))
    if a.kwarg:
        d[const(a.kwarg.arg)] = (TRUE, mk("param", a.kwarg.arg, EMPTYP))
    return I.new(HDict(d), st)


@ext("collections.namedtuple")
def _nt(I, args, kw, st, name):
    from .interp import Cls
    nm = args[0]
    fl = args[1] if len(args) > 1 else kw["field_names"][1]
    if fl.op == "const":
        fields = fl.args[1].replace(",", " ").split()
    else:
        items = I.elements(fl, st)
        if items is None or not all(v.op == "const" for _, v in items):
            return None
        fields = [v.args[1] for _, v in items]
    c = Cls(nm.args[1], None, -1, [], nm.args[1])
    c.fields = fields
    c.defaults = {}
    dv = val(kw, "defaults")
    if dv is not None:
        items = I.elements(dv, st)
        if items is not None:
            for f, (_, v) in zip(fields[len(fields) - len(items):], items):
                c.defaults[f] = v
    return mk("class", c)


@ext("warnings.catch_warnings", "warnings.filterwarnings",
     "warnings.simplefilter", "numpy.errstate", "contextlib.suppress")
def _nop(I, args, kw, st, name):
    if name in ("warnings.filterwarnings", "warnings.simplefilter"):
        I.effect("warnfilter", (name,), st)
    return app(name)


@ext("os.path.exists", "os.path.isfile", "os.path.isabs", "os.path.isdir")
def _path_test(I, args, kw, st, name):
    return mk("truth", mk("app", name, tuple(args), ()))


@ext("os.path.join")
def _join(I, args, kw, st, name):
    return mk("app", "os.path.join", tuple(args), ())


# ---- pandas
@ext("pandas.Series")
def _series(I, args, kw, st, name):
    from .interp import HDict
    data = args[0] if args else val(kw, "data", NONE)
    o = I.obj(data, st)
    if isinstance(o, HDict):
        n = o.clone()
        n.owner = None
        n.kind = "series"
        return I.new(n, st)
    return as_array(I, data, st)


@ext("pandas.DataFrame")
def _df(I, args, kw, st, name):
    return make_frame(I, args, kw, st)


@ext("pandas.concat")
def _concat(I, args, kw, st, name):
    return None


@ext("pandas.read_csv", "pandas.read_table", "pandas.read_excel",
     "pandas.read_fwf", "pandas.read_clipboard")
def _read(I, args, kw, st, name):
    from .interp import HTable
    sig = LIB_SIGS[name]
    kw = dict(kw)
    for n, v in zip(sig, args):
        kw[n] = (TRUE, v)
    a = generic(I, name, [], kw, st)
    I.effect("readfile", (name,), st)
    return I.new(HTable(base=a), st)


# what PyCO2SYS.sys returns when given two parameters (PyCO2SYS 1.8)
CO2SYS_KEYS = tuple("""
par1 par1_type par2 par2_type alkalinity dic opt_k_bisulfate
opt_k_carbonic opt_k_fluoride opt_total_borate opt_gas_constant
opt_pH_scale opt_buffers_mode salinity temperature pressure
total_ammonia total_borate total_calcium total_fluoride total_phosphate
total_silicate total_sulfate total_sulfide peng_correction gas_constant
total_alpha total_beta pressure_atmosphere pressure_atmosphere_out
opt_pressured_kCO2 opt_adjust_temperature opt_which_fCO2_insitu
bh_upsilon pH pCO2 fCO2 bicarbonate carbonate aqueous_CO2 xCO2
alkalinity_borate hydroxide alkalinity_phosphate alkalinity_silicate
alkalinity_ammonia alkalinity_sulfide hydrogen_free revelle_factor
saturation_calcite saturation_aragonite pH_total pH_sws pH_free pH_nbs
gamma_dic beta_dic omega_dic gamma_alk beta_alk omega_alk
isocapnic_quotient isocapnic_quotient_approx psi
substrate_inhibitor_ratio alkalinity_alpha alkalinity_beta HCO3 CO3 CO2
BOH4 BOH3 OH Hfree H3PO4 H2PO4 HPO4 PO4 H3SiO4 H4SiO4 NH3 NH4 HS H2S
HSO4 SO4 HF F alpha alphaH beta betaH dlnfCO2_dT dlnpCO2_dT k_CO2
k_carbonic_1 k_carbonic_2 k_water k_borate k_bisulfate k_fluoride
k_phosphoric_1 k_phosphoric_2 k_phosphoric_3 k_silicate k_ammonia
k_sulfide k_calcite k_aragonite fugacity_factor vp_factor fH k_alpha
k_beta
""".split())


PYCO2_DEFAULTS = {k: num(v) for k, v in dict(
    salinity=35, temperature=25, pressure=0, total_ammonia=0,
    total_phosphate=0, total_silicate=0, total_sulfide=0, total_alpha=0,
    total_beta=0, opt_gas_constant=3, opt_k_bisulfate=1, opt_k_carbonic=10,
    opt_k_fluoride=1, opt_pH_scale=1, opt_total_borate=1,
    opt_buffers_mode=1).items()}


@ext("PyCO2SYS.sys")
def _pyco2(I, args, kw, st, name):
    kw = dict(kw)
    for n, v in zip(LIB_SIGS[name], args):
        kw[n] = (TRUE, v)
    note_fallible(I, name, st)
    # giving a parameter its default value is the same as not giving it
    for n, d in PYCO2_DEFAULTS.items():
        if n in kw:
            c, v = kw[n]
            v = v if c is TRUE else phi(c, v, d)
            if v is d:
                del kw[n]
            else:
                kw[n] = (TRUE, v)
    # the known pair may be given in either order
    t1, t2 = (T.const_val(kw[k][1]) if k in kw and kw[k][0] is TRUE else None
              for k in ("par1_type", "par2_type"))
    if t1 is not None and t2 is not None and t2 < t1 and all(
            kw.get(k, (FALSE, NONE))[0] is TRUE for k in ("par1", "par2")):
        kw["par1"], kw["par2"] = kw["par2"], kw["par1"]
        kw["par1_type"], kw["par2_type"] = kw["par2_type"], kw["par1_type"]
    return generic(I, name, [], kw, st)


PYCO2_KS = ("KSO4_P0", "KF_P0", "fH", "pHfactor_from_SWS", "KB", "KW", "KP1",
            "KP2", "KP3", "KSi", "K1", "K2", "KH2S", "KNH3", "K0", "FugFac",
            "VPFac", "pHfactor_to_Free", "KAr", "KCa")


@ext("PyCO2SYS.salts.assemble")
def _salts(I, args, kw, st, name):
    """Summary of PyCO2SYS.salts.assemble: fills (in place) what is missing."""
    from .interp import HDict
    sal, si, po4, nh3, h2s, optk, optb, tot = params(
        LIB_SIGS[name], args, kw, NONE)
    note_fallible(I, name, st)
    if any(x is None for x in (sal, si, po4, nh3, h2s, optk, optb)):
        return I.do_raise("TypeError", st)
    if tot is NONE:
        tot = I.new(HDict(), st)
    o = I.obj(tot, st)
    if not isinstance(o, HDict):
        return None
    o = I.mut(tot, st, "update")
    fresh = T.eq(optk, num(8))
    sal = phi(fresh, ZERO, sal)
    nonut = or_(T.eq(optk, num(6)), fresh)
    for k, dep in (("TB", (sal, optk, optb)), ("TF", (sal,)),
                   ("TSO4", (sal,)), ("TCa", (sal, optk)),
                   ("total_alpha", None), ("total_beta", None)):
        k = const(k)
        d = ZERO if dep is None else mk("app", "pyco2.total", (k,) + dep, ())
        c, v = o.lookup(k)
        o.items[k] = (TRUE, d if c is FALSE else phi(c, v, d))
    mol = lambda x: T.mul(phi(nonut, ZERO, x), num(1e-6))
    for k, v in (("TPO4", mol(po4)), ("TSi", mol(si)), ("TNH3", mol(nh3)),
                 ("TH2S", mol(h2s)), ("Sal", sal),
                 ("PengCorrection", phi(T.eq(optk, num(7)), mol(po4), ZERO))):
        o.items[const(k)] = (TRUE, v)
    return tot


@ext("PyCO2SYS.equilibria.assemble")
def _equil(I, args, kw, st, name):
    from .interp import HDict
    t, p, tot, scale, optc, optb, optf, optg, ks, atm, press = params(
        LIB_SIGS[name], args, kw, NONE, ONE, ZERO)
    note_fallible(I, name, st)
    if any(x is None for x in (t, p, tot, scale, optc, optb, optf, optg)):
        return I.do_raise("TypeError", st)
    if ks is NONE:
        ks = I.new(HDict(), st)
    if not isinstance(I.obj(ks, st), HDict):
        return None
    g = lambda k: I.getitem(tot, const(k), st)
    sal, tso4, tf = g("Sal"), g("TSO4"), g("TF")
    o = I.mut(ks, st, "update")
    c, v = o.lookup(const("gas_constant"))
    gas = mk("app", "pyco2.gas", (optg,), ())
    o.items[const("RGas")] = (TRUE, gas)

    def put(k, d):
        k = const(k)
        c, v = o.lookup(k)
        o.items[k] = (TRUE, d if c is FALSE else phi(c, v, d))
        return o.items[k][1]

    kso4 = put("KSO4", mk("app", "pyco2.K", (
        const("KSO4"), t, sal, p, gas, optb), ()))
    kf = put("KF", mk("app", "pyco2.K", (
        const("KF"), t, sal, p, gas, optf), ()))
    for k in PYCO2_KS:
        put(k, mk("app", "pyco2.K", (
            const(k), t, sal, p, gas, tso4, tf, kso4, kf, scale, optc, optb,
            optf, atm, press), ()))
    put("k_alpha", num(1e-7))
    put("k_beta", num(1e-7))
    return ks


def canon_sign(r):
    """Least squares does not depend on the sign of the residual."""
    if r.op == "phi":
        a, b = canon_sign(r.args[1]), canon_sign(r.args[2])
        return phi(r.args[0], a, b)
    if r.op != "num" or r is ZERO:
        return r
    p = sorted(r.args[0], key=lambda mc: T._mkey(mc[0]))
    return T.neg(r) if p[0][1] < 0 else r


T.RENORMAL["lsqx"] = lambda n: mk(
    "lsqx", n.args[0], canon_sign(n.args[1]), *n.args[2:])


@ext("scipy.optimize.least_squares")
def _lsq(I, args, kw, st, name):
    from .interp import HDict
    fun, x0 = params(("fun", "x0"), args, kw)
    fargs = val(kw, "args", mk("tuple", ()))
    fkw = val(kw, "kwargs", NONE)
    note_fallible(I, name, st)
    opts = tuple(sorted((k, I.snap(v, st)) for k, (c, v) in kw.items()
                        if k not in ("fun", "x0", "args", "kwargs")))
    def benign(k, v):
        if k in ("method", "x_scale", "jac", "verbose", "tr_solver"):
            return True
        if k in ("xtol", "ftol", "gtol"):
            t = T.const_val(v)
            return v is NONE or t is not None and t <= 1e-8
        if k == "loss":
            return v is const("linear")
        return False

    opts = tuple((k, v) for k, v in opts if not benign(k, v))
    items = I.elements(x0, st)
    if items is None:
        xs0 = [x0 if x0.op != "ref" else I.snap(x0, st)]
    else:
        xs0 = [v for _, v in items]
    I.lsq_depth += 1
    lev = I.lsq_depth
    bvs = tuple(mk("bv", lev, i) for i in range(len(xs0)))
    x = mk("vec", bvs)
    aitems = I.elements(fargs, st)
    av = [v for _, v in aitems] if aitems is not None else [
        I.unk("lsqargs", fargs)]
    k2 = {}
    if fkw is not NONE:
        I.expand_kwargs(fkw, k2, st)
    before = dict(st.heap)
    s1 = st.fork()
    saved, I.raises = I.raises, []
    try:
        r = I.call(fun, [x] + av, k2, s1)
    finally:
        I.lsq_depth -= 1
        inner, I.raises = I.raises, saved
    if r.op == "ref" or r.op == "tuple":
        r = as_array(I, r, s1)
        if r.op == "ref":
            r = I.snap(r, s1)
    # effects of one residual evaluation on the caller's objects
    from .interp import HDict as HD, HTable, Scope
    for i, o in before.items():
        n = s1.heap.get(i)
        if n is None or n is o or isinstance(o, Scope):
            continue
        I.effect("lsqmutate", (i, o, n, bvs), st)
        same = isinstance(o, HD) and all(
            T.compare(o.lookup(k)[1], n.lookup(k)[1]) == "eq"
            for k in n.items if o.lookup(k)[0] is not FALSE)
        if not same:
            # unknown number of evaluations
            if isinstance(o, HD):
                m = o.clone()
                for k, (c, v) in n.items.items():
                    c0, v0 = o.lookup(k)
                    if T.compare(v0, v) == "eq" and c0 is c:
                        continue
                    if c0 is FALSE and T.compare(v, ZERO) == "eq":
                        m.items[k] = (c, ZERO)
                        continue
                    m.items[k] = (c, mk("lsqdrift", v))
                st.heap[i] = m
    for ty, v, s, wh in inner:
        # raised by some evaluation of the residual
        c = and_(*s.pc[len(st.pc):])
        if any(n.op == "bv" for n in T.walk(c)):
            c = mk("exc", ("lsq", c))
        if c is FALSE:
            continue
        I.raises.append((ty, v, st.fork(c), wh))
        if c is not TRUE:
            st.assume(not_(c))
    rc = canon_sign(r)
    sol = tuple(mk("lsqx", i, rc, tuple(xs0), opts, lev)
                for i in range(len(xs0)))
    m = dict(zip(bvs, sol))
    fun_at = T.subst(r, m)
    res = HDict({
        const("x"): (TRUE, mk("vec", sol)),
        const("fun"): (TRUE, fun_at),
        const("cost"): (TRUE, app("lsq.cost", *sol)),
        const("success"): (TRUE, app("lsq.success", *sol)),
        const("status"): (TRUE, app("lsq.status", *sol)),
        const("jac"): (TRUE, app("lsq.jac", *sol)),
        const("nfev"): (TRUE, app("lsq.nfev", *sol)),
        const("message"): (TRUE, app("lsq.message", *sol)),
        const("grad"): (TRUE, app("lsq.grad", *sol)),
        const("optimality"): (TRUE, app("lsq.optimality", *sol)),
        const("active_mask"): (TRUE, app("lsq.active_mask", *sol)),
        const("njev"): (TRUE, app("lsq.njev", *sol)),
    }, kind="lsq")
    return I.new(res, st)


# ------------------------------------------------------------ methods
def is_rec(x):
    """An object of an outside library whose calls are only recorded."""
    return x.op == "sym" and "rec" in x.args[1]


def recorded(I, base, name, args, kw, st):
    I.effect("draw", (base.args[0], name,
                      tuple(I.snap(a, st) for a in args),
                      tuple((k, I.snap(v, st)) for k, (_, v)
                            in sorted(kw.items()))), st)
    return T.sym(base.args[0] + "." + name + "()", "s", "nn", "rec")


def method(I, base, name, args, kw, st):
    from .interp import HDict, HList, HObj, HSet, HTable
    if is_rec(base):
        return recorded(I, base, name, args, kw, st)
    if base.op == "phi":
        return I.branch(base.args[0], st,
                        lambda s: method(I, base.args[1], name, args, kw, s),
                        lambda s: method(I, base.args[2], name, args, kw, s))
    o = I.obj(base, st)
    if isinstance(o, HTable):
        return frame_method(I, base, o, name, args, kw, st)
    if isinstance(o, HDict):
        return dict_method(I, base, o, name, args, kw, st)
    if isinstance(o, HList):
        return list_method(I, base, o, name, args, kw, st)
    if isinstance(o, HSet):
        return set_method(I, base, o, name, args, kw, st)
    if base.op == "nt":
        return nt_method(I, base, name, args, kw, st)
    if base.op == "tuple":
        if name == "index" and args:
            for i, v in enumerate(base.args[0]):
                if v is args[0]:
                    return num(i)
        return I.unk("tuplemethod")
    if base.op == "groupby":
        return groupby_method(I, base, name, args, kw, st)
    from .interp import is_str
    if base.op == "const" and base.args[0] == "str" or (
            name in STR_METHODS and is_str(base)) or name in (
            "lower", "upper", "startswith", "endswith", "strip", "split",
            "splitlines", "casefold", "format", "join"):
        return str_method(I, base, name, args, kw, st)
    return array_method(I, base, name, args, kw, st)


def str_method(I, base, name, args, kw, st):
    if base.op == "phi":
        return phi(base.args[0], str_method(I, base.args[1], name, args, kw,
                                            st),
                   str_method(I, base.args[2], name, args, kw, st))
    if name == "format":
        return format_term(I, base, args, kw, st)
    if name == "join" and args:
        items = I.elements(args[0], st)
        if items is not None and all(c is TRUE for c, _ in items):
            from .interp import concat_parts
            parts = []
            for i, (_, v) in enumerate(items):
                if i:
                    parts.append(base)
                parts.append(v)
            return concat_parts(parts) if parts else const("")
    if base.op == "const" and all(a.op in ("const", "num", "tuple")
                                  for a in args) and not kw:
        try:
            r = getattr(base.args[1], name)(*[T.pyval(a) for a in args])
            if isinstance(r, list):
                from .interp import HList
                return I.new(HList([(TRUE, const(x)) for x in r]), st)
            if isinstance(r, (bool, str)):
                return const(r)
            if isinstance(r, int):
                return num(r)
        except Exception:
            pass
    if name == "casefold":
        name = "lower"
    if base.op == "app" and base.args[0] in ("str.lower", "str.upper") and \
            name in ("lower", "upper"):
        base = base.args[1][0]
    return mk("app", "str." + name,
              (base,) + tuple(I.snap(a, st) for a in args), ())


def format_term(I, base, args, kw, st):
    import string
    from .interp import concat_parts
    if base.op == "const":
        try:
            parts = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(
                    base.args[1]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field][1]
                else:
                    raise ValueError
                if v.op == "ref":
                    v = I.snap(v, st)
                if spec or conv:
                    parts.append(app("format", v, const(spec or ""),
                                     num(-1)))
                else:
                    parts.append(v)
            return concat_parts(parts)
        except Exception:
            pass
    if base.op == "app" and base.args[0] == "concat":
        # "{:" + fmt + "}" templates: parse symbolically
        r = template(I, base.args[1], args, kw, st)
        if r is not None:
            return r
    return generic(I, "str.format", [base] + list(args), kw, st)


def template(I, parts, args, kw, st):
    """Format template assembled from literal and symbolic pieces."""
    from .interp import concat_parts
    out = []
    auto = 0
    infield = False
    spec = []
    lit = ""
    for p in parts:
        if p.op != "const":
            if not infield:
                return None
            spec.append(p)
            continue
        i = 0
        s = p.args[1]
        while i < len(s):
            ch = s[i]
            if not infield:
                if ch == "{":
                    if lit:
                        out.append(const(lit))
                        lit = ""
                    infield = True
                    spec = []
                    j = i + 1
                    name = ""
                    while j < len(s) and s[j] not in ":}":
                        name += s[j]
                        j += 1
                    fname = name
                    if j < len(s) and s[j] == ":":
                        j += 1
                    i = j
                    continue
                lit += ch
                i += 1
            else:
                if ch == "}":
                    infield = False
                    if fname == "":
                        if auto >= len(args):
                            return None
                        v = args[auto]
                        auto += 1
                    elif fname in kw:
                        v = kw[fname][1]
                    else:
                        return None
                    sp = concat_parts(spec)
                    out.append(app("format", v, sp, num(-1)))
                    i += 1
                else:
                    spec.append(const(ch))
                    i += 1
    if infield:
        return None
    if lit:
        out.append(const(lit))
    return concat_parts(out)


def nt_method(I, base, name, args, kw, st):
    from .interp import HDict
    cls = base.args[0]
    if name == "_asdict":
        return I.new(HDict({const(f): (TRUE, v) for f, v in
                            zip(cls.fields, base.args[1])}), st)
    if name == "_replace":
        vals = list(base.args[1])
        for k, (c, v) in kw.items():
            if k in cls.fields:
                vals[cls.fields.index(k)] = v
        return mk("nt", cls, tuple(vals))
    return I.unk("nt:" + name)


def dict_method(I, base, o, name, args, kw, st):
    from .interp import UNDEF, HDict, HList, HSet
    if name in ("items", "keys", "values"):
        if o.base is not None or getattr(o, "havoc", False):
            return mk("app", "dict." + name, (I.snap(base, st),), ())
        out = []
        for k, (c, v) in o.items.items():
            if c is FALSE:
                continue
            x = {"items": mk("tuple", (k, v)), "keys": k, "values": v}[name]
            out.append((c, x))
        if name == "keys":
            return I.new(HSet({k: c for c, k in out}), st) if False else \
                I.new(HList(out), st)
        return I.new(HList(out), st)
    if name in ("get", "pop", "setdefault", "__getitem__"):
        d = args[1] if len(args) > 1 else val(kw, "default", NONE)
        key = args[0]
        if not T.is_literal(key) and key not in o.items:
            if o.base is None and o.items and name == "get":
                out = d
                for k, (c, v) in reversed(list(o.items.items())):
                    out = phi(and_(c, T.eq(key, k)), v, out)
                return out
            return I.unk("dictget", key)
        p, v = o.lookup(key)
        if v is UNDEF:
            r = d
        else:
            r = I.vphi(p, v, d) if p is not TRUE else v
        if name == "pop":
            if len(args) < 2 and not kw:
                I.do_raise("KeyError", st, cond=not_(p))
                r = v
            n = I.mut(base, st, "pop", key)
            n.items[key] = (FALSE, UNDEF)
        if name == "setdefault":
            n = I.mut(base, st, "setdefault", key) if p is not TRUE else None
            if n is not None:
                n.items[key] = (TRUE, r)
        return r
    if name == "update":
        n = I.mut(base, st, "update")
        for a in args:
            dict_update(I, n, a, st)
        for k, (c, v) in kw.items():
            I.dict_set(n, const(k), v, st, c)
        return NONE
    if name in ("copy", "to_dict"):
        n = o.clone()
        n.owner = None
        if name == "to_dict":
            n.kind = "dict"
        return I.new(n, st)
    if name == "clear":
        n = I.mut(base, st, "clear")
        n.items = {}
        return NONE
    if name == "__contains__":
        return I.contains(base, args[0], st)
    if name in ("fillna",):
        n = o.clone()
        n.owner = None
        n.items = {k: (c, phi(T.isnull(v), args[0], v))
                   for k, (c, v) in o.items.items()}
        return I.new(n, st)
    if name == "dropna":
        n = o.clone()
        n.owner = None
        if o.base is not None:
            return I.new(HDict(base=mk("dropna", I.snap(base, st)),
                               kind=o.kind), st)
        n.items = {k: (and_(c, not_(T.isnull(v))), v)
                   for k, (c, v) in o.items.items()}
        return I.new(n, st)
    return I.unk("dict." + name)


def list_method(I, base, o, name, args, kw, st):
    from .interp import HList
    if name in ("append", "extend", "insert", "remove", "pop", "clear",
                "sort", "reverse"):
        n = I.mut(base, st, name)
        if name == "append":
            n.items.append((TRUE, args[0]))
        elif name == "extend":
            it = I.elements(args[0], st)
            if it is None:
                n.items.append((TRUE, I.unk("extend", args[0])))
                n.havoc = True
            else:
                n.items.extend(it)
        elif name == "clear":
            n.items = []
        elif name == "reverse":
            n.items.reverse()
        elif name == "insert" and T.int_val(args[0]) is not None:
            n.items.insert(T.int_val(args[0]), (TRUE, args[1]))
        elif name == "pop":
            i = T.int_val(args[0]) if args else -1
            if i is not None and n.items and all(c is TRUE
                                                 for c, _ in n.items):
                return n.items.pop(i)[1]
            n.havoc = True
            return I.unk("pop")
        else:
            n.items = [(c, I.unk("list", v)) for c, v in n.items]
        return NONE
    if name == "copy":
        return I.new(HList(o.items), st)
    if name == "index":
        for i, (c, v) in enumerate(o.items):
            if v is args[0] and c is TRUE:
                return num(i)
        note_fallible(I, "list.index", st)
        return mk("app", "list.index", (I.snap(base, st), args[0]), ())
    if name == "count":
        return I.unk("count")
    return I.unk("list." + name)


def set_method(I, base, o, name, args, kw, st):
    from .interp import HSet
    if name in ("add", "discard", "remove", "update", "difference_update",
                "intersection_update", "clear", "pop"):
        n = I.mut(base, st, name)
        if name == "add":
            n.items[args[0]] = TRUE
        elif name in ("discard", "remove"):
            n.items.pop(args[0], None)
        elif name == "update":
            for a in args:
                d = as_set(I, a, st)
                if d is None:
                    n.havoc = True
                    continue
                for k, c in d.items():
                    n.items[k] = or_(n.items.get(k, FALSE), c)
        elif name == "clear":
            n.items = {}
        else:
            for a in args:
                d = as_set(I, a, st) or {}
                for k in list(n.items):
                    c = d.get(k, FALSE)
                    n.items[k] = and_(n.items[k], not_(c)
                                      if name.startswith("diff") else c)
        return NONE
    if name in ("union", "intersection", "difference", "copy",
                "symmetric_difference"):
        cur = HSet(o.items)
        ops = {"union": "BitOr", "intersection": "BitAnd",
               "difference": "Sub", "symmetric_difference": "BitXor"}
        r = I.new(cur, st)
        for a in args:
            ao = I.obj(a, st)
            if not isinstance(ao, HSet):
                d = as_set(I, a, st)
                if d is None:
                    return I.unk("set")
                a = I.new(HSet(d), st)
            r = obj_binop(I, ops[name], r, a, I.obj(r, st), I.obj(a, st), st)
        return r
    if name in ("issubset", "issuperset"):
        d = as_set(I, args[0], st)
        if d is None:
            return mk("truth", I.unk("subset"))
        a, b = (o.items, d) if name == "issubset" else (d, o.items)
        return and_(*[or_(not_(c), b.get(k, FALSE)) for k, c in a.items()])
    return I.unk("set." + name)


def array_method(I, base, name, args, kw, st):
    x = base
    inplace = val(kw, "inplace")
    if name in ("squeeze", "item") and x.op == "vec" and \
            len(x.args[0]) == 1 and not args:
        return x.args[0][0]
    if name in ("copy", "to_numpy", "flatten", "ravel", "squeeze"):
        return x
    if name == "astype":
        d = args[0] if args else val(kw, "dtype")
        if is_float_dtype(d):
            return x
        if d in (const("bool"), mk("ext", "builtins.bool")):
            return as_bool(x)
        return mk("app", "cast.int", (x, d if d is not None else NONE), ())
    if name == "item":
        return x if not args else array_index(x, args[0])
    if name in ("notnull", "notna"):
        return not_(T.isnull(x))
    if name in ("isnull", "isna"):
        return T.isnull(x)
    if name in ("where", "mask"):
        c = as_bool(args[0] if args else val(kw, "cond"))
        other = args[1] if len(args) > 1 else val(kw, "other", NAN)
        if other.op == "ref":
            other = I.snap(other, st)
        return phi(c, x, other) if name == "where" else phi(c, other, x)
    if name == "fillna":
        v = args[0] if args else val(kw, "value")
        if v is None or v.op == "ref":
            return I.unk("fillna", x)
        return phi(T.isnull(x), v, x)
    if name == "combine_first":
        return phi(T.isnull(x), args[0], x)
    if name in ("add", "sub", "mul", "div", "pow") and args:
        return I.binop({"add": "Add", "sub": "Sub", "mul": "Mult",
                        "div": "Div", "pow": "Pow"}[name], x, args[0], st)
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        return EXT[name](I, [x, args[0]], {}, st, name)
    if name == "between":
        inc = val(kw, "inclusive", args[2] if len(args) > 2
                  else const("both"))
        lo, hi = args[0], args[1]
        i = inc.args[1] if inc.op == "const" else "both"
        a = T.le(lo, x) if i in ("both", "left") else T.lt(lo, x)
        b = T.le(x, hi) if i in ("both", "right") else T.lt(x, hi)
        return and_(a, b)
    if name == "isin":
        items = I.elements(args[0], st)
        if items is not None:
            return or_(*[and_(c, T.eq(x, v)) for c, v in items])
    pandasish = any(n.op in ("grp", "col") for n in T.walk(x))
    grpish = any(n.op == "grp" for n in T.walk(x))
    if name in ("sum",):
        if grpish:
            return reduce_linear("numpy.sum", notnull_filter(x)) \
                if x.op not in T.BOOLOPS else app("numpy.sum", x)
        return _sum(I, [x] + args, kw, st, "numpy.sum")
    if name == "mean":
        if kw and "axis" not in kw and "skipna" not in kw:
            return I.unk("mean", x)
        if grpish:
            return mean_skipna(x)
        return reduce_linear("numpy.mean", x)
    if name == "std":
        dd = val(kw, "ddof", args[0] if args else (ONE if grpish else ZERO))
        return std_term(notnull_filter(x) if grpish else x, dd)
    if name == "count" and grpish:
        return size(notnull_filter(x))
    if name in ("max", "min", "median", "argmax", "argmin", "var", "prod"):
        if args or kw:
            return generic(I, "." + name, [x] + args, kw, st)
        if name in ("min", "argmax"):
            return _red(I, [x], kw, st, "numpy." + name)
        return app(("pandas." if grpish and name == "median" else "numpy.")
                   + name, x)
    if name in ("any", "all"):
        return anyall(x, name == "any")
    if name == "nonzero":
        return mk("tuple", (app("numpy.nonzero", as_bool(x)),))
    if name == "round":
        return mk("app", "numpy.round", (x,) + tuple(args), ())
    if name == "clip":
        return generic(I, "numpy.clip", [x] + args, kw, st)
    if name == "abs":
        return app("numpy.abs", x)
    if name == "read":
        return app("file.read", x)
    if name == "readlines":
        return app("file.readlines", x)
    if name == "writelines" and len(args) == 1:
        items = I.elements(args[0], st)
        if items is not None:
            for c, v in items:
                s = st if c is TRUE else st.fork(c)
                if s is not None:
                    I.effect("write", (x, (I.snap(v, st),)), s)
            return NONE
        args = list(args) + [NONE]
    if name in ("write", "writelines"):
        I.effect("write", (x, tuple(I.snap(a, st) for a in args)), st)
        return NONE
    if name == "sort":
        return NONE
    if name == "fill":
        return NONE
    if name == "append":
        I.effect("append", (x,), st)
        return NONE
    if name == "map" or name == "apply":
        if args and args[0].op in ("func", "ext", "bound", "partial"):
            return I.call(args[0], [x], {}, st)
        if args and args[0].op == "bycol":
            return row_lookup2(I, args[0], x, st, False)
        o = I.obj(args[0], st) if args else None
        from .interp import HDict
        if isinstance(o, HDict) and o.base is None and name == "map":
            out = NAN
            for k, (c, v) in reversed(list(o.items.items())):
                out = phi(and_(c, T.eq(x, k)), v, out)
            return out
        return I.unk("map", x, *[a for a in args if a.op != "ref"])
    if name == "reindex":
        k = args[0] if args else val(kw, "index")
        fill = val(kw, "method")
        extra = set(kw) - {"index", "copy", "method"}
        if fill not in (None, NONE) and fill.op == "const" and not extra \
                and k is not None and k.op != "ref":
            # rows that are not there are invented from their neighbours
            return mk("app", "pandas.reindex", (x, k, fill), ())
        if x.op == "bycol" and k is not None and not extra and \
                fill in (None, NONE):
            return row_lookup2(I, x, k, st, False)
        if x.op == "app" and x.args[0] in (
                "pandas.ffill", "pandas.bfill", "pandas.interpolate",
                "pandas.shift", "pandas.rank", "pandas.cumsum",
                "numpy.cumsum") and k is not None and k.op != "ref":
            return mk("app", "pandas.reindex", (x, k), ())
        return I.unk("reindex", x)
    if name in ("tolist", "to_list"):
        return x
    if name == "groupby":
        k = args[0] if args else val(kw, "by")
        if not plain_groupby(kw) or k is None:
            return I.unk("groupby", x)
        if val(kw, "dropna") is FALSE:
            k = mk("nullkey", k)
        return mk("groupby", x, k, NONE)
    if name == "transform":
        return I.unk("transform", x)
    if name == "get" and x.op == "app" and args:
        return I.unk("get", x, args[0])
    if name in ("items", "keys"):
        return mk("app", "dict." + name, (x,), ())
    if name in ("scatter", "plot", "legend", "grid", "set_xlabel",
                "set_ylabel", "axhline", "fill_between", "set_xlim",
                "get_xlim", "text", "set_ylim", "get_ylim", "axvline",
                "errorbar", "set_title", "tick_params", "savefig"):
        I.effect("plot", (name, tuple(I.snap(a, st) for a in args),
                          tuple(sorted((k, I.snap(v, st))
                                       for k, (c, v) in kw.items()))), st)
        return app("plot." + name, I.unk("plot"))
    if name in ("match", "fullmatch", "search") and x.op == "app" and \
            x.args[0] == "re.compile":
        return mk("app", "re." + name, (x,) + tuple(args), ())
    if name == "index":
        note_fallible(I, "list.index", st)
        return mk("app", "list.index", (x,) + tuple(args), ())
    if name in ("cumsum", "diff", "shift", "ffill", "bfill", "interpolate",
                "rank", "unique", "nunique", "sort_values"):
        return generic(I, ("numpy." if name in ("cumsum", "diff", "unique")
                           else "pandas.") + name, [x] + args, kw, st)
    return generic(I, "." + name, [x] + args, kw, st)


# ------------------------------------------------------------ frames
APPLY_PARAMS = {"axis", "raw", "result_type", "args", "by_row", "engine",
                "engine_kwargs"}


def row_view(I, o, st):
    from .interp import HDict
    items = {k: (c, to_cell(v)) for k, (c, v) in o.cols.items()}
    return I.new(HDict(items, base=o.base, kind="series", cell="cell"), st)


def to_cell(v):
    """Column term -> term of its value in the generic row."""
    def f(x):
        if x.op == "col" and len(x.args) == 2:
            return mk("cell", *x.args)
        if x.op in ("app", "bycol", "grp") and x.op != "app":
            return x
        if x.op == "app" and x.args[0] in T.SCALAR_APPS:
            return x
        return None
    return T.transform(v, f)


def from_cell(v):
    return T.transform(v, lambda x: mk("col", *x.args)
                       if x.op == "cell" and x.args[0].op != "rowof"
                       else None)


def series_to_table(I, v, st, index=None):
    """Row results (possibly a phi of Series objects) as table columns."""
    from .interp import HDict, HTable, UNDEF

    def go(x):
        if x.op == "phi":
            a, b = go(x.args[1]), go(x.args[2])
            if a is None or b is None:
                return None
            c = x.args[0]
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                p, u = a.get(k, (FALSE, UNDEF))
                q, w = b.get(k, (FALSE, UNDEF))
                if u is UNDEF:
                    u = NAN
                if w is UNDEF:
                    w = NAN
                # a column exists as soon as one row yields it
                out[k] = (or_(p, q), phi(from_cell(c), u, w))
            return out
        o = I.obj(x, st)
        if isinstance(o, HDict):
            out = {k: (c, from_cell(w) if w is not UNDEF else w)
                   for k, (c, w) in o.items.items()}
            if o.base is not None:
                out["base"] = o.base
            return out
        return None

    d = go(v)
    if d is None:
        return None
    base = d.pop("base", None)
    return I.new(HTable({k: cv for k, cv in d.items()}, index=index,
                        base=base), st)


def after_other_row(I, o, fn, a2, k2, v, st, st0):
    """The row function changes something that outlives the row: does its
    result for a row depend on what another row left behind?"""
    def other(t):
        return T.transform(t, lambda n: mk(
            "col", const("other row"), n.args[1])
            if n.op == "col" and n.args[0] is const("ds") else None)
    o2 = o.clone()
    o2.cols = {k: (other(c), other(x)) for k, (c, x) in o.cols.items()}
    ne, nr = len(I.effects), len(I.raises)
    try:
        I.call(fn, [row_view(I, o2, st0)] + a2, k2, st0)
        w = I.call(fn, [row_view(I, o, st0)] + a2, k2, st0)
        pair = (I.snap(v, st), I.snap(w, st0))
    finally:
        del I.effects[ne:]
        del I.raises[nr:]
    I.effect("rowdep", pair, st)


def frame_method(I, base, o, name, args, kw, st):
    from .interp import UNDEF, HDict, HList, HTable
    if name == "apply":
        fn = args[0] if args else val(kw, "func")
        axis = val(kw, "axis", args[1] if len(args) > 1 else ZERO)
        if axis in (ONE, const("columns")):
            extra = val(kw, "args")
            a2 = []
            if extra is not None:
                it = I.elements(extra, st)
                a2 = [v for _, v in it] if it else []
            k2 = {k: v for k, v in kw.items() if k not in APPLY_PARAMS
                  and k != "func"}
            row = row_view(I, o, st)
            neff = len(I.effects)
            saved_cover, I.trycover = I.trycover, []
            I.rowdepth += 1
            nr = len(I.raises)
            heap0 = dict(st.heap)
            st0 = st.fork()
            try:
                v = I.call(fn, [row] + a2, k2, st)
                if any(st.heap.get(i) is not x for i, x in heap0.items()):
                    after_other_row(I, o, fn, a2, k2, v, st, st0)
            finally:
                I.rowdepth -= 1
                I.trycover = saved_cover
            I.effect("rowapply", (fn, v, neff, len(I.effects), nr,
                                  len(I.raises)), st)
            t = series_to_table(I, v, st, o.index)
            return t if t is not None else from_cell(v)
        return I.unk("apply")
    if name == "copy":
        n = o.clone()
        n.owner = None
        return I.new(n, st)
    if name == "groupby":
        k = args[0] if args else val(kw, "by")
        ko = I.obj(k, st)
        if ko is not None:
            it = I.elements(k, st)
            if it is not None and len(it) == 1:
                k = it[0][1]
        kt = table_get(I, base, o, k, st) if k.op == "const" else k
        if not plain_groupby(kw):
            return I.unk("groupby", kt)
        if val(kw, "dropna") is FALSE:
            kt = mk("nullkey", kt)
        return mk("groupby", base, mk("tuple", (k, kt)), NONE)
    if name == "items":
        if o.base is None:
            return I.new(HList([(c, mk("tuple", (k, v)))
                                for k, (c, v) in o.cols.items()
                                if c is not FALSE]), st)
        return mk("app", "frame.items", (I.snap(base, st),), ())
    if name == "iterrows":
        return mk("iterrows", base)
    if name == "itertuples":
        return mk("itertuples", base)
    if name == "rename":
        m = val(kw, "columns")
        mo = I.obj(m, st) if m is not None else None
        if isinstance(mo, HDict):
            n = o.clone()
            n.owner = None
            olds = {}
            for k, (c, v) in mo.items.items():
                p, x = o.lookup(k)
                olds[k] = (p, x, v)
            for k in olds:
                n.cols[k] = (FALSE, UNDEF)
            for k, (p, x, v) in olds.items():
                if x is not UNDEF:
                    n.cols[v] = (p, x)
            if val(kw, "inplace") is TRUE:
                n.owner = o.owner
                I.mut(base, st, "rename")
                st.heap[base.args[0]] = n
                return NONE
            return I.new(n, st)
    if name == "assign":
        n = o.clone()
        n.owner = None
        r = I.new(n, st)
        for k, (c, v) in kw.items():
            if v.op in ("func", "bound", "partial"):
                v = I.call(v, [r], {}, st)
                n = st.heap[r.args[0]].clone()
                st.heap[r.args[0]] = n
            n.cols[const(k)] = (TRUE, v)
        return r
    if name == "join":
        other = args[0]
        oo = I.obj(other, st)
        on = val(kw, "on")
        if isinstance(oo, HTable) and on is None:
            n = o.clone()
            n.owner = None
            for k, cv in oo.cols.items():
                n.cols[k] = cv
            return I.new(n, st)
        if isinstance(oo, HTable) and on is not None and oo.index is not \
                None and on.op == "const":
            keyt = table_get(I, base, o, on, st)
            n = o.clone()
            n.owner = None
            for k, (c, v) in oo.cols.items():
                n.cols[k] = (c, row_lookup2(I, mk("bycol", oo.index, v),
                                            keyt, st, False))
            return I.new(n, st)
        return I.new(HTable(base=I.unk("join")), st)
    if name == "drop":
        cols = val(kw, "columns", args[0] if args else None)
        items = None
        if cols is not None:
            items = [(TRUE, cols)] if cols.op == "const" else I.elements(
                cols, st)
        if items is not None:
            n = o.clone()
            n.owner = None
            for _, k in items:
                n.cols[k] = (FALSE, UNDEF)
            if val(kw, "inplace") is TRUE:
                I.mut(base, st, "drop")
                n.owner = o.owner
                st.heap[base.args[0]] = n
                return NONE
            return I.new(n, st)
    if name == "get":
        p, v = o.lookup(args[0])
        d = args[1] if len(args) > 1 else NONE
        if v is UNDEF:
            return d
        return phi(p, v, d)
    if name == "pop":
        v = table_get(I, base, o, args[0], st)
        n = I.mut(base, st, "pop", args[0])
        n.cols[args[0]] = (FALSE, UNDEF)
        return v
    if name == "insert":
        return (setitem(I, base, args[1], args[2], st, None), NONE)[1]
    if name == "keys":
        return getattr_(I, base, "columns", st)
    if name in ("reset_index",):
        n = o.clone()
        n.owner = None
        n.index = None
        return I.new(n, st)
    if name in ("sort_values", "sort_index", "head", "tail", "query",
                "dropna"):
        I.effect("reorder", (name,), st)
        sub = val(kw, "subset")
        if name == "dropna" and sub is not None and set(kw) == {"subset"} \
                and not args:
            it = [(TRUE, sub)] if sub.op == "const" else I.elements(sub, st)
            if it is not None and all(c is TRUE and k.op == "const" and
                                      o.lookup(k)[1] is not UNDEF
                                      for c, k in it):
                keep = and_(*[not_(T.isnull(table_get(I, base, o, k, st)))
                              for _, k in it])
                if keep.op in T.BOOLOPS:
                    return table_get(I, base, o, keep, st)
        n = o.clone()
        n.owner = None
        n.cols = {k: (c, I.unk(name, v)) for k, (c, v) in o.cols.items()}
        if o.base is not None and o.base.op == "app" and all(
                a.op == "const" for a in args):
            # rows of a file that was just read
            n.base = mk("app", "pandas." + name, (o.base,) + tuple(args), ())
            n.cols = {k: (c, mk("app", "pandas." + name, (v,) + tuple(args),
                                ()) if v.op in ("col", "app") else
                          I.unk(name, v))
                      for k, (c, v) in o.cols.items()}
        if val(kw, "inplace") is TRUE:
            I.mut(base, st, name)
            n.owner = o.owner
            st.heap[base.args[0]] = n
            return NONE
        return I.new(n, st)
    if name == "to_numpy":
        return I.snap(base, st)
    if name in ("to_csv", "to_excel"):
        I.effect("write", (name, ()), st)
        return NONE
    if name == "pipe":
        return I.call(args[0], [base] + args[1:], kw, st)
    if name == "to_pandas":
        return make_frame(I, [base], {}, st)
    if name == "update":
        n = I.mut(base, st, "update")
        oo = I.obj(args[0], st)
        if isinstance(oo, (HTable, HDict)):
            src = oo.cols if isinstance(oo, HTable) else oo.items
            for k, (c, v) in src.items():
                p, old = n.lookup(k)
                if old is not UNDEF:
                    n.cols[k] = (p, phi(T.isnull(v), old, v))
        return NONE
    return generic(I, "frame." + name, [base] + args, kw, st)


def plain_groupby(kw):
    for k in kw:
        v = val(kw, k)
        if k in ("by", "sort", "observed", "group_keys"):
            continue
        if k == "dropna" and v in (TRUE, FALSE):
            continue
        if k == "as_index" and v is TRUE or k == "axis" and v is ZERO:
            continue
        return False
    return True


def groupby_method(I, g, name, args, kw, st):
    from .interp import HTable
    src, key, sel = g.args
    o = I.obj(src, st)
    if not isinstance(o, HTable) and src.op != "ref" and sel is NONE \
            and key.op != "ref":
        o = HTable({const("x"): (TRUE, src)})
        sel, key = const("x"), mk("tuple", (NONE, key))
    if isinstance(o, HTable):
        kname, kterm = key.args[0]
        nulls = kterm.op == "nullkey"
        if nulls:
            kterm = kterm.args[0]
        kname0 = kterm
        if kterm.op == "index" and kterm.args[1].op in T.BOOLOPS:
            kname0 = kterm.args[0]
        if nulls:
            kname0 = mk("nullkey", kname0)

        def grp(v):
            return T.grp_term(kterm, v)

        if name == "apply" and sel is NONE:
            t = HTable(index=o.index, base=None)
            inc = val(kw, "include_groups", TRUE)
            for k, (c, v) in o.cols.items():
                if k is kname and inc is FALSE:
                    continue
                t.cols[k] = (c, grp(v))
            if o.base is not None:
                t.base = mk("grp", kterm, o.base)
            gref = I.new(t, st)
            fn = args[0]
            k2 = {k: v for k, v in kw.items() if k not in (
                "include_groups", "func")}
            v = I.call(fn, [gref] + args[1:], k2, st)
            r = series_to_table(I, v, st, kname0)
            if r is not None:
                ro = I.obj(r, st)
                ro.index = kname0
                ro.bygroup = True
                ro.cols = {k: (c, mk("bycol", kname0, x))
                           for k, (c, x) in ro.cols.items()}
                return r
            return mk("bycol", kname0, v)
        if sel is not NONE and sel.op == "const":
            c, v = o.lookup(sel)
            gv = grp(v)
            agg = {"mean": lambda: array_method(I, gv, "mean", [], {}, st),
                   "std": lambda: array_method(I, gv, "std", [], {}, st),
                   "count": lambda: array_method(I, gv, "count", [], {}, st),
                   "median": lambda: app("pandas.median", gv),
                   "sum": lambda: array_method(I, gv, "sum", [], {}, st),
                   "max": lambda: app("numpy.max", gv),
                   "min": lambda: app("numpy.min", gv),
                   "first": lambda: app("pandas.first", gv)}
            if name in agg:
                return mk("bycol", kname0, agg[name]())
            if name in ("transform", "agg", "aggregate", "apply") and args:
                f = args[0]
                if f.op == "const" and f.args[1] in agg:
                    x = agg[f.args[1]]()
                elif f.op in ("func", "bound", "ext", "partial"):
                    x = I.call(f, [gv], {}, st)
                else:
                    return I.unk("groupby", gv)
                if name == "transform":
                    if nulls:
                        return x
                    return phi(T.isnull(kname0), NAN, x)
                return mk("bycol", kname0, x)
        if sel is NONE and name in ("mean", "std", "count", "sum", "median",
                                    "max", "min") and not args \
                and o.base is None:
            t = HTable(index=kname0)
            t.bygroup = True
            for k, (c, v) in o.cols.items():
                if k is kname:
                    continue
                x = groupby_method(I, mk("groupby", src, key, k), name, [],
                                   kw, st)
                t.cols[k] = (c, x)
            return I.new(t, st)
    if name == "groups":
        return I.unk("groups")
    return I.unk("groupby." + name)


def special_loop(I, s, it, st):
    """Row-wise loops over a table: one generic row."""
    from .interp import HTable
    if it.op == "rowindex":
        return row_body(I, s, it, mk("rowidx", it.args[0]), st)
    if it.op in ("iterrows", "itertuples"):
        base = it.args[0]
        o = I.obj(base, st)
        if not isinstance(o, HTable):
            return None
        src = getattr(o, "source", None)
        if src is not None:
            o = HTable(src[0], base=src[1])
            c = simp_(I, to_cell(src[2]), st)
            if c is FALSE:
                return (st,)
        row = row_view(I, o, st)
        idx = mk("rowidx", o.base if o.base is not None else NONE)
        v = mk("tuple", (idx, row)) if it.op == "iterrows" else row
        if src is not None and c is not TRUE:
            # only the rows kept by the filter are visited
            b = len(st.pc)
            skip = st.fork(not_(c))
            st.assume(c)
            r = row_body(I, s, it, v, st)
            if r[0] is None:
                return (skip,)
            return (I.merge_exits([(NONE, r[0]), (NONE, skip)], b)[1],)
        return row_body(I, s, it, v, st)
    return None


def simp_(I, c, st):
    from .interp import simp
    return simp(as_bool(c), st.facts)


def row_body(I, s, it, v, st):
    from .interp import LoopCtx
    ctx = I.ctxs[-1]
    lc = LoopCtx()
    b = len(st.pc)
    ctx.loops.append(lc)
    cover, I.trycover = I.trycover, []
    I.rowdepth += 1
    from .interp import Dead
    try:
        I.assign(s.target, v, st)
        out = I.block(s.body, st)
    except Dead:
        out = None
    finally:
        I.rowdepth -= 1
        I.trycover = cover
        ctx.loops.pop()
    outs = [(NONE, x) for x in lc.continues]
    if out is not None:
        outs.append((NONE, out))
    if lc.breaks:
        I.effect("rowbreak", (), st)
        outs = [(NONE, x) for x in lc.breaks] + outs
    if not outs:
        return (None,)
    return (I.merge_exits(outs, b)[1],)


def generator(I, fn, st):
    return I.unk("generator:" + fn.qual)
