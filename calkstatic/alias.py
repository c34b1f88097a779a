"""Which arrays owned by the caller does a function change in place?

A flow-sensitive, context-sensitive alias analysis of arrays: tokens name the
caller's arrays, and every expression is mapped to the tokens it may share
memory with.  Views (basic slices, asarray, .values, ...) keep the tokens;
copies, arithmetic and calls that return new arrays drop them; anything the
analysis does not know is taken to be new, so that only definite sharing on
some path is reported.
"""
import ast

VIEW_ATTR = {"values", "T", "real", "flat", "data", "array"}
VIEW_METH = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes",
             "to_numpy", "__array__"}
VIEW_FUN = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d",
            "atleast_2d", "ravel", "squeeze", "reshape", "transpose",
            "broadcast_to", "asfarray", "expand_dims", "require"}
MUT_METH = {"sort", "fill", "put", "itemset", "partition", "resize",
            "setfield", "__setitem__", "__iadd__", "__imul__"}
MUT_FUN = {"copyto": 0, "put": 0, "place": 0, "putmask": 0,
           "fill_diagonal": 0, "shuffle": 0}
DICT_SHALLOW = {"copy"}
EMPTY = frozenset()


class AV:
    """direct: tokens of the object itself; items: known members;
    rest: tokens of the unknown members (None: has no members)."""

    __slots__ = ("direct", "items", "rest", "fn")

    def __init__(self, direct=EMPTY, items=None, rest=EMPTY, fn=None):
        self.direct, self.items = direct, dict(items or {})
        self.rest, self.fn = rest, fn

    def member(self, k):
        if k is not None and k in self.items:
            return self.items[k]
        if k is not None:
            return AV(self.rest)
        d = self.rest
        for v in self.items.values():
            d = d | v.direct
        return AV(d)

    def key(self, depth=0):
        if depth > 4:
            return ("...",)
        return (tuple(sorted(self.direct)), tuple(sorted(self.rest)),
                tuple(sorted((str(k), v.key(depth + 1))
                             for k, v in self.items.items())),
                id(self.fn) if self.fn is not None else None)

    def copy(self):
        return AV(self.direct, self.items, self.rest, self.fn)


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    items = {}
    for k in list(a.items) + [k for k in b.items if k not in a.items]:
        items[k] = join(a.member(k), b.member(k))
    return AV(a.direct | b.direct, items, a.rest | b.rest, a.fn or b.fn)


def joinenv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return {k: join(a.get(k), b.get(k)) for k in list(a) + list(b)}


FRESH = AV()


class Fn:
    def __init__(self, mod, node, env=None, name=None):
        self.mod, self.node, self.env, self.name = mod, node, env, name


class Alias:
    def __init__(self, pkg, prefix="calkulate"):
        self.pkg = pkg
        self.found = {}       # (token, mod, line, how) -> chain
        self.memo = {}
        self.stack = []
        self.visited = set()
        self.writes = 0       # in-place operations looked at

    # ------------------------------------------------------------ entry
    def analyse(self, mod, node, args):
        """args: name -> AV"""
        fn = Fn(mod, node, None, node.name)
        return self.run(fn, args)

    def run(self, fn, args):
        key = (id(fn.node), tuple(sorted((k, v.key())
                                         for k, v in args.items())))
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 25 or key in self.stack:
            return FRESH
        self.memo[key] = FRESH
        self.stack.append(key)
        saved = getattr(self, "st", None)
        self.st = {"mod": fn.mod, "ret": None, "outer": fn.env,
                   "name": fn.name, "up": saved}
        self.visited.add((fn.mod, fn.name))
        env = dict(args)
        try:
            if isinstance(fn.node, ast.Lambda):
                r = self.ev(fn.node.body, env)
            else:
                self.block(fn.node.body, env)
                r = self.st["ret"] or FRESH
        finally:
            self.st = saved
            self.stack.pop()
        self.memo[key] = r
        return r

    def flag(self, tokens, node, how):
        self.writes += 1
        chain = []
        s = self.st
        while s is not None:
            chain.append(s["name"] or "<lambda>")
            s = s["up"]
        for t in tokens:
            self.found.setdefault(
                (t, self.st["mod"], self.st["name"], node.lineno, how),
                list(reversed(chain)))

    # ------------------------------------------------------- statements
    def block(self, body, env):
        """Returns False when control does not fall through."""
        for s in body:
            if not self.stmt(s, env):
                return False
        return True

    def branches(self, env, *bodies):
        outs = []
        for b in bodies:
            e = dict(env)
            if b(e):
                outs.append(e)
        if not outs:
            return False
        j = None
        for e in outs:
            j = joinenv(j, e)
        env.clear()
        env.update(j)
        return True

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            cur = self.ev(s.target, env)
            self.flag(cur.direct, s, "augmented assignment")
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value else FRESH
            self.st["ret"] = join(self.st["ret"], v)
            return False
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return False if isinstance(s, ast.Raise) else True
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.branches(env, lambda e: self.block(s.body, e),
                                 lambda e: self.block(s.orelse, e))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.elem(s.iter, env)
            for _ in range(2):
                def body(e):
                    self.assign(s.target, it, e, s)
                    return self.block(s.body, e)
                self.branches(env, body, lambda e: True)
            return self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                self.branches(env, lambda e: self.block(s.body, e),
                              lambda e: True)
            return self.block(s.orelse, env)
        elif isinstance(s, ast.Try):
            hs = [lambda e, h=h: self.block(h.body, e) for h in s.handlers]
            ok = self.branches(env, lambda e: (self.block(s.body, e)
                                               and self.block(s.orelse, e)),
                               *hs)
            e = env if ok else dict(env)
            return self.block(s.finalbody, e) and ok
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, FRESH, env, s)
            return self.block(s.body, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = AV(fn=Fn(self.st["mod"], s, env, s.name))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.flag(self.ev(t.value, env).direct, s, "del")
        elif isinstance(s, ast.Match):
            self.ev(s.subject, env)
            return self.branches(env, *[
                lambda e, c=c: self.block(c.body, e) for c in s.cases],
                lambda e: True)
        return True

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, FRESH, env, s)
                else:
                    self.assign(x, v.items.get(i, FRESH)
                                if v.items else AV(v.rest), env, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.flag(b.direct, s, "item assignment")
            self.store(t.value, self.ckey(t.slice), b, v, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.flag(b.direct, s, "attribute assignment")
            self.store(t.value, "." + t.attr, b, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, FRESH, env, s)

    def store(self, base, k, b, v, env):
        n = self.own(base, b, env)
        if k is None:
            n.rest = n.rest | v.direct
        else:
            n.items[k] = v

    @staticmethod
    def own(base, b, env):
        """A copy of b that may be changed, bound to the same variable."""
        n = b.copy()
        if isinstance(base, ast.Name) and base.id in env:
            env[base.id] = n
        return n

    @staticmethod
    def ckey(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (str, int)):
            return e.value
        return None

    # ------------------------------------------------------ expressions
    def elem(self, it, env):
        """AV of the elements of an iterable expression."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute):
            b = self.ev(it.func.value, env)
            if it.func.attr == "items" and not it.args:
                return AV(items={0: FRESH, 1: b.member(None)})
            if it.func.attr == "values" and not it.args:
                return b.member(None)
            if it.func.attr == "keys":
                return FRESH
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "zip":
                return AV(items={i: self.elem(a, env)
                                 for i, a in enumerate(it.args)})
            if it.func.id == "enumerate" and it.args:
                return AV(items={0: FRESH, 1: self.elem(it.args[0], env)})
            if it.func.id in ("reversed", "list", "tuple", "sorted") \
                    and it.args:
                return self.elem(it.args[0], env)
        v = self.ev(it, env)
        return v.member(None) if not v.direct else FRESH

    def lookup(self, name, env):
        if name in env:
            return env[name]
        o = self.st["outer"]
        while o is not None:
            if name in o:
                return o[name]
            o = None
        return None

    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return FRESH
        if isinstance(e, ast.Name):
            v = self.lookup(e.id, env)
            if v is not None:
                return v
            f = self.func(self.pkg.member(self.st["mod"], e.id))
            return AV(fn=f) if f else FRESH
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if e.attr in VIEW_ATTR and b.direct:
                return AV(b.direct)
            if "." + e.attr in b.items:
                return b.items["." + e.attr]
            f = self.func(self.resolve(e, env))
            return AV(fn=f) if f else FRESH
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if b.items or b.rest:
                return b.member(self.ckey(e.slice))
            if b.direct and self.basic(e.slice):
                return AV(b.direct)
            return FRESH
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return join(self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.BoolOp):
            r = None
            for v in e.values:
                r = join(r, self.ev(v, env))
            return r
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, (ast.Tuple, ast.List)):
            items = {}
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self.ev(x.value, env)
                    return FRESH
                items[i] = self.ev(x, env)
            return AV(items=items)
        if isinstance(e, ast.Dict):
            r = AV()
            for k, v in zip(e.keys, e.values):
                x = self.ev(v, env)
                if k is None:
                    r.items.update(x.items)
                    r.rest = r.rest | x.rest
                elif self.ckey(k) is not None:
                    r.items[self.ckey(k)] = x
                else:
                    r.rest = r.rest | x.direct
            return r
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                          ast.DictComp)):
            n = dict(env)
            for g in e.generators:
                self.assign(g.target, self.elem(g.iter, n), n, e)
                for c in g.ifs:
                    self.ev(c, n)
            v = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt, n)
            return AV(rest=v.direct)
        if isinstance(e, ast.Lambda):
            return AV(fn=Fn(self.st["mod"], e, env, "<lambda>"))
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if a.items or b.items or a.rest or b.rest:   # dict union
                r = AV(items=a.items, rest=a.rest | b.rest)
                r.items.update(b.items)
                return r
            return FRESH
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return FRESH

    def basic(self, s):
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Constant) and s.value in (None, Ellipsis):
            return True
        if isinstance(s, ast.Attribute) and s.attr == "newaxis":
            return True
        if isinstance(s, ast.Tuple):
            return any(self.basic(x) for x in s.elts) and all(
                self.basic(x) or isinstance(x, ast.Constant) for x in s.elts)
        return False

    # ------------------------------------------------------------ calls
    def resolve(self, e, env):
        """Definition of a dotted package name."""
        if isinstance(e, ast.Name):
            if self.lookup(e.id, env) is not None:
                return None
            return self.pkg.member(self.st["mod"], e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, env)
            if b and len(b) == 1 and b[0][1] == "module":
                return self.pkg.member(b[0][0], e.attr)
        return None

    @staticmethod
    def func(d):
        if d and len(d) == 1 and d[0][1] == "func":
            return Fn(d[0][0], d[0][2], None, d[0][2].name)
        return None

    def call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords
              if k.arg is not None}
        open_ = [self.ev(k.value, env) for k in e.keywords if k.arg is None]
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else (
            f.id if isinstance(f, ast.Name) else None)
        fv = self.ev(f, env)
        if fv.fn is not None:
            for o in open_:
                for k, v in o.items.items():
                    if isinstance(k, str):
                        kw.setdefault(k, v)
            pos = []
            for a, v in zip(e.args, args):
                if isinstance(a, ast.Starred):
                    n = len(v.items)
                    pos.extend(v.items[i] for i in range(n) if i in v.items)
                else:
                    pos.append(v)
            return self.apply(fv.fn, pos, kw)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            if name in MUT_METH and b.direct:
                self.flag(b.direct, e, "." + name + "()")
                return FRESH
            if name in ("update", "pop", "setdefault", "clear", "popitem",
                        "__setitem__", "append", "extend", "insert"):
                self.flag(b.direct, e, "." + name + "()")
                b = self.own(f.value, b, env)
                if name == "update":
                    for a in args + open_ + [AV(items=kw)]:
                        b.items.update(a.items)
                        b.rest = b.rest | a.rest
                if name in ("append", "insert", "extend") and args:
                    b.rest = b.rest | args[-1].direct | args[-1].rest
                if name in ("pop", "setdefault") and e.args:
                    return b.member(self.ckey(e.args[0]))
                return FRESH
            if name in VIEW_METH and b.direct:
                if name == "to_numpy" and any(k.arg == "copy"
                                              for k in e.keywords):
                    return FRESH
                return AV(b.direct)
            if name == "get" and (b.items or b.rest) and e.args:
                r = b.member(self.ckey(e.args[0]))
                return join(r, args[1]) if len(args) > 1 else r
            if name == "copy" and (b.items or b.rest):
                return AV(items=b.items, rest=b.rest)
            if name in ("items", "values", "keys"):
                return FRESH if name == "keys" else AV(rest=b.rest)
        if name in MUT_FUN and args:
            self.flag(args[MUT_FUN[name]].direct, e, name + "()")
            return FRESH
        if "out" in kw:
            o = kw["out"]
            self.flag(o.direct | o.member(None).direct, e, "out=")
            return AV(o.direct)
        if name == "at" and args:
            self.flag(args[0].direct, e, "ufunc.at")
        if name == "nan_to_num" and args:
            c = [k.value for k in e.keywords if k.arg == "copy"]
            if c and isinstance(c[0], ast.Constant) and c[0].value is False:
                self.flag(args[0].direct, e, "nan_to_num(copy=False)")
                return AV(args[0].direct)
            return FRESH
        if name in ("array", "astype"):
            c = [k.value for k in e.keywords if k.arg == "copy"]
            if c and isinstance(c[0], ast.Constant) and c[0].value is False:
                src = args[0] if name == "array" and args else (
                    self.ev(f.value, env) if isinstance(f, ast.Attribute)
                    else FRESH)
                return AV(src.direct)
            return FRESH
        if name in VIEW_FUN and args:
            return AV(args[0].direct)
        if name == "dict" and isinstance(f, ast.Name):
            r = AV()
            for a in args + open_:
                r.items.update(a.items)
                r.rest = r.rest | a.rest
            r.items.update(kw)
            return r
        if name in ("list", "tuple") and isinstance(f, ast.Name) and args:
            return AV(items=args[0].items, rest=args[0].rest)
        # a function handed to a library routine: called with new values,
        # followed by the ``args`` given
        for a in args + list(kw.values()):
            if a.fn is not None:
                extra = kw.get("args", FRESH)
                pos = [extra.items[i] for i in range(len(extra.items))
                       if i in extra.items]
                self.apply(a.fn, [FRESH] + pos, {})
        return FRESH

    def apply(self, fn, pos, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env = {n: FRESH for n in names + kwonly}
        for n, v in zip(names, pos):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = AV(items=dict(enumerate(pos[len(names):])))
        rest = {}
        for k, v in kw.items():
            if k in env:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = AV(items=rest)
        return self.run(fn, env)
