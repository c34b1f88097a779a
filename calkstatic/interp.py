"""Flow-sensitive, context-sensitive value-flow analysis of Python source.

The analyser reads the syntax trees of /repo/calkulate and propagates the
hash-consed terms of ``terms.py`` forwards: every control-flow merge is a gated
join (``phi``), every call to a function of the repository is analysed in its
calling context, library calls are replaced by the summaries in ``models.py``.
There is exactly one pass over each (context of a) statement: no path is
enumerated, nothing is executed and no solver is involved.
"""

import ast
import os
import sys

from . import terms as T
from .terms import (FALSE, NAN, NONE, TRUE, ZERO, Node, and_, app, as_bool,
                    const, mk, not_, num, or_, phi)

sys.setrecursionlimit(200000)

UNDEF = mk("undef")
ABSENT = mk("absent")
EMPTYP = mk("ext", "inspect.Parameter.empty")


class Dead(Exception):
    """The abstract state became unreachable inside an expression."""


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ heap
class Obj:
    owner = None

    def clone(self):
        o = self.__class__.__new__(self.__class__)
        o.__dict__.update(self.__dict__)
        for k, v in o.__dict__.items():
            if isinstance(v, dict):
                o.__dict__[k] = dict(v)
            elif isinstance(v, list):
                o.__dict__[k] = list(v)
        return o


class Scope(Obj):
    def __init__(self, parent=None, module=None, name=""):
        self.vars = {}
        self.parent = parent  # scope id (lexical) or None
        self.module = module
        self.name = name
        self.nonlocals = {}


class HDict(Obj):
    """Finite-key dictionary; with ``base`` unknown keys have symbolic values."""

    def __init__(self, items=None, base=None, kind="dict", owner=None,
                 cell="col"):
        self.items = dict(items or {})
        self.base = base
        self.kind = kind
        self.owner = owner
        self.cell = cell

    def lookup(self, key):
        if key in self.items:
            return self.items[key]
        if self.base is not None:
            return (mk("hascol", self.base, key),
                    mk(self.cell, self.base, key))
        return (FALSE, UNDEF)


class HList(Obj):
    def __init__(self, items=(), owner=None):
        self.items = list(items)  # (cond, value)
        self.owner = owner


class HSet(Obj):
    def __init__(self, items=None, owner=None):
        self.items = dict(items or {})
        self.owner = owner


class HObj(Obj):
    def __init__(self, cls, attrs=None, owner=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.owner = owner


class HTable(Obj):
    """pandas.DataFrame: elementwise column terms."""

    def __init__(self, cols=None, base=None, index=None, owner=None,
                 kind="frame"):
        self.cols = dict(cols or {})  # name Node -> (cond, value)
        self.base = base
        self.index = index
        self.owner = owner
        self.kind = kind

    def lookup(self, key):
        if key in self.cols:
            return self.cols[key]
        if self.base is not None:
            return (mk("hascol", self.base, key), mk("col", self.base, key))
        return (FALSE, UNDEF)


class Func:
    def __init__(self, node, module, scope, qual, cls=None):
        self.node = node
        self.module = module
        self.scope = scope  # lexical scope id
        self.qual = qual
        self.cls = cls
        self.name = qual
        self.defaults = []
        self.kw_defaults = []
        self.decorators = []

    def __repr__(self):
        return f"<{self.qual}>"


class Cls:
    def __init__(self, name, module, scope, bases, qual):
        self.name = name
        self.module = module
        self.scope = scope
        self.bases = bases
        self.qual = qual
        self.fields = None  # namedtuple

    def __repr__(self):
        return f"<class {self.qual}>"


class State:
    __slots__ = ("heap", "pc", "facts")

    def __init__(self, heap=None, pc=(), facts=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else {}

    def fork(self, cond=TRUE):
        s = State(dict(self.heap), self.pc, self.facts)
        if cond is not TRUE:
            s.assume(cond)
        return s

    def assume(self, cond):
        for c in T.conj(cond):
            if c in self.pc:
                continue
            self.pc = self.pc + (c,)
            f = dict(self.facts)
            if c.op == "not":
                f.update(T.implications(c.args[0], False))
            else:
                f.update(T.implications(c, True))
            self.facts = f

    def adopt(self, other):
        self.heap, self.pc, self.facts = other.heap, other.pc, other.facts


class Effect:
    __slots__ = ("kind", "data", "pc", "where")

    def __init__(self, kind, data, pc, where):
        self.kind, self.data, self.pc, self.where = kind, data, pc, where

    @property
    def cond(self):
        return and_(*self.pc)

    def __repr__(self):
        return f"{self.kind}({self.data}) at {self.where} if {self.cond}"


class Ctx:
    """Exits of one function activation."""

    def __init__(self, base):
        self.returns = []  # (value, state)
        self.loops = []
        self.base = base


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


def simp(c, facts):
    """Boolean simplification of c under known facts."""
    if not facts or c.op == "const":
        return c
    r = facts.get(c)
    if r is not None:
        return r
    if c.op == "not":
        return not_(simp(c.args[0], facts))
    if c.op == "and":
        return and_(*[simp(x, facts) for x in c.args[0]])
    if c.op == "or":
        return or_(*[simp(x, facts) for x in c.args[0]])
    if c.op == "phi":
        return phi(simp(c.args[0], facts), simp(c.args[1], facts),
                   simp(c.args[2], facts))
    if c.op in ("eq", "truth", "isnull", "is"):
        new = tuple(facts.get(a, a) if isinstance(a, Node) else a
                    for a in c.args)
        if new != c.args:
            if c.op == "eq":
                return T.eq(*new)
            if c.op == "is":
                return T.is_(*new)
            if c.op == "isnull":
                return T.isnull(new[0])
            return as_bool(new[0])
    return c


BUILTINS = {
    "len", "range", "enumerate", "zip", "print", "isinstance", "issubclass",
    "dict", "list", "tuple", "set", "frozenset", "str", "int", "float", "bool",
    "sum", "any", "all", "min", "max", "sorted", "map", "filter", "getattr",
    "setattr", "hasattr", "abs", "round", "open", "repr", "type", "iter",
    "next", "reversed", "super", "object", "callable", "vars", "id", "pow",
    "divmod", "format", "property", "staticmethod", "classmethod", "slice",
    "delattr", "globals", "locals", "input", "exec", "eval", "hash", "ord",
    "chr", "complex", "bytes", "NotImplemented", "Ellipsis", "__name__",
    "__file__", "__doc__", "bytearray", "memoryview", "bin", "hex", "oct",
    "ascii", "dir", "breakpoint", "compile", "aiter", "anext", "help",
    "__import__", "__debug__", "__builtins__", "__spec__", "__package__",
    "__path__", "__loader__", "exit", "quit",
}
EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict)
                      else __import__("builtins"))
       if isinstance(getattr(__import__("builtins"), n, None), type)
       and issubclass(getattr(__import__("builtins"), n), BaseException)}
BUILTINS |= EXC


def exc_subclass(a, b):
    import builtins

    x, y = getattr(builtins, a, None), getattr(builtins, b, None)
    return (isinstance(x, type) and isinstance(y, type) and issubclass(x, y))


class Interp:
    @property
    def finite(self):
        return T.FINITE

    def __init__(self, repo, extra=None):
        self.repo = repo
        self.pkg = "calkulate"
        self.extra = extra or {}  # module name -> source path (specs)
        self.trees = {}
        self.modscope = {}  # module name -> scope id
        self.modnode = {}
        self.scope = None
        self.st = State()
        self.nextid = 0
        self.effects = []
        self.raises = []  # current raise sink
        self.ctxs = []
        self.depth = 0
        self.lsq_depth = 0
        self.site = None
        self.callstack = []
        self.captured = set()
        self.analysed = set()
        self.callsites = 0
        self.unsupported = []
        self.try_depth = 0
        self.trycover = []
        self.exc_n = 0
        self.loading = []
        self.notes = []
        self.rowdepth = 0
        self.ticks = 0
        self.maxticks = 3000000
        from . import models

        self.models = models
        self.opaque = {}  # qualname -> handler(interp, func, args, kw, st)

    # ------------------------------------------------------------ utilities
    def new(self, obj, st):
        self.nextid += 1
        st.heap[self.nextid] = obj
        return mk("ref", self.nextid)

    def obj(self, node, st):
        if node.op == "ref":
            return st.heap.get(node.args[0])
        return None

    def mut(self, node, st, what, key=None):
        """Clone-for-write with ownership effect."""
        o = st.heap[node.args[0]]
        if o.owner:
            self.effect("mutate", (o.owner, what, key), st)
        o = o.clone()
        st.heap[node.args[0]] = o
        return o

    def where(self):
        f = self.callstack[-1] if self.callstack else "<top>"
        return (f, self.site)

    def effect(self, kind, data, st):
        self.effects.append(Effect(kind, data, st.pc, self.where()))

    def unk(self, tag, *deps):
        return T.unknown(tag, *[d for d in deps if isinstance(d, Node)])

    def do_raise(self, exctype, st, value=NONE, cond=TRUE):
        """Raise under cond; st continues under not cond (Dead if TRUE)."""
        cond = simp(as_bool(cond), st.facts)
        if cond is FALSE:
            return
        s = st.fork(cond)
        self.raises.append((exctype, value, s, self.where()))
        self.effects.append(Effect("raise", (exctype, value), s.pc,
                                   self.where()))
        if cond is TRUE:
            raise Dead()
        st.assume(not_(cond))

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2, base=None):
        """State equal to s1 where c holds and s2 elsewhere."""
        c = as_bool(c)
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        heap = dict(s2.heap)
        for i, o1 in s1.heap.items():
            o2 = s2.heap.get(i)
            if o2 is None:
                heap[i] = o1
            elif o1 is not o2:
                heap[i] = self.merge_obj(c, o1, o2)
        n = 0
        for a, b in zip(s1.pc, s2.pc):
            if a is not b:
                break
            n += 1
        common = s1.pc[:n]
        r1, r2 = and_(*s1.pc[n:]), and_(*s2.pc[n:])
        facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) is v}
        st = State(heap, common, facts)
        u = or_(r1, r2)
        if u is not TRUE:
            st.assume(u)
        return st

    def vphi(self, c, a, b):
        if a is UNDEF:
            return b if b is UNDEF else mk("phi", c, UNDEF, b) if False else \
                self._phiu(c, a, b)
        return self._phiu(c, a, b)

    def _phiu(self, c, a, b):
        if a is b:
            return a
        return phi(c, a, b)

    def merge_obj(self, c, o1, o2):
        o = o1.clone()
        if isinstance(o1, Scope):
            for k in list(o1.vars) + [k for k in o2.vars if k not in o1.vars]:
                o.vars[k] = self.vphi(c, o1.vars.get(k, UNDEF),
                                      o2.vars.get(k, UNDEF))
        elif isinstance(o1, (HDict, HTable)):
            d = o.items if isinstance(o1, HDict) else o.cols
            d1 = o1.items if isinstance(o1, HDict) else o1.cols
            d2 = o2.items if isinstance(o2, HDict) else o2.cols
            for k in list(d1) + [k for k in d2 if k not in d1]:
                p1, v1 = o1.lookup(k)
                p2, v2 = o2.lookup(k)
                if p1 is FALSE and v1 is UNDEF:
                    v1 = v2
                if p2 is FALSE and v2 is UNDEF:
                    v2 = v1
                d[k] = (phi(c, p1, p2), self.vphi(c, v1, v2))
        elif isinstance(o1, HList):
            a, b = o1.items, o2.items
            if len(a) == len(b):
                o.items = [(phi(c, p, q), self.vphi(c, x, y))
                           for (p, x), (q, y) in zip(a, b)]
            else:
                n = 0
                while n < min(len(a), len(b)) and a[n] == b[n]:
                    n += 1
                o.items = a[:n] + [(and_(c, p), x) for p, x in a[n:]] + \
                    [(and_(not_(c), p), x) for p, x in b[n:]]
        elif isinstance(o1, HSet):
            for k in list(o1.items) + [k for k in o2.items
                                       if k not in o1.items]:
                o.items[k] = phi(c, o1.items.get(k, FALSE),
                                 o2.items.get(k, FALSE))
        elif isinstance(o1, HObj):
            for k in list(o1.attrs) + [k for k in o2.attrs
                                       if k not in o1.attrs]:
                o.attrs[k] = self.vphi(c, o1.attrs.get(k, UNDEF),
                                       o2.attrs.get(k, UNDEF))
        return o

    def merge_exits(self, exits, base):
        """exits: list of (value, state); returns (value, state)."""
        if not exits:
            return None
        rels = [T.conj(and_(*s.pc[base:])) for _, s in exits]
        common = set(rels[0])
        for r in rels[1:]:
            common &= set(r)
        v, s = exits[-1]
        for (v1, s1), r in zip(reversed(exits[:-1]), reversed(rels[:-1])):
            c = and_(*[x for x in r if x not in common])
            v = self.vphi(c, v1, v) if v is not None else None
            s = self.merge(c, s1, s)
        return v, s

    def branch(self, cond, st, f1, f2):
        """Evaluate f1/f2 (state -> Node) on the two sides and join."""
        cond = simp(as_bool(cond), st.facts)
        if cond is TRUE:
            return f1(st)
        if cond is FALSE:
            return f2(st)
        s1, s2 = st.fork(cond), st.fork(not_(cond))
        v1 = v2 = None
        try:
            v1 = f1(s1)
        except Dead:
            s1 = None
        try:
            v2 = f2(s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            st.adopt(s2)
            return v2
        if s2 is None:
            st.adopt(s1)
            return v1
        st.adopt(self.merge(cond, s1, s2))
        return self.vphi(cond, v1, v2)

    def distribute(self, v, st, f):
        """Apply f(state, value) to the leaves of a phi of heap objects."""
        if v.op == "phi" and has_ref(v):
            return self.branch(
                v.args[0], st,
                lambda s: self.distribute(v.args[1], s, f),
                lambda s: self.distribute(v.args[2], s, f))
        return f(st, v)

    # ------------------------------------------------------------ modules
    def load(self, name):
        """Load (abstractly evaluate) a module of the repository."""
        if name in self.modscope:
            return self.modnode[name]
        path = self.modpath(name)
        if path is None:
            return mk("ext", name)
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.trees[name] = tree
        sc = Scope(None, name, name)
        ref = self.new(sc, self.st)
        self.modscope[name] = ref.args[0]
        node = mk("module", name)
        self.modnode[name] = node
        # parent package first
        if "." in name:
            parent, child = name.rsplit(".", 1)
            self.load(parent)
        sid = self.modscope[name]
        ctx = Ctx(0)
        self.ctxs.append(ctx)
        saved = self.callstack
        self.callstack = [name]
        sv, self.scope = getattr(self, "scope", None), sid
        try:
            out = self.block(tree.body, self.st)
        finally:
            self.scope = sv
            self.ctxs.pop()
            self.callstack = saved
        if out is not None and out is not self.st:
            self.st.adopt(out)
        self.st.pc, self.st.facts = (), {}
        if "." in name:
            parent, child = name.rsplit(".", 1)
            psid = self.modscope.get(parent)
            if psid is not None:
                o = self.st.heap[psid].clone()
                o.vars.setdefault(child, node)
                self.st.heap[psid] = o
        return node

    def modpath(self, name):
        if name in self.extra:
            return self.extra[name]
        parts = name.split(".")
        if parts[0] != self.pkg:
            return None
        p = os.path.join(self.repo, *parts)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def finish_loading(self):
        """Objects alive after import are shared module state."""
        for i, o in list(self.st.heap.items()):
            if not isinstance(o, Scope) and o.owner is None:
                o.owner = "global"
        for m, sid in self.modscope.items():
            sc = self.st.heap[sid]
            for k, v in sc.vars.items():
                if v.op == "ref":
                    o = self.st.heap.get(v.args[0])
                    if o is not None and o.owner == "global":
                        o.owner = f"global:{m}.{k}"

    def import_module(self, name, level, module):
        if level:
            base = module
            path = self.modpath(module)
            ispkg = path and path.endswith("__init__.py")
            up = level - 1 if ispkg else level
            parts = base.split(".")
            parts = parts[: len(parts) - up]
            name = ".".join(parts + ([name] if name else []))
        if name.split(".")[0] == self.pkg or name in self.extra:
            return name, self.load(name)
        return name, mk("ext", name)

    # ------------------------------------------------------------ scopes
    def scope_obj(self, st):
        return st.heap[self.scope]

    def setvar(self, name, v, st, sid=None):
        sid = sid or self.scope
        o = st.heap[sid]
        tgt = o.nonlocals.get(name)
        if tgt is not None:
            if st.heap[tgt].module and st.heap[tgt].parent is None:
                self.effect("mutate", (f"global:{st.heap[tgt].name}", "rebind",
                                       name), st)
            sid = tgt
            o = st.heap[sid]
        o = o.clone()
        o.vars[name] = v
        st.heap[sid] = o

    def getvar(self, name, st):
        sid = self.scope
        first = True
        while sid is not None:
            o = st.heap[sid]
            if name in o.vars and not (getattr(o, "isclass", False)
                                       and not first):
                v = o.vars[name]
                if v is UNDEF:
                    self.effect("nameerror", (name,), st)
                    self.do_raise("UnboundLocalError", st)
                    return self.unk("unbound:" + name)
                return self.strip_undef(v, st, name)
            sid = o.parent
            first = False
        if name in BUILTINS:
            return mk("ext", "builtins." + name)
        self.effect("nameerror", (name,), st)
        self.do_raise("NameError", st)
        return UNDEF

    def strip_undef(self, v, st, name):
        if v.op != "phi" or not any(x is UNDEF for x in phi_leaves(v)):
            return v

        def go(x, s):
            if x is UNDEF:
                return None
            if x.op == "phi":
                c = simp(x.args[0], s)
                if c is TRUE:
                    return go(x.args[1], s)
                if c is FALSE:
                    return go(x.args[2], s)
                a, b = go(x.args[1], s), go(x.args[2], s)
                if a is None:
                    return b
                if b is None:
                    return a
                return phi(x.args[0], a, b)
            return x

        def lost(x, s):
            if x is UNDEF:
                return TRUE
            if x.op == "phi" and any(y is UNDEF for y in phi_leaves(x)):
                c = simp(x.args[0], s)
                return or_(and_(c, lost(x.args[1], s)),
                           and_(not_(c), lost(x.args[2], s)))
            return FALSE

        r = go(v, st.facts)
        c = simp(lost(v, st.facts), st.facts)
        if c is not FALSE:
            self.effect("nameerror", (name,), st)
            self.do_raise("UnboundLocalError", st, cond=c)
        return r if r is not None else self.unk("unbound:" + name)

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        for s in stmts:
            self.ticks += 1
            if self.ticks > self.maxticks:
                raise Unsupported("budget")
            if hasattr(s, "lineno"):
                self.site = s.lineno
            try:
                st = self.stmt(s, st)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported.append((type(s).__name__, self.where()))
            return self.havoc_stmt(s, st)
        return m(s, st)

    def havoc_stmt(self, s, st):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, self.unk("unsupported"), st)
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.unsupported.append(("yield", self.where()))
            return st
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        o = self.scope_obj(st).clone()
        for n in s.names:
            o.nonlocals[n] = self.modscope[o.module]
        st.heap[self.scope] = o
        return st

    def s_Nonlocal(self, s, st):
        o = self.scope_obj(st).clone()
        for n in s.names:
            p = o.parent
            while p is not None and n not in st.heap[p].vars:
                p = st.heap[p].parent
            if p is not None:
                o.nonlocals[n] = p
        st.heap[self.scope] = o
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(t.id, st)
            rhs = self.ev(s.value, st)
            o = self.obj(cur, st)
            if isinstance(o, (HDict, HSet, HList, HTable)):
                v = self.inplace(op, cur, o, rhs, st)
            else:
                v = self.binop(op, cur, rhs, st)
            self.setvar(t.id, v, st)
            return st
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            key = self.ev(t.slice, st)
            cur = self.getitem(base, key, st)
            rhs = self.ev(s.value, st)
            v = self.binop(op, cur, rhs, st)
            self.setitem(base, key, v, st, t.value)
            return st
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.getattr(base, t.attr, st)
            rhs = self.ev(s.value, st)
            v = self.binop(op, cur, rhs, st)
            self.setattr(base, t.attr, v, st)
            return st
        raise Unsupported("augassign")

    def inplace(self, op, ref, o, rhs, st):
        if op == "BitOr" and isinstance(o, (HDict, HSet)):
            self.models.method(self, ref, "update", [rhs], {}, st)
            return ref
        if op == "Add" and isinstance(o, HList):
            self.models.method(self, ref, "extend", [rhs], {}, st)
            return ref
        return self.binop(op, ref, rhs, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            key = self.ev(t.slice, st)
            self.setitem(base, key, v, st, t.value)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported("assign")

    def unpack(self, elts, v, st):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == "phi" and has_ref(v):
            vals = []
            parts = [self.elements(x, st) for x in phi_leaves(v)]
            if all(p is not None and len(p) == len(elts) for p in parts):
                def go(x, i):
                    if x.op == "phi":
                        return phi(x.args[0], go(x.args[1], i),
                                   go(x.args[2], i))
                    return self.elements(x, st)[i][1]
                for i, e in enumerate(elts):
                    self.assign(e, go(v, i), st)
                return
        items = self.elements(v, st)
        if items is not None and all(c is TRUE for c, _ in items):
            vals = [x for _, x in items]
            if star:
                i = star[0]
                n = len(elts) - 1
                if len(vals) >= n:
                    mid = vals[i:len(vals) - (n - i)]
                    for e, x in zip(elts[:i], vals[:i]):
                        self.assign(e, x, st)
                    self.assign(elts[i], self.new(
                        HList([(TRUE, x) for x in mid]), st), st)
                    for e, x in zip(elts[i + 1:], vals[len(vals) - (n - i):]):
                        self.assign(e, x, st)
                    return
            elif len(vals) == len(elts):
                for e, x in zip(elts, vals):
                    self.assign(e, x, st)
                return
            else:
                self.do_raise("ValueError", st)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e, self.unk("star", v), st)
            else:
                self.assign(e, self.getitem(v, num(i), st), st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                key = self.ev(t.slice, st)
                o = self.obj(base, st)
                if isinstance(o, HDict):
                    o = self.mut(base, st, "delete", key)
                    o.items[key] = (FALSE, UNDEF)
                elif isinstance(o, HTable):
                    o = self.mut(base, st, "delete column", key)
                    o.cols[key] = (FALSE, UNDEF)
            elif isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF, st)
        return st

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if simp(c, st.facts) is FALSE:
            self.do_raise("AssertionError", st)
        self.do_raise("AssertionError", st, cond=not_(c))
        return st

    def s_Raise(self, s, st):
        name, val = "Exception", NONE
        if s.exc is not None:
            v = self.ev(s.exc, st)
            val = v
            for x in phi_leaves(v):
                if x.op == "app" and x.args[0].startswith("builtins."):
                    name = x.args[0].split(".")[-1]
                elif x.op == "ext":
                    name = x.args[0].split(".")[-1]
                elif x.op == "ref":
                    o = self.obj(x, st)
                    if isinstance(o, HObj):
                        name = o.cls.name
        else:
            name = "reraise"
        self.do_raise(name, st, val)
        return None

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.ctxs[-1].returns.append((v, st))
        return None

    def s_Break(self, s, st):
        self.ctxs[-1].loops[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st):
        self.ctxs[-1].loops[-1].continues.append(st)
        return None

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        return self.if_(c, st, lambda x: self.block(s.body, x),
                        lambda x: self.block(s.orelse, x))

    def if_(self, c, st, f1, f2):
        c = simp(c, st.facts)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        r1, r2 = f1(s1), f2(s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return self.merge(c, r1, r2)

    def s_Import(self, s, st):
        for a in s.names:
            name, node = self.import_module(a.name, 0, None)
            if a.asname:
                self.setvar(a.asname, node, st)
            else:
                top = a.name.split(".")[0]
                self.setvar(top, self.modnode.get(top, mk("ext", top)), st)
        return st

    def s_ImportFrom(self, s, st):
        mod = st.heap[self.scope].module
        name, node = self.import_module(s.module or "", s.level, mod)
        for a in s.names:
            tgt = a.asname or a.name
            if node.op == "module":
                if a.name == "*":
                    for k, v in st.heap[self.modscope[name]].vars.items():
                        if not k.startswith("_"):
                            self.setvar(k, v, st)
                    continue
                sub = name + "." + a.name
                vars_ = self.st.heap[self.modscope[name]].vars \
                    if self.modscope[name] not in st.heap else \
                    st.heap[self.modscope[name]].vars
                if a.name in vars_:
                    v = vars_[a.name]
                elif self.modpath(sub) is not None:
                    v = self.load(sub)
                else:
                    self.effect("importerror", (name, a.name), st)
                    v = self.unk("import:" + sub)
                self.setvar(tgt, v, st)
            else:
                self.setvar(tgt, mk("ext", name + "." + a.name), st)
        return st

    def s_FunctionDef(self, s, st):
        f = self.make_func(s, st, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st)
            nm = dv.args[0] if dv.op == "ext" else ""
            if nm in ("builtins.staticmethod",):
                v = mk("static", v)
            elif nm in ("builtins.property",):
                v = mk("property", v)
            elif nm in ("builtins.classmethod",):
                v = mk("classm", v)
            elif nm in ("functools.wraps", "functools.cache",
                        "functools.lru_cache"):
                if nm != "functools.wraps":
                    self.effect("cache", (s.name,), st)
            elif dv.op == "app" and dv.args[0] in ("functools.wraps",):
                pass
            elif dv.op == "app" and dv.args[0] in ("functools.lru_cache",):
                self.effect("cache", (s.name,), st)
            elif dv.op in ("func", "bound"):
                v = self.call(dv, [v], {}, st)
            else:
                v = self.call(dv, [v], {}, st)
        self.setvar(s.name, v, st)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, st, name):
        o = st.heap[self.scope]
        qual = (o.name + "." if o.name else "") + name
        f = Func(s, o.module, self.scope, qual)
        a = s.args
        f.defaults = [self.ev(d, st) for d in a.defaults]
        f.kw_defaults = [self.ev(d, st) if d is not None else None
                         for d in a.kw_defaults]
        self.captured.add(self.scope)
        sid = self.scope
        while sid is not None:
            self.captured.add(sid)
            sid = st.heap[sid].parent
        return mk("func", f)

    def s_ClassDef(self, s, st):
        o = st.heap[self.scope]
        sc = Scope(self.scope, o.module, o.name + "." + s.name)
        sc.isclass = True
        ref = self.new(sc, st)
        bases = [self.ev(b, st) for b in s.bases]
        saved, self.scope = self.scope, ref.args[0]
        self.captured.add(ref.args[0])
        out = self.block(s.body, st)
        self.scope = saved
        if out is None:
            return None
        c = Cls(s.name, o.module, ref.args[0], bases, o.name + "." + s.name)
        self.setvar(s.name, mk("class", c), out)
        return out

    # ---- with / try
    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                if v.op == "app":
                    pass
                self.assign(it.optional_vars, v, st)
        # contextlib.suppress
        for it in s.items:
            c = it.context_expr
            if isinstance(c, ast.Call):
                f = self.ev(c.func, st)
                if f.op == "ext" and f.args[0] == "contextlib.suppress":
                    h = ast.ExceptHandler(
                        type=ast.Tuple(elts=list(c.args), ctx=ast.Load()),
                        name=None, body=[ast.Pass()])
                    t = ast.Try(body=s.body, handlers=[h], orelse=[],
                                finalbody=[])
                    ast.copy_location(t, s)
                    ast.fix_missing_locations(t)
                    return self.s_Try(t, st)
        return self.block(s.body, st)

    def handler_types(self, h, st):
        if h.type is None:
            return ["BaseException"]
        v = self.ev(h.type, st)
        out = []
        for x in ([i for _, i in self.elements(v, st)]
                  if v.op == "tuple" else [v]):
            if x.op == "ext":
                out.append(x.args[0].split(".")[-1])
            else:
                out.append("?")
        return out

    def s_Try(self, s, st):
        htypes = [self.handler_types(h, st) for h in s.handlers]
        catchall = any(t in ("Exception", "BaseException")
                       for ts in htypes for t in ts)
        saved = self.raises
        self.raises = []
        self.trycover.append(catchall)
        base = len(st.pc)
        exc_states = []  # (exctype, state)
        cur = st
        for b in s.body:
            if cur is None:
                break
            before = cur.fork()
            self.site = getattr(b, "lineno", self.site)
            ctx = self.ctxs[-1]
            nret = len(ctx.returns)
            nbrk = [(len(l.breaks), len(l.continues)) for l in ctx.loops]
            try:
                nxt = self.stmt(b, cur)
            except Dead:
                nxt = None
            if may_raise(b) and not isinstance(b, ast.Raise):
                self.exc_n += 1
                atom = mk("exc", ("try", s.lineno if False else 0,
                                  self.exc_n))
                es = before.fork(atom)
                exc_states.append(("?", es))
                if nxt is not None:
                    nxt.assume(not_(atom))
                for _v, s_ in ctx.returns[nret:]:
                    if s_ is not nxt:
                        s_.assume(not_(atom))
                for l, (i, j) in zip(ctx.loops, nbrk):
                    for s_ in l.breaks[i:] + l.continues[j:]:
                        s_.assume(not_(atom))
            cur = nxt
        self.trycover.pop()
        inner = self.raises
        self.raises = saved
        for (ty, val, s_, wh) in inner:
            exc_states.append((ty, s_))
        outs = []
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        # handlers
        for ty, es in exc_states:
            remaining = es
            handled = False
            for h, ts in zip(s.handlers, htypes):
                if ty != "?" and ty != "reraise":
                    m = any(t in ("BaseException",) or t == ty
                            or exc_subclass(ty, t) for t in ts)
                    if not m and any(t == "?" for t in ts):
                        m = None
                else:
                    m = True if any(t in ("Exception", "BaseException")
                                    for t in ts) else None
                if m is False:
                    continue
                if m is True:
                    hs = remaining
                    remaining = None
                else:
                    c = mk("exc", ("is", tuple(sorted(ts)),
                                   es.pc[-1] if es.pc else TRUE))
                    hs = remaining.fork(c)
                    remaining = remaining.fork(not_(c))
                try:
                    if h.name:
                        self.setvar(h.name, app("exception", const(str(ty))),
                                    hs)
                    o = self.block(h.body, hs)
                except Dead:
                    o = None
                if o is not None:
                    outs.append(o)
                if remaining is None:
                    break
            if remaining is not None:
                self.raises.append((ty, NONE, remaining, self.where()))
                self.effects.append(Effect("uncaught", (ty,), remaining.pc,
                                           self.where()))
        if cur is not None:
            outs.append(cur)
        if not outs:
            if s.finalbody:
                try:
                    self.block(s.finalbody, st.fork())
                except Dead:
                    pass
            return None
        _, res = self.merge_exits([(NONE, o) for o in outs], base)
        if s.finalbody:
            res = self.block(s.finalbody, res)
        return res

    s_TryStar = s_Try

    # ---- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.for_loop(s, it, st)

    def for_loop(self, s, it, st):
        special = self.models.special_loop(self, s, it, st)
        if special is not None:
            return special[0]
        items = self.elements(it, st)
        if items is None or len(items) > 400:
            return self.unknown_loop(s, it, st)
        ctx = self.ctxs[-1]
        base = len(st.pc)
        lc = LoopCtx()
        cur = st
        for cond, val in items:
            if cur is None:
                break
            cond = simp(cond, cur.facts)
            if cond is FALSE:
                continue
            s1 = cur.fork(cond)
            s2 = cur.fork(not_(cond)) if cond is not TRUE else None
            lc.continues = []
            ctx.loops.append(lc)
            b1 = len(s1.pc)
            try:
                self.assign(s.target, val, s1)
                out = self.block(s.body, s1)
            except Dead:
                out = None
            finally:
                ctx.loops.pop()
            outs = [(NONE, x) for x in lc.continues]
            if out is not None:
                outs.append((NONE, out))
            m = self.merge_exits(outs, min(b1, base)) if outs else None
            r1 = m[1] if m else None
            if r1 is None:
                cur = s2
            elif s2 is None:
                cur = r1
            else:
                cur = self.merge(cond, r1, s2)
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        outs = [(NONE, x) for x in lc.breaks]
        if cur is not None:
            outs.append((NONE, cur))
        if not outs:
            return None
        return self.merge_exits(outs, base)[1]

    def s_While(self, s, st):
        # bounded unrolling when the condition is decided by constants
        n = 0
        cur = st
        ctx = self.ctxs[-1]
        snapshot = st.fork()
        neff = len(self.effects)
        lc = LoopCtx()
        base = len(st.pc)
        while n < 60:
            try:
                c = simp(self.cond(s.test, cur), cur.facts)
            except Dead:
                return None
            if c is FALSE:
                if s.orelse:
                    cur = self.block(s.orelse, cur)
                outs = [(NONE, x) for x in lc.breaks] + (
                    [(NONE, cur)] if cur is not None else [])
                return self.merge_exits(outs, base)[1] if outs else None
            if c is not TRUE:
                if not self.finite or n:
                    break
                return self.finite_while(s, cur)
            lc.continues = []
            ctx.loops.append(lc)
            try:
                out = self.block(s.body, cur)
            except Dead:
                out = None
            finally:
                ctx.loops.pop()
            outs = [(NONE, x) for x in lc.continues]
            if out is not None:
                outs.append((NONE, out))
            if not outs:
                return self.merge_exits([(NONE, x) for x in lc.breaks],
                                        base)[1] if lc.breaks else None
            cur = self.merge_exits(outs, base)[1]
            n += 1
        del self.effects[neff:]
        if self.finite:
            return self.finite_while(s, snapshot)
        return self.unknown_loop(s, None, snapshot)

    def finite_while(self, s, st):
        """Unroll a loop whose condition is a term (bounded lengths)."""
        snapshot = st.fork()
        neff, nr = len(self.effects), len(self.raises)
        base = len(st.pc)
        ctx = self.ctxs[-1]
        lc = LoopCtx()
        cur, done = st, []
        for _ in range(2 * self.finite + 3):
            try:
                c = simp(self.cond(s.test, cur), cur.facts)
            except Dead:
                cur = None
                break
            if c is not TRUE:
                done.append(cur.fork(not_(c)))
            if c is FALSE:
                cur = None
                break
            cur = cur.fork(c)
            lc.continues = []
            ctx.loops.append(lc)
            try:
                out = self.block(s.body, cur)
            except Dead:
                out = None
            finally:
                ctx.loops.pop()
            outs = [(NONE, x) for x in lc.continues]
            if out is not None:
                outs.append((NONE, out))
            if not outs:
                cur = None
                break
            cur = self.merge_exits(outs, base)[1]
        if cur is not None:
            del self.effects[neff:]
            del self.raises[nr:]
            return self.unknown_loop(s, None, snapshot)
        if s.orelse:
            done = [x for x in (self.block(s.orelse, d) for d in done)
                    if x is not None]
        outs = [(NONE, x) for x in lc.breaks + done]
        return self.merge_exits(outs, base)[1] if outs else None

    def unknown_loop(self, s, it, st):
        """Summarise a loop of unknown trip count by its transition terms."""
        names = []
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    if n.id not in names:
                        names.append(n.id)
                if isinstance(n, (ast.Subscript, ast.Attribute)) and \
                        isinstance(n.ctx, ast.Store):
                    r = n
                    while isinstance(r, (ast.Subscript, ast.Attribute)):
                        r = r.value
                    if isinstance(r, ast.Name) and r.id not in names:
                        names.append(r.id)
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.attr in (
                        "append", "extend", "update", "add", "insert", "pop",
                        "remove", "clear", "setdefault"):
                    if n.func.value.id not in names:
                        names.append(n.func.value.id)
        init = {}
        sc = st.heap[self.scope]
        heapobjs = {}
        for n in names:
            v = sc.vars.get(n, UNDEF)
            init[n] = v
        ctx = self.ctxs[-1]
        lc = LoopCtx()
        body_st = st.fork()
        self.loop_n = getattr(self, "loop_n", 0) + 1
        lev = self.loop_depth = getattr(self, "loop_depth", 0) + 1
        ins = {}
        for i, n in enumerate(names):
            v = init[n]
            o = self.obj(v, st) if v is not UNDEF else None
            if o is not None:
                # mutable container: havoc its content
                ins[n] = None
                body_st.heap[v.args[0]] = self.havoc_obj(o, lev)
            elif v is not UNDEF:
                ins[n] = mk("loopin", lev, len([x for x in ins.values() if x]),
                            T.shape(v))
                self.setvar(n, ins[n], body_st)
        idx = None
        try:
            if it is not None:
                el, idx = self.loop_elem(it, lev, body_st)
                self.assign(s.target, el, body_st)
                iterterm = it if it.op != "ref" else self.snap(it, body_st)
            else:
                iterterm = self.cond(s.test, body_st)
            base = len(body_st.pc)
            if it is None:
                body_st.assume(iterterm)
            ctx.loops.append(lc)
            try:
                out = self.block(s.body, body_st)
            finally:
                ctx.loops.pop()
        except Dead:
            out = None
            iterterm = it or NONE
            base = len(body_st.pc)
        self.loop_depth -= 1
        outs = [(NONE, x) for x in lc.continues]
        if out is not None:
            outs.append((NONE, out))
        fin = self.merge_exits(outs, base)[1] if outs else None
        steps = []
        for n in names:
            if ins.get(n) is not None:
                step = fin.heap[self.scope].vars.get(n, UNDEF) if fin else \
                    UNDEF
                steps.append((init[n], step))
        steps = tuple(steps)
        after = st
        j = 0
        simple = not lc.breaks
        for n in names:
            v = init[n]
            if ins.get(n) is not None:
                node = rec_term(j, steps, iterterm, simple, lev)
                j += 1
                self.setvar(n, node, after)
            elif v is UNDEF:
                last = fin.heap[self.scope].vars.get(n, UNDEF) if fin else \
                    UNDEF
                self.setvar(n, self.unk("loopvar", last)
                            if last is not UNDEF else self.unk("loopvar"),
                            after)
            else:
                o = fin.heap.get(v.args[0]) if fin else None
                after.heap[v.args[0]] = self.havoc_obj(
                    st.heap[v.args[0]], ("after", lev, iterterm), o)
        # other heap objects mutated in the loop
        if fin is not None:
            for i, o in fin.heap.items():
                if isinstance(o, Scope) or i not in st.heap:
                    continue
                if st.heap[i] is not o and not any(
                        init[n] is mk("ref", i) for n in names):
                    after.heap[i] = self.havoc_obj(st.heap[i], ("m", lev), o)
        return after

    def havoc_obj(self, o, tag, new=None):
        n = o.clone()
        tagn = mk("unknown", "loopobj", ())
        if isinstance(o, HList):
            extra = [v for _, v in (new.items if isinstance(new, HList)
                                    else [])]
            n.items = [(TRUE, T.unknown("looplist", *[
                x for x in [v for _, v in o.items] + extra
                if isinstance(x, Node)]))]
            n.havoc = True
        elif isinstance(o, HDict):
            src = new.items if isinstance(new, HDict) else o.items
            n.items = {k: (T.mk("truth", T.unknown("loopc", c)),
                           T.unknown("loopv", v))
                       for k, (c, v) in src.items()}
            n.havoc = True
        elif isinstance(o, HSet):
            n.items = {k: mk("truth", T.unknown("loops", c))
                       for k, c in o.items.items()}
            n.havoc = True
        elif isinstance(o, HTable):
            src = new.cols if isinstance(new, HTable) else o.cols
            n.cols = {k: (c, T.unknown("loopv", v) if
                          o.lookup(k) != (c, v) else v)
                      for k, (c, v) in src.items()}
        elif isinstance(o, HObj):
            n.attrs = {k: T.unknown("loopv", v) for k, v in o.attrs.items()}
        return n

    def loop_elem(self, it, lev, st):
        if it.op == "app" and it.args[0] == "builtins.range":
            i = mk("loopi", lev)
            a = it.args[1]
            start = a[0] if len(a) > 1 else ZERO
            return T.add(start, i) if len(a) < 3 else self.unk("range"), i
        if it.op == "app" and it.args[0] == "builtins.enumerate":
            i = mk("loopi", lev)
            return mk("tuple", (i, mk("elem", lev, it.args[1][0]))), i
        if it.op == "app" and it.args[0] == "builtins.zip":
            return mk("tuple", tuple(mk("elem", lev, x)
                                     for x in it.args[1])), None
        t = it if it.op != "ref" else self.snap(it, st)
        return mk("elem", lev, t), None

    # ---- match
    def s_Match(self, s, st):
        v = self.ev(s.subject, st)
        ctx_base = len(st.pc)
        outs = []
        cur = st
        for case in s.cases:
            if cur is None:
                break
            binds = []
            c = self.pattern(case.pattern, v, cur, binds)
            for n, x in binds:
                self.setvar(n, x, cur)
            if case.guard is not None:
                s1 = cur.fork(c) if c is not TRUE else cur
                c = and_(c, self.cond(case.guard, s1))
            c = simp(c, cur.facts)
            if c is FALSE:
                continue
            s1 = cur.fork(c)
            try:
                o = self.block(case.body, s1)
            except Dead:
                o = None
            if o is not None:
                outs.append((NONE, o))
            cur = None if c is TRUE else cur.fork(not_(c))
        if cur is not None:
            outs.append((NONE, cur))
        if not outs:
            return None
        return self.merge_exits(outs, ctx_base)[1]

    def pattern(self, p, v, st, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, st), st)
        if isinstance(p, ast.MatchSingleton):
            return T.is_(v, const(p.value))
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(q, v, st, binds) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, st,
                                                            binds)
            if p.name:
                binds.append((p.name, v))
            return c
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st)
            if not p.patterns and not p.kwd_patterns:
                return self.models.isinstance_(self, v, cls, st)
        self.unsupported.append(("pattern", self.where()))
        return mk("truth", self.unk("pattern", v))

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        v = self.ev(e, st)
        return self.truth(v, st)

    def truth(self, v, st):
        if v.op == "phi" and has_ref(v):
            return phi(v.args[0], self.truth(v.args[1], st),
                       self.truth(v.args[2], st))
        o = self.obj(v, st)
        if isinstance(o, HList):
            if getattr(o, "havoc", False):
                return mk("truth", self.unk("loop"))
            return or_(*[c for c, _ in o.items])
        if isinstance(o, HDict):
            if o.base is None:
                return or_(*[c for c, _ in o.items.values()])
            return mk("truth", self.unk("dict"))
        if isinstance(o, HSet):
            return or_(*o.items.values())
        if o is not None:
            return TRUE
        return as_bool(v)

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported.append((type(e).__name__, self.where()))
            return self.unk("expr:" + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return num(v)
        if isinstance(v, complex):
            return mk("const", "complex", repr(v))
        return const(v)

    def e_Name(self, e, st):
        return self.getvar(e.id, st)

    def e_Tuple(self, e, st):
        vals = self.ev_list(e.elts, st)
        if all(c is TRUE for c, _ in vals):
            return mk("tuple", tuple(v for _, v in vals))
        return self.new(HList(vals), st)

    def ev_list(self, elts, st):
        vals = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.elements(v, st)
                if items is None:
                    vals.append((TRUE, self.unk("star", v)))
                else:
                    vals.extend(items)
            else:
                vals.append((TRUE, self.ev(x, st)))
        return vals

    def e_List(self, e, st):
        return self.new(HList(self.ev_list(e.elts, st)), st)

    def e_Set(self, e, st):
        o = HSet()
        for c, v in self.ev_list(e.elts, st):
            o.items[v] = or_(o.items.get(v, FALSE), c)
        return self.new(o, st)

    def e_Dict(self, e, st):
        o = HDict()
        ref = self.new(o, st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st)
                self.models.dict_update(self, st.heap[ref.args[0]], src, st)
            else:
                kk = self.ev(k, st)
                vv = self.ev(v, st)
                self.dict_set(st.heap[ref.args[0]], kk, vv, st)
        return ref

    def dict_set(self, o, k, v, st, cond=TRUE):
        items = o.items
        if k.op == "phi":
            self.dict_set(o, k.args[1], v, st, and_(cond, k.args[0]))
            self.dict_set(o, k.args[2], v, st, and_(cond, not_(k.args[0])))
            return
        p, old = o.lookup(k)
        if cond is TRUE:
            items[k] = (TRUE, v)
        else:
            items[k] = (or_(p, cond),
                        v if old is UNDEF else self.vphi(cond, v, old))

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value, st)
                if x.format_spec is None and x.conversion in (-1, 115):
                    parts.append(v)
                else:
                    spec = self.ev(x.format_spec, st) if x.format_spec \
                        else const("")
                    parts.append(app("format", v, spec,
                                     num(x.conversion)))
        return concat_parts(parts)

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.getattr(base, e.attr, st)

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        key = self.ev(e.slice, st)
        return self.getitem(base, key, st)

    def e_Slice(self, e, st):
        return mk("slice", *[self.ev(x, st) if x is not None else NONE
                             for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, st):
        return self.unk("starred", self.ev(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        return self.make_func(e, st, "<lambda>")

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        return self.branch(c, st, lambda s: self.ev(e.body, s),
                           lambda s: self.ev(e.orelse, s))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            v = self.ev(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s)
            if isand:
                return self.branch(c, s, lambda z: rec(i + 1, z),
                                   lambda z: boolish(v, FALSE))
            return self.branch(c, s, lambda z: boolish(v, TRUE),
                               lambda z: rec(i + 1, z))

        def boolish(v, b):
            return b if v.op in T.BOOLOPS or v.op == "const" and \
                v.args[0] == "bool" else v

        return rec(0, st)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            return T.neg(v) if v.op != "ref" else self.unk("neg")
        if isinstance(e.op, ast.UAdd):
            return v
        if v.op == "phi":
            return phi(v.args[0], self.inv(v.args[1]), self.inv(v.args[2]))
        return self.inv(v)

    def inv(self, v):
        if v.op in T.BOOLOPS or v.op == "const":
            return not_(as_bool(v))
        if v.op in ("col", "index", "attr", "phi", "sym", "store", "grp",
                    "app", "elem"):
            return not_(as_bool(v))
        return self.unk("invert", v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if (a.op == "phi" and has_ref(a)) or (b.op == "phi" and has_ref(b)):
            if a.op == "phi" and has_ref(a):
                return self.distribute(a, st,
                                       lambda s, x: self.binop(op, x, b, s))
            return self.distribute(b, st,
                                   lambda s, x: self.binop(op, a, x, s))
        oa, ob = self.obj(a, st), self.obj(b, st)
        if oa is not None or ob is not None:
            return self.models.obj_binop(self, op, a, b, oa, ob, st)
        if op == "Add" and (is_str(a) or is_str(b)):
            return concat_parts([a, b])
        if op == "Add" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", a.args[0] + b.args[0])
        if op == "Mult" and (is_str(a) or is_str(b)):
            s_, n = (a, b) if is_str(a) else (b, a)
            i = T.int_val(n)
            if s_.op == "const" and i is not None:
                return const(s_.args[1] * i)
            return app("strrep", s_, n)
        if op == "Mod" and is_str(a):
            return app("strmod", a, b)
        if a.op == "tuple" or b.op == "tuple":
            if op == "Mult":
                t, n = (a, b) if a.op == "tuple" else (b, a)
                i = T.int_val(n)
                if i is not None:
                    return mk("tuple", t.args[0] * i)
            return self.unk("tupleop", a, b)
        if op == "Add":
            return T.add(a, b)
        if op == "Sub":
            return T.sub(a, b)
        if op == "Mult":
            return T.mul(a, b)
        if op == "Div":
            return T.div(a, b)
        if op == "Pow":
            return T.power(a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            def bl(x):
                return as_bool(x)
            if op == "BitAnd":
                return and_(bl(a), bl(b))
            if op == "BitOr":
                return or_(bl(a), bl(b))
            x, y = bl(a), bl(b)
            return or_(and_(x, not_(y)), and_(not_(x), y))
        va, vb = T.const_val(a), T.const_val(b)
        if op in ("FloorDiv", "Mod") and va is not None and vb:
            return num(va // vb) if op == "FloorDiv" else num(va % vb)
        return app("op." + op, a, b)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = TRUE
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            c = self.compare(type(op).__name__, left, right, st)
            out = c if out is None else and_(as_bool(out), as_bool(c))
            left = right
        return out

    def compare(self, op, a, b, st):
        if op in ("In", "NotIn"):
            c = self.contains(b, a, st)
            return c if op == "In" else not_(c)
        if op in ("Is", "IsNot"):
            c = T.is_(a, b)
            return c if op == "Is" else not_(c)
        if op in ("Eq", "NotEq"):
            c = self.eq(a, b, st)
            return c if op == "Eq" else not_(c)
        if a.op == "count" or b.op == "count":
            r = self.count_cmp(op, a, b)
            if r is not None:
                return r
        oa, ob = self.obj(a, st), self.obj(b, st)
        if isinstance(oa, HSet) and isinstance(ob, HSet):
            sub, sup = (oa, ob) if op in ("Lt", "LtE") else (ob, oa)
            return and_(*[or_(not_(c), sup.items.get(k, FALSE))
                          for k, c in sub.items.items()])
        if op == "Lt":
            return T.lt(a, b)
        if op == "LtE":
            return T.le(a, b)
        if op == "Gt":
            return T.lt(b, a)
        return T.le(b, a)

    def count_cmp(self, op, a, b):
        if b.op == "count":
            flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
            return self.count_cmp(flip[op], b, a)
        n = T.const_val(b)
        anyc = or_(*a.args[0])
        if n == 0 and op == "Gt" or n == 1 and op == "GtE":
            return anyc
        if n == 0 and op == "LtE" or n == 1 and op == "Lt":
            return not_(anyc)
        if n == 0 and op == "GtE":
            return TRUE
        return None

    def eq(self, a, b, st):
        if a.op == "count" or b.op == "count":
            x, y = (a, b) if a.op == "count" else (b, a)
            if T.const_val(y) == 0:
                return not_(or_(*x.args[0]))
        if a.op == "ref" or b.op == "ref":
            if a is b:
                return TRUE
            oa, ob = self.obj(a, st), self.obj(b, st)
            if isinstance(oa, HSet) and isinstance(ob, HSet):
                ks = list(oa.items) + [k for k in ob.items
                                       if k not in oa.items]
                return and_(*[xnor(oa.items.get(k, FALSE),
                                   ob.items.get(k, FALSE)) for k in ks])
            if oa is not None and ob is not None:
                return T.eq(self.snap(a, st), self.snap(b, st))
            if NONE in (a, b):
                return FALSE
            if oa is not None and b.op in ("const", "num") or \
                    ob is not None and a.op in ("const", "num"):
                return FALSE
            return mk("truth", self.unk("objeq", a, b))
        return T.eq(a, b)

    def contains(self, cont, x, st):
        if cont.op == "phi":
            return phi(cont.args[0], self.contains(cont.args[1], x, st),
                       self.contains(cont.args[2], x, st))
        o = self.obj(cont, st)
        if isinstance(o, (HDict, HTable)):
            if x.op == "phi":
                return phi(x.args[0], self.contains(cont, x.args[1], st),
                           self.contains(cont, x.args[2], st))
            if T.is_literal(x) or o.base is not None and x in (
                    o.items if isinstance(o, HDict) else o.cols):
                return o.lookup(x)[0]
            if o.base is None:
                d = o.items if isinstance(o, HDict) else o.cols
                return or_(*[and_(c, T.eq(x, k)) for k, (c, _) in d.items()])
            return mk("truth", self.unk("in", x))
        if isinstance(o, HSet):
            if x.op == "phi":
                return phi(x.args[0], self.contains(cont, x.args[1], st),
                           self.contains(cont, x.args[2], st))
            if T.is_literal(x):
                return o.items.get(x, FALSE)
            return or_(*[and_(c, T.eq(x, k)) for k, c in o.items.items()])
        if isinstance(o, HList):
            if getattr(o, "havoc", False):
                return mk("truth", self.unk("in", x))
            return or_(*[and_(c, self.eq(x, v, st)) for c, v in o.items])
        if cont.op in ("tuple", "vec"):
            return or_(*[self.eq(x, v, st) for v in cont.args[0]])
        if cont.op == "const" and x.op == "const" and \
                cont.args[0] == x.args[0] == "str":
            return const(x.args[1] in cont.args[1])
        if isinstance(o, HObj):
            return mk("truth", self.unk("in", x))
        r = self.models.contains(self, cont, x, st)
        if r is not None:
            return r
        return mk("in", x, cont)

    # comprehension
    def comp(self, gens, st, emit, cond=TRUE):
        """Run emit(state, cond) for each element of the comprehension."""
        if not gens:
            emit(st, cond)
            return True
        g = gens[0]
        it = self.ev(g.iter, st)
        items = self.elements(it, st)
        if items is None:
            return False
        for c, v in items:
            c = simp(c, st.facts)
            if c is FALSE:
                continue
            # element evaluated in a forked path, heap joined afterwards
            s1 = st.fork(c)
            self.assign(g.target, v, s1)
            cc = and_(cond, c)
            try:
                for f in g.ifs:
                    fc = simp(self.cond(f, s1), s1.facts)
                    cc = and_(cc, fc)
                    if fc is FALSE:
                        break
                    s1.assume(fc)
                else:
                    if not self.comp(gens[1:], s1, emit, cc):
                        return False
            except Dead:
                pass
            # keep objects created inside (values may refer to them)
            for i, o in s1.heap.items():
                if i not in st.heap:
                    st.heap[i] = o
        return True

    def in_comp_scope(self, e, st, run):
        o = st.heap[self.scope]
        sc = Scope(self.scope, o.module, o.name)
        ref = self.new(sc, st)
        saved, self.scope = self.scope, ref.args[0]
        try:
            return run()
        finally:
            self.scope = saved

    def e_ListComp(self, e, st):
        out = []

        def run():
            ok = self.comp(e.generators, st,
                           lambda s, c: out.append((c, self.ev(e.elt, s))))
            if not ok:
                return self.unknown_comp(e, st)
            return self.new(HList(out), st)

        return self.in_comp_scope(e, st, run)

    e_GeneratorExp = e_ListComp

    def unknown_comp(self, e, st):
        it = self.ev(e.generators[0].iter, st)
        lev = self.loop_depth = getattr(self, "loop_depth", 0) + 1
        try:
            el, _ = self.loop_elem(it, lev, st)
            s1 = st.fork()
            self.assign(e.generators[0].target, el, s1)
            conds = [self.cond(f, s1) for f in e.generators[0].ifs]
            if len(e.generators) > 1 or isinstance(e, ast.DictComp):
                return self.unk("comp", el)
            v = self.ev(e.elt, s1)
            if v.op == "ref":
                v = self.snap(v, s1)
            itn = it if it.op != "ref" else self.snap(it, st)
            return mk("app", "comp", (v, and_(*conds), itn), ())
        except Dead:
            return self.unk("comp")
        finally:
            self.loop_depth -= 1

    def e_SetComp(self, e, st):
        o = HSet()

        def emit(s, c):
            v = self.ev(e.elt, s)
            o.items[v] = or_(o.items.get(v, FALSE), c)

        def run():
            if not self.comp(e.generators, st, emit):
                return self.unknown_comp(e, st)
            return self.new(o, st)

        return self.in_comp_scope(e, st, run)

    def e_DictComp(self, e, st):
        o = HDict()

        def emit(s, c):
            k = self.ev(e.key, s)
            v = self.ev(e.value, s)
            self.dict_set(o, k, v, s, c)

        def run():
            if not self.comp(e.generators, st, emit):
                return self.unknown_comp(e, st)
            return self.new(o, st)

        return self.in_comp_scope(e, st, run)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------ containers
    def elements(self, v, st):
        """Finite list of (cond, value), or None."""
        if v.op in ("tuple", "vec"):
            return [(TRUE, x) for x in v.args[0]]
        if v.op == "nt":
            return [(TRUE, x) for x in v.args[1]]
        if v.op == "const" and v.args[0] == "str":
            return [(TRUE, const(c)) for c in v.args[1]]
        if v.op == "phi":
            a, b = self.elements(v.args[1], st), self.elements(v.args[2], st)
            if a is None or b is None:
                return None
            c = v.args[0]
            if len(a) == len(b):
                return [(phi(c, p, q), self.vphi(c, x, y))
                        for (p, x), (q, y) in zip(a, b)]
            return [(and_(c, p), x) for p, x in a] + \
                [(and_(not_(c), p), x) for p, x in b]
        o = self.obj(v, st)
        if isinstance(o, HList):
            if getattr(o, "havoc", False):
                return None
            return list(o.items)
        if isinstance(o, HDict):
            if o.base is not None or getattr(o, "havoc", False):
                return None
            return [(c, k) for k, (c, _) in o.items.items() if c is not FALSE]
        if isinstance(o, HSet):
            if getattr(o, "havoc", False):
                return None
            return [(c, k) for k, c in sorted(
                o.items.items(), key=lambda t: (str(t[0].args), t[0].id))
                if c is not FALSE]
        if isinstance(o, HTable):
            if o.base is None:
                return [(c, k) for k, (c, _) in o.cols.items()
                        if c is not FALSE]
            return None
        if v.op == "app" and v.args[0] == "scipy.stats.linregress":
            return [(TRUE, T.attr(v, a)) for a in
                    ("slope", "intercept", "rvalue", "pvalue", "stderr")]
        if v.op == "app" and v.args[0] == "builtins.range":
            xs = [T.int_val(x) for x in v.args[1]]
            if all(x is not None for x in xs) and len(range(*xs)) <= 400:
                return [(TRUE, num(i)) for i in range(*xs)]
        if v.op == "app" and v.args[0] == "builtins.enumerate":
            it = self.elements(v.args[1][0], st)
            if it is not None and all(c is TRUE for c, _ in it):
                return [(TRUE, mk("tuple", (num(i), x)))
                        for i, (_, x) in enumerate(it)]
            return None
        if v.op == "app" and v.args[0] == "builtins.zip":
            its = [self.elements(x, st) for x in v.args[1]]
            if all(i is not None for i in its) and all(
                    c is TRUE for i in its for c, _ in i):
                return [(TRUE, mk("tuple", tuple(x for _, x in row)))
                        for row in zip(*its)]
            return None
        if v.op == "app" and v.args[0] == "itertools.chain":
            out = []
            for x in v.args[1]:
                i = self.elements(x, st)
                if i is None:
                    return None
                out += i
            return out
        if v.op == "app" and v.args[0] == "PyCO2SYS.sys" and \
                {"par1", "par2"} <= {k for k, _ in v.args[2]}:
            return [(TRUE, const(k)) for k in self.models.CO2SYS_KEYS]
        if v.op == "app" and v.args[0] in ("dict.items", "dict.keys",
                                           "dict.values"):
            ks = self.elements(v.args[1][0], st)
            if ks is None:
                return None
            if v.args[0] == "dict.keys":
                return ks
            out = [(c, T.index(v.args[1][0], k)) for c, k in ks]
            if v.args[0] == "dict.values":
                return out
            return [(c, mk("tuple", (k, x)))
                    for (c, x), (_, k) in zip(out, ks)]
        if self.finite and self.countable(v):
            return [(TRUE, self.models.getitem(self, v, num(i), st))
                    for i in range(self.finite)]
        return None

    def countable(self, v):
        """An array of data of unknown length (finite-length analyses)."""
        if v.op == "app" and v.args[0].startswith(
                ("builtins.", "itertools.")):
            return False
        if v.op in ("sym", "store", "index", "app", "num", "exp", "log"):
            return T.shape(v) == "a" or v.op == "app" and v.args[0] in (
                "str.splitlines", "splitlines")
        return False

    def snap(self, v, st, depth=0):
        """Immutable snapshot of a heap value as a term."""
        if depth > 8:
            return self.unk("deep")
        if v.op == "phi":
            if not has_ref(v) and not has_op(v, ("tuple", "nt")):
                return v
            return phi(v.args[0], self.snap(v.args[1], st, depth),
                       self.snap(v.args[2], st, depth))
        if v.op == "tuple":
            return mk("tuple", tuple(self.snap(x, st, depth + 1)
                                     for x in v.args[0]))
        if v.op == "nt":
            return mk("nt", v.args[0], tuple(self.snap(x, st, depth + 1)
                                             for x in v.args[1]))
        o = self.obj(v, st)
        if o is None:
            return v
        if isinstance(o, HDict):
            return mk("dictsnap", o.base if o.base is not None else NONE,
                      tuple(sorted(((k, c, self.snap(x, st, depth + 1))
                                    for k, (c, x) in o.items.items()
                                    if c is not FALSE),
                                   key=lambda t: t[0].id)))
        if isinstance(o, HList):
            return mk("listsnap", tuple((c, self.snap(x, st, depth + 1))
                                        for c, x in o.items))
        if isinstance(o, HSet):
            return mk("setsnap", tuple(sorted(
                ((k, c) for k, c in o.items.items() if c is not FALSE),
                key=lambda t: t[0].id)))
        if isinstance(o, HTable):
            return mk("tablesnap", o.base if o.base is not None else NONE,
                      tuple(sorted(((k, c, self.snap(x, st, depth + 1))
                                    for k, (c, x) in o.cols.items()
                                    if c is not FALSE),
                                   key=lambda t: t[0].id)))
        if isinstance(o, HObj):
            return mk("objsnap", o.cls.name, tuple(sorted(
                (k, self.snap(x, st, depth + 1)) for k, x in o.attrs.items()
                if k not in ("t",)) if depth < 3 else ()))
        return self.unk("obj")

    def getitem(self, base, key, st):
        if base.op == "phi" and has_ref(base):
            return self.distribute(base, st,
                                   lambda s, b: self.getitem(b, key, s))
        if key.op == "phi" and base.op == "ref" and not has_ref(key):
            return self.branch(key.args[0], st,
                               lambda s: self.getitem(base, key.args[1], s),
                               lambda s: self.getitem(base, key.args[2], s))
        return self.models.getitem(self, base, key, st)

    def setitem(self, base, key, v, st, expr):
        if base.op == "phi" and has_ref(base):
            self.distribute(base, st, lambda s, b: (
                self.setitem(b, key, v, s, None), NONE)[1])
            return
        self.models.setitem(self, base, key, v, st, expr)

    def getattr(self, base, name, st):
        if base.op == "phi" and (has_ref(base) or has_op(
                base, ("nt", "func", "class", "module", "ext"))):
            return self.distribute2(base, st,
                                    lambda s, b: self.getattr(b, name, s))
        return self.models.getattr_(self, base, name, st)

    def distribute2(self, v, st, f):
        if v.op == "phi":
            return self.branch(v.args[0], st,
                               lambda s: self.distribute2(v.args[1], s, f),
                               lambda s: self.distribute2(v.args[2], s, f))
        return f(st, v)

    def setattr(self, base, name, v, st):
        if base.op == "phi" and has_ref(base):
            self.distribute(base, st, lambda s, b: (
                self.setattr(b, name, v, s), NONE)[1])
            return
        self.models.setattr_(self, base, name, v, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.elements(v, st)
                if items is None or not all(c is TRUE for c, _ in items):
                    args.append(mk("unknown", "starargs",
                                   (v,) if v.op != "ref" else ()))
                else:
                    args.extend(x for _, x in items)
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is not None:
                kw[k.arg] = (TRUE, self.ev(k.value, st))
            else:
                v = self.ev(k.value, st)
                self.expand_kwargs(v, kw, st)
        self.site = e.lineno
        self.callsites += 1
        return self.call(f, args, kw, st)

    def expand_kwargs(self, v, kw, st):
        if v.op == "phi":
            a, b = {}, {}
            self.expand_kwargs(v.args[1], a, st)
            self.expand_kwargs(v.args[2], b, st)
            c = v.args[0]
            for k in list(a) + [k for k in b if k not in a]:
                p, x = a.get(k, (FALSE, None))
                q, y = b.get(k, (FALSE, None))
                if x is None:
                    x = y
                if y is None:
                    y = x
                kw[k] = (phi(c, p, q), self.vphi(c, x, y))
            return
        o = self.obj(v, st)
        if isinstance(o, HDict):
            for k, (c, x) in o.items.items():
                if k.op == "const" and isinstance(k.args[1], str):
                    if c is not FALSE:
                        if k.args[1] in kw and kw[k.args[1]][0] is TRUE:
                            self.do_raise("TypeError", st, cond=c)
                        kw[k.args[1]] = (c, x)
            if o.base is not None:
                kw["**"] = (TRUE, self.unk("openkw", o.base))
            return
        if v.op == "ref" or v is NONE:
            return
        kw["**"] = (TRUE, self.unk("openkw", v))

    def call(self, f, args, kw, st):
        self.ticks += 5
        if self.ticks > self.maxticks:
            raise Unsupported("budget")
        if f.op == "phi":
            return self.branch(f.args[0], st,
                               lambda s: self.call(f.args[1], args, kw, s),
                               lambda s: self.call(f.args[2], args, kw, s))
        if f.op == "func":
            return self.call_func(f.args[0], args, kw, st)
        if f.op == "static":
            return self.call(f.args[0], args, kw, st)
        if f.op == "bound":
            return self.call(f.args[0], [f.args[1]] + args, kw, st)
        if f.op == "partial":
            fn, pa, pk = f.args
            k2 = {k: (TRUE, v) for k, v in pk}
            k2.update(kw)
            return self.call(fn, list(pa) + args, k2, st)
        if f.op == "method":
            return self.models.method(self, f.args[0], f.args[1], args, kw, st)
        if f.op == "class":
            return self.models.construct(self, f.args[0], args, kw, st)
        if f.op == "ext":
            return self.models.call_ext(self, f.args[0], args, kw, st)
        if f.op == "ref":
            o = self.obj(f, st)
            if isinstance(o, HObj):
                m = self.models.class_attr(self, o.cls, "__call__", st)
                if m is not None:
                    return self.call(mk("bound", m, f), args, kw, st)
        vals = [self.snap(a, st) for a in args]
        return self.unk("call", f, *vals)

    def bind(self, fn, args, kw, st):
        """Bind arguments to parameters: dict name -> Node."""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        kw = dict(kw)
        out = {}
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            out[n] = v
        if extra:
            if a.vararg is None:
                self.effect("arity", (fn.qual, "too many positional"), st)
                self.do_raise("TypeError", st)
        if a.vararg is not None:
            out[a.vararg.arg] = mk("tuple", tuple(extra))
        openkw = kw.pop("**", None)
        defaults = {}
        for n, d in zip(pos[len(pos) - len(fn.defaults):], fn.defaults):
            defaults[n] = d
        for n, d in zip(kwonly, fn.kw_defaults):
            if d is not None:
                defaults[n] = d
        for n in pos + kwonly:
            if n in kw:
                c, v = kw.pop(n)
                if n in out:
                    if c is not FALSE:
                        self.effect("arity", (fn.qual, "multiple " + n), st)
                        self.do_raise("TypeError", st, cond=c)
                    continue
                if c is TRUE:
                    out[n] = v
                elif n in defaults:
                    out[n] = self.vphi(simp(c, st.facts), v, defaults[n])
                else:
                    self.effect("arity", (fn.qual, "missing " + n), st)
                    self.do_raise("TypeError", st, cond=not_(c))
                    out[n] = v
            elif n not in out:
                if n in defaults:
                    out[n] = defaults[n]
                elif openkw is not None:
                    out[n] = self.unk("openkw:" + n, openkw[1])
                else:
                    self.effect("arity", (fn.qual, "missing " + n), st)
                    self.do_raise("TypeError", st)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new(HDict(
                {const(k): cv for k, cv in kw.items()}, kind="dict"), st)
        else:
            for k, (c, v) in kw.items():
                c = simp(c, st.facts)
                if c is FALSE:
                    continue
                self.effect("badkw", (fn.qual, k), st)
                self.do_raise("TypeError", st, cond=c)
        return out

    def call_func(self, fn, args, kw, st):
        h = self.opaque.get(fn.qual)
        if h is not None:
            r = h(self, fn, args, kw, st)
            if r is not None:
                return r
        if self.depth > 60:
            return self.unk("recursion")
        if sum(1 for q in self.callstack if q == fn.qual) > 4:
            self.effect("recursion", (fn.qual,), st)
            return self.unk("recursion")
        self.analysed.add(fn.qual)
        vars_ = self.bind(fn, args, kw, st)
        sc = Scope(fn.scope, fn.module, fn.qual)
        sc.vars = vars_
        ref = self.new(sc, st)
        sid = ref.args[0]
        saved, self.scope = self.scope, sid
        site = self.site
        self.callstack.append(fn.qual)
        ctx = Ctx(len(st.pc))
        self.ctxs.append(ctx)
        self.depth += 1
        pc0, facts0 = st.pc, st.facts
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st)
                ctx.returns.append((v, st.fork()))
                out = None
            else:
                if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                       for n in own_walk(fn.node)):
                    return self.models.generator(self, fn, st)
                cur = st.fork()
                out = self.block(fn.node.body, cur)
        finally:
            self.depth -= 1
            self.ctxs.pop()
            self.callstack.pop()
            self.scope = saved
            self.site = site
        if out is not None:
            ctx.returns.append((NONE, out))
        if not ctx.returns:
            raise Dead()
        v, s = self.merge_exits(ctx.returns, ctx.base)
        st.adopt(s)
        if sid not in self.captured:
            st.heap.pop(sid, None)
        return v

    # ------------------------------------------------------------ entry
    def lookup(self, qual):
        """Resolve 'calkulate.core.solve_emf' to its value node."""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.modscope:
                v = self.modnode[m]
                for p in parts[i:]:
                    if v.op == "module":
                        v = self.st.heap[self.modscope[v.args[0]]].vars.get(p)
                    elif v.op == "class":
                        v = self.models.class_attr(self, v.args[0], p, self.st)
                    else:
                        return None
                    if v is None:
                        return None
                return v
        return None


    def analyse(self, f, args=(), kw=None, st=None):
        """Analyse one entry point in a fork of the import-time state."""
        saved = (self.effects, self.raises, self.site)
        self.effects, self.raises = [], []
        self.ticks = 0
        st = (st or self.st).fork()
        kw = {k: v if isinstance(v, tuple) else (TRUE, v)
              for k, v in (kw or {}).items()}
        if isinstance(f, str):
            q, f = f, self.lookup(f)
            if f is None:
                raise MissingAnchor(q)
        ctx = Ctx(0)
        self.ctxs.append(ctx)
        self.callstack.append("<entry>")
        scope, self.scope = self.scope, None
        try:
            value = self.call(f, list(args), kw, st)
        except Dead:
            value = None
        finally:
            self.ctxs.pop()
            self.callstack.pop()
            self.scope = scope
            effects, raises = self.effects, self.raises
            self.effects, self.raises, self.site = saved
        return Result(self, value, st, raises, effects)


class MissingAnchor(Exception):
    pass


class Result:
    def __init__(self, interp, value, st, raises, effects):
        self.I = interp
        self.value, self.st = value, st
        self.raises, self.effects = raises, effects

    def snap(self, v=None):
        v = self.value if v is None else v
        return None if v is None else self.I.snap(v, self.st)

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]


# ---------------------------------------------------------------- helpers
def rec_term(j, steps, iterterm, simple, lev):
    """The j-th loop-carried value, with only what it depends on."""
    def uses(t):
        return {x.args[1] for x in T.walk(t)
                if x.op == "loopin" and x.args[0] == lev}

    order = [j]
    todo = [j]
    extra = uses(iterterm)
    while todo:
        k = todo.pop(0)
        for d in sorted(uses(steps[k][1]) | extra):
            if d not in order:
                order.append(d)
                todo.append(d)
    new = {k: i for i, k in enumerate(order)}

    def ren(t):
        return T.transform(t, lambda x: mk(
            "loopin", lev, new[x.args[1]], x.args[2])
            if x.op == "loopin" and x.args[0] == lev else None)
    return mk("rec", 0, tuple((steps[k][0], ren(steps[k][1]))
                              for k in order), ren(iterterm), simple)


def xnor(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def phi_leaves(v):
    if v.op != "phi":
        return [v]
    out = []
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            stack += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


def has_ref(v):
    c = v.cache.get("hasref")
    if c is None:
        c = any(x.op in ("ref", "nt", "tuple", "bound", "partial", "method")
                for x in phi_leaves(v))
        v.cache["hasref"] = c
    return c


def has_op(v, ops):
    return any(x.op in ops for x in phi_leaves(v))


def is_str(v):
    if v.op == "const":
        return v.args[0] == "str"
    if v.op == "app":
        return v.args[0] in ("concat", "format", "strrep", "strmod",
                             "builtins.str", "str.format", "builtins.repr",
                             "str.join", "str.lower", "str.upper",
                             "str.strip", "str.replace")
    if v.op == "sym":
        return "str" in v.args[1]
    if v.op == "phi":
        return any(is_str(x) for x in phi_leaves(v))
    return False


def concat_parts(parts):
    out = []
    for p in parts:
        if p.op == "app" and p.args[0] == "concat":
            sub = list(p.args[1])
        else:
            sub = [p]
        for q in sub:
            if q.op == "const" and q.args[0] == "str":
                if q.args[1] == "":
                    continue
                if out and out[-1].op == "const" and \
                        out[-1].args[0] == "str":
                    out[-1] = const(out[-1].args[1] + q.args[1])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("app", "concat", tuple(out), ())


def own_walk(fnode):
    stack = list(ast.iter_child_nodes(fnode))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def may_raise(stmt):
    for n in ast.walk(stmt):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.Raise,
                          ast.Assert, ast.BinOp)):
            if isinstance(n, ast.Attribute):
                continue
            return True
    return False
