"""Hash-consed value terms (the abstract domain of the value-flow analysis).

Every abstract value is an interned ``Node``.  Arithmetic is kept in a normal
form: a sum of Laurent monomials over *atoms* with exact rational coefficients
(global value numbering modulo the field axioms, with exp/log of monomials
folded in).  Boolean terms and gated joins (``phi``) are nodes as well.

Nothing in this module executes code of the analysed repository.
"""

from fractions import Fraction
from decimal import Decimal
import cmath
import random
import hashlib
import time

_intern = {}
_counter = [0]


class Node:
    __slots__ = ("op", "args", "id", "_h", "cache")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def mk(op, *args):
    key = (op, args)
    n = _intern.get(key)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        _counter[0] += 1
        n.id = _counter[0]
        n._h = hash((op, n.id))
        n.cache = {}
        _intern[key] = n
    return n


# ---------------------------------------------------------------- constants
def const(v):
    """Non numeric constant (str, None, bool, bytes, Ellipsis)."""
    return mk("const", type(v).__name__, v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
NAN = mk("nan")
INF = mk("inf")


def num(v):
    if isinstance(v, bool):
        return const(v)
    if isinstance(v, int):
        f = Fraction(v)
    elif isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        f = Fraction(Decimal(repr(v)))
    elif isinstance(v, Fraction):
        f = v
    else:
        return mk("const", "complex", repr(v))
    return _num({(): f})


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def _num(poly):
    """poly: dict monomial(tuple of (atom, exp) sorted by atom id) -> Fraction."""
    items = [(m, c) for m, c in poly.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != "poly":
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk("num", tuple(items))


ZERO = _num({})
ONE = _num({(): Fraction(1)})


def is_const_num(n):
    return n.op == "num" and (
        not n.args[0] or (len(n.args[0]) == 1 and n.args[0][0][0] == ())
    )


def const_val(n):
    """Fraction value of a constant number, else None."""
    if n.op == "num":
        if not n.args[0]:
            return Fraction(0)
        if len(n.args[0]) == 1 and n.args[0][0][0] == ():
            return n.args[0][0][1]
    if n is TRUE:
        return Fraction(1)
    if n is FALSE:
        return Fraction(0)
    return None


def int_val(n):
    v = const_val(n)
    if v is not None and v.denominator == 1 and n.op == "num":
        return int(v)
    return None


def pyval(n):
    """Python value of a constant node; raises ValueError if not constant."""
    if n.op == "const":
        return n.args[1]
    if n.op == "num":
        v = const_val(n)
        if v is not None:
            return int(v) if v.denominator == 1 else v
    if n.op == "tuple":
        return tuple(pyval(a) for a in n.args[0])
    raise ValueError(n)


def is_literal(n):
    if n.op in ("const", "ext", "func", "class", "module", "nan"):
        return True
    if n.op == "num":
        return const_val(n) is not None
    if n.op == "tuple":
        return all(is_literal(a) for a in n.args[0])
    return False


# ---------------------------------------------------------------- arithmetic
KEEP_VEC = False    # keep one-element arrays apart from their element


def poly(n):
    if n.op == "num":
        return dict(n.args[0])
    if n is TRUE:
        return {(): Fraction(1)}
    if n is FALSE:
        return {}
    if n.op == "vec" and len(n.args[0]) == 1 and not KEEP_VEC:
        return poly(n.args[0][0])
    if n.op == "poly":
        return dict(n.args[0].args[0])
    return {((n, Fraction(1)),): Fraction(1)}


def add(a, b):
    if a is NAN or b is NAN:
        return NAN
    pa = poly(a)
    for m, c in poly(b).items():
        pa[m] = pa.get(m, 0) + c
    return _num(_merge_phis(pa))


def _merge_phis(pol):
    """m*phi(c,a,b) + m*phi(c,d,e) = m*phi(c,a+d,b+e)"""
    groups = None
    for m, k in pol.items():
        if k == 0:
            continue
        for a, e in m:
            if a.op == "phi" and e == 1:
                if groups is None:
                    groups = {}
                groups.setdefault(
                    (a.args[0], tuple(t for t in m if t[0] is not a)),
                    []).append((m, a))
    if groups is None or all(len(g) < 2 for g in groups.values()):
        return pol
    for (c, rest), g in groups.items():
        if len(g) < 2 or any(m not in pol or not pol[m] for m, _ in g):
            continue
        if any(not _numeric_arm(x) for _, a in g for x in a.args[1:]):
            continue
        x = y = ZERO
        for m, a in g:
            k = num(pol[m])
            x = add(x, mul(k, a.args[1]))
            y = add(y, mul(k, a.args[2]))
        pol = {m: k for m, k in pol.items() if m not in {m for m, _ in g}}
        for m2, k2 in _mulpoly_raw(poly(phi(c, x, y)),
                                   {rest: Fraction(1)}).items():
            pol[m2] = pol.get(m2, 0) + k2
        return _merge_phis(_expand(pol))
    return pol


def _numeric_arm(x):
    return not (x.op in STRUCTURAL or x.op in BOOLOPS or x is NAN
                or x.op in ("inf", "undef", "vec", "arr", "tuple"))


def neg(a):
    if a is NAN:
        return NAN
    return _num({m: -c for m, c in poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(
        sorted(((a, e) for a, e in d.items() if e != 0), key=lambda t: t[0].id)
    )


def _expand(pol):
    """Expand positive integer powers of ``poly`` atoms."""
    again = True
    while again:
        again = False
        out = {}
        for m, c in pol.items():
            hit = None
            for a, e in m:
                if a.op == "poly" and e > 0 and e.denominator == 1 and e <= 12:
                    hit = (a, e)
                    break
            if hit is None:
                out[m] = out.get(m, 0) + c
                continue
            again = True
            rest = tuple(t for t in m if t[0] is not hit[0])
            sub_ = {rest: c}
            base = dict(hit[0].args[0].args[0])
            for _ in range(int(hit[1])):
                sub_ = _mulpoly_raw(sub_, base)
            for m2, c2 in sub_.items():
                out[m2] = out.get(m2, 0) + c2
        pol = {m: c for m, c in out.items() if c != 0}
    return pol


def _mulpoly_raw(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mulmono(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c != 0}


MAXTERMS = 6000


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        return mk("bigmul", *sorted((a, b), key=lambda n: n.id))
    return _num(_merge_phis(_expand(_mulpoly_raw(pa, pb))))


def split_content(pol):
    """pol = c * mono * prim, prim has leading coefficient 1, no common mono."""
    items = sorted(pol.items(), key=lambda mc: _mkey(mc[0]))
    # common monomial: min exponent of each atom over all terms
    common = None
    for m, _ in items:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                e = d.get(a, 0)
                if (common[a] > 0) == (e > 0) and e != 0:
                    common[a] = min(common[a], e) if e > 0 else max(
                        common[a], e
                    )
                else:
                    del common[a]
            # atoms only negative in some terms: use min(e,0)
        if not common and len(items) > 1:
            pass
    # factor out the most negative exponents so the primitive part is polynomial
    mins = {}
    for m, _ in items:
        for a, e in m:
            mins.setdefault(a, [])
    for a in mins:
        es = [dict(m).get(a, Fraction(0)) for m, _ in items]
        mins[a] = min(es)
    mono = tuple(
        sorted(((a, e) for a, e in mins.items() if e != 0),
               key=lambda t: t[0].id)
    )
    inv = tuple((a, -e) for a, e in mono)
    prim = {}
    for m, c in items:
        prim[_mulmono(m, inv)] = c
    pit = sorted(prim.items(), key=lambda mc: _mkey(mc[0]))
    lead = pit[-1][1]
    prim = {m: c / lead for m, c in prim.items()}
    return lead, mono, prim


def power(a, e):
    """a ** e with e a Node."""
    if a is NAN or e is NAN:
        return NAN
    ev = const_val(e)
    pa = poly(a)
    if ev is not None:
        if ev == 0:
            return ONE
        if ev == 1:
            return a if a.op != "vec" or KEEP_VEC else a.args[0][0]
        if not pa:
            return ZERO if ev > 0 else mk("divzero")
        if len(pa) == 1:
            (m, c), = pa.items()
            cc = _constpow(c, ev)
            m2 = tuple((x, x_e * ev) for x, x_e in m)
            if cc is None:
                lit = mk("cpow", c, ev)
                return _num(_expand(_mulpoly_raw({m2: Fraction(1)},
                                                 {((lit, Fraction(1)),): Fraction(1)})))
            return _num(_expand({m2: cc}))
        if ev.denominator == 1 and 0 < ev <= 8:
            r = {(): Fraction(1)}
            for _ in range(int(ev)):
                r = _mulpoly_raw(r, pa)
                if len(r) > MAXTERMS:
                    return mk("bigpow", a, e)
            return _num(_expand(r))
        c, mono, prim = split_content(pa)
        p = mk("poly", _num(prim))
        cc = _constpow(c, ev)
        m2 = tuple((x, x_e * ev) for x, x_e in mono)
        base = _mulmono(m2, ((p, ev),))
        if cc is None:
            lit = mk("cpow", c, ev)
            base = _mulmono(base, ((lit, Fraction(1)),))
            cc = Fraction(1)
        return _num(_expand({base: cc}))
    # symbolic exponent: base ** e = exp(e * log(base))
    return exp(mul(e, log(a)))


def _constpow(c, e):
    if e.denominator == 1:
        if c == 0:
            return Fraction(0) if e > 0 else None
        return c ** int(e)
    if c == 1:
        return Fraction(1)
    if c > 0 and e.denominator == 2:
        import math

        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** int(e * 2)
    return None


def div(a, b):
    return mul(a, power(b, num(-1)))


def cancel(x):
    """Divide out denominators that divide their numerators exactly."""
    if x.op != "num" or not 2 <= len(x.args[0]) <= 200:
        return x
    pol = dict(x.args[0])
    done = set()
    while True:
        dens = [(a, e) for m in pol for a, e in m
                if a.op == "poly" and e < 0 and e.denominator == 1
                and (a, e) not in done]
        if not dens:
            return _num(pol)
        a, e = dens[0]
        done.add((a, e))
        num_ = {}
        for m, c in pol.items():
            if (a, e) in m:
                num_[tuple(t for t in m if t[0] is not a)] = c
        div_ = dict(a.args[0].args[0])
        lead = max(div_, key=_mkey)
        quo, rem, ok = {}, dict(num_), True
        for _ in range(len(num_) + 2):
            if not rem:
                break
            # pick a term divisible by the leading term of the divisor
            inv = tuple((b, -k) for b, k in lead)
            best = None
            for m in rem:
                q = _mulmono(m, inv)
                if all(k > 0 or (b, k) in m for b, k in q):
                    if best is None or _mkey(m) > _mkey(best[0]):
                        best = (m, q)
            if best is None:
                ok = False
                break
            m, q = best
            c = rem[m] / div_[lead]
            quo[q] = quo.get(q, 0) + c
            for m2, c2 in div_.items():
                mm = _mulmono(q, m2)
                rem[mm] = rem.get(mm, 0) - c * c2
                if rem[mm] == 0:
                    del rem[mm]
        if not ok or rem:
            continue
        pol = {m: c for m, c in pol.items() if (a, e) not in m}
        for q, c in quo.items():
            mm = _mulmono(q, ((a, e + 1),)) if e != -1 else q
            pol[mm] = pol.get(mm, 0) + c
        pol = {m: c for m, c in pol.items() if c}


def exp(x):
    x = cancel(x)
    if x is NAN:
        return NAN
    px = poly(x)
    if not px:
        return ONE
    res = {}
    m_all = {}
    # exp(c * log(y)) = y ** c
    extra = ONE
    for m, c in px.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log":
            extra = mul(extra, power(m[0][0].args[0], num(c)))
            continue
        atom = mk("exp", _num({m: Fraction(1)}))
        m_all[atom] = m_all.get(atom, 0) + c
    mono = tuple(sorted(m_all.items(), key=lambda t: t[0].id))
    r = _num({mono: Fraction(1)})
    return mul(r, extra) if extra is not ONE else r


def log(x):
    if x is NAN:
        return NAN
    x = cancel(x)
    px = poly(x)
    if not px:
        return mk("log", ZERO)
    if len(px) == 1:
        (m, c), = px.items()
        prim = None
    else:
        c, m, prim = split_content(px)
    out = ZERO
    if c != 1:
        if c < 0:
            if prim is None and not m:
                return mk("log", num(c))
            # keep the sign inside
            if prim is not None:
                prim = {k: -v for k, v in prim.items()}
                c = -c
                if c != 1:
                    out = add(out, mk("log", num(c)))
            else:
                return mk("log", x)
        else:
            out = add(out, mk("log", num(c)))
    for a, e in m:
        if a.op == "exp":
            out = add(out, mul(num(e), a.args[0]))
        elif a.op == "poly":
            out = add(out, mul(num(e), mk("log", a.args[0])))
        else:
            out = add(out, mul(num(e), mk("log", a)))
    if prim is not None:
        out = add(out, mk("log", _num(prim)))
    return out


LN10 = mk("log", num(10))


def log10(x):
    return div(log(x), LN10)


# ---------------------------------------------------------------- booleans
def as_bool(n):
    """Truth value of a value used as a condition."""
    if n.op in BOOLOPS:
        return n
    if n.op == "const":
        return const(bool(n.args[1]))
    if n.op == "num":
        v = const_val(n)
        if v is not None:
            return const(v != 0)
    if n.op in ("func", "class", "module", "ext"):
        return TRUE
    if n.op == "tuple":
        return const(bool(n.args[0]))
    if n.op == "phi":
        return phi(n.args[0], as_bool(n.args[1]), as_bool(n.args[2]))
    if n is NAN:
        return TRUE
    return mk("truth", n)


BOOLOPS = {
    "lt0", "le0", "eq", "is", "in", "not", "and", "or", "truth", "isnull",
    "hascol", "present", "isinstance", "exc", "hasattr", "bvcond",
}


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return or_(*[not_(x) for x in c.args[0]])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args[0]])
    if c.op == "phi":
        return phi(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk("not", c)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args[0])
        else:
            out.append(x)
    return out


def and_(*xs):
    s = []
    seen = set()
    for x in _flat("and", [as_bool(x) for x in xs]):
        if x is TRUE or x in seen:
            continue
        if x is FALSE or not_(x) in seen:
            return FALSE
        seen.add(x)
        s.append(x)
    # absorption of (a or b) when a in set; resolution of (¬a or b) with a
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == "or":
                ds = list(x.args[0])
                if any(d in seen for d in ds):
                    s.remove(x)
                    seen.discard(x)
                    changed = True
                    break
                keep = [d for d in ds if not_(d) not in seen]
                if len(keep) < len(ds):
                    s.remove(x)
                    seen.discard(x)
                    r = and_(*s, or_(*keep))
                    return r
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda n: n.id)
    return mk("and", tuple(s))


def conj(x):
    return list(x.args[0]) if x.op == "and" else ([] if x is TRUE else [x])


def or_(*xs):
    s = []
    seen = set()
    for x in _flat("or", [as_bool(x) for x in xs]):
        if x is FALSE or x in seen:
            continue
        if x is TRUE or not_(x) in seen:
            return TRUE
        seen.add(x)
        s.append(x)
    if not s:
        return FALSE
    # merge A∧c , A∧¬c -> A ; absorb A , A∧b -> A
    changed = True
    while changed and len(s) > 1:
        changed = False
        for i in range(len(s)):
            for j in range(len(s)):
                if i == j:
                    continue
                a, b = set(conj(s[i])), set(conj(s[j]))
                if a <= b:  # s[i] absorbs s[j]
                    del s[j]
                    changed = True
                    break
                d1, d2 = a - b, b - a
                if len(d1) == 1:
                    x = next(iter(d1))
                    if not_(x) in d2:
                        # A∧x  or  A∧¬x∧R  =  A∧x or A∧R
                        new = and_(*(b - {not_(x)}))
                        if len(d2) == 1:
                            keep = [s[k] for k in range(len(s)) if k not in (i, j)]
                            return or_(*keep, new)
                        keep = [s[k] for k in range(len(s)) if k != j]
                        return or_(*keep, new)
            if changed:
                break
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda n: n.id)
    return mk("or", tuple(s))


def _prim_sign(d):
    """Divide by positive content."""
    p = poly(d)
    if not p:
        return ZERO
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = abs(items[-1][1])
    return _num({m: c / lead for m, c in p.items()})


def numericlike(n):
    return n.op not in (
        "const", "tuple", "ref", "func", "class", "module", "ext", "bound",
        "dictsnap", "listsnap",
    )


def multipoint(n):
    """Arrays that hold a whole titration (two or more points)."""
    if shape(n) != "a":
        return False
    for x in walk(n):
        if x.op in ("index", "store", "col", "grp", "vec", "arr", "loopin",
                    "rec", "unknown"):
            return False
        if x.op == "app" and x.args[0] not in (
                "pyco2.K", "pyco2.total", "fill", "numpy.size"):
            return False
    return True


def _size_of(n):
    return n.op == "app" and n.args[0] in ("numpy.size", "len") and \
        multipoint(n.args[1][0])


def _size1(n):
    """n is the poly wrapper of a plain size app -> that app."""
    if n.op == "num" and len(n.args[0]) == 1:
        m, c = n.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return n


def _cmp_size(a, b, strict):
    """a < b (strict) or a <= b with a size on one side."""
    va, vb = const_val(a), const_val(b)
    if va is not None and _size_of(_size1(b)):
        if va < 2 or (va == 2 and not strict):
            return TRUE
    if vb is not None and _size_of(_size1(a)):
        if vb < 2 or (vb == 2 and strict):
            return FALSE
    return None


def lt(a, b):
    """a < b"""
    r = _cmp_size(a, b, True)
    if r is None:
        r = _from_onwards(b, a)
        if r is not None:
            return not_(r)
        if a is ZERO:
            r = _from_onwards(ONE, b)
    if r is not None:
        return r
    if a.op == "phi" and is_literal(b):
        return phi(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "phi" and is_literal(a):
        return phi(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if a.op == "const" and b.op == "const" and a.args[0] == b.args[0] == "str":
        return const(a.args[1] < b.args[1])
    if not (numericlike(a) and numericlike(b)):
        return mk("app", "<", (a, b), ())
    if a is NAN or b is NAN:
        return FALSE
    d = _prim_sign(sub(b, a))
    v = const_val(d)
    if v is not None:
        return const(v > 0)
    return mk("lt0", d)


def _from_onwards(k, r):
    """k <= arange(size(x)), k a position: the mask of the elements of x from
    k onwards, in the form slices assigned to a mask have."""
    if r.op != "app" or r.args[2]:
        return None
    if r.args[0] == "numpy.cumsum" and len(r.args[1]) == 1 and \
            k is ONE and r.args[1][0].op in BOOLOPS:
        m = r.args[1][0]
        return mk("store", mk("app", "fill", (FALSE, m), ()),
                  mk("slice", index(mk("app", "numpy.nonzero", (m,), ()),
                                    ZERO), NONE, NONE), TRUE)
    if r.args[0] != "numpy.arange":
        return None
    xs = r.args[1]
    if len(xs) == 2 and xs[0] is ZERO:
        xs = xs[1:]
    if len(xs) != 1 or xs[0].op != "app" or \
            xs[0].args[0] not in ("numpy.size", "len"):
        return None
    if k.op != "index" or k.args[0].op != "app" or \
            k.args[0].args[0] != "numpy.nonzero" or int_val(k.args[1]) is None:
        return None
    return mk("store", mk("app", "fill", (FALSE, xs[0].args[1][0]), ()),
              mk("slice", k, NONE, NONE), TRUE)


def le(a, b):
    r = _cmp_size(a, b, False)
    if r is None:
        r = _from_onwards(a, b)
    if r is not None:
        return r
    if a.op == "phi" and is_literal(b):
        return phi(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == "phi" and is_literal(a):
        return phi(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    if not (numericlike(a) and numericlike(b)):
        return mk("app", "<=", (a, b), ())
    if a is NAN or b is NAN:
        return FALSE
    d = _prim_sign(sub(b, a))
    v = const_val(d)
    if v is not None:
        return const(v >= 0)
    return mk("le0", d)


def eq(a, b):
    if a is b:
        return FALSE if a is NAN else TRUE
    if a.op == "phi":
        return phi(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "phi":
        return phi(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    va, vb = const_val(a), const_val(b)
    if va is not None and vb is not None:
        return const(va == vb)
    if is_literal(a) and is_literal(b):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    for x, y in ((a, b), (b, a)):
        # compare case-folded strings in lower case
        if x.op == "app" and x.args[0] in ("str.lower", "str.upper") and \
                y.op == "const" and y.args[0] == "str":
            low = x.args[0] == "str.lower"
            if y.args[1] != (y.args[1].lower() if low else y.args[1].upper()):
                return FALSE
            if not low:
                return eq(mk("app", "str.lower", x.args[1], x.args[2]),
                          const(y.args[1].lower()))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def is_(a, b):
    if a is b:
        return TRUE
    if a.op == "phi":
        return phi(a.args[0], is_(a.args[1], b), is_(a.args[2], b))
    if b.op == "phi":
        return phi(b.args[0], is_(a, b.args[1]), is_(a, b.args[2]))
    if is_literal(a) and is_literal(b):
        return const(a is b)
    known = ("num", "ref", "func", "class", "module", "tuple", "exp", "log",
             "vec", "lsqx", "bv", "poly", "nt", "nan", "inf", "dictsnap",
             "listsnap", "setsnap", "slice", "fill", "count")
    for x, y in ((a, b), (b, a)):
        if y is NONE and x.op == "app" and x.args[0] in (
                "re.match", "re.fullmatch", "re.search"):
            return not_(as_bool(x))
        if y is NONE and (x.op in known or x.op in BOOLOPS or is_nonnull(x)
                          or never_none(x)):
            return FALSE
        if y.op == "const" and y.args[0] == "bool" and x.op in known:
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("is", a, b)


def is_nonnull(n):
    """Symbols declared never null by a rule."""
    if n.op == "sym":
        return "nn" in n.args[1]
    return False


def never_none(n):
    if n.op == "app":
        return n.args[0].startswith(("numpy.", "scipy.", "pyco2.", "str.",
                                     "PyCO2SYS.")) or \
            n.args[0] in ("concat", "format", "len", "fill", "builtins.int",
                          "builtins.str", "os.path.join")
    if n.op == "attr":
        return n.args[1] in ("slope", "intercept", "rvalue", "pvalue",
                             "stderr", "intercept_stderr") and \
            never_none(n.args[0])
    if n.op == "index":
        b = n.args[0]
        return shape(b) == "a" or never_none(b)
    return False


def isnull(x):
    if x is NONE or x is NAN:
        return TRUE
    if x.op in ("const", "ref", "func", "class", "tuple", "exp"):
        return FALSE
    if const_val(x) is not None or is_nonnull(x):
        return FALSE
    if x.op == "phi":
        return phi(x.args[0], isnull(x.args[1]), isnull(x.args[2]))
    if x.op == "grp" and x.args[1].op == "phi":
        k, v = x.args
        return phi(grp_bool(k, v.args[0]), isnull(grp_term(k, v.args[1])),
                   isnull(grp_term(k, v.args[2])))
    if x.op == "grp" and isnull(x.args[1]) in (TRUE, FALSE):
        return isnull(x.args[1])
    return mk("isnull", x)


def grp_term(k, v):
    """The values of v that lie in the group of the present row's key."""
    if k.op == "index" and v.op == "index" and k.args[1] is v.args[1] \
            and k.args[1].op in BOOLOPS:
        return index(mk("grp", k.args[0], v.args[0]),
                       grp_bool(k.args[0], k.args[1]))
    if v.op in BOOLOPS and v.op != "truth":
        return grp_bool(k, v)
    if v is TRUE or v is FALSE:
        return v
    return mk("grp", k, v)


def grp_bool(k, c):
    if c is TRUE or c is FALSE:
        return c
    if c.op in ("and", "or"):
        f = and_ if c.op == "and" else or_
        return f(*[grp_bool(k, x) for x in c.args[0]])
    if c.op == "not":
        return not_(grp_bool(k, c.args[0]))
    if c.op == "isnull":
        return isnull(grp_term(k, c.args[0]))
    if c.op == "truth":
        return as_bool(grp_term(k, c.args[0]))
    return as_bool(mk("grp", k, c))


def phi(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if c.op == "phi":
        # phi(phi(c,x,y),a,b)
        return phi(c.args[0], phi(c.args[1], a, b), phi(c.args[2], a, b))
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if ITE and c.op in ("and", "or") and not (
            a.op in BOOLOPS or b.op in BOOLOPS or a in (TRUE, FALSE)
            or b in (TRUE, FALSE)):
        acc = []
        _bool_atoms(c, acc)
        if len(acc) <= ITE:
            x = acc[0]
            for y in acc:
                if y.id < x.id:
                    x = y
            return phi(x, phi(restrict(c, {x: TRUE}), a, b),
                       phi(restrict(c, {x: FALSE}), a, b))
    a, b = under(a, c, True), under(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE and b.op in BOOLOPS:
        return or_(c, b)
    if b is FALSE and a.op in BOOLOPS:
        return and_(c, a)
    if a is FALSE and b.op in BOOLOPS:
        return and_(not_(c), b)
    if b is TRUE and a.op in BOOLOPS:
        return or_(not_(c), a)
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return or_(and_(c, a), and_(not_(c), b))
    if a is ZERO and b.op == "num" or b is ZERO and a.op == "num":
        z = a if b is ZERO else b
        k = z.args[0][0][1]
        if k != 1:
            z = mk("num", tuple((m, x / k) for m, x in z.args[0]))
            z = _num(dict(z.args[0]))
            return mul(num(k), phi(c, z, ZERO) if b is ZERO
                       else phi(c, ZERO, z))
    if a.op == "num" or b.op == "num":
        r = _phi_common(c, a, b)
        if r is not None:
            return r
    return mk("phi", c, a, b)


ITE = 3
_EMPTY = frozenset()
BOOLATOMS = ("lt0", "le0", "eq", "is", "isnull", "truth", "present", "exc",
             "in", "all", "any")


def conds(n):
    """Condition atoms occurring inside n (not inside fitted values)."""
    r = n.cache.get("conds")
    if r is not None:
        return r
    stack = [n]
    while stack:
        x = stack[-1]
        if "conds" in x.cache:
            stack.pop()
            continue
        if x.op == "lsqx":
            x.cache["conds"] = _EMPTY
            stack.pop()
            continue
        ch = children(x)
        todo = [y for y in ch if "conds" not in y.cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        acc = None
        for y in ch:
            z = y.cache["conds"]
            if z:
                acc = z if acc is None or acc is z else acc | z
        acc = acc or _EMPTY
        if x.op in BOOLOPS and x.op not in ("and", "or", "not"):
            acc = acc | {x}
        x.cache["conds"] = acc
    return n.cache["conds"]


def _literals(c, val, out):
    """Atomic facts implied by condition c being val."""
    if c.op == "not":
        _literals(c.args[0], not val, out)
    elif c.op == "and" and val or c.op == "or" and not val:
        for x in c.args[0]:
            _literals(x, val, out)
    elif c.op in ("and", "or"):
        out[c] = const(val)
    else:
        out[c] = const(val)


def under(n, c, val):
    """n simplified by the fact that condition c is val."""
    if n.op in ("const", "sym", "nan"):
        return n
    k = conds(n)
    if not k:
        return n
    lits = {}
    _literals(c, val, lits)
    hit = {x: v for x, v in lits.items()
           if x in k or x.op in ("and", "or") and conds(x) <= k}
    if not hit:
        return n
    return restrict(n, hit, True)


def _phi_common(c, a, b):
    """phi(c, s + x, s + y) = s + phi(c, x, y)"""
    for x in (a, b):
        if x.op in STRUCTURAL or x.op in BOOLOPS or x is NAN or \
                x.op in ("phi", "inf", "undef", "vec", "arr", "tuple"):
            return None
    pa, pb = poly(a), poly(b)
    common = {m: k for m, k in pa.items() if m and pb.get(m) == k}
    if not common:
        return None
    if () in pa and pa.get(()) == pb.get(()):
        common[()] = pa[()]
    ra = _num({m: k for m, k in pa.items() if m not in common})
    rb = _num({m: k for m, k in pb.items() if m not in common})
    return add(_num(common), phi(c, ra, rb))


# ---------------------------------------------------------------- symbols etc
def sym(name, *flags):
    """flags: 's' scalar, 'a' array, 'nn' never null, 'str' string."""
    return mk("sym", name, tuple(flags))


def app(fname, *args, **kw):
    return mk("app", fname, tuple(args), tuple(sorted(kw.items())))


def unknown(tag, *deps):
    return mk("unknown", tag, tuple(sorted(set(deps), key=lambda n: n.id)))


SCALAR_APPS = {
    "numpy.mean", "numpy.std", "numpy.max", "numpy.min", "numpy.sum",
    "numpy.size", "numpy.median", "len", "numpy.argmax", "numpy.nanmax",
    "numpy.nanmean", "numpy.count_nonzero", "numpy.any", "numpy.all",
    "pandas.mean", "pandas.std",
}


def shape(n):
    c = n.cache.get("shape")
    if c is None:
        c = n.cache["shape"] = _shape(n)
    return c


def _join_shape(xs):
    r = "s"
    for x in xs:
        if x == "a":
            return "a"
        if x == "?":
            r = "?"
    return r


def _shape(n):
    if n.op == "sym":
        for f in ("s", "a"):
            if f in n.args[1]:
                return f
        return "?"
    if n.op in ("const", "nan", "inf"):
        return "s"
    if n.op == "num":
        return _join_shape([shape(a) for m, _ in n.args[0] for a, _e in m])
    if n.op in ("exp", "log", "poly", "truth", "isnull", "lt0", "le0", "not"):
        return shape(n.args[0])
    if n.op in ("and", "or"):
        return _join_shape([shape(a) for a in n.args[0]])
    if n.op == "eq":
        return _join_shape([shape(a) for a in n.args])
    if n.op == "phi":
        return _join_shape([shape(a) for a in n.args])
    if n.op == "app":
        if n.args[0] in SCALAR_APPS:
            return "s"
        if n.args[0] in ("numpy.abs", "numpy.round", "numpy.float64",
                         "pyco2.K", "pyco2.total", "numpy.sign", "numpy.floor", "numpy.clip"):
            return _join_shape([shape(a) for a in n.args[1]])
        if n.args[0] in ("fill", "numpy.nonzero", "numpy.arange",
                         "numpy.diff", "numpy.sort", "numpy.cumsum",
                         "scipy.interpolate.pchip_interpolate"):
            return "a"
        if n.args[0] in ("concat", "format", "str.lower", "str.upper",
                         "str.strip", "os.path.join"):
            return "s"
        return "?"
    if n.op == "index":
        k = n.args[1]
        if k.op == "num" and const_val(k) is not None:
            return "s" if shape(n.args[0]) == "a" else "?"
        if k.op in BOOLOPS or k.op == "slice":
            return "a"
        b = n.args[0]
        if b.op == "app" and b.args[0] == "numpy.nonzero" and \
                int_val(k) is not None:
            return "s"
        if shape(b) == "a" and shape(k) == "s":
            return "s"
        return "?"
    if n.op == "store":
        return "a"
    if n.op == "loopin":
        return n.args[2]
    if n.op == "loopi":
        return "s"
    if n.op == "rec":
        return shape(n.args[1][n.args[0]][0])
    if n.op in ("grp", "vec", "setsnap", "listsnap"):
        return "a"
    if n.op == "col":
        return "a"
    if n.op == "cell":
        return "s"
    if n.op == "arr":
        return "a"
    if n.op == "bv":
        return "s"
    if n.op == "lsqx":
        return "s"
    if n.op == "attr":
        if n.args[1] in ("slope", "intercept", "rvalue"):
            return "s"
        return "?"
    return "?"


FINITE = None    # assumed length of arrays in bounded-length analyses


def uniform(key):
    """TRUE or FALSE for a mask that is the same everywhere, else None."""
    if key.op == "not":
        u = uniform(key.args[0])
        return None if u is None else not_(u)
    if key.op == "truth":
        return uniform(key.args[0])
    if key.op == "app" and key.args[0] == "fill" and \
            key.args[1][0] in (TRUE, FALSE):
        return key.args[1][0]
    return None


def index(base, key):
    """base[key] for non-heap values."""
    if key.op in ("app", "not", "truth"):
        u = uniform(key)
        if u is TRUE:
            return base
        if u is FALSE:
            return mk("app", "numpy.empty", (num(0),), ())
    if FINITE and base.op not in ("tuple", "vec", "nt", "const"):
        i = int_val(key)
        if i is not None and -FINITE <= i < 0:
            key = num(i + FINITE)
    if base.op == "phi":
        return phi(base.args[0], index(base.args[1], key), index(base.args[2], key))
    if key.op == "phi":
        return phi(key.args[0], index(base, key.args[1]), index(base, key.args[2]))
    if base.op in ("tuple", "vec"):
        i = int_val(key)
        if i is not None and -len(base.args[0]) <= i < len(base.args[0]):
            return base.args[0][i]
        if key.op == "slice":
            try:
                s = slice(*[None if x is NONE else int_val(x) for x in key.args])
                return mk(base.op, base.args[0][s])
            except Exception:
                pass
    if base.op == "nt":
        i = int_val(key)
        if i is not None:
            return base.args[1][i]
    if base.op == "index" and base.args[1].op == "slice":
        # x[a:b][i] is x[a + i] as long as that lies before b
        i = int_val(key)
        lo, hi, step = (None if x is NONE else int_val(x)
                        for x in base.args[1].args)
        if i is not None and i >= 0 and step in (None, 1) and \
                (base.args[1].args[2] is NONE or step == 1) and \
                (base.args[1].args[0] is NONE or lo is not None and lo >= 0) \
                and (base.args[1].args[1] is NONE or hi is not None
                     and i + (lo or 0) < hi):
            return index(base.args[0], num(i + (lo or 0)))
    if base.op == "const" and base.args[0] == "str":
        try:
            if key.op == "slice":
                s = slice(*[None if x is NONE else int_val(x) for x in key.args])
                return const(base.args[1][s])
            i = int_val(key)
            if i is not None:
                return const(base.args[1][i])
        except Exception:
            pass
    if key.op != "const":
        sh = shape(base)
        if sh == "a" and base.op in ("num", "exp", "log", "poly", "phi", "lt0",
                                     "le0", "not", "and", "or", "isnull", "eq"):
            r = _push_index(base, key)
            if r is not None:
                return r
    return mk("index", base, key)


def unmask(v, mask):
    """u such that v is u[mask], or None."""
    def f(n):
        if n.op == "index" and n.args[1] is mask:
            return n.args[0]
        if n.op in ("const", "nan") or shape(n) == "s":
            return n
        if n.op in ("num", "exp", "log", "poly", "lt0", "le0", "not", "and",
                    "or", "isnull", "eq", "phi"):
            return rebuild(n, f)
        raise KeyError

    try:
        return f(v)
    except KeyError:
        return None


def _push_index(base, key):
    def f(n):
        sh = shape(n)
        if sh == "s":
            return n
        if sh == "?":
            raise KeyError
        if n.op in ("num", "exp", "log", "poly", "lt0", "le0", "not", "and",
                    "or", "isnull", "eq", "phi"):
            return rebuild(n, f)
        return mk("index", n, key)

    try:
        return f(base)
    except KeyError:
        return None


def attr(base, name):
    if base.op == "phi":
        return phi(base.args[0], attr(base.args[1], name), attr(base.args[2], name))
    return mk("attr", base, name)


# ---------------------------------------------------------------- traversal
def _map_args(x, f):
    if isinstance(x, Node):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_args(y, f) for y in x)
    return x


def rebuild(n, f):
    """Rebuild node with f applied to child nodes, renormalising."""
    op, a = n.op, n.args
    if op == "num":
        tot = ZERO
        simple = {}
        for m, c in a[0]:
            newm = []
            plain = True
            for atom, e in m:
                na = f(atom)
                newm.append((na, e))
                if na is not atom:
                    plain = False
            if plain:
                simple[m] = simple.get(m, 0) + c
            else:
                t = num(c)
                for na, e in newm:
                    t = mul(t, power(na, num(e)))
                tot = add(tot, t)
        return add(tot, _num(simple)) if tot is not ZERO else _num(simple)
    if op == "poly":
        return f(a[0])
    if op == "exp":
        return exp(f(a[0]))
    if op == "log":
        return log(f(a[0]))
    if op == "lt0":
        d = f(a[0])
        return lt(ZERO, d)
    if op == "le0":
        return le(ZERO, f(a[0]))
    if op == "eq":
        return eq(f(a[0]), f(a[1]))
    if op == "is":
        return is_(f(a[0]), f(a[1]))
    if op == "isnull":
        return isnull(f(a[0]))
    if op == "not":
        return not_(f(a[0]))
    if op == "and":
        return and_(*[f(x) for x in a[0]])
    if op == "or":
        return or_(*[f(x) for x in a[0]])
    if op == "truth":
        return as_bool(f(a[0]))
    if op == "phi":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return phi(c, f(a[1]), f(a[2]))
    if op == "index":
        return index(f(a[0]), f(a[1]))
    if op == "attr":
        return attr(f(a[0]), a[1])
    r = mk(op, *_map_args(a, f))
    if r is not n:
        h = RENORMAL.get(a[0] if op == "app" else op)
        if h is not None:
            return h(r)
    return r


# normal forms of further operators, applied again when a part changes
RENORMAL = {}


def transform(n, f, memo=None):
    """Bottom-up rewriting: f(node) returns replacement or None to descend."""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            if x.op in ("sym", "const", "nan", "inf", "func", "class", "module",
                        "ext", "ref"):
                r = x
            else:
                r = rebuild(x, go)
        memo[x] = r
        return r

    return go(n)


def subst(n, mapping):
    return transform(n, lambda x: mapping.get(x))


def children(n):
    r = n.cache.get("ch")
    if r is not None:
        return r
    out = []

    def go(x):
        if isinstance(x, Node):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    go(n.args)
    r = n.cache["ch"] = tuple(out)
    return r


def walk(n):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def deps(n):
    """Set of symbols (and columns) a term depends on."""
    c = n.cache.get("deps")
    if c is None:
        c = frozenset(x for x in walk(n) if x.op in ("sym", "col", "cell", "grp"))
        n.cache["deps"] = c
    return c


def has_unknown(n):
    c = n.cache.get("unk")
    if c is None:
        c = any(x.op in UNKNOWN_OPS or (
            x.op == "app" and x.args[0] not in KNOWN_APPS) for x in walk(n))
        n.cache["unk"] = c
    return c


UNKNOWN_OPS = {"unknown", "loop", "bigmul", "bigpow", "ref", "undef", "rec",
               "lookup", "atrow", "objsnap"}
KNOWN_APPS = set()


# ---------------------------------------------------------------- equality
class Undecided(Exception):
    pass


class NormalForm(Undecided):
    """Terms differ in form but not under random interpretation."""


class Budget:
    weak = False

    def __init__(self, n, seconds=60):
        self.n = n
        self.end = time.monotonic() + seconds

    def tick(self):
        self.n -= 1
        if self.n < 0 or time.monotonic() > self.end:
            raise Undecided("budget")


_BITS = {}
_BITOPS = frozenset(BOOLOPS) | {"sym", "col", "cell", "app"}


def _below(n):
    """Bit set of the conditions and named quantities occurring inside n."""
    r = n.cache.get("below")
    if r is not None:
        return r
    stack = [n]
    while stack:
        x = stack[-1]
        if "below" in x.cache:
            stack.pop()
            continue
        ch = children(x)
        todo = [y for y in ch if "below" not in y.cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        acc = 0
        for y in ch:
            acc |= y.cache["below"]
        if x.op in _BITOPS:
            acc |= 1 << _BITS.setdefault(x, len(_BITS))
        x.cache["below"] = acc
    return n.cache["below"]


def restrict(n, assign, prune=False):
    """Replace atomic conditions by truth values."""
    memo = {}
    keys = set()
    mask = 0
    for k in assign:
        if k.op in ("and", "or", "not"):
            keys |= conds(k)
        elif k.op in BOOLOPS:
            keys.add(k)
        else:
            prune = False
        if k.op not in _BITOPS:
            mask = None
        elif mask is not None:
            mask |= 1 << _BITS.setdefault(k, len(_BITS))

    def f(x):
        if x in assign:
            return assign[x]
        if mask is not None and not _below(x) & mask:
            return x
        if prune and keys.isdisjoint(conds(x)):
            return x
        return None

    return transform(n, f, memo)


def implications(c, val):
    """Facts implied by atomic condition c having truth value val."""
    out = {c: const(val)}
    if c.op == "is" and NONE in c.args:
        other = c.args[0] if c.args[1] is NONE else c.args[1]
        if val:
            out[mk("isnull", other)] = TRUE
    if c.op == "eq" and val:
        for x, y in (c.args, c.args[::-1]):
            if y.op == "num" and x.op == "sym" and is_const_num(y) and \
                    "s" in x.args[1]:
                out[x] = y
            if y.op == "const" and x.op in ("sym", "col", "cell", "app"):
                out[x] = y
                if x.op == "app" and x.args[0] == "str.lower":
                    out[mk("isnull", x.args[1][0])] = FALSE
    if c.op == "isnull" and not val:
        x = c.args[0]
        a, b = (x, NONE) if x.id < NONE.id else (NONE, x)
        out[mk("is", a, b)] = FALSE
    if c.op in ("lt0", "le0"):
        d = c.args[0]
        nd = _prim_sign(neg(d))
        if val:
            if c.op == "lt0":
                out[mk("le0", d)] = TRUE
                out[mk("lt0", nd)] = FALSE
                out[mk("le0", nd)] = FALSE
            else:
                out[mk("lt0", nd)] = FALSE
            for x in (y for m, _ in poly(d).items() for y, _e in m):
                if x.op in ("sym", "col", "cell") and val:
                    out[mk("isnull", x)] = FALSE
                    a, b = (x, NONE) if x.id < NONE.id else (NONE, x)
                    out[mk("is", a, b)] = FALSE
    return out


def atomic_conds(n):
    """Atomic conditions governing phi nodes anywhere inside n."""
    found = []
    seen = set()

    def atoms(c):
        if c.op in ("and", "or"):
            for x in c.args[0]:
                atoms(x)
        elif c.op == "not":
            atoms(c.args[0])
        elif c.op == "phi":
            for x in c.args:
                atoms(x)
        elif c.op != "const":
            if c not in seen:
                seen.add(c)
                found.append(c)

    for x in walk(n):
        if x.op == "phi":
            atoms(x.args[0])
    return found


def _numeric_eq_zero(d, budget, memo):
    """Is the (phi-free) numeric term d identically zero?"""
    p = poly(d)
    if not p:
        return True
    # congruence: unify atoms that are semantically equal
    ats = []
    for m in p:
        for a, _ in m:
            if a not in ats:
                ats.append(a)
    rep = {}
    by = {}
    weak = False
    for a in ats:
        by.setdefault((a.op, len(a.args)), []).append(a)
    changed = False
    for (op, _n), group in by.items():
        if op in ("sym", "const"):
            continue
        for i, a in enumerate(group):
            if a in rep:
                continue
            for b in group[i + 1:]:
                if b in rep:
                    continue
                try:
                    same_ = _cong(a, b, budget, memo)
                except NormalForm:
                    # equal as far as random interpretation can tell
                    weak = True
                    continue
                if same_:
                    rep[b] = a
                    changed = True
    if changed:
        d = transform(d, lambda x: rep.get(x))
        p = poly(d)
        if not p:
            return True
    if surely_different(d):
        return False
    # clear denominators
    for _ in range(40):
        negs = {}
        for m in p:
            for a, e in m:
                if a.op == "poly" and e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if not negs:
            break
        a, e = next(iter(negs.items()))
        fac = {((a, -e),): Fraction(1)}
        p = _expand(_mulpoly_raw(p, fac))
        budget.tick()
        if len(p) > 12000:
            raise Undecided("too many terms")
        if not p:
            return True
    if p and weak and not any(n.op == "phi" for n in walk(d)) \
            and not surely_different(d):
        raise NormalForm("normal form")
    return not p


# ------------------------------------------------- random interpretation
# (Gulwani & Necula: an expression's value under a random valuation of its
# leaves and uninterpreted operators.)  Only used to confirm that two normal
# forms that look different really are different.
class _Random:
    def __init__(self, seed):
        self.seed, self.memo = seed, {}

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(),
                            digest_size=8).digest()
        return 0.5 + int.from_bytes(d, "big") / 2.0 ** 64

    @staticmethod
    def key(v):
        if isinstance(v, complex):
            return (f"{v.real:.7g}", f"{v.imag:.7g}" if abs(v.imag) >
                    1e-9 * abs(v.real) else "0")
        return v

    def ev(self, n):
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            todo = [y for y in children(x) if y not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[x] = self.ev1(x)
        return self.memo[n]

    def ev1(self, x):
        m, a, op = self.memo, x.args, x.op
        if op == "num":
            tot = 0j
            for mono, c in a[0]:
                tot += self.mono(mono, c)
            return tot
        if op == "poly":
            return m[a[0]]
        if op == "cpow":
            return complex(float(a[0])) ** float(a[1])
        if op == "exp":
            return cmath.exp(m[a[0]])
        if op == "log":
            v = m[a[0]]
            return cmath.log(v) if v else complex(-1e9)
        if op in ("lt0", "le0"):
            return m[a[0]].real > 0
        if op == "not":
            return not m[a[0]]
        if op == "and":
            return all(m[y] for y in a[0])
        if op == "or":
            return any(m[y] for y in a[0])
        if op == "phi":
            return m[a[1]] if m[a[0]] else m[a[2]]
        if op == "const":
            return x.args if not isinstance(a[1], bool) else a[1]
        if op in BOOLOPS:
            return self.h(op, self.keys(a)) > 1.0
        if op in STRUCTURAL:
            return (op, self.keys(a))
        return complex(self.h(op, self.keys(a)))

    def mask(self, n):
        """A condition used as a value: its truth, and the comparisons whose
        boundary case would change it."""
        atoms = []
        _bool_atoms(n, atoms)

        def ev(x, zero):
            if x is zero:
                return x.op == "le0"
            if x.op == "and":
                return all(ev(y, zero) for y in x.args[0])
            if x.op == "or":
                return any(ev(y, zero) for y in x.args[0])
            if x.op == "not":
                return not ev(x.args[0], zero)
            return bool(self.memo[x])
        now = bool(self.memo[n])
        flips = []
        if len(atoms) == 1:
            for x in atoms:
                if x.op in ("lt0", "le0") and ev(n, x) != now:
                    v = self.memo[x.args[0]]
                    flips.append(self.key(complex(abs(v))))
        return ("mask", now, tuple(sorted(flips)))

    def keys(self, a):
        if isinstance(a, Node):
            if a.op in ("lt0", "le0", "and", "or", "not"):
                return self.mask(a)
            return self.key(self.memo[a])
        if isinstance(a, tuple):
            return tuple(self.keys(y) for y in a)
        return str(a)

    def mono(self, mono, c):
        v = complex(float(c))
        for a, e in mono:
            w = self.memo[a]
            if not isinstance(w, (complex, float, int)):
                w = complex(self.h(str(w)))
            v *= complex(w) ** float(e)
        return v


def surely_different(d):
    """Is the join-free numeric term d clearly nonzero under each of several
    random interpretations?"""
    if any(n.op == "phi" for n in walk(d)):
        return False
    try:
        for seed in (3, 4, 5, 6):
            r = _Random(seed)
            for m, _ in poly(d).items():
                for a, _e in m:
                    r.ev(a)
            vals = [r.mono(m, c) for m, c in poly(d).items()]
            if not abs(sum(vals)) > 1e-6 * sum(abs(v) for v in vals):
                return False
        return True
    except (OverflowError, ZeroDivisionError, ValueError, TypeError):
        return False


def really_different(d):
    """Is the numeric term d nonzero under random interpretation?"""
    try:
        for seed in (1, 2):
            r = _Random(seed)
            for m, _ in poly(d).items():
                for a, _e in m:
                    r.ev(a)
            vals = [r.mono(m, c) for m, c in poly(d).items()]
            if abs(sum(vals)) > 1e-8 * sum(abs(v) for v in vals):
                return True
        return False
    except (OverflowError, ZeroDivisionError, ValueError, TypeError):
        return True


def _cong(a, b, budget, memo):
    if a is b:
        return True
    if a.op != b.op:
        return False
    if a.op in ("sym", "const", "func", "class", "module", "ext", "ref", "bv"):
        return False
    if a.op in ("dictsnap", "tablesnap"):
        return _maps_eq(a, b, budget, memo)
    return _args_eq(a.args, b.args, budget, memo)


def _maps_eq(a, b, budget, memo):
    if a.args[0] is not b.args[0]:
        return False
    da = {k: (c, v) for k, c, v in a.args[1]}
    db = {k: (c, v) for k, c, v in b.args[1]}
    for k in set(da) | set(db):
        ca, va = da.get(k, (FALSE, NONE))
        cb, vb = db.get(k, (FALSE, NONE))
        if ca is not cb and not _equal(ca, cb, budget, memo):
            return False
        if va is not vb and not _equal(phi(ca, va, NONE), phi(cb, vb, NONE),
                                       budget, memo):
            return False
    return True


def _args_eq(x, y, budget, memo):
    if isinstance(x, Node) and isinstance(y, Node):
        return _equal(x, y, budget, memo)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(
            _args_eq(p, q, budget, memo) for p, q in zip(x, y)
        )
    return x == y


def _equal(x, y, budget, memo):
    if x is y:
        return True
    key = (x.id, y.id) if x.id < y.id else (y.id, x.id)
    if key in memo:
        if memo[key] is None:
            raise NormalForm("normal form")
        return memo[key]
    budget.tick()
    memo[key] = False
    try:
        r = _equal1(x, y, budget, memo)
    except NormalForm:
        memo[key] = None
        raise
    memo[key] = r
    return r


STRUCTURAL = ("const", "tuple", "dictsnap", "listsnap", "nt", "func",
              "class", "module", "ext", "ref", "bound", "slice", "setsnap",
              "tablesnap", "objsnap")


def height(n):
    """Longest path below n (cached)."""
    stack = [n]
    while stack:
        x = stack[-1]
        if "ht" in x.cache:
            stack.pop()
            continue
        ch = children(x)
        todo = [y for y in ch if "ht" not in y.cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        x.cache["ht"] = 1 + max((y.cache["ht"] for y in ch), default=0)
    return n.cache["ht"]


def _blame(x, y):
    """A condition to split on: one that guards the smallest join occurring
    in only one of the two terms."""
    sx, sy = set(walk(x)), set(walk(y))
    only = [n for n in sx ^ sy if n.op == "phi"]
    if not only:
        # joins agree; look at conditions occurring on one side only
        only = [n for n in sx | sy if n.op == "phi"]
        if not only:
            return None
        n = max(only, key=lambda n: (height(n), n.id))
    else:
        n = min(only, key=lambda n: (height(n), n.id))
    acc = []
    _bool_atoms(n.args[0], acc)
    return acc[0] if acc else None


def _related(c, val, others):
    """Truth values of other arithmetic conditions forced by c == val."""
    out = {}
    if c.op == "isnull" and val:
        for o in others:
            if o.op in ("lt0", "le0") and any(
                    a is c.args[0] for m in poly(o.args[0]) for a, _ in m):
                out[o] = FALSE
        return out
    if c.op not in ("lt0", "le0"):
        return out
    # c: d > 0 (or >= 0); its negation: -d >= 0 (or > 0), barring NaN
    d = poly(c.args[0] if val else neg(c.args[0]))
    strict = (c.op == "lt0") == val
    kd = d.pop((), 0)
    nd = {m: -k for m, k in d.items()}
    for o in others:
        if o is c or o.op not in ("lt0", "le0"):
            continue
        q = poly(o.args[0])
        kq = q.pop((), 0)
        if not q or set(q) != set(d):
            continue
        m0 = next(iter(q))
        r = q[m0] / d[m0]
        if any(q[m] != r * d[m] for m in q):
            continue
        # q = r*d + kq, where d > -kd (or >=)
        bound = kq - r * kd      # value of o's term at d = -kd
        if r > 0:
            # term > bound (strict) or >= bound
            if bound > 0 or bound == 0 and (strict or o.op == "le0"):
                out[o] = TRUE
        else:
            # term < bound or <= bound
            if bound < 0 or bound == 0 and (strict or o.op == "lt0"):
                out[o] = FALSE
    return out


def conds_deep(n):
    r = n.cache.get("dconds")
    if r is None:
        r = frozenset(x for x in walk(n) if x.op in ("lt0", "le0"))
        n.cache["dconds"] = r
    return r


def _split(x, y, c, budget, memo):
    for val in (True, False):
        asg = implications(c, val)
        if c.op in ("lt0", "le0", "isnull"):
            for o, v in _related(c, val, conds_deep(x) | conds_deep(y)).items():
                asg.setdefault(o, v)
        if not _equal(restrict(x, asg), restrict(y, asg), budget, memo):
            return False
    return True


def _equal1(x, y, budget, memo):
    if x is NAN or y is NAN:
        # NaN equals only itself (a phi may still hide it)
        if x.op != "phi" and y.op != "phi":
            return x is y or _nanlike(x) and _nanlike(y)
    if x.op in BOOLOPS or y.op in BOOLOPS:
        if x.op != "phi" and y.op != "phi":
            return _bool_equal(x, y, budget, memo)
    sx, sy = x.op in STRUCTURAL, y.op in STRUCTURAL
    if (sx or sy) and x.op != "phi" and y.op != "phi":
        if x.op != y.op:
            va, vb = const_val(x), const_val(y)
            return va is not None and va == vb
        return _cong(x, y, budget, memo)
    if x.op == "phi" and y.op == "phi" and x.args[0] is y.args[0]:
        # same guard: compare under it
        c = x.args[0]
        if c.op not in ("and", "or", "not", "phi"):
            return _split(x, y, c, budget, memo)
    numeric = not any(
        l.op in STRUCTURAL or l.op in BOOLOPS or l is NAN
        for z in (x, y) for l in _leaves(z))
    if numeric:
        d = sub(x, y)
        if d is ZERO or _numeric_eq_zero(d, budget, memo):
            return True
        c = _blame(x, y)
        if c is None:
            if not really_different(d):
                p, q = (transform(z, lambda _: None) for z in (x, y))
                if p is not x or q is not y:
                    return _equal(p, q, budget, memo)
                raise NormalForm("normal form")
            return False
        return _split(x, y, c, budget, memo)
    c = _blame(x, y)
    if c is None:
        raise Undecided("guard")
    return _split(x, y, c, budget, memo)


def _leaves(v):
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            stack.append(x.args[1])
            stack.append(x.args[2])
        else:
            out.append(x)
    return out


def _nanlike(x):
    """Arithmetic on NaN is NaN."""
    if x is NAN:
        return True
    if x.op == "num":
        return any(a is NAN for m, _ in x.args[0] for a, _e in m)
    return False


def _bool_atoms(n, acc):
    if n.op in ("and", "or"):
        for z in n.args[0]:
            _bool_atoms(z, acc)
    elif n.op == "not":
        _bool_atoms(n.args[0], acc)
    elif n.op == "phi":
        for z in n.args:
            _bool_atoms(z, acc)
    elif n.op != "const":
        if n not in acc:
            acc.append(n)


def _bool_equal(x, y, budget, memo):
    ax, ay = [], []
    _bool_atoms(x, ax)
    _bool_atoms(y, ay)
    # unify atoms
    rep = {}
    for b in ay:
        if b in ax:
            continue
        for a in ax:
            if a.op == b.op and a not in ay and _cong(a, b, budget, memo):
                rep[b] = a
                break
    if rep:
        y = transform(y, lambda z: rep.get(z))
        ay = []
        _bool_atoms(y, ay)
    atoms = list(ax) + [b for b in ay if b not in ax]
    if len(atoms) > 16:
        raise Undecided("boolean size")

    def rec(p, q, rest):
        if p is q:
            return True
        budget.tick()
        if not rest:
            return False
        a = rest[0]
        for val in (True, False):
            asg = implications(a, val)
            if not rec(restrict(p, asg), restrict(q, asg),
                       [r for r in rest[1:] if r not in asg]):
                return False
        return True

    return rec(x, y, atoms)


def ordered(t):
    """The term with 'at least' read as 'not below', as if nothing compared
    were NaN."""
    def f(x):
        if x.op == "le0":
            return not_(lt(ZERO, neg(transform(x.args[0], f))))
        return None
    return transform(t, f)


def _descend(x, y, tries=8):
    """The case analysis was too large to finish: follow a few single cases
    of it instead.  A case in which the two terms differ is enough."""
    for seed in range(tries):
        b = Budget(3000)
        try:
            p, q = _one_case(x, y, random.Random(seed), b)
            if p is not q and not _equal(p, q, b, {}) and not b.weak:
                return b
        except (Undecided, RecursionError):
            continue
    return None


def _one_case(p, q, rng, budget):
    while p is not q:
        budget.tick()
        sp, sq = set(walk(p)), set(walk(q))
        phis = [n for n in sp | sq if n.op == "phi"]
        if not phis:
            break
        n = max(phis, key=lambda n: (height(n), n.id))
        acc = []
        _bool_atoms(n.args[0], acc)
        if not acc:
            break
        c, val = acc[0], rng.random() < 0.5
        asg = implications(c, val)
        if c.op in ("lt0", "le0", "isnull"):
            for o, v in _related(c, val, conds_deep(p) | conds_deep(q)).items():
                asg.setdefault(o, v)
        p, q = restrict(p, asg), restrict(q, asg)
    return p, q


POINTS = mk("sym", "points of the titration", ("a",))


def _length_root(n):
    """POINTS when n has one element for each titration point, None when it
    is a single value, n itself when its length is not known."""
    if shape(n) == "s":
        return None
    if n.op == "sym":
        return POINTS if "a" in n.args[1] else n
    if n.op == "index" and n.args[0].op == "app" and \
            n.args[0].args[0] == "numpy.genfromtxt" and \
            n.args[1].op == "tuple" and len(n.args[1].args[0]) == 2:
        rows, c = n.args[1].args[0]
        if rows.op == "slice" and all(a is NONE for a in rows.args) and \
                int_val(c) is not None:
            return POINTS
    if n.op == "store":
        return _length_root(n.args[0])
    if n.op == "app" and n.args[0] == "fill":
        return _length_root(n.args[1][1])
    if n.op == "app" and len(n.args[1]) == 3 and \
            n.args[0] == "scipy.interpolate.pchip_interpolate":
        return _length_root(n.args[1][2])
    if n.op in ("num", "exp", "log", "poly", "truth", "isnull", "lt0", "le0",
                "not", "and", "or", "eq", "phi") or n.op == "app" and \
            n.args[0] in ("numpy.abs", "numpy.sign", "numpy.floor",
                          "numpy.round", "pyco2.K", "pyco2.total"):
        rs = {_length_root(c) for c in children(n)} - {None}
        return rs.pop() if len(rs) == 1 else n
    return n


def same_lengths(t):
    """The term with the arrays that only lend their length (to a mask, to a
    count) replaced: the columns of one titration have the same length, and
    in the analyses of a given number of points every array has that many."""
    def root(n):
        r = _length_root(n)
        if FINITE and (n.op != "shape" or int_val(n.args[0]) == FINITE):
            return POINTS
        return n if r is None else r

    def f(n):
        if n.op == "app" and n.args[0] == "fill":
            return mk("app", "fill", (transform(n.args[1][0], f),
                                      root(n.args[1][1])), ())
        if n.op == "app" and n.args[0] == "numpy.size":
            if _length_root(n.args[1][0]) is POINTS:
                return mk("app", "numpy.size", (POINTS,), ())
        if n.op == "index":
            b, k = (transform(a, f) for a in n.args)
            if b.op == "app" and b.args[0] == "fill" and \
                    shape(b.args[1][0]) == "s" and shape(k) == "s" and \
                    k.op not in BOOLOPS:
                return b.args[1][0]
            return index(b, k)
        if n.op == "num":
            m = {}
            for mono, _ in n.args[0]:
                for x, _e in mono:
                    if x.op == "app" and x.args[0] == "fill" and \
                            shape(x.args[1][0]) == "s":
                        m[x] = x.args[1][0]
            if m:
                r = transform(n, lambda y: None if y is n else
                              m.get(y) or transform(y, f))
                if shape(r) == "s":
                    r = mk("app", "fill", (r, root(next(iter(m)).args[1][1])),
                           ())
                return r
        return None
    return transform(t, f)


def compare(x, y, budget=20000):
    """'eq', 'ne' or 'unk'."""
    r = _compare(x, y, budget)
    if r == "ne":
        p, q = same_lengths(x), same_lengths(y)
        if (p is not x or q is not y) and _compare(p, q, budget) == "eq":
            return "eq"
    return r


def _compare(x, y, budget):
    if x is None or y is None:
        return "unk"
    b = Budget(budget)
    y = unify_loops(x, y, budget)
    try:
        if _equal(x, y, b, {}):
            return "eq"
    except (Undecided, RecursionError):
        b = _descend(x, y)
        if b is None:
            return "unk"
    if b.weak or has_unknown(x) or has_unknown(y) or odd_groups(x, y):
        return "unk"
    return "ne"


def unify_loops(x, y, budget):
    """Name loops with equal initial values and steps alike."""
    mine = [n for n in walk(x) if n.op == "rec"]
    if not mine:
        return y
    ren = {}
    for r in {n for n in walk(y) if n.op == "rec"} - set(mine):
        for m in mine:
            if len(m.args[1]) == len(r.args[1]) and \
                    m.args[3] == r.args[3] and \
                    compare(m.args[2], r.args[2], budget) == "eq" and \
                    all(compare(a, b, budget) == "eq"
                        for p, q in zip(m.args[1], r.args[1])
                        for a, b in zip(p, q)):
                ren[r] = m
                break
    return transform(y, lambda n: ren.get(n)) if ren else y


def odd_groups(x, y):
    """Grouped values have no normal form when what is grouped is itself
    filtered or joined differently on the two sides."""
    def groups(t):
        out = set()
        for n in walk(t):
            if n.op == "grp":
                k, v = n.args
                if k.op not in ("col", "cell", "sym", "const", "num"):
                    return None
                if v.op not in ("col", "cell", "sym", "const", "num", "lsqx"):
                    out.add(v)
        return out
    a, b = groups(x), groups(y)
    return a is None or b is None or bool(a ^ b and a and b)


def same(x, y):
    return compare(x, y) == "eq"


# ---------------------------------------------------------------- printing
def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = n.op, n.args
    if op == "num":
        if not a[0]:
            return "0"
        parts = []
        for m, c in a[0][:8]:
            fs = [show(x, d) + ("" if e == 1 else f"^{e}") for x, e in m]
            cs = str(float(c)) if c.denominator > 1000 else str(c)
            if fs:
                parts.append(("" if c == 1 else cs + "*") + "*".join(fs))
            else:
                parts.append(cs)
        if len(a[0]) > 8:
            parts.append("…")
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op in ("col", "cell"):
        return f"{'column' if op == 'col' else 'row'}[{show(a[1])}]"
    if op == "nan":
        return "NaN"
    if op == "phi":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if op == "app":
        s = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{a[0]}({', '.join(s)})"
    if op == "lt0":
        return f"{show(a[0], d)} > 0"
    if op == "le0":
        return f"{show(a[0], d)} >= 0"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x, d) for x in a[0]) + ")"
    if op == "not":
        return "not " + show(a[0], d)
    if op == "index":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if op == "poly":
        return show(a[0], d)
    if op == "ext":
        return a[0]
    if op == "func":
        return f"<function {getattr(a[0], 'name', a[0])}>"
    if op == "ref":
        return f"<obj {a[0]}>"
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)

    def sh(x):
        if isinstance(x, Node):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ", ".join(sh(y) for y in x) + ")"
        return str(x)

    return f"{op}({', '.join(sh(x) for x in a)})"


def difference(x, y, depth=0):
    """Short description of where two terms differ."""
    if depth < 12 and x.op == y.op:
        if x.op in ("nt", "tuple"):
            xs = x.args[1] if x.op == "nt" else x.args[0]
            ys = y.args[1] if y.op == "nt" else y.args[0]
            if len(xs) == len(ys):
                for i, (p, q) in enumerate(zip(xs, ys)):
                    if compare(p, q) != "eq":
                        return f"[{i}]" + difference(p, q, depth + 1)
        if x.op in ("dictsnap", "tablesnap"):
            da = {k: (c, v) for k, c, v in x.args[1]}
            db = {k: (c, v) for k, c, v in y.args[1]}
            for k in set(da) | set(db):
                if k not in da or k not in db:
                    return f"[{show(k, 2)}] only on one side"
                if compare(da[k][0], db[k][0]) != "eq":
                    return f"[{show(k, 2)}] present under different conditions"
                if compare(da[k][1], db[k][1]) != "eq":
                    return f"[{show(k, 2)}]" + difference(
                        da[k][1], db[k][1], depth + 1)
    return f" code: {show(x, 6)[:600]}  ||  required: {show(y, 6)[:600]}"
