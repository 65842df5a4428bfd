"""Hash-consed term language of the verification-condition generator.

Sorts: 'int', 'real', 'bool'.  Linear combinations and power products are kept
in a light normal form at construction time; everything else is left to the
prover.  Bound variables of sums/quantifiers are numbered by binding height, so
alpha-equivalent terms are identical objects.
"""
from fractions import Fraction
import itertools
import math
import sys

sys.setrecursionlimit(20000)


class E:
    __slots__ = ("op", "args", "sort", "id", "height", "fv", "fb", "key", "_z3", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return powi(self, n)

    def __floordiv__(self, o):
        return floordiv(self, lift(o))

    def __mod__(self, o):
        return mod(self, lift(o))


_table = {}
_ctr = itertools.count(1)
_EMPTY = frozenset()


def _mk(op, args, sort, kids):
    k = (op, args, sort)
    e = _table.get(k)
    if e is not None:
        return e
    e = E.__new__(E)
    e.op = op
    e.args = args
    e.sort = sort
    e.id = next(_ctr)
    h = 0
    fv = _EMPTY
    fb = _EMPTY
    for c in kids:
        if c.height > h:
            h = c.height
        if c.fv:
            fv = fv | c.fv if fv else c.fv
        if c.fb:
            fb = fb | c.fb if fb else c.fb
    e.height = h
    e.fv = fv
    e.fb = fb
    e._z3 = None
    e.key = None
    _table[k] = e
    return e


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return const(x)


def const(q):
    if isinstance(q, float):
        if math.isinf(q) or math.isnan(q):
            return fn("nan" if math.isnan(q) else ("inf" if q > 0 else "ninf"))
        q = Fraction(q)
    elif not isinstance(q, Fraction):
        q = Fraction(int(q))
    return _mk("const", (q,), "int" if q.denominator == 1 else "real", ())


def var(name, sort="int"):
    e = _mk("var", (name,), sort, ())
    if not e.fv:
        e.fv = frozenset((e,))
    return e


def bvar(h):
    e = _mk("bvar", (h,), "int", ())
    if not e.fb:
        e.fb = frozenset((h,))
    return e


_fresh = itertools.count()


def fresh(prefix="k", sort="int"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


ZERO = const(0)
ONE = const(1)
PI = _mk("pi", (), "real", ())
TRUE = _mk("true", (), "bool", ())
FALSE = _mk("false", (), "bool", ())


def is_const(e):
    return e.op == "const"


def cval(e):
    return e.args[0] if e.op == "const" else None


def intval(e):
    if isinstance(e, int):
        return e
    if e.op == "const" and e.args[0].denominator == 1:
        return int(e.args[0])
    return None


# ---------------------------------------------------------------- arithmetic
def _linparts(e):
    """-> const, dict term->coef"""
    if e.op == "const":
        return e.args[0], {}
    if e.op == "add":
        return e.args[0], dict(e.args[1])
    if e.op == "mul" and e.args[0] is not None and e.args[0] != 1:
        pass
    return Fraction(0), {e: Fraction(1)}


def _mklin(c, d):
    d = {t: q for t, q in d.items() if q != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        t, q = next(iter(d.items()))
        if q == 1:
            return t
    items = tuple(sorted(d.items(), key=lambda p: p[0].id))
    sort = "int"
    if c.denominator != 1:
        sort = "real"
    for t, q in items:
        if t.sort != "int" or q.denominator != 1:
            sort = "real"
            break
    return _mk("add", (c, items), sort, [t for t, _ in items])


def add(*es):
    c = Fraction(0)
    d = {}
    for e in es:
        if e.op == "const":
            c += e.args[0]
        elif e.op == "add":
            c += e.args[0]
            for t, q in e.args[1]:
                d[t] = d.get(t, 0) + q
        else:
            d[e] = d.get(e, 0) + Fraction(1)
    return _mklin(c, d)


def scale(q, e):
    q = Fraction(q)
    if q == 0:
        return ZERO
    if q == 1:
        return e
    if e.op == "const":
        return const(q * e.args[0])
    if e.op == "add":
        return _mklin(e.args[0] * q, {t: c * q for t, c in e.args[1]})
    return _mklin(Fraction(0), {e: q})


def neg(e):
    return scale(-1, e)


def sub(a, b):
    return add(a, neg(b))


def _split(e):
    """coef, dict base->exp (multiplicative parts)"""
    if e.op == "const":
        return e.args[0], {}
    if e.op == "add" and e.args[0] == 0 and len(e.args[1]) == 1:
        t, q = e.args[1][0]
        c, d = _split(t)
        return q * c, d
    if e.op == "mul":
        return Fraction(1), dict(e.args)
    return Fraction(1), {e: 1}


def _mkmul(c, d):
    d = {b: x for b, x in d.items() if x != 0}
    if c == 0:
        return ZERO
    if not d:
        return const(c)
    if len(d) == 1:
        b, x = next(iter(d.items()))
        if x == 1:
            return scale(c, b)
    items = tuple(sorted(d.items(), key=lambda p: p[0].id))
    sort = "int" if all(b.sort == "int" and x > 0 for b, x in items) else "real"
    m = _mk("mul", items, sort, [b for b, _ in items])
    return scale(c, m)


def mul(*es):
    c = Fraction(1)
    d = {}
    adds = []
    for e in es:
        q, dd = _split(e)
        c *= q
        if c == 0:
            return ZERO
        for b, x in dd.items():
            d[b] = d.get(b, 0) + x
    # expand small integer polynomials so that index arithmetic stays linear
    for b, x in list(d.items()):
        if b.op == "add" and b.sort == "int" and x == 1 and all(bb.sort == "int" for bb in d):
            others = {bb: xx for bb, xx in d.items() if bb is not b}
            if not others:
                return scale(c, b)
            rest = _mkmul(c, others)
            terms = [scale(b.args[0], rest)] if b.args[0] != 0 else []
            terms += [mul(scale(q, t), rest) for t, q in b.args[1]]
            return add(*terms)
    return _mkmul(c, d)


def powi(e, n):
    if isinstance(n, E):
        v = intval(n)
        if v is None:
            c = cval(n)
            if c is not None and c.denominator == 2:
                return powi(fn("sqrt", e), int(c.numerator))
            return fn("pow", e, n)
        n = v
    if isinstance(n, Fraction) or isinstance(n, float):
        n = Fraction(n)
        if n.denominator == 1:
            n = int(n)
        elif n.denominator == 2:
            return powi(fn("sqrt", e), n.numerator)
        else:
            return fn("pow", e, const(n))
    if n == 0:
        return ONE
    if n == 1:
        return e
    if e.op == "const":
        if e.args[0] == 0 and n < 0:
            return fn("inf")
        return const(Fraction(e.args[0]) ** n)
    c, d = _split(e)
    if n > 1 and e.op == "add" and e.sort == "int" and len(d) == 1 and next(iter(d)).op == "add":
        r = e
        for _ in range(n - 1):
            r = mul(r, e)
        return r
    return _mkmul(c ** n, {b: x * n for b, x in d.items()})


def div(a, b):
    return mul(a, powi(b, -1))


def floordiv(a, b):
    bv = cval(b)
    if bv is not None and bv != 0 and bv.denominator == 1:
        if bv == 1:
            return a
        if a.sort == "int":
            c, d = _linparts(a)
            out = {}
            rem = {}
            for t, q in d.items():
                if (q / bv).denominator == 1:
                    out[t] = q / bv
                else:
                    f = math.floor(q / bv)
                    if f:
                        out[t] = Fraction(f)
                    rem[t] = q - f * bv
            oc = Fraction(math.floor(c / bv))
            rc = c - oc * bv
            if not rem:
                return _mklin(oc, out)
            if bv == 2 and rc == 1:      # (m + 1) // 2 == m - m // 2
                m = _mklin(Fraction(0), rem)
                f = _mk("floordiv", (m, b), "int", (m, b))
                return add(_mklin(oc, out), m, scale(Fraction(-1), f))
            inner = _mklin(rc, rem)
            f = _mk("floordiv", (inner, b), "int", (inner, b))
            return add(_mklin(oc, out), f)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    q = _exact_div(a, b)
    if q is not None:
        return q
    return _mk("floordiv", (a, b), "int" if a.sort == "int" and b.sort == "int" else "real", (a, b))


def _exact_div(a, b):
    """a // b when a is a syntactic integer multiple of b"""
    if a.sort != "int" or b.sort != "int":
        return None
    r = mul(a, powi(b, -1)) if b.op != "add" else None
    if r is not None and r.sort == "int":
        return r
    if a.op == "add" and b.op in ("var", "bvar", "sel"):
        parts = []
        for t, q in a.args[1]:
            x = scale(q, mul(t, powi(b, -1)))
            if x.sort != "int":
                return None
            parts.append(x)
        if a.args[0] != 0:
            return None
        return add(*parts)
    return None


def mod(a, b):
    bv = cval(b)
    if bv is not None and bv != 0 and a.sort == "int":
        f = floordiv(a, b)
        r = sub(a, scale(bv, f))
        v = cval(r)
        if v is not None:
            return r
        return r
    q = _exact_div(a, b)
    if q is not None:
        return ZERO
    return _mk("mod", (a, b), "int" if a.sort == "int" and b.sort == "int" else "real", (a, b))


def trunc(a):
    """truncation towards zero (float -> int cast)"""
    if a.sort == "int":
        return a
    v = cval(a)
    if v is not None:
        return const(int(v))
    if a.op == "ite":
        return ite(a.args[0], trunc(a.args[1]), trunc(a.args[2]))
    return _mk("trunc", (a,), "int", (a,))


# ---------------------------------------------------------------- functions
def fn(name, *args):
    args = tuple(lift(a) for a in args)
    if name in ("real_of",):
        return args[0]
    if len(args) == 1:
        v = cval(args[0])
        if v is not None:
            if v == 0 and name in ("sin", "sqrt", "abs", "tan", "arctan", "sinh"):
                return ZERO
            if v == 0 and name in ("cos", "exp", "cosh"):
                return ONE
            if v == 1 and name == "sqrt":
                return ONE
            if name == "abs":
                return const(abs(v))
            if name == "sqrt" and v > 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return const(Fraction(n, d))
            if name == "floor":
                return const(math.floor(v))
            if name == "ceil":
                return const(math.ceil(v))
        if name in ("floor", "ceil", "round") and args[0].sort == "int":
            return args[0]
    sort = INTFN.get(name) or ("int" if name.startswith(("nth#", "ss#", "i:")) else "real")
    if name == "abs" and args[0].sort == "int":
        sort = "int"
    return _mk("fn", (name,) + args, sort, args)


INTFN = {"floor": "int", "ceil": "int", "round": "int"}
FRESHSORT = {}


class ArrInfo:
    def __init__(self, name, ndim, sort, sym=False, group=None, **kw):
        self.name = name
        self.ndim = ndim
        self.sort = sort
        self.sym = sym
        self.meta = kw


ARR = {}


def declare(name, ndim, sort="real", sym=False, **kw):
    ARR[name] = ArrInfo(name, ndim, sort, sym, **kw)
    return name


def sel(name, *idx):
    idx = tuple(lift(i) for i in idx)
    info = ARR[name]
    if info.sym and len(idx) == 2 and idx[0].id > idx[1].id:
        idx = (idx[1], idx[0])
    return _mk("sel", (name,) + idx, info.sort, idx)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ge0":
        if a.args[0].sort == "int":
            return ge0(sub(const(-1), a.args[0]))
        return gt0(neg(a.args[0]))
    if a.op == "gt0":
        return ge0(neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return _mk("not", (a,), "bool", (a,))


def and_(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    if not s:
        return TRUE
    for x in s:
        if x.op == "not" and x.args[0] in s:
            return FALSE
        if x.op in ("ge0", "gt0") and not_(x) in s:
            return FALSE
    if len(s) == 1:
        return next(iter(s))
    a = tuple(sorted(s, key=lambda e: e.id))
    return _mk("and", a, "bool", a)


def or_(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                s[y] = 1
        else:
            s[x] = 1
    if not s:
        return FALSE
    for x in s:
        if not_(x) in s:
            return TRUE
    if len(s) == 1:
        return next(iter(s))
    a = tuple(sorted(s, key=lambda e: e.id))
    return _mk("or", a, "bool", a)


def ge0(e):
    v = cval(e)
    if v is not None:
        return TRUE if v >= 0 else FALSE
    e = _prim(e, True)
    r = _extreme(e, ge0)
    if r is not None:
        return r
    return _mk("ge0", (e,), "bool", (e,))


def _extreme(e, cmp):
    """comparison of a square root with zero; of a least or greatest element (of a non-empty range) with a bound"""
    if e.op == "fn" and e.args[0] == "sqrt":
        return gt0(e.args[1]) if cmp is gt0 else TRUE
    if e.op == "add" and not e.args[0] and len(e.args[1]) == 1:
        t, q = e.args[1][0]
        if q < 0 and t.op == "fn" and t.args[0] == "sqrt":
            return FALSE if cmp is gt0 else ge0(neg(t.args[1]))
    if e.op == "add":
        ts = [(t, q) for t, q in e.args[1] if t.op in ("minr", "maxr")]
        if len(ts) != 1:
            return None
        t, q = ts[0]
    elif e.op in ("minr", "maxr"):
        t, q = e, 1
    else:
        return None
    rest = sub(e, scale(q, t))
    if any(x.op in ("minr", "maxr") for x in subterms(rest)):
        return None
    _, lo, hi, _ = t.args
    f = lambda v: cmp(add(scale(q, open_binder(t, v)), rest))
    every = (t.op == "minr") == (q > 0)
    return forall(lo, hi, f) if every else exists(lo, hi, f)


def gt0(e):
    if e.sort == "int":
        return ge0(sub(e, ONE))
    v = cval(e)
    if v is not None:
        return TRUE if v > 0 else FALSE
    e = _prim(e, False)
    r = _extreme(e, gt0)
    if r is not None:
        return r
    return _mk("gt0", (e,), "bool", (e,))


def _prim(e, isge):
    """divide by positive content of the linear form"""
    c, d = _linparts(e)
    if not d:
        return e
    if e.sort == "int":
        g = 0
        for q in d.values():
            g = math.gcd(g, int(q))
        if g > 1:
            return _mklin(Fraction(math.floor(c / g)), {t: q / g for t, q in d.items()})
        return e
    m = abs(next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1])
    if m != 1:
        return _mklin(c / m, {t: q / m for t, q in d.items()})
    return e


def eq0(e):
    v = cval(e)
    if v is not None:
        return TRUE if v == 0 else FALSE
    c, d = _linparts(e)
    f = min(d, key=lambda t: t.id)
    if d[f] < 0:
        e = neg(e)
        c, d = _linparts(e)
    if e.sort == "int":
        g = 0
        for q in d.values():
            g = math.gcd(g, int(q))
        if g > 1:
            if int(c) % g:
                return FALSE
            e = _mklin(c / g, {t: q / g for t, q in d.items()})
    else:
        m = d[f] if d[f] > 0 else -d[f]
        if m != 1:
            e = _mklin(c / m, {t: q / m for t, q in d.items()})
    return _mk("eq0", (e,), "bool", (e,))


def ge(a, b):
    return ge0(sub(lift(a), lift(b)))


def gt(a, b):
    return gt0(sub(lift(a), lift(b)))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "bool":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def bfn(name, *args):
    args = tuple(lift(a) for a in args)
    return _mk("bfn", (name,) + args, "bool", args)


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "bool" or b.sort == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # collapse nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    sort = "int" if a.sort == "int" and b.sort == "int" else "real"
    return _mk("ite", (c, a, b), sort, (c, a, b))


# ---------------------------------------------------------------- binders
def _bind(op, lo, hi, v, body, sort):
    h = max(body.height + 1, 1)
    b = subst(body, {v: bvar(h)})
    kids = (lo, hi, b)
    e = _mk(op, (h, lo, hi, b), sort, kids)
    e.height = max(h, lo.height, hi.height)
    e.fb = lo.fb | hi.fb | (b.fb - {h})
    return e


def sum_(lo, hi, f, prefix="k"):
    lo, hi = lift(lo), lift(hi)
    n = intval(sub(hi, lo))
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n <= 1:
        return add(*[f(add(lo, const(i))) for i in range(n)])
    v = fresh(prefix)
    body = f(v)
    return sum_over(lo, hi, v, body)


def sum_over(lo, hi, v, body):
    if body is ZERO:
        return ZERO
    if v not in body.fv and lo.op != "x":
        # constant body: length * body (length clipped at 0)
        n = sub(hi, lo)
        return mul(ite(ge0(n), n, ZERO), body)
    if body.op == "add" and not body.args[0] and len(body.args[1]) == 1:
        t, q = body.args[1][0]
        return scale(q, sum_over(lo, hi, v, t))
    if body.op == "mul":
        out = [powi(b, x) for b, x in body.args if v not in b.fv]
        if out:
            return mul(*(out + [sum_over(lo, hi, v, mul(*[powi(b, x) for b, x in body.args if v in b.fv]))]))
    return _bind("sum", lo, hi, v, body, "int" if body.sort == "int" else "real")


def exists(lo, hi, f):
    v = fresh("q")
    body = f(v)
    if body is FALSE:
        return FALSE
    if v not in body.fv:
        return and_(gt(hi, lo), body)
    return _bind("exists", lift(lo), lift(hi), v, body, "bool")


def forall(lo, hi, f):
    return not_(exists(lo, hi, lambda v: not_(f(v))))


def minmax(kind, lo, hi, f):
    v = fresh("m")
    body = f(v)
    if v not in body.fv:
        return body
    if body.op == "add":
        out = [(t, q) for t, q in body.args[1] if v not in t.fv]
        if out or body.args[0]:
            rest = add(const(body.args[0]), *[scale(q, t) for t, q in out])
            return add(rest, minmax(kind, lo, hi, lambda w: subst(sub(body, rest), {v: w})))
    return _bind("minr" if kind in ("min", "minr") else "maxr", lift(lo), lift(hi), v, body, body.sort)


BINDERS = ("sum", "exists", "minr", "maxr", "nsum")


def open_binder(e, v):
    """body of binder e with its bound variable replaced by v"""
    return subst_b(e.args[3], e.args[0], v)


# ---------------------------------------------------------------- substitution
def rebuild(e, kids):
    op = e.op
    a = e.args
    if op == "add":
        return add(const(a[0]), *[scale(q, k) for (t, q), k in zip(a[1], kids)])
    if op == "mul":
        return mul(*[powi(k, x) for (b, x), k in zip(a, kids)])
    if op == "fn":
        return fn(a[0], *kids)
    if op == "bfn":
        return bfn(a[0], *kids)
    if op == "sel":
        return sel(a[0], *kids)
    if op == "ite":
        return ite(*kids)
    if op == "floordiv":
        return floordiv(*kids)
    if op == "mod":
        return mod(*kids)
    if op == "trunc":
        return trunc(kids[0])
    if op == "not":
        return not_(kids[0])
    if op == "and":
        return and_(*kids)
    if op == "or":
        return or_(*kids)
    if op == "ge0":
        return ge0(kids[0])
    if op == "gt0":
        return gt0(kids[0])
    if op == "eq0":
        return eq0(kids[0])
    raise AssertionError(op)


def children(e):
    op = e.op
    a = e.args
    if op in ("const", "var", "bvar", "pi", "true", "false"):
        return ()
    if op == "add":
        return tuple(t for t, _ in a[1])
    if op == "mul":
        return tuple(t for t, _ in a)
    if op in ("fn", "sel", "bfn"):
        return a[1:]
    if op in ("sum", "exists", "minr", "maxr"):
        return a[1:]
    if op == "nsum":
        return (a[1],) + tuple(t for t, _ in a[2])
    return a


def subst(e, m, memo=None):
    if memo is None:
        memo = {}
        ks = frozenset(m)
    else:
        ks = memo["ks"]
    memo["ks"] = ks
    return _subst(e, m, ks, memo)


def _subst(e, m, ks, memo):
    if not (e.fv & ks):
        return e
    r = memo.get(e)
    if r is not None:
        return r
    if e.op == "var":
        r = m.get(e, e)
    elif e.op in ("sum", "exists", "minr", "maxr"):
        h, lo, hi, body = e.args
        v = fresh("s")
        b = subst_b(body, h, v)
        b = _subst(b, m, ks, memo)
        lo = _subst(lo, m, ks, memo)
        hi = _subst(hi, m, ks, memo)
        if e.op == "sum":
            r = sum_over(lo, hi, v, b)
        else:
            r = _rebind(e.op, lo, hi, v, b, e.sort)
    elif e.op == "nsum":
        raise AssertionError("subst in nsum")
    else:
        r = rebuild(e, [_subst(c, m, ks, memo) for c in children(e)])
    memo[e] = r
    return r


def replace(e, m, memo=None):
    """replace closed subterms (keys of m)"""
    if memo is None:
        memo = {}
    r = m.get(e)
    if r is not None:
        return r
    r = memo.get(e)
    if r is not None:
        return r
    if e.op in ("sum", "exists", "minr", "maxr"):
        h, lo, hi, body = e.args
        v = fresh("s")
        b = replace(subst_b(body, h, v), m, {})
        lo, hi = replace(lo, m, memo), replace(hi, m, memo)
        r = sum_over(lo, hi, v, b) if e.op == "sum" else _rebind(e.op, lo, hi, v, b, e.sort)
    elif e.op == "nsum" or not children(e):
        r = e
    else:
        r = rebuild(e, [replace(c, m, memo) for c in children(e)])
    memo[e] = r
    return r


def _rebind(op, lo, hi, v, b, sort):
    if op == "exists":
        if b is FALSE:
            return FALSE
        if v not in b.fv:
            return and_(gt(hi, lo), b)
    elif v not in b.fv:
        return b
    return _bind(op, lo, hi, v, b, sort)


def subst_b(e, h, v, memo=None):
    """replace free bvar(h) by v"""
    if memo is None:
        memo = {}
    if h not in e.fb:
        return e
    r = memo.get(e)
    if r is not None:
        return r
    if e.op == "bvar":
        r = v
    elif e.op in ("sum", "exists", "minr", "maxr"):
        hh, lo, hi, body = e.args
        w = fresh("s")
        b = subst_b(body, hh, w)
        b = subst_b(b, h, v)
        lo = subst_b(lo, h, v, memo)
        hi = subst_b(hi, h, v, memo)
        if e.op == "sum":
            r = sum_over(lo, hi, w, b)
        else:
            r = _rebind(e.op, lo, hi, w, b, e.sort)
    else:
        r = rebuild(e, [subst_b(c, h, v, memo) for c in children(e)])
    memo[e] = r
    return r


def subterms(e, seen=None):
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


def mentions(e, names):
    """does e contain a sel of one of the array names or var of names"""
    for x in subterms(e):
        if x.op == "sel" and x.args[0] in names:
            return True
        if x.op == "var" and x.args[0] in names:
            return True
    return False


# ---------------------------------------------------------------- printing
def show(e, depth=14):
    if depth == 0:
        return "..."
    op, a = e.op, e.args
    s = lambda x: show(x, depth - 1)
    if op == "const":
        return str(a[0])
    if op == "var":
        return a[0]
    if op == "bvar":
        return "b%d" % a[0]
    if op == "pi":
        return "pi"
    if op in ("true", "false"):
        return op
    if op == "add":
        out = []
        for t, q in a[1]:
            if q == 1:
                out.append(s(t))
            elif q == -1:
                out.append("-" + s(t))
            else:
                out.append("%s*%s" % (q, s(t)))
        if a[0] != 0:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if op == "mul":
        return "*".join(s(t) if x == 1 else "%s^%d" % (s(t), x) for t, x in a)
    if op in ("fn", "bfn"):
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "sel":
        return "%s[%s]" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op in ("sum", "exists", "minr", "maxr"):
        return "%s{b%d in %s..%s}(%s)" % (op, a[0], s(a[1]), s(a[2]), s(a[3]))
    if op == "nsum":
        return "SUM{%d | %s}(%s)" % (a[0], s(a[1]), "*".join(s(t) if x == 1 else "%s^%d" % (s(t), x) for t, x in a[2]))
    if op == "ge0":
        return s(a[0]) + ">=0"
    if op == "gt0":
        return s(a[0]) + ">0"
    if op == "eq0":
        return s(a[0]) + "==0"
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))


def has_rec(e):
    return any(x.op == "sel" and isinstance(x.args[0], str) and x.args[0].startswith("rec#") for x in deep_subterms(e))


def deep_subterms(e, seen=None):
    seen = seen if seen is not None else set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
        if x.op in BINDERS:
            stack.append(x.args[3])
    return seen
