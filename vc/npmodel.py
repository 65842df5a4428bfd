"""Models of the Python built-ins and of the numpy / scipy operations PyDynamic calls.

These are the trusted contracts of external functions: each states what the
library returns for arrays of any shape, element by element.  They are compared
with the real library on concrete inputs by `vc/crosscheck.py` on every run.
"""
from fractions import Fraction

from . import terms as T
from .terms import E, const, ite, and_, or_, not_, ZERO, ONE, TRUE, FALSE, ge0, gt0, eq0, sub, add, mul, neg
from .values import *
from . import values as V
from .prover import count_of
from . import prover, evalnum

LIB = {}
CONSTS = {}
ALIASES = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f

    return deco


def I_mod():
    from . import interp
    return interp


# ------------------------------------------------------------------ helpers
def size_E(a):
    return mul(*a.shape) if a.shape else ONE


def dims_equal(I, a, b):
    if a is b:
        return True
    return I.branch(T.eq(a, b))


def as_dtype(d):
    if d is None:
        return None
    if isinstance(d, PyType):
        return {"float": "f", "int": "i", "bool": "b", "complex": "c", "object": "o"}.get(d.name.split(".")[-1].rstrip("_0123456789"), None) or _bad("dtype %s" % d.name)
    if isinstance(d, str):
        return {"float": "f", "int": "i", "bool": "b", "complex": "c", "f": "f", "d": "f"}.get(d.rstrip("0123456789"), None) or _bad("dtype %s" % d)
    if isinstance(d, Opaque) and d.what == "dtype":
        return d.data
    _bad("dtype %r" % (d,))


def _bad(m):
    raise Unsupported(m)


def has_none_or_ragged(v):
    return any(isinstance(x, (list, tuple, Arr)) for x in v)


def asarray(I, v, dtype=None, copy=False):
    PList = I_mod().PList
    if isinstance(v, Arr):
        if dtype is not None and dtype != v.dtype:
            g, d0 = v.getter(), v.dtype
            return mkarr(v.shape, dtype, lambda *i: V.convert(g(*i), d0, dtype))
        if copy:
            return mkarr(v.shape, v.dtype, v.getter())
        return v
    if is_scalar(v):
        x, d = sc_elem(v), dtype_of(v)
        if dtype is not None:
            x, d = V.convert(x, d, dtype), dtype
        return mkarr((), d, lambda x=x: x)
    if isinstance(v, PList) and v.sym is not None:
        v = v.sym
    if isinstance(v, SymList):
        k = T.fresh("k")
        x = v.fn(k)
        if is_scalar(x):
            d0 = dtype_of(x)
            a = mkarr((v.n,), d0, lambda i: sc_elem(v.fn(i)))
        elif isinstance(x, Arr):
            if k in set().union(*[s.fv for s in x.shape]) if x.shape else False:
                raise Unsupported("ragged symbolic list")
            a = mkarr((v.n,) + x.shape, x.dtype, lambda i, *r: v.fn(i).elem(*r))
        elif isinstance(x, SymList) or (isinstance(x, PList) and x.sym is not None):
            xa = asarray(I, x)
            if any(k in s.fv for s in xa.shape):
                raise Unsupported("ragged symbolic list")
            a = mkarr((v.n,) + xa.shape, xa.dtype, lambda i, *r: asarray(I, v.fn(i)).elem(*r))
        else:
            raise Unsupported("array of symbolic list of %s" % type(x).__name__)
        return asarray(I, a, dtype)
    it = I_mod()
    if isinstance(v, (it.SymRange, it.SymIter, it.IterObj)):
        if isinstance(v, it.SymRange):
            return asarray(I, mkarr((v.n,), "i", lambda i: add(v.lo, T.scale(v.step, i))), dtype)
        raise Unsupported("array of iterator")
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return mkarr((0,), dtype or "f", lambda i: ZERO)
        items = [asarray(I, x) for x in v]
        sh = items[0].shape
        for x in items[1:]:
            if x.ndim != len(sh) or not all(dims_equal(I, p, q) for p, q in zip(sh, x.shape)):
                raise Unsupported("ragged nested sequence")
        d = V.promote(*[x.dtype for x in items])
        gs = [(x.getter(), x.dtype) for x in items]

        def f(i, *r):
            c = T.intval(i)
            if c is not None and 0 <= c < len(gs):
                return V.convert(gs[c][0](*r), gs[c][1], d)
            e = V.convert(gs[-1][0](*r), gs[-1][1], d)
            for j in range(len(gs) - 2, -1, -1):
                e = eite(T.eq(i, const(j)), V.convert(gs[j][0](*r), gs[j][1], d), e)
            return e

        return asarray(I, mkarr((len(items),) + sh, d, f), dtype)
    if isinstance(v, (Dia, Sparse)):
        raise Unsupported("asarray of sparse")
    raise Unsupported("asarray of %r" % (v,))


def unwrap0(a):
    """0-d result -> scalar"""
    if isinstance(a, Arr) and a.ndim == 0:
        return mkelem(a.elem(), a.dtype)
    return a


def bcast(I, *shapes):
    """broadcast shapes -> (shape, [index maps])"""
    nd = max((len(s) for s in shapes), default=0)
    out = []
    fixed = [[] for _ in shapes]
    for ax in range(nd):
        cur = None
        pos = []
        for s in shapes:
            j = ax - (nd - len(s))
            pos.append(s[j] if j >= 0 else None)
        for p in pos:
            if p is None or p is ONE:
                continue
            if cur is None or cur is p:
                cur = p
                continue
            if dims_equal(I, cur, p):
                if T.intval(p) is not None:
                    cur = p
                continue
            if I.branch(T.eq(cur, ONE)):
                cur = p
            elif not I.branch(T.eq(p, ONE)):
                raise PyExc("ValueError", "operands could not be broadcast together")
        if cur is None:
            cur = ONE
        out.append(cur)
        for n, p in enumerate(pos):
            if p is None:
                fixed[n].append("drop")
            elif p is cur or (p is ONE and cur is ONE):
                fixed[n].append("id")
            elif p is ONE or (not I.entails(T.eq(p, cur)) and I.entails(T.eq(p, ONE))):
                fixed[n].append("zero")
            else:
                fixed[n].append("id")
    maps = []
    for fx in fixed:
        def m(idx, fx=fx):
            r = []
            for i, how in zip(idx, fx):
                if how == "id":
                    r.append(i)
                elif how == "zero":
                    r.append(ZERO)
            return r
        maps.append(m)
    return tuple(out), maps


def elementwise(I, f, dt, *args, want_arr=False):
    """f: elems -> elem ; dt: dtypes -> dtype"""
    arrs = [asarray(I, a) for a in args]
    ismat = any(isinstance(a, Matrix) for a in arrs)
    shape, maps = bcast(I, *[a.shape for a in arrs])
    gs = [a.getter() for a in arrs]
    ds = [a.dtype for a in arrs]
    if any(d == "o" for d in ds):
        raise Unsupported("object array arithmetic")
    d = dt(*ds) if callable(dt) else dt
    if not shape and not want_arr:
        return mkelem(f(*[g() for g in gs]), d)
    return mkarr(shape, d, lambda *i: f(*[g(*m(i)) for g, m in zip(gs, maps)]), cls=Matrix if ismat else Arr)


# ------------------------------------------------------------------ operators
def _arith(ds):
    d = V.promote(*ds)
    return "i" if d == "b" else d


def dt_arith(*ds):
    return _arith(ds)


def dt_add(*ds):
    d = V.promote(*ds)
    return d


def dt_div(*ds):
    d = V.promote(*ds)
    return d if d in "fc" else "f"


def dt_float(*ds):
    d = V.promote(*ds)
    return d if d in "fc" else "f"


PYOPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
}


def ebool(x):
    if isC(x):
        return or_(T.ne(x[0], ZERO), T.ne(x[1], ZERO))
    return x if x.sort == "bool" else T.ne(x, ZERO)


def efloordiv(a, b):
    a, b = num(a), num(b)
    if a.sort == "int" and b.sort == "int":
        return T.floordiv(a, b)
    return T.fn("floor", T.div(a, b))


def emod(a, b):
    a, b = num(a), num(b)
    if a.sort == "int" and b.sort == "int":
        return T.mod(a, b)
    return sub(a, mul(b, T.fn("floor", T.div(a, b))))


def binop(I, op, a, b):
    it = I_mod()
    for x in (a, b):
        if isinstance(x, (Dia, Sparse)):
            return sparse_binop(I, op, a, b)
    if isinstance(a, str) or isinstance(b, str):
        if op == "Mod" and isinstance(a, str):
            return "<fmt>"
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mult":
            s, n = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(n, int):
                return s * n
            return "<fmt>"
        raise PyExc("TypeError", "unsupported operand")
    if isinstance(a, (list, tuple)) and not isinstance(b, Arr) or isinstance(b, (list, tuple)) and not isinstance(a, Arr):
        if op == "Add" and isinstance(a, (list, tuple)) and type(a) is type(b):
            if getattr(a, "sym", None) is not None or getattr(b, "sym", None) is not None:
                raise Unsupported("concatenation of symbolic lists")
            return it.PList(list(a) + list(b)) if isinstance(a, list) else a + b
        if op == "Mult":
            l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            if isinstance(n, Sc) and n.np:
                a = asarray(I, a) if l is a else a
                b = asarray(I, b) if l is b else b
                return binop(I, op, a, b)
            if isinstance(n, int):
                return it.PList(list(l) * n) if isinstance(l, list) else l * n
            if isinstance(n, Sc) and n.kind == "int" and len(l) == 1:
                x = l[0]
                r = it.PList()
                r.sym = SymList(_max0(I, n.re), lambda i: x)
                return r
        if op in ("Add", "Sub", "Mult", "Div") and (isinstance(a, Sc) and a.np or isinstance(b, Sc) and b.np):
            return binop(I, op, asarray(I, a), asarray(I, b))
        raise PyExc("TypeError", "unsupported operand")
    if isinstance(a, set) and isinstance(b, set):
        return {"Sub": a - b, "BitOr": a | b, "BitAnd": a & b}[op]
    if a is None or b is None or isinstance(a, (dict, it.Func)) or isinstance(b, (dict, it.Func)):
        raise PyExc("TypeError", "unsupported operand type for %s" % op)
    for x in (a, b):
        if not (is_scalar(x) or isinstance(x, (Arr, list, tuple))):
            raise Unsupported("operand %r" % (x,))
    if isinstance(a, int) and isinstance(b, int):
        if op in PYOPS:
            return PYOPS[op](a, b)
        if op == "FloorDiv" or op == "Mod":
            if b == 0:
                raise PyExc("ZeroDivisionError")
            return a // b if op == "FloorDiv" else a % b
        if op == "Div":
            if b == 0:
                raise PyExc("ZeroDivisionError")
            return mkreal(const(Fraction(a, b)))
        if op == "Pow":
            return a ** b if b >= 0 else mkreal(const(Fraction(a) ** b))
        raise Unsupported("operator %s" % op)
    if op == "MatMult":
        return matmul(I, [a, b], {})
    if isinstance(a, Matrix) or isinstance(b, Matrix):
        if op == "Mult" and isinstance(a, Arr) and isinstance(b, Arr):
            return mat_mul(I, a, b)
        if op == "Pow":
            raise Unsupported("matrix power")
    if is_scalar(a) and is_scalar(b) and op in ("Div", "FloorDiv", "Mod"):
        npf = (isinstance(a, Sc) and a.np) or (isinstance(b, Sc) and b.np)
        if not npf:
            x = sc_elem(b)
            nz = or_(T.ne(x[0], ZERO), T.ne(x[1], ZERO)) if isC(x) else T.ne(num(x), ZERO)
            I.require(nz, "ZeroDivisionError")
    if op == "Add":
        if both_bool(I, a, b):
            return elementwise(I, lambda x, y: or_(ebool(x), ebool(y)), "b", a, b)
        return elementwise(I, eadd, dt_arith, a, b)
    if op == "Sub":
        return elementwise(I, esub, dt_arith, a, b)
    if op == "Mult":
        if both_bool(I, a, b):
            return elementwise(I, lambda x, y: and_(ebool(x), ebool(y)), "b", a, b)
        return elementwise(I, emul, dt_arith, a, b)
    if op == "Div":
        return elementwise(I, ediv, dt_div, a, b)
    if op == "FloorDiv":
        return elementwise(I, efloordiv, dt_arith, a, b)
    if op == "Mod":
        return elementwise(I, emod, dt_arith, a, b)
    if op == "Pow":
        def dt(x, y):
            d = V.promote(x, y)
            return "i" if d == "b" else d
        r = elementwise(I, epow, dt, a, b)
        if dtype_of(r) == "i":
            e = asarray(I, b)
            c = [T.fresh("p") for _ in e.shape]
            x = num(e.elem(*c))
            v = T.cval(x)
            if (v is None and not I.entails(ge0(x))) or (v is not None and v < 0):
                if isinstance(a, int) or isinstance(b, int) or isinstance(a, Sc):
                    if is_scalar(a) and is_scalar(b) and not I.branch(ge0(x)):
                        return elementwise(I, epow, "f", a, b)
                else:
                    raise PyExc("ValueError", "integers to negative integer powers")
        return r
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": lambda x, y: and_(ebool(x), ebool(y)), "BitOr": lambda x, y: or_(ebool(x), ebool(y)),
             "BitXor": lambda x, y: T.ne(ite(ebool(x), ONE, ZERO), ite(ebool(y), ONE, ZERO))}[op]
        if not both_bool(I, a, b):
            raise Unsupported("bitwise operator on integers")
        return elementwise(I, f, "b", a, b)
    raise Unsupported("operator %s" % op)


def both_bool(I, a, b):
    f = lambda x: dtype_of(x) if is_scalar(x) or isinstance(x, Arr) else asarray(I, x).dtype
    if is_scalar(a) and is_scalar(b):
        return False if not (isinstance(a, Sc) and a.np or isinstance(b, Sc) and b.np) and False else f(a) == "b" and f(b) == "b"
    return f(a) == "b" and f(b) == "b"


def unop(I, op, v):
    if op == "Not":
        c = I.truth_E(v)
        if isinstance(c, bool):
            return not c
        return mkbool(not_(c))
    if isinstance(v, bool) or isinstance(v, int):
        return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
    if isinstance(v, (Dia, Sparse)):
        raise Unsupported("unary on sparse")
    if op == "USub":
        return elementwise(I, eneg, dt_arith, v)
    if op == "UAdd":
        return v
    if op == "Invert":
        if dtype_of(v) != "b":
            if dtype_of(v) == "i":
                return elementwise(I, lambda x: sub(neg(x), ONE), "i", v)
            raise PyExc("TypeError", "bad operand for ~")
        return elementwise(I, lambda x: not_(ebool(x)), "b", v)
    raise Unsupported("unary %s" % op)


def _cmp(op):
    def f(a, b):
        if isC(a) or isC(b):
            a, b = cplx(num(a)), cplx(num(b))
            r = and_(T.eq(a[0], b[0]), T.eq(a[1], b[1]))
            if op == "Eq":
                return r
            if op == "NotEq":
                return not_(r)
            raise Unsupported("ordering of complex")
        a, b = num(a), num(b)
        return {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}[op](a, b)
    return f


def eq_values(I, a, b):
    """python == -> bool or Sc bool (arrays elementwise)"""
    return compare(I, "Eq", a, b)


def compare(I, op, a, b):
    it = I_mod()
    if op in ("Is", "IsNot"):
        r = is_same(a, b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(I, a, b)
        return r if op == "In" else unop(I, "Not", r)
    if is_scalar(a) and is_scalar(b) or isinstance(a, Arr) or isinstance(b, Arr):
        for x in (a, b):
            if x is None or isinstance(x, (str, dict)):
                if op == "Eq":
                    if isinstance(a, Arr) or isinstance(b, Arr):
                        if x is None:
                            return elementwise(I, lambda y: FALSE, "b", b if a is None else a)
                    return False
                if op == "NotEq":
                    return True
                raise PyExc("TypeError")
        if isinstance(a, int) and isinstance(b, int):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        for x in (a, b):
            if not (is_scalar(x) or isinstance(x, (Arr, list, tuple))):
                if isinstance(x, Opaque) and op in ("Eq", "NotEq"):
                    raise Unsupported("comparison with %r" % (x,))
                raise Unsupported("comparison with %r" % (x,))
        return elementwise(I, _cmp(op), "b", a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if op not in ("Eq", "NotEq"):
            raise Unsupported("sequence ordering")
        if getattr(a, "sym", None) is not None or getattr(b, "sym", None) is not None:
            raise Unsupported("comparison of symbolic lists")
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            r = False
        else:
            cs = []
            for x, y in zip(a, b):
                c = I.truth_E(compare(I, "Eq", x, y))
                cs.append(T.lift(c))
            r = mkbool(and_(*cs))
        return r if op == "Eq" else unop(I, "Not", r)
    if op in ("Eq", "NotEq"):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what == "dtype":
            r = a.data == b.data
        elif isinstance(a, Opaque) and a.what == "dtype" or isinstance(b, Opaque) and b.what == "dtype":
            try:
                r = as_dtype(a) == as_dtype(b)
            except Unsupported:
                raise
        elif isinstance(a, (str, type(None), bool, int, dict, set, PyType)) or isinstance(b, (str, type(None), bool, int, dict, set, PyType)):
            r = type(a) is type(b) and a == b
        elif isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            r = False
        else:
            raise Unsupported("comparison %r %r" % (a, b))
        return r if op == "Eq" else not r
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise PyExc("TypeError", "ordering")
    raise Unsupported("comparison %s %r %r" % (op, a, b))


def is_same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Sc) and a.kind == "bool" and isinstance(b, bool) or isinstance(b, Sc) and b.kind == "bool" and isinstance(a, bool):
        s = a if isinstance(a, Sc) else b
        if s.np:
            return False
        raise Unsupported("identity of symbolic booleans")
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, int) and isinstance(b, int) and type(a) is type(b) and abs(a) < 250:
        return a == b
    if isinstance(a, PyType) and isinstance(b, PyType):
        return a.name == b.name
    return False


def contains(I, x, coll):
    it = I_mod()
    if isinstance(coll, str):
        if isinstance(x, str):
            return x in coll
        raise PyExc("TypeError")
    if isinstance(coll, dict):
        if isinstance(x, (Sc,)) and any(isinstance(k, it.SymKey) or isinstance(k, int) for k in coll):
            raise Unsupported("symbolic key lookup")
        return I.hashable(x) in coll
    if isinstance(coll, it.SymRange):
        i = num(sc_elem(x))
        if coll.step != 1:
            raise Unsupported("in range step")
        return mkbool(and_(T.ge(i, coll.lo), T.lt(i, add(coll.lo, coll.n))))
    if isinstance(coll, Arr):
        e = sc_elem(x)
        vs = None
        return mkbool(exists_over(coll, lambda y: _cmp("Eq")(y, e)))
    items = I.iter_concrete(coll) if not isinstance(coll, set) else list(coll)
    cs = []
    for y in items:
        c = I.truth_E(compare(I, "Eq", x, y))
        if c is True:
            return True
        if c is not False:
            cs.append(c)
    return mkbool(or_(*cs)) if cs else False


def logic_and(I, a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    if is_scalar(a) and is_scalar(b):
        return mkbool(and_(T.lift(I.truth_E(a)), T.lift(I.truth_E(b))))
    if not I.truth(a):
        return a
    return b


def exists_over(a, f):
    """exists index with f(elem)"""
    g = a.getter()

    def rec(ax, idx):
        if ax == a.ndim:
            return f(g(*idx))
        return T.exists(ZERO, a.shape[ax], lambda k: rec(ax + 1, idx + [k]))

    return rec(0, [])


def forall_over(a, f):
    return not_(exists_over(a, lambda x: not_(f(x))))


def _max0(I, e):
    v = T.intval(e)
    if v is not None:
        return const(max(0, v))
    return e if I.branch(ge0(e)) else ZERO


# ------------------------------------------------------------------ indexing
def int_E(I, k):
    """integer index -> E"""
    if isinstance(k, bool):
        return const(int(k))
    if isinstance(k, int):
        return const(k)
    if isinstance(k, Sc):
        if k.kind == "int":
            return k.re
        if k.kind == "bool":
            return ite(k.re, ONE, ZERO)
        raise PyExc("IndexError" if not k.np else "IndexError", "only integers are valid indices")
    if isinstance(k, Arr) and k.ndim == 0 and k.dtype == "i":
        return k.elem()
    raise PyExc("TypeError", "not an index")


def index_E(I, k, n, check=True):
    e = int_E(I, k)
    v = T.intval(e)
    if v is not None:
        if v < 0:
            e = add(n, e)
            if check:
                I.require(ge0(e), "IndexError")
        elif check:
            I.require(T.lt(e, n), "IndexError")
        return e
    if not I.branch(ge0(e)):
        e = add(e, n)
        if check:
            I.require(ge0(e), "IndexError")
        return e
    if check:
        I.require(T.lt(e, n), "IndexError")
    return e


def slice_E(I, s, n):
    """-> start, length, step (step concrete int)"""
    step = 1 if s.step is None else I.concrete_int(s.step)
    if step == 0:
        raise PyExc("ValueError", "slice step cannot be zero")

    def bound(x, default, lo, hi):
        if x is None:
            return default
        if isinstance(x, Sc) and x.kind != "int":
            raise PyExc("TypeError", "slice indices must be integers")
        e = int_E(I, x)
        v = T.intval(e)
        neg_ = v < 0 if v is not None else not I.branch(ge0(e))
        if neg_:
            e = add(n, e)
            if not I.branch(T.ge(e, lo)):
                return lo
            return e
        if e is n and hi is n:
            return e
        if not I.branch(T.le(e, hi)):
            return hi
        return e

    if step > 0:
        a = bound(s.start, ZERO, ZERO, n)
        b = bound(s.stop, n, ZERO, n)
        d = sub(b, a)
        if T.intval(d) is not None:
            d = const(max(0, T.intval(d)))
        elif not (a is ZERO and b is n) and not I.branch(ge0(d)):
            d = ZERO
        if step != 1:
            d = T.floordiv(add(d, const(step - 1)), const(step))
        return a, d, step
    a = bound(s.start, sub(n, ONE), const(-1), sub(n, ONE))
    b = bound(s.stop, const(-1), const(-1), sub(n, ONE))
    d = sub(a, b)
    if T.intval(d) is not None:
        d = const(max(0, T.intval(d)))
    elif not I.branch(ge0(d)):
        d = ZERO
    if step != -1:
        d = T.floordiv(add(d, const(-step - 1)), const(-step))
    return a, d, step


def view_compose(a, ops):
    """ops per axis: ('fix', e) | ('sl', start, len, step) | ('new',)"""
    newshape = []
    axmap = {}
    ax = 0
    for o in ops:
        if o[0] == "new":
            newshape.append(ONE)
            continue
        if o[0] == "fix":
            axmap[ax] = ("fix", o[1])
        else:
            axmap[ax] = ("ax", len(newshape), o[1], o[3])
            newshape.append(o[2])
        ax += 1
    spec = []
    for s in a.spec:
        if s[0] == "fix":
            spec.append(s)
            continue
        _, axis, start, step = s
        m = axmap[axis]
        sc_ = (lambda e: e if step == 1 else T.scale(step, e))
        if m[0] == "fix":
            spec.append(("fix", add(start, sc_(m[1]))))
        else:
            spec.append(("ax", m[1], add(start, sc_(m[2])), step * m[3]))
    return Arr(newshape, a.st, spec)


def expand_key(I, a, k):
    """-> list of per-axis items; None for newaxis"""
    key = list(k) if isinstance(k, tuple) else [k]
    nax = 0
    for x in key:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.dtype == "b":
            nax += x.ndim
        else:
            nax += 1
    if Ellipsis in [x for x in key if not isinstance(x, (Arr, Sc))]:
        i = [j for j, x in enumerate(key) if x is Ellipsis][0]
        key = key[:i] + [slice(None)] * (a.ndim - nax) + key[i + 1:]
    else:
        if nax > a.ndim:
            raise PyExc("IndexError", "too many indices for array")
        key = key + [slice(None)] * (a.ndim - nax)
    return key


def is_adv(x):
    return isinstance(x, (list, tuple, SymList)) or isinstance(x, Arr) and x.ndim > 0


def getitem_nocheck(I, a, k):
    """a[k] for an index known to be valid (loop iteration)"""
    if a.ndim == 1:
        return mkelem(a.elem(k), a.dtype)
    return view_compose(a, [("fix", k)] + [("sl", ZERO, s, 1) for s in a.shape[1:]])


def basic_view(I, a, key):
    ops = []
    ax = 0
    for x in key:
        if x is None:
            ops.append(("new",))
            continue
        n = a.shape[ax]
        if isinstance(x, slice):
            s, d, st = slice_E(I, x, n)
            ops.append(("sl", s, d, st))
        else:
            ops.append(("fix", index_E(I, x, n)))
        ax += 1
    return view_compose(a, ops)


def getitem(I, a, k):
    if isinstance(k, str):
        raise PyExc("IndexError", "only integers, slices...")
    key = expand_key(I, a, k)
    if not any(is_adv(x) or (isinstance(x, bool)) for x in key):
        v = basic_view(I, a, key)
        if isinstance(a, Matrix):
            return mat_index(I, a, key, v)
        if v.ndim == 0 and not (isinstance(k, tuple) and Ellipsis in [x for x in k if not isinstance(x, (Arr, Sc))]):
            return mkelem(v.elem(), v.dtype)
        return v
    return fancy_get(I, a, key)


def adv_arrays(I, a, key):
    """normalise advanced keys: list of (kind, payload) per axis of a"""
    out = []
    ax = 0
    for x in key:
        if x is None:
            out.append(("new", None))
            continue
        n = a.shape[ax]
        if isinstance(x, slice):
            out.append(("sl", slice_E(I, x, n)))
            ax += 1
        elif is_adv(x):
            b = asarray(I, x)
            if isinstance(x, (list, tuple)) and getattr(x, 'sym', None) is None and len(x) == 0:
                b = mkarr((0,), "i", lambda i: ZERO)
            if b.dtype == "b":
                if b.ndim != 1:
                    raise Unsupported("multi-dimensional boolean mask")
                if not dims_equal(I, b.shape[0], n):
                    raise PyExc("IndexError", "boolean index did not match")
                out.append(("mask", (n, b)))
            elif b.dtype == "i":
                out.append(("idx", (n, b, check_bounds(I, b, n))))
            else:
                raise PyExc("IndexError", "arrays used as indices must be of integer type")
            ax += 1
        else:
            e = index_E(I, x, n)
            out.append(("int", (n, e)))
            ax += 1
    return out


def check_bounds(I, b, n):
    """index array -> element function with negative indices wrapped"""
    g = b.getter()
    vs = [T.fresh("q") for _ in b.shape]
    rng = and_(*[and_(ge0(v), T.lt(v, s)) for v, s in zip(vs, b.shape)])
    e = g(*vs)
    cx = I.path.cx.extend(rng)
    nonneg = cx.entails(ge0(e))
    if not (nonneg and cx.entails(T.lt(e, n))):
        ok = forall_over(b, lambda x: and_(T.lt(x, n), ge0(add(x, n))))
        I.require(ok, "IndexError")
    if nonneg:
        return g
    if cx.entails(T.lt(e, ZERO)):
        return lambda *i: add(g(*i), n)
    return lambda *i: ite(ge0(g(*i)), g(*i), add(g(*i), n))


def mask_fn(b):
    g = b.getter()
    return lambda k: ebool(g(k))


def mask_info(I, n, b):
    """-> count, nth element function"""
    mf = mask_fn(b)
    v = T.fresh("m")
    e = mf(v)
    if e is TRUE:
        return n, lambda r: r
    if e is FALSE:
        return ZERO, lambda r: ZERO
    cxv = I.path.cx.extend(and_(ge0(v), T.lt(v, n)))
    if cxv.entails(e):
        return n, lambda r: r
    if cxv.entails(not_(e)):
        return ZERO, lambda r: ZERO
    name = I_mod().get_nth(n, mf)
    return count_of(n, mf), lambda r: T.fn(name, r)


def fancy_get(I, a, key):
    items = adv_arrays(I, a, key)
    advpos = [j for j, it in enumerate(items) if it[0] in ("idx", "mask")]
    # integers mixed with advanced indices count as advanced
    allpos = [j for j, it in enumerate(items) if it[0] in ("idx", "mask", "int")]
    contiguous = all(y - x == 1 for x, y in zip(allpos, allpos[1:]))
    shapes, fns = [], []
    for j in advpos:
        kind, p = items[j]
        if kind == "idx":
            shapes.append(p[1].shape)
            fns.append(p[2])
        else:
            cnt, nth = mask_info(I, p[0], p[1])
            shapes.append((cnt,))
            fns.append(nth)
    shape, maps = bcast(I, *shapes)
    na = len(shape)
    out = []
    where = None
    if not contiguous:
        where = 0
        out.extend(shape)
    base = []  # per base axis: function(outidx)
    slots = []
    for j, it in enumerate(items):
        if it[0] in ("idx", "mask", "int"):
            if where is None:
                where = len(out)
                out.extend(shape)
        elif it[0] == "new":
            out.append(ONE)
            slots.append((j, None))
        else:
            slots.append((j, len(out)))
            out.append(it[1][1])
    slot = dict(slots)
    g = a.getter()

    def f(*idx):
        bi = []
        ai = 0
        for j, it in enumerate(items):
            if it[0] == "new":
                continue
            if it[0] == "int":
                bi.append(it[1][1])
            elif it[0] == "sl":
                s, d, st = it[1]
                i = idx[slot[j]]
                bi.append(add(s, T.scale(st, i)))
            else:
                sub_ = idx[where:where + na]
                bi.append(fns[ai](*maps[ai](sub_)))
                ai += 1
        return g(*bi)

    return mkarr(out, a.dtype, f)


def log_write(I, st):
    if st.frozen and not I.loading:
        raise Unsupported("write to module-level array")
    st.written = True
    if I.write_log is not None:
        I.write_log.append(st)


def write_view(I, view, value):
    """view[...] = value (Arr or scalar), shapes already compatible or broadcastable"""
    st = view.st
    v = asarray(I, value)
    shape = list(view.shape)
    vs = list(v.shape)
    gv = v.getter()
    if isinstance(v, Matrix) and view.ndim == 1 and v.ndim == 2:
        pass
    drop = 0
    while len(vs) > len(shape):
        if vs[0] is ONE or I.branch(T.eq(vs[0], ONE)):
            vs = vs[1:]
            drop += 1
        else:
            raise PyExc("ValueError", "could not broadcast input array")
    off = len(shape) - len(vs)
    how = []
    for ax in range(len(shape)):
        if ax < off:
            how.append("drop")
            continue
        d = vs[ax - off]
        if d is shape[ax]:
            how.append("id")
        elif d is ONE:
            how.append("zero")
        elif dims_equal(I, d, shape[ax]):
            how.append("id")
        elif I.branch(T.eq(d, ONE)):
            how.append("zero")
        else:
            raise PyExc("ValueError", "could not broadcast input array")
    log_write(I, st)
    d0, d1 = v.dtype, st.dtype
    if d1 == "o" or d0 == "o":
        raise Unsupported("object array write")
    if d0 == "c" and d1 != "c":
        if is_scalar(value):
            raise PyExc("TypeError", "can't convert complex to float")
        gc = gv
        gv = lambda *i: gc(*i)[0]
        d0 = "f"
    old = st.fn
    spec, bshape = view.spec, st.shape

    def new(*bi):
        conds = []
        vi = [ZERO] * len(shape)
        for b, s, n in zip(bi, spec, bshape):
            if s[0] == "fix":
                conds.append(T.eq(b, s[1]))
                continue
            _, axis, start, step = s
            if step == 1:
                i = sub(b, start)
                if not (start is ZERO):
                    conds.append(ge0(i))
                if not (start is ZERO and shape[axis] is n) and add(start, shape[axis]) is not n:
                    conds.append(T.lt(i, shape[axis]))
            elif step == -1:
                i = sub(start, b)
                conds.append(ge0(i))
                conds.append(T.lt(i, shape[axis]))
            else:
                q = sub(b, start) if step > 0 else sub(start, b)
                i = T.floordiv(q, const(abs(step)))
                conds += [eq0(T.mod(q, const(abs(step)))), ge0(i), T.lt(i, shape[axis])]
            vi[axis] = i
        c = and_(*conds)
        if c is FALSE:
            return old(*bi)
        src = [ZERO] * drop + [i if h == "id" else ZERO for i, h in zip(vi, how) if h != "drop"]
        x = V.convert(gv(*src), d0, d1)
        if c is TRUE:
            return x
        return eite(c, x, old(*bi))

    st.fn = memo_fn(new)


def setitem(I, a, k, value):
    key = expand_key(I, a, k)
    if not any(is_adv(x) or isinstance(x, bool) for x in key):
        write_view(I, basic_view(I, a, key), value)
        return
    items = adv_arrays(I, a, key)
    adv = [j for j, it in enumerate(items) if it[0] in ("idx", "mask")]
    if len(adv) != 1 or any(it[0] == "new" for it in items):
        raise Unsupported("assignment through several advanced indices")
    # full view first, then restrict by slices on the other axes
    j = adv[0]
    kind, p = items[j]
    n = a.shape[j]
    if kind == "mask":
        cnt, nth = mask_info(I, n, p[1])
        mf = mask_fn(p[1])
        sel_ = lambda i: (mf(i), count_of(i, mf) if cnt is not n else i)
    else:
        cnt = p[1].shape
        if len(cnt) != 1:
            raise Unsupported("assignment through n-d index")
        cnt = cnt[0]
        g = p[2]
        v0 = T.fresh("w")
        e = g(v0)
        inv = invert_index(I, e, v0, cnt)
        if inv is None:
            c = T.intval(cnt)
            if c is not None and c <= 16:
                # last write wins
                for q in range(c):
                    key2 = [key[x] if x != j else mkint(g(const(q))) for x in range(len(key))]
                    vv = asarray(I, value)
                    if vv.ndim == a.ndim and vv.ndim > 0 and dims_equal(I, vv.shape[j], cnt):
                        vq = getitem(I, vv, tuple([slice(None)] * j + [q]))
                    else:
                        vq = vv
                    setitem(I, a, tuple(key2), vq)
                return
            raise Unsupported("assignment through general index array")
        sel_ = inv
    # value broadcast against result shape
    oshape = []
    for it in items:
        if it[0] in ("idx", "mask"):
            oshape.append(cnt)
        elif it[0] == "sl":
            oshape.append(it[1][1])
    v = asarray(I, value)
    if v.ndim > len(oshape):
        raise Unsupported("assignment broadcasting")
    sh, maps = bcast(I, tuple(oshape), v.shape)
    if len(sh) != len(oshape) or not all(x is y or I.entails(T.eq(x, y)) for x, y in zip(sh, oshape)):
        raise PyExc("ValueError", "shape mismatch in assignment")
    gv, mp, d0 = v.getter(), maps[1], v.dtype
    old = a.getter()
    d1 = a.dtype

    def f(*idx):
        conds, vi = [], []
        for it, i in zip(items, idx):
            if it[0] in ("idx", "mask"):
                c, r = sel_(i)
                conds.append(c)
                vi.append(r)
            elif it[0] == "int":
                conds.append(T.eq(i, it[1][1]))
            else:
                s, d, st = it[1]
                if st != 1:
                    raise Unsupported("assignment: stepped slice with mask")
                r = sub(i, s)
                if s is not ZERO:
                    conds.append(ge0(r))
                conds.append(T.lt(r, d))
                vi.append(r)
        c = and_(*conds)
        x = V.convert(gv(*mp(vi)), d0, d1)
        return eite(c, x, old(*idx))

    tmp = mkarr(a.shape, d1, f)
    write_view(I, a, tmp)


def invert_index(I, e, v, cnt):
    """element function of a monotone index array -> membership and rank"""
    c, d = T._linparts(e)
    if v in d and abs(d[v]) == 1 and not any(v in t.fv for t in d if t is not v):
        q = d[v]
        rest = sub(e, T.scale(q, v))

        def inv(i):
            r = sub(i, rest) if q == 1 else sub(rest, i)
            return and_(ge0(r), T.lt(r, cnt)), r
        return inv
    if e.op == "fn" and e.args[0].startswith("nth#") and e.args[1] is v:
        n, mf = prover.NTH[e.args[0]]
        return lambda i: (mf(i), count_of(i, mf))
    return None


def mat_index(I, a, key, v):
    if v.ndim == 2:
        return Matrix(v.shape, v.st, v.spec)
    if v.ndim == 0:
        return mkelem(v.elem(), v.dtype)
    # a matrix stays two dimensional
    isint = [not isinstance(x, slice) and x is not None for x in key]
    if isint[0]:
        return Matrix((ONE,) + tuple(v.shape), v.st, [("fix", s[1]) if s[0] == "fix" else ("ax", s[1] + 1, s[2], s[3]) for s in v.spec])
    return Matrix(tuple(v.shape) + (ONE,), v.st, v.spec)


def getitem_other(I, o, k):
    if isinstance(o, PyType) or isinstance(o, Opaque) and o.what == "typing":
        return o
    if is_scalar(o):
        raise PyExc("TypeError" if not (isinstance(o, Sc) and o.np) else "IndexError", "not subscriptable")
    if o is None:
        raise PyExc("TypeError", "NoneType not subscriptable")
    if isinstance(o, Dia):
        raise PyExc("TypeError", "'dia_matrix' object is not subscriptable")
    if callable(getattr(o, "pygetitem", None)):
        return o.pygetitem(I, k)
    it = I_mod()
    if isinstance(o, it.SymRange):
        if isinstance(k, slice):
            raise Unsupported("slice of range")
        i = index_E(I, k, o.n)
        return mkint(add(o.lo, T.scale(o.step, i)))
    raise Unsupported("subscript of %r" % (o,))


# ------------------------------------------------------------------ attributes
METHODS = {}


def method(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def getattr_(I, o, name):
    it = I_mod()
    if isinstance(o, (Arr, Sc)) and not (isinstance(o, Sc) and not o.np):
        a = o
        if name == "shape":
            return tuple(mkint(s) for s in asarray(I, a).shape)
        if name == "T":
            return transpose(I, [a], {}) if isinstance(a, Arr) else a
        if name == "size":
            return mkint(size_E(asarray(I, a)))
        if name == "ndim":
            return asarray(I, a).ndim
        if name == "dtype":
            return Opaque("dtype", dtype_of(a))
        if name == "real":
            if isinstance(a, Arr) and a.dtype != "c":
                return a
            return np_real(I, [a], {})
        if name == "imag":
            return np_imag(I, [a], {})
        if name == "A" and isinstance(a, Matrix):
            return Arr(a.shape, a.st, a.spec)
        if name == "flat":
            return ravel(I, [a], {})
        f = METHODS.get(name)
        if f is not None:
            return Builtin("ndarray." + name, lambda I, args, kw: f(I, [a] + list(args), kw))
        raise Unsupported("ndarray attribute %s" % name)
    if is_scalar(o):
        if name == "real":
            return np_real(I, [o], {})
        if name == "imag":
            return np_imag(I, [o], {})
        if name == "conjugate":
            return Builtin("conjugate", lambda I, a, k: np_conj(I, [o], {}))
        if name == "is_integer" and isinstance(o, Sc) and o.kind == "real":
            return Builtin("is_integer", lambda I, a, k: mkbool(T.eq(T.fn("floor", o.re), o.re)))
        if name in ("shape", "T", "ndim", "size", "copy", "dtype", "min", "max", "ravel", "toarray", "astype", "reshape"):
            raise PyExc("AttributeError", name)
        raise Unsupported("number attribute %s" % name)
    if isinstance(o, Dia):
        return dia_attr(I, o, name)
    if isinstance(o, Sparse):
        if name in ("toarray", "todense"):
            return Builtin(name, lambda I, a, k: o.dense)
        if name == "shape":
            return tuple(mkint(s) for s in o.shape)
        raise Unsupported("sparse attribute %s" % name)
    if isinstance(o, it.PList):
        return list_attr(I, o, name)
    if isinstance(o, dict):
        if name == "keys":
            return Builtin("dict.keys", lambda I, a, k: it.PList(o.keys()))
        if name == "values":
            return Builtin("dict.values", lambda I, a, k: it.PList(o.values()))
        if name == "items":
            return Builtin("dict.items", lambda I, a, k: it.PList([(x, y) for x, y in o.items()]))
        if name == "get":
            return Builtin("dict.get", lambda I, a, k: o.get(I.hashable(a[0]), a[1] if len(a) > 1 else None))
        if name == "pop":
            def pop(I, a, k):
                kk = I.hashable(a[0])
                if kk in o:
                    I.log_slot(o, o, kk)
                    return o.pop(kk)
                if len(a) > 1:
                    return a[1]
                raise PyExc("KeyError")
            return Builtin("dict.pop", pop)
        if name == "update":
            def upd(I, a, k):
                if getattr(o, "frozen", False):
                    raise Unsupported("module-level dict update")
                for d in list(a) + [k]:
                    for kk, x in dict(d).items():
                        I.log_slot(o, o, kk)
                        o[kk] = x
            return Builtin("dict.update", upd)
        if name == "copy":
            return Builtin("dict.copy", lambda I, a, k: dict(o))
        if name == "setdefault":
            def setdef(I, a, k):
                kk = I.hashable(a[0])
                if kk not in o:
                    I.log_slot(o, o, kk)
                    o[kk] = a[1] if len(a) > 1 else None
                return o[kk]
            return Builtin("dict.setdefault", setdef)
        raise Unsupported("dict attribute %s" % name)
    if isinstance(o, str):
        def sm(I, a, k):
            if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in k.values()):
                return getattr(o, name)(*a, **k)
            if name in ("join",):
                its = I.iter_concrete(a[0])
                return o.join(x if isinstance(x, str) else "<?>" for x in its)
            return "<fmt>"
        if hasattr(o, name):
            return Builtin("str." + name, sm)
        raise PyExc("AttributeError", name)
    if isinstance(o, tuple):
        if name == "index":
            return Builtin("tuple.index", lambda I, a, k: o.index(a[0]))
        if name == "count":
            return Builtin("tuple.count", lambda I, a, k: o.count(a[0]))
    if isinstance(o, set):
        if name == "add":
            def sadd(I, a, k):
                if I.list_log is not None:
                    raise Unsupported("set modified in a symbolic loop")
                o.add(a[0])
            return Builtin("set.add", sadd)
    if isinstance(o, PyType):
        full = o.name + "." + name
        if full in LIB:
            return I.lib_attr(full)
        if o.name == "dict" and name == "fromkeys":
            return Builtin("dict.fromkeys", lambda I, a, k: {I.hashable(x): (a[1] if len(a) > 1 else None) for x in I.iter_concrete(a[0])})
        raise Unsupported("type attribute %s" % full)
    if o is None:
        raise PyExc("AttributeError", "NoneType." + name)
    if isinstance(o, Builtin):
        full = o.name + "." + name
        if full in LIB:
            return I.lib_attr(full)
        if name == "__name__":
            return o.name
        raise Unsupported("attribute %s of %r" % (name, o))
    if isinstance(o, (it.Func,)) and name in ("__name__", "__doc__"):
        return o.qual.split(".")[-1]
    if callable(getattr(o, "pyattr", None)):
        return o.pyattr(I, name)
    if isinstance(o, Opaque):
        if o.what == "exc" and name in ("args",):
            return ()
        raise Unsupported("attribute %s of %r" % (name, o))
    raise Unsupported("attribute %s of %r" % (name, o))


def list_attr(I, l, name):
    it = I_mod()

    def chk():
        I.log_list(l)

    def append(I, a, k):
        if I.list_log is not None:
            I.list_log.append(("append", l, a[0]))
            if l.sym is not None:
                raise Unsupported("append to symbolic list")
        if l.sym is not None:
            s = l.sym
            x = a[0]
            n0 = s.n
            old = s.fn
            if is_scalar(x):
                def g(i):
                    y = old(i)
                    return mkelem(eite(T.eq(i, n0), sc_elem(x), sc_elem(y)), V.promote(dtype_of(x), dtype_of(y)), np=False)
                l.sym = SymList(add(n0, ONE), g)
                return
            raise Unsupported("append to symbolic list")
        l.append(a[0])

    def extend(I, a, k):
        if l.sym is not None:
            raise Unsupported("extend symbolic list")
        chk()
        l.extend(I.iter_concrete(a[0]))

    def pop(I, a, k):
        if l.sym is not None:
            raise Unsupported("pop from symbolic list")
        chk()
        return l.pop(*[I.concrete_int(x) for x in a])

    def insert(I, a, k):
        if l.sym is not None:
            raise Unsupported("insert")
        chk()
        l.insert(I.concrete_int(a[0]), a[1])

    def copy(I, a, k):
        r = it.PList(l)
        r.sym = l.sym
        return r

    def reverse(I, a, k):
        if l.sym is not None:
            raise Unsupported("reverse")
        chk()
        l.reverse()

    d = dict(append=append, extend=extend, pop=pop, insert=insert, copy=copy, reverse=reverse,
             index=lambda I, a, k: l.index(a[0]), count=lambda I, a, k: l.count(a[0]))
    if name in d:
        return Builtin("list." + name, d[name])
    if hasattr(list, name):
        raise Unsupported("list.%s" % name)
    raise PyExc("AttributeError", name)


# ------------------------------------------------------------------ numpy functions
class NoVal:
    pass


def getargs(args, kw, *names):
    """names: 'x' required, ('x', default) optional"""
    out = []
    kw = dict(kw)
    if len(args) > len(names):
        raise PyExc("TypeError", "too many arguments")
    for i, n in enumerate(names):
        opt = isinstance(n, tuple)
        nm = n[0] if opt else n
        if i < len(args):
            if nm in kw:
                raise PyExc("TypeError", "multiple values")
            out.append(args[i])
        elif nm in kw:
            out.append(kw.pop(nm))
        elif opt:
            out.append(n[1])
        else:
            raise PyExc("TypeError", "missing argument " + nm)
    if kw:
        raise Unsupported("keyword argument %s" % sorted(kw)[0])
    return out


def shape_arg(I, s):
    if isinstance(s, (tuple, list)):
        r = [int_E(I, x) for x in (s.sym and [] or s if isinstance(s, list) else s)]
    elif isinstance(s, Arr):
        r = [int_E(I, x) for x in I.iter_concrete(s)]
    else:
        if isinstance(s, Sc) and s.kind == "real":
            raise PyExc("TypeError", "'float' object cannot be interpreted as an integer")
        r = [int_E(I, s)]
    for e in r:
        v = T.intval(e)
        if v is not None and v < 0:
            raise PyExc("ValueError", "negative dimensions are not allowed")
        if v is None and not I.branch(ge0(e)):
            raise PyExc("ValueError", "negative dimensions are not allowed")
    return tuple(r)


def const_arr(shape, dtype, x, cls=Arr):
    return mkarr(shape, dtype, lambda *i: x, cls=cls)


@lib("numpy.zeros")
def np_zeros(I, args, kw):
    s, dt = getargs(args, {k: v for k, v in kw.items() if k != "order"}, "shape", ("dtype", None))
    d = as_dtype(dt) or "f"
    return const_arr(shape_arg(I, s), d, _zero(d))


def _zero(d):
    return (ZERO, ZERO) if d == "c" else FALSE if d == "b" else ZERO


def _one(d):
    return (ONE, ZERO) if d == "c" else TRUE if d == "b" else ONE


@lib("numpy.ones")
def np_ones(I, args, kw):
    s, dt = getargs(args, kw, "shape", ("dtype", None))
    d = as_dtype(dt) or "f"
    return const_arr(shape_arg(I, s), d, _one(d))


_empty_ctr = [0]


@lib("numpy.empty")
def np_empty(I, args, kw):
    s, dt = getargs(args, kw, "shape", ("dtype", None))
    d = as_dtype(dt) or "f"
    return empty_arr(I, shape_arg(I, s), d)


def empty_arr(I, shape, d):
    """uninitialised storage: arbitrary contents"""
    if d == "o":
        raise Unsupported("object array")
    I.empty_ctr = getattr(I, "empty_ctr", 0) + 1
    nm = "empty#%d" % I.empty_ctr
    lv = list(getattr(I, "loop_vars", []))
    T.declare(nm, len(shape) + len(lv), "int" if d == "i" else "real")
    T.declare(nm + "i", len(shape) + len(lv), "real")

    def f(*i):
        x = T.sel(nm, *(list(lv) + list(i)))
        if d == "c":
            return (x, T.sel(nm + "i", *(list(lv) + list(i))))
        return T.ne(x, ZERO) if d == "b" else x
    return mkarr(shape, d, f)


@lib("numpy.full")
def np_full(I, args, kw):
    s, v, dt = getargs(args, kw, "shape", "fill_value", ("dtype", None))
    a = asarray(I, v)
    d = as_dtype(dt) or a.dtype
    sh = shape_arg(I, s)
    r = const_arr(sh, d, _zero(d))
    write_view(I, r, a)
    r.st.written = False
    return r


def _like(fill):
    def f(I, args, kw):
        if fill == "full":
            a, v, dt = getargs(args, {k: x for k, x in kw.items() if k not in ("subok", "order")}, "a", "fill_value", ("dtype", None))
        else:
            a, dt = getargs(args, {k: x for k, x in kw.items() if k not in ("subok", "order")}, "a", ("dtype", None))
        if isinstance(a, (Dia, Sparse)):
            raise Unsupported("like sparse")
        a = asarray(I, a)
        d = as_dtype(dt) or a.dtype
        cls = Matrix if isinstance(a, Matrix) else Arr
        if fill == "empty":
            return empty_arr(I, a.shape, d)
        if fill == "full":
            r = const_arr(a.shape, d, _zero(d))
            write_view(I, r, v)
            r.st.written = False
            return r
        return const_arr(a.shape, d, _zero(d) if fill == "zeros" else _one(d), cls)
    return f


for _n in ("zeros", "ones", "empty", "full"):
    LIB["numpy.%s_like" % _n] = _like(_n)


@lib("numpy.result_type", "numpy.promote_types", "numpy.find_common_type")
def np_result_type(I, args, kw):
    ds = []
    for a in args:
        if isinstance(a, Opaque) and a.what == "dtype":
            ds.append(a.data)
        elif isinstance(a, (PyType, str)):
            ds.append(as_dtype(a))
        elif isinstance(a, (Dia, Sparse)):
            ds.append(a.dtype if isinstance(a, Dia) else a.dense.dtype)
        else:
            ds.append(asarray(I, a).dtype)
    return Opaque("dtype", V.promote(*ds))


@lib("numpy.eye", "numpy.identity")
def np_eye(I, args, kw):
    n, m, k, dt = getargs(args, kw, "N", ("M", None), ("k", 0), ("dtype", None))
    d = as_dtype(dt) or "f"
    n = shape_arg(I, n)[0]
    m = n if m is None else shape_arg(I, m)[0]
    off = int_E(I, k)
    return mkarr((n, m), d, lambda i, j: V.convert(ite(T.eq(j, add(i, off)), ONE, ZERO), "i", d))


@lib("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.require", "numpy.atleast_1d_")
def np_array(I, args, kw):
    kw = {k: v for k, v in kw.items() if k not in ("order", "subok")}
    a, dt, copy = getargs(args, kw, "object", ("dtype", None), ("copy", True))
    d = as_dtype(dt)
    return asarray(I, a, d, copy=isinstance(a, Arr) and copy is not False and getattr(np_array, "_c", True))


def np_asarray(I, args, kw):
    kw = {k: v for k, v in kw.items() if k not in ("order",)}
    a, dt = getargs(args, kw, "a", ("dtype", None))
    r = asarray(I, a, as_dtype(dt))
    if isinstance(r, Matrix):
        r = Arr(r.shape, r.st, r.spec)
    return r


LIB["numpy.asarray"] = LIB["numpy.asanyarray"] = LIB["numpy.ascontiguousarray"] = np_asarray


@lib("numpy.atleast_1d")
def np_atleast_1d(I, args, kw):
    a = asarray(I, args[0])
    return reshape_newaxis(a, 1)


@lib("numpy.atleast_2d")
def np_atleast_2d(I, args, kw):
    return reshape_newaxis(asarray(I, args[0]), 2)


def reshape_newaxis(a, nd):
    if a.ndim >= nd:
        return a
    return view_compose(a, [("new",)] * (nd - a.ndim) + [("sl", ZERO, s, 1) for s in a.shape])


@lib("numpy.arange")
def np_arange(I, args, kw):
    kw = dict(kw)
    dt = as_dtype(kw.pop("dtype", None))
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
        if "step" in kw:
            st = kw["step"]
    else:
        lo, hi, st = getargs(args, kw, "start", "stop", ("step", 1))
    lo, hi, st = [mkelem(x.elem(), x.dtype) if isinstance(x, Arr) and x.ndim == 0 else x for x in (lo, hi, st)]
    d = V.promote(dtype_of(lo), dtype_of(hi), dtype_of(st))
    if d == "b":
        d = "i"
    lo, hi, st = [num(sc_elem(x)) for x in (lo, hi, st)]
    if d == "i":
        diff = sub(hi, lo)
        c = T.intval(st)
        if c is None:
            raise Unsupported("arange with symbolic integer step")
        if c == 1:
            n = _max0(I, diff)
        elif c == -1:
            n = _max0(I, neg(diff))
        elif c > 0:
            n = T.floordiv(add(_max0(I, diff), const(c - 1)), st)
        else:
            n = T.floordiv(add(_max0(I, neg(diff)), const(-c - 1)), const(-c))
    else:
        n = _max0(I, T.fn("ceil", T.div(sub(hi, lo), st)))
    return mkarr((n,), dt or d, lambda i: V.convert(add(lo, mul(i, st)), d, dt or d))


@lib("numpy.linspace")
def np_linspace(I, args, kw):
    a, b, n, endp = getargs(args, {k: v for k, v in kw.items() if k not in ("dtype", "axis")}, "start", "stop", ("num", 50), ("endpoint", True))
    n = shape_arg(I, n)[0]
    A, B = asarray(I, a), asarray(I, b)
    div = sub(n, ONE) if endp else n
    sh, mp = bcast(I, A.shape, B.shape)
    ga, gb = A.getter(), B.getter()
    if endp and (T.intval(n) == 1 or (T.intval(n) is None and not I.branch(T.gt(n, ONE)))):
        return mkarr((n,) + sh, "f", lambda i, *r: num(ga(*mp[0](r))))

    def f(i, *r):
        x, y = num(ga(*mp[0](r))), num(gb(*mp[1](r)))
        return add(x, mul(i, T.div(sub(y, x), div)))
    return mkarr((n,) + sh, "f", f)


# --- elementwise functions
def ufunc1(name, f, dt=dt_float, cplx_f=None):
    def g(I, args, kw):
        kw = {k: v for k, v in kw.items() if k not in ("out",)} if kw.get("out", 1) is None else kw
        if kw and set(kw) - {"dtype"}:
            raise Unsupported("ufunc keyword")
        (x,) = args

        def h(e):
            if isC(e):
                if cplx_f is None:
                    raise Unsupported("complex " + name)
                return cplx_f(e)
            return f(num(e))
        return elementwise(I, h, dt, x)
    LIB["numpy." + name] = g
    return g


ufunc1("sin", lambda x: T.fn("sin", x))
ufunc1("cos", lambda x: T.fn("cos", x))
ufunc1("tan", lambda x: T.fn("tan", x))
ufunc1("exp", lambda x: T.fn("exp", x), cplx_f=lambda z: (mul(T.fn("exp", z[0]), T.fn("cos", z[1])), mul(T.fn("exp", z[0]), T.fn("sin", z[1]))))
ufunc1("log", lambda x: T.fn("log", x))
ufunc1("log10", lambda x: T.fn("log10", x))
ufunc1("arctan", lambda x: T.fn("arctan", x))
ufunc1("sqrt", lambda x: T.fn("sqrt", x))
ufunc1("floor", lambda x: T.fn("floor", x), dt="f")
ufunc1("ceil", lambda x: T.fn("ceil", x), dt="f")
ufunc1("deg2rad", lambda x: mul(x, T.PI, const(Fraction(1, 180))))
ufunc1("square", lambda x: T.powi(x, 2), dt=dt_arith, cplx_f=lambda z: emul(z, z))
ufunc1("negative", lambda x: neg(x), dt=dt_arith, cplx_f=eneg)
ufunc1("sign", lambda x: ite(gt0(x), ONE, ite(T.lt(x, ZERO), const(-1), ZERO)), dt=dt_arith)
ufunc1("isnan", lambda x: T.bfn("isnan", x), dt="b")
ufunc1("reciprocal", lambda x: T.powi(x, -1), dt=dt_float)
ufunc1("logical_not", lambda x: eq0(x), dt="b")


def eabs(e):
    if isC(e):
        return T.fn("sqrt", add(T.powi(e[0], 2), T.powi(e[1], 2)))
    e = num(e)
    return T.fn("abs", e)


@lib("numpy.abs", "numpy.absolute", "numpy.fabs")
def np_abs(I, args, kw):
    if len(args) == 1 and isinstance(args[0], int):
        return abs(args[0])
    if isinstance(args[0], Sc) and args[0].im is None and I.path.cx.entails(ge0(num(args[0].re))):
        return args[0]
    return elementwise(I, eabs, lambda d: "f" if d == "c" else dt_arith(d), args[0])


@lib("numpy.real", )
def np_real(I, args, kw):
    x = asarray(I, args[0])
    if x.dtype == "c":
        return elementwise(I, lambda z: z[0], "f", args[0])
    return args[0] if isinstance(args[0], (Arr, Sc)) else unwrap0(x)


@lib("numpy.imag")
def np_imag(I, args, kw):
    return elementwise(I, lambda z: z[1] if isC(z) else ZERO, lambda d: "f" if d == "c" else d, args[0])


@lib("numpy.conj", "numpy.conjugate")
@method("conj", "conjugate")
def np_conj(I, args, kw):
    return elementwise(I, lambda z: (z[0], neg(z[1])) if isC(z) else num(z), dt_arith, args[0])


@lib("numpy.angle")
def np_angle(I, args, kw):
    return elementwise(I, lambda z: T.fn("atan2", z[1], z[0]) if isC(z) else T.fn("atan2", ZERO, num(z)), "f", args[0])


def ufunc2(name, op):
    def g(I, args, kw):
        if kw:
            raise Unsupported("ufunc keyword")
        a, b = args
        a = a if not isinstance(a, (list, tuple)) else asarray(I, a)
        b = b if not isinstance(b, (list, tuple)) else asarray(I, b)
        r = binop(I, op, a, b)
        if isinstance(r, (int, bool)) and not isinstance(r, bool):
            return r
        return r
    LIB["numpy." + name] = g


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("divide", "Div"), ("true_divide", "Div"), ("mod", "Mod"), ("remainder", "Mod"), ("power", "Pow"), ("floor_divide", "FloorDiv"), ("bitwise_or", "BitOr"), ("bitwise_and", "BitAnd")):
    ufunc2(_n, _o)


@lib("numpy.multiply")
def np_multiply(I, args, kw):
    a, b = [Arr(x.shape, x.st, x.spec) if isinstance(x, Matrix) else asarray(I, x) if isinstance(x, (list, tuple)) else x for x in args]
    return binop(I, "Mult", a, b)


def cmp2(name, op):
    def g(I, args, kw):
        return elementwise(I, _cmp(op), "b", *args)
    LIB["numpy." + name] = g


for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
    cmp2(_n, _o)


@lib("numpy.logical_and")
def np_land(I, args, kw):
    return elementwise(I, lambda x, y: and_(ebool(x), ebool(y)), "b", *args)


@lib("numpy.logical_or")
def np_lor(I, args, kw):
    return elementwise(I, lambda x, y: or_(ebool(x), ebool(y)), "b", *args)


@lib("numpy.arctan2")
def np_arctan2(I, args, kw):
    return elementwise(I, lambda y, x: T.fn("atan2", num(y), num(x)), "f", *args)


@lib("numpy.hypot")
def np_hypot(I, args, kw):
    return elementwise(I, lambda y, x: T.fn("sqrt", add(T.powi(num(y), 2), T.powi(num(x), 2))), "f", *args)


@lib("numpy.maximum")
def np_maximum(I, args, kw):
    return elementwise(I, lambda x, y: ite(T.ge(num(x), num(y)), num(x), num(y)), dt_arith, *args)


@lib("numpy.minimum")
def np_minimum(I, args, kw):
    return elementwise(I, lambda x, y: ite(T.le(num(x), num(y)), num(x), num(y)), dt_arith, *args)


@lib("numpy.where")
def np_where(I, args, kw):
    if len(args) == 1:
        return np_nonzero(I, args, kw)
    return elementwise(I, lambda c, x, y: eite(ebool(c), x, y), lambda c, x, y: V.promote(x, y), *args)


@lib("numpy.nonzero", "numpy.flatnonzero")
@method("nonzero")
def np_nonzero(I, args, kw):
    a = asarray(I, args[0])
    if a.ndim != 1:
        raise Unsupported("nonzero of n-d array")
    g = a.getter()
    b = mkarr(a.shape, "b", lambda i: ebool(g(i)))
    cnt, nth = mask_info(I, a.shape[0], b)
    return (mkarr((cnt,), "i", nth),)


def np_flatnonzero(I, args, kw):
    return np_nonzero(I, args, kw)[0]


LIB["numpy.flatnonzero"] = np_flatnonzero


@lib("numpy.clip")
@method("clip")
def np_clip(I, args, kw):
    kw = {("min" if k == "a_min" else "max" if k == "a_max" else k): v for k, v in kw.items()}
    a, lo, hi = getargs(args, kw, "a", "min", "max")

    def f(x, *b):
        r = num(x)
        j = 0
        if lo is not None:
            r = ite(T.lt(r, num(b[j])), num(b[j]), r)
            j += 1
        if hi is not None:
            r = ite(T.gt(r, num(b[j])), num(b[j]), r)
        return r
    return elementwise(I, f, dt_arith, a, *[x for x in (lo, hi) if x is not None])


# --- reductions
def norm_axis(I, ax, nd):
    if ax is None:
        return None
    ax = I.concrete_int(ax)
    if ax < -nd or ax >= nd:
        raise PyExc("ValueError", "axis out of bounds")
    return ax % nd


def reduce_(I, a, axis, red, dtype, empty_ok=True, keepdims=False):
    """red(lo, hi, f) over E-> elem"""
    g = a.getter()
    if axis is None:
        if not empty_ok:
            for s in a.shape:
                I.require(gt0(s), "ValueError", "zero-size array to reduction operation")
        if a.ndim == 0:
            return mkelem(red(ZERO, ONE, lambda k: g()), dtype)

        def rec(ax, idx):
            return red(ZERO, a.shape[ax], (lambda k: g(*(idx + [k]))) if ax == a.ndim - 1 else (lambda k: rec(ax + 1, idx + [k])))
        r = rec(0, [])
        if keepdims:
            return mkarr((ONE,) * a.ndim, dtype, lambda *i: r)
        return mkelem(r, dtype)
    n = a.shape[axis]
    if not empty_ok:
        I.require(gt0(n), "ValueError", "zero-size array to reduction operation")
    if keepdims:
        return mkarr(a.shape[:axis] + (ONE,) + a.shape[axis + 1:], dtype, lambda *i: red(ZERO, n, lambda k: g(*(list(i[:axis]) + [k] + list(i[axis + 1:])))))
    sh = a.shape[:axis] + a.shape[axis + 1:]
    f = lambda *i: red(ZERO, n, lambda k: g(*(list(i[:axis]) + [k] + list(i[axis:]))))
    if not sh:
        return mkelem(f(), dtype)
    return mkarr(sh, dtype, f)


@lib("numpy.sum")
@method("sum")
def np_sum(I, args, kw):
    a, axis, dt, out, keep = getargs(args, kw, "a", ("axis", None), ("dtype", None), ("out", None), ("keepdims", False))
    if isinstance(a, (Dia, Sparse)):
        raise Unsupported("sum of sparse")
    a = asarray(I, a)
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    d = as_dtype(dt) or dt_arith(a.dtype)
    return reduce_(I, a, norm_axis(I, axis, a.ndim), lambda lo, hi, f: esum(lo, hi, f), d, keepdims=keep)


def mean_arr(I, a, axis, keep=False):
    n = size_E(a) if axis is None else a.shape[axis]
    s = reduce_(I, a, axis, lambda lo, hi, f: esum(lo, hi, f), dt_float(a.dtype), keepdims=keep)
    return elementwise(I, lambda x: ediv(x, n), dt_float(a.dtype), s)


@lib("numpy.mean")
@method("mean")
def np_mean(I, args, kw):
    a, axis, dt, out, keep = getargs(args, kw, "a", ("axis", None), ("dtype", None), ("out", None), ("keepdims", False))
    a = asarray(I, a)
    axis = norm_axis(I, axis, a.ndim)
    r = mean_arr(I, a, axis, keep)
    if as_dtype(dt) == "c":
        return elementwise(I, lambda x: cplx(x), "c", r)
    return r


@lib("numpy.average")
def np_average(I, args, kw):
    if len(args) == 1 and not set(kw) - {"axis"}:
        return np_mean(I, args, kw)
    raise Unsupported("weighted average")


def var_arr(I, a, axis, ddof):
    m = mean_arr(I, a, axis, keep=True)
    dev = elementwise(I, lambda x, y: _sq(esub(x, y)), "f", a, m, want_arr=True)
    n = size_E(a) if axis is None else a.shape[axis]
    s = reduce_(I, dev, axis, lambda lo, hi, f: esum(lo, hi, f), "f")
    den = sub(n, num(sc_elem(ddof)))
    return elementwise(I, lambda x: ediv(x, den), "f", s)


def _sq(z):
    if isC(z):
        return add(T.powi(z[0], 2), T.powi(z[1], 2))
    return T.powi(num(z), 2)


@lib("numpy.var")
@method("var")
def np_var(I, args, kw):
    a, axis, dt, out, ddof = getargs(args, kw, "a", ("axis", None), ("dtype", None), ("out", None), ("ddof", 0))
    a = asarray(I, a)
    return var_arr(I, a, norm_axis(I, axis, a.ndim), ddof)


@lib("numpy.std")
@method("std")
def np_std(I, args, kw):
    return elementwise(I, lambda x: T.fn("sqrt", num(x)), "f", np_var(I, args, kw))


@lib("numpy.cov")
def np_cov(I, args, kw):
    m, y, rowvar, bias, ddof = getargs(args, kw, "m", ("y", None), ("rowvar", True), ("bias", False), ("ddof", None))
    if y is not None or (ddof is not None and I.concrete_int(ddof) != 1) or bias is not False:
        raise Unsupported("cov options")
    a = asarray(I, m)
    if a.ndim > 2:
        raise PyExc("ValueError", "m has more than 2 dimensions")
    if a.dtype == "c":
        raise Unsupported("complex cov")
    if a.ndim < 2:
        a = reshape_newaxis(a, 2)
        g = a.getter()
        tr = False
    else:
        rv = rowvar if isinstance(rowvar, (bool, int)) else I.truth(rowvar)
        g = a.getter()
        tr = not rv and not (T.intval(a.shape[0]) == 1 or (T.intval(a.shape[0]) is None and I.branch(T.eq(a.shape[0], ONE))))
    if tr:
        g0 = g
        g = lambda i, j: g0(j, i)
        nv, ns = a.shape[1], a.shape[0]
    else:
        nv, ns = a.shape
    mean = memo_fn(lambda i: T.div(T.sum_(ZERO, ns, lambda k: num(g(i, k))), ns))

    def f(i, j):
        return T.div(T.sum_(ZERO, ns, lambda k: mul(sub(num(g(i, k)), mean(i)), sub(num(g(j, k)), mean(j)))), sub(ns, ONE))
    r = mkarr((nv, nv), "f", f)
    if nv is ONE:
        return mkarr((), "f", lambda: f(ZERO, ZERO))
    return r


def _minmax(kind):
    def g(I, args, kw):
        a, axis, out, keep = getargs(args, kw, "a", ("axis", None), ("out", None), ("keepdims", False))
        if isinstance(a, list) and kind and all(isinstance(x, int) for x in a) and a:
            return min(a) if kind == "min" else max(a)
        a = asarray(I, a)

        def red(lo, hi, f):
            n = T.intval(sub(hi, lo))
            if n is not None and n <= 4:
                r = num(f(lo))
                for q in range(1, n):
                    x = num(f(add(lo, const(q))))
                    r = ite(T.le(x, r), x, r) if kind == "min" else ite(T.ge(x, r), x, r)
                return r
            return T.minmax(kind, lo, hi, lambda k: num(f(k)))
        if a.dtype == "c":
            raise Unsupported("min of complex")
        if a.dtype == "b":
            q = T.forall if kind == "min" else T.exists
            return reduce_(I, a, norm_axis(I, axis, a.ndim), lambda lo, hi, f: q(lo, hi, lambda k: ebool(f(k))), "b", empty_ok=False, keepdims=keep)
        if a.ndim == 1 and not keep and is_sorted(I, a):
            # ascending: the extremes are the ends
            e = a.getter()
            ends = (lambda lo, hi, f: num(f(lo))) if kind == "min" else (lambda lo, hi, f: num(f(sub(hi, ONE))))
            return reduce_(I, a, norm_axis(I, axis, 1), ends, a.dtype, empty_ok=False, keepdims=False)
        return reduce_(I, a, norm_axis(I, axis, a.ndim), red, a.dtype, empty_ok=False, keepdims=keep)
    LIB["numpy." + kind] = LIB["numpy.a" + kind] = g
    METHODS[kind] = g


_minmax("min")
_minmax("max")


@lib("numpy.any")
@method("any")
def np_any(I, args, kw):
    a, axis = getargs(args, kw, "a", ("axis", None))
    a = asarray(I, a)
    r = reduce_(I, a, norm_axis(I, axis, a.ndim), lambda lo, hi, f: T.exists(lo, hi, lambda k: ebool(f(k))), "b")
    return _npbool(r)


def _npbool(r):
    if isinstance(r, bool):
        return r
    return r


@lib("numpy.all")
@method("all")
def np_all(I, args, kw):
    a, axis = getargs(args, kw, "a", ("axis", None))
    a = asarray(I, a)
    return reduce_(I, a, norm_axis(I, axis, a.ndim), lambda lo, hi, f: T.forall(lo, hi, lambda k: ebool(f(k))), "b")


@lib("numpy.cumsum")
@method("cumsum")
def np_cumsum(I, args, kw):
    a, axis = getargs(args, kw, "a", ("axis", None))
    a = asarray(I, a)
    if a.ndim != 1:
        if axis is None:
            raise Unsupported("cumsum of n-d")
        axis = norm_axis(I, axis, a.ndim)
    else:
        axis = 0
    g = a.getter()
    return mkarr(a.shape, dt_arith(a.dtype), lambda *i: esum(ZERO, add(i[axis], ONE), lambda k: g(*(list(i[:axis]) + [k] + list(i[axis + 1:])))))


@lib("numpy.prod", "numpy.product")
@method("prod")
def np_prod(I, args, kw):
    a, axis = getargs(args, kw, "a", ("axis", None))
    if axis is not None:
        raise Unsupported("prod axis")
    items = I.iter_concrete(a)
    r = 1
    for x in items:
        r = binop(I, "Mult", r, x)
    if isinstance(r, int):
        return Sc("int", const(r), np=True) if False else r
    return r


def ss_name(n, elemf, side):
    v = T.var("@s")
    key = (n, elemf(v), side)
    nm = _ss.get(key)
    if nm is None:
        nm = "ss#%d" % len(_ss)
        _ss[key] = nm
        ef = lambda k, body=key[1]: T.subst(body, {v: k})
        prover.SSF[nm] = (n, ef, side)
        evalnum.SS[nm] = (n, ef, side)
    return nm


_ss = {}


@lib("numpy.searchsorted")
@method("searchsorted")
def np_searchsorted(I, args, kw):
    a, v, side, sorter = getargs(args, kw, "a", "v", ("side", "left"), ("sorter", None))
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    a = asarray(I, a)
    g = a.getter()
    nm = ss_name(a.shape[0], lambda k: num(g(k)), side)
    # the model is valid for ascending arrays only
    if not is_sorted(I, a):
        raise Unsupported("searchsorted on an array not known to be sorted")
    return elementwise(I, lambda x: T.fn(nm, num(x)), "i", v)


def is_sorted(I, a):
    g = a.getter()
    k = T.fresh("so")
    cx = I.path.cx.extend(and_(ge0(k), T.lt(add(k, ONE), a.shape[0])))
    a0, a1 = num(g(k)), num(g(add(k, ONE)))
    if ghost_ascends(I, a0, a1, cx):
        return True
    return cx.entails(T.le(a0, a1)) or nonneg(sub(a1, a0), cx)


def ghost_ascends(I, a0, a1, cx):
    """neighbours along the first axis of a ghost array whose definition ascends along it"""
    if not (isinstance(a0, T.E) and a0.op == a1.op == "sel" and a0.args[0] == a1.args[0] and a0.args[2:] == a1.args[2:]):
        return False
    for name, shape, elem, _ in I.cuts:
        if name == a0.args[0]:
            memo = I.ascending
            if name not in memo:
                ix = [T.fresh("q") for _ in shape]
                base = prover.Cx(tuple(I.base_hyps)).extend(*[c for v, n in zip(ix, shape) for c in (ge0(v), T.lt(v, n))], T.lt(add(ix[0], ONE), shape[0]))
                memo[name] = nonneg(sub(T.lift(elem(add(ix[0], ONE), *ix[1:])), T.lift(elem(*ix))), base)
            return memo[name] and cx.entails(and_(ge0(a0.args[1]), T.le(a0.args[1], a1.args[1]), T.lt(a1.args[1], shape[0])))
    return False


def nonneg(d, cx):
    """d >= 0 after taking out common positive factors"""
    try:
        p = prover.norm(d, cx)
    except Exception:
        return False
    if not p or any(gd is not TRUE for gd, _ in p):
        return not p
    common = None
    for _, fs in p:
        f = dict(fs)
        common = f if common is None else {a: min(x, f[a], key=abs) for a, x in common.items() if a in f and (f[a] > 0) == (x > 0)}
    common = {a: x for a, x in common.items() if cx.entails(gt0(a))}
    if not common:
        return False
    r = ZERO
    for (_, fs), c in p.items():
        t = const(c)
        for a, x in fs:
            if x != common.get(a, 0):
                t = mul(t, T.powi(a, x - common.get(a, 0)))
        r = add(r, t)
    return cx.entails(ge0(r))


_perm = {}


def perm_name(n, elemf):
    """the permutation that sorts elemf(0..n-1)"""
    v = T.var("@p")
    key = (n, elemf(v))
    nm = _perm.get(key)
    if nm is None:
        nm = "perm#%d" % len(_perm)
        _perm[key] = nm
        body = key[1]
        T.declare(nm, 1, "int", perm=(n, lambda k: T.subst(body, {v: k})))
    return nm


@lib("numpy.argsort")
@method("argsort")
def np_argsort(I, args, kw):
    (a,) = getargs(args, {k: v for k, v in kw.items() if k != "kind"}, "a")
    a = asarray(I, a)
    if a.ndim != 1:
        raise Unsupported("argsort n-d")
    g = a.getter()
    nm = perm_name(a.shape[0], lambda k: num(g(k)))
    p = mkarr(a.shape, "i", lambda i: T.sel(nm, i))
    return p


@lib("numpy.diff")
def np_diff(I, args, kw):
    (a,) = getargs(args, kw, "a")
    a = asarray(I, a)
    g = a.getter()
    return mkarr(a.shape[:-1] + (_max0(I, sub(a.shape[-1], ONE)),), a.dtype, lambda *i: esub(g(*(list(i[:-1]) + [add(i[-1], ONE)])), g(*i)))


# ------------------------------------------------------------------ shape manipulation
@lib("numpy.transpose")
@method("transpose")
def transpose(I, args, kw):
    a = args[0]
    axes = args[1] if len(args) > 1 else kw.get("axes")
    if axes is not None and not isinstance(axes, (tuple, list)):
        axes = args[1:]
    if isinstance(a, (Dia, Sparse)):
        return dia_attr(I, a, "T")
    a = asarray(I, a)
    n = a.ndim
    p = [n - 1 - i for i in range(n)] if axes is None else [I.concrete_int(x) % n for x in axes]
    inv = {old: new for new, old in enumerate(p)}
    spec = [s if s[0] == "fix" else ("ax", inv[s[1]], s[2], s[3]) for s in a.spec]
    cls = Matrix if isinstance(a, Matrix) else Arr
    return cls([a.shape[i] for i in p], a.st, spec)


def flat_index(shape, flat):
    """C-order unravel"""
    idx = []
    for s in reversed(shape[1:]):
        idx.append(T.mod(flat, s))
        flat = T.floordiv(flat, s)
    idx.append(flat)
    return list(reversed(idx))


@lib("numpy.ravel")
@method("ravel", "flatten")
def ravel(I, args, kw):
    a = asarray(I, args[0])
    if a.ndim == 1:
        return a if not isinstance(a, Matrix) else a
    if a.ndim == 0:
        return reshape_newaxis(a, 1)
    return do_reshape(I, a, (size_E(a),))


@lib("numpy.reshape")
@method("reshape")
def np_reshape(I, args, kw):
    a = asarray(I, args[0])
    kw = {k: v for k, v in kw.items() if k != "order"}
    s = args[1] if len(args) == 2 else args[1:] if len(args) > 2 else kw.get("newshape", kw.get("shape"))
    if not isinstance(s, (tuple, list)):
        s = (s,)
    es = [int_E(I, x) for x in s]
    unk = [i for i, e in enumerate(es) if T.intval(e) == -1]
    if unk:
        rest = mul(*([e for i, e in enumerate(es) if i not in unk] or [ONE]))
        es[unk[0]] = T.floordiv(size_E(a), rest)
    return do_reshape(I, a, tuple(es))


def do_reshape(I, a, es):
    prod = mul(*es) if es else ONE
    I.require(T.eq(prod, size_E(a)), "ValueError", "cannot reshape array")
    # removal / insertion of unit axes keeps a view
    old = [s for s in a.shape if s is not ONE]
    new = [s for s in es if s is not ONE]
    g = a.getter()
    if len(old) == len(new) and all(x is y or I.entails(T.eq(x, y)) for x, y in zip(old, new)):
        ops = []
        v = a
        spec_axes = [i for i, s in enumerate(a.shape) if s is not ONE]
        tgt = [i for i, s in enumerate(es) if s is not ONE]
        m = dict(zip(spec_axes, tgt))
        spec = []
        for s in a.spec:
            if s[0] == "fix":
                spec.append(s)
            elif s[1] in m:
                spec.append(("ax", m[s[1]], s[2], s[3]))
            else:
                spec.append(("fix", s[2]))
        return Arr(es, a.st, spec)
    shape = a.shape

    def f(*i):
        flat = i[0]
        for s, x in zip(es[1:], i[1:]):
            flat = add(mul(flat, s), x)
        if not i:
            flat = ZERO
        # outer axis preserved: avoid division
        return g(*flat_index(shape, flat))
    if len(es) == len(shape) + 1 and False:
        pass
    return mkarr(es, a.dtype, f)


@lib("numpy.squeeze")
@method("squeeze")
def np_squeeze(I, args, kw):
    a = asarray(I, args[0])
    if kw or len(args) > 1:
        raise Unsupported("squeeze axis")
    keep = []
    for i, s in enumerate(a.shape):
        if s is ONE:
            continue
        if T.intval(s) is None and I.branch(T.eq(s, ONE)):
            continue
        keep.append(i)
    m = {ax: j for j, ax in enumerate(keep)}
    spec = []
    for s in a.spec:
        if s[0] == "fix":
            spec.append(s)
        elif s[1] in m:
            spec.append(("ax", m[s[1]], s[2], s[3]))
        else:
            spec.append(("fix", s[2]))
    if isinstance(a, Matrix):
        return a
    return Arr([a.shape[i] for i in keep], a.st, spec)


@lib("numpy.expand_dims")
def np_expand_dims(I, args, kw):
    a, ax = getargs(args, kw, "a", "axis")
    a = asarray(I, a)
    ax = I.concrete_int(ax) % (a.ndim + 1)
    ops = [("sl", ZERO, s, 1) for s in a.shape]
    ops.insert(ax, ("new",))
    return view_compose(a, ops)


@method("copy")
def nd_copy(I, args, kw):
    a = asarray(I, args[0])
    return mkarr(a.shape, a.dtype, a.getter(), cls=Matrix if isinstance(a, Matrix) else Arr)


@lib("numpy.copy")
def np_copy(I, args, kw):
    return nd_copy(I, args[:1], {})


@method("astype")
def nd_astype(I, args, kw):
    a = asarray(I, args[0])
    d = as_dtype(args[1] if len(args) > 1 else kw["dtype"])
    g, d0 = a.getter(), a.dtype
    return mkarr(a.shape, d, lambda *i: V.convert(g(*i), d0, d))


@method("tolist")
def nd_tolist(I, args, kw):
    a = args[0]
    it = I_mod()
    n = T.intval(a.shape[0]) if a.ndim else None
    if n is not None and a.ndim == 1:
        return it.PList([_unnp(mkelem(a.elem(const(i)), a.dtype)) for i in range(n)])
    if a.ndim == 1:
        g, d = a.getter(), a.dtype
        r = it.PList()
        r.sym = SymList(a.shape[0], lambda i: _unnp(mkelem(g(i), d)))
        return r
    raise Unsupported("tolist")


def _unnp(s):
    return Sc(s.kind, s.re, s.im) if isinstance(s, Sc) else s


@method("item")
def nd_item(I, args, kw):
    a = asarray(I, args[0])
    if len(args) > 1:
        return _unnp(getitem(I, a, tuple(args[1:])))
    I.require(T.eq(size_E(a), ONE), "ValueError")
    return _unnp(mkelem(a.elem(*[ZERO] * a.ndim), a.dtype))


@method("fill")
def nd_fill(I, args, kw):
    write_view(I, args[0], args[1])


def concat(I, arrs, axis):
    arrs = [asarray(I, a) for a in arrs]
    if not arrs:
        raise PyExc("ValueError", "need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise PyExc("ValueError", "zero-dimensional arrays cannot be concatenated")
    for a in arrs:
        if a.ndim != nd:
            raise PyExc("ValueError", "all the input array dimensions must match")
    if axis < -nd or axis >= nd:
        raise PyExc("ValueError", "axis out of bounds")
    axis %= nd
    shape = list(arrs[0].shape)
    for a in arrs[1:]:
        for d in range(nd):
            if d != axis:
                I.require(T.eq(shape[d], a.shape[d]), "ValueError", "concatenation dimensions")
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], a.shape[axis]))
    shape[axis] = offs[-1]
    # numpy: empty float arrays still promote the dtype
    d = V.promote(*[a.dtype for a in arrs])
    gs = [(a.getter(), a.dtype) for a in arrs]
    parts = [j for j, a in enumerate(arrs) if a.shape[axis] is not ZERO] or [0]

    def f(*i):
        k = i[axis]

        def at(j):
            ii = list(i)
            ii[axis] = sub(k, offs[j])
            return V.convert(gs[j][0](*ii), gs[j][1], d)
        e = None
        for j in reversed(parts):
            if e is None:
                e = at(j)
                continue
            c = T.lt(k, offs[j + 1])
            if c is TRUE:
                e = at(j)
            elif c is not FALSE:
                e = eite(c, at(j), e)
        return e

    return mkarr(shape, d, f)


def seq_of(I, x):
    if isinstance(x, Arr):
        return I.iter_concrete(x)
    return I.iter_concrete(x)


@lib("numpy.concatenate")
def np_concatenate(I, args, kw):
    x, axis = getargs(args, kw, "arrays", ("axis", 0))
    l = seq_of(I, x)
    if axis is None:
        return concat(I, [ravel(I, [y], {}) for y in l], 0)
    return concat(I, l, I.concrete_int(axis))


@lib("numpy.hstack")
def np_hstack(I, args, kw):
    l = [reshape_newaxis(asarray(I, x), 1) for x in seq_of(I, args[0])]
    return concat(I, l, 0 if l and l[0].ndim == 1 else 1)


@lib("numpy.vstack", "numpy.row_stack")
def np_vstack(I, args, kw):
    l = [reshape_newaxis(asarray(I, x), 2) for x in seq_of(I, args[0])]
    return concat(I, l, 0)


@lib("numpy.column_stack")
def np_column_stack(I, args, kw):
    l = []
    for x in seq_of(I, args[0]):
        x = asarray(I, x)
        if x.ndim < 2:
            x = view_compose(reshape_newaxis(x, 1), [("sl", ZERO, reshape_newaxis(x, 1).shape[0], 1), ("new",)])
        l.append(x)
    return concat(I, l, 1)


@lib("numpy.stack")
def np_stack(I, args, kw):
    x, axis = getargs(args, kw, "arrays", ("axis", 0))
    l = [np_expand_dims(I, [y, axis], {}) for y in seq_of(I, x)]
    return concat(I, l, I.concrete_int(axis))


@lib("numpy.append")
def np_append(I, args, kw):
    a, b, axis = getargs(args, kw, "arr", "values", ("axis", None))
    if axis is None:
        return concat(I, [ravel(I, [asarray(I, a)], {}), ravel(I, [asarray(I, b)], {})], 0)
    return concat(I, [a, b], I.concrete_int(axis))


@lib("numpy.block")
def np_block(I, args, kw):
    def depth(x):
        return 1 + max(depth(y) for y in x) if isinstance(x, list) else 0
    d = depth(args[0])
    if d == 0:
        return asarray(I, args[0])
    if d > 2:
        raise Unsupported("block depth")

    def rec(x, lev):
        if not isinstance(x, list):
            return reshape_newaxis(asarray(I, x), d)
        return concat(I, [rec(y, lev + 1) for y in x], -(d - lev))
    return rec(args[0], 0)


def r_c_(I, what, k):
    key = list(k) if isinstance(k, tuple) else [k]
    if key and isinstance(key[0], str):
        raise Unsupported("r_ with directive")
    items = []
    for x in key:
        if isinstance(x, slice):
            lo = 0 if x.start is None else x.start
            st = 1 if x.step is None else x.step
            if isinstance(st, Sc) and st.kind == "cplx":
                raise Unsupported("r_ with complex step")
            items.append(np_arange(I, [lo, x.stop, st], {}))
        else:
            items.append(asarray(I, x))
    if what == "r_":
        items = [reshape_newaxis(x, 1) for x in items]
        return concat(I, items, 0)
    l = []
    for x in items:
        x = reshape_newaxis(x, 1)
        if x.ndim == 1:
            x = view_compose(x, [("sl", ZERO, x.shape[0], 1), ("new",)])
        l.append(x)
    return concat(I, l, -1)


LIB["numpy.r_"] = Opaque("r_")
LIB["numpy.c_"] = Opaque("c_")


@lib("numpy.tile")
def np_tile(I, args, kw):
    a, reps = getargs(args, kw, "A", "reps")
    a = asarray(I, a)
    r = [int_E(I, x) for x in reps] if isinstance(reps, (tuple, list)) else [int_E(I, reps)]
    nd = max(a.ndim, len(r))
    a = reshape_newaxis(a, nd)
    r = [ONE] * (nd - len(r)) + r
    for x in r:
        I.require(ge0(x), "ValueError", "negative reps")
    shape = [mul(s, x) for s, x in zip(a.shape, r)]
    g = a.getter()
    olds = a.shape

    def f(*i):
        return g(*[k if x is ONE else (ZERO if s is ONE else T.mod(k, s)) for k, s, x in zip(i, olds, r)])
    return mkarr(shape, a.dtype, f)


@lib("numpy.repeat")
def np_repeat(I, args, kw):
    a, n, axis = getargs(args, kw, "a", "repeats", ("axis", None))
    a = asarray(I, a)
    if a.ndim == 0:
        return const_arr((int_E(I, n),), a.dtype, a.elem())
    if a.ndim != 1:
        if axis is None:
            raise Unsupported("repeat n-d")
    axis = norm_axis(I, axis or 0, a.ndim)
    n = int_E(I, n)
    g = a.getter()
    sh = list(a.shape)
    sh[axis] = mul(sh[axis], n)
    return mkarr(sh, a.dtype, lambda *i: g(*[T.floordiv(k, n) if ax == axis else k for ax, k in enumerate(i)]))


def wrap_index(I, e, n):
    """e mod n for e within one period"""
    return T.mod(e, n)


@lib("numpy.roll")
def np_roll(I, args, kw):
    a, shift, axis = getargs(args, kw, "a", "shift", ("axis", None))
    a = asarray(I, a)
    if isinstance(shift, (tuple, list)) or isinstance(axis, (tuple, list)):
        sh = list(shift) if isinstance(shift, (tuple, list)) else [shift]
        if axis is None:
            tot = 0
            for s in sh:
                tot = binop(I, "Add", tot, s)
            return np_roll(I, [a, tot], {})
        axs = list(axis) if isinstance(axis, (tuple, list)) else [axis]
        if len(sh) == 1:
            sh = sh * len(axs)
        if len(axs) == 1:
            axs = axs * len(sh)
        for s, ax in zip(sh, axs):
            a = np_roll(I, [a, s, ax], {})
        return a
    s = int_E(I, shift)
    g = a.getter()
    if axis is None and a.ndim > 1:
        flat = ravel(I, [a], {})
        r = np_roll(I, [flat, shift, 0], {})
        return do_reshape(I, r, a.shape)
    if a.ndim == 0:
        return a
    axis = norm_axis(I, axis or 0, a.ndim)
    n = a.shape[axis]
    return mkarr(a.shape, a.dtype, lambda *i: g(*[T.mod(sub(k, s), n) if ax == axis else k for ax, k in enumerate(i)]))


@lib("numpy.flip", "numpy.flipud_")
def np_flip(I, args, kw):
    a, axis = getargs(args, kw, "m", ("axis", None))
    a = asarray(I, a)
    axes = range(a.ndim) if axis is None else [norm_axis(I, axis, a.ndim)]
    ops = [("sl", sub(s, ONE), s, -1) if ax in axes else ("sl", ZERO, s, 1) for ax, s in enumerate(a.shape)]
    return view_compose(a, ops)


LIB["numpy.fliplr"] = lambda I, a, k: np_flip(I, [a[0], 1], {})
LIB["numpy.flipud"] = lambda I, a, k: np_flip(I, [a[0], 0], {})


@lib("numpy.take")
@method("take")
def np_take(I, args, kw):
    a, idx, axis = getargs(args, kw, "a", "indices", ("axis", None))
    a = asarray(I, a)
    if axis is None:
        a = ravel(I, [a], {})
        axis = 0
    axis = norm_axis(I, axis, a.ndim)
    return getitem(I, a, tuple([slice(None)] * axis + [idx]))


def pad_index(mode, i, p, n):
    """source index of padded position i (p = left pad, n = original length)"""
    k = sub(i, p)
    if mode == "edge":
        return ite(T.lt(k, ZERO), ZERO, ite(T.ge(k, n), sub(n, ONE), k))
    if mode == "symmetric":
        m = T.mod(k, T.scale(2, n))
        far = sub(T.scale(2, n), add(m, ONE))
        back = ite(T.lt(m, n), m, far)
        lo, hi = sub(neg(k), ONE), sub(sub(T.scale(2, n), k), ONE)
        return ite(T.lt(k, ZERO), ite(T.lt(lo, n), lo, back), ite(T.lt(k, n), k, ite(ge0(hi), hi, back)))
    if mode == "reflect":
        per = T.scale(2, sub(n, ONE))
        m = ite(T.gt(n, ONE), T.mod(k, per), ZERO)
        back = ite(T.lt(m, n), m, sub(per, m))
        lo, hi = neg(k), sub(per, k)
        return ite(T.lt(k, ZERO), ite(T.lt(lo, n), lo, back), ite(T.lt(k, n), k, ite(ge0(hi), hi, back)))
    if mode == "wrap":
        return T.mod(k, n)
    raise Unsupported("pad mode %s" % mode)


@lib("numpy.pad")
def np_pad(I, args, kw):
    kw = dict(kw)
    cv = kw.pop("constant_values", 0)
    a, pw, mode = getargs(args, kw, "array", "pad_width", ("mode", "constant"))
    a = asarray(I, a)
    if not isinstance(mode, str):
        raise Unsupported("pad mode")
    if not isinstance(pw, (tuple, list)):
        pw = [(pw, pw)] * a.ndim
    else:
        pw = list(pw)
        if not isinstance(pw[0], (tuple, list)):
            if len(pw) == 1:
                pw = [(pw[0], pw[0])] * a.ndim
            else:
                pw = [tuple(pw)] * a.ndim
        elif len(pw) == 1:
            pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise PyExc("ValueError", "pad_width")
    ps = []
    for p, q in pw:
        for x in (p, q):
            if isinstance(x, Sc) and x.kind == "real":
                raise PyExc("TypeError", "`pad_width` must be of integral type.")
        p, q = int_E(I, p), int_E(I, q)
        for x in (p, q):
            I.require(ge0(x), "ValueError", "index can't contain negative values")
        ps.append((p, q))
    shape = [add(p, n, q) for (p, q), n in zip(ps, a.shape)]
    g, d = a.getter(), a.dtype
    if mode == "constant":
        c = asarray(I, cv)
        if c.ndim:
            raise Unsupported("pad constant_values array")
        ce = V.convert(c.elem(), c.dtype, d) if not (c.dtype == "i" and d == "i") else c.elem()

        def f(*i):
            ks, conds = [], []
            for k, (p, q), n in zip(i, ps, a.shape):
                k = sub(k, p)
                if p is not ZERO:
                    conds.append(ge0(k))
                if q is not ZERO:
                    conds.append(T.lt(k, n))
                ks.append(k)
            return eite(and_(*conds), g(*ks), ce)
    else:
        for (p, q), n in zip(ps, a.shape):
            if not I.entails(gt0(n)):
                I.require(or_(gt0(n), and_(eq0(p), eq0(q))), "ValueError", "can't extend empty axis")
        def f(*i):
            return g(*[pad_index(mode, k, p, n) if not (p is ZERO and q is ZERO) else k for k, (p, q), n in zip(i, ps, a.shape)])
    return mkarr(shape, d, f)


@lib("numpy.diag")
def np_diag(I, args, kw):
    a, k = getargs(args, kw, "v", ("k", 0))
    if isinstance(a, (Dia, Sparse)):
        raise Unsupported("numpy.diag of sparse matrix")
    a = asarray(I, a)
    off = int_E(I, k)
    g = a.getter()
    if a.ndim == 1:
        n = a.shape[0]
        if off is ZERO:
            return mkarr((n, n), a.dtype, lambda i, j: _where0(T.eq(i, j), g(i), a.dtype))
        ab = ite(ge0(off), off, neg(off))
        m = add(n, ab)
        return mkarr((m, m), a.dtype, lambda i, j: _where0(T.eq(j, add(i, off)), g(ite(ge0(off), i, j)), a.dtype))
    if a.ndim == 2:
        if off is not ZERO:
            raise Unsupported("off-diagonal extraction")
        n, m = a.shape
        d = n if n is m or I.branch(T.le(n, m)) else m
        return view_diag(a, d)
    raise PyExc("ValueError", "Input must be 1- or 2-d.")


def view_diag(a, d):
    g = a.getter()
    return mkarr((d,), a.dtype, lambda i: g(i, i))


LIB["numpy.diagonal"] = np_diag
METHODS["diagonal"] = np_diag


def _where0(c, x, d):
    return eite(c, x, _zero(d))


@lib("numpy.trace")
@method("trace")
def np_trace(I, args, kw):
    return np_sum(I, [np_diag(I, [args[0]], {})], {})


@lib("numpy.outer")
def np_outer(I, args, kw):
    a, b = [ravel(I, [asarray(I, x)], {}) for x in args]
    ga, gb = a.getter(), b.getter()
    return mkarr((a.shape[0], b.shape[0]), dt_arith(a.dtype, b.dtype), lambda i, j: emul(ga(i), gb(j)))


def mm(I, a, b, where="ValueError"):
    """general matrix product of 1/2-d arrays"""
    ga, gb = a.getter(), b.getter()
    d = dt_arith(a.dtype, b.dtype)
    ka = a.shape[-1]
    kb = b.shape[-2] if b.ndim >= 2 else b.shape[0]
    I.require(T.eq(ka, kb), "ValueError", "shapes not aligned")
    n = ka if T.intval(kb) is None else kb
    if a.ndim == 1 and b.ndim == 1:
        return mkelem(esum(ZERO, n, lambda k: emul(ga(k), gb(k))), d)
    if a.ndim == 2 and b.ndim == 1:
        return mkarr((a.shape[0],), d, lambda i: esum(ZERO, n, lambda k: emul(ga(i, k), gb(k))))
    if a.ndim == 1 and b.ndim == 2:
        return mkarr((b.shape[1],), d, lambda j: esum(ZERO, n, lambda k: emul(ga(k), gb(k, j))))
    if a.ndim == 2 and b.ndim == 2:
        return mkarr((a.shape[0], b.shape[1]), d, lambda i, j: esum(ZERO, n, lambda k: emul(ga(i, k), gb(k, j))))
    raise Unsupported("matrix product of n-d arrays")


def mat_mul(I, a, b):
    a2, b2 = reshape_newaxis(asarray(I, a), 2), reshape_newaxis(asarray(I, b), 2)
    r = mm(I, a2, b2)
    return Matrix(r.shape, r.st, r.spec)


@lib("numpy.dot")
@method("dot")
def np_dot(I, args, kw):
    a, b = args
    if isinstance(a, (Dia, Sparse)) or isinstance(b, (Dia, Sparse)):
        raise Unsupported("numpy.dot with sparse")
    a, b = asarray(I, a), asarray(I, b)
    if isinstance(a, Matrix) or isinstance(b, Matrix):
        return mat_mul(I, a, b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(I, emul, dt_arith, a, b)
    return mm(I, a, b)


@lib("numpy.matmul")
def matmul(I, args, kw):
    a, b = asarray(I, args[0]), asarray(I, args[1])
    if a.ndim == 0 or b.ndim == 0:
        raise PyExc("ValueError", "matmul: Input operand does not have enough dimensions")
    return mm(I, a, b)


LIB["numpy.inner"] = lambda I, args, kw: mm(I, asarray(I, args[0]), transpose(I, [asarray(I, args[1])], {}))
LIB["numpy.vdot"] = lambda I, args, kw: np_dot(I, [np_conj(I, [args[0]], {}), args[1]], {})


@lib("numpy.linalg.multi_dot")
def multi_dot(I, args, kw):
    l = I.iter_concrete(args[0])
    r = l[0]
    for x in l[1:]:
        r = np_dot(I, [r, x], {})
    return r


@lib("numpy.einsum")
def np_einsum(I, args, kw):
    spec = args[0]
    if not isinstance(spec, str) or set(kw) - {"optimize"}:
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ops = [asarray(I, x) for x in args[1:]]
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyExc("ValueError", "einsum")
        for c, d in zip(s, o.shape):
            if c in dims:
                I.require(T.eq(dims[c], d), "ValueError", "einsum dims")
                if T.intval(d) is not None:
                    dims[c] = d
            else:
                dims[c] = d
    gs = [o.getter() for o in ops]
    sumc = [c for c in dims if c not in out]
    d = dt_arith(*[o.dtype for o in ops])

    def f(*i):
        env = dict(zip(out, i))

        def rec(rest):
            if not rest:
                r = None
                for s, g in zip(ins, gs):
                    x = g(*[env[c] for c in s])
                    r = x if r is None else emul(r, x)
                return r

            def body(k):
                env[rest[0]] = k
                return rec(rest[1:])
            return esum(ZERO, dims[rest[0]], body)
        return rec(sumc)
    if not out:
        return mkelem(f(), d)
    return mkarr([dims[c] for c in out], d, f)


@lib("numpy.ix_")
def np_ix(I, args, kw):
    r = []
    for j, x in enumerate(args):
        x = asarray(I, x)
        if x.dtype == "b":
            x = np_nonzero(I, [x], {})[0]
        ops = [("new",)] * len(args)
        ops[j] = ("sl", ZERO, x.shape[0], 1)
        r.append(view_compose(x, ops))
    return tuple(r)


@lib("numpy.ndim")
def np_ndim(I, args, kw):
    return asarray(I, args[0]).ndim


@lib("numpy.shape")
def np_shape(I, args, kw):
    a = args[0]
    if isinstance(a, (Dia, Sparse)):
        return tuple(mkint(s) for s in a.shape)
    return tuple(mkint(s) for s in asarray(I, a).shape)


@lib("numpy.size")
def np_size(I, args, kw):
    return mkint(size_E(asarray(I, args[0])))


@lib("numpy.isscalar")
def np_isscalar(I, args, kw):
    return is_scalar(args[0]) or isinstance(args[0], str)


@lib("numpy.allclose", "numpy.isclose", "numpy.array_equal")
def np_close(I, args, kw):
    raise Unsupported("closeness test")


@lib("numpy.matrix", "numpy.mat", "numpy.asmatrix")
def np_matrix(I, args, kw):
    a = asarray(I, args[0])
    a = reshape_newaxis(a, 2)
    return Matrix(a.shape, Storage(a.shape, a.dtype, memo_fn(a.getter())))


# ------------------------------------------------------------------ fft
def trig_phase(k, i, n):
    return mul(const(2), T.PI, k, i, T.powi(n, -1))


@lib("numpy.fft.rfft", "scipy.fft.rfft")
def np_rfft(I, args, kw):
    a, n, axis = getargs(args, kw, "a", ("n", None), ("axis", -1))
    a = asarray(I, a)
    if a.dtype == "c":
        raise PyExc("TypeError", "rfft of complex input")
    axis = norm_axis(I, axis, a.ndim)
    m = a.shape[axis]
    if n is not None:
        n = int_E(I, n)
        I.require(gt0(n), "ValueError", "Invalid number of FFT data points")
        top = m if I.branch(T.le(m, n)) else n
    else:
        n = top = m
        I.require(gt0(n), "ValueError", "Invalid number of FFT data points")
    g = a.getter()
    sh = list(a.shape)
    sh[axis] = add(T.floordiv(n, const(2)), ONE)

    def f(*idx):
        k = idx[axis]
        at = lambda i: num(g(*(list(idx[:axis]) + [i] + list(idx[axis + 1:]))))
        re = T.sum_(ZERO, top, lambda i: mul(at(i), T.fn("cos", trig_phase(k, i, n))))
        im = neg(T.sum_(ZERO, top, lambda i: mul(at(i), T.fn("sin", trig_phase(k, i, n)))))
        return (re, im)
    return mkarr(sh, "c", f)


@lib("numpy.fft.fft")
def np_fft(I, args, kw):
    a, n, axis = getargs(args, kw, "a", ("n", None), ("axis", -1))
    a = asarray(I, a)
    axis = norm_axis(I, axis, a.ndim)
    m = a.shape[axis]
    if n is not None:
        n = int_E(I, n)
        I.require(gt0(n), "ValueError", "Invalid number of FFT data points")
        top = m if I.branch(T.le(m, n)) else n
    else:
        n = top = m
        I.require(gt0(n), "ValueError")
    g = a.getter()
    sh = list(a.shape)
    sh[axis] = n

    def f(*idx):
        k = idx[axis]

        def at(i):
            return cplx(num(g(*(list(idx[:axis]) + [i] + list(idx[axis + 1:])))))
        return esum(ZERO, top, lambda i: emul(at(i), (T.fn("cos", trig_phase(k, i, n)), neg(T.fn("sin", trig_phase(k, i, n))))))
    return mkarr(sh, "c", f)


def irfft_elem(Fr, Fi, j, n, half, even):
    """value of the inverse real FFT at sample j"""
    inner = T.sum_(ONE, half if even else add(half, ONE), lambda k: mul(const(2), sub(mul(Fr(k), T.fn("cos", trig_phase(k, j, n))), mul(Fi(k), T.fn("sin", trig_phase(k, j, n))))))
    r = add(Fr(ZERO), inner)
    if even:
        r = add(r, mul(Fr(half), T.fn("cos", mul(T.PI, j))))
    return mul(T.powi(n, -1), r)


@lib("numpy.fft.irfft", "scipy.fft.irfft")
def np_irfft(I, args, kw):
    a, n, axis = getargs(args, kw, "a", ("n", None), ("axis", -1))
    a = asarray(I, a)
    axis = norm_axis(I, axis, a.ndim)
    m = a.shape[axis]
    if n is None:
        n = T.scale(2, sub(m, ONE))
        half = sub(m, ONE)
        even = True
        I.require(gt0(n), "ValueError", "Invalid number of FFT data points")
        lim = None
    else:
        n = int_E(I, n)
        I.require(gt0(n), "ValueError", "Invalid number of FFT data points")
        half = T.floordiv(n, const(2))
        even = I.branch(eq0(T.mod(n, const(2))))
        lim = None if I.branch(T.le(add(half, ONE), m)) else m
    g = a.getter()
    sh = list(a.shape)
    sh[axis] = n

    def f(*idx):
        j = idx[axis]

        def comp(k, c):
            z = cplx(num(g(*(list(idx[:axis]) + [k] + list(idx[axis + 1:])))))[c]
            return z if lim is None else ite(T.lt(k, lim), z, ZERO)
        return irfft_elem(lambda k: comp(k, 0), lambda k: comp(k, 1), j, n, half, even)
    return mkarr(sh, "f", f)


@lib("numpy.fft.rfftfreq")
def np_rfftfreq(I, args, kw):
    n, d = getargs(args, kw, "n", ("d", 1))
    n = int_E(I, n)
    dd = num(sc_elem(d))
    return mkarr((add(T.floordiv(n, const(2)), ONE),), "f", lambda k: T.div(k, mul(n, dd)))


# ------------------------------------------------------------------ filters / convolution
def conv_terms(I, a, b, mode, swap_ok=True):
    """1-d convolution"""
    ga, gb = a.getter(), b.getter()
    n, m = a.shape[0], b.shape[0]
    d = dt_arith(a.dtype, b.dtype)

    def full(i):
        return esum(ZERO, m, lambda j: emul(_g0(and_(ge0(sub(i, j)), T.lt(sub(i, j), n)), ga, sub(i, j), a.dtype), gb(j)))
    if mode == "full":
        return mkarr((_max0(I, sub(add(n, m), ONE)),), d, full)
    if mode == "valid":
        return mkarr((add(sub(n, m), ONE),), d, lambda i: esum(ZERO, m, lambda j: emul(ga(sub(add(i, m), add(j, ONE))), gb(j))))
    if mode == "same":
        off = T.floordiv(sub(m, ONE), const(2))
        return mkarr((n,), d, lambda i: full(add(i, off)))
    raise PyExc("ValueError", "acceptable mode flags")


def _g0(c, g, i, d):
    if c is TRUE:
        return g(i)
    return eite(c, g(i), _zero(d))


@lib("numpy.convolve")
def np_convolve(I, args, kw):
    a, b, mode = getargs(args, kw, "a", "v", ("mode", "full"))
    a, b = asarray(I, a), asarray(I, b)
    a, b = reshape_newaxis(a, 1), reshape_newaxis(b, 1)
    for x in (a, b):
        I.require(gt0(x.shape[0]), "ValueError", "cannot be empty")
    if I.branch(T.gt(b.shape[0], a.shape[0])):
        a, b = b, a
    return conv_terms(I, a, b, mode)


@lib("scipy.signal.convolve", "scipy.signal.fftconvolve", "scipy.signal.convolve2d_")
def sp_convolve(I, args, kw):
    a, b, mode, method_ = getargs(args, kw, "in1", "in2", ("mode", "full"), ("method", "auto"))
    a, b = asarray(I, a), asarray(I, b)
    if a.ndim == b.ndim == 0:
        return binop(I, "Mult", a, b)
    if a.ndim != b.ndim:
        raise PyExc("ValueError", "volume and kernel should have the same dimensionality")
    if a.ndim == 1:
        for x in (a, b):
            if not I.branch(gt0(x.shape[0])):
                return mkarr((0,), "f", lambda i: ZERO)
        if mode == "valid" and I.branch(T.gt(b.shape[0], a.shape[0])):
            a, b = b, a
        return conv_terms(I, a, b, mode)
    if a.ndim == 2 and mode == "valid":
        if not I.branch(and_(T.ge(a.shape[0], b.shape[0]), T.ge(a.shape[1], b.shape[1]))):
            I.require(and_(T.ge(b.shape[0], a.shape[0]), T.ge(b.shape[1], a.shape[1])), "ValueError", "For 'valid' mode, one must be at least as large")
            a, b = b, a
        for x in b.shape:
            if not I.branch(gt0(x)):
                return mkarr((0, 0), "f", lambda i, j: ZERO)
        ga, gb = a.getter(), b.getter()
        (n0, n1), (m0, m1) = a.shape, b.shape
        d = dt_arith(a.dtype, b.dtype)
        return mkarr((add(sub(n0, m0), ONE), add(sub(n1, m1), ONE)), d,
                     lambda p, q: esum(ZERO, m0, lambda i: esum(ZERO, m1, lambda j: emul(ga(sub(add(p, m0), add(i, ONE)), sub(add(q, m1), add(j, ONE))), gb(i, j)))))
    raise Unsupported("2-d convolution mode %s" % mode)


def is_unit_a(I, a):
    if is_scalar(a):
        return sc_elem(a)
    a = asarray(I, a)
    if a.ndim == 0:
        return a.elem()
    if a.ndim == 1 and T.intval(a.shape[0]) == 1:
        return a.elem(ZERO)
    return None


OPAQUE = {}


def opaque_key(I, name, args):
    """canonical symbol for an uninterpreted library function of array arguments.

    Free loop/bound variables of the argument terms become parameters.
    """
    parts = []
    fvs = []
    for a in args:
        if isinstance(a, (str, type(None), bool, int)):
            parts.append(("const", a))
            continue
        a = asarray(I, a)
        vs = [T.var("@a%d" % j) for j in range(a.ndim)]
        e = a.elem(*vs)
        es = e if isinstance(e, tuple) else (e,)
        parts.append(("f" if a.dtype == "i" else a.dtype, tuple(a.shape), es))  # a function of the values
        for x in list(a.shape) + list(es):
            for v in x.fv:
                if v not in vs and "!" in v.args[0] and v not in fvs:
                    fvs.append(v)
    fvs.sort(key=lambda v: v.id)
    params = {v: T.var("@f%d" % j, v.sort) for j, v in enumerate(fvs)}

    def canon(p):
        if p[0] == "const":
            return p
        return (p[0], tuple(T.subst(s, params) for s in p[1]), tuple(T.subst(x, params) for x in p[2]))
    key = (name, tuple(canon(p) for p in parts))
    sym = OPAQUE.get(key)
    if sym is None:
        sym = "%s#%d" % (name, len(OPAQUE))
        OPAQUE[key] = sym
        OPAQUE_DEF[sym] = key
        OPAQUE_NPARAM[sym] = len(fvs)
        OPAQUE_FV[sym] = list(fvs)
    if getattr(I.path, "cx", None) is not None:
        # an earlier call of the same function whose arguments provably agree here
        from . import prover
        for old in [x for x, d in OPAQUE_DEF.items() if d[0] == name]:
            if old == sym:
                break
            perm = prover.unified(sym, old, I.path.cx, prover.same_opaque)
            if perm is not None:
                return old, [fvs[j] for j in perm]
    return sym, fvs


OPAQUE_DEF, OPAQUE_NPARAM, OPAQUE_FV = {}, {}, {}


def opaque_def(name):
    """(symbol, component) if the array name belongs to an uninterpreted library function"""
    for tag in ("", "i", "n"):
        if name.endswith(tag):
            s = name[:len(name) - len(tag)]
            if s in OPAQUE_DEF:
                return s, tag
    return None


def opaque_array(I, name, args, shape, dtype="f", tag=""):
    sym, fvs = opaque_key(I, name, args)
    s = sym + tag
    T.declare(s, len(fvs) + len(shape), "int" if dtype == "i" else "real")
    if dtype == "c":
        T.declare(s + "i", len(fvs) + len(shape), "real")
        return mkarr(shape, "c", lambda *i: (T.sel(s, *(list(fvs) + list(i))), T.sel(s + "i", *(list(fvs) + list(i)))))
    return mkarr(shape, dtype, lambda *i: T.sel(s, *(list(fvs) + list(i))))


def fir_sum(nb, b, x, i):
    return T.sum_(ZERO, nb, lambda j: ite(ge0(sub(i, j)), mul(b(j), x(sub(i, j))), ZERO))


def recursive_filter(nb, b, na, a, x):
    """the recursive filter: a[0] y[i] = sum_j b[j] x[i-j] - sum_{j>0} a[j] y[i-j]"""
    from . import loops
    if T.intval(na) == 1:
        return lambda i: T.div(fir_sum(nb, b, x, T.lift(i)), a(ZERO))
    return loops.rec_seq(lambda y, i: T.div(sub(fir_sum(nb, b, x, i), T.sum_(ONE, na, lambda j: ite(ge0(sub(i, j)), mul(a(j), y(sub(i, j))), ZERO))), a(ZERO)))


@lib("scipy.signal.lfilter")
def sp_lfilter(I, args, kw):
    b, a, x, axis, zi = getargs(args, kw, "b", "a", "x", ("axis", -1), ("zi", None))
    b, x = asarray(I, b), asarray(I, x)
    b = reshape_newaxis(b, 1)
    if b.ndim != 1:
        raise PyExc("ValueError", "b must be 1-d")
    a0 = is_unit_a(I, a)
    d = V.promote("f", b.dtype, x.dtype)
    if d == "c":
        raise Unsupported("complex lfilter")
    if x.ndim == 0:
        raise PyExc("ValueError", "object of too small depth for desired array")
    if axis not in (-1, x.ndim - 1):
        raise Unsupported("lfilter along another axis")
    if a0 is None and zi is not None or x.ndim != 1 and zi is not None:
        raise Unsupported("recursive lfilter with initial state")
    if a0 is None:
        a = asarray(I, a)
        ga, gb, gx = a.getter(), b.getter(), x.getter()
        a_0 = num(ga(ZERO))
        I.require(T.ne(a_0, ZERO), "ValueError", "a[0] is zero")
        na, nb = a.shape[0], b.shape[0]
        return mkarr(x.shape, "f", lambda *i: recursive_filter(nb, lambda j: num(gb(j)), na, lambda j: num(ga(j)), lambda k: num(gx(*(i[:-1] + (k,)))))(i[-1]))
    if x.ndim != 1:
        gb, gx, nb = b.getter(), x.getter(), b.shape[0]
        return mkarr(x.shape, "f", lambda *i: T.div(fir_sum(nb, lambda j: num(gb(j)), lambda k: num(gx(*(i[:-1] + (k,)))), i[-1]), num(a0)))
    gb, gx = b.getter(), x.getter()
    nb, n = b.shape[0], x.shape[0]
    if zi is None:
        return mkarr((n,), "f", lambda i: T.div(T.sum_(ZERO, nb, lambda j: ite(ge0(sub(i, j)), mul(num(gb(j)), num(gx(sub(i, j)))), ZERO)), num(a0)))
    zi = asarray(I, zi)
    if zi.ndim != 1:
        raise PyExc("ValueError", "object of too small depth for desired array")
    nz = sub(nb, ONE)
    I.require(T.eq(zi.shape[0], nz), "ValueError", "Unexpected shape for zi")
    gz = zi.getter()

    def f(i):
        s = T.sum_(ZERO, nb, lambda j: ite(ge0(sub(i, j)), mul(num(gb(j)), num(gx(sub(i, j)))), ZERO))
        return T.div(add(s, ite(T.lt(i, nz), num(gz(i)), ZERO)), num(a0)) if num(a0) is not ONE else add(s, ite(T.lt(i, nz), num(gz(i)), ZERO))
    zf = mkarr((nz,), "f", lambda i: add(
        T.sum_(ZERO, nb, lambda j: ite(and_(T.gt(j, i), ge0(sub(add(n, i), j))), mul(num(gb(j)), num(gx(sub(add(n, i), j)))), ZERO)),
        ite(T.lt(add(n, i), nz), num(gz(add(n, i))), ZERO)))
    return (mkarr((n,), "f", f), zf)


@lib("numpy.median")
def np_median(I, args, kw):
    """uninterpreted function of the whole array"""
    if len(args) != 1 or kw:
        raise Unsupported("median along an axis")
    a = asarray(I, args[0])
    if a.ndim != 1 or a.dtype not in "fi":
        raise Unsupported("median of such an array")
    return mkreal(opaque_array(I, "median", [a], ()).elem(), np=True)


@lib("scipy.signal.firwin")
def sp_firwin(I, args, kw):
    """uninterpreted in number of taps, cut-off and window parameter"""
    n, fc, window = getargs(args, kw, "numtaps", "cutoff", "window")
    if len(args) + len(kw) > 3 or not isinstance(window, tuple) or len(window) != 2 or window[0] != "kaiser":
        raise Unsupported("firwin options")
    n = int_E(I, n)
    I.require(gt0(n), "ValueError")
    return opaque_array(I, "firwin", [mkint(n, True), fc, window[1]], (n,))


@lib("numpy.linalg.pinv")
def la_pinv(I, args, kw):
    a = asarray(I, args[0])
    if len(args) > 1 or kw or a.ndim != 2 or a.dtype == "c":
        raise Unsupported("pinv options")
    r = opaque_array(I, "pinv", [a], (a.shape[1], a.shape[0]))
    return mkarr(r.shape, "f", r.getter(), cls=type(a) if not type(args[0]) is Arr else Arr)


@lib("scipy.signal.tf2ss")
def sp_tf2ss(I, args, kw):
    """controller canonical form, leading coefficient of the denominator normalised to one"""
    b, a = [asarray(I, x) for x in getargs(args, kw, "num", "den")]
    if b.ndim != 1 or a.ndim != 1:
        raise Unsupported("tf2ss of matrices")
    if b.dtype == "c" or a.dtype == "c":
        raise Unsupported("complex tf2ss")
    gb, ga = b.getter(), a.getter()
    na, nb = a.shape[0], b.shape[0]
    p = sub(na, ONE)
    I.require(T.ne(num(ga(ZERO)), ZERO), "ValueError", "leading denominator coefficient is zero")
    I.require(T.le(nb, na), "ValueError", "improper transfer function")
    if not I.entails(T.gt(p, ZERO)):
        raise Unsupported("tf2ss of a static filter")
    a0 = ONE if I.entails(T.eq(num(ga(ZERO)), ONE)) else num(ga(ZERO))
    da = lambda j: T.div(num(ga(j)), a0)
    off = sub(na, nb)
    nm = lambda j: ite(ge0(sub(j, off)), T.div(num(gb(sub(j, off))), a0), ZERO)
    up = lambda j: add(j, ONE)
    return (
        mkarr((p, p), "f", lambda i, j: ite(T.eq(i, ZERO), sub(ZERO, da(up(j))), ite(T.eq(sub(i, ONE), j), ONE, ZERO))),
        mkarr((p, ONE), "f", lambda i, j: ite(T.eq(i, ZERO), ONE, ZERO)),
        mkarr((ONE, p), "f", lambda i, j: sub(nm(up(j)), mul(nm(ZERO), da(up(j))))),
        mkarr((ONE, ONE), "f", lambda i, j: nm(ZERO)),
    )


@lib("scipy.signal.lfilter_zi")
def sp_lfilter_zi(I, args, kw):
    b, a = getargs(args, kw, "b", "a")
    b = reshape_newaxis(asarray(I, b), 1)
    a0 = is_unit_a(I, a)
    if a0 is None or num(a0) is not ONE:
        raise Unsupported("lfilter_zi of a recursive filter")
    nb = b.shape[0]
    # scipy: companion matrix of a polynomial of degree < 1 is rejected
    I.require(T.ge(nb, const(2)), "ValueError", "The length of `a` must be at least 2")
    g = b.getter()
    return mkarr((sub(nb, ONE),), "f", lambda i: T.sum_(add(i, ONE), nb, lambda j: num(g(j))))


@lib("scipy.linalg.toeplitz")
def sp_toeplitz(I, args, kw):
    c, r = getargs(args, kw, "c", ("r", None))
    c = ravel(I, [asarray(I, c)], {})
    if r is None:
        g = c.getter()
        if c.dtype == "c":
            raise Unsupported("complex toeplitz")
        return mkarr((c.shape[0], c.shape[0]), c.dtype, lambda i, j: eite(T.ge(i, j), g(sub(i, j)), g(sub(j, i))))
    r = ravel(I, [asarray(I, r)], {})
    gc, gr = c.getter(), r.getter()
    return mkarr((c.shape[0], r.shape[0]), V.promote(c.dtype, r.dtype), lambda i, j: eite(T.ge(i, j), gc(sub(i, j)), gr(sub(j, i))))


# ------------------------------------------------------------------ sparse
@lib("scipy.sparse.diags")
def sp_diags(I, args, kw):
    kw = {k: v for k, v in kw.items() if k not in ("format", "dtype")}
    diagonals, offsets, shape = getargs(args, kw, "diagonals", ("offsets", 0), ("shape", None))
    if is_scalar(offsets):
        ds = [asarray(I, diagonals)] if isinstance(diagonals, Arr) or not has_none_or_ragged(diagonals) else [asarray(I, diagonals[0])]
        offs = [int_E(I, offsets)]
    else:
        ds = [reshape_newaxis(asarray(I, d), 1) for d in I.iter_concrete(diagonals)]
        offs = [int_E(I, o) for o in I.iter_concrete(offsets)]
    if len(ds) != len(offs):
        raise PyExc("ValueError", "Different number of diagonals and offsets.")

    def absE(e):
        v = T.intval(e)
        if v is not None:
            return const(abs(v))
        return e if I.branch(ge0(e)) else neg(e)
    if shape is None:
        m = add(ds[0].shape[0], absE(offs[0]))
        n = m
    else:
        m, n = [int_E(I, x) for x in shape]
    K = m if m is n or I.branch(T.le(m, n)) else n
    lens = []
    for d, o in zip(ds, offs):
        lo = None
        cand = [add(m, o), sub(n, o), K]
        L = cand[0]
        for c in cand[1:]:
            L = L if I.branch(T.le(L, c)) else c
        I.require(ge0(L), "ValueError", "Offset out of bounds")
        if not I.branch(T.eq(d.shape[0], L)):
            I.require(T.eq(d.shape[0], ONE), "ValueError", "Diagonal length does not agree with matrix size")
        lens.append(L)
    # data array width: max over diagonals
    W = None
    starts = []
    for o, L in zip(offs, lens):
        k = o if I.branch(ge0(o)) else ZERO
        starts.append(k)
        w = add(k, L)
        W = w if W is None else (W if I.branch(T.ge(W, w)) else w)
    gs = [(d.getter(), d.shape[0]) for d in ds]
    dt = V.promote(*[d.dtype for d in ds])

    def data(r, c):
        e = ZERO
        for q in range(len(ds) - 1, -1, -1):
            i = sub(c, starts[q])
            g, ln = gs[q]
            x = eite(and_(ge0(i), T.lt(i, lens[q])), g(i if ln is not ONE or lens[q] is ONE else ZERO), ZERO)
            rc = T.intval(r)
            if rc is not None:
                if rc == q:
                    return x
                continue
            e = eite(T.eq(r, const(q)), x, e)
        return e
    return Dia((m, n), mkarr((len(ds), W), dt, data), offs, dt)


@lib("scipy.sparse.issparse", "scipy.sparse.isspmatrix")
def sp_issparse(I, args, kw):
    return isinstance(args[0], (Dia, Sparse))


LIB["scipy.sparse.isspmatrix_dia"] = lambda I, args, kw: isinstance(args[0], Dia)


@lib("scipy.sparse.dia_matrix!call")
def sp_dia(I, args, kw):
    arg, shape = getargs(args, kw, "arg1", ("shape", None))
    if isinstance(arg, Dia):
        return arg
    if isinstance(arg, tuple) and len(arg) == 2 and shape is not None:
        data = asarray(I, arg[0])
        offs = [int_E(I, o) for o in I.iter_concrete(asarray(I, arg[1]))]
        data = reshape_newaxis(data, 2)
        return Dia([int_E(I, x) for x in shape], data, offs, data.dtype)
    raise Unsupported("dia_matrix from dense")


def dia_dense(I, o):
    g = o.data.getter()
    W = o.data.shape[1]
    m, n = o.shape
    wok = W is n or I.entails(T.ge(W, n))

    def f(i, j):
        tot = None
        for q, off in enumerate(o.offsets):
            c = T.eq(sub(j, i), off)
            if not wok:
                c = and_(c, T.lt(j, W))
            x = eite(c, g(const(q), j), _zero(o.dtype))
            tot = x if tot is None else eadd(tot, x)
        return tot
    return mkarr(o.shape, o.dtype, f)


def dia_attr(I, o, name):
    it = I_mod()
    if name == "shape":
        return tuple(mkint(s) for s in o.shape)
    if name == "data":
        return o.data
    if name == "offsets":
        # numpy int array of concrete length
        return asarray(I, it.PList([Sc("int", x, np=True) if T.intval(x) is None else int(T.intval(x)) for x in o.offsets]))
    if name in ("toarray", "todense", "A"):
        d = dia_dense(I, o)
        if name == "A":
            return d
        if name == "todense":
            d = Matrix(d.shape, d.st, d.spec)
        return Builtin("dia." + name, lambda I, a, k: d)
    if name == "ndim":
        return 2
    if name == "diagonal":
        return Builtin("dia.diagonal", lambda I, a, k: np_diag(I, [dia_dense(I, o)], {}))
    if name in ("T", "transpose"):
        raise Unsupported("transpose of sparse")
    if name == "copy":
        return Builtin("dia.copy", lambda I, a, k: Dia(o.shape, nd_copy(I, [o.data], {}), o.offsets, o.dtype))
    raise Unsupported("dia_matrix attribute %s" % name)


def sparse_binop(I, op, a, b):
    raise Unsupported("sparse operator %s" % op)


# ------------------------------------------------------------------ interpolation
class Interp1d:
    def __init__(self, x, y, kind, below, above, bounds_error):
        self.x, self.y, self.kind = x, y, kind
        self.below, self.above, self.bounds_error = below, above, bounds_error

    def pycall(self, I, args, kw):
        (xn,) = getargs(args, kw, "x")
        x, y = self.x, self.y
        gx, gy = x.getter(), y.getter()
        n = x.shape[0]
        fx = lambda k: num(gx(k))
        fy = lambda k: num(gy(k))
        last = sub(n, ONE)
        lo = fx(ZERO)
        hi = fx(last)
        q = asarray(I, xn)
        if self.bounds_error:
            I.require(forall_over(q, lambda t: not_(T.lt(num(t), lo))), "ValueError", "below the interpolation range")
            I.require(forall_over(q, lambda t: not_(T.gt(num(t), hi))), "ValueError", "above the interpolation range")

        def f(t):
            t = num(t)
            r = interp_elem(self.kind, n, fx, fy, t)
            if self.bounds_error:
                return r
            return ite(T.lt(t, lo), self.below, ite(T.gt(t, hi), self.above, r))
        return elementwise(I, f, "f", q, want_arr=True)


def clipE(e, lo, hi):
    return ite(T.lt(e, lo), lo, ite(T.gt(e, hi), hi, e))


def interp_elem(kind, n, fx, fy, t):
    last = sub(n, ONE)
    if kind == "linear":
        i = clipE(T.fn(ss_name(n, fx, "left"), t), ONE, last)
        a, b = sub(i, ONE), i
        slope = T.div(sub(fy(b), fy(a)), sub(fx(b), fx(a)))
        return add(mul(slope, sub(t, fx(a))), fy(a))
    if kind == "previous":
        i = clipE(T.fn(ss_name(n, fx, "right"), t), ONE, n)
        return fy(sub(i, ONE))
    if kind == "next":
        i = clipE(T.fn(ss_name(n, fx, "left"), t), ZERO, last)
        return fy(i)
    if kind == "nearest":
        mid = lambda k: T.scale(Fraction(1, 2), add(fx(k), fx(add(k, ONE))))
        i = clipE(T.fn(ss_name(last, mid, "left"), t), ZERO, last)
        return fy(i)
    raise Unsupported("interp1d kind %s" % kind)


@lib("scipy.interpolate.interp1d")
def sp_interp1d(I, args, kw):
    x, y, kind, axis, copy, be, fv, srt = getargs(args, kw, "x", "y", ("kind", "linear"), ("axis", -1), ("copy", True), ("bounds_error", None), ("fill_value", NoVal), ("assume_sorted", False))
    x, y = asarray(I, x), asarray(I, y)
    if kind not in ("linear", "nearest", "previous", "next"):
        if isinstance(kind, str) and kind not in ("zero", "slinear", "quadratic", "cubic", "nearest-up"):
            raise PyExc("NotImplementedError", kind)
        raise Unsupported("interp1d kind")
    if x.ndim != 1:
        raise PyExc("ValueError", "the x array must have exactly one dimension.")
    if y.ndim != 1:
        raise Unsupported("interp1d n-d")
    I.require(T.eq(x.shape[0], y.shape[0]), "ValueError", "x and y arrays must be equal in length along interpolation axis.")
    I.require(T.ge(x.shape[0], const(2)), "ValueError", "x and y arrays must have at least 2 entries")
    if not srt:
        raise Unsupported("interp1d with unsorted data")
    if not is_sorted(I, x):
        raise Unsupported("interp1d on data not known to be sorted")
    if isinstance(be, Sc):
        be = I.truth(be)
    nan = T.fn("nan")
    if fv is NoVal:
        fv = mkreal(nan)
        default = True
    if isinstance(fv, str):
        if fv == "extrapolate":
            if be:
                raise PyExc("ValueError", "Cannot extrapolate and raise")
            raise Unsupported("interp1d extrapolation")
        raise PyExc("ValueError", "fill_value")
    if isinstance(fv, (tuple, list)) and len(fv) == 2 and isinstance(fv, tuple):
        lo, hi = [unwrap0(asarray(I, z)) for z in fv]
        if not (is_scalar(lo) and is_scalar(hi)):
            raise Unsupported("array fill_value")
        lo, hi = num(sc_elem(lo)), num(sc_elem(hi))
        isnan = False
    else:
        z = unwrap0(asarray(I, fv))
        if isinstance(z, Arr):
            if T.intval(z.shape[0]) == 1 and z.ndim == 1:
                z = mkelem(z.elem(ZERO), z.dtype)
            else:
                raise PyExc("ValueError", "fill_value argument shape")
        lo = hi = num(sc_elem(z))
        isnan = lo.op == "fn" and lo.args[0] == "nan"
    if be is None:
        # scipy: bounds_error None means raise unless a fill value is given
        be = _be_default(I, fv)
    return Interp1d(x, y, kind, lo, hi, be)


def _be_default(I, fv):
    # scipy 1.6: without extrapolation, bounds_error=None becomes True
    return True


def isnan_E(I, e):
    return e.op == "fn" and e.args[0] == "nan"


@lib("numpy.interp")
def np_interp(I, args, kw):
    t, x, y = args[:3]
    left, right = kw.get("left"), kw.get("right")
    x, y = asarray(I, x), asarray(I, y)
    if not is_sorted(I, x):
        raise Unsupported("numpy.interp unsorted")
    gx, gy = x.getter(), y.getter()
    n = x.shape[0]
    fx = lambda k: num(gx(k))
    fy = lambda k: num(gy(k))
    lo = num(sc_elem(left)) if left is not None else fy(ZERO)
    hi = num(sc_elem(right)) if right is not None else fy(sub(n, ONE))
    return elementwise(I, lambda s: ite(T.lt(num(s), fx(ZERO)), lo, ite(T.gt(num(s), fx(sub(n, ONE))), hi, interp_elem("linear", n, fx, fy, num(s)))), "f", t)


# ------------------------------------------------------------------ random draws
def draw(I, dist, shape, params, dtype="f"):
    lv = list(getattr(I, "loop_vars", []))
    k = len(I.random_trace)
    plan = getattr(I, "draw_plan", None)
    if plan:
        if k >= len(plan):
            raise Unsupported("more random numbers are requested than the contract describes")
        nm, pdist, pshape = plan[k][:3]
        if pdist != dist or len(pshape) != len(lv) + len(shape):
            raise Unsupported("random numbers of another kind are requested than the contract describes (%s)" % dist)
        for a, b in zip(shape, pshape[len(lv):]):
            if not I.entails(T.eq(a, b)):
                raise Unsupported("another number of random numbers is requested than the contract describes")
    else:
        nm = "draw#%d" % k
        T.declare(nm, len(lv) + len(shape), "real")
    I.random_trace.append((dist, tuple(shape), params, nm, tuple(lv)))
    if not shape:
        return mkreal(T.sel(nm, *lv), np=True)
    return mkarr(shape, dtype, lambda *i: T.sel(nm, *(list(lv) + list(i))))


def size_shape(I, s):
    if s is None:
        return ()
    return shape_arg(I, s)


@lib("numpy.random.randn")
def rnd_randn(I, args, kw):
    return draw(I, "normal01", shape_arg(I, tuple(args)) if args else (), ())


@lib("numpy.random.rand", "numpy.random.random_sample", "numpy.random.random")
def rnd_rand(I, args, kw):
    if "size" in kw:
        return draw(I, "uniform01", size_shape(I, kw["size"]), ())
    return draw(I, "uniform01", shape_arg(I, tuple(args)) if args else (), ())


@lib("numpy.random.normal")
def rnd_normal(I, args, kw):
    loc, scale, size = getargs(args, kw, ("loc", 0), ("scale", 1), ("size", None))
    z = draw(I, "normal01", size_shape(I, size), ())
    return binop(I, "Add", loc, binop(I, "Mult", scale, z)) if not (isinstance(loc, int) and loc == 0) else binop(I, "Mult", scale, z) if not (isinstance(scale, int) and scale == 1) else z


@lib("numpy.random.standard_normal")
def rnd_std(I, args, kw):
    size, = getargs(args, kw, ("size", None))
    return draw(I, "normal01", size_shape(I, size), ())


@lib("numpy.random.multivariate_normal", "scipy.stats.multivariate_normal.rvs")
def rnd_mvn(I, args, kw):
    m, c, size = getargs(args, kw, "mean", "cov", ("size", None))
    m, c = asarray(I, m), asarray(I, c)
    if m.ndim != 1:
        raise PyExc("ValueError", "mean must be 1 dimensional")
    if c.ndim != 2:
        raise PyExc("ValueError", "cov must be 2 dimensional and square")
    I.require(T.eq(c.shape[0], c.shape[1]), "ValueError", "cov must be 2 dimensional and square")
    I.require(T.eq(m.shape[0], c.shape[0]), "ValueError", "mean and cov must have same length")
    return draw(I, "mvn", size_shape(I, size) + (m.shape[0],), (m, c))


class FrozenMVN:
    def __init__(self, m, c):
        self.m, self.c = m, c

    def pyattr(self, I, name):
        if name == "rvs":
            def rvs(I, args, kw):
                size, = getargs(args, kw, ("size", 1))
                n = T.intval(int_E(I, size)) if not isinstance(size, tuple) else None
                sh = (self.m.shape[0],) if n == 1 else size_shape(I, size) + (self.m.shape[0],)
                return draw(I, "mvn", sh, (self.m, self.c))
            return Builtin("mvn.rvs", rvs)
        raise Unsupported("frozen multivariate_normal.%s" % name)


@lib("scipy.stats.multivariate_normal")
def st_mvn(I, args, kw):
    m, c = getargs(args, kw, "mean", "cov")
    return FrozenMVN(asarray(I, m), asarray(I, c))


@lib("numpy.random.seed")
def rnd_seed(I, args, kw):
    raise Unsupported("reseeding the global generator")


# ------------------------------------------------------------------ opaque numerics
def provably(I, f, n, hyps=None):
    """f(indices) is zero for all indices (and hypotheses)"""
    cx = getattr(getattr(I, "path", None), "cx", None) or prover.Cx()
    v = [T.fresh("q") for _ in range(n)]
    if hyps is not None:
        cx = cx.extend(*hyps(*v))
    return prover.prove_eq(T.lift(f(*v)), ZERO, cx, budget=5)[0] == "proved"


def inverse(I, a):
    """elements of the inverse matrix: reciprocals for a diagonal matrix, else uninterpreted (symmetric if the matrix is)"""
    g = a.getter()
    if provably(I, lambda i, j: num(g(i, j)), 2, lambda i, j: [T.ne(i, j)]):
        return lambda i, j: ite(T.eq(i, j), T.div(ONE, num(g(i, i))), ZERO)
    r = opaque_array(I, "inv", [a], a.shape).getter()
    if provably(I, lambda i, j: sub(num(g(i, j)), num(g(j, i))), 2):
        half = T.div(ONE, const(2))
        return lambda i, j: mul(half, add(num(r(i, j)), num(r(j, i))))
    return lambda i, j: num(r(i, j))


def square(I, x):
    a = asarray(I, x)
    if a.ndim != 2:
        raise PyExc("LinAlgError")
    if a.dtype == "c":
        raise Unsupported("complex matrices")
    I.require(T.eq(a.shape[0], a.shape[1]), "LinAlgError", "Last 2 dimensions of the array must be square")
    return a


@lib("numpy.linalg.inv", "scipy.linalg.inv")
def la_inv(I, args, kw):
    a = square(I, args[0])
    return mkarr(a.shape, "f", inverse(I, a))


@lib("numpy.linalg.solve", "scipy.linalg.solve")
def la_solve(I, args, kw):
    """the inverse times the right hand side"""
    a, b = square(I, args[0]), asarray(I, args[1])
    if kw or len(args) > 2 or b.dtype == "c" or b.ndim not in (1, 2):
        raise Unsupported("solve options")
    I.require(T.eq(a.shape[0], b.shape[0]), "LinAlgError")
    v, gb, n = inverse(I, a), b.getter(), a.shape[0]
    return mkarr(b.shape, "f", lambda i, *r: T.sum_(ZERO, n, lambda j: mul(v(i, j), num(gb(j, *r)))))


@lib("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def la_lstsq(I, args, kw):
    a, b = asarray(I, args[0]), asarray(I, args[1])
    I.require(T.eq(a.shape[0], b.shape[0]), "LinAlgError")
    if a.dtype == "c" or b.dtype == "c":
        raise Unsupported("complex least squares")
    x = opaque_array(I, "lstsq", [a, b], (a.shape[1],) + b.shape[1:])
    # sums of squared residuals, or an empty array if the rank is deficient
    sym, fvs = opaque_key(I, "lstsqres", [a, b])
    T.declare(sym + "n", len(fvs), "int", nonneg=True)
    n = T.sel(sym + "n", *fvs)
    cols = b.shape[1] if b.ndim == 2 else ONE
    res = opaque_array(I, "lstsqres", [a, b], (ite(T.gt(n, ZERO), cols, ZERO),))
    return (x, res, Opaque("rank"), Opaque("sv"))


@lib("numpy.linalg.svd")
def la_svd(I, args, kw):
    a, full = getargs(args, {k: v for k, v in kw.items() if k == "full_matrices"}, "a", ("full_matrices", True))
    a = asarray(I, a)
    if full is not False and full != 0 or set(kw) - {"full_matrices"} or a.ndim != 2 or a.dtype == "c":
        raise Unsupported("svd options")
    m, n = a.shape
    if I.entails(T.ge(m, n)):
        k = n
    elif I.entails(T.ge(n, m)):
        k = m
    else:
        k = n if I.branch(T.ge(m, n)) else m
    return (opaque_array(I, "svdu", [a], (m, k)), opaque_array(I, "svds", [a], (k,)), opaque_array(I, "svdv", [a], (k, n)))


@lib("numpy.count_nonzero")
def np_count_nonzero(I, args, kw):
    a = asarray(I, args[0])
    if kw or len(args) > 1 or a.dtype == "c" or a.ndim != 1:
        raise Unsupported("count_nonzero options")
    g = a.getter()
    nz = (lambda e: e if e.sort == "bool" else T.ne(e, ZERO))
    return mkint(T.sum_(ZERO, a.shape[0], lambda j: ite(nz(g(j)), ONE, ZERO)))


@lib("numpy.poly")
def np_poly(I, args, kw):
    a = asarray(I, args[0])
    if a.ndim != 1:
        raise Unsupported("poly of a matrix")
    return opaque_array(I, "poly", [a], (add(a.shape[0], ONE),), "c" if a.dtype == "c" else "f")


@lib("numpy.linalg.norm", "scipy.linalg.norm")
def la_norm(I, args, kw):
    a = asarray(I, args[0])
    if kw or len(args) > 1 or a.ndim > 2:
        raise Unsupported("norm options")
    g = a.getter()
    sq = (lambda e: add(mul(e[0], e[0]), mul(e[1], e[1]))) if a.dtype == "c" else (lambda e: mul(num(e), num(e)))

    def tot(ax, idx):
        return sq(g(*idx)) if ax == a.ndim else T.sum_(ZERO, a.shape[ax], lambda j: tot(ax + 1, idx + (j,)))
    return mkreal(T.fn("sqrt", tot(0, ())), np=True)


@lib("scipy.signal.freqz")
def sp_freqz(I, args, kw):
    b, a, worN = getargs(args, kw, "b", ("a", 1), ("worN", 512))
    b, a, w = asarray(I, b), asarray(I, a), asarray(I, worN)
    if len(kw) + len(args) > 3 or w.ndim != 1 or b.dtype == "c" or a.dtype == "c":
        raise Unsupported("freqz options")
    if b.ndim == 2 and T.intval(b.shape[1]) == 1:
        gb2 = b.getter()
        b = mkarr((b.shape[0],), "f", lambda i: num(gb2(i, ZERO)))
    if a.ndim == 0:
        a0 = a.elem()
        a = mkarr((1,), "f", lambda i: num(a0))
    if b.ndim != 1 or a.ndim != 1:
        raise Unsupported("freqz n-d")
    gw = w.getter()

    def poly(c, x):
        g = c.getter()
        return (T.sum_(ZERO, c.shape[0], lambda j: mul(num(g(j)), T.fn("cos", mul(j, x)))),
                T.neg(T.sum_(ZERO, c.shape[0], lambda j: mul(num(g(j)), T.fn("sin", mul(j, x))))))

    def h(i):
        x = num(gw(i))
        p, q = poly(b, x), poly(a, x)
        d = add(mul(q[0], q[0]), mul(q[1], q[1]))
        return (T.div(add(mul(p[0], q[0]), mul(p[1], q[1])), d), T.div(sub(mul(p[1], q[0]), mul(p[0], q[1])), d))
    return (w, mkarr(w.shape, "c", h))


@lib("numpy.roots")
def np_roots(I, args, kw):
    a = asarray(I, args[0])
    if T.intval(a.shape[0]) in (0, 1):
        return mkarr((ZERO,), "c", lambda i: (ZERO, ZERO))
    # leading/trailing zeros are stripped by numpy: the count is not fixed
    sym, fvs = opaque_key(I, "roots", [a])
    cnt = sym + "n"
    T.declare(cnt, len(fvs), "int", nonneg=True)
    n = T.sel(cnt, *fvs)
    return opaque_array(I, "roots", [a], (n,), "c")


@lib("numpy.round", "numpy.around", "numpy.rint")
def np_round(I, args, kw):
    a = asarray(I, args[0])
    if len(args) > 1 or kw or a.dtype not in ("f", "i"):
        raise Unsupported("round options")
    if a.dtype == "i":
        return args[0]
    return elementwise(I, lambda e: round_even(num(e)), lambda d: "f", args[0])


def round_even(x):
    """nearest integer, ties to the even one"""
    r = T.fn("floor", add(x, T.div(ONE, const(2))))
    return ite(T.and_(T.eq(add(x, T.div(ONE, const(2))), r), T.ne(mul(const(2), T.fn("floor", T.div(r, const(2)))), r)), sub(r, ONE), r)


@lib("numpy.unique")
def np_unique(I, args, kw):
    a = asarray(I, args[0])
    if len(args) > 1 or kw or a.ndim != 1 or a.dtype not in ("f", "i"):
        raise Unsupported("unique options")
    g = a.getter()
    if I.entails(T.gt(a.shape[0], ZERO)):
        from . import prover
        j = T.fresh("u")
        I2 = T.sub(T.lift(num(g(j))), T.lift(num(g(ZERO))))
        if prover.prove_eq(I2, ZERO, I.path.cx, budget=5)[0] == "proved":
            e0 = g(ZERO)
            return mkarr((ONE,), a.dtype, lambda i: e0)
    sym, fvs = opaque_key(I, "unique", [a])
    cnt = sym + "n"
    T.declare(cnt, len(fvs), "int", nonneg=True)
    return opaque_array(I, "unique", [a], (T.sel(cnt, *fvs),), a.dtype)


@lib("numpy.unwrap")
def np_unwrap(I, args, kw):
    a = asarray(I, args[0])
    if kw or len(args) > 1:
        raise Unsupported("unwrap options")
    return opaque_array(I, "unwrap", [a], a.shape)


@lib("numpy.linalg.eigvals")
def la_eigvals(I, args, kw):
    a = asarray(I, args[0])
    I.require(T.eq(a.shape[0], a.shape[1]), "LinAlgError")
    return eigvals(I, a)


def eigvals(I, a):
    """eigenvalues; those of A + c I are those of A plus c: uninterpreted in A - A[0,0] I"""
    if a.dtype == "c":
        return opaque_array(I, "eigvals", [a], (a.shape[0],), "c")
    g = a.getter()
    c = num(g(ZERO, ZERO))
    r = opaque_array(I, "eigvals", [mkarr(a.shape, "f", lambda i, j: ite(T.eq(i, j), sub(num(g(i, j)), c), num(g(i, j))))], (a.shape[0],), "c")
    return mkarr(r.shape, "c", lambda k: (add(r.elem(k)[0], c), r.elem(k)[1]))


# ------------------------------------------------------------------ constants, types, builtins
CONSTS.update({
    "numpy.pi": mkreal(T.PI), "math.pi": mkreal(T.PI), "numpy.newaxis": None, "numpy.nan": mkreal(T.fn("nan")),
    "numpy.NaN": mkreal(T.fn("nan")), "numpy.inf": mkreal(T.fn("inf")), "numpy.e": mkreal(T.fn("exp", ONE)),
    "sys.stdout": Opaque("stdout"), "sys.version_info": (3, 9, 18), "typing.TYPE_CHECKING": False,
})

ALIASES.update({"scipy.signal.signaltools.convolve": "scipy.signal.convolve", "numpy.core.numeric.pi": "numpy.pi"})


def _m_float(v):
    return isinstance(v, Sc) and v.kind == "real"


def _m_int(v):
    return isinstance(v, int) or isinstance(v, Sc) and (v.kind == "int" and not v.np or v.kind == "bool" and not v.np)


def to_float(I, args, kw):
    if not args:
        return mkreal(ZERO)
    v = args[0]
    if isinstance(v, str):
        if v in ("nan",):
            return mkreal(T.fn("nan"))
        if v in ("inf",):
            return mkreal(T.fn("inf"))
        try:
            return mkreal(const(Fraction(v)))
        except ValueError:
            raise PyExc("ValueError", "float of string")
    if isinstance(v, Arr):
        I.require(T.eq(size_E(v), ONE), "TypeError", "only size-1 arrays")
        v = mkelem(v.elem(*[ZERO] * v.ndim), v.dtype)
    if v is None or isinstance(v, (list, tuple, dict)):
        raise PyExc("TypeError")
    e = sc_elem(v)
    if isC(e):
        raise PyExc("TypeError", "can't convert complex to float")
    return mkreal(num(e))


def to_int(I, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc("ValueError")
    if isinstance(v, Arr):
        I.require(T.eq(size_E(v), ONE), "TypeError", "only size-1 arrays")
        v = mkelem(v.elem(*[ZERO] * v.ndim), v.dtype)
    if v is None or isinstance(v, (list, tuple, dict)):
        raise PyExc("TypeError")
    e = sc_elem(v)
    if isC(e):
        raise PyExc("TypeError")
    return mkint(T.trunc(num(e)))


def to_bool(I, args, kw):
    c = I.truth_E(args[0]) if args else False
    return c if isinstance(c, bool) else mkbool(c)


def to_complex(I, args, kw):
    re = sc_elem(args[0])
    im = sc_elem(args[1]) if len(args) > 1 else ZERO
    r = eadd(cplx(num(re)), emul((ZERO, ONE), num(im)))
    return Sc("cplx", r[0], r[1])


def to_list(I, args, kw):
    it = I_mod()
    if not args:
        return it.PList()
    v = args[0]
    x = I.get_iter(v)
    if isinstance(x, list):
        return it.PList(x)
    r = it.PList()
    r.sym = SymList(x.n, x.item)
    return r


def to_tuple(I, args, kw):
    return tuple(I.iter_concrete(args[0])) if args else ()


def make_builtins(I):
    it = I_mod()
    _fix_exc()
    B = {}

    def b(name):
        def deco(f):
            B[name] = Builtin(name, f)
            return f
        return deco

    def typ(name, match, call=None):
        return PyType(name, match, call)

    B["float"] = typ("float", _m_float, to_float)
    B["int"] = typ("int", _m_int, to_int)
    B["bool"] = typ("bool", lambda v: isinstance(v, bool) or isinstance(v, Sc) and v.kind == "bool" and not v.np, to_bool)
    B["complex"] = typ("complex", lambda v: isinstance(v, Sc) and v.kind == "cplx", to_complex)
    B["str"] = typ("str", lambda v: isinstance(v, str), lambda I, a, k: str(a[0]) if a and isinstance(a[0], (str, int)) else "<fmt>")
    B["list"] = typ("list", lambda v: isinstance(v, list), to_list)
    B["tuple"] = typ("tuple", lambda v: isinstance(v, tuple), to_tuple)

    def to_dict(I, args, kw):
        d = {}
        if args:
            if isinstance(args[0], dict):
                d.update(args[0])
            else:
                for x in I.iter_concrete(args[0]):
                    p, q = I.iter_concrete(x)
                    d[I.hashable(p)] = q
        d.update(kw)
        return d
    B["dict"] = typ("dict", lambda v: isinstance(v, dict), to_dict)
    B["set"] = typ("set", lambda v: isinstance(v, set), lambda I, a, k: set(I.iter_concrete(a[0])) if a else set())
    B["object"] = typ("object", lambda v: True, lambda I, a, k: Opaque("object"))
    B["type"] = typ("type", lambda v: isinstance(v, (PyType, it.UClass)), _type_of)
    B["slice"] = typ("slice", lambda v: isinstance(v, slice), lambda I, a, k: slice(*(a if len(a) > 1 else [None, a[0]])))
    B["staticmethod"] = typ("staticmethod", lambda v: False)
    B["property"] = typ("property", lambda v: False)

    @b("len")
    def _len(I, args, kw):
        v = args[0]
        if isinstance(v, it.PList) and v.sym is not None:
            return mkint(v.sym.n)
        if isinstance(v, (str, list, tuple, dict, set)):
            return len(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc("TypeError", "len() of unsized object")
            return mkint(v.shape[0])
        if isinstance(v, (Dia, Sparse)):
            raise PyExc("TypeError", "sparse matrix length is ambiguous")
        if isinstance(v, (SymList, it.SymRange)):
            return mkint(v.n)
        if isinstance(v, it.UObj):
            c = I.class_attr(v.cls, "__len__")
            if c is not None:
                return I.call(it.Bound(c, v), [], {})
        raise PyExc("TypeError", "object has no len()")

    @b("range")
    def _range(I, args, kw):
        for x in args:
            if not (_m_int(x) or isinstance(x, Sc) and x.kind == "int"):
                raise PyExc("TypeError", "'float' object cannot be interpreted as an integer")
        es = [int_E(I, x) for x in args]
        if len(es) == 1:
            lo, hi, st = ZERO, es[0], 1
        else:
            lo, hi = es[0], es[1]
            st = 1
            if len(es) == 3:
                st = T.intval(es[2])
                if st is None:
                    raise Unsupported("range with symbolic step")
        d = sub(hi, lo) if st > 0 else sub(lo, hi)
        n = _max0(I, d)
        if abs(st) != 1:
            n = T.floordiv(add(n, const(abs(st) - 1)), const(abs(st)))
        return it.SymRange(lo, n, st)

    @b("isinstance")
    def _isinstance(I, args, kw):
        v, ts = args
        ts = ts if isinstance(ts, tuple) else (ts,)
        for t in ts:
            if isinstance(t, PyType):
                if t.match is None:
                    raise Unsupported("isinstance %s" % t.name)
                if t.match(v):
                    return True
            elif isinstance(t, it.UClass):
                if isinstance(v, it.UObj) and _subclass(v.cls, t):
                    return True
            elif isinstance(t, it.ExcType):
                if isinstance(v, Opaque) and v.what == "exc" and it.exc_isa(v.data, t.name):
                    return True
            elif isinstance(t, tuple):
                if _isinstance(I, [v, t], {}):
                    return True
            else:
                raise Unsupported("isinstance against %r" % (t,))
        return False

    def _subclass(c, t):
        return c is t or any(isinstance(x, it.UClass) and _subclass(x, t) for x in c.bases)

    @b("abs")
    def _abs(I, args, kw):
        return np_abs(I, args, kw)

    def _mm(kind):
        def f(I, args, kw):
            if kw:
                raise Unsupported(kind + " keyword")
            items = list(args)
            if len(items) == 1:
                if isinstance(items[0], Arr) and T.intval(items[0].shape[0]) is None:
                    return LIB["numpy." + kind](I, items, {})
                items = I.iter_concrete(items[0])
            if not items:
                raise PyExc("ValueError", "empty sequence")
            r = items[0]
            for x in items[1:]:
                if isinstance(r, int) and isinstance(x, int):
                    r = min(r, x) if kind == "min" else max(r, x)
                    continue
                c = compare(I, "Lt" if kind == "min" else "Gt", x, r)
                if dtype_of(r) == "f" and dtype_of(x) == "f" and not isinstance(c, bool):
                    r = mkreal(ite(c.re, sc_elem(x), sc_elem(r)))
                    continue
                r = x if I.truth(c) else r
            return r
        B[kind] = Builtin(kind, f)
    _mm("min")
    _mm("max")

    @b("sum")
    def _sum(I, args, kw):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        x = I.get_iter(args[0])
        if isinstance(x, list):
            r = start
            for y in x:
                r = binop(I, "Add", r, y)
            return r
        s = np_sum(I, [SymList(x.n, x.item)], {"axis": 0})
        return binop(I, "Add", start, s) if not (isinstance(start, int) and start == 0) else s

    @b("enumerate")
    def _enum(I, args, kw):
        x, start = getargs(args, kw, "iterable", ("start", 0))
        xs = I.get_iter(x)
        if isinstance(xs, list):
            return it.PList([(binop(I, "Add", start, i), y) for i, y in enumerate(xs)])
        s0 = int_E(I, start)
        return it.SymIter(xs.n, lambda k: (mkint(add(s0, k)), xs.item(k)))

    @b("zip")
    def _zip(I, args, kw):
        its = [I.get_iter(x) for x in args]
        if all(isinstance(x, list) for x in its):
            return it.PList(list(zip(*its)))
        ns = [const(len(x)) if isinstance(x, list) else x.n for x in its]
        n = ns[0]
        for m in ns[1:]:
            n = n if I.branch(T.le(n, m)) else m
        c = T.intval(n)
        if c is not None:
            return it.PList([tuple(x[i] if isinstance(x, list) else x.item(const(i)) for x in its) for i in range(c)])
        if any(isinstance(x, list) for x in its):
            raise Unsupported("zip of symbolic and concrete sequences")
        return it.SymIter(n, lambda k: tuple(x.item(k) for x in its))

    @b("iter")
    def _iter(I, args, kw):
        if isinstance(args[0], it.IterObj):
            return args[0]
        return it.IterObj(I.get_iter(args[0]))

    @b("next")
    def _next(I, args, kw):
        o = args[0]
        if not isinstance(o, it.IterObj):
            raise Unsupported("next of %r" % (o,))
        if isinstance(o.it, list):
            p = T.intval(o.pos)
            if p is None:
                raise Unsupported("symbolic position in concrete iterator")
            if p >= len(o.it):
                raise PyExc("StopIteration")
            o.pos = const(p + 1)
            return o.it[p]
        I.require(T.lt(o.pos, o.it.n), "StopIteration")
        if I.iter_log is not None:
            I.iter_log.append(o)
        r = o.it.item(o.pos)
        o.pos = add(o.pos, ONE)
        return r

    @b("reversed")
    def _rev(I, args, kw):
        x = I.get_iter(args[0])
        if isinstance(x, list):
            return it.PList(reversed(x))
        return it.SymIter(x.n, lambda k: x.item(sub(sub(x.n, ONE), k)))

    @b("sorted")
    def _sorted(I, args, kw):
        l = I.iter_concrete(args[0])
        if all(isinstance(x, (int, str)) for x in l) and not kw:
            return it.PList(sorted(l))
        raise Unsupported("sorted")

    @b("map")
    def _map(I, args, kw):
        f = args[0]
        if len(args) != 2:
            raise Unsupported("map of several iterables")
        x = I.get_iter(args[1])
        if isinstance(x, list):
            return it.PList([I.call(f, [y], {}) for y in x])
        return it.SymIter(x.n, lambda k: I.call(f, [x.item(k)], {}))

    @b("print")
    def _print(I, args, kw):
        return None

    @b("round")
    def _round(I, args, kw):
        v = args[0]
        if isinstance(v, int):
            return v
        if len(args) > 1:
            return mkreal(T.fn("round2", num(sc_elem(v)), num(sc_elem(args[1]))))
        return mkint(T.fn("round", num(sc_elem(v))))

    @b("any")
    def _any(I, args, kw):
        x = args[0]
        if isinstance(x, Arr):
            return np_any(I, [x], {})
        for y in I.iter_concrete(x):
            if I.truth(y):
                return True
        return False

    @b("all")
    def _all(I, args, kw):
        x = args[0]
        if isinstance(x, Arr):
            return np_all(I, [x], {})
        for y in I.iter_concrete(x):
            if not I.truth(y):
                return False
        return True

    @b("callable")
    def _callable(I, args, kw):
        return isinstance(args[0], (it.Func, it.Bound, Builtin, it.Partial, PyType, it.UClass))

    @b("hasattr")
    def _hasattr(I, args, kw):
        try:
            I.getattr(args[0], args[1])
            return True
        except PyExc as ex:
            if ex.name == "AttributeError":
                return False
            raise

    @b("getattr")
    def _getattr(I, args, kw):
        try:
            return I.getattr(args[0], args[1])
        except PyExc as ex:
            if ex.name == "AttributeError" and len(args) > 2:
                return args[2]
            raise

    @b("divmod")
    def _divmod(I, args, kw):
        return (binop(I, "FloorDiv", *args), binop(I, "Mod", *args))

    @b("pow")
    def _pow(I, args, kw):
        return binop(I, "Pow", *args)

    @b("id")
    def _id(I, args, kw):
        raise Unsupported("id()")

    @b("repr")
    def _repr(I, args, kw):
        return "<fmt>"

    @b("format")
    def _format(I, args, kw):
        return "<fmt>"

    B["NotImplemented"] = Opaque("NotImplemented")
    for n in list(it.EXC_PARENTS) + ["BaseException"]:
        B[n] = it.ExcType(n)
    return B


def _type_of(I, args, kw):
    v = args[0]
    B = I.builtins
    for n in ("bool", "int", "float", "complex", "str", "list", "tuple", "dict"):
        if isinstance(v, Sc) and v.np:
            break
        if B[n].match(v):
            return B[n]
    if isinstance(v, Arr):
        return LIB["numpy.ndarray"]
    if v is None:
        return PyType("NoneType", lambda x: x is None)
    if isinstance(v, Sc) and v.np:
        return LIB["numpy.float64"] if v.kind == "real" else LIB["numpy.int64"] if v.kind == "int" else LIB["numpy.bool_"]
    raise Unsupported("type()")


def _t(name, match, call=None):
    t = PyType(name, match, call)
    LIB[name] = t
    return t


_t("numpy.ndarray", lambda v: isinstance(v, Arr))
_t("numpy.matrix_", lambda v: isinstance(v, Matrix))
_t("scipy.sparse.dia_matrix", lambda v: isinstance(v, Dia), lambda I, a, k: sp_dia(I, a, k))
LIB["scipy.sparse.dia.dia_matrix"] = LIB["scipy.sparse.dia_matrix"]
_t("scipy.sparse.spmatrix", lambda v: isinstance(v, (Dia, Sparse)))
for _n in ("float64", "float32", "float_", "double"):
    _t("numpy." + _n, lambda v: isinstance(v, Sc) and v.kind == "real" and v.np, lambda I, a, k: Sc("real", to_float(I, a, k).re, np=True))
_t("numpy.floating", lambda v: isinstance(v, Sc) and v.kind == "real" and v.np)
for _n in ("int64", "int32", "int_", "intp"):
    _t("numpy." + _n, lambda v: isinstance(v, Sc) and v.kind == "int" and v.np, to_int)
_t("numpy.integer", lambda v: isinstance(v, Sc) and v.kind == "int" and v.np)
_t("numpy.number", lambda v: isinstance(v, Sc) and v.np and v.kind != "bool")
_t("numpy.bool_", lambda v: isinstance(v, Sc) and v.kind == "bool" and v.np or isinstance(v, bool) and False, to_bool)
_t("numpy.complex128", lambda v: isinstance(v, Sc) and v.kind == "cplx" and v.np, to_complex)
LIB["numpy.float"] = PyType("float", _m_float, to_float)
LIB["numpy.int"] = PyType("int", _m_int, to_int)
LIB["numpy.bool"] = PyType("bool", lambda v: isinstance(v, bool), to_bool)
LIB["numpy.complex"] = PyType("complex", lambda v: isinstance(v, Sc) and v.kind == "cplx", to_complex)
LIB["numpy.complex_"] = LIB["numpy.complex128"]
_t("numbers.Number", lambda v: is_scalar(v))
_t("numbers.Real", lambda v: is_scalar(v) and not (isinstance(v, Sc) and v.kind == "cplx"))
_t("numbers.Integral", lambda v: isinstance(v, int) or isinstance(v, Sc) and v.kind == "int")


@lib("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def w_warn(I, args, kw):
    return None


LIB["stdout.write"] = w_warn


class WriteSink:
    def pyattr(self, I, name):
        if name in ("write", "flush"):
            return Builtin("stdout." + name, lambda I, a, k: None)
        raise Unsupported("stdout." + name)


CONSTS["sys.stdout"] = WriteSink()
CONSTS["sys.stderr"] = CONSTS["sys.stdout"]


@lib("functools.partial")
def f_partial(I, args, kw):
    return I_mod().Partial(args[0], args[1:], kw)


def ceil_E(I, e):
    """ceil(integer + x) = integer + ceil(x), and ceil(x) = 1 for 0 < x <= 1"""
    c, d = T._linparts(e)
    whole = T._mklin(Fraction(c.numerator // c.denominator), {t: q for t, q in d.items() if t.sort == "int" and q.denominator == 1})
    if T.cval(whole) is not None and T.cval(whole) == 0:
        return T.fn("ceil", e)
    rest = sub(e, whole)
    cx = I.path.cx
    if below_one(rest, cx):
        return add(whole, ONE)
    return add(whole, T.fn("ceil", rest))


def below_one(e, cx):
    """x / y <= 1 for 0 < y: x <= y"""
    if e.op != "mul":
        return False
    num_, den = ONE, ONE
    q, d = T._split(e)
    for t, p in d.items():
        if p > 0:
            num_ = mul(num_, T.powi(t, p))
        else:
            den = mul(den, T.powi(t, -p))
    num_ = T.scale(q, num_)
    return cx.entails(gt0(den)) and cx.entails(gt0(num_)) and cx.entails(T.le(num_, den))


@lib("math.ceil")
def m_ceil(I, args, kw):
    if isinstance(args[0], int):
        return args[0]
    return mkint(ceil_E(I, num(sc_elem(args[0]))))


@lib("math.floor")
def m_floor(I, args, kw):
    if isinstance(args[0], int):
        return args[0]
    return mkint(T.fn("floor", num(sc_elem(args[0]))))


for _n in ("sin", "cos", "exp", "log"):
    LIB["math." + _n] = (lambda nm: lambda I, args, kw: mkreal(T.fn(nm, num(sc_elem(args[0])))))(_n)
LIB["math.sqrt"] = lambda I, args, kw: mkreal(T.fn("sqrt", num(sc_elem(args[0]))))
LIB["math.factorial"] = lambda I, args, kw: __import__("math").factorial(I.concrete_int(args[0]))
LIB["multiprocessing.cpu_count"] = lambda I, args, kw: Opaque("cpu_count")


class Pool:
    """multiprocessing.Pool: map and imap give the results in the order of the arguments, imap_unordered in the order
    of completion, which is any permutation (the function is evaluated in a copy of the process: its effects are lost)"""

    def pyattr(self, I, name):
        if name in ("imap", "map"):
            return Builtin("Pool." + name, lambda I, a, k: I.builtins["map"].f(I, list(a[:2]), {}))
        if name == "imap_unordered":
            return Builtin("Pool." + name, pool_unordered)
        if name in ("close", "join", "terminate", "__exit__"):
            return Builtin("Pool." + name, lambda I, a, k: None)
        if name == "__enter__":
            return Builtin("Pool." + name, lambda I, a, k: self)
        raise Unsupported("Pool." + name)


_COMPLETION = [0]


def pool_unordered(I, args, kw):
    f, x = args[0], I.get_iter(args[1])
    if isinstance(x, list):
        raise Unsupported("imap_unordered over a list")
    _COMPLETION[0] += 1
    uid = _COMPLETION[0]
    nm = perm_name(x.n, lambda k: T.fn("completion", T.const(uid), k))
    return I_mod().SymIter(x.n, lambda k: I.call(f, [x.item(T.sel(nm, k))], {}))


@lib("multiprocessing.Pool")
def mp_pool(I, args, kw):
    return Pool()

for _n in ("Optional", "Union", "Tuple", "Dict", "List", "Any", "Callable", "Iterable", "Sequence"):
    LIB["typing." + _n] = Opaque("typing")
for _n in ("LinAlgError",):
    CONSTS["numpy.linalg." + _n] = None


def _fix_exc():
    from . import interp
    CONSTS["numpy.linalg.LinAlgError"] = interp.ExcType("LinAlgError")


def gi(I, args, kw):
    return None


@lib("numpy.histogram")
def np_histogram(I, args, kw):
    """explicit ascending edges: elements per half-open bin, the last bin closed"""
    a, bins = getargs(args, kw, "a", ("bins", None))
    if bins is None or is_scalar(bins) or isinstance(bins, str):
        raise Unsupported("histogram without edges")
    a, bins = asarray(I, a), asarray(I, bins)
    if a.ndim != 1 or bins.ndim != 1 or a.dtype not in "if" or bins.dtype not in "if":
        raise Unsupported("histogram of other arrays")
    e, g, nb, n = bins.getter(), a.getter(), sub(bins.shape[0], ONE), a.shape[0]
    I.require(gt0(nb), "ValueError")
    if not is_sorted(I, bins):
        raise Unsupported("histogram with edges not known to be ascending")


    def count(k):
        hi = add(k, ONE)
        inside = lambda x: and_(T.ge(x, num(e(k))), ite(T.eq(hi, nb), T.le(x, num(e(hi))), T.lt(x, num(e(hi)))))
        return T.sum_(ZERO, n, lambda r: ite(inside(num(g(r))), ONE, ZERO))
    return mkarr((nb,), "i", count), bins
