"""Symbolic run-time values: scalars, arrays with symbolic shape, sparse matrices."""
from fractions import Fraction
from . import terms as T
from .terms import E, const, ite, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    """construct outside the verifier's language subset"""


class PyExc(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, name, msg=None, obj=None):
        Exception.__init__(self, name, msg)
        self.name = name
        self.msg = msg
        self.obj = obj


class Sc:
    """symbolic scalar.  kind: int, real, bool, cplx"""
    __slots__ = ("kind", "re", "im", "np")

    def __init__(self, kind, re, im=None, np=False):
        self.kind = kind
        self.re = re
        self.im = im
        self.np = np

    def __repr__(self):
        return "Sc(%s,%s%s)" % (self.kind, self.re, "" if self.im is None else ",%s" % self.im)


def mkint(e, np=False):
    v = T.intval(e)
    if v is not None and not np:
        return v
    return Sc("int", e, np=np)


def mkreal(e, np=False):
    return Sc("real", T.lift(e), np=np)


def mkbool(e, np=False):
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    return Sc("bool", e, np=np)


def mkelem(x, dtype, np=True):
    """element value -> scalar"""
    if dtype == "c":
        return Sc("cplx", x[0], x[1], np)
    if dtype == "b":
        return mkbool(x)
    if dtype == "i":
        return mkint(x, False) if T.intval(x) is not None else Sc("int", x, np=np)
    return Sc("real", x, np=np)


# --- element arithmetic (E or (E,E) pairs)
def isC(x):
    return isinstance(x, tuple)


def cplx(x):
    return x if isinstance(x, tuple) else (x, ZERO)


def num(x):
    """bool elements to 0/1"""
    if isinstance(x, tuple):
        return x
    if x.sort == "bool":
        return ite(x, ONE, ZERO)
    return x


def eadd(a, b):
    if isC(a) or isC(b):
        a, b = cplx(num(a)), cplx(num(b))
        return (T.add(a[0], b[0]), T.add(a[1], b[1]))
    return T.add(num(a), num(b))


def eneg(a):
    if isC(a):
        return (T.neg(a[0]), T.neg(a[1]))
    return T.neg(num(a))


def esub(a, b):
    return eadd(a, eneg(b))


def emul(a, b):
    if isC(a) or isC(b):
        if not isC(a):
            a = num(a)
            return (T.mul(a, b[0]), T.mul(a, b[1]))
        if not isC(b):
            b = num(b)
            return (T.mul(a[0], b), T.mul(a[1], b))
        return (T.sub(T.mul(a[0], b[0]), T.mul(a[1], b[1])), T.add(T.mul(a[0], b[1]), T.mul(a[1], b[0])))
    return T.mul(num(a), num(b))


def ediv(a, b):
    if isC(b):
        a = cplx(num(a))
        n = T.add(T.powi(b[0], 2), T.powi(b[1], 2))
        inv = T.powi(n, -1)
        r = emul(a, (b[0], T.neg(b[1])))
        return (T.mul(r[0], inv), T.mul(r[1], inv))
    b = num(b)
    if isC(a):
        return (T.div(a[0], b), T.div(a[1], b))
    return T.div(num(a), b)


def epow(a, n):
    """n: E"""
    if isC(n):
        raise Unsupported("complex exponent")
    n = num(n)
    v = T.cval(n)
    if isC(a):
        if v is None or v.denominator != 1:
            raise Unsupported("complex power")
        k = int(v)
        r = (ONE, ZERO)
        for _ in range(abs(k)):
            r = emul(r, a)
        return r if k >= 0 else ediv(ONE, r)
    a = num(a)
    if v is not None:
        return T.powi(a, v if v.denominator != 1 else int(v))
    if T.cval(a) == -1 and n.sort == "int":
        return T.fn("cos", T.mul(T.PI, n))
    return T.fn("pow", a, n)


def eite(c, a, b):
    if isC(a) or isC(b):
        a, b = cplx(num(a)), cplx(num(b))
        return (ite(c, a[0], b[0]), ite(c, a[1], b[1]))
    if not (a.sort == "bool" and b.sort == "bool"):
        a, b = num(a), num(b)
    return ite(c, a, b)


def esum(lo, hi, f):
    """f: E -> elem"""
    v = T.fresh("k")
    x = f(v)
    if isC(x):
        return (T.sum_over(lo, hi, v, x[0]), T.sum_over(lo, hi, v, x[1]))
    return T.sum_over(lo, hi, v, num(x))


def convert(x, frm, to):
    """convert an element value between dtypes (numpy astype semantics)"""
    if frm == to:
        return x
    if to == "c":
        return cplx(num(x))
    if frm == "c":
        raise Unsupported("complex to %s conversion" % to)
    if to == "b":
        return T.ne(num(x), ZERO)
    if to == "i":
        return T.trunc(num(x))
    if to == "f":
        return num(x)
    return x


ORDER = {"b": 0, "i": 1, "f": 2, "c": 3, "o": 4}


def promote(*ds):
    return max(ds, key=lambda d: ORDER[d])


class Storage:
    __slots__ = ("shape", "dtype", "fn", "origin", "written", "ident", "frozen")
    _n = 0

    def __init__(self, shape, dtype, fn, origin=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.fn = fn
        self.origin = origin
        self.written = False
        self.frozen = False
        Storage._n += 1
        self.ident = Storage._n


class Arr:
    """view onto a storage.  spec: per base axis ('fix', E) or ('ax', axis, start, step)"""
    __slots__ = ("shape", "st", "spec", "flags")

    def __init__(self, shape, st, spec=None, flags=None):
        self.shape = tuple(T.lift(s) for s in shape)
        self.st = st
        if spec is None:
            spec = [("ax", i, ZERO, 1) for i in range(len(self.shape))]
        self.spec = spec
        self.flags = flags

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.st.dtype

    def base_index(self, idx):
        out = []
        for s in self.spec:
            if s[0] == "fix":
                out.append(s[1])
            else:
                i = idx[s[1]]
                if s[3] != 1:
                    i = T.scale(s[3], i)
                out.append(T.add(s[2], i))
        return out

    def elem(self, *idx):
        return self.st.fn(*self.base_index(idx))

    def getter(self):
        """snapshot: later writes do not affect it"""
        f = self.st.fn
        bi = self.base_index
        return lambda *idx: f(*bi(idx))

    def __repr__(self):
        return "Arr%s%s" % (self.dtype, list(self.shape))


class Matrix(Arr):
    """numpy.matrix"""
    __slots__ = ()


def mkarr(shape, dtype, fn, origin=None, cls=Arr):
    shape = tuple(T.lift(s) for s in shape)
    return cls(shape, Storage(shape, dtype, memo_fn(fn), origin))


def memo_fn(fn):
    cache = {}

    def g(*idx):
        r = cache.get(idx)
        if r is None:
            r = fn(*idx)
            cache[idx] = r
        return r

    return g


class Dia:
    """scipy.sparse.dia_matrix: data (ndiag x L), offsets (concrete ints or E)"""

    def __init__(self, shape, data, offsets, dtype="f", cls="dia_matrix"):
        self.shape = tuple(T.lift(s) for s in shape)
        self.data = data
        self.offsets = list(offsets)
        self.dtype = dtype
        self.cls = cls


class Sparse:
    """other sparse formats: opaque dense content"""

    def __init__(self, dense, fmt):
        self.dense = dense
        self.fmt = fmt
        self.shape = dense.shape


class SymList:
    """list of symbolic length; elem: E -> value"""

    def __init__(self, n, fn):
        self.n = T.lift(n)
        self.fn = fn


class Opaque:
    """value about which nothing is known except its provenance"""

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return "Opaque(%s)" % self.what


class PyType:
    def __init__(self, name, match=None, call=None):
        self.name = name
        self.match = match
        self.call = call

    def __repr__(self):
        return "<type %s>" % self.name


class Builtin:
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return "<builtin %s>" % self.name


def dtype_of(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, Sc):
        return {"int": "i", "real": "f", "bool": "b", "cplx": "c"}[v.kind]
    if isinstance(v, Arr):
        return v.dtype
    raise Unsupported("dtype of %r" % (v,))


def sc_elem(v):
    """scalar value -> element"""
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return const(v)
    if isinstance(v, Sc):
        if v.kind == "cplx":
            return (v.re, v.im)
        return v.re
    raise Unsupported("not a scalar: %r" % (v,))


def is_scalar(v):
    return isinstance(v, (bool, int, Sc))


def is_py_num(v):
    return isinstance(v, (bool, int, Sc))
