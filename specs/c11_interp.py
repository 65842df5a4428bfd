"""C11: interp1d_unc: interpolated values and their standard uncertainties."""
from vc.contract import *
from vc import terms as T
from vc.npmodel import ss_name, clipE, perm_name

TGT = "PyDynamic.uncertainty.interpolate:interp1d_unc"
NAN = T.fn("nan")


def inputs(B, lo=2):
    n, m = B.int("n", lo=lo, gen=(lo, 6)), B.int("m", lo=1, gen=(1, 6))
    t = B.arr("t", (n,), kind="sorted")
    y = B.arr("y", (n,))
    u = B.arr("uy", (n,), kind="nonneg")
    s = B.arr("tn", (m,))
    return n, m, t, y, u, s


def segment(t, n):
    """right end k of the interval (t[k-1], t[k]] that holds x"""
    nm = ss_name(n, lambda k: t(k), "left")
    return lambda x: clipE(T.fn(nm, x), T.ONE, n - 1)


def lin_val(t, y, n):
    seg = segment(t, n)

    def f(x):
        k = seg(x)
        return (y(k - 1) * (t(k) - x) + y(k) * (x - t(k - 1))) / (t(k) - t(k - 1))
    return f


def lin_unc(t, u, n):
    seg = segment(t, n)

    def f(x):
        k = seg(x)
        return sqrt(((t(k) - x) * u(k - 1)) ** 2 + ((x - t(k - 1)) * u(k)) ** 2) / (t(k) - t(k - 1))
    return f


def coeff(t, n):
    """sensitivity of the value at x to y[c]"""
    seg = segment(t, n)

    def f(x, c):
        k = seg(x)
        return cases(eq(c, k - 1), (t(k) - x) / (t(k) - t(k - 1)), eq(c, k), (x - t(k - 1)) / (t(k) - t(k - 1)), 0)
    return f


def outside(t, n, below, above, f):
    return lambda x: cases(lt(x, t(0)), below, gt(x, t(n - 1)), above, f(x))


FILLS = {"nan": (None, None, None), "constants": ("float", None, None), "pairs": ("pair", None, None), "end values": ("extrapolate", None, None)}


def fills(B, form, t, y, u, n):
    """-> keyword arguments, (below, above) for values and for uncertainties"""
    if form == "nan":
        return {}, (NAN, NAN), (NAN, NAN)
    if form == "constants":
        a, b = B.real("fv"), B.real("fu", pos=True)
        return {"fill_value": a, "fill_unc": b}, (a, a), (b, b)
    if form == "pairs":
        a, b, c, d = B.real("fv0"), B.real("fv1"), B.real("fu0", pos=True), B.real("fu1", pos=True)
        return {"fill_value": (a, b), "fill_unc": (c, d)}, (a, b), (c, d)
    return {"fill_value": "extrapolate", "fill_unc": "extrapolate"}, (y(0), y(n - 1)), (u(0), u(n - 1))


def result(B, m, s, fv, fu):
    B.ret_len(3)
    B.ret_array((0,), (m,), s, "f", "the requested times")
    B.ret_array((1,), (m,), lambda i: fv(s(i)), "f", "interpolated values")
    B.ret_array((2,), (m,), lambda i: fu(s(i)), "f", "their standard uncertainties")


for form in FILLS:
    @contract("C11", TGT, "linear, outside the range: %s" % form)
    def _(B, form=form):
        n, m, t, y, u, s = inputs(B)
        kw, v, w = fills(B, form, t, y, u, n)
        B.call(s, t, y, u, bounds_error=False, **kw)
        result(B, m, s, outside(t, n, v[0], v[1], lin_val(t, y, n)), outside(t, n, w[0], w[1], lin_unc(t, u, n)))


@contract("C11", TGT, "linear, extrapolation asked for by fill_value alone")
def _(B):
    n, m, t, y, u, s = inputs(B)
    B.call(s, t, y, u, fill_value="extrapolate", fill_unc="extrapolate")
    result(B, m, s, outside(t, n, y(0), y(n - 1), lin_val(t, y, n)), outside(t, n, u(0), u(n - 1), lin_unc(t, u, n)))


def somewhere_outside(t, n, s, m):
    return or_(T.exists(0, m, lambda i: lt(s(i), t(0))), T.exists(0, m, lambda i: gt(s(i), t(n - 1))))


for be in (None, True):
    @contract("C11", TGT, "linear, inside the range, bounds_error=%s" % be)
    def _(B, be=be):
        n, m, t, y, u, s = inputs(B)
        bad = somewhere_outside(t, n, s, m)
        B.call(s, t, y, u, bounds_error=be)
        B.raises("ValueError", bad)
        result(B, m, s, lin_val(t, y, n), lin_unc(t, u, n))


@contract("C11", TGT, "linear, sensitivities")
def _(B):
    n, m, t, y, u, s = inputs(B)
    B.call(s, t, y, u, bounds_error=False, fill_value="extrapolate", fill_unc="extrapolate", returnC=True)
    cf = outside_c(t, n, coeff(t, n))
    B.ret_len(4)
    B.ret_array((0,), (m,), s, "f", "the requested times")
    B.ret_array((1,), (m,), lambda i: outside(t, n, y(0), y(n - 1), lin_val(t, y, n))(s(i)), "f", "interpolated values")
    B.ret_array((3,), (m, n), lambda i, c: cf(s(i), c), "f", "C are the sensitivities of the values")
    B.ret_array((2,), (m,), lambda i: outside(t, n, u(0), u(n - 1), lambda x: sqrt(S(0, n, lambda c: (coeff(t, n)(x, c) * u(c)) ** 2)))(s(i)), "f", "standard uncertainties follow from the sensitivities")


def outside_c(t, n, f):
    return lambda x, c: cases(lt(x, t(0)), ite(eq(c, 0), 1, 0), gt(x, t(n - 1)), ite(eq(c, n - 1), 1, 0), f(x, c))


KINDS = {"previous": lambda t, n: (lambda x: clipE(T.fn(ss_name(n, lambda k: t(k), "right"), x), T.ONE, n) - 1),
         "nearest": lambda t, n: (lambda x: clipE(T.fn(ss_name(n - 1, lambda k: (t(k) + t(k + 1)) / 2, "left"), x), T.ZERO, n - 1)),
         "next": lambda t, n: (lambda x: clipE(T.fn(ss_name(n, lambda k: t(k), "left"), x), T.ZERO, n - 1))}
for kind in KINDS:
    for form in FILLS:
        @contract("C11", TGT, "%s, outside the range: %s" % (kind, form))
        def _(B, kind=kind, form=form):
            n, m, t, y, u, s = inputs(B)
            kw, v, w = fills(B, form, t, y, u, n)
            B.call(s, t, y, u, kind=kind, bounds_error=False, **kw)
            k = KINDS[kind](t, n)
            result(B, m, s, outside(t, n, v[0], v[1], lambda x: y(k(x))), outside(t, n, w[0], w[1], lambda x: u(k(x))))


@contract("C11", TGT, "values and uncertainties of different length are rejected")
def _(B):
    n, m, t, y, u, s = inputs(B)
    d = B.int("d", lo=1, gen=(1, 3))
    v = B.arr("v", (n + d,), kind="nonneg")
    B.call(s, t, y, v)
    B.raises("ValueError")


@contract("C11", TGT, "linear, times in any order")
def _(B):
    n, m = B.int("n", lo=2, gen=(2, 6)), B.int("m", lo=1, gen=(1, 6))
    t, y, u, s = B.arr("t", (n,), distinct=True), B.arr("y", (n,)), B.arr("uy", (n,), kind="nonneg"), B.arr("tn", (m,))
    p = perm_name(n, lambda k: t(k))
    of = lambda a: (lambda k: a(T.sel(p, T.lift(k))))
    ts, ys, us = of(t), of(y), of(u)
    B.call(s, t, y, u, bounds_error=False, assume_sorted=False)
    result(B, m, s, outside(ts, n, NAN, NAN, lin_val(ts, ys, n)), outside(ts, n, NAN, NAN, lin_unc(ts, us, n)))
