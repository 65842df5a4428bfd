"""C08: FIR filtering propagates signal and coefficient covariances exactly."""
from vc.contract import *
from vc import terms as T
from specs.fir import *

M = "PyDynamic.uncertainty.propagate_filter:"


def signal(B, name="x", n="n", dtype="f"):
    n = B.int(n, lo=1, gen=(1, 6))
    return n, B.arr(name, (n,), dtype=dtype)


for ic in ("constant", "zero"):
    for ux in (True, False):
        for ut in (True, False):
            @contract("C08", M + "_fir_filter", "%s initial conditions, %s signal, %s filter" % (ic, "uncertain" if ux else "exact", "uncertain" if ut else "exact"))
            def _(B, ic=ic, ux=ux, ut=ut):
                n, x = signal(B)
                L = B.int("L", lo=1, gen=(1, 5))
                th = B.arr("theta", (L,))
                Ux = B.arr("Ux", (n, n), kind="psd") if ux else None
                Ut = B.arr("Utheta", (L, L), kind="psd") if ut else None
                B.call(x, th, Ux, Ut, initial_conditions=ic)
                c = ic == "constant"
                xe = ext_signal(x, c)
                Ue = ext_cov(Ux, n, c) if ux else None
                B.ret_len(2)
                B.ret_array((0,), (n,), fir_values(xe, th, L), "f", "y is the filtered signal")
                B.ret_array((1,), (n, n), fir_cov(xe, th, L, Ue, Ut), "f", "Uy is the covariance of the filtered signal")


@contract("C08", M + "_fir_filter", "unknown initial conditions are rejected")
def _(B):
    n, x = signal(B)
    L = B.int("L", lo=1, gen=(1, 5))
    th = B.arr("theta", (L,))
    B.call(x, th, initial_conditions="steady")
    B.raises("ValueError")


# --------------------------------------------------------------- FIRuncFilter
def sigma(B, kind, n):
    """the four ways to describe the noise: argument, keyword 'kind', covariance"""
    if kind == "float":
        s = B.real("sigma", pos=True)
        return s, {}, lambda i, j: ite(eq(i, j), s ** 2, 0)
    if kind == "diag":
        s = B.arr("sigma", (n,), kind="nonneg")
        return s, {"kind": "diag"}, lambda i, j: ite(eq(i, j), s(i) ** 2, 0)
    if kind == "corr":
        q = B.int("q", lo=1, gen=(1, 7))
        s = B.arr("sigma", (q,))

        def U(i, j):
            d = ite(ge(i, j), i - j, j - i)
            return cases(lt(d, q), s(d), 0)
        return s, {"kind": "corr"}, U
    s = B.arr("Uy", (n, n), kind="psd")
    return s, {}, s


def coefficients(B, kind, name="theta", size="L"):
    L = B.int(size, lo=1, gen=(1, 5))
    th = B.arr(name, (L,))
    if kind is None:
        return L, th, None, None
    if kind == "vector":
        u = B.arr("U" + name, (L,), kind="nonneg")
        return L, th, u, lambda k, l: ite(eq(k, l), u(k) ** 2, 0)
    u = B.arr("U" + name, (L, L), kind="psd")
    return L, th, u, u


def rolled(n, shift, f):
    return lambda *i: f(*[T.mod(T.lift(k) + shift, n) for k in i])


KIND = {"float": "noise standard deviation", "diag": "vector of standard deviations", "corr": "autocovariance", "full": "covariance matrix"}
KTH = {None: "exact coefficients", "vector": "coefficient standard deviations", "full": "coefficient covariance"}
for sk in KIND:
    for tk in KTH:
        @contract("C08", M + "FIRuncFilter", "full covariance: %s, %s" % (KIND[sk], KTH[tk]))
        def _(B, sk=sk, tk=tk):
            n, y = signal(B, "y")
            L, th, ut, Ut = coefficients(B, tk)
            s, kw, Uy = sigma(B, sk, n)
            if ut is not None:
                kw["Utheta"] = ut
            B.call(y, s, th, return_full_covariance=True, **kw)
            xe, Ue = ext_signal(y, True), ext_cov(Uy, n, True)
            B.ret_len(2)
            B.ret_array((0,), (n,), fir_values(xe, th, L), "f", "x is the filtered signal")
            B.ret_array((1,), (n, n), fir_cov(xe, th, L, Ue, Ut), "f", "Ux is the covariance of the filtered signal")


for sk in ("float", "full"):
    @contract("C08", M + "FIRuncFilter", "shifted output: %s" % KIND[sk])
    def _(B, sk=sk):
        n, y = signal(B, "y")
        L, th, ut, Ut = coefficients(B, "full")
        s, kw, Uy = sigma(B, sk, n)
        sh = B.int("shift", lo=None, gen=(-8, 8))
        B.call(y, s, th, ut, shift=sh, return_full_covariance=True, **kw)
        xe, Ue = ext_signal(y, True), ext_cov(Uy, n, True)
        B.ret_array((0,), (n,), rolled(n, sh, fir_values(xe, th, L)), "f", "x is the filtered signal, moved by shift")
        B.ret_array((1,), (n, n), rolled(n, sh, fir_cov(xe, th, L, Ue, Ut)), "f", "Ux is its covariance, moved by shift")


@contract("C08", M + "FIRuncFilter", "standard uncertainties are the diagonal of the covariance")
def _(B):
    n, y = signal(B, "y")
    L, th, ut, Ut = coefficients(B, "full")
    s, kw, Uy = sigma(B, "full", n)
    sh = B.int("shift", lo=None, gen=(-8, 8))
    B.call(y, s, th, ut, shift=sh)
    xe, Ue = ext_signal(y, True), ext_cov(Uy, n, True)
    U = fir_cov(xe, th, L, Ue, Ut)
    B.ret_array((0,), (n,), rolled(n, sh, fir_values(xe, th, L)), "f", "x is the filtered signal, moved by shift")
    B.ret_array((1,), (n,), rolled(n, sh, lambda t: sqrt(T.fn("abs", U(t, t)))), "f", "ux are the standard uncertainties")


@contract("C08", M + "FIRuncFilter", "preceding low-pass filter")
def _(B):
    n, y = signal(B, "y")
    Lb, bl, _, _ = coefficients(B, None, "blow", "Lb")
    L, th, ut, Ut = coefficients(B, "full")
    s, kw, Uy = sigma(B, "full", n)
    B.call(y, s, th, ut, blow=bl, return_full_covariance=True, **kw)
    xl = fir_values(ext_signal(y, True), bl, Lb)
    Ul = fir_cov(None, bl, Lb, ext_cov(Uy, n, True), None)
    xe, Ue = ext_signal(xl, True), ext_cov(Ul, n, True)
    B.ret_array((0,), (n,), fir_values(xe, th, L), "f", "x is the low-pass filtered, then filtered signal")
    B.ret_array((1,), (n, n), fir_cov(xe, th, L, Ue, Ut), "f", "Ux is its covariance")


@contract("C08", M + "FIRuncFilter", "an unknown kind of noise is rejected")
def _(B):
    n, y = signal(B, "y")
    L, th, _, _ = coefficients(B, None)
    s = B.arr("sigma", (n,), kind="nonneg")
    B.call(y, s, th, kind="white")
    B.raises("ValueError")
