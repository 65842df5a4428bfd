"""C17: Signal keeps values and uncertainty consistent: what apply_filter leaves in the object is
the result of the method that the arguments ask for (linearised FIR propagation or Monte Carlo)."""
from vc.contract import *
from vc import terms as T
from specs.fir import *
from specs.c09_fir_fast import std_of
from specs.c14_mc import stable

D = "pd_signals:"


def series(B):
    n = B.int("n", lo=2, gen=(2, 6))
    return n, B.arr("time", (n,)), B.arr("values", (n,))


# ---------------------------------------------------------------- construction
def made(B, n, t, v, U, shape, Ts, Fs):
    B.ret_len(5)
    B.ret_array((0,), (n,), t, "f", "time axis")
    B.ret_array((1,), (n,), v, "f", "values")
    B.ret_array((2,), shape, U, "f", "uncertainty")
    B.ret_scalar((3,), Ts, "sampling interval")
    B.ret_scalar((4,), Fs, "sampling frequency")


def construct(name, form, rate="Ts", inconsistent=False):
    @contract("C17", D + "make", name)
    def _(B):
        n, t, v = series(B)
        kw = {}
        h = B.real("h", pos=True)
        if rate == "Ts":
            kw["Ts"], Ts, Fs = h, h, 1 / h
        elif rate == "Fs":
            kw["Fs"], Ts, Fs = h, 1 / h, h
        elif rate == "both":
            q = B.real("q", pos=True, gen=lambda rng, env: 1 / env["h"] if not inconsistent else 2 / env["h"])
            kw["Ts"], kw["Fs"], Ts, Fs = h, q, h, q
            bad = T.fn("abs", q * h - 1)
            B.assume(ge(bad, T.lift(1e-5)) if inconsistent else lt(bad, T.lift(1e-5)))
        elif rate == "integer":
            k = B.int("k", lo=1, gen=(1, 4))
            kw["Ts"], Ts, Fs = k, k, 1 / k
        shape = (n,)
        if form == "float":
            u = kw["uncertainty"] = B.real("u", pos=True)
            U = lambda i: u
        elif form == "integer":
            u = kw["uncertainty"] = B.int("u", lo=1, gen=(1, 3))
            U = lambda i: u
        elif form == "vector":
            U = kw["uncertainty"] = B.arr("u", (n,), kind="nonneg")
        elif form == "cov":
            U = kw["uncertainty"] = B.arr("U", (n, n), kind="psd")
            shape = (n, n)
        else:
            U = lambda i: 0
        B.call(t, v, **kw)
        if inconsistent:
            B.raises("AssertionError")
        else:
            made(B, n, t, v, U, shape, Ts, Fs)


for form in ("float", "integer", "vector", "cov", None):
    construct("uncertainty: %s" % (form or "none"), form)
construct("sampling frequency only", "float", "Fs")
construct("integer sampling interval", "float", "integer")
construct("interval and frequency", "vector", "both")
construct("inconsistent interval and frequency", "vector", "both", inconsistent=True)


@contract("C17", D + "make_equidistant", "sampling interval of an equidistant time axis")
def _(B):
    n = B.int("n", lo=2, gen=(2, 6))
    t0, h, v = B.real("t0"), B.real("h", pos=True), B.arr("values", (n,))
    B.call(t0, h, v)
    made(B, n, lambda i: t0 + h * i, v, lambda i: 0, (n,), h, 1 / h)


for what, args in (("time axis of another length", "len"), ("matrix of values", "2d"), ("vector of uncertainties of another length", "unc"), ("covariance that is not square", "cov")):
    @contract("C17", D + "make", what + " is rejected")
    def _(B, args=args):
        n, t, v = series(B)
        m = B.int("m", lo=2, gen=(2, 6))
        B.assume(ne(m, n))
        kw = {"Ts": B.real("h", pos=True)}
        if args == "len":
            t = B.arr("t2", (m,))
        elif args == "2d":
            v = B.arr("v2", (n, m))
        elif args == "unc":
            kw["uncertainty"] = B.arr("u", (m,), kind="nonneg")
        else:
            kw["uncertainty"] = B.arr("U", (n, m))
        B.call(t, v, **kw)
        B.raises("NotImplementedError" if args == "2d" else "AssertionError")


# ---------------------------------------------------------------- linearised FIR filtering
def fir(name, utheta, twice=False, a=None):
    @contract("C17", D + "apply_filter", name)
    def _(B):
        n, t, v = series(B)
        u = B.arr("u", (n,), kind="nonneg")
        L = B.int("L", lo=1, gen=(1, 4))
        th = B.arr("theta", (L,))
        kw, Ut = {}, None
        if utheta:
            Ut = kw["filter_uncertainty"] = B.arr("Utheta", (L, L), kind="psd")
        if a is not None:
            kw["a"] = a
        B.call(t, v, u, th, kw)
        xe, Ue = ext_signal(v, True), ext_cov(lambda i, j: ite(eq(i, j), u(i) ** 2, 0), n, True)
        B.ret_len(3)
        B.ret_array((0,), (n,), t, "f", "time axis")
        B.ret_array((1,), (n,), fir_values(xe, th, L), "f", "filtered values")
        B.ret_array((2,), (n,), std_of(fir_cov(xe, th, L, Ue, Ut)), "f", "standard uncertainties")


fir("FIR, exact coefficients", False)
fir("FIR, uncertain coefficients", True)
fir("FIR, denominator 1.0 given", False, a=1.0)


# ---------------------------------------------------------------- Monte Carlo
def mc(name, ux, iir=True, exact=False, runs=True, as_list=False):
    @contract("C17", D + "apply_filter", name)
    def _(B):
        n, t, v = series(B)
        R = B.int("runs", lo=3, gen=(3, 7)) if runs else 10000
        nb = B.int("nb", lo=1, gen=(1, 3))
        b = B.arr("b", (nb,))
        if not iir:
            na, a = 1, (lambda i: 1)
        elif as_list:
            na, a = 2, B.arr("a", (2,))
        else:
            na = B.int("na", lo=1, gen=(1, 3))
            a = B.arr("a", (na,))
        p = nb + na - 1
        kw = {"MonteCarloRuns": R} if runs else {}
        if iir:
            kw["a"] = a
        if exact:
            Uab = lambda i, j: 0
        else:
            Uab = kw["filter_uncertainty"] = B.arr("Uab", (p, p), kind="psd")
        th = B.draws("theta", (R, p), dist="mvn", mean=lambda i: ite(lt(i, na - 1), a(1 + i), b(i - (na - 1))), cov=Uab, gen=lambda nrng, dims, env: nrng.normal(size=dims) * 0.4)
        if ux == "cov":
            U = B.arr("Ux", (n, n), kind="psd")
            xs = B.draws("xs", (R, n), dist="mvn", mean=v, cov=U)
            X = lambda r: lambda i: xs(r, i)
        else:
            U = B.arr("u", (n,), kind="nonneg")
            z = B.draws("z", (R, 1, n))
            X = lambda r: lambda i: v(i) + z(r, 0, i) * U(i)
        if not runs:
            B.samples = 1
        B.call(t, v, U, b, kw)
        bb = lambda r: lambda j: th(r, na - 1 + j)
        aa = lambda r: lambda j: ite(eq(j, 0), 1, th(r, j - 1))
        ok = (lambda r: stable(na, aa(r)))
        Y = lambda r, i: lfilter(nb, bb(r), na, aa(r), X(r))(i)
        C = T.sum_(0, R, lambda r: ite(ok(r), 1, 0))
        B.assume(ge(C, 2))
        mean = lambda i: T.sum_(0, R, lambda r: ite(ok(r), Y(r, i), 0)) / C
        B.ret_len(3)
        B.ret_array((0,), (n,), t, "f", "time axis")
        B.ret_array((1,), (n,), mean, "f", "mean of the stable outputs")
        B.ret_array((2,), (n, n), lambda i, j: T.sum_(0, R, lambda r: ite(ok(r), (Y(r, i) - mean(i)) * (Y(r, j) - mean(j)), 0)) / (C - 1), "f", "sample covariance")


mc("IIR, number of runs given", "vector")
mc("IIR, exact coefficients, number of runs given", "vector", exact=True)
mc("IIR, default number of runs", "vector", runs=False)
mc("IIR, covariance", "cov")
mc("FIR by Monte Carlo", "vector", iir=False)
mc("FIR by Monte Carlo, exact coefficients", "vector", iir=False, exact=True)
mc("FIR, covariance", "cov", iir=False)
mc("FIR, covariance, default number of runs", "cov", iir=False, runs=False, exact=True)


# ---------------------------------------------------------------- integer data: nothing is truncated
for form in ("float", "integer", "vector", "cov", "none"):
    integers("C17", "make", "uncertainty: %s" % form, "values")
integers("C17", "make", "uncertainty: vector", "u")
integers("C17", "make", "uncertainty: cov", "U")
integers("C17", "apply_filter", "FIR, exact coefficients", "values")
integers("C17", "apply_filter", "FIR, uncertain coefficients", "values", "u")
integers("C17", "apply_filter", "FIR, exact coefficients", "theta")
integers("C17", "apply_filter", "IIR, number of runs given", "values")
integers("C17", "apply_filter", "FIR by Monte Carlo", "values", "u")
