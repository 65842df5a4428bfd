"""C20: helper functions for digital filters."""
from vc.contract import *
import numpy as np
from vc import terms as T

M = "PyDynamic.misc.filterstuff:"


def modulus(z):
    return sqrt(z[0] * z[0] + z[1] * z[1])


for dt in ("f", "c"):
    @contract("C20", M + "db", {"f": "real values", "c": "complex values"}[dt])
    def _(B, dt=dt):
        n = B.int("n", lo=0, gen=(1, 6))
        v = B.arr("v", (n,), dtype=dt)
        B.call(v)
        B.ret_array((), (n,), lambda i: 20 * T.fn("log10", modulus(v(i)) if dt == "c" else T.fn("abs", v(i))), "f", "20 log10 of the modulus")


@contract("C20", M + "ua", "complex values")
def _(B):
    n = B.int("n", lo=1, gen=(1, 8))
    v = B.arr("v", (n,), dtype="c")
    B.call(v)
    u = opaque("unwrap", (n,), ((n,), lambda i: T.fn("atan2", v(i)[1], v(i)[0])))
    B.ret_array((), (n,), lambda i: u(i), "f", "unwrapped phase")


def coefficients(nrng, dims, env):
    """arbitrary ones, or a single one (a delay)"""
    return np.eye(dims[0])[nrng.integers(dims[0])] if nrng.random() < 0.4 else nrng.normal(size=dims)


@contract("C20", M + "grpdelay", "group delay")
def _(B):
    nb, na = B.int("nb", lo=1, gen=(1, 4)), B.int("na", lo=1, gen=(1, 4))
    nfft = B.int("nfft", lo=2, gen=(4, 9))
    B.assume(le(nb + na - 1, 2 * nfft))
    b, a = B.arr("b", (nb,), gen=coefficients), B.arr("a", (na,), gen=coefficients)
    Fs = B.real("Fs", pos=True)
    B.call(b, a, Fs, nfft)
    # b * reversed a
    c = B.cut("c", (na + nb - 1,), lambda k: T.sum_(0, na, lambda j: ite(and_(ge(k - j, 0), lt(k - j, nb)), b(k - j) * a(na - 1 - j), 0)))
    w = lambda k: 2 * PI * k / (2 * nfft)
    C = lambda k: (T.sum_(0, na + nb - 1, lambda l: c(l) * cos(w(k) * l)), -T.sum_(0, na + nb - 1, lambda l: c(l) * sin(w(k) * l)))
    D = lambda k: (T.sum_(0, na + nb - 1, lambda l: l * c(l) * cos(w(k) * l)), -T.sum_(0, na + nb - 1, lambda l: l * c(l) * sin(w(k) * l)))
    B.ret_len(2)

    def gd(k):
        p, q = C(k), D(k)
        d = p[0] * p[0] + p[1] * p[1]
        return ite(lt(sqrt(d), T.lift(1e-12)), 0, (p[0] * q[0] + p[1] * q[1]) / d) - (na - 1)
    B.ret_array((0,), (nfft + 1,), gd, "f", "negative derivative of the phase of B/A")
    B.ret_array((1,), (nfft + 1,), lambda k: k * Fs / (2 * nfft), "f", "frequencies up to Fs/2")


@contract("C20", M + "mapinside", "roots reflected at the unit circle")
def _(B):
    n = B.int("n", lo=2, gen=(2, 5))
    a = B.arr("a", (n,), gen=lambda rng, dims, env: 1.0 + rng.uniform(size=dims))
    B.assume(gt(a(0), 0))
    B.call(a)
    cnt, re, im = roots(n, a)

    def inside(i):
        q = re(i) * re(i) + im(i) * im(i)
        out = gt(sqrt(q), 1)
        return ite(out, re(i) / q, re(i)), ite(out, im(i) / q, im(i))
    p = opaque("poly", (cnt + 1,), ((cnt,), inside), dtype="c")
    B.ret_array((), (cnt + 1,), lambda k: p(k), None, "monic polynomial of the roots mapped into the unit circle")


for parity in (0, 1):
    @contract("C20", M + "kaiser_lowpass", ("even", "odd")[parity] + " length")
    def _(B, parity=parity):
        h = B.int("h", lo=1, gen=(1, 8))
        L = 2 * h + parity
        fcut, Fs, beta = B.real("fcut", pos=True), B.real("Fs", pos=True, gen=lambda rng, env: 5 * env["fcut"]), B.real("beta", pos=True)
        B.assume(lt(2 * fcut, Fs))
        B.call(L, fcut, Fs, beta)
        w = opaque("firwin", (2 * h + 1,), ((), lambda: 2 * h + 1), ((), lambda: 2 * fcut / Fs), ((), lambda: beta))
        B.ret_len(2)
        B.ret_array((0,), (2 * h + 1,), lambda k: w(k), "f", "window design of odd length")
        B.ret_scalar((1,), h, "delay in samples")


for deriv in (0, 1, 2):
    @contract("C20", M + "savitzky_golay", "derivative %d" % deriv)
    def _(B, deriv=deriv):
        h, p = B.int("h", lo=1, gen=(2, 5)), B.int("p", lo=deriv, gen=(deriv, 3))
        n = B.int("n", lo=1, gen=(12, 16))
        B.assume(le(p + 1, 2 * h), le(h + 1, n))
        y = B.arr("y", (n,))
        delta = B.real("delta", pos=True)
        B.call(y, 2 * h + 1, p, deriv, delta)
        X = lambda r, i: T.fn("pow", r - h, i)
        m = opaque("pinv", (p + 1, 2 * h + 1), ((2 * h + 1, p + 1), X))
        w = lambda k: m(deriv, k) * (1, 1, 2)[deriv] / (1, delta, delta * delta)[deriv]
        ext = lambda k: ite(lt(k, h), y(0) - T.fn("abs", y(h - k) - y(0)),
                            ite(lt(k, h + n), y(k - h), y(n - 1) + T.fn("abs", y(2 * n - 2 - (k - h)) - y(n - 1))))
        B.ret_array((), (n,), lambda t: T.sum_(0, 2 * h + 1, lambda k: w(k) * ext(t + k)), "f", "local polynomial fit at every sample")


for what in ("even window", "window too small"):
    @contract("C20", M + "savitzky_golay", what)
    def _(B, what=what):
        h, p = B.int("h", lo=1, gen=(1, 5)), B.int("p", lo=0, gen=(0, 12))
        n = B.int("n", lo=1, gen=(12, 16))
        y = B.arr("y", (n,))
        if what == "even window":
            B.call(y, 2 * h, p)
        else:
            B.assume(gt(p + 1, 2 * h))
            B.call(y, 2 * h + 1, p + 1)
        B.raises("TypeError")
