"""C22: second-order systems: frequency response and filter coefficients of the same physical model, for scalar and vector parameters."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.misc.SecondOrderSystem:"


def response(S, d, f0, f):
    """real and imaginary part of S om0^2 / (om0^2 + 2j d om0 w - w^2)"""
    om, w = 2 * PI * f0, 2 * PI * f
    re, im = om * om - w * w, 2 * d * om * w
    q = re * re + im * im
    return S * om * om * re / q, -(S * om * om * im / q)


@contract("C22", M + "sos_FreqResp", "one system")
def _(B):
    S, d, f0 = B.real("S"), B.real("d", pos=True), B.real("f0", pos=True)
    n = B.int("n", lo=1, gen=(1, 6))
    f = B.arr("f", (n,), kind="nonneg")
    B.call(S, d, f0, f)
    B.ret_array((), (n,), lambda k: response(S, d, f0, f(k)), "c", "frequency response")


@contract("C22", M + "sos_FreqResp", "several systems")
def _(B):
    n, m = B.int("n", lo=1, gen=(1, 5)), B.int("m", lo=1, gen=(1, 4))
    S, d, f0 = B.arr("S", (m,)), B.arr("d", (m,), kind="pos"), B.arr("f0", (m,), kind="pos")
    f = B.arr("f", (n,), kind="nonneg")
    B.call(S, d, f0, f)
    B.ret_array((), (n, m), lambda k, i: response(S(i), d(i), f0(i), f(k)), "c", "column i is the response of system i")


@contract("C22", M + "sos_phys2filter", "one system")
def _(B):
    S, d, f0 = B.real("S"), B.real("d"), B.real("f0")
    B.call(S, d, f0)
    om = 2 * PI * f0
    B.ret_len(2)
    B.ret_scalar((0, 0), S * om * om, "numerator")
    B.ret_array((1,), (3,), lambda j: cases(eq(j, 0), 1, eq(j, 1), 2 * d * om, om * om), "f", "denominator")


@contract("C22", M + "sos_phys2filter", "several systems")
def _(B):
    m = B.int("m", lo=1, gen=(1, 4))
    S, d, f0 = B.arr("S", (m,)), B.arr("d", (m,)), B.arr("f0", (m,))
    B.call(S, d, f0)
    om = lambda i: 2 * PI * f0(i)
    B.ret_len(2)
    B.ret_array((0, 0), (m,), lambda i: S(i) * om(i) * om(i), "f", "numerators")
    B.ret_array((1,), (m, 3), lambda i, j: cases(eq(j, 0), 1, eq(j, 1), 2 * d(i) * om(i), om(i) * om(i)), "f", "denominators")


def sampled(fname, labels, whole):
    @contract("C22", M + fname, "Monte Carlo propagation")
    def _(B):
        S, d, f0 = B.real("S"), B.real("d", pos=True), B.real("f0", pos=True)
        uS, ud, uf = B.real("uS", pos=True), B.real("ud", pos=True), B.real("uf", pos=True)
        n, R = B.int("n", lo=1, gen=(1, 4)), B.int("runs", lo=2, gen=(2, 6))
        f = B.arr("f", (n,), kind="pos")
        zs, zd, zf = B.draws("zS", (R,)), B.draws("zd", (R,)), B.draws("zf", (R,))
        B.call(S, d, f0, uS, ud, uf, f, R)
        H = lambda k, r: response(S + zs(r) * uS, d + zd(r) * ud, f0 + zf(r) * uf, f(k))
        mean = lambda g: T.sum_(0, R, g) / R
        B.ret_len(2)
        B.ret_array((0,), (n,), lambda k: (mean(lambda r: H(k, r)[0]), mean(lambda r: H(k, r)[1])), "c", "mean response")
        if whole:
            X = lambda i, r: ite(lt(i, n), H(i, r)[0], H(i - n, r)[1])
        else:
            X = lambda i, r: sqrt(H(i, r)[0] * H(i, r)[0] + H(i, r)[1] * H(i, r)[1])

        def cov(i, j):
            mi, mj = mean(lambda r: X(i, r)), mean(lambda r: X(j, r))
            return T.sum_(0, R, lambda r: (X(i, r) - mi) * (X(j, r) - mj)) / (R - 1)
        if whole:
            B.ret_array((1,), (2 * n, 2 * n), cov, "f", "sample covariance of " + labels)
        else:
            B.ret_rel("sample covariance of " + labels, (1,), lambda e, i, j: (e(i, j), ite(and_(lt(i, n), lt(j, n)), cov(i, j), e(i, j))))


sampled("sos_realimag", "real and imaginary part", True)
sampled("sos_absphase", "the amplitudes", False)
