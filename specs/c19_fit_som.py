"""C19: fit_som: generalised least squares for the reciprocal of the second-order response, and what follows for the physical parameters."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.model_estimation.fit_transfer:"


def recip(re, im):
    q = re * re + im * im
    return re / q, -im / q


def stack(m, g):
    """first m entries real parts, next m imaginary parts"""
    return lambda i, *k: ite(lt(i, m), g(i, *k)[0], g(i - m, *k)[1])


def pick3(k, a, b, c):
    return cases(eq(k, 0), a, eq(k, 1), b, c)


def design(f, m, scale):
    """(1, 2j om, -om^2), real and imaginary parts stacked"""
    om = lambda i: 2 * PI * f(i) * scale
    return stack(m, lambda i, k: (pick3(k, 1, 0, -(om(i) * om(i))), pick3(k, 0, 2 * om(i), 0)))


def gls(B, m, X, V):
    """(normal matrix inverse, weighted adjoint): mu = N (X^T V y), V the inverse of the weighting matrix"""
    XV = lambda k, i: T.sum_(0, 2 * m, lambda j: X(j, k) * V(j, i))
    XVX = B.cut("XVX", (3, 3), lambda k, l: T.sum_(0, 2 * m, lambda i: T.sum_(0, 2 * m, lambda j: X(j, k) * V(j, i)) * X(i, l)), sym=True)
    N = inverse(3, XVX)
    mu = lambda y: (lambda k: T.sum_(0, 3, lambda l: N(k, l) * T.sum_(0, 2 * m, lambda i: XV(l, i) * y(i))))
    return N, XV, mu


def absq(x):
    return T.fn("abs", T.lift(x))


def physical(mu):
    """S, delta, f0 from 1/S, delta/(S om0), 1/(S om0^2)"""
    return 1 / mu[0], mu[1] / sqrt(absq(mu[0] * mu[2])), sqrt(absq(mu[0] / mu[2])) / 2 / PI


def inputs(B):
    m = B.int("m", lo=2, gen=(2, 3))
    f, H = B.arr("f", (m,), kind="pos"), B.arr("H", (2 * m,))
    return m, f, H


def start(B, unc, weighting, runs):
    """arguments and the sampled covariance of the reciprocal"""
    m, f, H = inputs(B)
    kw = {"scaling": B.real("scaling", pos=True)}
    sc = kw["scaling"]
    if weighting:
        kw["weighting"] = weighting
    R = 10000
    if runs:
        R = kw["MCruns"] = B.int("runs", lo=2, gen=(10, 14))
    if unc == "vector":
        U = B.arr("UH", (2 * m,), kind="nonneg")
        zr, zi = B.draws("zr", (R, m)), B.draws("zi", (R, m))
        smp0 = lambda r: stack(m, lambda i: recip(H(i) + zr(r, i) * U(i), H(m + i) + zi(r, i) * U(m + i)))
    else:
        U = B.arr("UH", (2 * m, 2 * m), kind="psd")
        z = B.draws("z", (R, 2 * m), dist="mvn", mean=H, cov=U)
        smp0 = lambda r: stack(m, lambda i: recip(z(r, i), z(r, m + i)))
    S_ = B.cut("sample", (R, 2 * m), lambda r, i: smp0(r)(i))
    smp = lambda r: (lambda i: S_(r, i))
    B.call(f, H, U, **kw)
    mean = lambda i: T.sum_(0, R, lambda r: smp(r)(i)) / R
    iU = B.cut("iU", (2 * m, 2 * m), lambda i, j: T.sum_(0, R, lambda r: (smp(r)(i) - mean(i)) * (smp(r)(j) - mean(j))) / (R - 1), sym=True)
    if weighting == "cov":
        V = inverse(2 * m, iU)
    elif weighting == "diag":
        V = lambda i, j: ite(eq(i, j), 1 / iU(i, i), 0)
    else:
        V = lambda i, j: ite(eq(i, j), 1, 0)
    return m, f, H, sc, R, smp, iU, V


@contract("C19", M + "fit_som", "no uncertainty")
def _(B):
    m, f, H = inputs(B)
    B.assume(T.forall(0, m, lambda i: gt(H(i) * H(i) + H(m + i) * H(m + i), 0)))
    sc = B.real("scaling", pos=True)
    B.call(f, H, scaling=sc)
    N, XV, mu = gls(B, m, design(f, m, sc), lambda i, j: ite(eq(i, j), 1, 0))
    y = stack(m, lambda i: recip(H(i), H(m + i)))
    mu = mu(y)
    p = physical((mu(0), mu(1) * sc, mu(2) * sc * sc))
    B.ret_array((), (3,), lambda k: pick3(k, *p), "f", "static gain, damping, resonance frequency")


def linear(unc, weighting):
    @contract("C19", M + "fit_som", "linear propagation, %s, weighting %s" % (unc, weighting or "none"))
    def _(B):
        m, f, H, sc, R, smp, iU, V = start(B, unc, weighting, False)
        B.samples = 2
        B.assume(T.forall(0, m, lambda i: gt(H(i) * H(i) + H(m + i) * H(m + i), 0)))
        N, XV, mu = gls(B, m, design(f, m, 1), V)
        mu = B.cut("mu", (3,), mu(stack(m, lambda i: recip(H(i), H(m + i)))))
        mu = [mu(T.const(k)) for k in range(3)]
        p = physical(mu)
        B.ret_len(2)
        B.ret_array((0,), (3,), lambda k: pick3(k, *p), "f", "static gain, damping, resonance frequency")
        mid = lambda k, l: T.sum_(0, 2 * m, lambda i: T.sum_(0, 2 * m, lambda j: XV(k, i) * iU(i, j) * XV(l, j)))
        Umu = B.cut("Umu", (3, 3), lambda k, l: sum(N(k, a) * mid(a, b) * N(b, l) for a in range(3) for b in range(3)))
        sq = sqrt(absq(mu[0] * mu[2]))
        J = [[-1 / (mu[0] * mu[0]), 0, 0],
             [-(mu[1] * mu[2]) / (2 * sq * sq * sq), 1 / sq, -(mu[1] * mu[0]) / (2 * sq * sq * sq)],
             [1 / (4 * PI * mu[2] * sqrt(absq(mu[0] / mu[2]))), 0, -mu[0] / (4 * PI * mu[2] * mu[2] * sqrt(absq(mu[0] / mu[2])))]]
        row = lambda k, a: pick3(k, J[0][a], J[1][a], J[2][a])
        B.ret_array((1,), (3, 3), lambda k, l: sum(row(k, a) * Umu(a, b) * row(l, b) for a in range(3) for b in range(3)), "f", "covariance of the parameters")


def monte_carlo(unc, weighting):
    @contract("C19", M + "fit_som", "Monte Carlo, %s, weighting %s" % (unc, weighting or "none"))
    def _(B):
        m, f, H, sc, R, smp, iU, V = start(B, unc, weighting, True)
        N, XV, mu = gls(B, m, design(f, m, sc), V)
        MU = B.cut("MU", (R, 3), lambda r, k: mu(smp(r))(k))

        def par(r, k):
            v = lambda c: MU(r, T.const(c))
            return pick3(k, *physical((v(0), v(1) * sc, v(2) * sc * sc)))
        mean = lambda k: T.sum_(0, R, lambda r: par(r, k)) / R
        B.ret_len(2)
        B.ret_array((0,), (3,), mean, "f", "mean parameters")
        B.ret_array((1,), (3, 3), lambda k, l: T.sum_(0, R, lambda r: (par(r, k) - mean(k)) * (par(r, l) - mean(l))) / (R - 1), "f", "covariance of the parameters")


for unc in ("vector", "matrix"):
    for w in (None, "diag", "cov"):
        linear(unc, w)
        monte_carlo(unc, w)
