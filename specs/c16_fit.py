"""C16: least-squares filter design: the linear problem that is solved, and propagation of uncertainty through it."""
from vc.contract import *
from vc import terms as T, values as V, contract as C
from specs.callee import elem_of

M = "PyDynamic.model_estimation.fit_filter:"
FILT = "PyDynamic.misc.filterstuff."


def reflected(n, a):
    """coefficients mapinside returns (as many as it is given, if the first is not zero)"""
    return opaque("mapinside", (n,), ((n,), a))


def delay_of(nb, b, na, a):
    """group delay at 513 frequencies"""
    return opaque("grpdelay", (513,), ((nb,), b), ((na,), a))


def mapinside_contract(I, f, args):
    n, a = elem_of(args["a"], I)
    if n is None or len(n) != 1 or not I.entails(ne(a(T.ZERO), 0)):
        return NotImplemented
    g = reflected(n[0], a)
    return V.mkarr(n, "f", lambda k: T.lift(g(k)))


def grpdelay_contract(I, f, args):
    nb, b = elem_of(args["b"], I)
    na, a = elem_of(args["a"], I)
    if nb is None or na is None or len(nb) != 1 or len(na) != 1 or args["nfft"] != 512:
        return NotImplemented
    g = delay_of(nb[0], b, na[0], a)
    Fs = V.num(V.sc_elem(args["Fs"]))
    return V.mkarr((T.const(513),), "f", lambda k: T.lift(g(k))), V.mkarr((T.const(513),), "f", lambda k: k / T.const(1024) * Fs)


def median(n, a):
    return opaque("median", (), ((n,), a))()


def recip(re, im):
    q = re * re + im * im
    return re / q, -im / q


def phase(w, t):
    return cos(w * t), sin(w * t)


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def fir_case(fname, inverse, weights):
    @contract("C16", M + fname, {None: "unweighted", "vector": "weights", "matrix": "weight matrix"}[weights])
    def _(B):
        m, N = B.int("m", lo=2, gen=(3, 6)), B.int("N", lo=0, gen=(0, 2))
        H, f = B.arr("H", (m,), dtype="c"), B.arr("f", (m,), kind="pos")
        Fs, tau = B.real("Fs", pos=True), B.real("tau")
        kw = {}
        if weights == "vector":
            wt = kw["Wt"] = B.arr("Wt", (m,), kind="pos")
            W = lambda i, j: ite(eq(i, j), wt(i), 0)
        elif weights:
            wt = kw["Wt"] = B.arr("Wt", (m, m))
            W = lambda i, j: wt(i, j)
        if inverse:
            B.assume(T.forall(0, m, lambda i: gt(H(i)[0] * H(i)[0] + H(i)[1] * H(i)[1], 0))) if hasattr(T, "forall") else None
        B.call(H, N, tau, f, Fs, **kw)
        w = lambda i: 2 * PI * f(i) / Fs
        E = lambda i, k: (cos(w(i) * k), -sin(w(i) * k))

        def target(i):
            h = cmul(H(i), phase(w(i), tau if inverse else -tau))
            return recip(*h) if inverse else h
        part = lambda g: (lambda i, *k: ite(lt(i, m), g(i, *k)[0], g(i - m, *k)[1]))
        if weights is None:
            X, y = part(E), part(target)
        elif weights == "vector":
            X = part(lambda i, k: tuple(wt(i) * c for c in E(i, k)))
            y = part(lambda i: tuple(wt(i) * c for c in target(i)))
        else:
            X = part(lambda i, k: tuple(T.sum_(0, m, lambda j: W(i, j) * E(j, k)[p]) for p in (0, 1)))
            y = part(lambda i: tuple(T.sum_(0, m, lambda j: W(i, j) * target(j)[p]) for p in (0, 1)))
        sol = lstsq((2 * m, N + 1), X, (2 * m, 1), lambda i, _: y(i))
        B.ret_array((), (N + 1,), lambda k: sol(k, 0), "f", "least-squares solution")


for wts in (None, "vector", "matrix"):
    fir_case("LSFIR", False, wts)
    fir_case("invLSFIR", True, wts)


def delayed_reciprocal(h, w, tau):
    return recip(*cmul(h, phase(w, tau)))


def unc_case(name, form="complex", weights=False, tol=False):
    @contract("C16", M + "invLSFIR_unc", name)
    def _(B):
        m, N = B.int("m", lo=2, gen=(2, 4)), B.int("N", lo=0, gen=(0, 2))
        B.assume(ge(2 * m, N + 1))
        f = B.arr("f", (m,), kind="pos")
        if form == "complex":
            Hc = B.arr("H", (m,), dtype="c")
            H, arg = (lambda i: Hc(i)), Hc
        else:
            Hr = B.arr("H", (2 * m,))
            H, arg = (lambda i: (Hr(i), Hr(m + i))), Hr
        Fs, tau = B.real("Fs", pos=True), B.real("tau")
        UH = B.arr("UH", (2 * m, 2 * m), kind="psd")
        R = 10000
        z = B.draws("z", (R, 2 * m), dist="mvn", mean=lambda i: ite(lt(i, m), H(i)[0], H(i - m)[1]), cov=UH)
        kw = {}
        if weights:
            wt = kw["wt"] = B.arr("wt", (2 * m,), kind="pos")
        else:
            wt = lambda i: T.const(1)
        if tol:
            kw["trunc_svd_tol"] = B.real("tol", pos=True)
        if form == "real" or weights:
            kw["verbose"] = False
        B.call(arg, UH, N, tau, f, Fs, **kw)
        w = lambda i: 2 * PI * f(i) / Fs
        part = lambda g: (lambda i, *k: ite(lt(i, m), g(i, *k)[0], g(i - m, *k)[1]))
        X = lambda i, k: wt(i) * part(lambda i, k: (cos(w(i) * k), -sin(w(i) * k)))(i, k)
        y = part(lambda i: delayed_reciprocal(H(i), w(i), tau))
        smp = lambda i, r: part(lambda i: delayed_reciprocal((z(r, i), z(r, m + i)), w(i), tau))(i)
        mean = lambda i: T.sum_(0, R, lambda r: smp(i, r)) / R
        Ui = lambda i, j: T.sum_(0, R, lambda r: (smp(i, r) - mean(i)) * (smp(j, r) - mean(j))) / (R - 1)
        u, s0, v = (opaque(nm, sh, ((2 * m, N + 1), X)) for nm, sh in (("svdu", (2 * m, N + 1)), ("svds", (N + 1,)), ("svdv", (N + 1, N + 1))))
        s = (lambda k: ite(lt(s0(k), kw["trunc_svd_tol"]), 0, s0(k))) if tol else s0
        P = lambda i, j: T.sum_(0, N + 1, lambda k: ite(gt(s(k), 0), v(k, i) * u(j, k) / s(k), 0)) * wt(j)
        B.ret_len(2)
        B.ret_array((0,), (N + 1,), lambda i: T.sum_(0, 2 * m, lambda j: P(i, j) * y(j)), "f", "weighted least-squares solution by truncated SVD")
        B.ret_array((1,), (N + 1, N + 1), lambda i, j: T.sum_(0, 2 * m, lambda p: P(i, p) * T.sum_(0, 2 * m, lambda q: Ui(p, q) * P(j, q))), "f", "covariance of the coefficients")


unc_case("complex response")
unc_case("real and imaginary part", form="real")
unc_case("weights", weights=True)
unc_case("truncated", tol=True)


@contract("C16", M + "invLSFIR_unc", "wrong number of weights")
def _(B):
    m, N, k = B.int("m", lo=2, gen=(2, 4)), B.int("N", lo=0, gen=(0, 2)), B.int("k", lo=1, gen=(1, 9))
    B.assume(ne(k, 2 * m))
    B.call(B.arr("H", (m,), dtype="c"), B.arr("UH", (2 * m, 2 * m), kind="psd"), N, B.real("tau"), B.arr("f", (m,), kind="pos"), B.real("Fs", pos=True), wt=B.arr("wt", (k,), kind="pos"), verbose=False)
    B.raises("ValueError")


@contract("C16", M + "invLSFIR_uncMC", "Monte Carlo")
def _(B):
    B.samples, B.repeat = 2, False
    m, N = B.int("m", lo=2, gen=(2, 3)), B.int("N", lo=1, gen=(1, 2))
    H, f = B.arr("H", (m,), dtype="c"), B.arr("f", (m,), kind="pos")
    Fs, tau = B.real("Fs", pos=True), B.real("tau")
    UH = B.arr("UH", (2 * m, 2 * m), kind="psd")
    R = 10000
    z = B.draws("z", (R, 2 * m), dist="mvn", mean=lambda i: ite(lt(i, m), H(i)[0], H(i - m)[1]), cov=UH)
    B.call(H, UH, N, tau, f, Fs)
    w = lambda i: 2 * PI * f(i) / Fs
    part = lambda g: (lambda i, *k: ite(lt(i, m), g(i, *k)[0], g(i - m, *k)[1]))
    X = part(lambda i, k: (cos(w(i) * k), -sin(w(i) * k)))
    b = lambda k, r: lstsq((2 * m, N + 1), X, (2 * m,), part(lambda i: delayed_reciprocal((z(r, i), z(r, m + i)), w(i), tau)))(k)
    mean = lambda k: T.sum_(0, R, lambda r: b(k, r)) / R
    B.ret_len(2)
    B.ret_array((0,), (N + 1,), mean, "f", "mean of the fitted coefficients")
    cov = lambda i, j: T.sum_(0, R, lambda r: (b(i, r) - mean(i)) * (b(j, r) - mean(j))) / (R - 1)
    B.ret_array((1,), (N + 1, N + 1), cov, "f", "sample covariance of the fitted coefficients")


def iir_solution(m, f, Fs, tau, Na, Nb, H, inverse):
    """coefficients (a, b) of the normal equations of  B - A H exp(-j w tau) = 0"""
    w = lambda i: 2 * PI * f(i) / Fs
    E = lambda i, k: (cos(w(i) * k), -sin(w(i) * k))
    Ht = lambda i: cmul(recip(*H(i)) if inverse else H(i), phase(w(i), -tau))
    n = Na + Nb + 1

    def D(i, k):
        p, q = cmul(Ht(i), E(i, k + 1)), E(i, k - Na)
        return ite(lt(k, Na), p[0], -q[0]), ite(lt(k, Na), p[1], -q[1])
    dot = lambda a, b: T.sum_(0, m, lambda i: a(i)[0] * b(i)[0] + a(i)[1] * b(i)[1])
    G = lambda k, l: dot(lambda i: D(i, k), lambda i: D(i, l))
    y = lambda k: -dot(lambda i: D(i, k), Ht)
    return lstsq((n, n), G, (n,), y)


def rational(nrng, dims, env):
    """response of a filter, on a grid of frequencies"""
    z = np.exp(2j * np.pi * env.arrays["f"] / env.vars["Fs"])
    return np.polyval(nrng.normal(size=4), z) / np.polyval(np.poly(0.9 * nrng.uniform(size=3)), z)


def iir_inputs(B, smooth=False):
    m = B.int("m", lo=2, gen=(10, 13) if smooth else (4, 7))
    Na, Nb = B.int("Na", lo=0, gen=(1, 2) if smooth else (0, 2)), B.int("Nb", lo=0, gen=(1, 4) if smooth else (0, 2))
    if smooth:
        f = B.arr("f", (m,), kind="pos", gen=lambda nrng, dims, env: np.linspace(0.01, 0.4, *dims) * env.vars["Fs"])
        H = B.arr("H", (m,), dtype="c", gen=rational)
    else:
        H, f = B.arr("H", (m,), dtype="c"), B.arr("f", (m,), kind="pos")
    Fs, tau = B.real("Fs", pos=True), B.int("tau", gen=(-3, 3))
    return m, Na, Nb, H, f, Fs, tau


def first_fit(fname, inverse, **kw):
    @contract("C16", M + fname, "fit only")
    def _(B):
        m, Na, Nb, H, f, Fs, tau = iir_inputs(B)
        B.call(H, Nb, Na, f, Fs, tau, justFit=True)
        ab = iir_solution(m, f, Fs, tau, Na, Nb, lambda i: H(i), inverse)
        B.ret_len(2 if inverse else 3)
        B.ret_array((0,), (Nb + 1,), lambda k: ab(Na + k), "f", "numerator")
        B.ret_array((1,), (Na + 1,), lambda k: ite(eq(k, 0), 1, ab(k - 1)), "f", "denominator")


first_fit("LSIIR", False)
first_fit("invLSIIR", True)


def stable_fit(fname, inverse):
    @contract("C16", M + fname, "stable at once")
    def _(B):
        m, Na, Nb, H, f, Fs, tau = iir_inputs(B)
        B.call(H, Nb, Na, f, Fs, tau)
        ab = iir_solution(m, f, Fs, tau, Na, Nb, lambda i: H(i), inverse)
        cnt, re, im = roots(Na + 1, lambda k: ite(eq(k, 0), 1, ab(k - 1)))
        B.assume(le(T.sum_(0, cnt, lambda i: ite(gt(sqrt(re(i) * re(i) + im(i) * im(i)), 1), 1, 0)), 0))
        B.ret_len(3)
        B.ret_array((0,), (Nb + 1,), lambda k: ab(Na + k), "f", "numerator")
        B.ret_array((1,), (Na + 1,), lambda k: ite(eq(k, 0), 1, ab(k - 1)), "f", "denominator")
        B.ret_scalar((2,), tau, "delay")


stable_fit("LSIIR", False)
stable_fit("invLSIIR", True)


def iterated_fit(fname, inverse):
    """the delay is increased by the median difference of the group delays until the filter is stable"""
    @contract("C16", M + fname, "stabilised")
    def _(B):
        m, Na, Nb, H, f, Fs, tau = iir_inputs(B, smooth=True)
        fit = lambda t: iir_solution(m, f, Fs, t, Na, Nb, lambda i: H(i), inverse)
        num = lambda t: (lambda k: fit(t)(Na + k))
        den = lambda t: (lambda k: ite(eq(k, 0), 1, fit(t)(k - 1)))

        def stable(t):
            cnt, re, im = roots(Na + 1, den(t))
            return le(T.sum_(0, cnt, lambda i: ite(gt(sqrt(re(i) * re(i) + im(i) * im(i)), 1), 1, 0)), 0)
        refl = lambda t: reflected(Na + 1, den(t))
        gd = lambda t, a: delay_of(Nb + 1, num(t), Na + 1, a)
        B.contracts[FILT + "mapinside"] = mapinside_contract
        B.contracts[FILT + "grpdelay"] = grpdelay_contract
        B.assume(not_(stable(tau)))
        B.call(H, Nb, Na, f, Fs, tau)
        step = lambda th: T.fn("ceil", th["tau"] + median(513, lambda k: gd(th["tau"], refl(th["tau"]))(k) - gd(th["tau"], den(th["tau"]))(k)))
        B.while_loop(
            [("tau", "int", tau, step, None, True), ("fits", "int", 1, lambda th: th["fits"] + 1, None, False)],
            [("array", (Nb + 1,), lambda th, k: num(th["tau"])(k), None, "numerator of the fit with the current delay"),
             ("array", (Na + 1,), lambda th, k: den(th["tau"])(k), None, "denominator of the fit with the current delay"),
             ("bool", lambda th: stable(th["tau"]), "the flag says whether the denominator is stable"),
             ("array", (Na + 1,), lambda th, k: refl(th["tau"])(k), lambda th: not_(stable(th["tau"])), "stabilised denominator")],
            [("a filter that is not stable is returned only after 50 fits", lambda th: or_(stable(th["tau"]), ge(th["fits"], 50)))])
        B.while_replay(lambda th: and_(not_(stable(th["tau"])), lt(th["fits"], 50)), (2,), "tau")
        B.ret_len(3)
        t = B.result((2,))
        B.ret_array((0,), (Nb + 1,), lambda k: num(t())(k), "f", "numerator of the fit with the returned delay")
        B.ret_array((1,), (Na + 1,), lambda k: den(t())(k), "f", "denominator of the fit with the returned delay")


iterated_fit("LSIIR", False)
iterated_fit("invLSIIR", True)


FITM = "PyDynamic.model_estimation.fit_filter."


def fitted(m, H, f, Fs, tau, Na, Nb):
    """filter and delay of invLSIIR for the frequency response H"""
    args = ((m,), H), ((m,), f), ((), lambda: Fs), ((), lambda: tau), ((), lambda: Na), ((), lambda: Nb)
    return opaque("invLSIIR_b", (Nb + 1,), *args), opaque("invLSIIR_a", (Na + 1,), *args), opaque("invLSIIR_tau", (), *args)


def invlsiir_contract(I, f, args):
    m, H = C_array(args["Hvals"], I)[:2]
    mf, fr = elem_of(args["f"], I)
    if m is None or len(m) != 1 or mf is None or len(mf) != 1 or not I.entails(eq(m[0], mf[0])) or args["justFit"] is not False:
        return NotImplemented
    num = lambda v: V.num(V.sc_elem(v))
    Na, Nb = num(args["Na"]), num(args["Nb"])
    b, a, t = fitted(m[0], H, lambda i: fr(i), num(args["Fs"]), num(args["tau"]), Na, Nb)
    return (V.mkarr((Nb + 1,), "f", lambda k: T.lift(b(k))), V.mkarr((Na + 1,), "f", lambda k: ite(eq(k, 0), T.ONE, T.lift(a(k)))),
            V.mkreal(T.lift(t())))


def C_array(v, I):
    a = C.sym_array(v, I)
    return a if a else (None, None)


def stable_response(rng, dims, env):
    """response whose reciprocal is close to that of a stable filter"""
    import numpy as np
    f, Fs = np.linspace(0.05, 0.45, dims[0]), 1.0
    z = np.exp(-2j * np.pi * f)
    a, b = 1 - 0.5 * z, 1 + 0.3 * z + 0.1 * z ** 2
    return a / b


for fname in ("invLSIIR_unc",):
    @contract("C16", M + fname, "Monte Carlo")
    def _(B):
        B.samples, B.repeat = 1, False
        m = B.int("m", lo=2, gen=(8, 10))
        Na, Nb = B.int("Na", lo=0, gen=(1, 1)), B.int("Nb", lo=0, gen=(1, 2))
        H = B.arr("H", (m,), dtype="c", gen=stable_response)
        f = B.arr("f", (m,), kind="pos", gen=lambda rng, dims, env: __import__("numpy").linspace(0.05, 0.45, dims[0]))
        Fs, tau = B.real("Fs", pos=True, gen=lambda rng: 1.0), B.int("tau", gen=(0, 0))
        UH = B.arr("UH", (2 * m, 2 * m), kind="psd")
        R = 1000
        mu = lambda i: ite(lt(i, m), H(i)[0], H(i - m)[1])
        z = B.draws("z", (R, 2 * m), dist="mvn", mean=mu, cov=UH, gen=lambda rng, dims, env: stable_draws(rng, dims))
        B.contracts[FITM + "invLSIIR"] = invlsiir_contract
        B.call(H, UH, Nb, Na, f, Fs, tau)
        run = lambda r: fitted(m, lambda i: (z(r, i), z(r, m + i)), lambda i: f(i), Fs, tau, Na, Nb)
        ab = lambda k, r: ite(lt(k, Na), run(r)[1](k + 1), run(r)[0](k - Na))
        mean = lambda k: T.sum_(0, R, lambda r: ab(k, r)) / R
        B.ret_len(4)
        B.ret_array((0,), (Nb + 1,), lambda k: mean(Na + k), "f", "mean numerator")
        B.ret_array((1,), (Na + 1,), lambda k: ite(eq(k, 0), 1, mean(k - 1)), "f", "mean denominator")
        B.ret_scalar((2,), T.sum_(0, R, lambda r: run(r)[2]()) / R, "mean delay")
        cov = lambda i, j: T.sum_(0, R, lambda r: (ab(i, r) - mean(i)) * (ab(j, r) - mean(j))) / (R - 1)
        B.ret_array((3,), (Na + Nb + 1, Na + Nb + 1), cov, "f", "sample covariance of (a[1:], b)")


def stable_draws(rng, dims):
    import numpy as np
    h = stable_response(rng, (dims[1] // 2,), None)
    return np.hstack((h.real, h.imag)) + 0.01 * rng.normal(size=dims)
