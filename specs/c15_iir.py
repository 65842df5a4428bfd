"""C15: uncertainty of an IIR filter output (state-space propagation)."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.uncertainty.propagate_filter:"


def sequences(p, a, nx, x):
    """w: input filtered by 1/A, q: twice filtered, h: impulse response of 1/A"""
    def ar(src):
        return lambda r, t: src(t) - T.sum_(0, p, lambda l: ite(ge(t - 1 - l, 0), a(l + 1) * r(t - 1 - l), 0))
    w = recseq(ar(lambda t: x(t)))
    q = recseq(ar(lambda t: w(t)))
    h = recseq(ar(lambda t: ite(eq(t, 0), 1, 0)))
    return w, q, h


def denominator(rng, dims, env):
    r = 0.4 * rng.randn(*dims) if hasattr(rng, "randn") else 0.4 * rng.standard_normal(dims)
    r[0] = 1.0
    return r


def iir(name, nb_full, noise, xd="f"):
    @contract("C15", M + "IIRuncFilter", name)
    def _(B):
        p = B.int("p", lo=1, gen=(1, 4))
        nb = p + 1 if nb_full else B.int("nb", lo=1, gen=(1, 4))
        if not nb_full:
            B.assume(le(nb, p))
        n = B.int("n", lo=1, gen=(1, 6))
        x = B.arr("x", (n,), dtype=xd)
        b = B.arr("b", (nb,))
        a = B.arr("a", (p + 1,), gen=denominator)
        B.assume(eq(a(0), 1))
        U = B.arr("Uab", (p + nb, p + nb), kind="psd")
        if noise == "float":
            s0 = B.real("sigma", pos=True)
            sg = lambda k: s0
        else:
            s0 = B.arr("sigma", (n,), kind="nonneg")
            sg = s0
        w, q, h = sequences(p, a, n, x)
        z0 = lambda top, f, t, edge: ite(ge(t, 0), ite(edge, top(f, t), f(t)), 0)
        hh = lambda top, i, k, m: z0(top, h, k - 1 - i - m, eq(i, 0))
        B.invariant((p,), lambda top, k, i: z0(top, w, k - 1 - i, eq(i, 0)))
        B.invariant((p, p), lambda top, k, i, j: -z0(top, q, k - 2 - i - j, eq(i, 0)))
        B.invariant((p, p), lambda top, k, i, j: T.sum_(0, k, lambda m: hh(top, i, k, m) * hh(top, j, k, m) * sg(m) * sg(m)))
        B.call(x, s0, b, a, U)
        cut = lambda f, t: ite(ge(t, 0), f(t), 0)
        # the defining equation of the sequence is used once where the code evaluates it
        step = lambda f, t: ite(ge(t, 0), f.step(t), 0)

        def num(f, t):
            """sum_j b_j f(t - j)"""
            return b(0) * step(f, t) + T.sum_(1, nb, lambda j: b(j) * cut(f, t - j))
        B.ret_array((0,), (n,), lambda t: num(w, t), "f", "the filtered signal")

        def sens(t, i):
            return ite(lt(i, p), -num(q, t - 1 - i), ite(eq(i, p), step(w, t), cut(w, t - (i - p))))

        def var(t):
            par = T.sum_(0, p + nb, lambda i: T.sum_(0, p + nb, lambda j: sens(t, i) * U(i, j) * sens(t, j)))
            nz = T.sum_(0, t + 1, lambda m: num(h, t - m) * num(h, t - m) * sg(m) * sg(m))
            return sqrt(T.fn("abs", par + nz))
        B.ret_array((1,), (n,), var, "f", "parameter uncertainty plus filtered noise")


iir("full numerator, noise level", True, "float")
iir("full numerator, noise array", True, "array")
iir("short numerator, noise level", False, "float")
iir("short numerator, noise array", False, "array")
iir("integer samples", True, "float", "i")


@contract("C15", M + "IIRuncFilter", "numerator longer than denominator")
def _(B):
    p, d, n = B.int("p", lo=1, gen=(1, 3)), B.int("d", lo=1, gen=(1, 3)), B.int("n", lo=1, gen=(1, 4))
    x, a, b = B.arr("x", (n,)), B.arr("a", (p + 1,), gen=denominator), B.arr("b", (p + 1 + d,))
    B.assume(eq(a(0), 1))
    s = B.real("sigma", pos=True)
    U = B.arr("Uab", (2 * p + 1 + d, 2 * p + 1 + d), kind="psd")
    B.call(x, s, b, a, U)
    B.raises("ValueError")
