"""C23: test signals have the shape and the noise they are asked for."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.misc.testsignals:"


def instants(rng, dims, env):
    """integers off the edges of the pulses: first and last one 101 apart"""
    import numpy as np
    (n,) = dims
    t = rng.integers(-5, 5) + np.sort(rng.choice(np.arange(1, 101), n, replace=False))
    t[-1] = t[0] + 101
    return t


def signal(func, name, setup, dtype="f"):
    """shape plus noise of the given standard deviation; without noise exactly the shape"""
    for noisy in (False, True):
        @contract("C23", M + func, name + (", noise" if noisy else ", no noise"))
        def _(B, noisy=noisy):
            n = B.int("n", lo=2 if setup.__name__ == "several" else 1, gen=(2, 7))
            t = B.arr("time", (n,), dtype=dtype, **({"kind": "sorted"} if dtype == "f" else {"gen": instants}))
            args, kw, shape = setup(B, n, t)
            if noisy:
                sd = B.real("noise", pos=True)
                z = B.draws("z", (n,))
                kw["noise"] = sd
            B.call(t, *args, **kw)
            B.ret_array((), (n,), lambda i: shape(i) + (sd * z(i) if noisy else 0), "f", "signal")


def pulse(shock):
    def setup(B, n, t):
        t0, m0, s = B.real("t0"), B.real("m0"), B.real("sigma", pos=True)
        u = lambda i: (t(i) - t0) / s
        g = lambda i: T.fn("exp", -(u(i) * u(i)) / 2)
        return [t0, m0, s], {}, (lambda i: -m0 * u(i) * T.fn("exp", T.lift(0.5)) * g(i)) if shock else (lambda i: m0 * g(i))
    return setup


def rectangle(B, n, t):
    t0, t1, h = B.real("t0"), B.real("t1"), B.real("height")
    return [t0, t1, h], {}, lambda i: ite(and_(gt(t(i), t0), le(t(i), t1)), h, 0)


def square(default):
    def several(B, n, t):
        h = B.real("height")
        k = T.const(4) if default else B.int("numpulse", lo=1, gen=(1, 5))
        w = (t(n - 1) - t(0)) / (2 * k + 1)
        on = lambda q, i: and_(gt(t(i), t(0) + (2 * q + 1) * w), le(t(i), t(0) + (2 * q + 2) * w))
        return [h] if default else [h, k], {}, lambda i: sum((ite(on(T.const(q), i), h, 0) for q in range(4)), T.ZERO) if default else T.sum_(0, k, lambda q: ite(on(q, i), h, 0))
    return several


def sinus(B, n, t):
    a, period = B.real("amp"), B.real("freq", pos=True)
    return [a, period], {}, lambda i: a * sin(2 * PI / period * t(i))


def multi(B, n, t):
    m = B.int("m", lo=0, gen=(0, 4))
    a, f = B.arr("amps", (m,)), B.arr("freqs", (m,))
    return [a, f], {}, lambda i: T.sum_(0, m, lambda k: a(k) * sin(f(k) * t(i)))


signal("shocklikeGaussian", "shock", pulse(True))
signal("GaussianPulse", "pulse", pulse(False))
signal("rect", "rectangle", rectangle)
signal("squarepulse", "pulses", square(False))
signal("squarepulse", "four pulses by default", square(True))
signal("squarepulse", "integer time", square(False), "i")
signal("sine", "sine", sinus)
signal("multi_sine", "sum", multi)
signal("multi_sine", "sum, integer time", multi, "i")


@contract("C23", M + "sine", "defaults")
def _(B):
    n = B.int("n", lo=1, gen=(1, 7))
    t = B.arr("time", (n,))
    B.call(t)
    B.ret_array((), (n,), lambda i: sin(t(i)), "f", "signal")


@contract("C23", M + "rect", "given noise")
def _(B):
    n = B.int("n", lo=1, gen=(1, 7))
    t, e = B.arr("time", (n,)), B.arr("e", (n,))
    t0, t1 = B.real("t0"), B.real("t1")
    B.call(t, t0, t1, noise=e)
    B.ret_array((), (n,), lambda i: ite(and_(gt(t(i), t0), le(t(i), t1)), 1, 0) + e(i), "f", "signal of height 1")


@contract("C23", M + "rect", "given noise of another length")
def _(B):
    n, m = B.int("n", lo=1, gen=(1, 7)), B.int("m", lo=1, gen=(1, 7))
    B.assume(ne(n, m))
    B.call(B.arr("time", (n,)), B.real("t0"), B.real("t1"), noise=B.arr("e", (m,)))
    B.raises("ValueError")
