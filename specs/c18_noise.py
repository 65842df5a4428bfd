"""C18: generated noise follows the process it is asked for."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.misc.noise:"


def arma(name, phi_form, theta_form):
    @contract("C18", M + "ARMA", name)
    def _(B):
        n = B.int("n", lo=1, gen=(1, 8))
        std = B.real("std", pos=True)
        kw = {}

        def coeffs(nm, form):
            if form == "array":
                p = B.int(nm + "_len", lo=1, gen=(1, 4))
                kw[nm] = B.arr(nm, (p,))
                return p, kw[nm]
            if form == "float":
                kw[nm] = B.real(nm)
                return T.const(1), lambda j: kw[nm]
            return T.const(0), lambda j: ZERO
        p, phi = coeffs("phi", phi_form)
        q, theta = coeffs("theta", theta_form)
        z = B.draws("w", (n,))
        w = lambda k: std * z(k)
        B.call(n, std=std, **kw)
        def step(e, k):
            lo = lambda m: ite(lt(k, m), k, m)
            ar = T.sum_(0, lo(p), lambda j: phi(j) * e(k - 1 - j)) if p is not T.const(0) else 0
            ma = T.sum_(0, lo(q), lambda j: theta(j) * w(k - 1 - j)) if q is not T.const(0) else 0
            return e(k), ar + ma + w(k)
        B.ret_rel("ARMA recurrence", (), step, n=1)


arma("autoregressive and moving average", "array", "array")
arma("scalar coefficients", "float", "float")
arma("autoregressive", "array", None)
arma("moving average", None, "array")
arma("white noise", None, None)


for nm, val in (("violet", 2), ("blue", 1), ("white", 0), ("pink", -1), ("red", -2), ("brown", -2)):
    @contract("C18", M + "get_alpha", nm)
    def _(B, nm=nm, val=val):
        B.call(nm)
        B.ret_scalar((), T.const(val), "exponent of the colour")


@contract("C18", M + "get_alpha", "a number")
def _(B):
    v = B.real("alpha")
    B.call(v)
    B.ret_scalar((), v, "the number itself")


@contract("C18", M + "get_alpha", "unknown colour")
def _(B):
    B.call("green")
    B.raises("NotImplementedError")


@contract("C18", M + "white_gaussian", "draws")
def _(B):
    n, m, s = B.int("n", lo=1, gen=(1, 6)), B.real("mean"), B.real("std", pos=True)
    z = B.draws("z", (n,))
    B.call(n, m, s)
    B.ret_array((), (n,), lambda k: m + s * z(k), "f", "mean plus std times a standard normal number")


for col in ("white", "blue", "violet", "red"):
    @contract("C18", M + "power_law_noise", col)
    def _(B, col=col):
        n, m, s = B.int("n", lo=3, gen=(3, 8)), B.real("mean"), B.real("std", pos=True)
        w = B.arr("w", (n,))
        B.call(w=w, color_value=col, mean=m, std=s)
        B.ret_rel("the sample mean is the requested one", (), lambda e, k: (T.sum_(0, n, lambda j: e(j)), n * m), n=1)
        B.ret_rel("the sample standard deviation is the requested one", (), lambda e, k: (T.sum_(0, n, lambda j: (e(j) - m) * (e(j) - m)), n * s * s), n=1)


for col in ("white", "pink", "blue"):
    @contract("C18", M + "power_law_acf", col)
    def _(B, col=col):
        n, s = B.int("n", lo=2, gen=(2, 7)), B.real("std", pos=True)
        B.call(n, color_value=col, std=s)
        B.ret_rel("zero lag is the variance", (), lambda e, k: (ite(eq(k, 0), e(k), s * s), s * s), n=1)
