"""C12: make_equidistant interpolates at the regular times min(t), min(t) + dt, ... below max(t)."""
from vc.contract import *
from vc import terms as T
from specs.c11_interp import lin_val, lin_unc, KINDS

TGT = "PyDynamic.uncertainty.interpolate:make_equidistant"


def case(name, kind, with_dt):
    @contract("C12", TGT, name)
    def _(B):
        n = B.int("n", lo=2, gen=(2, 6))
        t = B.arr("t", (n,), kind="sorted")
        y = B.arr("y", (n,))
        u = B.arr("uy", (n,), kind="nonneg")
        kw = {}
        dt = T.const(T.Fraction(0.05))
        if with_dt:
            dt = kw["dt"] = B.real("dt", pos=True)
        if kind:
            kw["kind"] = kind
        B.call(t, y, u, **kw)
        m = T.fn("ceil", (t(n - 1) - t(0)) / dt)
        at = lambda i: t(0) + i * dt
        if kind in (None, "linear"):
            fv, fu = lin_val(t, y, n), lin_unc(t, u, n)
        else:
            k = KINDS[kind](t, n)
            fv, fu = (lambda x: y(k(x))), (lambda x: u(k(x)))
        B.ret_len(3)
        B.ret_array((0,), (m,), at, "f", "the times are regular")
        B.ret_array((1,), (m,), lambda i: fv(at(i)), "f", "interpolated values")
        B.ret_array((2,), (m,), lambda i: fu(at(i)), "f", "their standard uncertainties")


case("default step", None, False)
case("linear", "linear", True)
case("previous", "previous", True)
case("next", "next", True)
case("nearest", "nearest", True)
