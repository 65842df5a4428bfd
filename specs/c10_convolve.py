"""C10: convolve_unc returns the convolution and its exact covariance in every mode."""
from vc.contract import *
from vc import terms as T
from specs.fir import *

TGT = "PyDynamic.uncertainty.propagate_convolution:convolve_unc"


def conv_values(a, na, b, nb, off):
    """element off + i of the full convolution"""
    return lambda i: S(0, nb, lambda k: b(k) * cases(or_(lt(i + off - k, 0), ge(i + off - k, na)), 0, a(i + off - k)))


def conv_cov(a, na, Ua, b, nb, Ub, off):
    out = lambda i: or_(lt(i, 0), ge(i, na))
    ax = lambda i: cases(out(i), 0, a(i))
    Ux = None if Ua is None else (lambda i, j: cases(or_(out(i), out(j)), 0, Ua(i, j)))
    U = fir_cov(ax, b, nb, Ux, Ub)
    return lambda i, j: U(i + off, j + off)


def inputs(B, u1, u2):
    n1, n2 = B.int("n1", lo=1, gen=(1, 6)), B.int("n2", lo=1, gen=(1, 6))
    x1, x2 = B.arr("x1", (n1,)), B.arr("x2", (n2,))
    U1 = B.arr("U1", (n1, n1), kind="psd") if u1 else None
    U2 = B.arr("U2", (n2, n2), kind="psd") if u2 else None
    return n1, x1, U1, n2, x2, U2


WHO = {(1, 1): "both uncertain", (1, 0): "first uncertain", (0, 1): "second uncertain", (0, 0): "both exact"}
for (u1, u2), who in WHO.items():
    for mode in ("full", "same", "valid"):
        for order in ("first longer", "second longer"):
            @contract("C10", TGT, "%s, %s, %s" % (mode, who, order))
            def _(B, u1=u1, u2=u2, mode=mode, order=order):
                n1, x1, U1, n2, x2, U2 = inputs(B, u1, u2)
                B.call(x1, U1, x2, U2, mode=mode)
                a, na, Ua, b, nb, Ub = x1, n1, U1, x2, n2, U2
                if order == "first longer":
                    B.assume(ge(n1, n2))
                else:
                    B.assume(lt(n1, n2))
                    a, na, Ua, b, nb, Ub = x2, n2, U2, x1, n1, U1
                if mode == "full":
                    off, m = 0, na + nb - 1
                elif mode == "same":
                    off, m = T.floordiv(nb - 1, T.const(2)), na
                else:
                    off, m = nb - 1, na - nb + 1
                B.ret_len(2)
                B.ret_array((0,), (m,), conv_values(a, na, b, nb, off), "f", "convolution of x1 and x2")
                B.ret_array((1,), (m, m), conv_cov(a, na, Ua, b, nb, Ub, off), "f", "covariance of the convolution")


def src(mode, n):
    """sample that continues the signal at position i outside 0..n-1"""
    if mode == "nearest":
        return lambda i: cases(lt(i, 0), 0, ge(i, n), n - 1, i)
    if mode == "reflect":
        return lambda i: cases(lt(i, 0), -i - 1, ge(i, n), 2 * n - 1 - i, i)
    return lambda i: cases(lt(i, 0), -i, ge(i, n), 2 * n - 2 - i, i)


for (u1, u2), who in WHO.items():
    for mode in ("nearest", "reflect", "mirror"):
        @contract("C10", TGT, "%s, %s" % (mode, who))
        def _(B, u1=u1, u2=u2, mode=mode):
            n1, x1, U1, n2, x2, U2 = inputs(B, u1, u2)
            p = T.floordiv(n2 + 1, T.const(2))
            if mode == "reflect":
                B.assume(le(p, n1))
            elif mode == "mirror":
                B.assume(lt(p, n1))
            B.call(x1, U1, x2, U2, mode=mode)
            s, h = src(mode, n1), T.floordiv(n2, T.const(2))
            xe = lambda i: x1(s(i))
            Ue = (lambda i, j: U1(s(i), s(j))) if u1 else None
            U = fir_cov(xe, x2, n2, Ue, U2)
            B.ret_len(2)
            B.ret_array((0,), (n1,), lambda i: fir_values(xe, x2, n2)(i + h), "f", "convolution with the continued signal")
            B.ret_array((1,), (n1, n1), lambda i, j: U(i + h, j + h), "f", "its covariance")


@contract("C10", TGT, "an unknown mode is rejected")
def _(B):
    n1, x1, U1, n2, x2, U2 = inputs(B, 1, 1)
    B.call(x1, U1, x2, U2, mode="wrap")
    B.raises("ValueError")
