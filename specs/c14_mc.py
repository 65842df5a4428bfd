"""C14: Monte Carlo propagation through filters with uncertain coefficients."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.uncertainty.propagate_MonteCarlo:"
D = "PyDynamic.misc.filterstuff:"


def stable(na, a):
    cnt, re, im = roots(na, a)
    return T.not_(T.exists(0, cnt, lambda i: gt(sqrt(re(i) * re(i) + im(i) * im(i)), 1)))


def mc(name, ux, samples=False, low=None):
    @contract("C14", M + "MC", name)
    def _(B):
        n, R = B.int("n", lo=2, gen=(2, 6)), B.int("runs", lo=3, gen=(3, 7))
        nb, na = B.int("nb", lo=1, gen=(1, 3)), B.int("na", lo=1, gen=(1, 3))
        s = B.int("shift", gen=(-7, 7))
        x, b, a = B.arr("x", (n,)), B.arr("b", (nb,)), B.arr("a", (na,))
        p = nb + na - 1
        Uab = B.arr("Uab", (p, p), kind="psd")
        th = B.draws("theta", (R, p), dist="mvn", mean=lambda i: ite(lt(i, na - 1), a(1 + i), b(i - (na - 1))), cov=Uab, gen=lambda nrng, dims, env: nrng.normal(size=dims) * 0.6)
        if ux == "cov":
            U = B.arr("Ux", (n, n), kind="psd")
            xs = B.draws("xs", (R, n), dist="mvn", mean=x, cov=U)
            X = lambda r: lambda i: xs(r, i)
        else:
            U = B.real("ux", pos=True) if ux == "float" else B.arr("ux", (n,), kind="nonneg")
            z = B.draws("z", (R, 1, n))
            X = lambda r: lambda i: x(i) + z(r, 0, i) * (U if ux == "float" else U(i))
        kw = {}
        if low:
            nl = B.int("nl", lo=1, gen=(1, 3))
            bl = kw["blow"] = B.arr("blow", (nl,))
            X0 = X
            if low == "fir":
                X = lambda r: lfilter(nl, bl, 1, lambda j: 1, X0(r))
            else:
                nm = B.int("nm", lo=2, gen=(2, 3))
                al = kw["alow"] = B.arr("alow", (nm,))
                B.assume(ne(al(0), 0))
                X = lambda r: lfilter(nl, bl, nm, al, X0(r))
        bb = lambda r: lambda j: th(r, na - 1 + j)
        aa = lambda r: lambda j: ite(eq(j, 0), 1, th(r, j - 1))
        ok = lambda r: stable(na, aa(r))
        Y = lambda r, i: lfilter(nb, bb(r), na, aa(r), X(r))(i)
        at = lambda i: T.mod(i - s, n)
        B.call(x, U, b, a, Uab, runs=R, shift=s, return_samples=samples, verbose=False, **kw)
        if samples:
            B.ret_array((), (R, n), lambda r, i: ite(ok(r), Y(r, at(i)), 0), "f", "one row per draw, zero for unstable ones")
            return
        C = T.sum_(0, R, lambda r: ite(ok(r), 1, 0))
        B.assume(ge(C, 2))
        mean = lambda i: T.sum_(0, R, lambda r: ite(ok(r), Y(r, i), 0)) / C
        B.ret_len(2)
        B.ret_array((0,), (n,), lambda i: mean(at(i)), "f", "mean of the stable outputs")
        B.ret_array((1,), (n, n), lambda i, j: T.sum_(0, R, lambda r: ite(ok(r), (Y(r, at(i)) - mean(at(i))) * (Y(r, at(j)) - mean(at(j))), 0)) / (C - 1), "f", "sample covariance of the stable outputs")


mc("vector of uncertainties, samples", "vector", samples=True)
mc("one uncertainty, samples", "float", samples=True)
mc("covariance, samples", "cov", samples=True)
mc("vector of uncertainties", "vector")
mc("one uncertainty", "float")
mc("covariance", "cov")
mc("FIR low-pass, samples", "float", samples=True, low="fir")
mc("recursive low-pass, samples", "vector", samples=True, low="iir")
mc("FIR low-pass", "vector", low="fir")


@contract("C14", M + "MC", "unknown form of uncertainty")
def _(B):
    n = B.int("n", lo=2, gen=(2, 6))
    B.call(B.arr("x", (n,)), None, B.arr("b", (2,)), B.arr("a", (1,)), B.arr("Uab", (2, 2), kind="psd"), runs=3, verbose=False)
    B.raises("NotImplementedError")


@contract("C14", D + "isstable", "digital")
def _(B):
    nb, na = B.int("nb", lo=1, gen=(1, 3)), B.int("na", lo=1, gen=(1, 4))
    b, a = B.arr("b", (nb,)), B.arr("a", (na,))
    B.call(b, a)
    B.ret_scalar((), ite(stable(na, a), 1, 0), "no pole outside the unit circle")


@contract("C14", D + "isstable", "analog")
def _(B):
    nb, na = B.int("nb", lo=1, gen=(1, 3)), B.int("na", lo=1, gen=(1, 4))
    b, a = B.arr("b", (nb,)), B.arr("a", (na,))
    B.call(b, a, "analog")
    cnt, re, im = roots(na, a)
    B.ret_scalar((), ite(T.exists(0, cnt, lambda i: gt(re(i), 0)), 0, 1), "no pole in the right half plane")


@contract("C14", D + "isstable", "unknown type of filter")
def _(B):
    nb, na = B.int("nb", lo=1, gen=(1, 3)), B.int("na", lo=1, gen=(1, 4))
    B.call(B.arr("b", (nb,)), B.arr("a", (na,)), ftype="hybrid")
    B.raises("ValueError")
