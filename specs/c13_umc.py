"""C13: block-wise Monte Carlo (UMC_generic) equals the Monte Carlo over all runs at once."""
from vc.contract import *
from vc import terms as T


def blocks(B):
    """runs = (nb - 1) * bs + rem with 1 <= rem <= bs: every number of runs >= 1 and block size >= 1"""
    bs, nb = B.int("bs", lo=1, gen=(1, 5)), B.int("nb", lo=1, gen=(1, 4))
    rem = B.int("rem", lo=1, gen=(1, 5))
    B.assume(le(rem, bs))
    return bs, nb, (nb - 1) * bs + rem


def least(x, y, kind):
    return ite(le(y, x) if kind == "min" else ge(y, x), y, x)


def umc(name, samples, bins, cpus=1):
    @contract("C13", "pd_umc:umc", name)
    def _(B):
        bs, nb, runs = blocks(B)
        r0, p = B.int("r0", lo=1, gen=(1, 5)), B.int("p", lo=1, gen=(1, 3))
        data = B.arr("data", (r0 + runs, p))
        h = B.int("h", lo=1, gen=(1, 4))
        B.call(data, runs, bs, r0, [h, 2] if bins == "list" else h, samples, cpus)
        R = lambda r, i: T.fn("arctan", data(r0 + r, i))
        init = lambda kind, i: T.minmax(kind, T.ZERO, r0, lambda q: T.fn("arctan", data(q, i)))
        # bins in the range of the initial runs
        E = B.cut("E", (h + 1, p), lambda b, i: init("min", i) + b * (init("max", i) - init("min", i)) / h)
        mean_n = lambda n, i: T.sum_(0, n, lambda r: R(r, i)) / n
        cov_n = lambda n, i, j: ite(le(n, 1), 0, T.sum_(0, n, lambda r: (R(r, i) - mean_n(n, i)) * (R(r, j) - mean_n(n, j))) / (n - 1))
        inside = lambda r, b, i: and_(ge(R(r, i), E(b, i)), or_(lt(R(r, i), E(b + 1, i)), and_(eq(b, h - 1), le(R(r, i), E(b + 1, i)))))
        count = lambda n, b, i: T.sum_(0, n, lambda r: ite(inside(r, b, i), 1, 0))
        S = lambda q, i: T.fn("arctan", data(q, i))
        lo = lambda n, i: T.minmax("min", T.ZERO, r0 + n, lambda q: S(q, i))
        hi = lambda n, i: T.minmax("max", T.ZERO, r0 + n, lambda q: S(q, i))
        ylo, yhi = B.cut("ylo", (p,), lambda i: lo(runs, i), after_loop=True), B.cut("yhi", (p,), lambda i: hi(runs, i), after_loop=True)
        # state after k + 1 blocks
        done = lambda f: lambda top, k, *i: ite(lt(k, nb - 1), f((k + 1) * bs, *i), f(runs, *i))
        B.invariant((p,), done(mean_n))
        B.invariant((p, p), done(cov_n))
        B.invariant((p,), done(lo))
        B.invariant((p,), done(hi))
        B.invariant((h, p), done(count), prefer=True)
        if samples:
            upto = lambda k: ite(lt(k, nb - 1), (k + 1) * bs, runs)
            B.invariant((runs, p), lambda top, k, q, i: data(r0 + q, i), written=lambda k, q, i: lt(q, upto(k)))
            B.invariant((runs, p), lambda top, k, q, i: R(q, i), written=lambda k, q, i: lt(q, upto(k)))
        at = 5 if samples else 4
        B.ret_len(at + 2)
        B.ret_array((at,), (h + 1, p), lambda b, i: ite(eq(b, 0), least(ylo(i), E(b, i), "min"), ite(eq(b, h), least(yhi(i), E(b, i), "max"), E(b, i))), "f", "bin edges cover all results")
        B.ret_array((at + 1,), (h, p), lambda b, i: count(runs, b, i), "f", "bin counts of all runs in the initial range")
        B.ret_array((0,), (p,), lambda i: mean_n(runs, i), "f", "mean of all runs")
        B.ret_array((1,), (p, p), lambda i, j: cov_n(runs, i, j), "f", "sample covariance of all runs")
        if samples:
            B.ret_array((4, "samples"), (runs, p), lambda r, i: data(r0 + r, i), "f", "all samples")
            B.ret_array((4, "results"), (runs, p), R, "f", "all results")


umc("one histogram", False, "int")
umc("two histograms", False, "list")
umc("with samples", True, "int")
umc("with samples, several processes", True, "int", 2)
