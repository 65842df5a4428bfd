"""C21: small tools of PyDynamic.misc.tools: shifting with uncertainty, trimming and padding, polar to Cartesian by Monte Carlo."""
from vc.contract import *
from vc import terms as T

M = "PyDynamic.misc.tools:"


def rolled(n, s):
    """index of the value that ends at position i when n values are rolled by s"""
    return lambda i: T.mod(i - s, n)


def shift_case(name, form):
    @contract("C21", M + "shift_uncertainty", name)
    def _(B):
        n, s = B.int("n", lo=1, gen=(1, 6)), B.int("shift", gen=(-8, 8))
        x = B.arr("x", (n,))
        at = rolled(n, s)
        ux = {"number": lambda: B.real("ux", pos=True), "vector": lambda: B.arr("ux", (n,), kind="pos"),
              "matrix": lambda: B.arr("Ux", (n, n), kind="psd"), "stack": lambda: B.arr("Ux", (n, n, n))}[form]()
        B.call(x, ux, s)
        if form == "stack":
            B.raises("TypeError")
            return
        B.ret_len(2)
        B.ret_array((0,), (n,), lambda i: x(at(i)), "f", "shifted values")
        if form == "number":
            B.ret_scalar((1,), ux, "uncertainty")
        elif form == "vector":
            B.ret_array((1,), (n,), lambda i: ux(at(i)), "f", "shifted uncertainties")
        else:
            B.ret_array((1,), (n, n), lambda i, j: ux(at(i), at(j)), "f", "rows and columns of the covariance shifted alike")


shift_case("one uncertainty", "number")
shift_case("vector of uncertainties", "vector")
shift_case("covariance", "matrix")
shift_case("three dimensional uncertainty", "stack")


@contract("C21", M + "shift_uncertainty", "unknown type of uncertainty")
def _(B):
    n, s = B.int("n", lo=1, gen=(1, 6)), B.int("shift", gen=(-8, 8))
    B.call(B.arr("x", (n,)), None, s)
    B.raises("TypeError")


@contract("C21", M + "trimOrPad", "zeros")
def _(B):
    n, m = B.int("n", lo=1, gen=(1, 6)), B.int("length", lo=0, gen=(0, 9))
    x = B.arr("x", (n,))
    B.call(x, m)
    B.ret_array((), (m,), lambda i: ite(lt(i, n), x(i), 0), "f", "first values, then zeros")


@contract("C21", M + "trimOrPad", "edge")
def _(B):
    n, m = B.int("n", lo=1, gen=(1, 6)), B.int("length", lo=0, gen=(0, 9))
    x = B.arr("x", (n,))
    B.call(x, m, mode="edge")
    B.ret_array((), (m,), lambda i: ite(lt(i, n), x(i), x(n - 1)), "f", "first values, then the last one")


for form in ("matrix", "vector"):
    @contract("C21", M + "FreqResp2RealImag", "covariance" if form == "matrix" else "variances")
    def _(B, form=form):
        n, R = B.int("n", lo=1, gen=(1, 4)), B.int("runs", lo=2, gen=(2, 6))
        A, P = B.arr("A", (n,)), B.arr("P", (n,))
        U = B.arr("U", (2 * n, 2 * n), kind="psd") if form == "matrix" else B.arr("U", (2 * n,), kind="pos")
        cov = U if form == "matrix" else (lambda i, j: ite(eq(i, j), U(i), 0))
        z = B.draws("z", (R, 2 * n), dist="mvn", mean=lambda i: ite(lt(i, n), A(i), P(i - n)), cov=cov)
        B.call(A, P, U, MCruns=R)
        X = lambda i, r: ite(lt(i, n), z(r, i) * cos(z(r, n + i)), z(r, i - n) * sin(z(r, i)))
        mean = lambda i: T.sum_(0, R, lambda r: X(i, r)) / R
        B.ret_len(3)
        B.ret_array((0,), (n,), lambda i: mean(i), "f", "mean real part at every frequency")
        B.ret_array((1,), (n,), lambda i: mean(n + i), "f", "mean imaginary part at every frequency")
        B.ret_array((2,), (2 * n, 2 * n), lambda i, j: T.sum_(0, R, lambda r: (X(i, r) - mean(i)) * (X(j, r) - mean(j))) / (R - 1), "f", "sample covariance")


@contract("C21", M + "FreqResp2RealImag", "inconsistent lengths")
def _(B):
    n, m, k = B.int("n", lo=1, gen=(1, 4)), B.int("m", lo=1, gen=(1, 4)), B.int("k", lo=1, gen=(1, 8))
    B.assume(or_(ne(n, m), ne(k, 2 * n)))
    B.call(B.arr("A", (n,)), B.arr("P", (m,)), B.arr("U", (k,), kind="pos"))
    B.raises("ValueError")
