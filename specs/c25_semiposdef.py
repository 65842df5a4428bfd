"""C25: make_semiposdef shifts the spectrum of the symmetrised matrix just as far as needed."""
from vc.contract import *
from vc import terms as T

TARGET = "PyDynamic.misc.tools:make_semiposdef"


def diagonal(rng, dims, env):
    """diagonal matrix of integers: the eigenvalues and the shift are exact in floating point"""
    import numpy as np
    return np.diag(rng.integers(-3, 4, size=dims[0]).astype(float))


def dense(name, given):
    @contract("C25", TARGET, name)
    def _(B):
        n = B.int("n", lo=1, gen=(2, 4))
        M = B.arr("M", (n, n), **({"gen": diagonal} if given else {}))
        kw, tol, maxiter = {}, T.lift(1e-12), T.const(10)
        if given:
            tol, maxiter = B.real("tol", pos=True, gen=lambda rng: 0.25), B.int("maxiter", lo=0, gen=(0, 2))
            kw = {"tol": tol, "maxiter": maxiter}
        B.call(M, **kw)
        S = lambda i, j: (M(i, j) + M(j, i)) / 2
        lam = eigvals(n, S)
        low = T.minmax("min", T.ZERO, n, lam)
        shift = ite(and_(lt(low, tol), gt(maxiter, 0)), T.fn("abs", low) + tol, 0)
        B.ret_array((), (n, n), lambda i, j: S(i, j) + ite(eq(i, j), shift, 0), "f", "symmetric part, shifted if its smallest eigenvalue is below the tolerance")


dense("defaults", False)
dense("tolerance and number of iterations", True)


@contract("C25", TARGET, "not square")
def _(B):
    n, m = B.int("n", lo=1, gen=(1, 4)), B.int("m", lo=1, gen=(1, 4))
    B.assume(ne(n, m))
    B.call(B.arr("M", (n, m)))
    B.raises("ValueError")
