"""C09: the point-wise uncertainties of FIRuncFilter (fast path for uncorrelated noise) are the
standard uncertainties of the full covariance of C08, for every way to ask for them."""
from vc.contract import *
from vc import terms as T
from specs.fir import *
from specs.c08_fir import M, KIND, KTH, signal, sigma, coefficients, rolled


def std_of(U):
    return lambda t: sqrt(T.fn("abs", U(t, t)))


for ic in ("constant", "zero"):
    for ux in (True, False):
        for ut in (True, False):
            @contract("C09", M + "_fir_filter_diag", "%s initial conditions, %s signal, %s filter" % (ic, "uncertain" if ux else "exact", "uncertain" if ut else "exact"))
            def _(B, ic=ic, ux=ux, ut=ut):
                n, x = signal(B)
                L = B.int("L", lo=1, gen=(1, 5))
                th = B.arr("theta", (L,))
                Ux = B.arr("Ux", (n,), kind="nonneg") if ux else None
                Ut = B.arr("Utheta", (L,), kind="nonneg") if ut else None
                B.call(x, th, Ux, Ut, initial_conditions=ic)
                c = ic == "constant"
                xe = ext_signal(x, c)
                Ue = ext_cov(lambda i, j: ite(eq(i, j), Ux(i), 0), n, c) if ux else None
                U = fir_cov(xe, th, L, Ue, (lambda k, l: ite(eq(k, l), Ut(k), 0)) if ut else None)
                B.ret_len(2)
                B.ret_array((0,), (n,), fir_values(xe, th, L), "f", "y is the filtered signal")
                B.ret_array((1,), (n,), lambda t: U(t, t), "f", "diagonal of the covariance of the filtered signal")


@contract("C09", M + "_fir_filter_diag", "unknown initial conditions are rejected")
def _(B):
    n, x = signal(B)
    L = B.int("L", lo=1, gen=(1, 5))
    th = B.arr("theta", (L,))
    B.call(x, th, initial_conditions="steady")
    B.raises("ValueError")


def case(name, sk, tk, shifted=False, full=False, kw0=None, dt="f"):
    @contract("C09", M + "FIRuncFilter", name)
    def _(B):
        n, y = signal(B, "y", dtype=dt)
        L, th, ut, Ut = coefficients(B, tk)
        s, kw, Uy = sigma(B, sk, n) if sk else (None, {}, None)
        kw.update(kw0 or {})
        if ut is not None:
            kw["Utheta"] = ut
        sh = 0
        if shifted:
            sh = kw["shift"] = B.int("shift", lo=None, gen=(-8, 8))
        B.call(y, s, th, **kw)
        xe, Ue = ext_signal(y, True), ext_cov(Uy, n, True) if sk else None
        U = fir_cov(xe, th, L, Ue, Ut)
        f, g = fir_values(xe, th, L), std_of(U)
        if shifted:
            f, g = rolled(n, sh, f), rolled(n, sh, g)
        B.ret_len(2)
        B.ret_array((0,), (n,), f, "f", "x is the filtered signal")
        B.ret_array((1,), (n,), g, "f", "ux is the square root of the diagonal of the full covariance")


for sk in list(KIND) + [None]:
    for tk in KTH:
        if sk is None and tk == "full":
            continue        # undocumented: no noise given at all
        case("%s, %s" % (KIND[sk] if sk else "exact signal", KTH[tk]), sk, tk)
case("shifted: float noise, coefficient standard deviations", "float", "vector", shifted=True)
case("shifted: noise vector, exact coefficients", "diag", None, shifted=True)
case("float noise with kind given explicitly", "float", "vector", kw0={"kind": "diag"})
case("integer valued signal", "float", "vector", dt="i")
