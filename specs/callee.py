"""callee contracts used modularly: the caller is checked against the callee's postcondition
(proved for the callee in its own property), not against its body.  The results are ghost
arrays: the caller's proof sees them as arbitrary numbers (with the proved symmetry); their
definition is used when the contract is validated by execution."""
from vc.contract import *
from vc import terms as T, values as V, contract as C, prover
from specs.c01_gum_dft import dft_coeff, spec_F, spec_UF, spec_UF_diag

GUM = "PyDynamic.uncertainty.propagate_DFT.GUM_DFT"


def elem_of(v, I):
    a = C.sym_array(v, I)
    return (a[0], (lambda *i: V.num(a[1](*i)))) if a else (None, None)


def same(I, f, g, n):
    """f and g agree at arbitrary indices"""
    ix = [T.fresh("q") for _ in range(n)]
    e = T.sub(T.lift(f(*ix)), T.lift(g(*ix)))
    return prover.prove_eq(e, T.ZERO, I.path.cx, budget=10)[0] == "proved"


def gum_dft(B, N, x, u, form, row=None):
    """declare the results (F, UF) of GUM_DFT(x, u) as ghosts and install its contract (C01).
    form: dense | vector | float; row = number of signals when x, u carry a leading index"""
    K = T.add(T.floordiv(T.lift(N), T.const(2)), T.ONE)
    one = row is None
    X = (lambda i: x) if one else (lambda i: (lambda a: x(i, a)))
    U_ = (lambda i: u) if one else (lambda i: u(i))
    lead = () if one else (row,)
    wrap = (lambda f: (lambda *r: f(None)(*r))) if one else (lambda f: (lambda i, *r: f(i)(*r)))
    F = B.ghost("Fx", lead + (2 * K,), wrap(lambda i: spec_F(X(i), N, N, K)))
    if form == "dense":
        UF = B.ghost("UFx", (2 * K, 2 * K), spec_UF(u, N, N, K), sym=True)
    elif form == "vector":
        UF = B.ghost("UFx", (2 * K, 2 * K), spec_UF_diag(u, N, N, K), sym=True)
    else:
        UF = B.ghost("VFx", lead + (2 * K,), wrap(lambda i: (lambda r: S(0, N, lambda a: U_(i) * dft_coeff(r, a, N, K) ** 2))))

    def handler(I, f, b):
        if any(b[k] is not None for k in ("N", "window", "CxCos", "CxSin", "mask")):
            return NotImplemented
        sx, gx = elem_of(b["x"], I)
        su, gu = elem_of(b["Ux"], I)
        if sx is None or su is None or len(sx) != 1 or not I.entails(T.eq(sx[0], N)):
            return NotImplemented
        idx = ()
        if form == "float":
            if su != () or V.dtype_of(b["Ux"]) not in ("f", "i"):
                return NotImplemented
            e = gu()
            if one:
                if not same(I, lambda: e, lambda: u, 0):
                    return NotImplemented
            else:
                if e.op != "sel" or e.args[0] != u.name:
                    return NotImplemented
                idx = (e.args[1],)
        else:
            if len(su) != (2 if form == "dense" else 1) or not all(I.entails(T.eq(s, N)) for s in su) or not same(I, gu, u, len(su)):
                return NotImplemented
        if not same(I, gx, X(*idx) if idx else X(None), 1):
            return NotImplemented
        rF = V.mkarr((2 * K,), "f", lambda r: F(*idx, r))
        rU = V.mkarr((2 * K,), "f", lambda r: UF(*idx, r)) if form == "float" else V.mkarr((2 * K, 2 * K), "f", lambda r, s: UF(r, s))
        if b["returnC"]:
            if form != "float":
                return NotImplemented
            return (rF, rU, {"CxCos": None, "CxSin": None})
        return (rF, rU)

    B.contracts[GUM] = handler
    return F, UF
