"""C04: DFT <-> amplitude/phase conversions propagate covariances by the exact Jacobian."""
from vc.contract import *
from vc import terms as T

P = "PyDynamic.uncertainty.propagate_DFT:"


def quad(J1, J2, U, K):
    """entry of J U J^T for pointwise 2x2 Jacobians: J1(p), J2(q) (p,q in {0,1}), U(p,q)"""
    return T.add(*[J1(p) * U(p, q) * J2(q) for p in (0, 1) for q in (0, 1)])


def block_spec(jac, U, K):
    """jac(out, in, k): derivative of output component out at line k; U(r, s) full covariance.
    result(r, s) of size 2K x 2K"""
    def f(r, s):
        ro, so = cases(lt(r, K), 0, 1), None
        out = None
        res = []
        for a in (0, 1):
            for b in (0, 1):
                k, l = r - a * K, s - b * K
                v = T.add(*[jac(a, p, k) * U(k + p * K, l + q * K) * jac(b, q, l) for p in (0, 1) for q in (0, 1)])
                res.append((and_(lt(r, K) if a == 0 else ge(r, K), lt(s, K) if b == 0 else ge(s, K)), v))
        return cases(res[0][0], res[0][1], res[1][0], res[1][1], res[2][0], res[2][1], res[3][1])
    return f


def diag_cov(u):
    return lambda r, s: cases(eq(r, s), u(r), 0)


def dia_cov(D, K):
    """covariance stored by diagonals: D[0] main diagonal, D[1] (offset K), D[2] (offset -K)"""
    return lambda r, s: cases(eq(r, s), D(0, s), eq(s - r, K), D(1, s), eq(r - s, K), D(2, s), 0)


def polar_jac(F, K):
    R, I = (lambda k: F(k)), (lambda k: F(k + K))
    A2 = lambda k: R(k) ** 2 + I(k) ** 2

    def jac(o, i, k):
        if o == 0:
            return (R(k) if i == 0 else I(k)) / sqrt(A2(k))
        return (-I(k) if i == 0 else R(k)) / A2(k)
    return jac


def cart_jac(A, Ph):
    def jac(o, i, k):
        if i == 0:
            return cos(Ph(k)) if o == 0 else sin(Ph(k))
        return -A(k) * sin(Ph(k)) if o == 0 else A(k) * cos(Ph(k))
    return jac


def amp(F, K):
    return lambda k: sqrt(F(k) ** 2 + F(k + K) ** 2)


def phase(F, K):
    return lambda k: atan2(F(k + K), F(k))


def dft_inputs(B, kind):
    h = B.int("h", lo=0, gen=(0, 4))
    K = h + 1
    F = B.arr("F", (2 * K,))
    UF = B.arr("UF", (2 * K, 2 * K) if kind == "psd" else (2 * K,), kind=kind if kind == "psd" else "pos")
    return K, F, UF


for kind, sp, nm in (("psd", False, "dense covariance"), ("pos", False, "variances"), ("pos", True, "variances, sparse result")):
    for rt in ("separate", "concatenated"):
        @contract("C04", P + "DFT2AmpPhase", "%s, %s" % (nm, rt))
        def _(B, kind=kind, sp=sp, rt=rt):
            K, F, UF = dft_inputs(B, kind)
            kw = {}
            if sp:
                kw["keep_sparse"] = True
            if rt != "separate":
                kw["return_type"] = "concat"
            B.call(F, UF, **kw)
            B.ret_len(3 if rt == "separate" else 2)
            if rt == "separate":
                B.ret_array((0,), (K,), amp(F, K), "f", "amplitude")
                B.ret_array((1,), (K,), phase(F, K), "f", "phase")
            else:
                B.ret_array((0,), (2 * K,), lambda r: cases(lt(r, K), amp(F, K)(r), phase(F, K)(r - K)), "f", "amplitude and phase")
            U = UF if kind == "psd" else diag_cov(UF)
            pth = (2,) if rt == "separate" else (1,)
            B.ret_array(pth, (2 * K, 2 * K), block_spec(polar_jac(F, K), U, K), "f", "UAP = J UF J^T")
            B.ret_rel("UAP is symmetric", pth, lambda u, i, j: (u(i, j), u(j, i)))


@contract("C04", P + "DFT2AmpPhase", "threshold argument does not change the result")
def _(B):
    K, F, UF = dft_inputs(B, "psd")
    tol = B.real("tol", pos=True)
    B.call(F, UF, False, tol)
    B.ret_array((0,), (K,), amp(F, K), "f", "amplitude")
    B.ret_array((2,), (2 * K, 2 * K), block_spec(polar_jac(F, K), UF, K), "f", "UAP = J UF J^T")


def ap_inputs(B):
    K = B.int("K", lo=1, gen=(1, 5))
    A = B.arr("A", (K,), kind="pos")
    Ph = B.arr("P", (K,))
    return K, A, Ph


def spec_F(A, Ph, K):
    return lambda r: cases(lt(r, K), A(r) * cos(Ph(r)), A(r - K) * sin(Ph(r - K)))


@contract("C04", P + "AmpPhase2DFT", "dense covariance")
def _(B):
    K, A, Ph = ap_inputs(B)
    U = B.arr("UAP", (2 * K, 2 * K), kind="psd")
    B.call(A, Ph, U)
    B.ret_len(2)
    B.ret_array((0,), (2 * K,), spec_F(A, Ph, K), "f", "F = A exp(jP)")
    B.ret_array((1,), (2 * K, 2 * K), block_spec(cart_jac(A, Ph), U, K), "f", "UF = J UAP J^T")
    B.ret_rel("UF is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))


for sp in (False, True):
    @contract("C04", P + "AmpPhase2DFT", "variances" + (", sparse result" if sp else ""))
    def _(B, sp=sp):
        K, A, Ph = ap_inputs(B)
        U = B.arr("UAP", (2 * K,), kind="nonneg")
        B.call(A, Ph, U, sp)
        B.ret_array((0,), (2 * K,), spec_F(A, Ph, K), "f", "F = A exp(jP)")
        B.ret_array((1,), (2 * K, 2 * K), block_spec(cart_jac(A, Ph), diag_cov(U), K), "f", "UF = J diag(UAP) J^T")

    @contract("C04", P + "AmpPhase2DFT", "covariance stored by diagonals" + (", sparse result" if sp else ""))
    def _(B, sp=sp):
        K, A, Ph = ap_inputs(B)
        D = sym_dia(B, K)
        B.call(A, Ph, B.dia(D, [0, K, -K], (2 * K, 2 * K)), sp)
        B.ret_array((0,), (2 * K,), spec_F(A, Ph, K), "f", "F = A exp(jP)")
        B.ret_array((1,), (2 * K, 2 * K), block_spec(cart_jac(A, Ph), dia_cov(D, K), K), "f", "UF = J UAP J^T")


def dia_gen(rng, dims, env):
    import numpy as np
    K = dims[1] // 2
    d = np.zeros(dims)
    d[0] = rng.uniform(1.0, 2.0, size=2 * K)
    c = rng.uniform(-0.9, 0.9, size=K)
    d[1, K:] = c
    d[2, :K] = c
    return d


def sym_dia(B, K):
    """symmetric matrix stored by diagonals 0, K, -K: upper and lower off-diagonals agree"""
    return B.arr("D", (3, 2 * K), gen=dia_gen, alias=lambda d, i, j: cases(and_(eq(i, 2), lt(j, K)), d(1, j + K), d(i, j)))


for nm, ash, psh, ush in (("P of different length", 0, 1, 0), ("covariance of wrong size", 0, 0, 1)):
    @contract("C04", P + "AmpPhase2DFT", nm + " is rejected")
    def _(B, psh=psh, ush=ush):
        K = B.int("K", lo=1, gen=(1, 4))
        d = B.int("d", lo=1, gen=(1, 3))
        A, Ph = B.arr("A", (K,), kind="pos"), B.arr("P", (K + psh * d,))
        U = B.arr("UAP", (2 * K + ush * d, 2 * K + ush * d), kind="psd")
        B.call(A, Ph, U)
        B.raises("ValueError")
