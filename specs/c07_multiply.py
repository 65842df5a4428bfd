"""C07: DFT_multiply: product of two frequency responses with the exact covariance."""
from vc.contract import *
from vc import terms as T
from specs.c04_ampphase import block_spec, diag_cov
from specs.c06_deconv import parts, cov

P = "PyDynamic.uncertainty.propagate_DFT:DFT_multiply"


def jac(G, K):
    """derivative of (a + jb)*(G) with respect to (a, b)"""
    r, i = parts(G, K)
    return lambda o, p, k: (r(k) if o == p else (-i(k) if o == 0 else i(k)))


KINDS = {"psd": "covariance", "nonneg": "variances", "float": "one variance"}


def as_cov(u, kind):
    if kind == "psd":
        return u
    return diag_cov(u if kind == "nonneg" else (lambda r: u))


def mk(B, name, K, kind):
    if kind == "float":
        return B.real(name, pos=True)
    return cov(B, name, K, kind)


for ky in KINDS:
    for kf in (None, "psd", "nonneg"):
        @contract("C07", P, "UY %s, UF %s" % (KINDS[ky], KINDS[kf] if kf else "none"))
        def _(B, ky=ky, kf=kf):
            h = B.int("h", lo=0, gen=(0, 4))
            K = h + 1
            Y, F = B.arr("Y", (2 * K,)), B.arr("F", (2 * K,))
            UY = mk(B, "UY", K, ky)
            UF = mk(B, "UF", K, kf) if kf else None
            if kf:
                B.call(Y, F, UY, UF)
            else:
                B.call(Y, F, UY)
            (rY, iY), (rF, iF) = parts(Y, K), parts(F, K)
            B.ret_len(2)
            B.ret_array((0,), (2 * K,), lambda r: cases(lt(r, K), rY(r) * rF(r) - iY(r) * iF(r), rY(r - K) * iF(r - K) + iY(r - K) * rF(r - K)), "f", "YF = Y*F")
            a = block_spec(jac(F, K), as_cov(UY, ky), K)
            b = block_spec(jac(Y, K), as_cov(UF, kf), K) if kf else (lambda r, s: 0)
            B.ret_array((1,), (2 * K, 2 * K), lambda r, s: a(r, s) + b(r, s), "f", "UYF = JF UY JF^T + JY UF JY^T")
            B.ret_rel("UYF is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))


@contract("C07", P, "factors of different length are rejected")
def _(B):
    h = B.int("h", lo=0, gen=(0, 4))
    d = B.int("d", lo=1, gen=(1, 3))
    K = h + 1
    Y, F = B.arr("Y", (2 * K,)), B.arr("F", (2 * K + d,))
    UY = cov(B, "UY", K, "psd")
    B.call(Y, F, UY)
    B.raises("ValueError")
