"""C06: DFT_deconv / DFT_transferfunction: X = Y/H with the exact first order covariance."""
from vc.contract import *
from vc import terms as T
from specs.c04_ampphase import block_spec, diag_cov

P = "PyDynamic.uncertainty.propagate_DFT:"


def parts(F, K):
    return (lambda k: F(k)), (lambda k: F(k + K))


def quot(H, Y, K):
    """stacked real and imaginary parts of Y/H"""
    (rH, iH), (rY, iY) = parts(H, K), parts(Y, K)
    n = lambda k: rH(k) ** 2 + iH(k) ** 2
    re = lambda k: (rY(k) * rH(k) + iY(k) * iH(k)) / n(k)
    im = lambda k: (iY(k) * rH(k) - rY(k) * iH(k)) / n(k)
    return re, im


def jac_Y(H, Y, K):
    """dX/dY: multiplication by 1/H"""
    rH, iH = parts(H, K)
    n = lambda k: rH(k) ** 2 + iH(k) ** 2
    g, h = (lambda k: rH(k) / n(k)), (lambda k: -iH(k) / n(k))
    return lambda o, i, k: (g(k) if o == i else (-h(k) if o == 0 else h(k)))


def jac_H(H, Y, K):
    """dX/dH = -X/H: X is holomorphic in H"""
    rH, iH = parts(H, K)
    n = lambda k: rH(k) ** 2 + iH(k) ** 2
    re, im = quot(H, Y, K)
    # D = -X * conj(H)/|H|^2
    dr = lambda k: -(re(k) * rH(k) + im(k) * iH(k)) / n(k)
    di = lambda k: -(im(k) * rH(k) - re(k) * iH(k)) / n(k)
    return lambda o, i, k: (dr(k) if o == i else (-di(k) if o == 0 else di(k)))


def cov(B, name, K, kind):
    return B.arr(name, (2 * K, 2 * K) if kind == "psd" else (2 * K,), kind=kind)


def spec(B, H, Y, UH, UY, K, kh, ky):
    re, im = quot(H, Y, K)
    B.ret_len(2)
    B.ret_array((0,), (2 * K,), lambda r: cases(lt(r, K), re(r), im(r - K)), "f", "X = Y/H")
    a = block_spec(jac_Y(H, Y, K), UY if ky == "psd" else diag_cov(UY), K)
    b = block_spec(jac_H(H, Y, K), UH if kh == "psd" else diag_cov(UH), K)
    B.ret_array((1,), (2 * K, 2 * K), lambda r, s: a(r, s) + b(r, s), "f", "UX = JY UY JY^T + JH UH JH^T")
    B.ret_rel("UX is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))


def gen_freq(rng, dims, env):
    """frequency response bounded away from zero"""
    import numpy as np
    K = dims[0] // 2
    ph = rng.uniform(-3.1, 3.1, size=K)
    a = rng.uniform(0.5, 2.0, size=K)
    return np.r_[a * np.cos(ph), a * np.sin(ph)]


def inputs(B, kh, ky):
    h = B.int("h", lo=0, gen=(0, 4))
    K = h + 1
    H = B.arr("H", (2 * K,), gen=gen_freq)
    Y = B.arr("Y", (2 * K,))
    for k in ():
        pass
    return K, H, Y, cov(B, "UH", K, kh), cov(B, "UY", K, ky)


NM = {"psd": "covariance", "nonneg": "variances"}
for kh in NM:
    for ky in NM:
        @contract("C06", P + "DFT_deconv", "UH %s, UY %s" % (NM[kh], NM[ky]))
        def _(B, kh=kh, ky=ky):
            K, H, Y, UH, UY = inputs(B, kh, ky)
            B.call(H, Y, UH, UY)
            spec(B, H, Y, UH, UY, K, kh, ky)

        @contract("C06", P + "DFT_transferfunction", "UX %s, UY %s" % (NM[kh], NM[ky]))
        def _(B, kh=kh, ky=ky):
            K, H, Y, UH, UY = inputs(B, kh, ky)
            B.call(H, Y, UH, UY)
            spec(B, H, Y, UH, UY, K, kh, ky)


for nm, dy, duh, duy in (("Y of different length", 1, 0, 0), ("UH of wrong size", 0, 1, 0), ("UY of wrong size", 0, 0, 1), ("UH of odd size", 0, 0.5, 0)):
    for kind in ("psd", "nonneg"):
        @contract("C06", P + "DFT_deconv", "%s is rejected (%s)" % (nm, NM[kind]))
        def _(B, dy=dy, duh=duh, duy=duy, kind=kind):
            h = B.int("h", lo=0, gen=(0, 4))
            d = B.int("d", lo=1, gen=(1, 2))
            K = h + 1
            H = B.arr("H", (2 * K,), gen=gen_freq)
            Y = B.arr("Y", (2 * (K + dy * d),))
            n = 2 * (K + int(duh) * d) + (2 * d - 1 if duh == 0.5 else 0)
            UH = B.arr("UH", (n, n) if kind == "psd" else (n,), kind=kind)
            n = 2 * (K + dy * d + duy * d)
            UY = B.arr("UY", (n, n) if kind == "psd" else (n,), kind=kind)
            B.call(H, Y, UH, UY)
            B.raises("ValueError")
