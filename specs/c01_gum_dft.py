"""C01: GUM_DFT propagates the input covariance exactly through the (windowed,
zero-padded, masked) real DFT."""
from vc.contract import *
from vc import terms as T

TGT = "PyDynamic.uncertainty.propagate_DFT:GUM_DFT"


def dft_coeff(r, n, N, M):
    """row r of the real DFT matrix (real parts on top of imaginary parts, M = N//2+1)"""
    return cases(lt(r, M), cos(2 * PI * r * n / N), -sin(2 * PI * (r - M) * n / N))


def size(B, parity, lo=1):
    h = B.int("h", lo=lo if parity == 0 else max(0, lo - 1), gen=(lo if parity == 0 else 0, 5))
    return h, 2 * h + parity


def spec_F(x, L, N, M):
    return lambda r: S(0, L, lambda n: dft_coeff(r, n, N, M) * x(n))


def spec_UF(U, L, N, M):
    return lambda r, s: S(0, L, lambda a: S(0, L, lambda b: dft_coeff(r, a, N, M) * U(a, b) * dft_coeff(s, b, N, M)))


def spec_UF_diag(u, L, N, M):
    return lambda r, s: S(0, L, lambda a: dft_coeff(r, a, N, M) * u(a) * dft_coeff(s, a, N, M))


def padded(B, parity):
    """signal of length L zero padded to N >= L"""
    h, N = size(B, parity)
    L = B.int("L", lo=1, gen=(1, 8))
    B.assume(le(L, N))
    return h, N, L


for parity, nm in ((0, "even"), (1, "odd")):
    @contract("C01", TGT, "dense covariance, %s length" % nm)
    def _(B, parity=parity):
        h, N = size(B, parity)
        x, U = B.arr("x", (N,)), B.arr("Ux", (N, N), kind="psd")
        B.call(x, U)
        B.ret_len(2)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, N, N, h + 1), "f", "F is the DFT of x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF(U, N, N, h + 1), "f", "UF = C Ux C^T")
        B.ret_rel("UF is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))

    @contract("C01", TGT, "diagonal covariance given as vector, %s length" % nm)
    def _(B, parity=parity):
        h, N = size(B, parity)
        x, u = B.arr("x", (N,)), B.arr("ux", (N,), kind="nonneg")
        B.call(x, u)
        B.ret_len(2)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, N, N, h + 1), "f", "F is the DFT of x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF_diag(u, N, N, h + 1), "f", "UF = C diag(ux) C^T")

    for form in ("float", "integer"):
      @contract("C01", TGT, "noise variance given as %s, %s length" % (form, nm))
      def _(B, parity=parity, form=form):
        h, N = size(B, parity)
        x, u = B.arr("x", (N,)), B.real("ux", pos=True) if form == "float" else B.int("ux", lo=1, gen=(1, 4))
        B.call(x, u)
        B.ret_len(2)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, N, N, h + 1), "f", "F is the DFT of x")
        B.ret_array((1,), (2 * h + 2,), lambda r: S(0, N, lambda a: u * dft_coeff(r, a, N, h + 1) ** 2), "f", "UF is the diagonal of ux C C^T")

    @contract("C01", TGT, "zero padding, dense covariance, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L = padded(B, parity)
        x, U = B.arr("x", (L,)), B.arr("Ux", (L, L), kind="psd")
        B.call(x, U, N)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, L, N, h + 1), "f", "F is the DFT of the padded x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF(U, L, N, h + 1), "f", "UF = C Ux C^T")

    @contract("C01", TGT, "zero padding, float, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L = padded(B, parity)
        x, u = B.arr("x", (L,)), B.real("ux", pos=True)
        B.call(x, u, N=N)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, L, N, h + 1), "f", "F is the DFT of the padded x")
        B.ret_array((1,), (2 * h + 2,), lambda r: S(0, L, lambda a: u * dft_coeff(r, a, N, h + 1) ** 2), "f", "UF is the diagonal of ux C C^T")

    @contract("C01", TGT, "zero padding, vector, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L = padded(B, parity)
        x, u = B.arr("x", (L,)), B.arr("ux", (L,), kind="nonneg")
        B.call(x, u, N)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, L, N, h + 1), "f", "F is the DFT of the padded x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF_diag(u, L, N, h + 1), "f", "UF = C diag(ux) C^T")

    @contract("C01", TGT, "window and zero padding, dense covariance, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L = padded(B, parity)
        x, U, w = B.arr("x", (L,)), B.arr("Ux", (L, L), kind="psd"), B.arr("w", (L,))
        B.call(x, U, N=N, window=w)
        B.ret_array((0,), (2 * h + 2,), spec_F(lambda n: w(n) * x(n), L, N, h + 1), "f", "F is the DFT of w*x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF(lambda a, b: w(a) * U(a, b) * w(b), L, N, h + 1), "f", "UF = C W Ux W C^T")

    @contract("C01", TGT, "window, float, %s length" % nm)
    def _(B, parity=parity):
        h, N = size(B, parity)
        x, u, w = B.arr("x", (N,)), B.real("ux", pos=True), B.arr("w", (N,))
        B.call(x, u, window=w)
        B.ret_array((0,), (2 * h + 2,), spec_F(lambda n: w(n) * x(n), N, N, h + 1), "f", "F is the DFT of w*x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF_diag(lambda a: u * w(a) ** 2, N, N, h + 1), "f", "UF = C W ux W C^T")

    @contract("C01", TGT, "window, variances given as vector, %s length" % nm)
    def _(B, parity=parity):
        h, N = size(B, parity)
        x, u, w = B.arr("x", (N,)), B.arr("ux", (N,), kind="nonneg"), B.arr("w", (N,))
        B.call(x, u, window=w)
        B.ret_array((0,), (2 * h + 2,), spec_F(lambda n: w(n) * x(n), N, N, h + 1), "f", "F is the DFT of w*x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF_diag(lambda a: u(a) * w(a) ** 2, N, N, h + 1), "f", "UF = C W diag(ux) W C^T")

    def masked(B, parity):
        from vc.interp import get_nth
        from vc.prover import count_of
        h, N, L = padded(B, parity)
        mask = B.arr("mask", (h + 1,), dtype="b")
        mf = lambda k: mask(k)
        K = count_of(h + 1, mf)
        nth = get_nth(h + 1, mf)
        row = lambda r: cases(lt(r, K), T.fn(nth, r), h + 1 + T.fn(nth, r - K))
        return h, N, L, mask, K, row

    @contract("C01", TGT, "mask, zero padding, dense covariance, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L, mask, K, row = masked(B, parity)
        x, U = B.arr("x", (L,)), B.arr("Ux", (L, L), kind="psd")
        B.call(x, U, N=N, mask=mask)
        f, uf = spec_F(x, L, N, h + 1), spec_UF(U, L, N, h + 1)
        B.ret_array((0,), (2 * K,), lambda r: f(row(r)), "f", "F restricted to the mask")
        B.ret_array((1,), (2 * K, 2 * K), lambda r, s: uf(row(r), row(s)), "f", "UF restricted to the mask")

    @contract("C01", TGT, "mask, float, %s length" % nm)
    def _(B, parity=parity):
        h, N, L, mask, K, row = masked(B, parity)
        x, u = B.arr("x", (L,)), B.real("ux", pos=True)
        B.call(x, u, N=N, mask=mask)
        f = spec_F(x, L, N, h + 1)
        B.ret_array((0,), (2 * K,), lambda r: f(row(r)), "f", "F restricted to the mask")
        B.ret_array((1,), (2 * K,), lambda r: S(0, L, lambda a: u * dft_coeff(row(r), a, N, h + 1) ** 2), "f", "UF restricted to the mask")

    @contract("C01", TGT, "returned sensitivities, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L = padded(B, parity)
        x, U = B.arr("x", (L,)), B.arr("Ux", (L, L), kind="psd")
        B.call(x, U, N=N, returnC=True)
        B.ret_len(3)
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF(U, L, N, h + 1), "f", "UF = C Ux C^T")
        B.ret_array((2, "CxCos"), (h + 1, L), lambda k, n: cos(2 * PI * k * n / N), "f", "CxCos")
        B.ret_array((2, "CxSin"), (h + 1, L), lambda k, n: -sin(2 * PI * k * n / N), "f", "CxSin")

    @contract("C01", TGT, "reused sensitivities, %s transform length" % nm)
    def _(B, parity=parity):
        h, N, L = padded(B, parity)
        x, U = B.arr("x", (L,)), B.arr("Ux", (L, L), kind="psd")
        C, D = B.arr("C", (h + 1, L)), B.arr("D", (h + 1, L))
        B.call(x, U, N, None, C, D)
        row = lambda r, n: cases(lt(r, h + 1), C(r, n), D(r - h - 1, n))
        B.ret_array((0,), (2 * h + 2,), spec_F(x, L, N, h + 1), "f", "F is the DFT of the padded x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), lambda r, s: S(0, L, lambda a: S(0, L, lambda b: row(r, a) * U(a, b) * row(s, b))), "f", "UF uses the given sensitivities")

    @contract("C01", TGT, "integer valued inputs, %s length" % nm)
    def _(B, parity=parity):
        h, N = size(B, parity)
        x, U = B.arr("x", (N,), dtype="i"), B.arr("Ux", (N, N), kind="psd", dtype="i")
        B.call(x, U)
        B.ret_array((0,), (2 * h + 2,), spec_F(x, N, N, h + 1), "f", "F is the DFT of x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF(U, N, N, h + 1), "f", "UF = C Ux C^T")

    @contract("C01", TGT, "integer valued inputs with window, %s length" % nm)
    def _(B, parity=parity):
        h, N = size(B, parity)
        x, U, w = B.arr("x", (N,), dtype="i"), B.arr("Ux", (N, N), kind="psd", dtype="i"), B.arr("w", (N,))
        B.call(x, U, window=w)
        B.ret_array((0,), (2 * h + 2,), spec_F(lambda n: w(n) * x(n), N, N, h + 1), "f", "F is the DFT of w*x")
        B.ret_array((1,), (2 * h + 2, 2 * h + 2), spec_UF(lambda a, b: w(a) * U(a, b) * w(b), N, N, h + 1), "f", "UF = C W Ux W C^T")


@contract("C01", TGT, "transform length shorter than the signal is rejected")
def _(B):
    L = B.int("L", lo=1, gen=(1, 8))
    N = B.int("N", lo=1, gen=(1, 8))
    B.assume(lt(N, L))
    x, U = B.arr("x", (L,)), B.arr("Ux", (L, L), kind="psd")
    B.call(x, U, N)
    B.raises("ValueError")


@contract("C01", "PyDynamic.uncertainty.propagate_DFT:GUM_DFTfreq", "DFT frequencies")
def _(B):
    N = B.int("N", lo=1, gen=(1, 9))
    dt = B.real("dt", pos=True)
    B.call(N, dt)
    B.ret_array((), (T.floordiv(N, T.const(2)) + 1,), lambda k: k / (N * dt), "f", "k/(N dt)")
