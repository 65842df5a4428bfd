"""C02: GUM_iDFT is the exact linear propagation of the inverse real DFT (even lengths)."""
from vc.contract import *
from vc import terms as T

TGT = "PyDynamic.uncertainty.propagate_DFT:GUM_iDFT"


def idft_coeff(n, c, m, N):
    """sensitivity of sample n of the inverse real DFT (times N) w.r.t. component c,
    components: real parts 0..m, then imaginary parts 0..m; N = 2m"""
    k = c - (m + 1)
    return cases(
        or_(eq(c, 0), eq(c, m)), cos(2 * PI * c * n / N),
        lt(c, m), 2 * cos(2 * PI * c * n / N),
        or_(eq(k, 0), eq(k, m)), 0,
        -2 * sin(2 * PI * k * n / N))


def spec_x(F, m, N):
    return lambda n: S(0, 2 * m + 2, lambda c: idft_coeff(n, c, m, N) * F(c)) / N


def spec_Ux(UF, m, N):
    return lambda a, b: S(0, 2 * m + 2, lambda c: S(0, 2 * m + 2, lambda d: idft_coeff(a, c, m, N) * UF(c, d) * idft_coeff(b, d, m, N))) / N ** 2


def inputs(B, kind="psd", dtype="f"):
    m = B.int("m", lo=1, gen=(1, 5))
    N = 2 * m
    F = B.arr("F", (N + 2,), dtype=dtype)
    UF = B.arr("UF", (N + 2, N + 2) if kind == "psd" else (N + 2,), kind=kind, dtype=dtype)
    return m, N, F, UF


for dt, nm in (("f", ""), ("i", ", integer valued inputs")):
    @contract("C02", TGT, "dense covariance" + nm)
    def _(B, dt=dt):
        m, N, F, UF = inputs(B, dtype=dt)
        B.call(F, UF)
        B.ret_len(2)
        B.ret_array((0,), (N,), spec_x(F, m, N), "f", "x is the inverse DFT of F")
        B.ret_array((1,), (N, N), spec_Ux(UF, m, N), "f", "Ux = J UF J^T")
        B.ret_rel("Ux is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))

    @contract("C02", TGT, "diagonal covariance given as vector" + nm)
    def _(B, dt=dt):
        m, N, F, UF = inputs(B, "nonneg", dt)
        B.call(F, UF)
        B.ret_array((0,), (N,), spec_x(F, m, N), "f", "x is the inverse DFT of F")
        B.ret_array((1,), (N, N), lambda a, b: S(0, N + 2, lambda c: idft_coeff(a, c, m, N) * UF(c) * idft_coeff(b, c, m, N)) / N ** 2, "f", "Ux = J diag(UF) J^T")


@contract("C02", TGT, "truncated output length and returned sensitivities")
def _(B):
    m, N, F, UF = inputs(B)
    Nx = B.int("Nx", lo=1, gen=(1, 8))
    B.assume(le(Nx, N))
    B.call(F, UF, Nx, returnC=True)
    B.ret_len(3)
    B.ret_array((0,), (Nx,), spec_x(F, m, N), "f", "x is the head of the inverse DFT of F")
    B.ret_array((1,), (Nx, Nx), spec_Ux(UF, m, N), "f", "Ux = J UF J^T")
    B.ret_array((2, "Cc"), (Nx, m + 1), lambda n, k: idft_coeff(n, k, m, N), "f", "Cc")
    B.ret_array((2, "Cs"), (Nx, m + 1), lambda n, k: idft_coeff(n, k + m + 1, m, N), "f", "Cs")


@contract("C02", TGT, "truncated output length, vector")
def _(B):
    m, N, F, UF = inputs(B, "nonneg")
    Nx = B.int("Nx", lo=1, gen=(1, 8))
    B.assume(le(Nx, N))
    B.call(F, UF, Nx=Nx)
    B.ret_len(2)
    B.ret_array((0,), (Nx,), spec_x(F, m, N), "f", "x is the head of the inverse DFT of F")
    B.ret_array((1,), (Nx, Nx), lambda a, b: S(0, N + 2, lambda c: idft_coeff(a, c, m, N) * UF(c) * idft_coeff(b, c, m, N)) / N ** 2, "f", "Ux = J diag(UF) J^T")


@contract("C02", TGT, "reused sensitivities")
def _(B):
    m, N, F, UF = inputs(B)
    Nx = B.int("Nx", lo=1, gen=(1, 8))
    B.assume(le(Nx, N))
    Cc, Cs = B.arr("Cc", (Nx, m + 1)), B.arr("Cs", (Nx, m + 1))
    B.call(F, UF, Nx=Nx, Cc=Cc, Cs=Cs)
    J = lambda n, c: cases(le(c, m), Cc(n, c), Cs(n, c - (m + 1)))
    B.ret_array((0,), (Nx,), spec_x(F, m, N), "f", "x is the head of the inverse DFT of F")
    B.ret_array((1,), (Nx, Nx), lambda a, b: S(0, 2 * m + 2, lambda c: S(0, 2 * m + 2, lambda d: J(a, c) * UF(c, d) * J(b, d))) / N ** 2, "f", "Ux uses the given sensitivities")


@contract("C02", TGT, "an output length beyond the DFT length is rejected")
def _(B):
    m, N, F, UF = inputs(B)
    Nx = B.int("Nx", lo=1, gen=(1, 14))
    B.assume(gt(Nx, N))
    B.call(F, UF, Nx)
    B.raises("ValueError")
