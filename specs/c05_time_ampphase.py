"""C05: time domain <-> amplitude/phase: the composition of the two exact propagations."""
from vc.contract import *
from vc import terms as T
from specs.c01_gum_dft import dft_coeff, spec_F, spec_UF, spec_UF_diag, size
from specs.c04_ampphase import block_spec, polar_jac, amp, phase, dia_cov, sym_dia, diag_cov

import math
from specs.callee import gum_dft

P = "PyDynamic.uncertainty.propagate_DFT:"


def coeff(A, Ph, n, c, m, N):
    """N * d x(n) / d component c, components: amplitudes 0..m then phases 0..m; N = 2m"""
    k = c - (m + 1)
    ph = lambda k: Ph(k) + 2 * PI * k * n / N
    return cases(
        or_(eq(c, 0), eq(c, m)), cos(ph(c)),
        lt(c, m), 2 * cos(ph(c)),
        or_(eq(k, 0), eq(k, m)), -A(k) * sin(ph(k)),
        -2 * A(k) * sin(ph(k)))


def spec_x(A, Ph, m, N):
    w = lambda k: cases(or_(eq(k, 0), eq(k, m)), 1, 2)
    return lambda n: S(0, m + 1, lambda k: w(k) * A(k) * cos(Ph(k) + 2 * PI * k * n / N)) / N


def inputs(B):
    m = B.int("m", lo=1, gen=(1, 4))
    return m, 2 * m, B.arr("A", (m + 1,), kind="pos"), B.arr("P", (m + 1,))


def spec_Ux(A, Ph, U, m, N):
    return lambda a, b: S(0, 2 * m + 2, lambda c: S(0, 2 * m + 2, lambda d: coeff(A, Ph, a, c, m, N) * U(c, d) * coeff(A, Ph, b, d, m, N))) / N ** 2


@contract("C05", P + "AmpPhase2Time", "dense covariance")
def _(B):
    m, N, A, Ph = inputs(B)
    U = B.arr("UAP", (2 * m + 2, 2 * m + 2), kind="psd")
    B.call(A, Ph, U)
    B.ret_len(2)
    B.ret_array((0,), (N,), spec_x(A, Ph, m, N), "f", "x is the inverse DFT of A exp(jP)")
    B.ret_array((1,), (N, N), spec_Ux(A, Ph, U, m, N), "f", "Ux = J UAP J^T")
    B.ret_rel("Ux is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))


@contract("C05", P + "AmpPhase2Time", "variances")
def _(B):
    m, N, A, Ph = inputs(B)
    u = B.arr("UAP", (2 * m + 2,), kind="nonneg")
    B.call(A, Ph, u)
    B.ret_len(2)
    B.ret_array((0,), (N,), spec_x(A, Ph, m, N), "f", "x is the inverse DFT of A exp(jP)")
    B.ret_array((1,), (N, N), lambda a, b: S(0, 2 * m + 2, lambda c: coeff(A, Ph, a, c, m, N) * u(c) * coeff(A, Ph, b, c, m, N)) / N ** 2, "f", "Ux = J diag(UAP) J^T")


@contract("C05", P + "AmpPhase2Time", "covariance stored by diagonals")
def _(B):
    m, N, A, Ph = inputs(B)
    K = m + 1
    D = sym_dia(B, K)
    B.call(A, Ph, B.dia(D, [0, K, -K], (2 * K, 2 * K)))
    B.ret_array((0,), (N,), spec_x(A, Ph, m, N), "f", "x is the inverse DFT of A exp(jP)")
    J = lambda n, c: coeff(A, Ph, n, c, m, N)
    B.ret_array((1,), (N, N), lambda a, b: S(0, K, lambda k: J(a, k) * D(0, k) * J(b, k) + J(a, k) * D(1, k + K) * J(b, k + K)
                + J(a, k + K) * D(1, k + K) * J(b, k) + J(a, k + K) * D(0, k + K) * J(b, k + K)) / N ** 2, "f", "Ux = J UAP J^T")
    B.ret_rel("Ux is symmetric", (1,), lambda u, i, j: (u(i, j), u(j, i)))


for nm, dp, du in (("P of different length", 1, 0), ("covariance of odd size", 0, 1)):
    @contract("C05", P + "AmpPhase2Time", nm + " is rejected")
    def _(B, dp=dp, du=du):
        m = B.int("m", lo=1, gen=(1, 4))
        d = B.int("d", lo=1, gen=(1, 2))
        A, Ph = B.arr("A", (m + 1,), kind="pos"), B.arr("P", (m + 1 + dp * d,))
        n = 2 * m + 2 + du * (2 * d - 1)
        U = B.arr("UAP", (n, n), kind="psd")
        B.call(A, Ph, U)
        B.raises("ValueError")


def spectrum(B, parity, form):
    h, N = size(B, parity, lo=1)
    x = B.arr("x", (N,))
    K = h + 1
    if form == "float":
        U = B.real("Ux", pos=True)
    else:
        U = B.arr("Ux", (N, N) if form == "dense" else (N,), kind="psd" if form == "dense" else "nonneg")
    F, UF = gum_dft(B, N, x, U, form)
    return N, K, x, U, F, (diag_cov(UF) if form == "float" else UF)


for parity, pn in ((0, "even"), (1, "odd")):
    for form in ("dense", "vector", "float"):
        @contract("C05", P + "Time2AmpPhase", "%s uncertainty, %s length" % (form, pn))
        def _(B, parity=parity, form=form):
            N, K, x, U, F, UF = spectrum(B, parity, form)
            B.call(x, U)
            B.ret_len(3)
            B.ret_array((0,), (K,), amp(F, K), "f", "A is the modulus of the DFT")
            B.ret_array((1,), (K,), phase(F, K), "f", "P is the argument of the DFT", period=2 * math.pi)
            B.ret_array((2,), (2 * K, 2 * K), block_spec(polar_jac(F, K), UF, K), "f", "UAP = J UF J^T")
            B.ret_rel("UAP is symmetric", (2,), lambda u, i, j: (u(i, j), u(j, i)))


for parity, pn in ((0, "even"), (1, "odd")):
    for sel in (False, True):
        @contract("C05", P + "Time2AmpPhase_multi", "%s length%s" % (pn, ", selected lines" if sel else ""))
        def _(B, parity=parity, sel=sel):
            h, N = size(B, parity, lo=1)
            K = h + 1
            M = B.int("M", lo=1, gen=(1, 3))
            x = B.arr("x", (M, N))
            u = B.arr("Ux", (M,), kind="pos")
            if sel:
                ns = B.int("ns", lo=1, gen=(1, 4))
                s = B.arr("sel", (ns,), dtype="i", nonneg=True, gen=lambda rng, dims, env: rng.integers(0, int(env.vars["h"]) + 1, size=dims))
                j = T.var("j")
                B.assume(T.forall(0, ns, lambda j: and_(ge(s(j), 0), lt(s(j), K))))
                B.call(x, u, s)
                idx, n = s, ns
            else:
                B.call(x, u)
                idx, n = (lambda k: k), K
            Fa, Va = gum_dft(B, N, x, u, "float", row=M)
            F = lambda i: (lambda r: Fa(i, r))
            V = lambda i: (lambda r: Va(i, r))
            B.ret_len(3)
            B.ret_array((0,), (M, n), lambda i, k: amp(F(i), K)(idx(k)), "f", "amplitudes")
            B.ret_array((1,), (M, n), lambda i, k: phase(F(i), K)(idx(k)), "f", "phases", period=2 * math.pi)

            def U(i, r):
                b = block_spec(polar_jac(F(i), K), diag_cov(V(i)), K)
                return cases(lt(r, n), b(idx(r), idx(r)), lt(r, 2 * n), b(idx(r - n), K + idx(r - n)), b(K + idx(r - 2 * n), K + idx(r - 2 * n)))
            B.ret_array((2,), (M, 3 * n), U, "f", "diagonals of the covariance blocks")
