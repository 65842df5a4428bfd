"""the finite impulse response filter with uncertain signal and uncertain coefficients: specification shared by C08, C09, C10"""
from vc.contract import *


def ext_signal(x, const):
    """signal before its first sample: first sample repeated, or zero"""
    return lambda i: cases(lt(i, 0), x(0) if const else 0, x(i))


def ext_cov(U, n, const):
    """covariance of the extended signal; before the first sample the stationary continuation of the first row and column"""
    def f(i, j):
        if not const:
            return cases(or_(lt(i, 0), lt(j, 0)), 0, U(i, j))
        d = i - j
        return cases(and_(ge(i, 0), ge(j, 0)), U(i, j),
                     ge(d, n), 0, le(d, -n), 0,
                     ge(d, 0), U(d, 0), U(0, -d))
    return f


def ext_var(U, const):
    """variances of an uncorrelated extended signal"""
    return lambda i: cases(lt(i, 0), U(0) if const else 0, U(i))


def fir_values(x, th, L):
    """x: extended signal"""
    return lambda t: S(0, L, lambda k: th(k) * x(t - k))


def fir_cov(x, th, L, Ux=None, Uth=None):
    """covariance of sum_k th(k) x(t-k) including the second order term; x, Ux extended"""
    def f(t, s):
        r = 0
        if Ux is not None:
            r = r + S(0, L, lambda k: S(0, L, lambda l: th(k) * th(l) * Ux(t - k, s - l)))
        if Uth is not None:
            r = r + S(0, L, lambda k: S(0, L, lambda l: x(t - k) * x(s - l) * Uth(k, l)))
        if Ux is not None and Uth is not None:
            r = r + S(0, L, lambda k: S(0, L, lambda l: Ux(t - k, s - l) * Uth(k, l)))
        return r
    return f
