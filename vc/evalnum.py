"""Concrete (numpy, vectorised) evaluation of terms."""
import math
import numpy as np
from . import terms as T


class Env:
    """vars: name -> number / array; arrays: name -> ndarray; funcs: name -> callable"""

    def __init__(self, vars=None, arrays=None, funcs=None, apps=None):
        self.vars = dict(vars or {})
        self.arrays = dict(arrays or {})
        self.funcs = dict(funcs or {})


class EvalError(Exception):
    pass


def evaluate(e, env, extra=None):
    return Evaluator(env, extra).ev(e)


class Evaluator:
    def __init__(self, env, extra=None, base_ndim=0):
        self.env = env
        self.extra = dict(extra or {})  # E var -> array (outer index grids)
        self.depth = 0
        for v in self.extra.values():
            self.depth = max(self.depth, np.ndim(v))
        self.bv = {}
        self.bdepth = {}
        self.memos = [{}]
        self.levels = []

    def memo_for(self, e):
        if not e.fb:
            return self.memos[0]
        # innermost opened binder among free bvars
        for i in range(len(self.levels) - 1, -1, -1):
            if self.levels[i] in e.fb:
                return self.memos[i + 1]
        return self.memos[-1]

    def ev(self, e):
        if e.op == "const":
            q = e.args[0]
            return int(q) if q.denominator == 1 else float(q)
        m = self.memo_for(e)
        r = m.get(e)
        if r is not None:
            return r
        with np.errstate(all="ignore"):
            r = self._ev(e)
        m[e] = r
        return r

    def _ev(self, e):
        op, a = e.op, e.args
        ev = self.ev
        if op == "var":
            if e in self.extra:
                return self.extra[e]
            if a[0] in self.env.vars:
                return self.env.vars[a[0]]
            raise EvalError("unbound variable %s" % a[0])
        if op == "bvar":
            return self.bv[a[0]]
        if op == "pi":
            return math.pi
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "add":
            q = a[0]
            r = int(q) if q.denominator == 1 else float(q)
            for t, c in a[1]:
                v = ev(t)
                if c == 1:
                    r = r + v
                else:
                    r = r + (int(c) if c.denominator == 1 else float(c)) * v
            return r
        if op == "mul":
            r = 1
            for b, x in a:
                v = ev(b)
                if x == 1:
                    r = r * v
                elif x > 0:
                    r = r * v ** x
                else:
                    v = np.asarray(v, dtype=float)
                    r = r * v ** float(x) if x != -1 else r / v
            return r
        if op == "sel":
            name = a[0]
            idx = [ev(i) for i in a[1:]]
            if name in self.env.funcs:
                return self.env.funcs[name](*idx)
            if name not in self.env.arrays:
                perm = T.ARR[name].meta.get("perm") if name in T.ARR else None
                if perm:
                    return self._perm(name, perm, idx)
                from . import loops, npmodel
                if name in loops.REC_BODY:
                    return self._rec(loops.REC_BODY[name], name, idx)
                if npmodel.opaque_def(name):
                    return self._opaque(name, idx)
                raise EvalError("unbound array %s" % name)
            arr = self.env.arrays[name]
            if arr.ndim == 0:
                return arr[()]
            if any(d == 0 for d in arr.shape):
                return np.broadcast_arrays(0.0, *idx)[0] if idx else 0.0
            ci = tuple(np.clip(np.asarray(i).astype(int), 0, d - 1) for i, d in zip(idx, arr.shape))
            return arr[ci]
        if op == "ite":
            c = ev(a[0])
            if np.ndim(c) == 0:
                return ev(a[1]) if c else ev(a[2])
            return np.where(c, ev(a[1]), ev(a[2]))
        if op == "fn":
            return self._fn(a[0], [ev(x) for x in a[1:]], e)
        if op == "bfn":
            return self._bfn(a[0], [ev(x) for x in a[1:]])
        if op == "floordiv":
            return np.floor_divide(ev(a[0]), ev(a[1]))
        if op == "mod":
            return np.mod(ev(a[0]), ev(a[1]))
        if op == "trunc":
            return np.trunc(ev(a[0])).astype(int) if np.ndim(ev(a[0])) else int(np.trunc(ev(a[0])))
        if op == "ge0":
            return np.greater_equal(ev(a[0]), 0)
        if op == "gt0":
            return np.greater(ev(a[0]), 0)
        if op == "eq0":
            return np.equal(ev(a[0]), 0)
        if op == "not":
            return np.logical_not(ev(a[0]))
        if op == "and":
            r = True
            for x in a:
                r = np.logical_and(r, ev(x))
                if np.ndim(r) == 0 and not r:
                    return False
            return r
        if op == "or":
            r = False
            for x in a:
                r = np.logical_or(r, ev(x))
                if np.ndim(r) == 0 and r:
                    return True
            return r
        if op in ("sum", "exists", "minr", "maxr"):
            return self._binder(e)
        raise EvalError("cannot evaluate %s" % op)

    def _binder(self, e):
        h, lo, hi, body = e.args
        lov, hiv = self.ev(lo), self.ev(hi)
        l = int(np.min(lov)) if np.size(lov) else 0
        u = int(np.max(hiv)) if np.size(hiv) else 0
        if u <= l:
            return {"sum": 0, "exists": False}.get(e.op, np.nan)
        d = self.depth
        old = self.bv.get(h)
        k = np.arange(l, u).reshape((-1,) + (1,) * d)
        self.bv[h] = k
        self.depth += 1
        self.memos.append({})
        self.levels.append(h)
        try:
            b = np.asarray(self.ev(body))
        finally:
            self.levels.pop()
            self.memos.pop()
            self.depth = d
            if old is None:
                del self.bv[h]
            else:
                self.bv[h] = old
        if b.ndim < d + 1:
            b = b.reshape((1,) * (d + 1 - b.ndim) + b.shape)
        b = np.broadcast_to(b, (k.shape[0],) + b.shape[1:])
        if np.ndim(lov) or np.ndim(hiv):
            m = np.logical_and(k >= lov, k < hiv)
            m, b = np.broadcast_arrays(m, b)
        else:
            m = None
        if e.op == "sum":
            r = b.sum(axis=0) if m is None else np.where(m, b, 0).sum(axis=0)
        elif e.op == "exists":
            r = b.any(axis=0) if m is None else np.logical_and(m, b).any(axis=0)
        elif e.op == "minr":
            r = b.min(axis=0) if m is None else np.where(m, b, np.inf).min(axis=0)
        else:
            r = b.max(axis=0) if m is None else np.where(m, b, -np.inf).max(axis=0)
        # strip leading singleton axes
        while r.ndim > 0 and r.shape[0] == 1 and r.ndim > d:
            r = r[0]
        return r if r.ndim else r[()]

    def _fn(self, name, v, e):
        if name == "sqrt":
            return np.sqrt(v[0])
        if name == "seal":
            return v[0]
        if name in ("sin", "cos", "exp", "tan", "arctan", "sinh", "cosh", "log", "log10", "floor", "ceil"):
            return getattr(np, name)(v[0])
        if name == "abs":
            return np.abs(v[0])
        if name == "atan2":
            return np.arctan2(v[0], v[1])
        if name == "pow":
            return np.power(np.asarray(v[0], dtype=float), v[1])
        if name == "sign":
            return np.sign(v[0])
        if name == "inf":
            return np.inf
        if name == "ninf":
            return -np.inf
        if name == "nan":
            return np.nan
        if name in self.env.funcs:
            return self.env.funcs[name](*v)
        if name in SPECIAL:
            return SPECIAL[name](self, v)
        if name.startswith("nth#"):
            return self._nth(name, v)
        if name.startswith("ss#"):
            return self._ss(name, v)
        raise EvalError("uninterpreted function %s" % name)

    def _bfn(self, name, v):
        if name == "isnan":
            return np.isnan(v[0])
        if name in self.env.funcs:
            return self.env.funcs[name](*v)
        raise EvalError("uninterpreted predicate %s" % name)

    def _rec(self, d, name, idx):
        """values of a recursively defined sequence, computed one after the other"""
        memo = self.env.__dict__.setdefault("recmemo", {})
        fvs, t, body = d[:3]
        tv = T.fresh("t")
        e = body(tv)
        bc = np.broadcast_arrays(*[np.asarray(i) for i in idx])
        out = np.zeros(bc[0].shape)
        for pos in np.ndindex(*bc[0].shape):
            key = (name,) + tuple(float(b[pos]) for b in bc)
            last = int(bc[-1][pos])
            for i in range(last + 1):
                k = key[:-1] + (float(i),)
                if k not in memo:
                    memo[k] = np.nan      # reading the value being defined
                    ex = {v: b[pos][()] for v, b in zip(fvs, bc[:-1])}
                    ex[tv] = i
                    memo[k] = float(np.asarray(Evaluator(self.env, ex).ev(e)).reshape(-1)[0])
            out[pos] = memo[key] if last >= 0 else 0.0
        return out if out.ndim else out[()]

    def _opaque(self, name, idx):
        """uninterpreted library functions: call the library"""
        from . import npmodel
        sym, tag = npmodel.opaque_def(name)
        fname, parts = npmodel.OPAQUE_DEF[sym]
        memo = self.env.__dict__.setdefault("opmemo", {})
        k = npmodel.OPAQUE_NPARAM[sym]
        bc = np.broadcast_arrays(*[np.asarray(i) for i in idx]) if idx else [np.zeros(())]
        out = np.zeros(bc[0].shape)
        for pos in np.ndindex(*bc[0].shape):
            ps = tuple(float(b[pos]) for b in bc[:k])
            if (sym, ps) not in memo:
                ex = {T.var("@f%d" % j, v.sort): (int(p) if v.sort == "int" else p) for j, (v, p) in enumerate(zip(npmodel.OPAQUE_FV[sym], ps))}
                args = []
                for part in parts:
                    if part[0] == "const":
                        args.append(part[1])
                        continue
                    dims = tuple(int(np.asarray(Evaluator(self.env, ex).ev(s_))) for s_ in part[1])
                    gr = dict(ex)
                    for ax, dd in enumerate(dims):
                        sh = [1] * len(dims)
                        sh[ax] = dd
                        gr[T.var("@a%d" % ax)] = np.arange(dd).reshape(sh)
                    if any(dd == 0 for dd in dims):
                        args.append(np.zeros(dims))
                        continue
                    vs = [np.broadcast_to(np.asarray(Evaluator(self.env, gr).ev(x)), dims) for x in part[2]]
                    args.append(vs[0] + 1j * vs[1] if len(vs) == 2 else np.array(vs[0]))
                memo[sym, ps] = LIBFN[fname](*args)
            r = memo[sym, ps]
            if tag == "n":
                out[pos] = len(r)
                continue
            ix = tuple(int(np.clip(b[pos], 0, max(d - 1, 0))) for b, d in zip(bc[k:], r.shape))
            v = r[ix] if r.size else 0.0
            out[pos] = np.imag(v) if tag == "i" else np.real(v)
        return out if out.ndim else out[()]

    def _nth(self, name, v):
        lo, n, maskf = NTH[name]
        key = ("nth", name)
        if key not in self.memos[0]:
            q = T.fresh("mi")
            nn = int(self.ev(n))
            idx = np.arange(nn)
            sub = Evaluator(self.env, {**{k: x for k, x in self.extra.items() if np.ndim(x) == 0}, q: idx})
            m = np.broadcast_to(np.asarray(sub.ev(maskf(q))), (nn,))
            self.memos[0][key] = np.nonzero(m)[0]
        w = self.memos[0][key]
        if len(w) == 0:
            return np.zeros_like(np.asarray(v[0]))
        return w[np.clip(np.asarray(v[0]).astype(int), 0, len(w) - 1)]

    def _perm(self, name, perm, idx):
        n, elemf = perm
        key = ("perm", name)
        if key not in self.memos[0]:
            q = T.fresh("pi")
            nn = int(self.ev(n))
            sub = Evaluator(self.env, {**{k: x for k, x in self.extra.items() if np.ndim(x) == 0}, q: np.arange(nn)})
            self.memos[0][key] = np.argsort(np.broadcast_to(np.asarray(sub.ev(elemf(q)), dtype=float), (nn,)))
        w = self.memos[0][key]
        return w[np.clip(np.asarray(idx[0]).astype(int), 0, len(w) - 1)] if len(w) else np.zeros_like(np.asarray(idx[0]))

    def _ss(self, name, v):
        n, elemf, side = SS[name]
        key = ("ss", name)
        if key not in self.memos[0]:
            q = T.fresh("si")
            nn = int(self.ev(n))
            sub = Evaluator(self.env, {**{k: x for k, x in self.extra.items() if np.ndim(x) == 0}, q: np.arange(nn)})
            self.memos[0][key] = np.broadcast_to(np.asarray(sub.ev(elemf(q)), dtype=float), (nn,))
        return np.searchsorted(self.memos[0][key], v[0], side=side)


def _firwin(n, fc, beta):
    from scipy.signal import firwin
    return firwin(int(n), float(fc), window=("kaiser", float(beta)))


def _iir_args(a):
    H, f, Fs, tau, na, nb = a
    return np.asarray(H, dtype=complex), f, float(Fs), float(tau), int(na) + 1, int(nb) + 1


def _inv_iir(H, f, Fs, tau, na, nb):
    """least-squares fit of B/A to 1/H if it is stable (else the fit is iterated: no reference)"""
    na, nb = na - 1, nb - 1
    w = 2 * np.pi * f / Fs
    E = np.exp(-1j * np.outer(w, np.arange(max(na, nb) + 1)))
    Ht = np.exp(-1j * w * tau) / H
    D = np.hstack((np.diag(Ht) @ E[:, 1:na + 1], -E[:, :nb + 1]))
    ab = np.linalg.lstsq(np.real(D.conj().T @ D), np.real(-D.conj().T @ Ht), rcond=None)[0]
    a = np.hstack((1.0, ab[:na]))
    if np.any(np.abs(np.roots(a)) > 1):
        raise EvalError("fit is not stable at once")
    return ab[na:], a, tau


def _mapinside(a):
    v = np.roots(a)
    return np.real(np.poly(np.where(np.abs(v) > 1, 1 / np.conj(v), v))) if len(v) else np.ones(len(a))


def _grpdelay(b, a):
    """group delay at 513 frequencies up to half the sampling frequency (as C20 states it)"""
    c = np.convolve(b, a[::-1])
    z = np.exp(-1j * np.outer(np.pi * np.arange(513) / 512, np.arange(len(c))))
    den = z @ c
    small = np.abs(den) < 1e-12
    return np.where(small, 0.0, np.real((z @ (c * np.arange(len(c)))) / np.where(small, 1.0, den))) - (len(a) - 1)


LIBFN = {"mapinside": _mapinside, "grpdelay": _grpdelay, "invLSIIR_b": lambda *a: _inv_iir(*_iir_args(a))[0], "invLSIIR_a": lambda *a: _inv_iir(*_iir_args(a))[1], "invLSIIR_tau": lambda *a: np.asarray(_inv_iir(*_iir_args(a))[2]),
         "firwin": _firwin, "pinv": np.linalg.pinv, "median": np.median, "roots": np.roots, "unique": np.unique, "eigvals": np.linalg.eigvals, "inv": np.linalg.inv, "unwrap": np.unwrap,
         "poly": np.poly, "svdu": lambda a: np.linalg.svd(a, full_matrices=False)[0], "svds": lambda a: np.linalg.svd(a, full_matrices=False)[1],
         "svdv": lambda a: np.linalg.svd(a, full_matrices=False)[2],
         "lstsq": lambda a, b: np.linalg.lstsq(a, b, rcond=None)[0]}
SPECIAL = {}
NTH = {}  # name -> (lo, n, maskfn)
SS = {}  # name -> (n, elemfn, side)


def eval_array(shape, elem, env):
    """evaluate elem over the whole index grid"""
    dims = tuple(int(evaluate(T.lift(s), env)) for s in shape)
    nd = len(dims)
    vs = [T.fresh("o") for _ in dims]
    e = elem(*vs)
    if any(d == 0 for d in dims):
        return np.zeros(dims)
    grids = {}
    for ax, (v, d) in enumerate(zip(vs, dims)):
        sh = [1] * nd
        sh[ax] = d
        grids[v] = np.arange(d).reshape(sh)
    r = Evaluator(env, grids).ev(e)
    return np.array(np.broadcast_to(np.asarray(r), dims))
