"""Discharging of verification conditions.

* Cx: a set of hypotheses with a z3-backed entailment test (QF_UFLIRA with
  instantiated axioms for the opaque symbols).
* norm: polynomial normal form over atoms; finite sums are flattened into
  multi-index sums with guards; trigonometric, sqrt, abs rewriting.
* prove_zero / prove_eq: extensional comparison of guarded sums, clearing of
  denominators, congruence of function symbols, case splitting.
"""
from fractions import Fraction
import itertools
import math
import time
import z3

from . import terms as T
from .terms import (E, add, mul, sub, neg, scale, powi, const, cval, ge0, gt0, eq0, and_, or_, not_, ite, fn, sel,
                    subst, subst_b, fresh, TRUE, FALSE, ZERO, ONE, PI)


class Stats:
    def __init__(self):
        self.z3_queries = 0
        self.z3_time = 0.0
        self.z3_unknown = 0
        self.norm_time = 0.0
        self.cvc5 = 0


STATS = Stats()


class Deadline(Exception):
    pass


DEADLINE = [None]


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Deadline()


# ------------------------------------------------------------------ z3 bridge
_zf = {}


def zfun(name, nargs, sort, argsort=None):
    k = (name, nargs, sort, argsort)
    f = _zf.get(k)
    if f is None:
        rs = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
        doms = [rs[s] for s in argsort]
        f = z3.Function("%s/%s" % (name, "".join(s[0] for s in argsort)), *(doms + [rs[sort]]))
        _zf[k] = f
    return f


def zconst(name, sort):
    if sort == "int":
        return z3.Int(name)
    if sort == "bool":
        return z3.Bool(name)
    return z3.Real(name)


def to_z3(e):
    r = e._z3
    if r is not None:
        return r
    op, a = e.op, e.args
    if op == "const":
        q = a[0]
        r = z3.IntVal(int(q)) if q.denominator == 1 else z3.RealVal(str(q))
    elif op == "pi":
        r = z3.Real("pi")
    elif op == "var":
        r = zconst("v!" + a[0], e.sort)
    elif op == "bvar":
        r = z3.Int("bv!%d" % a[0])
    elif op == "true":
        r = z3.BoolVal(True)
    elif op == "false":
        r = z3.BoolVal(False)
    elif op == "add":
        q = a[0]
        real = e.sort == "real"

        def cv(q):
            if real:
                return z3.RealVal(str(q))
            return z3.IntVal(int(q))

        parts = []
        for t, c in a[1]:
            zt = to_z3(t)
            if real and z3.is_int(zt):
                zt = z3.ToReal(zt)
            parts.append(zt if c == 1 else cv(c) * zt)
        if q != 0:
            parts.append(cv(q))
        r = z3.Sum(parts) if len(parts) > 1 else parts[0]
    elif op == "mul":
        if all(x > 0 for _, x in a):
            r = None
            for b, x in a:
                zb = to_z3(b)
                if e.sort == "real" and z3.is_int(zb):
                    zb = z3.ToReal(zb)
                for _ in range(x):
                    r = zb if r is None else r * zb
        else:
            r = None
            for b, x in a:
                zb = to_z3(b)
                if z3.is_int(zb):
                    zb = z3.ToReal(zb)
                if x < 0:
                    zb = zfun("inv", 1, "real", ("real",))(zb)
                    x = -x
                for _ in range(x):
                    r = zb if r is None else r * zb
    elif op == "sel":
        args = [to_z3(x) for x in a[1:]]
        f = zfun("A!" + a[0], len(args), e.sort, tuple("int" if z3.is_int(x) else "real" for x in args))
        r = f(*args)
    elif op in ("fn", "bfn"):
        args = [to_z3(x) for x in a[1:]]
        if op == "fn" and a[0] == "abs":
            r = z3.If(args[0] >= 0, args[0], -args[0])
        elif not args:
            r = zconst("c!" + a[0], e.sort)
        else:
            args = [z3.ToReal(x) if z3.is_int(x) and not a[0].startswith(("nth#", "i:")) else x for x in args]
            f = zfun("F!" + a[0], len(args), e.sort, tuple("int" if z3.is_int(x) else "real" for x in args))
            r = f(*args)
    elif op in ("sum", "nsum", "exists", "minr", "maxr"):
        r = zconst("%s!%d" % (op, e.id), e.sort)
        if e.fb:
            # depends on bound variables: make it a function of them
            bs = sorted(e.fb)
            f = zfun("%s!%d" % (op, e.id), len(bs), e.sort, ("int",) * len(bs))
            r = f(*[z3.Int("bv!%d" % b) for b in bs])
    elif op == "ite":
        x, y = to_z3(a[1]), to_z3(a[2])
        if z3.is_int(x) != z3.is_int(y):
            x = z3.ToReal(x) if z3.is_int(x) else x
            y = z3.ToReal(y) if z3.is_int(y) else y
        r = z3.If(to_z3(a[0]), x, y)
    elif op == "floordiv":
        bv = cval(a[1])
        if e.sort == "int" and bv is not None and bv > 0:
            r = to_z3(a[0]) / to_z3(a[1])
        else:
            r = zconst("fd!%d" % e.id, e.sort)
    elif op == "mod":
        bv = cval(a[1])
        if e.sort == "int" and bv is not None and bv > 0:
            r = to_z3(a[0]) % to_z3(a[1])
        else:
            r = zconst("md!%d" % e.id, e.sort)
    elif op == "trunc":
        x = to_z3(a[0])
        r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    elif op == "ge0":
        r = to_z3(a[0]) >= 0
    elif op == "gt0":
        r = to_z3(a[0]) > 0
    elif op == "eq0":
        r = to_z3(a[0]) == 0
    elif op == "not":
        r = z3.Not(to_z3(a[0]))
    elif op == "and":
        r = z3.And(*[to_z3(x) for x in a])
    elif op == "or":
        r = z3.Or(*[to_z3(x) for x in a])
    else:
        raise AssertionError(op)
    e._z3 = r
    return r


# registry of axioms for opaque symbols
NTH = {}   # fname -> (n, maskf)
SSF = {}   # fname -> (n, elemf, side)
EXTRA_FACTS = []  # callables (terms:set) -> list of bool E


def count_of(n, maskf):
    return T.sum_(ZERO, n, lambda k: ite(maskf(k), ONE, ZERO))


def facts_for(ts, rounds=2):
    out = []
    done = set()
    allterms = set(ts)
    for _ in range(rounds):
        new = []
        cur = [t for t in allterms if t not in done]
        byarr = {}
        ranks = {}
        intvars = [t for t in allterms if t.op == "var" and t.sort == "int"]
        idxterms = set()
        for t in allterms:
            if t.op == "sel":
                for x in t.args[1:]:
                    if x.sort == "int":
                        idxterms.add(x)
        for t in allterms:
            op = t.op
            if op == "sel":
                info = T.ARR.get(t.args[0])
                if info:
                    if (info.meta.get("sorted") or info.meta.get("distinct") or info.meta.get("perm")) and info.ndim == 1:
                        byarr.setdefault(t.args[0], []).append(t)
                    if t not in done:
                        if info.meta.get("positive"):
                            new.append(gt0(t))
                        if info.meta.get("nonneg"):
                            new.append(ge0(t))
            elif op == "sum" and t.sort == "int":
                h, lo, hi, body = t.args
                ranks.setdefault((lo, body, h), []).append(t)
            if t in done:
                continue
            if op == "sum" and t.sort == "int" and _is01(t.args[3]):
                h, lo, hi, body = t.args
                new.append(ge0(t))
                new.append(or_(not_(T.ge(hi, lo)), T.le(t, sub(hi, lo))))
                new.append(or_(T.gt(hi, lo), eq0(t)))
            elif op == "fn":
                nm = t.args[0]
                if nm in NTH:
                    n, maskf = NTH[nm]
                    r = t.args[1]
                    cnt = count_of(n, maskf)
                    inr = and_(ge0(r), T.lt(r, cnt))
                    rk = count_of(t, maskf)
                    new.append(or_(not_(inr), and_(ge0(t), T.lt(t, n), maskf(t), T.eq(rk, r))))
                elif nm in SSF:
                    n, elemf, side = SSF[nm]
                    v = t.args[1]
                    new.append(and_(ge0(t), T.le(t, n)))
                    if side == "left":
                        new.append(or_(T.lt(t, ONE), T.lt(elemf(sub(t, ONE)), v)))
                        new.append(or_(T.ge(t, n), T.le(v, elemf(t))))
                    else:
                        new.append(or_(T.lt(t, ONE), T.le(elemf(sub(t, ONE)), v)))
                        new.append(or_(T.ge(t, n), T.lt(v, elemf(t))))
                elif nm == "sqrt":
                    new.append(ge0(t))
                elif nm == "floor":
                    new.append(and_(T.le(t, t.args[1]), T.gt(add(t, ONE), t.args[1])))
                elif nm == "ceil":
                    new.append(and_(T.ge(t, t.args[1]), T.lt(sub(t, ONE), t.args[1])))
                if nm in ("floor", "ceil") and t.args[1].op == "mul":
                    # the same without division: t = ceil(d / b), b > 0
                    den = [x for x, k in t.args[1].args if k == -1]
                    if len(den) == 1:
                        b, d = den[0], mul(t.args[1], den[0])
                        if nm == "ceil":
                            f = and_(T.le(d, mul(b, t)), T.gt(d, mul(b, sub(t, ONE))), or_(not_(gt0(d)), T.ge(t, ONE)), or_(gt0(d), T.le(t, ZERO)))
                        else:
                            f = and_(T.ge(d, mul(b, t)), T.lt(d, mul(b, add(t, ONE))), or_(not_(ge0(d)), ge0(t)), or_(ge0(d), T.le(t, const(-1))))
                        new.append(or_(not_(gt0(b)), f))
            elif op in ("floordiv", "mod") and t.sort == "int" and cval(t.args[1]) is None:
                a, b = t.args
                if op == "mod":
                    new.append(or_(not_(gt0(b)), and_(ge0(t), T.lt(t, b))))
                    new.append(or_(not_(and_(ge0(a), T.lt(a, b))), T.eq(t, a)))
                    new.append(or_(not_(and_(T.ge(a, b), T.lt(a, add(b, b)), gt0(b))), T.eq(t, sub(a, b))))
                    new.append(or_(not_(and_(T.ge(a, neg(b)), T.lt(a, ZERO), gt0(b))), T.eq(t, add(a, b))))
                else:
                    new.append(or_(not_(gt0(b)), and_(T.le(mul(t, b), a), T.lt(a, add(mul(t, b), b)))))
            elif op in ("minr", "maxr"):
                h, lo, hi, body = t.args
                w = T.var("wit!%d" % t.id)
                bw = T.open_binder(t, w)
                new.append(or_(T.ge(lo, hi), and_(T.ge(w, lo), T.lt(w, hi), T.eq(t, bw))))
                for x in list(idxterms) + intvars + [lo, sub(hi, ONE)]:
                    if t in x_sub(x):
                        continue
                    bx = T.open_binder(t, x)
                    d = sub(bx, t) if op == "minr" else sub(t, bx)
                    c = T._mk("ge0", (d,), "bool", (d,))  # not turned into a quantifier
                    new.append(or_(not_(and_(T.ge(x, lo), T.lt(x, hi))), c))
            elif op == "exists":
                h, lo, hi, body = t.args
                w = T.var("wit!%d" % t.id)
                new.append(or_(not_(t), and_(T.ge(w, lo), T.lt(w, hi), T.open_binder(t, w))))
                own = [q.args[1] for q in sorted(cur, key=lambda q: q.id) if q.op == "sel" and len(q.args) == 2 and q.args[0] in sig(body) and q.args[1].op != "var" and not q.fb]
                for x in list(intvars) + own[:12]:
                    if x is w:
                        continue
                    new.append(or_(t, not_(and_(T.ge(x, lo), T.lt(x, hi), T.open_binder(t, x)))))
        for name, lst in byarr.items():
            info = T.ARR[name]
            lst = sorted(lst, key=lambda x: x.id)[:14]
            lo, hi = info.meta.get("range", (None, None))
            perm = info.meta.get("perm")
            if perm:
                n, ef = perm
                inr = lambda i: and_(ge0(i), T.lt(i, n))
                for p in lst:
                    new.append(or_(not_(inr(p.args[1])), inr(p)))
                for p, q in itertools.combinations(lst, 2):
                    i, j = p.args[1], q.args[1]
                    ok = and_(inr(i), inr(j))
                    new.append(or_(not_(and_(ok, T.lt(i, j))), and_(T.le(ef(p), ef(q)), T.ne(p, q))))
                    new.append(or_(not_(and_(ok, T.lt(j, i))), and_(T.le(ef(q), ef(p)), T.ne(p, q))))
                continue
            if info.meta.get("distinct"):
                for p, q in itertools.combinations(lst, 2):
                    i, j = p.args[1], q.args[1]
                    new.append(or_(T.eq(i, j), T.ne(p, q)))
                continue
            for p, q in itertools.combinations(lst, 2):
                i, j = p.args[1], q.args[1]
                if p in done and q in done and (p, q) in _pairs_done:
                    pass
                new.append(or_(not_(T.lt(i, j)), T.lt(p, q)))
                new.append(or_(not_(T.lt(j, i)), T.lt(q, p)))
        for key, lst in ranks.items():
            lst = sorted(lst, key=lambda x: x.id)[:10]
            for p, q in itertools.combinations(lst, 2):
                if not _is01(p.args[3]):
                    continue
                i, j = p.args[2], q.args[2]
                lo = p.args[1]
                for x, y, ex, ey in ((i, j, p, q), (j, i, q, p)):
                    bx = subst_b(p.args[3], p.args[0], x)
                    new.append(or_(not_(and_(T.le(x, y), T.ge(x, lo))), and_(T.le(ex, ey), T.le(ey, add(ex, sub(y, x))))))
                    new.append(or_(not_(and_(T.lt(x, y), T.ge(x, lo))), T.ge(ey, add(ex, bx))))
        done |= allterms
        for f in EXTRA_FACTS:
            new += f(cur)
        new = [x for x in new if x is not TRUE]
        out += new
        nt = set()
        for x in new:
            T.subterms(x, nt)
        nt -= allterms
        if not nt:
            break
        allterms |= nt
    return list(dict.fromkeys(out))


_pairs_done = set()
_xs = {}


def x_sub(x):
    r = _xs.get(x)
    if r is None:
        r = T.subterms(x)
        _xs[x] = r
    return r


def _is01(body):
    return body.op == "ite" and {body.args[1], body.args[2]} == {ONE, ZERO}


_sigs = {}


def sig(e):
    """set of symbols a term talks about"""
    r = _sigs.get(e)
    if r is None:
        r = set()
        for t in T.subterms(e):
            if t.op in ("var", "sel"):
                r.add(t.args[0])
            elif t.op in ("sum", "exists", "minr", "maxr"):
                r.add(t.id)
        r = frozenset(r)
        _sigs[e] = r
    return r


_qmemo = {}
TIMEOUT_MS = 1500


def z3_unsat(assertions, timeout=None):
    """True if the conjunction is unsat (with axioms); False if sat; None unknown"""
    assertions = tuple(sorted(set(a for a in assertions if a is not TRUE), key=lambda e: e.id))
    if FALSE in assertions:
        return True
    r = _qmemo.get(assertions)
    if r is not None:
        return r[0]
    check_deadline()
    ts = set()
    for a in assertions:
        T.subterms(a, ts)
    fs = facts_for(ts) + products(assertions, ts)
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    t0 = time.time()
    for a in assertions:
        s.add(to_z3(a))
    for a in fs:
        s.add(to_z3(a))
    # pi in (3,4)
    if any(t.op == "pi" for t in ts):
        s.add(z3.Real("pi") > 3, z3.Real("pi") < 4)
    res = s.check()
    STATS.z3_queries += 1
    STATS.z3_time += time.time() - t0
    if res == z3.unsat:
        r = True
    elif res == z3.sat:
        r = False
    else:
        STATS.z3_unknown += 1
        r = None
    _qmemo[assertions] = (r,)
    return r


def products(assertions, ts):
    """A >= 0, B >= 0 gives A B >= 0, for linear integer A and B whose product contains a monomial x y that occurs"""
    pairs = {tuple(b for b, _ in t.args) for t in ts if t.op == "mul" and t.sort == "int" and len(t.args) == 2 and all(b.op == "var" and p == 1 for b, p in t.args)}
    if not pairs:
        return []
    byvar = {}
    for a in assertions:
        if a.op != "ge0" or a.args[0].sort != "int":
            continue
        c, d = T._linparts(a.args[0])
        if all(x.op == "var" for x in d) and len(d) <= 4:
            for x in d:
                byvar.setdefault(x, []).append(a.args[0])
    out = []
    for x, y in sorted(pairs, key=lambda p: (p[0].id, p[1].id)):
        for a in byvar.get(x, ())[:5]:
            for b in byvar.get(y, ())[:5]:
                if a is not b:
                    c1, d1 = T._linparts(a)
                    c2, d2 = T._linparts(b)
                    p = const(c1 * c2)
                    for u, q in d1.items():
                        p = add(p, T.scale(q * c2, u), *[T.scale(q * q2, mul(u, v)) for v, q2 in d2.items()])
                    for v, q2 in d2.items():
                        p = add(p, T.scale(c1 * q2, v))
                    out.append(ge0(p))
    return list(dict.fromkeys(out))[:30]


def z3_model(assertions, extra_ints=(), timeout=4000):
    ts = set()
    for a in assertions:
        T.subterms(a, ts)
    s = z3.Solver()
    s.set("timeout", timeout)
    for a in list(assertions) + facts_for(ts):
        s.add(to_z3(a))
    if s.check() == z3.sat:
        return s.model()
    return None


def with_equalities(hs):
    """add L == 0 for every pair L >= 0, -L >= 0"""
    lin = {h.args[0]: h for h in hs if h.op == "ge0" and h.args[0].sort == "int"}
    out = list(hs)
    for x, h in lin.items():
        n = neg(x)
        if n in lin and x.id < n.id:
            e = eq0(x)
            if e.op == "eq0" and e not in out:
                out.append(e)
    for _ in range(4):
        m = orient(out)
        if not m:
            break
        lin = set()
        for h in out:
            if h.op == "ge0" and h.args[0].sort == "int" and h.args[0].fv & m.keys():
                lin.add(subst(h.args[0], m))
        old = {h.args[0] for h in out if h.op == "ge0"}
        new = []
        for x in lin:
            n = neg(x)
            if (n in lin or n in old) and x.op != "const":
                e = eq0(x)
                if e.op == "eq0" and e not in out and e not in new:
                    new.append(e)
        if not new:
            break
        out += new
    return out


def orient(hs):
    """oriented equalities var -> expr"""
    m = {}
    for h in hs:
        if h.op == "eq0":
            h2 = subst(h.args[0], m) if m else h.args[0]
            c, d = T._linparts(h2)
            cand = [(t, q) for t, q in d.items() if t.op == "var" and abs(q) == 1 and t.sort == "int"]
            if not cand or h2.sort != "int":
                cand = [(t, q) for t, q in d.items() if t.op == "var" and t.sort == "real"]
            cand = [(t, q) for t, q in cand if not any(t in o.fv for o in d if o is not t)]
            if cand:
                t, q = max(cand, key=lambda p: p[0].id)
                rhs = scale(Fraction(-1) / q, sub(h2, scale(q, t)))
                m = {k: subst(v, {t: rhs}) for k, v in m.items()}
                m[t] = rhs
    return m


def pair_equalities(conj):
    """replace every pair L >= 0, -L >= 0 by L == 0"""
    lin = {h.args[0]: h for h in conj if h.op == "ge0" and h.args[0].sort == "int"}
    drop, add_ = set(), []
    for x in lin:
        n = neg(x)
        if n in lin and x.id < n.id:
            drop |= {lin[x], lin[n]}
            add_.append(eq0(x))
    return [c for c in conj if c not in drop] + add_ if drop else conj


class Cx:
    def __init__(self, hyps=(), parent=None):
        hs = []
        for h in hyps:
            if h.op == "and":
                hs.extend(h.args)
            elif h is not TRUE:
                hs.append(h)
        self.hyps = tuple(with_equalities(list(dict.fromkeys(hs))))
        self.hset = frozenset(self.hyps)
        self.ext = {}
        self.memo = {}
        self.nmemo = {}
        self._eqmap = None
        self._tight = None

    def extend(self, *cs):
        c = and_(*cs)
        if c is TRUE:
            return self
        r = self.ext.get(c)
        if r is None:
            r = Cx(self.hyps + (c,))
            self.ext[c] = r
        return r

    def relevant(self, c):
        want = set(sig(c))
        rest = [h for h in self.hyps]
        out = []
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for h in rest:
                if sig(h) & want:
                    out.append(h)
                    want |= sig(h)
                    changed = True
                else:
                    nr.append(h)
            rest = nr
        return out

    def entails(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return self.infeasible()
        if c in self.hset:
            return True
        r = self.memo.get(c)
        if r is None:
            if not_(c) in self.hset:
                r = self.infeasible()
            else:
                r = z3_unsat(self.relevant(c) + [not_(c)]) is True
            self.memo[c] = r
        return r

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.entails(c):
            return True
        if self.entails(not_(c)):
            return False
        return None

    def infeasible(self):
        r = self.memo.get(FALSE)
        if r is None:
            r = z3_unsat(self.hyps) is True
            self.memo[FALSE] = r
        return r

    def tight(self):
        """equalities L == 0 for hypotheses L >= 0 that cannot be strict"""
        if self._tight is None:
            self._tight = []
            for h in self.hyps:
                if h.op == "ge0" and h.args[0].sort == "int" and len(h.args[0].fv) > 1:
                    e = eq0(h.args[0])
                    if e.op == "eq0" and e not in self.hyps and self.entails(ge0(neg(h.args[0]))):
                        self._tight.append(e)
        return self._tight

    def eqmap(self):
        """oriented equalities var -> expr from hypotheses"""
        if self._eqmap is None:
            self._eqmap = orient(self.hyps)
        return self._eqmap


# ------------------------------------------------------------------ polynomials
# Poly: dict (guard, factors) -> Fraction ; factors: tuple of (atom, exp) sorted
EMPTYM = (TRUE, ())


def pconst(q):
    q = Fraction(q)
    return {EMPTYM: q} if q else {}


def patom(a, e=1):
    return {(TRUE, ((a, e),)): Fraction(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, s):
    s = Fraction(s)
    if not s:
        return {}
    return {m: c * s for m, c in p.items()}


def pguard(p, g):
    if g is TRUE:
        return p
    if g is FALSE:
        return {}
    r = {}
    for (gg, f), c in p.items():
        k = (and_(gg, g), f)
        if k[0] is FALSE:
            continue
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


class TooBig(Exception):
    pass


LIMIT = 60000


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > LIMIT:
        raise TooBig()
    r = {}
    pend = []
    for (g1, f1), c1 in p.items():
        for (g2, f2), c2 in q.items():
            g = and_(g1, g2)
            if g is FALSE:
                continue
            m = mono_mul(f1, f2)
            if isinstance(m, tuple):
                k = (g, m)
                v = r.get(k, 0) + c1 * c2
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
            else:
                pend.append((pguard(m, g), c1 * c2))
    for m, c in pend:
        r = padd(r, m, c)
    return r


def mono_mul(f1, f2):
    """tuple of factors, or a Poly if reductions fire"""
    if not f1:
        return f2
    if not f2:
        return f1
    d = dict(f1)
    changed = []
    for a, e in f2:
        if a in d:
            d[a] += e
            changed.append(a)
        else:
            d[a] = e
    red = None
    for a in changed:
        e = d[a]
        if e == 0:
            del d[a]
            continue
        x = reduce_pow(a, e)
        if x is not None:
            del d[a]
            red = x if red is None else pmul(red, x)
    m = tuple(sorted(((a, e) for a, e in d.items()), key=lambda t: t[0].id))
    if red is None:
        return m
    return pmul({(TRUE, m): Fraction(1)}, red)


def reduce_pow(a, e):
    """rewrite atom a^e, or None if irreducible"""
    if a.op == "fn":
        nm = a.args[0]
        if nm == "sqrt" and (e >= 2 or e < 0):
            base = norm(a.args[1], CX0)
            if e < 0:
                # sqrt(q)^e = sqrt(q)^(e mod 2) * q^((e - e mod 2)/2)
                k = e % 2
                p = ppow(base, (e - k) // 2)
                return pmul(p, patom(a)) if k else p
            p = ppow(base, e // 2)
            return pmul(p, patom(a)) if e % 2 else p
        if nm == "abs" and (e >= 2 or e <= -2):
            k = e % 2
            p = ppow(norm(a.args[1], CX0), e - k)
            return pmul(p, patom(a)) if k else p
        if nm == "sin" and e >= 2:
            c = fn("cos", a.args[1])
            p = {EMPTYM: Fraction(1), (TRUE, ((c, 2),)): Fraction(-1)}
            r = ppow(p, e // 2)
            return pmul(r, patom(a)) if e % 2 else r
        if nm == "cos" and _is_int_pi(a.args[1]):
            if e % 2 == 0:
                return pconst(1)
            if e != 1:
                return patom(a)
    return None


def _is_int_pi(arg):
    """pi * (product of int atoms)"""
    if arg.op == "mul" and any(b.op == "pi" and x == 1 for b, x in arg.args):
        return all(b.op == "pi" or (b.sort == "int" and x > 0) for b, x in arg.args)
    return False


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = pconst(1)
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def pinv(p):
    """reciprocal of a polynomial (no guards)"""
    if not p:
        return patom(fn("inf"))
    if len(p) == 1:
        (g, f), c = next(iter(p.items()))
        if g is not TRUE:
            raise GuardInDenominator(g)
        out = pconst(1 / c)
        for a, e in f:
            x = reduce_pow(a, -e)
            out = pmul(out, x if x is not None else {(TRUE, ((a, -e),)): Fraction(1)})
        return out
    for (g, f) in p:
        if g is not TRUE:
            raise GuardInDenominator(g)
    # common monomial content
    common = None
    for (g, f) in p:
        d = dict(f)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if e > 0 and d[a] > 0 else (max(e, d[a]) if e < 0 and d[a] < 0 else 0)
                      for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e}
        if not common:
            break
    # also pull out negative exponents: multiply through
    negs = {}
    for (g, f) in p:
        for a, e in f:
            if e < 0:
                negs[a] = min(negs.get(a, 0), e)
    mono = dict(common or {})
    for a, e in negs.items():
        mono[a] = e
    if mono:
        inv_m = {(TRUE, tuple(sorted(((a, -e) for a, e in mono.items()), key=lambda t: t[0].id))): Fraction(1)}
        p = pmul(p, inv_m)
        # 1/(mono*p') = mono^-1 * 1/p'
        if len(p) == 1:
            return pmul(inv_m, pinv(p))
    else:
        inv_m = pconst(1)
    lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m[1]))
    c = p[lead]
    p = pscale(p, 1 / c)
    base = poly_to_E(p)
    return pmul(pscale(inv_m, 1 / c), {(TRUE, ((base, -1),)): Fraction(1)})


class GuardInDenominator(Exception):
    pass


def mono_to_E(f):
    return mul(*[powi(a, e) for a, e in f]) if f else ONE


def poly_to_E(p):
    out = []
    for (g, f), c in p.items():
        t = scale(c, mono_to_E(f))
        if g is not TRUE:
            t = ite(g, t, ZERO)
        out.append(t)
    return add(*out) if out else ZERO


# ------------------------------------------------------------------ simplification under context
def simp(e, cx, memo=None):
    """resolve decided ites / boolean structure (not under binders)"""
    if not _has_ite(e) and not _has_mod(e):
        return e
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    if e.op == "ite":
        d = cx.decide(e.args[0])
        if d is True:
            r = simp(e.args[1], cx, memo)
        elif d is False:
            r = simp(e.args[2], cx, memo)
        else:
            c = simp_bool(e.args[0], cx, memo)
            d = cx.decide(c) if c is not e.args[0] else None
            if d is not None:
                r = simp(e.args[1] if d else e.args[2], cx, memo)
            else:
                r = ite(c, simp(e.args[1], cx, memo), simp(e.args[2], cx, memo))
    elif e.op == "sum" and e.sort == "int" and not _is01(e.args[3]):
        # equal summands in the whole range
        v = T.fresh("s")
        lo, hi = e.args[1], e.args[2]
        body = simp(T.open_binder(e, v), cx.extend(T.le(lo, v), T.lt(v, hi)))
        r = mul(sub(hi, lo), body) if v not in body.fv and cx.entails(T.le(lo, hi)) else e
    elif e.op in ("exists", "minr", "maxr"):
        v = T.fresh("s")
        lo, hi = e.args[1], e.args[2]
        body = simp_bool if e.sort == "bool" else simp
        b = T.open_binder(e, v)
        b2 = body(b, cx.extend(T.le(lo, v), T.lt(v, hi)), {})
        r = T._bind(e.op, lo, hi, v, b2, e.sort) if b2 is not b else e
    elif e.op in T.BINDERS:
        r = e
    else:
        r = T.rebuild(e, [simp(c, cx, memo) for c in T.children(e)])
        if r.op == "mod" and r.sort == "int" and not _has_ite(r):
            r = reduce_mod(r, cx)
    memo[e] = r
    return r


_hm = {}


def _has_mod(e):
    r = _hm.get(e)
    if r is None:
        if e.op == "mod":
            r = e.sort == "int"
        elif e.op in T.BINDERS:
            r = False
        else:
            r = any(_has_mod(c) for c in T.children(e))
        _hm[e] = r
    return r


def reduce_mod(e, cx):
    """a mod b for a known to lie in [0, b), [-b, 0) or [b, 2b)"""
    k = ("mod", e)
    r = cx.nmemo.get(k)
    if r is None:
        a, b = e.args
        r = e
        for s in (0, 1, -1):
            x = add(a, scale(Fraction(s), b)) if s else a
            if cx.entails(and_(ge0(x), T.lt(x, b))):
                r = x
                break
        cx.nmemo[k] = r
    return r


def simp_bool(c, cx, memo):
    """drop decided conjuncts/disjuncts of an undecided condition"""
    if c.op in ("and", "or"):
        out = []
        for a in c.args:
            d = cx.decide(a)
            if d is None:
                out.append(simp_bool(a, cx, memo))
            elif d is (c.op == "or"):
                return TRUE if d else FALSE
        return T.and_(*out) if c.op == "and" else T.or_(*out)
    if c.op == "not":
        return not_(simp_bool(c.args[0], cx, memo))
    return simp(c, cx, memo)


_hi = {}


def _has_ite(e):
    r = _hi.get(e)
    if r is None:
        if e.op == "ite":
            r = True
        elif e.op == "sum" and e.sort == "int":
            r = _has_ite(e.args[3]) and not _is01(e.args[3])
        elif e.op in ("exists", "minr", "maxr"):
            r = _has_ite(e.args[3])
        elif e.op in T.BINDERS:
            r = False
        else:
            r = any(_has_ite(c) for c in T.children(e))
        _hi[e] = r
    return r


def first_ite(e):
    if e.op == "ite":
        # innermost condition without ite first
        c = e.args[0]
        i = first_ite(c)
        return i if i is not None else c
    if e.op in T.BINDERS:
        return None
    for c in T.children(e):
        i = first_ite(c)
        if i is not None:
            return i
    return None


def cases(es, cx):
    """partition: list of (guard, cx', [e...]) with ite-free (outside binders) terms"""
    es = [simp(e, cx) for e in es]
    c = None
    for e in es:
        if _has_ite(e):
            c = first_ite(e)
            break
    if c is None:
        return [(TRUE, cx, es)]
    out = []
    for g in (c, not_(c)):
        cx2 = cx.extend(g)
        if cx2.infeasible():
            continue
        for gg, cx3, ee in cases(es, cx2):
            out.append((and_(g, gg), cx3, ee))
    return out


# ------------------------------------------------------------------ normal form
def norm(e, cx):
    m = cx.eqmap()
    if m and (e.fv & frozenset(m)):
        e = subst(e, m)
    return _norm(e, cx)


def _norm(e, cx):
    r = cx.nmemo.get(e)
    if r is not None:
        return r
    check_deadline()
    r = _norm1(e, cx)
    if len(r) > LIMIT:
        raise TooBig()
    cx.nmemo[e] = r
    return r


def _norm1(e, cx):
    op, a = e.op, e.args
    if op == "const":
        return pconst(a[0])
    if op in ("var", "pi", "bvar"):
        return patom(e)
    if op == "add":
        r = pconst(a[0])
        for t, c in a[1]:
            r = padd(r, _norm(t, cx), c)
        return r
    if op == "mul":
        r = pconst(1)
        for b, x in a:
            r = pmul(r, npow(b, x, cx))
            if not r:
                return r
        return r
    if op == "ite":
        c = a[0]
        d = cx.decide(c)
        if d is True:
            return _norm(a[1], cx)
        if d is False:
            return _norm(a[2], cx)
        if _has_ite(c):
            c2 = simp_bool(c, cx, {})
            if c2 is not c:
                c = c2
                d = cx.decide(c)
                if d is not None:
                    return _norm(a[1] if d else a[2], cx)
        # what is left of ites in the condition is opaque
        nc = not_(c)
        p = pguard(norm(a[1], cx.extend(c)), c)
        q = pguard(norm(a[2], cx.extend(nc)), nc)
        return padd(p, q)
    if op == "sum":
        return norm_sum(e, cx)
    if op == "nsum":
        return norm_nsum(e, cx)
    if op == "sel":
        cs = cases(a[1:], cx)
        if len(cs) == 1 and cs[0][0] is TRUE:
            return patom_sel(a[0], cs[0][2], cx)
        r = {}
        for g, cx2, idx in cs:
            r = padd(r, pguard(patom_sel(a[0], idx, cx2), g))
        return r
    if op == "fn":
        cs = cases(a[1:], cx)
        if len(cs) == 1 and cs[0][0] is TRUE:
            return norm_fn(a[0], cs[0][2], cx)
        r = {}
        for g, cx2, args in cs:
            r = padd(r, pguard(norm_fn(a[0], args, cx2), g))
        return r
    if op in ("floordiv", "mod", "trunc"):
        cs = cases(a, cx)
        r = {}
        for g, cx2, args in cs:
            if op == "trunc":
                inner = poly_to_E(norm(args[0], cx2))
                t = T.trunc(inner)
                p = patom(t) if t.op == "trunc" else norm(t, cx2)
            else:
                t = T.floordiv(*args) if op == "floordiv" else T.mod(*args)
                if t.op == "mod" and t.sort == "int":
                    t = reduce_mod(t, cx2)
                p = patom(t) if t.op == op else norm(t, cx2)
            r = padd(r, pguard(p, g))
        return r
    if op in ("minr", "maxr"):
        return patom(e)
    raise AssertionError("norm: " + op)


def simp_index(i, cx):
    """simplify nth(rank(j)) -> j when mask[j] holds"""
    if i.op == "fn" and i.args[0] in NTH:
        n, maskf = NTH[i.args[0]]
        r = i.args[1]
        if r.op == "sum":
            j = r.args[2]
            if count_of(j, maskf) is r and cx.entails(and_(maskf(j), ge0(j), T.lt(j, n))):
                return j
    return i


def patom_sel(name, idx, cx):
    idx = [simp_index(i, cx) for i in idx]
    info = T.ARR[name]
    if info.sym and len(idx) == 2 and not info.meta.get("noorder"):
        i, j = idx
        if cx.entails(T.le(i, j)):
            pass
        elif cx.entails(T.le(j, i)):
            i, j = j, i
        return patom(T._mk("sel", (name, i, j), info.sort, (i, j))) if (i.id <= j.id or cx.entails(T.le(i, j))) else patom(sel(name, i, j))
    return patom(sel(name, *idx))


def npow(b, x, cx):
    if x >= 1:
        p = _norm(b, cx)
        return ppow(p, x)
    cs = cases([b], cx)
    r = {}
    for g, cx2, (bb,) in cs:
        p = norm(bb, cx2)
        r = padd(r, pguard(_inv_guarded(p, -x, cx2), g))
    return r


def _inv_guarded(p, n, cx):
    gs = [g for (g, f) in p if g is not TRUE]
    if not gs:
        return ppow(pinv(p), n) if p else patom(fn("inf"))
    g = gs[0]
    if g.op == "and":
        g = g.args[0]
    r = {}
    for c in (g, not_(g)):
        cx2 = cx.extend(c)
        if cx2.infeasible():
            continue
        q = reguard(p, cx2)
        r = padd(r, pguard(_inv_guarded(q, n, cx2), c))
    return r


def reguard(p, cx):
    """simplify guards of p under cx"""
    r = {}
    for (g, f), c in p.items():
        g2 = guard_simp(g, cx)
        if g2 is FALSE:
            continue
        k = (g2, f)
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def guard_simp(g, cx):
    if g is TRUE:
        return g
    parts = g.args if g.op == "and" else (g,)
    out = []
    for c in parts:
        d = cx.decide(c)
        if d is True:
            continue
        if d is False:
            return FALSE
        out.append(c)
    return and_(*out)


def norm_fn(name, args, cx):
    if name in ("sin", "cos"):
        p = norm(args[0], cx)
        gs = [g for (g, f) in p if g is not TRUE]
        if gs:
            return _fn_guarded(name, p, cx)
        return trig(name, p)
    if name == "real_of":
        return norm(args[0], cx)
    if name in NTH:
        i = simp_index(fn(name, *args), cx)
        if not (i.op == "fn" and i.args[0] == name):
            return norm(i, cx)
        return patom(i)
    if name in SSF or name.startswith("i:"):
        return patom(fn(name, *args))
    ps = [norm(x, cx) for x in args]
    if name in ("sqrt", "abs", "exp") and len(args) == 1:
        p = ps[0]
        gs = [g for (g, f) in p if g is not TRUE]
        if gs:
            return _fn_guarded(name, p, cx)
        if name == "sqrt":
            return norm_sqrt(p, cx)
        if name == "abs":
            return norm_abs(p, cx)
        if name == "exp":
            r = pconst(1)
            for (g, f), c in p.items():
                n = c.numerator
                t = fn("exp", scale(Fraction(1, c.denominator), mono_to_E(f)))
                r = pmul(r, {(TRUE, ((t, n),)): Fraction(1)})
            return r
    return patom(fn(name, *[poly_to_E(p) for p in ps]))


def _fn_guarded(name, p, cx):
    g = next(g for (g, f) in p if g is not TRUE)
    if g.op == "and":
        g = g.args[0]
    r = {}
    for c in (g, not_(g)):
        cx2 = cx.extend(c)
        if cx2.infeasible():
            continue
        q = poly_to_E(reguard(p, cx2))
        r = padd(r, pguard(norm(fn(name, q), cx2), c))
    return r


def norm_abs(p, cx):
    if not p:
        return {}
    if len(p) == 1:
        (g, f), c = next(iter(p.items()))
        r = pconst(abs(c))
        for a, e in f:
            if e % 2 == 0:
                r = pmul(r, {(TRUE, ((a, e),)): Fraction(1)})
            elif a.op == "fn" and a.args[0] in ("abs", "sqrt", "exp") or a.op == "pi" or cx.entails(ge0(a)):
                r = pmul(r, {(TRUE, ((a, e),)): Fraction(1)})
            else:
                r = pmul(r, {(TRUE, ((fn("abs", a), e),)): Fraction(1)})
        return r
    com, q = common_factor(p)
    if com:
        one = {(TRUE, tuple(sorted(com.items(), key=lambda t: t[0].id))): Fraction(1)}
        return pmul(norm_abs(ppart(p, com), cx), norm_abs(one, cx))
    lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m[1]))
    c = p[lead]
    e = poly_to_E(pscale(p, 1 / c))
    return pscale(patom(fn("abs", e)), abs(c))


def common_factor(p):
    """atoms with positive exponent in every monomial"""
    com = None
    for (g, f) in p:
        d = {a: e for a, e in f if e > 0}
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            return {}, p
    return com, p


def ppart(p, com):
    out = {}
    for (g, f), c in p.items():
        f2 = tuple((a, e - com.get(a, 0)) for a, e in f if e != com.get(a, 0))
        out[(g, f2)] = out.get((g, f2), 0) + c
    return out


def _sqrt_rat(c):
    n, d = math.isqrt(abs(c.numerator)), math.isqrt(c.denominator)
    if n * n == abs(c.numerator) and d * d == c.denominator:
        return Fraction(n, d)
    return None


def norm_sqrt(p, cx):
    if not p:
        return {}
    if len(p) == 1:
        (g, f), c = next(iter(p.items()))
        out = pconst(1)
        rest = []
        for a, e in f:
            if e % 2 == 0:
                b = {(TRUE, ((a, 1),)): Fraction(1)}
                h = e // 2
                if h % 2 and not (a.op == "fn" and a.args[0] in ("abs", "sqrt", "exp") or a.op == "pi" or cx.entails(ge0(a))):
                    b = patom(fn("abs", a))
                out = pmul(out, ppow(b, h))
            else:
                rest.append((a, e))
        s = _sqrt_rat(c) if c > 0 else None
        if s is not None:
            out = pscale(out, s)
            c = Fraction(1)
        if not rest and c == 1:
            return out
        return pmul(out, patom(fn("sqrt", scale(c, mono_to_E(tuple(rest))))))
    com, q = common_factor(p)
    com = {a: e - e % 2 for a, e in com.items() if e > 1}
    if com:
        out = norm_sqrt(ppart(p, com), cx)
        for a, e in com.items():
            b = patom(a)
            if (e // 2) % 2 and not (a.op == "fn" and a.args[0] in ("abs", "sqrt", "exp") or a.op == "pi" or cx.entails(ge0(a))):
                b = patom(fn("abs", a))
            out = pmul(out, ppow(b, e // 2))
        return out
    # common denominator: sqrt(q / d**(2 h)) = sqrt(q) / |d|**h for d of known sign
    neg = {}
    for (g, f) in p:
        for a, e in f:
            if e < 0:
                neg[a] = min(e, neg.get(a, 0))
    for a, e in neg.items():
        h = (1 - e) // 2
        if cx.entails(gt0(a)):
            b = patom(a)
        elif cx.entails(gt0(scale(-1, a))):
            b = pscale(patom(a), -1)
        else:
            continue
        q = {}
        na = norm(a, cx)
        for (g, f), c in p.items():
            k = 2 * h + sum(x for y, x in f if y is a)
            m = {(g, tuple((y, x) for y, x in f if y is not a)): c}
            q = padd(q, pmul(m, ppow(na, k)) if k else m)
        return pmul(norm_sqrt(q, cx), ppow(b, -h))
    # extract rational content
    lead = min(p, key=lambda m: tuple((a.id, e) for a, e in m[1]))
    c = abs(p[lead])
    s = _sqrt_rat(c)
    if s is not None and c != 1:
        return pscale(patom(fn("sqrt", poly_to_E(pscale(p, 1 / c)))), s)
    return patom(fn("sqrt", poly_to_E(p)))


def trig(name, p):
    if not p:
        return pconst(1) if name == "cos" else {}
    monos = sorted(p.items(), key=lambda m: tuple((a.id, e) for a, e in m[0][1]))
    if len(monos) == 1:
        return trig1(name, monos[0][0][1], monos[0][1])
    c, s = trig1("cos", monos[0][0][1], monos[0][1]), trig1("sin", monos[0][0][1], monos[0][1])
    rest = dict(monos[1:])
    cr, sr = trig("cos", rest), trig("sin", rest)
    if name == "cos":
        return padd(pmul(c, cr), pmul(s, sr), -1)
    return padd(pmul(s, cr), pmul(c, sr))


def trig1(name, f, c):
    sign = 1
    if c < 0:
        c = -c
        if name == "sin":
            sign = -1
    # atan2 composition
    if c == 1 and len(f) == 1 and f[0][1] == 1 and f[0][0].op == "fn" and f[0][0].args[0] == "atan2":
        y, x = f[0][0].args[1:]
        r = norm(fn("sqrt", add(powi(x, 2), powi(y, 2))), CX0)
        return pscale(pmul(norm(x if name == "cos" else y, CX0), ppow(r, -1)), sign)
    d = dict(f)
    pis = [a for a in d if a.op == "pi"]
    if pis and d[pis[0]] == 1 and c.denominator <= 2:
        others = [(a, e) for a, e in f if a.op != "pi"]
        if all(a.sort == "int" and e > 0 for a, e in others):
            if c.denominator == 1:
                if name == "sin":
                    return {}
                q = int(c) % 2
                if q == 0 or not others:
                    return pconst(1 if q == 0 else -1)
                # powers of integers: parity of n^k equals parity of n
                arg = mul(PI, *[a for a, e in others])
                return patom(fn("cos", arg))
            if not others:
                # pi * (odd/2)
                v = int(c * 2) % 4
                return pconst(sign * {1: 1, 3: -1}[v]) if name == "sin" else {}
    arg = scale(c, mono_to_E(f))
    return pscale(patom(fn(name, arg)), sign)


# ------------------------------------------------------------------ sums
def norm_sum(e, cx):
    h, lo, hi, body = e.args
    cs = cases([lo, hi], cx)
    r = {}
    for g, cx1, (l, u) in cs:
        v = fresh("k")
        rng = and_(T.ge(v, l), T.lt(v, u))
        b = subst_b(body, h, v)
        p = _sum_pieces(v, rng, b, cx1, has_trig(b, v))
        r = padd(r, pguard(p, g))
    return r


def _sum_pieces(v, rng, body, cx, trigs):
    """sum over v of [rng]*body.  With trigonometric factors in v the sum is first cut at the
    case distinctions of the body and shifted so that the arguments have no constant part
    (otherwise the angle addition formulas hide equal sums)"""
    cx2 = cx.extend(rng)
    if cx2.infeasible():
        return {}
    if trigs:
        body = simp(body, cx2)
        c = _ite_on(body, v)
        if c is not None:
            r = {}
            for s in (c, not_(c)):
                r = padd(r, _sum_pieces(v, and_(rng, s), body, cx, True))
            return r
        conj = pair_equalities(list(rng.args) if rng.op == "and" else [rng])
        rng = and_(*conj)
        for i, c in enumerate(conj):
            if v not in c.fv:
                continue
            rest = conj[:i] + conj[i + 1:]
            if c.op == "or":
                r, seen = {}, TRUE
                for x in c.args:
                    r = padd(r, _sum_pieces(v, and_(*(rest + [seen, x])), body, cx, True))
                    seen = and_(seen, not_(x))
                return r
            if c.op == "eq0":
                cst, lin = T._linparts(c.args[0])
                if c.args[0].sort == "int" and abs(lin.get(v, 0)) == 1 and not any(v in t.fv for t in lin if t is not v):
                    sol = scale(-1 / lin[v], sub(c.args[0], scale(lin[v], v)))
                    g2 = and_(*[subst(x, {v: sol}) for x in rest])
                    cx3 = cx.extend(g2)
                    return {} if cx3.infeasible() else pguard(norm(subst(body, {v: sol}), cx3), guard_simp(g2, cx))
            if c.op == "not" and c.args[0].op == "eq0" and c.args[0].args[0].sort == "int":
                L = c.args[0].args[0]
                cxr = cx.extend(and_(*rest))
                up, dn = T.ge(L, ONE), T.le(L, const(-1))
                ways = [up] if cxr.entails(T.ge(L, ZERO)) else [dn] if cxr.entails(T.le(L, ZERO)) else [up, dn]
                r = {}
                for x in ways:
                    r = padd(r, _sum_pieces(v, and_(*(rest + [x])), body, cx, True))
                return r
        off = trig_offset(body, v)
        if off is not None:
            w = sub(v, off)
            body, rng = subst(body, {v: w}), subst(rng, {v: w})
            cx2 = cx.extend(rng)
            if cx2.infeasible():
                return {}
    p = norm(body, cx2)
    r = {}
    for (gg, f), c in p.items():
        r = padd(r, mk_nsum((v,), and_(rng, gg), f, cx), c)
    return r


def _trig_atoms(e, v, out, seen):
    if e in seen or v not in e.fv:
        return
    seen.add(e)
    if e.op == "fn" and e.args[0] in ("sin", "cos"):
        out.append(e)
        return
    for c in T.children(e):
        _trig_atoms(c, v, out, seen)


def has_trig(e, v):
    out = []
    _trig_atoms(e, v, out, set())
    return bool(out)


def _ite_on(e, v):
    """a condition of an if-then-else (outside binders) that depends on v"""
    if v not in e.fv or not _has_ite(e):
        return None
    if e.op == "ite" and v in e.args[0].fv:
        i = first_ite(e.args[0])
        return i if i is not None else e.args[0]
    if e.op in T.BINDERS:
        return None
    for c in T.children(e):
        i = _ite_on(c, v)
        if i is not None:
            return i
    return None


def trig_offset(body, v):
    """r such that every trig argument is alpha*(v + r) for the first argument with r != 0;
    None when some argument already has no constant part"""
    atoms = []
    _trig_atoms(body, v, atoms, set())
    best = None
    for a in atoms:
        x = a.args[1]
        if x.fb or _has_ite(x):
            continue
        try:
            px = norm(x, CX0)
            lin = {m: c for m, c in px.items() if all(y is v or v not in y.fv for y, _ in m[1]) and v not in m[0].fv}
            if len(lin) != len(px):
                x = poly_to_E(lin)
                if v not in x.fv:
                    continue
            b0 = norm(subst(x, {v: ZERO}), CX0)
            b1 = norm(subst(x, {v: ONE}), CX0)
            b2 = norm(subst(x, {v: const(2)}), CX0)
            al = padd(b1, b0, -1)
            if not al or padd(padd(b2, b1, -1), al, -1):
                continue
            if not b0:
                return None
            if len(al) != 1:
                continue
            q = pmul(b0, pinv(al))
        except (TooBig, GuardInDenominator, ZeroDivisionError):
            continue
        ok = True
        tot = ZERO
        for (g, f), c in q.items():
            if g is not TRUE or c.denominator != 1 or any(e < 1 or y.sort != "int" for y, e in f):
                ok = False
                break
            m = const(c)
            for y, e in f:
                for _ in range(e):
                    m = mul(m, y)
            tot = add(tot, m)
        if ok and tot.sort == "int" and best is None:
            best = tot
    return best


def open_nsum(a):
    n, g, f = a.args
    h0 = a.height - n + 1
    vs = tuple(fresh("k") for _ in range(n))
    for i, v in enumerate(vs):
        g = subst_b(g, h0 + i, v)
        f = tuple((subst_b(x, h0 + i, v), e) for x, e in f)
    return vs, g, f


def raw_nsum(vs, g, f):
    h = g.height
    for x, _ in f:
        h = max(h, x.height)
    h += 1
    for i, v in enumerate(vs):
        g = subst(g, {v: T.bvar(h + i)})
        f = [(subst(x, {v: T.bvar(h + i)}), e) for x, e in f]
    f = tuple(sorted(f, key=lambda t: t[0].id))
    e = T._mk("nsum", (len(vs), g, f), "real", [g] + [x for x, _ in f])
    e.height = h + len(vs) - 1
    e.fb = frozenset(b for b in e.fb if not (h <= b < h + len(vs)))
    return e


def _nsum_subst(e, fnsub):
    vs, g, f = open_nsum(e)
    g = fnsub(g)
    f = tuple((fnsub(x), k) for x, k in f)
    return raw_nsum(vs, g, f)


# teach the substitution functions about nsum
_old_subst = T._subst
_old_subst_b = T.subst_b


def _subst_ext(e, m, ks, memo):
    if e.op == "nsum":
        if not (e.fv & ks):
            return e
        r = memo.get(e)
        if r is None:
            r = _nsum_subst(e, lambda x: T._subst(x, m, ks, memo))
            memo[e] = r
        return r
    return _old_subst(e, m, ks, memo)


def _subst_b_ext(e, h, v, memo=None):
    if e.op == "nsum":
        if h not in e.fb:
            return e
        return _nsum_subst(e, lambda x: T.subst_b(x, h, v))
    return _old_subst_b(e, h, v, memo)


T._subst = _subst_ext
T.subst_b = _subst_b_ext
subst_b = _subst_b_ext


def norm_nsum(a, cx):
    vs, g, f = open_nsum(a)
    cx2 = cx.extend(g)
    if cx2.infeasible():
        return {}
    p = pconst(1)
    for x, e in f:
        q = norm(x, cx2)
        p = pmul(p, ppow(q, e))
    r = {}
    for (gg, ff), c in p.items():
        r = padd(r, mk_nsum(vs, and_(g, gg), ff, cx), c)
    return r


def mk_nsum(vs, guard, factors, cx):
    """sum over binders vs of [guard]*factors -> Poly"""
    if guard is FALSE:
        return {}
    vset = frozenset(vs)
    # merge inner sums that depend on a binder
    fs = []
    binders = list(vs)
    conj = list(guard.args) if guard.op == "and" else ([] if guard is TRUE else [guard])
    todo = list(factors)
    while todo:
        a, e = todo.pop()
        if a.op == "nsum" and e > 0 and (a.fv & vset):
            for _ in range(e):
                ivs, ig, iff = open_nsum(a)
                binders += ivs
                conj += list(ig.args) if ig.op == "and" else [ig]
                todo += list(iff)
            vset = frozenset(binders)
        else:
            fs.append((a, e))
    # merging may have created repeated atoms
    d = {}
    for a, e in fs:
        d[a] = d.get(a, 0) + e
    fs = list(d.items())
    # guards that are not conjunctions of linear atoms: split into disjoint sums
    bset = frozenset(binders)
    conj = pair_equalities(list(dict.fromkeys(conj)))
    for i, c in enumerate(conj):
        if not (c.fv & bset) or (c.op != "or" and not (c.op == "not" and c.args[0].op == "eq0")):
            continue
        rest = conj[:i] + conj[i + 1:]
        cxr = cx.extend(and_(*rest))
        d = cxr.decide(c)
        if d is False:
            return {}
        if d is True:
            return mk_nsum(tuple(binders), and_(*rest), tuple(fs), cx)
        if c.op == "or":
            r = {}
            seen = TRUE
            for x in c.args:
                r = padd(r, mk_nsum(tuple(binders), and_(*(rest + [seen, x])), tuple(fs), cx))
                seen = and_(seen, not_(x))
            return r
        L = c.args[0].args[0]
        if L.sort == "int":
            up, dn = T.ge(L, ONE), T.le(L, const(-1))
            if cxr.entails(T.ge(L, ZERO)):
                return mk_nsum(tuple(binders), and_(*(rest + [up])), tuple(fs), cx)
            if cxr.entails(T.le(L, ZERO)):
                return mk_nsum(tuple(binders), and_(*(rest + [dn])), tuple(fs), cx)
            return padd(mk_nsum(tuple(binders), and_(*(rest + [up])), tuple(fs), cx),
                        mk_nsum(tuple(binders), and_(*(rest + [dn])), tuple(fs), cx))
    # equality elimination
    for c in conj:
        if c.op == "eq0":
            cst, lin = T._linparts(c.args[0])
            for b in binders:
                if b in lin and abs(lin[b]) == 1 and not any(b in t.fv for t in lin if t is not b) and c.args[0].sort == "int":
                    sol = scale(-1 / lin[b], sub(c.args[0], scale(lin[b], b)))
                    m = {b: sol}
                    nb = [x for x in binders if x is not b]
                    g2 = and_(*[subst(x, m) for x in conj if x is not c])
                    if g2 is FALSE:
                        return {}
                    return _renorm(nb, g2, [(subst(a, m), e) for a, e in fs], cx)
    outer = []
    inner = []
    bset = frozenset(binders)
    for c in dict.fromkeys(conj):
        (inner if c.fv & bset else outer).append(c)
    of = [(a, e) for a, e in fs if not (a.fv & bset)]
    inf = [(a, e) for a, e in fs if a.fv & bset]
    og = guard_simp(and_(*outer), cx)
    if og is FALSE:
        return {}
    # connected components
    parent = {b: b for b in binders}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x

    for x in [a for a, _ in inf] + inner:
        bs = [b for b in binders if b in x.fv]
        for b in bs[1:]:
            ra, rb = find(bs[0]), find(b)
            if ra is not rb:
                parent[ra] = rb
    comps = {}
    for b in binders:
        comps.setdefault(find(b), []).append(b)
    res = {(og, tuple(sorted(of, key=lambda t: t[0].id))): Fraction(1)}
    cxo = cx.extend(og)
    for bs in comps.values():
        bset2 = frozenset(bs)
        ci = [c for c in inner if c.fv & bset2]
        cf = [(a, e) for a, e in inf if a.fv & bset2]
        p = one_sum(bs, ci, cf, cxo)
        res = pmul(res, p)
        if not res:
            return res
    return res


def _renorm(binders, g, fs, cx):
    cx2 = cx.extend(g)
    if cx2.infeasible():
        return {}
    p = pconst(1)
    for a, e in fs:
        q = norm(a, cx2)
        if e > 0:
            p = pmul(p, ppow(q, e))
        else:
            p = pmul(p, _inv_guarded(q, -e, cx2))
    r = {}
    for (gg, ff), c in p.items():
        if binders:
            r = padd(r, mk_nsum(tuple(binders), and_(g, gg), ff, cx), c)
        else:
            r = padd(r, {(and_(g, gg), ff): c})
    return r


def bounds_of(b, conj, cx):
    """interval bounds on b if all guards are simple: (lowers, uppers) or None"""
    los, his = [], []
    for c in conj:
        if c.op != "ge0" or c.args[0].sort != "int":
            return None
        cst, lin = T._linparts(c.args[0])
        q = lin.get(b)
        if q is None or any(b in t.fv for t in lin if t is not b):
            return None
        rest = sub(c.args[0], scale(q, b))
        if q == 1:
            los.append(neg(rest))
        elif q == -1:
            his.append(add(rest, ONE))
        else:
            return None
    return los, his


def one_sum(bs, conj, fs, cx):
    g = and_(*conj)
    if g is FALSE:
        return {}
    cxg = cx.extend(g)
    if cxg.infeasible():
        return {}
    if len(conj) > 2 * len(bs):
        conj = _irredundant(conj, cx)
        g = and_(*conj)
    if len(bs) == 1:
        b = bs[0]
        bd = bounds_of(b, conj, cx)
        if bd and bd[0] and bd[1]:
            lo, hi = _tight(bd[0], cx, True), _tight(bd[1], cx, False)
            if lo is not None and hi is not None:
                n = T.intval(sub(hi, lo))
                if n is not None and n <= 0:
                    return {}
                if n == 1:
                    return _renorm([], TRUE, [(subst(a, {b: lo}), e) for a, e in fs], cx)
                if all(a is b and 0 < e <= 3 for a, e in fs):
                    pw = fs[0][1] if fs else 0
                    val = sub(_faul(pw, hi), _faul(pw, lo))
                    c = T.ge(hi, lo)
                    d = cx.decide(c)
                    if d is False:
                        return {}
                    p = norm(val, cx)
                    return p if d else pguard(p, c)
                g = and_(T.ge(b, lo), T.lt(b, hi))
    return patom(raw_nsum(tuple(bs), g, fs))


def _irredundant(conj, cx):
    """drop conjuncts that follow from the others"""
    keep = list(conj)
    for c in sorted(conj, key=lambda c: (-len(c.fv), c.id)):
        rest = [x for x in keep if x is not c]
        if cx.extend(and_(*rest)).entails(c):
            keep = rest
    return keep


def _faul(p, n):
    """sum_{k<n} k^p as polynomial in n"""
    if p == 0:
        return n
    if p == 1:
        return scale(Fraction(1, 2), sub(mul(n, n), n))
    if p == 2:
        return scale(Fraction(1, 6), mul(mul(sub(n, ONE), n), sub(scale(2, n), ONE)))
    return scale(Fraction(1, 4), mul(powi(sub(n, ONE), 2), powi(n, 2)))


def _tight(xs, cx, lower):
    xs = list(dict.fromkeys(xs))
    best = xs[0]
    for x in xs[1:]:
        c = T.ge(x, best) if lower else T.le(x, best)
        d = cx.decide(c)
        if d is True:
            best = x
        elif d is None:
            return None
    # verify best dominates all
    return best


CX0 = Cx(())


# ------------------------------------------------------------------ canonical bodies
_canon = {}
_body = {}


def ser(e, names, memo):
    r = memo.get(e)
    if r is not None:
        return r
    if e in names:
        r = names[e]
    elif not e.fv and not e.fb or not any(v in names for v in e.fv):
        r = "#%d" % e.id
    elif e.op == "add":
        c, items = e.args
        r = "(+%s %s)" % (c, " ".join(sorted("%s*%s" % (q, ser(t, names, memo)) for t, q in items)))
    elif e.op == "mul":
        r = "(* %s)" % " ".join(sorted("%s^%d" % (ser(t, names, memo), x) for t, x in e.args))
    elif e.op in ("fn", "sel", "bfn"):
        r = "(%s %s)" % (e.args[0], " ".join(ser(t, names, memo) for t in e.args[1:]))
    elif e.op in ("sum", "nsum", "exists", "minr", "maxr"):
        if e.op == "nsum":
            r = "(nsum%d %s %s)" % (e.args[0], ser(e.args[1], names, memo),
                                    " ".join(sorted("%s^%d" % (ser(t, names, memo), x) for t, x in e.args[2])))
        else:
            r = "(%s%d %s)" % (e.op, e.args[0], " ".join(ser(t, names, memo) for t in e.args[1:]))
    elif e.op in ("and", "or"):
        r = "(%s %s)" % (e.op, " ".join(sorted(ser(t, names, memo) for t in e.args)))
    else:
        r = "(%s %s)" % (e.op, " ".join(ser(t, names, memo) for t in T.children(e)))
    memo[e] = r
    return r


def canon_sum(a):
    """-> (key, list-of-variants guard over canonical vars): key identifies the
    body up to renaming/affine reparametrisation of binders"""
    r = _canon.get(a)
    if r is not None:
        return r
    vs, g, f = open_nsum(a)
    best = None
    for perm in itertools.permutations(range(len(vs))):
        for (vs2, g2, f2) in shifts([vs[i] for i in perm], 0, g, f):
            names = {v: "$%d" % i for i, v in enumerate(vs2)}
            for f3 in symswaps(f2, vs2):
                memo = {}
                key = " ".join(sorted("%s^%d" % (ser(x, names, memo), e) for x, e in f3))
                if best is None or key < best[0]:
                    best = (key, vs2, [g2])
                    _body[a] = (vs2, f3)
                elif key == best[0] and len(best[2]) < 4:
                    # automorphism: keep the guards expressed in the same variables
                    gg = subst(g2, dict(zip(vs2, best[1]))) if tuple(vs2) != tuple(best[1]) else g2
                    if gg not in best[2]:
                        best[2].append(gg)
    _canon[a] = best
    return best


def canon_body(a):
    """factors of the sum in the binders of canon_sum"""
    canon_sum(a)
    return _body[a]


def symswaps(f, vs):
    vset = frozenset(vs)
    idx = [i for i, (x, e) in enumerate(f)
           if x.op == "sel" and T.ARR[x.args[0]].sym and len(x.args) == 3 and (x.fv & vset)]
    if not idx:
        yield f
        return
    if len(idx) > 3:
        idx = idx[:3]
    for bits in itertools.product((0, 1), repeat=len(idx)):
        f2 = list(f)
        for b, i in zip(bits, idx):
            if b:
                x, e = f[i]
                f2[i] = (_rawsel(x.args[0], x.args[2], x.args[1]), e)
        yield tuple(f2)


def _rawsel(name, *idx):
    return T._mk("sel", (name,) + idx, T.ARR[name].sort, idx)


def inner_sels(x, b):
    """array reads at b in x: x itself, or the arguments of a function"""
    if b not in x.fv:
        return []
    if x.op == "sel":
        return [x]
    if x.op == "fn" and x.args[0] not in ("sin", "cos", "exp"):
        return [y for a in x.args[1:] for y in inner_sels(a, b)]
    return []


def const_range(g, b):
    """the integers b with g, if g is an interval with a small constant number of elements"""
    lo, hi = [], []
    for c in (g.args if g.op == "and" else (g,)):
        if c.op not in ("ge0", "eq0") or c.args[0].sort != "int":
            return None
        k, lin = T._linparts(c.args[0])
        q = lin.get(b)
        if q is None or abs(q) != 1 or any(b in t.fv for t in lin if t is not b):
            return None
        x = scale(-q, sub(c.args[0], scale(q, b)))
        if c.op == "eq0" or q == 1:
            lo.append(x)
        if c.op == "eq0" or q == -1:
            hi.append(x)
    if len(lo) != 1 or len(hi) != 1:
        return None
    d = sub(hi[0], lo[0])
    if d.op != "const" or d.args[0] > 3:
        return None
    return [add(lo[0], const(i)) for i in range(int(d.args[0]) + 1)]


def partition_sums(P, cx):
    """split sums of the same terms over different ranges into sums over disjoint ranges"""
    fam = {}
    for (g, f), c in P.items():
        for a, e in f:
            if a.op == "nsum" and a.args[0] == 1 and e > 0:
                key, vs, gs = canon_sum(a)
                fam.setdefault(key, {}).setdefault(subst(gs[0], {vs[0]: T.var("c$0")}), []).append(a)
    m = {}
    c0 = T.var("c$0")
    for key, gs in fam.items():
        for g in gs:
            pts = const_range(g, c0)
            if pts is not None:
                for a in gs[g]:
                    vs2, f2 = canon_body(a)
                    m[a] = {}
                    for q in pts:
                        p = {(TRUE, ()): Fraction(1)}
                        for x, e in f2:
                            p = pmul(p, ppow(norm(subst(x, {vs2[0]: q}), cx), e))
                        m[a] = padd(m[a], p)
        gs = {g: l for g, l in gs.items() if l[0] not in m}
        if not 2 <= len(gs) <= 5:
            continue
        lst = sorted(gs, key=lambda g: g.id)
        cells = []
        for bits in itertools.product((True, False), repeat=len(lst)):
            if any(bits):
                cell = and_(*[g if b else not_(g) for g, b in zip(lst, bits)])
                if z3_unsat(list(cx.hyps) + [cell]) is not True:
                    cells.append(bits)
        fresh = {}
        for bits in cells:
            g = and_(*[g if b else not_(g) for g, b in zip(lst, bits)])
            conj = list(g.args) if g.op == "and" else [g]
            for i, c in enumerate(conj):
                if c.op == "or":
                    live = [d for d in c.args if z3_unsat(list(cx.hyps) + conj[:i] + conj[i + 1:] + [d]) is not True]
                    if len(live) == 1:
                        conj[i] = live[0]
            pt = None
            for c in with_equalities([c for c in conj if c.op != "or"]):
                if c.op == "eq0" and c.args[0].sort == "int":
                    q = T._linparts(c.args[0])[1].get(c0)
                    if q is not None and abs(q) == 1:
                        pt = scale(-q, sub(c.args[0], scale(q, c0)))
                        break
            if pt is None or c0 in pt.fv:
                fresh[bits] = patom(T.fresh("cell", "real"))
            else:
                a = gs[lst[bits.index(True)]][0]
                vs2, f2 = canon_body(a)
                h = subst(g, {c0: pt})
                fresh[bits] = pguard({(TRUE, ()): Fraction(1)}, TRUE if cx.entails(h) else h)
                for x, e in f2:
                    fresh[bits] = pmul(fresh[bits], ppow(norm(subst(x, {vs2[0]: pt}), cx), e))
        for i, g in enumerate(lst):
            p = {}
            for bits in cells:
                if bits[i]:
                    p = padd(p, fresh[bits])
            for a in gs[g]:
                m[a] = p
    if not m:
        return P
    out = {}
    for (g, f), c in P.items():
        p = {(g, tuple((a, e) for a, e in f if a not in m)): c}
        for a, e in f:
            if a in m:
                p = pmul(p, ppow(m[a], e))
        out = padd(out, p)
    return out


def shifts(vs, pos, g, f):
    if pos == len(vs):
        yield vs, g, f
        return
    b = vs[pos]
    anchors = []
    for x, e in f:
        for y in inner_sels(x, b):
            for i in y.args[1:]:
                c, lin = T._linparts(i)
                q = lin.get(b)
                if q is not None and abs(q) == 1 and not any(b in t.fv for t in lin if t is not b) and i.sort == "int":
                    rest = sub(i, scale(q, b))
                    if (q, rest) not in anchors:
                        anchors.append((q, rest))
    if not anchors and not any(b in x.fv for x, e in f):
        # a count: anchors in the condition
        for t in sorted((t for t in T.subterms(g) if t.op == "sel" and b in t.fv), key=lambda t: t.id):
            for i in t.args[1:]:
                c, lin = T._linparts(i)
                q = lin.get(b)
                if q is not None and abs(q) == 1 and not any(b in u.fv for u in lin if u is not b) and i.sort == "int":
                    rest = sub(i, scale(q, b))
                    if (q, rest) not in anchors:
                        anchors.append((q, rest))
        anchors = anchors[:1]
    if not anchors or all(q == 1 and r is ZERO for q, r in anchors):
        yield from shifts(vs, pos + 1, g, f)
        return
    ok = False
    for q, rest in anchors[:6]:
        if q == 1 and rest is ZERO:
            ok = True
            yield from shifts(vs, pos + 1, g, f)
            continue
        # i = q*b + rest =: b'  ->  b = q*(b' - rest)
        m = {b: scale(q, sub(b, rest))}
        f2 = []
        bad = False
        for x, e in f:
            y = subst(x, m)
            if y is not x and x.op == "fn" and x.args[0] in ("sin", "cos", "exp"):
                p = norm(y, CX0)
                if len(p) != 1:
                    bad = True
                    break
                (gg, ff), c = next(iter(p.items()))
                if c != 1 or len(ff) != 1 or gg is not TRUE:
                    bad = True
                    break
                y = ff[0][0]
            f2.append((y, e))
        if bad:
            continue
        ok = True
        yield from shifts(vs, pos + 1, subst(g, m), tuple(f2))
    if not ok:
        yield from shifts(vs, pos + 1, g, f)


# ------------------------------------------------------------------ proving
class Result:
    def __init__(self, ok, why="", split=0):
        self.ok = ok
        self.why = why


def group(P):
    groups = {}
    for (g, f), c in P.items():
        free = []
        sums = []
        for a, e in f:
            if a.op == "nsum" and e > 0:
                k = canon_sum(a)
                for _ in range(e):
                    sums.append(k)
            else:
                free.append((a, e))
        sums.sort(key=lambda s: s[0])
        key = (tuple((a.id, e) for a, e in free), tuple(s[0] for s in sums))
        # rename binders to canonical global vars
        variants = [g]
        pos = 0
        for s in sums:
            m = {v: T.var("c$%d" % (pos + i)) for i, v in enumerate(s[1])}
            pos += len(s[1])
            variants = [and_(x, subst(y, m)) for x in variants for y in s[2]][:6]
        groups.setdefault(key, ([], f))[0].append((c, variants))
    return groups


def group_vanishes(entries, cx):
    # all guards identical?
    tot = {}
    for c, vs in entries:
        tot[vs[0]] = tot.get(vs[0], 0) + c
    tot = {g: c for g, c in tot.items() if c}
    if not tot:
        return True
    if len(tot) == 1:
        g = next(iter(tot))
        return z3_unsat(list(cx.hyps) + [g]) is True
    # pointwise: sum of c*[g] == 0, trying variants (automorphisms)
    lists = [(c, vs) for c, vs in entries]
    nvar = 1
    for c, vs in lists:
        nvar *= len(vs)
    combos = itertools.islice(itertools.product(*[vs for _, vs in lists]), 24) if nvar > 1 else [tuple(vs[0] for _, vs in lists)]
    for combo in combos:
        w = {}
        for (c, _), g in zip(lists, combo):
            w[g] = w.get(g, 0) + c
        w = {g: c for g, c in w.items() if c}
        if not w:
            return True
        s = add(*[ite(g, const(c), ZERO) for g, c in w.items()])
        if z3_unsat(list(cx.hyps) + [not_(eq0(s))]) is True:
            return True
    return False


def match_point(fs, b, mono):
    """body factors fs (in b) occur in mono for b = p: -> [(p, rest of mono)]"""
    out = []
    for x, e in fs:
        for xs in inner_sels(x, b):
            for pos, i in enumerate(xs.args[1:], 1):
                c, lin = T._linparts(i)
                q = lin.get(b)
                if q is None or abs(q) != 1 or i.sort != "int" or any(b in t.fv for t in lin if t is not b):
                    continue
                rest = sub(i, scale(q, b))
                for y, k in mono:
                    if y.op != x.op or y.args[0] != x.args[0] or k < e or e <= 0:
                        continue
                    for ys in ([y] if y.op == "sel" else [t for t in T.subterms(y) if t.op == "sel" and t.args[0] == xs.args[0]]):
                        p = scale(q, sub(ys.args[pos], rest))
                        left = dict(mono)
                        for z, n in fs:
                            w = subst(z, {b: p})
                            if left.get(w, 0) < n:
                                break
                            left[w] -= n
                            if not left[w]:
                                del left[w]
                        else:
                            if all(p is not u for u, _ in out):
                                out.append((p, left))
                return out
    return out


def absorb_points(P):
    """write single terms f(p) that occur next to sums of f(b) as sums over b == p"""
    pats = {}
    for (g, f) in P:
        for a, e in f:
            if a.op == "nsum" and a.args[0] == 1 and e > 0:
                k = canon_sum(a)
                pats.setdefault(k[0], a)
    if not pats:
        return P
    pats = [open_nsum(a) for _, a in sorted(pats.items())][:6]
    out, ch = {}, False
    for (g, f), c in P.items():
        for vs, _, bf in pats:
            ms = match_point(bf, vs[0], [(a, e) for a, e in f if e > 0])
            if len(ms) != 1:
                continue
            p, left = ms[0]
            at = raw_nsum(vs, T.eq(vs[0], p), list(bf))
            left = dict(left)
            for a, e in f:
                if e < 0:
                    left[a] = e
            left[at] = left.get(at, 0) + 1
            f = tuple(sorted(left.items(), key=lambda t: t[0].id))
            ch = True
            break
        out[(g, f)] = out.get((g, f), 0) + c
    return out if ch else P


def clear_denoms(P):
    """multiply by all negative powers of non-variable atoms"""
    need = {}
    for (g, f), c in P.items():
        for a, e in f:
            if e < 0:
                need[a] = min(need.get(a, 0), e)
    if not need:
        return P
    m = {(TRUE, tuple(sorted(((a, -e) for a, e in need.items()), key=lambda t: t[0].id))): Fraction(1)}
    out = {}
    for mono, c in P.items():
        q = pmul({mono: c}, m)
        # expand positive powers of polynomial bases
        for (g, f), cc in q.items():
            p = {(g, ()): cc}
            for a, e in f:
                if a.op == "add" and e > 0:
                    p = pmul(p, ppow(norm(a, CX0), e))
                else:
                    x = reduce_pow(a, e)
                    p = pmul(p, x if x is not None else {(TRUE, ((a, e),)): Fraction(1)})
            out = padd(out, p)
    return out


def elements(e, cx):
    """the set whose minimum or maximum e is: [(variables, guard, value)], or None.
    A nested extremum of the same kind counts if it is not over an empty range."""
    todo, out = [((), TRUE, e)], []
    while todo:
        vs, g, x = todo.pop()
        if g is not TRUE and z3_unsat(list(cx.hyps) + [g]) is True:
            continue
        if len(out) + len(todo) > 12:
            return None
        x = simp(x, cx.extend(g))
        if x.op == "ite":
            todo += [(vs, and_(g, x.args[0]), x.args[1]), (vs, and_(g, not_(x.args[0])), x.args[2])]
        elif x.op == e.op:
            v = T.fresh("m")
            lo, hi = x.args[1], x.args[2]
            if not cx.extend(g).entails(T.lt(lo, hi)):
                return None
            todo.append((vs + ((v, lo, sub(hi, ONE)),), and_(g, T.le(lo, v), T.lt(v, hi)), T.open_binder(x, v)))
        else:
            try:
                x = poly_to_E(norm(x, cx.extend(g)))
            except (TooBig, GuardInDenominator):
                pass
            if x.op == "ite":
                todo.append((vs, g, x))
            else:
                out.append((vs, g, x))
    return out


def contained(A, B, cx):
    """every element of A is an element of B"""
    for vs, g, x in A:
        conds = [c for ws, h, y in B for c in occurrences(y, ws, h, x)]
        if not conds or z3_unsat(list(cx.hyps) + [g] + [not_(c) for c in conds]) is not True:
            return False
    return True


def occurrences(y, ws, h, x):
    """conditions under which x is the value y for some ws with h"""
    ms = [{}]
    for w, lo, hi in ws:
        if w in y.fv:
            cand = []
            for ys in inner_sels(y, w):
                for pos, i in enumerate(ys.args[1:], 1):
                    c, lin = T._linparts(i)
                    q = lin.get(w)
                    if q is None or abs(q) != 1 or i.sort != "int" or any(w in t.fv for t in lin if t is not w):
                        continue
                    rest = sub(i, scale(q, w))
                    cand += [scale(q, sub(t.args[pos], rest)) for t in T.subterms(x) if t.op == "sel" and t.args[0] == ys.args[0]]
            cand = cand[:1]
        else:
            cand = [lo] if lo is hi else [lo, hi]
        ms = [{**m, w: c} for m in ms for c in cand]
    for m in ms[:8]:
        c = same_value(subst(y, m), x)
        if c is not None:
            yield and_(subst(h, m), *c)


def same_value(x, y):
    """equalities of indices that make x and y the same, or None"""
    if x is y:
        return []
    if x.op != y.op or x.op not in ("sel", "fn") or x.args[0] != y.args[0] or len(x.args) != len(y.args):
        return None
    out = []
    for a, b in zip(x.args[1:], y.args[1:]):
        if a is b:
            continue
        if a.sort == "int" and b.sort == "int":
            out.append(T.eq(a, b))
        else:
            c = same_value(a, b)
            if c is None:
                return None
            out += c
    return out


def same_extremum(x, y, cx):
    A, B = elements(x, cx), elements(y, cx)
    if DBG:
        for S in (A, B):
            print("HYPS", [T.show(h, 9) for h in cx.hyps], "ELEMS", None if S is None else [([T.show(v[0]) for v in vs], T.show(g, 6), T.show(z, 8)) for vs, g, z in S])
    return bool(A and B and contained(A, B, cx) and contained(B, A, cx))


def unify_atoms(P, cx, depth):
    """replace atoms provably equal under cx"""
    atoms = {}
    for (g, f) in P:
        for a, e in f:
            if a.op in ("fn", "sel", "floordiv", "mod", "trunc", "minr", "maxr"):
                k = (a.op, a.args[0] if a.op in ("fn", "sel") else None, len(a.args))
                atoms.setdefault(k, {})[a] = 1
    m = {}
    for k, d in atoms.items():
        lst = sorted(d, key=lambda a: a.id)
        if len(lst) < 2 or len(lst) > 24:
            continue
        for j in range(1, len(lst)):
            if lst[j] in m:
                continue
            for i in range(j):
                if lst[i] in m:
                    continue
                x, y = lst[i], lst[j]
                if k[0] in ("minr", "maxr"):
                    if same_extremum(x, y, cx) or cx.entails(T.eq(x, y)):
                        m[y] = x
                        break
                    continue
                ax = x.args[1:] if x.op in ("fn", "sel") else x.args
                ay = y.args[1:] if y.op in ("fn", "sel") else y.args
                if all(args_equal(u, v, cx, depth) for u, v in zip(ax, ay)):
                    m[y] = x
                    break
    if not m:
        return P, False
    out = {}
    for (g, f), c in P.items():
        p = {(g, ()): c}
        for a, e in f:
            b = m.get(a, a)
            x = reduce_pow(b, e)
            p = pmul(p, x if x is not None else {(TRUE, ((b, e),)): Fraction(1)})
        out = padd(out, p)
    return out, True


def args_equal(u, v, cx, depth):
    if u is v:
        return True
    if u.sort == "int" and v.sort == "int":
        return cx.entails(T.eq(u, v))
    if depth <= 0:
        return False
    try:
        return prove_zero(norm(sub(u, v), cx), cx, 0, depth - 1)
    except (TooBig, GuardInDenominator):
        return False


def leaf_atoms(c):
    if c.op in ("or", "and"):
        return [x for a in c.args for x in leaf_atoms(a)]
    if c.op == "not":
        return leaf_atoms(c.args[0])
    return [c]


import os
DBG = os.environ.get('PZ_DEBUG')


def prove_zero(P, cx, splits=8, depth=2):
    check_deadline()
    P = {m: c for m, c in P.items() if m[0] is not FALSE}
    if not P:
        return True
    if cx.infeasible():
        return True

    def remaining(P):
        gr = group(P)
        bad = []
        for key, (entries, f) in gr.items():
            if not group_vanishes(entries, cx):
                bad.append((key, entries, f))
        return bad

    bad = remaining(P)
    if not bad:
        return True
    # keep only the non vanishing part
    keep = set(k for k, _, _ in bad)
    Q = {}
    for mono, c in P.items():
        k = next(iter(group({mono: c})))
        if k in keep:
            Q[mono] = c
    # free guards -> case split first if cheap
    conds = {}
    for (g, f) in Q:
        for c in (g.args if g.op == "and" else ((g,) if g is not TRUE else ())):
            for c in leaf_atoms(c):
                if cx.decide(c) is None:
                    conds[c] = conds.get(c, 0) + 1
    P2, ch = unify_atoms(Q, cx, depth)
    if ch:
        P3 = reguard(P2, cx)
        if not P3 or not remaining(P3):
            return True
        Q = P3
    P4 = clear_denoms(Q)
    if P4 is not Q:
        if not P4 or not remaining(P4):
            return True
        P5, ch = unify_atoms(P4, cx, depth)
        if ch and (not P5 or not remaining(P5)):
            return True
    P7 = P4
    for _ in range(3):
        P8, P7 = P7, absorb_points(P7)
        if P7 is P8:
            break
    P7 = partition_sums(P7, cx)
    if P7 is not P4 and (not P7 or not remaining(P7)):
        return True
    P6 = absorb_points(Q)
    if P6 is not Q and not remaining(P6):
        return True
    if splits > 0 and conds:
        c = max(conds, key=lambda x: (conds[x], -x.id))
        for s in (c, not_(c)):
            cx2 = cx.extend(s)
            if cx2.infeasible():
                continue
            E2 = poly_to_E(Q)
            if not prove_zero(norm(E2, cx2), cx2, splits - 1, depth):
                return False
        return True
    # variables determined by the hypotheses
    m = orient(with_equalities(list(cx.hyps) + cx.tight()))
    if m:
        E = poly_to_E(Q)
        E2 = subst(E, m)
        if E2 is not E:
            return prove_zero(norm(E2, cx), cx, min(splits, 2), depth)
    if DBG:
        print("LEAF", splits, [T.show(h, 6) for h in cx.hyps], "P4", show_poly(P4, 30), "P7", show_poly(P7, 30))
    return False


LAST = {}


def resolve_mods(e, cx):
    """replace mod(a, b) by a wherever 0 <= a < b is known"""
    ts = set()
    T.subterms(e, ts)
    m = {}
    for t in ts:
        if t.op == "mod" and t.sort == "int" and not t.fb:
            r = reduce_mod(t, cx)
            if r is not t:
                m[t] = r
    return T.replace(e, m) if m else e


UNIFY = {}


def families(*es):
    """symbols of uninterpreted library functions and recursive sequences, by kind"""
    from . import loops, npmodel
    fam = {}
    for e in es:
        for x in T.deep_subterms(e):
            if x.op == "sel" and isinstance(x.args[0], str) and "#" in x.args[0]:
                nm = x.args[0]
                if nm in loops.REC_BODY:
                    fam.setdefault("rec", {})[nm] = None
                else:
                    d = npmodel.opaque_def(nm)
                    if d:
                        fam.setdefault(npmodel.OPAQUE_DEF[d[0]][0], {})[d[0]] = None
    return {k: sorted(v, key=lambda s: int(s.split("#")[1])) for k, v in fam.items()}


def rename(e, a, b, perm, tags):
    from .interp import map_sel
    k = len(perm)

    def to(nm):
        return lambda *ix: T.sel(nm, *([ix[j] for j in perm] + list(ix[k:])))
    return map_sel(e, {a + t: to(b + t) for t in tags})


def same_opaque(a, b, cx):
    """arguments of two uninterpreted calls agree for all values of their parameters -> the
    permutation of the parameters"""
    import itertools
    from . import npmodel as N
    pa, pb = N.OPAQUE_DEF[a][1], N.OPAQUE_DEF[b][1]
    k = N.OPAQUE_NPARAM[a]
    if k != N.OPAQUE_NPARAM[b] or len(pa) != len(pb) or k > 3:
        return None
    for perm in itertools.permutations(range(k)):
        if any(N.OPAQUE_FV[b][j].sort != N.OPAQUE_FV[a][perm[j]].sort for j in range(k)):
            continue
        fr = [T.fresh("w", v.sort) for v in N.OPAQUE_FV[a]]
        ma = {T.var("@f%d" % j, v.sort): fr[j] for j, v in enumerate(N.OPAQUE_FV[a])}
        mb = {T.var("@f%d" % j, v.sort): fr[perm[j]] for j, v in enumerate(N.OPAQUE_FV[b])}
        ok = True
        for x, y in zip(pa, pb):
            if x[0] != y[0] or x[0] == "c" and x[1] != y[1]:
                ok = False
                break
            if x[0] == "c":
                continue
            sx, sy = [T.subst(d, ma) for d in x[1]], [T.subst(d, mb) for d in y[1]]
            if len(sx) != len(sy) or not all(cx.entails(T.eq(p, q)) for p, q in zip(sx, sy)):
                ok = False
                break
            at = [T.fresh("q") for _ in sx]
            sub_ = {T.var("@a%d" % j): v for j, v in enumerate(at)}
            c2 = cx.extend(*[h for v, d in zip(at, sx) for h in (ge0(v), T.lt(v, d))])
            for ex, ey in zip(x[2], y[2]):
                if _prove_eq(subst(subst(ex, ma), sub_), subst(subst(ey, mb), sub_), c2, 10, 6)[0] != "proved":
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return perm
    return None


def same_rec(a, b, cx):
    """the defining equations agree when the sequences agree at smaller indices (induction)"""
    import itertools
    from . import loops
    fa, ta, ba = loops.REC_BODY[a][:3]
    fb, tb, bb = loops.REC_BODY[b][:3]
    k = len(fa)
    if k != len(fb) or k > 3:
        return None
    for perm in itertools.permutations(range(k)):
        if any(fb[j].sort != fa[perm[j]].sort for j in range(k)):
            continue
        fr = [T.fresh("w", v.sort) for v in fa]
        t = T.fresh("q")
        ea = subst(ba(t), {v: fr[j] for j, v in enumerate(fa)})
        eb = subst(bb(t), {v: fr[perm[j]] for j, v in enumerate(fb)})
        ea = rename(ea, a, b, perm, ("",))
        if _prove_eq(ea, eb, cx.extend(ge0(t)), 20, 6)[0] == "proved":
            return perm
    return None


def unified(a, b, cx, rule):
    key = (a, b, frozenset(cx.hyps))
    if key not in UNIFY:
        UNIFY[key] = None
        UNIFY[key] = rule(a, b, cx)
    return UNIFY[key]


def unify(l, r, cx):
    """one symbol for uninterpreted calls and recursive sequences with equal definitions"""
    from . import npmodel
    fam = families(l, r)
    for kind in sorted(fam, key=lambda f: f == "rec"):
        names = fam[kind]
        for i in range(len(names)):
            for j in range(i):
                a, b = names[i], names[j]
                perm = unified(a, b, cx, same_rec if kind == "rec" else same_opaque)
                if perm is not None:
                    tags = ("",) if kind == "rec" else ("", "i", "n")
                    l, r = rename(l, a, b, perm, tags), rename(r, a, b, perm, tags)
                    break
    return l, r


def prove_eq(l, r, cx, budget=60, splits=9):
    res = _prove_eq(l, r, cx, budget, splits)
    if res[0] != "proved":
        l, r = T.lift(l), T.lift(r)
        l2, r2 = unify(l, r, cx)
        if l2 is not l or r2 is not r:
            return _prove_eq(l2, r2, cx, budget, splits)
    return res


def has_nth(e):
    return any(x.op == "fn" and isinstance(x.args[0], str) and x.args[0].startswith("nth#") for x in T.deep_subterms(e))


def reindex_nth(e, memo=None):
    """a sum over the positions selected by a mask is the sum over all positions where it holds"""
    memo = {} if memo is None else memo
    if e in memo:
        return memo[e]
    if not has_nth(e):
        memo[e] = e
        return e
    if e.op in T.BINDERS:
        h, lo, hi, body = e.args
        v = T.fresh("s")
        b = reindex_nth(T.subst_b(body, h, v))
        lo, hi = reindex_nth(lo, memo), reindex_nth(hi, memo)
        r = None
        if e.op == "sum" and lo is T.ZERO:
            # elements before a filtered list: first terms split off
            for x in T.deep_subterms(b):
                if x.op == "fn" and isinstance(x.args[0], str) and x.args[0].startswith("nth#") and x.args[1] is not v:
                    c = cval(sub(v, x.args[1]))
                    n, mf = NTH[x.args[0]]
                    if c is not None and 0 < c <= 4 and c.denominator == 1 and count_of(n, mf) is sub(hi, const(c)):
                        cx = Cx([ge0(v)])
                        b2 = simp(T.subst(b, {v: add(v, const(c))}), cx)
                        first = [reindex_nth(T.subst(b, {v: const(j)})) for j in range(int(c))]
                        r = reindex_nth(T.sum_over(T.ZERO, sub(hi, const(c)), v, b2))
                        r = add(r, *[f for f in first])
                        memo[e] = r
                        return r
        if e.op in ("sum", "exists") and lo is T.ZERO:
            for x in T.deep_subterms(b):
                if x.op == "fn" and isinstance(x.args[0], str) and x.args[0].startswith("nth#") and x.args[1] is v:
                    n, mf = NTH[x.args[0]]
                    z = T.fresh("z")
                    b2 = replace_term(b, x, z)
                    if v not in b2.fv and count_of(n, mf) is hi:
                        r = T.sum_over(T.ZERO, n, z, ite(mf(z), b2, T.ZERO)) if e.op == "sum" else T._rebind(e.op, T.ZERO, n, z, and_(mf(z), b2), e.sort)
                    break
        if r is None:
            r = T.sum_over(lo, hi, v, b) if e.op == "sum" else T._rebind(e.op, lo, hi, v, b, e.sort)
    else:
        r = T.rebuild(e, [reindex_nth(c, memo) for c in T.children(e)])
    memo[e] = r
    return r


def replace_term(e, what, by):
    m = {}

    def go(x):
        if x is what:
            return by
        if x in m:
            return m[x]
        if x.op in T.BINDERS:
            h, lo, hi, body = x.args
            v = T.fresh("z")
            b = go(T.subst_b(body, h, v))
            r = T.sum_over(go(lo), go(hi), v, b) if x.op == "sum" else T._rebind(x.op, go(lo), go(hi), v, b, x.sort)
        else:
            ch = T.children(x)
            r = T.rebuild(x, [go(c) for c in ch]) if ch else x
        m[x] = r
        return r
    return go(e)


def congruent(l, r, cx, splits):
    """same function of provably equal arguments"""
    if l is r:
        return True
    if l.op != "fn" or r.op != "fn" or l.args[0] != r.args[0] or len(l.args) != len(r.args):
        return False
    for a, b in zip(l.args[1:], r.args[1:]):
        if not congruent(a, b, cx, splits) and not prove_zero(norm(resolve_mods(sub(a, b), cx), cx), cx, splits):
            return False
    return True


def _prove_eq(l, r, cx, budget=60, splits=9):
    """-> ('proved'|'unknown', info)"""
    l, r = T.lift(l), T.lift(r)
    if l is r:
        return "proved", "syntactic"
    t0 = time.time()
    old = DEADLINE[0]
    DEADLINE[0] = min(old, t0 + budget) if old else t0 + budget
    try:
        if has_nth(l) or has_nth(r):
            l, r = reindex_nth(l), reindex_nth(r)
        if l.sort == "bool" or r.sort == "bool":
            ok = cx.entails(T.eq(l, r))
            return ("proved", "z3") if ok else ("unknown", "z3: not entailed: %s == %s" % (T.show(l, 5), T.show(r, 5)))
        if l.sort == "int" and r.sort == "int" and cx.entails(T.eq(l, r)):
            return "proved", "z3"
        P = norm(resolve_mods(sub(l, r), cx), cx)
        if prove_zero(P, cx, splits):
            return "proved", "nf"
        if T.has_rec(l) or T.has_rec(r):
            # one step of the defining equations of recursively filled arrays
            from . import loops
            P2 = norm(resolve_mods(sub(loops.unfold(l), r), cx), cx)
            if prove_zero(P2, cx, splits):
                return "proved", "nf, defining equation unfolded"
        if congruent(l, r, cx, splits):
            return "proved", "nf of the arguments"
        return "unknown", "residual: " + show_poly(P, 14)
    except TooBig:
        return "unknown", "normal form too large"
    except Deadline:
        return "unknown", "time budget exhausted"
    except GuardInDenominator as ex:
        return "unknown", "guard in denominator"
    finally:
        DEADLINE[0] = old
        STATS.norm_time += time.time() - t0


def show_poly(P, n=8):
    out = []
    for i, ((g, f), c) in enumerate(P.items()):
        if i >= n:
            out.append("... (%d terms)" % len(P))
            break
        out.append("%s*%s%s" % (c, "[%s]" % T.show(g, 6) if g is not TRUE else "", T.show(mono_to_E(f), 8)))
    return " + ".join(out)
