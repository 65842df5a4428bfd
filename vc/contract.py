"""Contracts: declaration of inputs and preconditions, postconditions as terms.

One declaration is used twice: (a) symbolically - the function body is executed
on symbolic inputs of arbitrary size and each postcondition becomes a proof
obligation; (b) concretely - random and path-directed inputs satisfying the
preconditions are run on the real code and the postcondition terms are evaluated
(replay of counterexamples, validation of the library models).
"""
import random
import time
import traceback
import numpy as np

from . import terms as T
from . import prover
from . import evalnum
from . import values as V
from .terms import E, ONE, ZERO, TRUE, FALSE
from .prover import Cx, prove_eq
from .values import Sc, Arr, Dia, Sparse, SymList, Unsupported, PyExc

REG = []          # all contracts


class Contract:
    def __init__(self, prop, target, name, fn, bounded=False, note="", uses=(), slow=False, thorough=False):
        self.prop, self.target, self.name, self.fn = prop, target, name, fn
        self.bounded = bounded
        self.note = note
        self.uses = uses
        self.thorough = thorough

    @property
    def id(self):
        return "%s/%s[%s]" % (self.prop, self.target.split(".")[-1], self.name)


def contract(prop, target, name="", **kw):
    def deco(fn):
        REG.append(Contract(prop, target, name or fn.__name__, fn, **kw))
        return fn
    return deco


def integers(prop, target, name, *arrays):
    """the contract again for integer arrays: nothing may be truncated"""
    for c in [c for c in REG if c.prop == prop and c.target.endswith(target) and c.name == name]:
        def fn(B, c=c):
            B.integers = arrays
            c.fn(B)
        REG.append(Contract(prop, c.target, "%s; integer %s" % (name, ", ".join(arrays)), fn))
        return
    raise KeyError((prop, target, name))


# ------------------------------------------------------------------ spec helpers
def S(lo, hi, f):
    return T.sum_(T.lift(lo), T.lift(hi), f)


def cos(x):
    return T.fn("cos", T.lift(x))


def sin(x):
    return T.fn("sin", T.lift(x))


def sqrt(x):
    return T.fn("sqrt", T.lift(x))


def atan2(y, x):
    return T.fn("atan2", T.lift(y), T.lift(x))


ite, and_, or_, not_ = T.ite, T.and_, T.or_, T.not_
PI = T.PI


def _l(f):
    return lambda a, b: f(T.lift(a), T.lift(b))


le, lt, ge, gt, eq, ne = (_l(f) for f in (T.le, T.lt, T.ge, T.gt, T.eq, T.ne))


def cases(*cv):
    """cases(cond, value, cond, value, ..., default)"""
    cv = list(cv)
    r = cv.pop()
    while cv:
        v = cv.pop()
        c = cv.pop()
        r = V.eite(c, v if isinstance(v, tuple) else T.lift(v), r if isinstance(r, tuple) else T.lift(r))
    return r


# ------------------------------------------------------------------ inputs
class In:
    """a declared input array"""

    def __init__(self, name, shape, dtype, kind, gen, layout, opts):
        self.name, self.shape, self.dtype, self.kind, self.gen, self.layout, self.opts = name, tuple(T.lift(s) for s in shape), dtype, kind, gen, layout, opts

    @property
    def n(self):
        return self.shape[0]

    def __call__(self, *idx):
        idx = [T.lift(i) for i in idx]
        if self.dtype == "c":
            return (T.sel(self.name, *idx), T.sel(self.name + ".im", *idx))
        if self.dtype == "b":
            return T.ne(T.sel(self.name, *idx), ZERO)
        if self.opts.get("alias"):
            return self.opts["alias"](lambda *i: T.sel(self.name, *i), *idx)
        return T.sel(self.name, *idx)

    def sym(self):
        st = V.Storage(self.shape, self.dtype, lambda *i: self(*i), origin=self.name)
        return Arr(self.shape, st)


class DiaIn:
    def __init__(self, data, offsets, shape):
        self.data, self.offsets, self.shape = data, offsets, [T.lift(s) for s in shape]


class Scal:
    def __init__(self, e, kind):
        self.e, self.kind = e, kind


class Post:
    def __init__(self, kind, label, **kw):
        self.kind, self.label = kind, label
        self.__dict__.update(kw)


class B:
    def __init__(self, target):
        self.target = target
        self.ints, self.reals, self.arrs, self.hyps, self.posts = [], [], [], [], []
        self.args, self.kw = [], {}
        self.exc = []          # (names, cond)
        self.dims = set()
        self.seedable = False
        self.samples = None
        self.rtol = 1e-7
        self.integers = ()
        self.repeat = True
        self.frame = True
        self.genv = None
        self.contracts = {}
        self.cuts = []
        self.invariants = []
        self.while_rule = None
        self.replay = None
        self.results = {}
        self.ghosts = []
        self.draw_plan = []

    # -- declarations
    def int(self, name, lo=0, hi=None, gen=None):
        v = T.var(name)
        self.ints.append((name, lo, hi, gen or (lo, lo + 5 if hi is None else min(hi, lo + 5))))
        if lo is not None:
            self.hyps.append(ge(v, lo))
        if hi is not None:
            self.hyps.append(le(v, hi))
        return v

    def real(self, name, pos=False, gen=None, lo=None, hi=None):
        v = T.var(name, "real")
        self.reals.append((name, pos, gen))
        if pos:
            self.hyps.append(T.gt0(v))
        if lo is not None:
            self.hyps.append(ge(v, lo))
        if hi is not None:
            self.hyps.append(le(v, hi))
        return v

    def arr(self, name, shape, dtype="f", kind="gen", gen=None, layout=None, **opts):
        meta = {k: v for k, v in opts.items() if k in ("positive", "nonneg", "sorted", "distinct")}
        if kind == "psd":
            opts["sym"] = True
        if kind == "pos":
            meta["positive"] = True
        if kind == "nonneg":
            meta["nonneg"] = True
        if kind == "sorted":
            meta["sorted"] = True
        if isinstance(shape, (E, int)):
            shape = (shape,)
        if name in self.integers and dtype == "f":
            dtype = "i"
        T.declare(name, len(shape), "int" if dtype in ("i", "b") else "real", sym=bool(opts.get("sym")), **meta)
        if dtype == "c":
            T.declare(name + ".im", len(shape), "real")
        a = In(name, shape, dtype, kind, gen, layout, opts)
        self.arrs.append(a)
        return a

    def ghost(self, name, shape, elem, sym=False):
        """a quantity the contract of a callee defines: opaque in the proof, its definition
        `elem` is what the callee is proved to return"""
        T.declare(name, len(shape), "real", sym=sym)
        self.ghosts.append((name, tuple(T.lift(s) for s in shape), elem))
        return lambda *i: T.sel(name, *i)

    def cut(self, name, shape, elem, sym=False, after_loop=False):
        """an intermediate array: wherever the code assigns an array that provably equals this
        definition, the proof continues with an arbitrary (symmetric) array of that name
        (after_loop: only variables at the end of a loop)"""
        g = self.ghost(name, shape, elem, sym)
        self.cuts.append((name, tuple(T.lift(s) for s in shape), elem, after_loop))
        return g

    def invariant(self, shape, elem, written=None, prefer=False):
        """value of an array that a loop changes at the start of iteration k: elem(top, k, *index);
        with `written` only where written(k, *index) holds, elsewhere as before the loop.
        prefer: try it before the loop rules"""
        self.invariants.append((tuple(T.lift(s) for s in shape), elem, written, prefer))

    def while_loop(self, params, cells, exits=()):
        """state of a while loop at the start of an iteration.
        params: (name, sort, initial value, step(th) or None, constraint(th) or None, becomes a float);
        cells: ("bool", cond(th), label) or ("array", shape, elem(th, *idx), needed(th) or None, label);
        exits: (label, condition(th)) proved when the loop is left"""
        self.while_rule = ([tuple(p) for p in params], [tuple(c) for c in cells], list(exits))

    def while_replay(self, cond, path, name):
        """replay of the loop that while_loop describes: while cond(th), starting with the initial values;
        what the function returns at `path` is the final value of the parameter (real executions only)"""
        self.replay = (cond, tuple(path), name)

    def result(self, path):
        """the scalar the function returns at `path`, for use in other postconditions: call it there"""
        path = tuple(path)
        self.results[path] = None
        return lambda: self.results[path]

    def draws(self, name, shape, dist="normal01", mean=None, cov=None, gen=None):
        """the next random numbers the function requests: standard normal or uniform numbers, or
        rows of a multivariate normal sample with this mean and covariance.  The contract is
        about what the function does with them; that they are well distributed is assumed."""
        if gen is None and dist == "uniform01":
            gen = lambda nrng, dims, env: nrng.uniform(size=dims)
        a = self.arr(name, shape, gen=gen)
        self.draw_plan.append((name, dist, a.shape, mean, cov))
        return a

    def dia(self, data, offsets, shape):
        return DiaIn(data, offsets, shape)

    def assume(self, *cs):
        for c in cs:
            self.hyps.append(c)

    def call(self, *args, **kw):
        self.args, self.kw = list(args), dict(kw)

    # -- postconditions
    def ret_array(self, path, shape, elem, dtype=None, label=None, rtol=None, period=None):
        """result at `path` is an array of this shape with these elements"""
        if self.integers and dtype == "f":
            dtype = "fi"           # nothing is truncated: the elements are compared
        self.posts.append(Post("array", label or "result%s" % (path,), path=path, shape=tuple(T.lift(s) for s in shape), elem=elem, dtype=dtype, rtol=rtol, period=period))

    def ret_scalar(self, path, value, label=None, rtol=None):
        self.posts.append(Post("array", label or "result%s" % (path,), path=path, shape=(), elem=lambda: value, dtype=None, rtol=rtol))

    def ret_value(self, path, value, label=None):
        self.posts.append(Post("value", label or "result%s" % (path,), path=path, value=value))

    def ret_len(self, n, path=(), label=None):
        self.posts.append(Post("len", label or "length of result%s" % (path,), path=path, n=n))

    def ret_rel(self, label, path, fn, n=2):
        """relation between elements of the result array: fn(elem, *idx) -> (lhs, rhs)"""
        self.posts.append(Post("rel", label, path=path, fn=fn, n=n))

    def raises(self, names, cond=TRUE):
        if isinstance(names, str):
            names = [names]
        self.exc.append((names, cond))


# ------------------------------------------------------------------ symbolic side
def to_sym(x, B_, interp):
    if isinstance(x, In):
        return x.sym()
    if isinstance(x, DiaIn):
        return Dia(x.shape, x.data.sym(), x.offsets)
    if isinstance(x, Scal):
        return Sc({"i": "int", "f": "real"}[x.kind], x.e)
    if isinstance(x, E):
        if x.sort == "bool":
            return V.mkbool(x)
        return V.mkint(x) if x.sort == "int" else Sc("real", x)
    if isinstance(x, float):
        return Sc("real", T.const(_frac(x)))
    if isinstance(x, list):
        from .interp import PList
        return PList(to_sym(y, B_, interp) for y in x)
    if isinstance(x, tuple):
        return tuple(to_sym(y, B_, interp) for y in x)
    if isinstance(x, dict):
        return {k: to_sym(y, B_, interp) for k, y in x.items()}
    if isinstance(x, PyFunc):
        mod, _, n = x.name.partition(":")
        m = interp.load_module(mod)
        return m.scope.vars[n]
    return x


def _frac(x):
    from fractions import Fraction
    f = Fraction(x).limit_denominator(10 ** 6)
    return f if abs(float(f) - x) < 1e-12 * max(1, abs(x)) else Fraction(x)


class PyFunc:
    def __init__(self, name):
        self.name = name


def at_path(v, path):
    for p in path:
        if isinstance(v, (tuple, list)):
            if not isinstance(p, int) or p >= len(v):
                raise KeyError(p)
            v = v[p]
        elif isinstance(v, dict):
            v = v[p]
        else:
            raise KeyError(p)
    return v


class Ob:
    """one proof obligation"""

    def __init__(self, form, label, status, detail="", t=0.0, backend=""):
        self.form, self.label, self.status, self.detail, self.t, self.backend = form, label, status, detail, t, backend

    def js(self):
        return {"contract": self.form, "obligation": self.label, "status": self.status, "detail": self.detail[:4000], "seconds": round(self.t, 3), "backend": self.backend}


def sym_array(v, interp):
    """value -> (shape, elem, dtype) or None"""
    from . import npmodel
    if isinstance(v, Sparse):
        v = v.dense
    if isinstance(v, Dia):
        v = npmodel.dia_dense(interp, v)
    if isinstance(v, Arr):
        g = v.getter()
        return v.shape, g, v.dtype
    if V.is_scalar(v):
        e = V.sc_elem(v)
        return (), (lambda: e), V.dtype_of(v)
    if isinstance(v, list):
        if getattr(v, "sym", None) is not None:
            return sym_array(v.sym, interp)
        if all(V.is_scalar(x) for x in v):
            es = [V.sc_elem(x) for x in v]

            def f(i):
                k = T.intval(i)
                if k is not None and 0 <= k < len(es):
                    return es[k]
                r = es[-1] if es else ZERO
                for j in range(len(es) - 2, -1, -1):
                    r = V.eite(T.eq(i, T.const(j)), es[j], r)
                return r
            return (T.const(len(es)),), f, V.promote(*([V.dtype_of(x) for x in v] or ["f"]))
        return None
    if isinstance(v, SymList):
        x = v.fn(T.fresh("l"))
        if V.is_scalar(x):
            return (v.n,), (lambda i: V.sc_elem(v.fn(i))), V.dtype_of(x)
        if isinstance(x, Arr):
            return (v.n,) + x.shape, (lambda i, *j: v.fn(i).elem(*j)), x.dtype
    return None


def num_elem(x):
    if isinstance(x, tuple):
        return x
    if x.sort == "bool":
        return T.ite(x, ONE, ZERO)
    return x


def verify_symbolic(con, repo, budget=120.0):
    """-> dict(obs=[Ob], paths, funcs, unsupported, models)"""
    from .interp import Interp
    t0 = time.time()
    interp = Interp(repo)
    obs = []
    res = {"contract": con.id, "obs": obs, "unsupported": None, "funcs": [], "libs": [], "paths": 0, "samples": [], "assumed": []}
    b = B(con.target)
    try:
        con.fn(b)
        mod, _, fname = con.target.partition(":")
        m = interp.load_module(mod)
        if m is None:
            raise Unsupported("module %s not found" % mod)
        cx = Cx(b.hyps)
        # vacuity: the precondition must be satisfiable
        mdl = prover.z3_model(list(b.hyps), [v[0] for v in b.ints]) if b.hyps else {}
        obs.append(Ob(con.id, "precondition is satisfiable", "proved" if (mdl is not None and not cx.infeasible()) else "failed", "", time.time() - t0, "z3"))
        f = m.scope.vars
        for a in fname.split("."):
            if isinstance(f, dict):
                if a not in f:
                    raise Unsupported("%s not found in %s" % (a, mod))
                f = f[a]
            else:
                f = interp.getattr(f, a)
        interp.contracts.update({k: h for k, h in b.contracts.items()})
        interp.cuts = b.cuts
        interp.base_hyps = tuple(b.hyps)
        interp.invariants = b.invariants
        interp.while_rule = b.while_rule
        inputs = {}

        def thunk():
            interp.random_trace, interp.random_peeled, interp.loop_exits = [], [], []
            interp.draw_plan = b.draw_plan
            inputs.clear()

            def conv(x):
                v = to_sym(x, b, interp)
                collect(v, inputs)
                return v
            args = [conv(a) for a in b.args]
            kw = {k: conv(a) for k, a in b.kw.items()}
            r = interp.call(f, args, kw)
            frame = [(s.origin, s.written) for s in inputs.values()]
            tr = Trace(interp.random_trace)
            tr.peeled = list(interp.random_peeled)
            return (r, frame, tr, list(interp.loop_exits))
        paths = interp.explore(thunk, cx)
        res["paths"] = len(paths)
        res["funcs"] = sorted(k for k in interp.called if k)
        res["libs"] = sorted(interp.libcalls)
        if not paths:
            obs.append(Ob(con.id, "at least one feasible path", "failed", "no feasible path"))
        for pi, (pcx, kind, val, p) in enumerate(paths):
            if pcx.infeasible():
                continue
            tag = "" if len(paths) == 1 else " (path %d)" % pi
            smp = path_sample(b, pcx)
            if smp is not None:
                res["samples"].append(smp)
            if kind == "step":
                for label, l, r_, scx in val.obs:
                    t = time.time()
                    ok = scx.entails(l) if r_ is None else prover.prove_eq(l, r_, scx, budget=budget)[0] == "proved"
                    obs.append(Ob(con.id, label + tag, "proved" if ok else "failed", "" if ok else "not preserved: %s = %s under %s" % (T.show(l, 4)[:600], "" if r_ is None else T.show(r_, 4)[:600], show_hyps(scx)), time.time() - t, "polynomial normal form + z3"))
                continue
            if kind == "exc":
                check_exc(con, b, pcx, val, obs, tag)
                continue
            r, frame, trace, exits = val
            for label, cond in exits:
                t = time.time()
                ok = pcx.entails(cond)
                obs.append(Ob(con.id, label + tag, "proved" if ok else "failed", "" if ok else "not entailed by " + show_hyps(pcx), time.time() - t, "z3"))
            for names, cond in b.exc:
                t = time.time()
                ok = pcx.entails(T.not_(cond))
                obs.append(Ob(con.id, "raises %s when required%s" % ("/".join(names), tag), "proved" if ok else "failed", "" if ok else "a normal return is possible under: " + show_hyps(pcx), time.time() - t, "z3"))
            if b.frame:
                for origin, written in frame:
                    obs.append(Ob(con.id, "input %s is not modified%s" % (origin, tag), "failed" if written else "proved", "the function writes into its argument" if written else "", 0.0, "frame analysis"))
            check_draws(con, b, interp, pcx, obs, tag, budget, trace)
            for post in b.posts:
                check_post(con, b, interp, pcx, post, r, obs, tag, budget, trace)
    except Unsupported as ex:
        res["unsupported"] = "%s: %s (line %s)" % (type(ex).__name__, ex, interp.cur_line)
    except RecursionError as ex:
        res["unsupported"] = "recursion limit: %s" % ex
    except prover.Deadline:
        res["unsupported"] = "deadline"
    except Exception as ex:
        res["unsupported"] = "internal: %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    res["seconds"] = time.time() - t0
    res["solver"] = dict(prover.STATS.__dict__) if hasattr(prover, "STATS") else {}
    res["funcs"] = sorted(k for k in interp.called if k)
    res["loops"] = len(interp.loop_notes)
    return res


def collect(v, out):
    if isinstance(v, Arr):
        out[id(v.st)] = v.st
    elif isinstance(v, Dia):
        collect(v.data, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            collect(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            collect(x, out)


def show_hyps(cx):
    return "; ".join(T.show(h) for h in cx.hyps)[:1200]


def path_sample(b, cx):
    """small integer model of a path condition, used to direct concrete runs"""
    names = [v[0] for v in b.ints]
    if not names:
        return None
    vs = [T.var(n) for n in names]
    base = [h for h in cx.hyps]
    for bound in (6, 12, 40, 200, 1200):
        try:
            m = prover.z3_model(base + [T.le(v, T.const(bound)) for v in vs] + [T.ge(v, T.const(-bound)) for v in vs], names, timeout=1500)
        except Exception:
            m = None
        if m:
            try:
                return {n: int(m[n]) for n in names if n in m}
            except Exception:
                return None
    return None


def check_exc(con, b, pcx, ex, obs, tag):
    from .interp import exc_isa
    t = time.time()
    for names, cond in b.exc:
        if any(exc_isa(ex.name, n) for n in names):
            ok = pcx.entails(cond)
            obs.append(Ob(con.id, "raises %s only when required%s" % (ex.name, tag), "proved" if ok else "failed", "" if ok else "raised under: " + show_hyps(pcx), time.time() - t, "z3"))
            return
    obs.append(Ob(con.id, "does not raise%s" % tag, "failed", "%s(%s) is raised under: %s" % (ex.name, ex.msg, show_hyps(pcx)), time.time() - t, "z3"))


class Trace(list):
    """requests for random numbers in the order they are made"""
    peeled = ()


def check_draws(con, b, interp, pcx, obs, tag, budget, trace):
    """the parameters of the distributions drawn from"""
    if not b.draw_plan:
        return
    ok = len(trace) == len(b.draw_plan)
    obs.append(Ob(con.id, "the random numbers requested are the ones described" + tag, "proved" if ok else "failed", "" if ok else "%d requests instead of %d" % (len(trace), len(b.draw_plan)), 0.0, "trace"))
    plan = {d[0]: d for d in b.draw_plan}
    pairs = list(zip(b.draw_plan, trace)) + [(plan[e[3]], e) for e in getattr(trace, "peeled", ()) if e[3] in plan]
    for (name, dist, shape, mean, cov), ev in pairs:
        if dist == "mvn":
            m, c = ev[2]
            n = shape[-1]
            check_post(con, b, interp, pcx, Post("array", "mean of the distribution %s is drawn from" % name, path=(), shape=(n,), elem=mean, dtype=None), m, obs, tag, budget, trace)
            check_post(con, b, interp, pcx, Post("array", "covariance of the distribution %s is drawn from" % name, path=(), shape=(n, n), elem=cov, dtype=None), c, obs, tag, budget, trace)


def check_post(con, b, interp, pcx, post, r, obs, tag, budget, trace):
    t = time.time()

    def add(label, status, detail="", backend="polynomial normal form + z3"):
        nonlocal t
        obs.append(Ob(con.id, label + tag, status, detail, time.time() - t, backend))
        t = time.time()
    interp.path = type(interp.path)(pcx, [])
    for path in b.results:
        try:
            x = at_path(r, path)
        except (KeyError, IndexError, TypeError):
            x = None
        if x is None or not V.is_scalar(x) or V.dtype_of(x) not in "if":
            add("result%s is a number" % (path,), "failed", "it is not")
            return
        b.results[path] = T.lift(V.num(V.sc_elem(x)))
    try:
        v = at_path(r, post.path)
    except (KeyError, IndexError, TypeError):
        add(post.label + ": exists", "failed", "the result has no component %s" % (post.path,))
        return
    if post.kind == "len":
        k = len(v) if isinstance(v, (tuple, list, dict)) else None
        add(post.label, "proved" if k == post.n else "failed", "" if k == post.n else "length %s" % k, "structure")
        return
    if post.kind == "value":
        if isinstance(v, Sc) and isinstance(post.value, (int, bool)):
            ok = pcx.entails(T.eq(num_elem(V.sc_elem(v)), T.const(int(post.value))))
        else:
            ok = type(v) is type(post.value) and v == post.value
        add(post.label, "proved" if ok else "failed", "" if ok else "value %r instead of %r" % (v, post.value), "structure")
        return
    a = sym_array(v, interp)
    if a is None:
        add(post.label + ": is an array", "failed", "not an array: %r" % (v,))
        return
    shape, elem, dtype = a
    if post.kind == "rel":
        idx = [T.fresh("i") for _ in range(post.n)]
        cxi = pcx.extend(*[T.and_(T.ge0(i), T.lt(i, shape[min(k, len(shape) - 1)])) for k, i in enumerate(idx)])
        lhs, rhs = post.fn(elem, *idx)
        prove_elem(add, post.label, lhs, rhs, cxi, budget)
        return
    if len(shape) != len(post.shape):
        add(post.label + ": shape", "failed", "the result has %d axes, %d expected" % (len(shape), len(post.shape)), "z3")
        return
    for ax, (s, w) in enumerate(zip(shape, post.shape)):
        if not pcx.entails(T.eq(s, w)):
            add(post.label + ": shape", "failed", "axis %d has length %s, %s expected; %s" % (ax, T.show(s), T.show(w), show_hyps(pcx)), "z3")
            return
    add(post.label + ": shape", "proved", backend="z3")
    if post.dtype:
        ok = dtype in post.dtype
        add(post.label + ": dtype", "proved" if ok else "failed", "" if ok else "dtype %s" % dtype, "structure")
    idx = [T.fresh("i") for _ in shape]
    cxi = pcx.extend(*[T.and_(T.ge0(i), T.lt(i, s)) for i, s in zip(idx, shape)])
    if cxi.infeasible():
        add(post.label + ": elements", "proved", "empty", "z3")
        return
    prove_elem(add, post.label + ": elements", elem(*idx), post.elem(*idx), cxi, budget)


def prove_elem(add, label, lhs, rhs, cx, budget):
    l, r = lhs, rhs
    if isinstance(l, tuple) or isinstance(r, tuple):
        l, r = V.cplx(num_elem(l) if not isinstance(l, tuple) else l), V.cplx(T.lift(r) if not isinstance(r, tuple) else r)
        pairs = [("real part", l[0], T.lift(r[0])), ("imaginary part", l[1], T.lift(r[1]))]
    else:
        pairs = [("", num_elem(l), num_elem(T.lift(r)))]
    for nm, x, y in pairs:
        try:
            st, info = prove_eq(x, y, cx, budget)
        except prover.Deadline:
            st, info = "unknown", "deadline"
        add(label + (" " + nm if nm else ""), "proved" if st == "proved" else "failed", "" if st == "proved" else "not proved: %s" % (str(info)[:2500],))


# ------------------------------------------------------------------ concrete side
class Reject(Exception):
    pass


def gen_env(b, rng, nrng, fixed=None):
    """random inputs satisfying the declarations; returns Env"""
    for _ in range(400):
        env = {}
        for name, lo, hi, gen in b.ints:
            if fixed and name in fixed:
                env[name] = fixed[name]
            elif callable(gen):
                env[name] = gen(rng)
            else:
                env[name] = rng.randint(gen[0], gen[1])
        for name, pos, gen in b.reals:
            env[name] = (gen(rng, env) if gen.__code__.co_argcount == 2 else gen(rng)) if gen else (rng.uniform(0.1, 2.0) if pos else rng.uniform(-2.0, 2.0))
        E_ = evalnum.Env(env)
        try:
            hy = [h for h in b.hyps if not _mentions_array(h)]
            if not all(bool(evalnum.evaluate(h, E_)) for h in hy):
                if fixed and not b.reals and all(n[0] in fixed for n in b.ints):
                    raise Reject()
                continue
            for a in b.arrs:
                dims = tuple(int(evalnum.evaluate(s, E_)) for s in a.shape)
                gen_arr(a, dims, rng, nrng, E_)
            if b.genv:
                b.genv(E_, rng, nrng)
            for nm, shape, elem in b.ghosts:
                E_.arrays[nm] = np.real(spec_array(shape, elem, E_))
            if not all(bool(evalnum.evaluate(h, E_)) for h in b.hyps):
                continue
        except (evalnum.EvalError, ValueError) as ex:
            raise
        return E_
    raise Reject()


def _mentions_array(h):
    return any(t.op == "sel" for t in all_subterms(h))


def all_subterms(e, seen=None):
    seen = seen if seen is not None else {}
    if e in seen:
        return seen
    seen[e] = True
    for c in T.children(e):
        all_subterms(c, seen)
    if e.op in T.BINDERS:
        all_subterms(e.args[3], seen)
    return seen


def gen_arr(a, dims, rng, nrng, E_):
    if a.gen:
        x = a.gen(nrng, dims, E_)
    elif a.dtype == "b":
        x = nrng.random(dims) < 0.6
    elif a.dtype == "i":
        x = nrng.integers(-4, 5, size=dims)
        if a.kind == "pos":
            x = np.abs(x) + 1
        elif a.kind == "nonneg":
            x = np.abs(x)
        elif a.kind == "psd":
            g = nrng.integers(-3, 4, size=(dims[0], dims[0] + 1))
            x = g @ g.T
    elif a.kind == "psd":
        g = nrng.normal(size=(dims[0], dims[0] + 1))
        x = g @ g.T
        x = (x + x.T) / 2
    elif a.kind == "pos":
        x = nrng.uniform(0.2, 2.0, size=dims)
    elif a.kind == "nonneg":
        x = nrng.uniform(0.0, 2.0, size=dims)
    elif a.kind == "sorted":
        x = np.cumsum(nrng.uniform(0.1, 1.0, size=dims)) + nrng.uniform(-2, 2)
    else:
        x = nrng.normal(size=dims)
        if a.opts.get("sym"):
            x = (x + x.T) / 2
    if a.dtype == "c":
        x = np.asarray(x)
        E_.arrays[a.name] = np.array(x.real)
        E_.arrays[a.name + ".im"] = np.array(x.imag if np.iscomplexobj(x) else nrng.normal(size=dims))
    else:
        E_.arrays[a.name] = np.asarray(x).astype({"b": int, "i": int, "f": float}[a.dtype])


def to_conc(x, env, rng):
    if isinstance(x, In):
        dims = [int(evalnum.evaluate(s, env)) for s in x.shape]
        lay = x.layout or rng.choice(["C", "C", "F", "view", "rev"])
        d = {"t": "nd", "dtype": x.dtype, "shape": dims, "layout": lay}
        if x.dtype == "c":
            d["re"] = env.arrays[x.name].ravel().tolist()
            d["im"] = env.arrays[x.name + ".im"].ravel().tolist()
        else:
            d["data"] = [float(y) for y in env.arrays[x.name].ravel().tolist()]
        return d
    if isinstance(x, DiaIn):
        return {"t": "dia", "data": to_conc(x.data, env, rng), "offsets": [int(evalnum.evaluate(T.lift(o), env)) for o in x.offsets], "shape": [int(evalnum.evaluate(s, env)) for s in x.shape]}
    if isinstance(x, Scal):
        v = evalnum.evaluate(x.e, env)
        return int(v) if x.kind == "i" else {"t": "float", "v": float(v)}
    if isinstance(x, E):
        v = evalnum.evaluate(x, env)
        if x.sort == "bool":
            return bool(v)
        return int(v) if x.sort == "int" else {"t": "float", "v": float(v)}
    if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, float):
        return {"t": "float", "v": x}
    if isinstance(x, tuple):
        return {"t": "tuple", "v": [to_conc(y, env, rng) for y in x]}
    if isinstance(x, list):
        return [to_conc(y, env, rng) for y in x]
    if isinstance(x, dict):
        return {"t": "dict", "v": {k: to_conc(y, env, rng) for k, y in x.items()}}
    if isinstance(x, PyFunc):
        return {"t": "func", "v": x.name}
    raise TypeError(x)


def dec_res(v):
    if isinstance(v, dict):
        t = v["t"]
        if t == "nd":
            if v["dtype"] == "c":
                return (np.array(v["re"]) + 1j * np.array(v["im"])).reshape(v["shape"])
            return np.array(v["data"], dtype={"f": float, "i": int, "b": bool}[v["dtype"]] if v["dtype"] == "f" else float).astype({"f": float, "i": int, "b": bool}[v["dtype"]]).reshape(v["shape"])
        if t in ("float", "npfloat", "npint"):
            return v["v"]
        if t == "cplx":
            return complex(v["re"], v["im"])
        if t == "sparse":
            return dec_res(v["dense"])
        if t == "tuple":
            return tuple(dec_res(x) for x in v["v"])
        if t == "dict":
            return {k: dec_res(x) for k, x in v["v"].items()}
        return v
    if isinstance(v, list):
        return [dec_res(x) for x in v]
    return v


def spec_array(shape, elem, env):
    dims = tuple(int(evalnum.evaluate(s, env)) for s in shape)
    probe = elem(*[T.fresh("o") for _ in dims])
    if isinstance(probe, tuple):
        re = evalnum.eval_array(shape, lambda *i: T.lift(elem(*i)[0]), env)
        im = evalnum.eval_array(shape, lambda *i: T.lift(elem(*i)[1]), env)
        return re + 1j * im
    return evalnum.eval_array(shape, lambda *i: num_elem(T.lift(elem(*i))), env)


def close(got, want, rtol):
    """None or the first deviation"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return "shape %s instead of %s" % (got.shape, want.shape)
    if got.size == 0:
        return None
    g, w = got.astype(complex), want.astype(complex)
    fin = np.abs(w[np.isfinite(w)])
    scale = max(1e-5, float(fin.max()) if fin.size else 1.0)
    ok = (np.abs(g - w) <= rtol * scale) | (np.isnan(g) & np.isnan(w)) | (g == w)
    if ok.all():
        return None
    i = np.unravel_index(int(np.argmax(~ok)), ok.shape)
    return "element %s is %r, required %r" % (tuple(int(k) for k in i), complex(g[i]) if np.iscomplexobj(got) else got[i].item(), complex(w[i]) if np.iscomplexobj(want) else want[i].item())


def check_concrete(b, env, r):
    """compare one real execution with the postconditions -> list of messages"""
    out = []
    must = [(names, cond) for names, cond in b.exc if bool(evalnum.evaluate(cond, env))]
    if "exc" in r:
        if r["exc"] == "Timeout":
            return ["did not terminate within the time limit"]
        for names, _ in must:
            if any(n in r.get("mro", []) or n == r["exc"] for n in names):
                break
        else:
            out.append("raised %s: %s" % (r["exc"], r["msg"]))
    else:
        for names, _ in must:
            out.append("returned normally, %s required" % "/".join(names))
        if not must:
            res = dec_res(r["ret"])
            for post in b.posts:
                m = check_post_concrete(b, post, res, env)
                if m:
                    out.append("%s: %s" % (post.label, m))
            if b.replay is not None and not out:
                cond, path, name = b.replay
                value = lambda e: evalnum.evaluate(T.lift(e), env)
                th = {p[0]: T.lift(value(p[2])) for p in b.while_rule[0]}
                while bool(value(cond(th))):
                    th = {p[0]: T.lift(value(p[3](th))) for p in b.while_rule[0]}
                got = res
                for k in path:
                    got = got[k]
                m = close(np.asarray(got), np.asarray(value(th[name])), b.rtol)
                if m:
                    out.append("final %s of the loop: %s" % (name, m))
    for (name, dist, shape, mean, cov), (mm, cc) in zip([d for d in b.draw_plan if d[1] == "mvn"], r.get("drawn", ())):
        m = close(dec_res(mm), spec_array(shape[-1:], mean, env), b.rtol)
        if m:
            out.append("mean of the distribution %s is drawn from: %s" % (name, m))
        m = close(dec_res(cc), spec_array((shape[-1], shape[-1]), cov, env), b.rtol)
        if m:
            out.append("covariance of the distribution %s is drawn from: %s" % (name, m))
    if b.frame and r.get("mutated"):
        out.append("input modified: %s" % ", ".join(r["mutated"]))
    if "again" in r and not out:
        a = r["again"]
        m = same_enc({k: v for k, v in r.items() if k in ("ret", "exc")}, {k: v for k, v in a.items() if k in ("ret", "exc")})
        if m:
            out.append("a repeated call with equal arguments gives a different result (%s)" % m)
    return out


def same_enc(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        if x.get("t") == "nd" and y.get("t") == "nd":
            a, c = dec_res(x), dec_res(y)
            return close(a, c, 1e-9)
        if x.get("t") in ("float", "npfloat") and y.get("t") == x.get("t"):
            return close(x["v"], y["v"], 1e-9)
        if set(x) != set(y):
            return "different outcome"
        for k in x:
            m = same_enc(x[k], y[k])
            if m:
                return m
        return None
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return "length"
        for p, q in zip(x, y):
            m = same_enc(p, q)
            if m:
                return m
        return None
    if isinstance(x, float) and isinstance(y, float):
        return close(x, y, 1e-9)
    return None if x == y else "%r / %r" % (x, y)


def check_post_concrete(b, post, res, env):
    for path in b.results:
        try:
            b.results[path] = T.const(float(at_path(res, path)))
        except (KeyError, IndexError, TypeError, ValueError):
            return "result%s is not a number" % (path,)
    try:
        v = at_path(res, post.path)
    except (KeyError, IndexError, TypeError):
        return "missing component %s" % (post.path,)
    if post.kind == "len":
        return None if hasattr(v, "__len__") and len(v) == post.n else "length differs"
    if post.kind == "value":
        return None if v == post.value or (post.value is None and v is None) else "value %r" % (v,)
    if v is None or isinstance(v, (dict, str)):
        return "not an array: %r" % (str(v)[:80],)
    try:
        got = np.array(v, dtype=complex) if np.iscomplexobj(v) else np.array(v)
        if got.dtype == object:
            return "ragged"
    except (ValueError, TypeError):
        return "not an array"
    if post.kind == "rel":
        dims = [got.shape[min(k, got.ndim - 1)] for k in range(post.n)]
        nm = "@res"
        T.declare(nm, got.ndim, "real")
        env2 = evalnum.Env(env.vars, dict(env.arrays, **{nm: got}), env.funcs)
        l = evalnum.eval_array(dims, lambda *i: T.lift(post.fn(lambda *j: T.sel(nm, *j), *i)[0]), env2)
        r = evalnum.eval_array(dims, lambda *i: T.lift(post.fn(lambda *j: T.sel(nm, *j), *i)[1]), env2)
        return close(l, r, post.rtol if getattr(post, "rtol", None) else b.rtol)
    want = spec_array(post.shape, post.elem, env)
    if post.dtype and got.size:
        k = {"f": "f", "i": "i", "b": "b", "c": "c"}.get(got.dtype.kind, "?")
        if k not in post.dtype:
            return "dtype %s" % got.dtype
    if getattr(post, "period", None) and np.shape(got) == np.shape(want):
        got = want + (got - want + post.period / 2) % post.period - post.period / 2
    return close(got, want, post.rtol or b.rtol)


# -- mathematics shared by the contracts and the library axioms
class _NoInterp:
    class path:
        @staticmethod
        def assume(c):
            pass


def roots(n, coef):
    """(number, real part, imaginary part) of the roots numpy.roots finds for these coefficients"""
    from . import npmodel, values as V
    r = npmodel.np_roots(_NoInterp, [V.mkarr((T.lift(n),), "f", lambda i: T.lift(coef(i)))], {})
    return r.shape[0], (lambda i: r.elem(T.lift(i))[0]), (lambda i: r.elem(T.lift(i))[1])


def lfilter(nb, b, na, a, x):
    """a[0] y[i] = sum_j b[j] x[i-j] - sum_{j>0} a[j] y[i-j], terms before the start being zero"""
    from . import npmodel
    l = lambda f: (lambda *i: T.lift(f(*i)))
    return npmodel.recursive_filter(T.lift(nb), l(b), T.lift(na), l(a), l(x))


def recseq(fn):
    from . import loops
    return loops.rec_seq(fn)


def opaque(name, shape, *args, **kw):
    """element function of an uninterpreted library function of arrays given as (shape, elem)"""
    from . import npmodel, values as V
    def arr(sh, g):
        sh = tuple(T.lift(s) for s in sh)
        if isinstance(g(*[T.var("@a%d" % j) for j in range(len(sh))]), tuple):
            return V.mkarr(sh, "c", lambda *i: tuple(T.lift(x) for x in g(*i)))
        return V.mkarr(sh, "f", lambda *i: T.lift(g(*i)))
    arrs = [arr(sh, g) for sh, g in args]
    r = npmodel.opaque_array(_NoInterp, name, arrs, tuple(T.lift(s) for s in shape), **kw)
    return lambda *i: r.elem(*[T.lift(k) for k in i])


def inverse(n, A):
    """elements of the inverse of the n x n matrix A"""
    from . import npmodel, values as V
    n = T.lift(n)
    r = npmodel.inverse(_NoInterp, V.mkarr((n, n), "f", lambda i, j: T.lift(A(i, j))))
    return lambda i, j: r(T.lift(i), T.lift(j))


def eigvals(n, A):
    """real parts of the eigenvalues of the n x n matrix A"""
    from . import npmodel, values as V
    n = T.lift(n)
    r = npmodel.eigvals(_NoInterp, V.mkarr((n, n), "f", lambda i, j: T.lift(A(i, j))))
    return lambda k: r.elem(T.lift(k))[0]


def lstsq(sx, X, sy, y):
    """the least-squares solution numpy.linalg.lstsq finds for X b = y"""
    e = opaque("lstsq", (sx[1],) + tuple(sy[1:]), (sx, X), (sy, y))
    return lambda *i: e(*[T.lift(k) for k in i])
