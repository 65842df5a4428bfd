"""Symbolic executor for the Python subset used by PyDynamic.

It parses the real source files of /repo on every run and executes function
bodies on symbolic inputs (symbolic array lengths included).  Paths are explored
by re-execution with a decision script; loops over symbolic ranges are replaced
by the closed form of their state recurrences (loop rules, see exec_for_sym).
"""
import ast
import itertools
import os
from fractions import Fraction

from . import terms as T
from .terms import E, const, ite, and_, or_, not_, ZERO, ONE, TRUE, FALSE, ge0, eq0, sub, add
from .prover import Cx, NTH, count_of
from . import prover
from . import evalnum
from .values import *
from . import values as V


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathLimit(Unsupported):
    pass


class InfeasiblePath(Exception):
    pass


class PoisonRead(Unsupported):
    pass


MISSING = object()


class PList(list):
    """a Python list; with `sym` set its content is that symbolic list, and treating it as the
    (empty) concrete list underneath is refused"""
    sym = None

    def _chk(self):
        if self.sym is not None:
            raise Unsupported("list of symbolic length in this position")

    def __iter__(self):
        self._chk()
        return list.__iter__(self)

    def __len__(self):
        self._chk()
        return list.__len__(self)

    def raw(self):
        return [x for x in list.__iter__(self)]

    def __bool__(self):
        self._chk()
        return list.__len__(self) > 0

    def __getitem__(self, k):
        self._chk()
        return list.__getitem__(self, k)


def has_int_sum(c):
    return any(t.op == "sum" and t.sort == "int" and not prover._is01(t.args[3]) for t in T.subterms(c))


class Poison:
    def __init__(self, why=""):
        self.why = why


class Path:
    def __init__(self, cx, decisions):
        self.cx = cx
        self.dec = decisions
        self.pos = 0
        self.alts = []
        self.notes = []
        self.req = set()

    def assume(self, c):
        if c is not TRUE:
            self.cx = self.cx.extend(c)


class LoopStep(Exception):
    """end of a path that checks one iteration of a while loop: the obligations it generated"""

    def __init__(self, obs):
        self.obs = obs


def while_invariant(I, st, sc, rule):
    """rule WHILE: the contract describes the variables the body assigns as functions of parameters.
    A variable is matched to a description by its initial value; then the state of an arbitrary
    iteration is assumed, and either the body is executed once (the path ends with the obligations
    that it leads to a state of the same form) or the loop is left.  False: rule not applicable."""
    from . import contract as C
    params, cells, exits = rule
    names = sorted({x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
    mod = [n for n in names if n in sc.vars and not isinstance(sc.vars[n], Poison)]
    init = {p[0]: T.lift(p[2]) for p in params}

    def eq_value(v, cell, th, cx):
        """difference between a value and its description as (label, lhs, rhs, cx) or None if the kinds differ"""
        kind = cell[0]
        if kind == "bool":
            c = cell[1](th)
            if v is True or v is False:
                return [(c if v else T.not_(c), None, cx)]
            if isinstance(v, Sc) and v.kind == "bool":
                f = T.lift(I.truth_E(v))
                return [(c, None, cx.extend(f)), (T.not_(c), None, cx.extend(T.not_(f)))]
            return None
        if kind == "param":
            if not V.is_scalar(v) or V.dtype_of(v) not in "if":
                return None
            return [(T.lift(V.num(V.sc_elem(v))), th[cell[1]], cx)]
        if not isinstance(v, Arr) or v.dtype not in "fi" or v.ndim != len(cell[1]) or not all(cx.entails(T.eq(a, T.lift(b))) for a, b in zip(v.shape, cell[1])):
            return None
        ix = [T.fresh("q") for _ in v.shape]
        cxi = cx.extend(*[h for i, n in zip(ix, v.shape) for h in (T.ge0(i), T.lt(i, n))])
        return [(T.lift(V.num(v.elem(*ix))), T.lift(cell[2](th, *ix)), cxi)]

    def holds(q):
        l, r, cx = q
        if r is None:
            return cx.entails(l)
        return prover.prove_eq(l, r, cx, budget=20)[0] == "proved"
    match = {}
    all_cells = [("param", p[0]) for p in params] + list(cells)
    cx = I.path.cx
    for n in mod:
        for c in all_cells:
            if c in match.values():
                continue
            q = eq_value(sc.vars[n], c, init, cx)
            if q is not None and all(holds(x) for x in q):
                match[n] = c
                break
    if not all(("param", p[0]) in match.values() for p in params):
        return False
    # state of an arbitrary iteration
    th = {p[0]: T.fresh(p[0], p[1]) for p in params}
    bools = [c for c in cells if c[0] == "bool"]
    truth = {id(c): I.branch(c[1](th)) for c in bools}
    for p in params:
        if p[4] is not None:
            I.path.assume(p[4](th))
    for n in mod:
        c, v = match.get(n), sc.vars[n]
        if c is None:
            if isinstance(v, Arr) and v.dtype in "fi":
                nm = "w~%s" % T.fresh("w").args[0]
                T.declare(nm, v.ndim, "real")
                sc.vars[n] = V.mkarr(v.shape, "f", lambda *i, nm=nm: T.sel(nm, *i))
            elif V.is_scalar(v) and V.dtype_of(v) in "if":
                sc.vars[n] = V.mkreal(T.fresh("w", "real"))
            else:
                raise Unsupported("while: variable %s" % n)
        elif c[0] == "bool":
            sc.vars[n] = truth[id(c)]
        elif c[0] == "param":
            sc.vars[n] = V.mkreal(th[c[1]]) if V.dtype_of(v) == "f" or [p for p in params if p[0] == c[1]][0][5] else V.mkint(th[c[1]])
        elif len(c) > 3 and c[3] is not None and not I.branch(c[3](th)):
            nm = "w~%s" % T.fresh("w").args[0]
            T.declare(nm, v.ndim, "real")
            sc.vars[n] = V.mkarr(v.shape, "f", lambda *i, nm=nm: T.sel(nm, *i))
        else:
            sc.vars[n] = V.mkarr(v.shape, "f", lambda *i, c=c: T.lift(c[2](th, *i)))
    for n in names:
        if n not in mod:
            sc.vars[n] = Poison("assigned in a while loop")
    before = Storage._n
    log = I.write_log, I.list_log, I.iter_log, I.slot_log
    I.write_log, I.list_log, I.iter_log, I.slot_log = [], [], [], []
    try:
        go = I.branch(I.truth_E(I.ev(st.test, sc)))
        if not go:
            I.loop_exits += [(label, f(th)) for label, f in exits]
            return True
        # the next value of a parameter is an arbitrary one once it is shown to be the described step
        nxt = {p[0]: T.lift(p[3](th)) for p in params if p[3] is not None}
        cut = {n: T.fresh(n, [p[1] for p in params if p[0] == n][0]) for n in nxt}
        I.scalar_cuts = [(cut[n], nxt[n]) for n in nxt]
        try:
            I.exec_block(st.body, sc)
        except (BreakEx, ContinueEx, ReturnEx):
            raise Unsupported("while: jump out of the body")
        finally:
            I.scalar_cuts = []
        if any(s.ident <= before for s in I.write_log):
            raise Unsupported("while: array modified in place")
        if I.list_log or I.iter_log or I.slot_log:
            raise Unsupported("while: list, iterator, attribute or dictionary modified")
    finally:
        I.write_log, I.list_log, I.iter_log, I.slot_log = log
    new = {}
    obs = []
    for n, c in match.items():
        if c[0] == "param":
            v = sc.vars[n]
            if not V.is_scalar(v) or V.dtype_of(v) not in "if":
                raise Unsupported("while: variable %s changes type" % n)
            new[c[1]] = T.lift(V.num(V.sc_elem(v)))
    for p in params:
        if p[3] is not None:
            obs.append(("loop step of %s" % p[0], new[p[0]], cut[p[0]] if new[p[0]] is cut[p[0]] else nxt[p[0]], I.path.cx))
    for n, c in match.items():
        if c[0] == "param" or len(c) > 3 and c[3] is not None and I.path.cx.entails(T.not_(c[3](new))):
            continue
        q = eq_value(sc.vars[n], c, new, I.path.cx)
        label = "loop state: " + (c[2] if c[0] == "bool" else c[4] if len(c) > 4 else n)
        obs += [(label, a, b, x) for a, b, x in q] if q is not None else [(label, T.FALSE, None, I.path.cx)]
    raise LoopStep(obs)


def counting_loop(st):
    """`while v < E: body` where body counts v up by one and changes nothing E depends on, as
    (v, E, `for t in range(v, E): v = t; body`)"""
    if hasattr(st, "_counting"):
        return st._counting
    st._counting = None
    c = st.test
    if st.orelse or not (isinstance(c, ast.Compare) and len(c.ops) == 1):
        return None
    l, op, r = c.left, c.ops[0], c.comparators[0]
    stored = {}
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Delete, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Continue)):
                return None
            if isinstance(x, ast.Attribute) and x.attr in ("append", "pop", "insert", "remove", "extend", "clear"):
                return None
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                stored[x.id] = stored.get(x.id, 0) + 1

    def steps(b, v):
        if isinstance(b, ast.AugAssign):
            d = (b.target, b.op, b.value)
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.value, ast.BinOp):
            x, y = b.value.left, b.value.right
            if isinstance(x, ast.Constant) and isinstance(b.value.op, ast.Add):
                x, y = y, x
            if not (isinstance(x, ast.Name) and x.id == v):
                return 0
            d = (b.targets[0], b.value.op, y)
        else:
            return 0
        if not (isinstance(d[0], ast.Name) and d[0].id == v and isinstance(d[2], ast.Constant) and type(d[2].value) is int and d[2].value == 1):
            return 0
        return 1 if isinstance(d[1], ast.Add) else -1 if isinstance(d[1], ast.Sub) else 0

    def fixed(e):
        if isinstance(e, ast.Constant):
            return type(e.value) is int
        if isinstance(e, ast.Name):
            return e.id not in stored
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)) and fixed(e.left) and fixed(e.right)
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name) and fixed(e.args[0])
        return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and isinstance(e.value.value, ast.Name) and fixed(e.value.value) and fixed(e.slice)

    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    for v, e, o in ((l, r, type(op)), (r, l, flip.get(type(op)))):
        # also v + 1 < E, v < E - 1 and the like: v on its own side only
        off = 0
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)) and isinstance(v.right, ast.Constant) and type(v.right.value) is int:
            off, v = (v.right.value if isinstance(v.op, ast.Add) else -v.right.value), v.left
        if not isinstance(v, ast.Name) or stored.get(v.id) != 1 or not fixed(e):
            continue
        d = sum(steps(b, v.id) for b in st.body)
        if (d, o) not in ((1, ast.Lt), (1, ast.LtE), (-1, ast.Gt), (-1, ast.GtE)):
            continue
        hi = e
        if o is ast.LtE:
            off -= 1
        elif o is ast.GtE:
            off += 1
        if off:
            hi = ast.BinOp(left=e, op=ast.Sub(), right=ast.Constant(value=off))
        t = "count of " + v.id
        args = [ast.Name(id=v.id, ctx=ast.Load()), hi] + ([ast.Constant(value=-1)] if d < 0 else [])
        loop = ast.For(target=ast.Name(id=t, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=args, keywords=[]),
                       body=[ast.Assign(targets=[ast.Name(id=v.id, ctx=ast.Store())], value=ast.Name(id=t, ctx=ast.Load()))] + list(st.body), orelse=[])
        ast.copy_location(loop, st)
        ast.copy_location(loop.body[0], st)
        ast.fix_missing_locations(loop)
        st._counting = (v.id, e, loop)
        break
    return st._counting


class Scope:
    __slots__ = ("vars", "parent", "module", "globals_decl", "nonlocals")

    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_decl = set()
        self.nonlocals = set()

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        raise KeyError(name)


class Func:
    def __init__(self, node, scope, module, defaults, kwdefaults, qual, cls=None):
        self.node = node
        self.scope = scope
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = cls

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, func, self_obj):
        self.func = func
        self.obj = self_obj


class UClass:
    def __init__(self, name, attrs, qual, bases=()):
        self.name = name
        self.attrs = attrs
        self.qual = qual
        self.bases = bases


class UObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Module:
    def __init__(self, name, scope=None):
        self.name = name
        self.scope = scope


class ModelNS:
    """namespace of library models, attribute access by dotted name"""

    def __init__(self, name):
        self.name = name


class ExcType:
    def __init__(self, name):
        self.name = name


EXC_PARENTS = {
    "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "LookupError": "Exception", "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception", "AssertionError": "Exception", "AttributeError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "MemoryError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OSError": "Exception",
    "IOError": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning", "Warning": "Exception",
    "PendingDeprecationWarning": "Warning", "FutureWarning": "Warning", "RuntimeWarning": "Warning",
    "StopIteration": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LinAlgError": "Exception", "OverflowError": "ArithmeticError",
}


def exc_isa(name, want):
    while name is not None:
        if name == want:
            return True
        if name == "OSError" and want == "IOError" or name == "IOError" and want == "OSError":
            return True
        name = EXC_PARENTS.get(name)
    return want in ("Exception", "BaseException") and name is None and False


class SymIter:
    """iteration of symbolic length n; item(k: E) -> value"""

    def __init__(self, n, item):
        self.n = T.lift(n)
        self.item = item


class SymRange:
    def __init__(self, lo, n, step=1):
        self.lo, self.n, self.step = T.lift(lo), T.lift(n), step


class IterObj:
    """result of iter(); pos is an int value"""

    def __init__(self, it):
        self.it = it  # list or SymIter
        self.pos = ZERO


def get_nth(n, maskf):
    """function symbol enumerating the true positions of a mask"""
    v = T.var("@m")
    key = (n, maskf(v))
    name = _nth_ids.get(key)
    if name is None:
        name = "nth#%d" % len(_nth_ids)
        _nth_ids[key] = name
        mf = lambda k, body=key[1], v=v: T.subst(body, {v: k})
        NTH[name] = (n, mf)
        evalnum.NTH[name] = (ZERO, n, mf)
    return name


_nth_ids = {}


def map_sel(e, m, memo=None):
    """replace sel(name, idx) by m[name](idx) everywhere (including under binders)"""
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    if not T.mentions(e, m):
        memo[e] = e
        return e
    if e.op == "sel" and e.args[0] in m:
        r = m[e.args[0]](*[map_sel(x, m, memo) for x in e.args[1:]])
    elif e.op in ("sum", "exists", "minr", "maxr"):
        h, lo, hi, body = e.args
        v = T.fresh("s")
        b = map_sel(T.subst_b(body, h, v), m)
        lo, hi = map_sel(lo, m, memo), map_sel(hi, m, memo)
        r = T.sum_over(lo, hi, v, b) if e.op == "sum" else T._rebind(e.op, lo, hi, v, b, e.sort)
    else:
        r = T.rebuild(e, [map_sel(c, m, memo) for c in T.children(e)])
    memo[e] = r
    return r


MAX_PATHS = 400


DRIVERS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers")


class Interp:
    def __init__(self, repo, cx=None):
        self.repo = repo
        self.modules = {}
        self.path = Path(cx or Cx(), [])
        self.contracts = {}
        self.cuts = []
        self.ascending = {}
        self.base_hyps = ()
        self.while_rule = None
        self.scalar_cuts = []
        self.loop_exits = []
        self.invariants = []
        self.frames = 0
        self.write_log = None
        self.list_log = None
        self.slot_log = None
        self.iter_log = None
        self.scope_log = None
        self.loading = 0
        self.loop_notes = []
        self.called = {}
        self.libcalls = {}
        self.random_trace = []
        self.random_peeled = []
        self.ghost = {}
        self.cur_line = None
        self.hard_steps = 0
        from . import npmodel
        self.np = npmodel
        self.lib = npmodel.LIB
        self.builtins = npmodel.make_builtins(self)

    # ------------------------------------------------------------ paths
    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        p = self.path
        d = p.cx.decide(c)
        if d is not None:
            return d
        if has_int_sum(c):
            c2 = prover.simp_bool(c, p.cx, {})
            if c2 is not c:
                return self.branch(c2)
        if p.pos < len(p.dec):
            b = p.dec[p.pos]
        else:
            b = True
            p.alts.append(p.dec[: p.pos] + [False])
            p.dec = p.dec + [True]
        p.pos += 1
        p.assume(c if b else not_(c))
        return b

    def entails(self, c):
        return self.path.cx.entails(c)

    def require(self, c, exc="IndexError", msg=None):
        """program-level check: raises on the paths where c is false"""
        n0 = self.path.pos
        if not self.branch(c):
            raise PyExc(exc, msg)
        if self.path.pos != n0:
            # run-time checks of the language: on a normal path they hold in every iteration
            self.path.req.update(c.args if c.op == "and" else (c,))

    def explore(self, thunk, cx, max_paths=MAX_PATHS, reset=None):
        """run thunk on every path; list of (cx, outcome, value, path)"""
        outer = self.path
        work = [[]]
        out = []
        try:
            while work:
                dec = work.pop()
                p = Path(cx, dec)
                self.path = p
                if reset:
                    reset()
                try:
                    v = thunk()
                    out.append((p.cx, "ret", v, p))
                except PyExc as ex:
                    out.append((p.cx, "exc", ex, p))
                except LoopStep as ex:
                    out.append((p.cx, "step", ex, p))
                except InfeasiblePath:
                    pass
                work.extend(p.alts)
                if len(out) > max_paths:
                    raise PathLimit("more than %d paths" % max_paths)
        finally:
            self.path = outer
        return out

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.replace(".", "/")
        f = os.path.join(self.repo, rel + ".py")
        pkg = False
        if not os.path.exists(f):
            f = os.path.join(self.repo, rel, "__init__.py")
            pkg = True
        if not os.path.exists(f):
            f, pkg = os.path.join(DRIVERS, rel + ".py"), False
        if not os.path.exists(f):
            return None
        with open(f, encoding="utf8") as fh:
            src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, f)
        sc = Scope(None, name)
        m = Module(name, sc)
        self.modules[name] = m
        sc.vars["__name__"] = name
        sc.module = name
        self.loading += 1
        oldpath = self.path
        self.path = Path(Cx(), [])
        try:
            for st in tree.body:
                try:
                    if pkg and isinstance(st, (ast.Import, ast.ImportFrom)):
                        self.exec_import_lazy(st, sc, name, pkg)
                    else:
                        self.exec_stmt(st, sc)
                except Unsupported as ex:
                    # names bound by an unsupported top-level statement are poisoned
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            sc.vars[n.id] = Poison("module level: %s" % ex)
        finally:
            self.loading -= 1
            self.path = oldpath
        return m

    def exec_import_lazy(self, st, sc, name, pkg):
        self.exec_import(st, sc, pkg=pkg)

    def resolve_rel(self, module, level, target, pkg=False):
        parts = module.split(".")
        f = os.path.join(self.repo, *parts)
        ispkg = os.path.isdir(f)
        if not ispkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        if target:
            parts = parts + target.split(".")
        return ".".join(parts)

    def import_name(self, full):
        top = full.split(".")[0]
        if os.path.exists(os.path.join(self.repo, top)) and top in ("PyDynamic",):
            return self.load_module(full)
        return ModelNS(full)

    def exec_import(self, st, sc, pkg=False):
        if isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    sc.vars[al.asname] = self.import_name(al.name)
                else:
                    sc.vars[al.name.split(".")[0]] = self.import_name(al.name.split(".")[0])
            return
        full = st.module or ""
        if st.level:
            mod = sc
            while mod.module is None:
                mod = mod.parent
            full = self.resolve_rel(mod.module, st.level, st.module)
        if full.split(".")[0] == "PyDynamic":
            m = self.load_module(full)
            if m is None:
                raise PyExc("ImportError", full)
            for al in st.names:
                if al.name == "*":
                    names = m.scope.vars.get("__all__")
                    names = list(names) if names else [n for n in m.scope.vars if not n.startswith("_")]
                    for n in names:
                        if n in m.scope.vars:
                            sc.vars[n] = m.scope.vars[n]
                    continue
                if al.name in m.scope.vars:
                    sc.vars[al.asname or al.name] = m.scope.vars[al.name]
                else:
                    sub_ = self.load_module(full + "." + al.name)
                    if sub_ is None:
                        raise PyExc("ImportError", al.name)
                    sc.vars[al.asname or al.name] = sub_
            return
        for al in st.names:
            if al.name == "*":
                raise Unsupported("star import from %s" % full)
            sc.vars[al.asname or al.name] = self.lib_attr(full + "." + al.name)

    def lib_attr(self, full):
        """model for a dotted library name"""
        full = self.np.ALIASES.get(full, full)
        if full in self.lib:
            f = self.lib[full]
            if callable(f) and not isinstance(f, (Builtin, PyType, ExcType)):
                return Builtin(full, f)
            return f
        if full in self.np.CONSTS:
            return self.np.CONSTS[full]
        return ModelNS(full)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, sc):
        for st in body:
            self.exec_stmt(st, sc)

    def exec_stmt(self, st, sc):
        self.hard_steps += 1
        if self.hard_steps % 64 == 0:
            prover.check_deadline()
        if hasattr(st, "lineno"):
            self.cur_line = st.lineno
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %s)" % (type(st).__name__, getattr(st, "lineno", "?")))
        return m(st, sc)

    def x_Expr(self, st, sc):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, sc)

    def x_Pass(self, st, sc):
        pass

    def x_Import(self, st, sc):
        self.exec_import(st, sc)

    def x_ImportFrom(self, st, sc):
        self.exec_import(st, sc)

    def x_Return(self, st, sc):
        raise ReturnEx(self.ev(st.value, sc) if st.value is not None else None)

    def x_Global(self, st, sc):
        for n in st.names:
            sc.globals_decl.add(n)

    def x_Nonlocal(self, st, sc):
        for n in st.names:
            sc.nonlocals.add(n)

    def x_Assign(self, st, sc):
        v = self.ev(st.value, sc)
        if self.cuts and type(v) is Arr:
            self.apply_cuts(v)
        if self.scalar_cuts and V.is_scalar(v) and V.dtype_of(v) in "if":
            for sym, e in self.scalar_cuts:
                if prover.prove_eq(T.lift(V.num(V.sc_elem(v))), e, self.path.cx, budget=20)[0] == "proved":
                    v = V.mkreal(sym) if V.dtype_of(v) == "f" else V.mkint(sym)
                    break
        for t in st.targets:
            self.assign(t, v, sc)

    def apply_cuts(self, a, loop=False):
        """ghost state: an array that provably equals a ghost of the contract is replaced by the ghost"""
        if a.st.origin is not None or a.dtype != "f" or tuple(a.spec) != tuple(("ax", i, ZERO, 1) for i in range(a.ndim)) or a.shape != a.st.shape:
            return
        for name, shape, elem, late in self.cuts:
            if late and not loop:
                continue
            if len(shape) != a.ndim or not all(self.entails(T.eq(x, y)) for x, y in zip(a.shape, shape)):
                continue
            ix = [T.fresh("q") for _ in shape]
            e = T.lift(V.num(a.elem(*ix)))
            if e.op == "sel" and e.args[0] == name:
                return
            cx = self.path.cx.extend(*[c for v, n in zip(ix, shape) for c in (T.ge(v, T.ZERO), T.lt(v, n))])
            if prover.prove_eq(T.sub(e, T.lift(elem(*ix))), T.ZERO, cx, budget=20)[0] == "proved":
                a.st.fn = lambda *i: T.sel(name, *i)
                return

    def x_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, sc), sc)

    def x_AugAssign(self, st, sc):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            v = self.ev(st.value, sc)
            r = self.inplace(op, cur, v)
            self.setname(t.id, r, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            cur = self.getattr(o, t.attr)
            r = self.inplace(op, cur, self.ev(st.value, sc))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            k = self.ev_index(t.slice, sc)
            cur = self.getitem(o, k)
            v = self.ev(st.value, sc)
            if isinstance(cur, Arr):
                r = self.inplace(op, cur, v) if self.is_view_of(cur, o) else self.np.binop(self, op, cur, v)
                if not self.is_view_of(cur, o):
                    self.setitem(o, k, r)
            else:
                r = self.np.binop(self, op, cur, v)
                self.setitem(o, k, r)
        else:
            raise Unsupported("augmented target")

    def is_view_of(self, a, o):
        return isinstance(o, Arr) and a.st is o.st

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.np.binop(self, op, cur, v)
            if not isinstance(r, Arr):
                r = self.np.asarray(self, r)
            if V.ORDER[r.dtype] > V.ORDER[cur.dtype]:
                raise PyExc("TypeError", "cannot cast ufunc output")
            if len(r.shape) != len(cur.shape):
                raise PyExc("ValueError", "non-broadcastable output")
            self.np.write_view(self, cur, r)
            return cur
        if isinstance(cur, PList) and op == "Add":
            items = self.iter_concrete(v)
            self.log_list(cur)
            cur.extend(items)
            return cur
        return self.np.binop(self, op, cur, v)

    def x_Assert(self, st, sc):
        c = self.truth(self.ev(st.test, sc))
        if not c:
            raise PyExc("AssertionError")

    def x_Raise(self, st, sc):
        if st.exc is None:
            raise PyExc("RuntimeError", "re-raise")
        v = self.ev(st.exc, sc)
        if isinstance(v, ExcType):
            raise PyExc(v.name)
        if isinstance(v, Opaque) and v.what == "exc":
            raise PyExc(v.data)
        raise Unsupported("raise %r" % (v,))

    def x_If(self, st, sc):
        if self.truth(self.ev(st.test, sc)):
            self.exec_block(st.body, sc)
        else:
            self.exec_block(st.orelse, sc)

    def x_FunctionDef(self, st, sc):
        self.setname(st.name, self.make_func(st, sc), sc)

    def make_func(self, st, sc):
        a = st.args
        defaults = [self.ev(d, sc) for d in a.defaults]
        kwd = [self.ev(d, sc) if d is not None else Ellipsis for d in a.kw_defaults]
        m = sc
        while m.module is None:
            m = m.parent
        name = getattr(st, "name", "<lambda>")
        f = Func(st, sc, m.module, defaults, kwd, m.module + "." + name)
        for d in getattr(st, "decorator_list", []):
            dv = self.ev(d, sc)
            if isinstance(dv, PyType) and dv.name in ("staticmethod", "classmethod", "property"):
                raise Unsupported("decorator")
            f = self.call(dv, [f], {})
        return f

    def x_ClassDef(self, st, sc):
        cs = Scope(sc)
        m = sc
        while m.module is None:
            m = m.parent
        qual = m.module + "." + st.name
        bases = []
        for b in st.bases:
            bv = self.ev(b, sc)
            bases.append(bv)
        for s in st.body:
            try:
                self.exec_stmt(s, cs)
            except Unsupported as ex:
                for n in ast.walk(s):
                    if isinstance(n, ast.FunctionDef):
                        cs.vars[n.name] = Poison(str(ex))
        for n, f in cs.vars.items():
            if isinstance(f, Func):
                f.qual = qual + "." + n
                f.cls = qual
        self.setname(st.name, UClass(st.name, cs.vars, qual, bases), sc)

    def x_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                k = self.ev_index(t.slice, sc)
                if isinstance(o, dict):
                    self.log_slot(o, o, self.hashable(k))
                    o.pop(self.hashable(k), None)
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def x_Break(self, st, sc):
        raise BreakEx()

    def x_Continue(self, st, sc):
        raise ContinueEx()

    def x_With(self, st, sc):
        for it in st.items:
            v = self.ev(it.context_expr, sc)
            if not isinstance(v, Opaque):
                raise Unsupported("with")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
        self.exec_block(st.body, sc)

    def x_Try(self, st, sc):
        try:
            self.exec_block(st.body, sc)
        except PyExc as ex:
            for h in st.handlers:
                if self.exc_match(ex, h.type, sc):
                    if h.name:
                        sc.vars[h.name] = Opaque("exc", ex.name)
                    try:
                        self.exec_block(h.body, sc)
                    except PyExc as ex2:
                        if ex2.msg == "re-raise":
                            ex2 = ex
                        self.exec_block(st.finalbody, sc)
                        raise ex2
                    self.exec_block(st.finalbody, sc)
                    return
            self.exec_block(st.finalbody, sc)
            raise
        else:
            self.exec_block(st.orelse, sc)
        self.exec_block(st.finalbody, sc)

    def exc_match(self, ex, typ, sc):
        if typ is None:
            return True
        v = self.ev(typ, sc)
        ts = v if isinstance(v, tuple) else (v,)
        for t in ts:
            if not isinstance(t, ExcType):
                raise Unsupported("except clause")
            if exc_isa(ex.name, t.name) or t.name in ("Exception", "BaseException"):
                return True
        return False

    def x_While(self, st, sc):
        n = forks = 0
        if self.while_rule is None:
            loop = counting_loop(st)
            if loop is not None and not any(loop[0] in x.names for f in sc.vars.values() if isinstance(f, Func) for x in ast.walk(f.node) if isinstance(x, ast.Nonlocal)):
                vals = [sc.vars.get(loop[0]), self.ev(loop[1], sc)]
                if all(type(v) is int or isinstance(v, Sc) and v.kind == "int" for v in vals) and any(isinstance(v, Sc) for v in vals):
                    return self.exec_stmt(loop[2], sc)
        while True:
            c = self.ev(st.test, sc)
            if n == 0 and self.while_rule is not None:
                t = self.truth_E(c)
                if t is not False and t is not T.FALSE and (t is True or self.path.cx.decide(t) is not False):
                    if while_invariant(self, st, sc, self.while_rule):
                        break
            t = self.truth_E(c)
            if not isinstance(t, bool) and self.path.cx.decide(t) is None:
                # follow both cases for a few iterations
                forks += 1
                if forks > 3:
                    raise Unsupported("while with undecided condition")
                if not self.truth(c):
                    break
            elif not self.truth_decided(c, "while"):
                break
            n += 1
            if n > 300:
                raise Unsupported("while loop: more than 300 iterations")
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_block(st.orelse, sc)

    def truth_decided(self, v, what):
        c = self.truth_E(v)
        if isinstance(c, bool):
            return c
        d = self.path.cx.decide(c)
        if d is None:
            raise Unsupported("%s with undecided condition" % what)
        return d

    # ------------------------------------------------------------ assignment
    def setname(self, name, v, sc):
        if name in sc.globals_decl:
            if not self.loading:
                raise Unsupported("write to module-level name %s" % name)
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None and name not in s.vars:
                s = s.parent
            if s is None:
                raise Unsupported("nonlocal")
            if self.scope_log is not None:
                self.scope_log.add((id(s), name))
            s.vars[name] = v
            return
        sc.vars[name] = v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            k = self.ev_index(t.slice, sc)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star):
        items = self.iter_concrete(v, n if not any(star) else None)
        if any(star):
            i = star.index(True)
            after = n - i - 1
            if len(items) < n - 1:
                raise PyExc("ValueError", "not enough values to unpack")
            return items[:i] + [PList(items[i:len(items) - after])] + items[len(items) - after:]
        if len(items) != n:
            raise PyExc("ValueError", "unpack length")
        return items

    def iter_concrete(self, v, want=None):
        """list of items of an iterable with concrete length"""
        if isinstance(v, PList) and v.sym is not None:
            v = v.sym
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, dict):
            return [k for k in v]
        if isinstance(v, set):
            return list(v)
        if isinstance(v, IterObj):
            if isinstance(v.it, list):
                p = T.intval(v.pos)
                items = v.it[p:]
                v.pos = const(len(v.it))
                return items
            raise Unsupported("iterator of symbolic length")
        it = self.get_iter(v)
        if isinstance(it, list):
            return it
        n = T.intval(it.n)
        if n is None and want is not None:
            if self.branch(T.eq(it.n, const(want))):
                n = want
            else:
                raise PyExc("ValueError", "unpack length")
        if n is None:
            # is it a constant under the path condition?
            for c in range(0, 9):
                if self.entails(T.eq(it.n, const(c))):
                    n = c
                    break
        if n is None:
            raise Unsupported("iteration over symbolic length")
        return [it.item(const(i)) for i in range(n)]

    def get_iter(self, v):
        """-> python list or SymIter"""
        if isinstance(v, PList) and v.sym is not None:
            v = v.sym
        if isinstance(v, (list, tuple, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, SymIter):
            return v
        if isinstance(v, SymRange):
            n = T.intval(v.n)
            if n is not None and n <= 128:
                return [mkint(T.add(v.lo, const(i * v.step))) for i in range(n)]
            return SymIter(v.n, lambda k: mkint(T.add(v.lo, T.scale(v.step, k))))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc("TypeError", "iteration over a 0-d array")
            n = T.intval(v.shape[0])
            if n is not None and n <= 128:
                return [self.np.getitem(self, v, const_key(i)) for i in range(n)]
            return SymIter(v.shape[0], lambda k: self.np.getitem_nocheck(self, v, k))
        if isinstance(v, SymList):
            n = T.intval(v.n)
            if n is not None and n <= 128:
                return [v.fn(const(i)) for i in range(n)]
            return SymIter(v.n, v.fn)
        if isinstance(v, IterObj):
            if isinstance(v.it, list):
                p = T.intval(v.pos)
                return v.it[p:]
            pos = v.pos
            return SymIter(sub(v.it.n, pos), lambda k, it=v.it: it.item(T.add(pos, k)))
        if isinstance(v, set):
            return sorted(v)
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------ for loops
    def x_For(self, st, sc):
        it = self.get_iter(self.ev(st.iter, sc))
        if isinstance(it, list):
            for x in it:
                self.assign(st.target, x, sc)
                try:
                    self.exec_block(st.body, sc)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(st.orelse, sc)
            return
        if st.orelse:
            raise Unsupported("for-else over symbolic range")
        from . import loops
        loops.exec_for_sym(self, st, it, sc)
        if self.cuts:
            for v in list(sc.vars.values()):
                if type(v) is Arr:
                    self.apply_cuts(v, True)

    # ------------------------------------------------------------ expressions
    def lookup(self, name, sc):
        try:
            v = sc.lookup(name)
        except KeyError:
            if name in self.builtins:
                return self.builtins[name]
            raise PyExc("NameError", name)
        if isinstance(v, Poison):
            raise PoisonRead("value of %s not available (%s)" % (name, v.why))
        return v

    def ev(self, e, sc):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            return mkreal(const(v)) if v == v and abs(v) != float("inf") else mkreal(T.lift(v))
        if isinstance(v, complex):
            return Sc("cplx", const(v.real), const(v.imag))
        if isinstance(v, (int, str, bool)) or v is None or v is Ellipsis:
            return v
        if isinstance(v, bytes):
            raise Unsupported("bytes")
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Tuple(self, e, sc):
        return tuple(self.ev_elts(e.elts, sc))

    def e_List(self, e, sc):
        return PList(self.ev_elts(e.elts, sc))

    def e_Set(self, e, sc):
        return set(self.ev_elts(e.elts, sc))

    def ev_elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_concrete(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                d[self.hashable(self.ev(k, sc))] = self.ev(v, sc)
        return d

    def hashable(self, k):
        if isinstance(k, Sc):
            v = T.cval(k.re) if k.im is None and k.kind != "bool" else None
            if v is not None and v.denominator == 1 and k.kind == "int":
                return int(v)
            return SymKey(k)
        if isinstance(k, (Arr, PList)):
            raise PyExc("TypeError", "unhashable")
        return k

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def e_IfExp(self, e, sc):
        t = self.ev(e.test, sc)
        c = self.truth_E(t)
        if not isinstance(c, bool) and self.path.cx.decide(c) is None:
            # try a value-level merge for pure scalar branches
            pass
        return self.ev(e.body, sc) if self.truth(t) else self.ev(e.orelse, sc)

    def e_JoinedStr(self, e, sc):
        out = []
        allc = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                try:
                    x = self.ev(v.value, sc)
                except Unsupported:
                    x = None
                    allc = False
                if isinstance(x, (int, str)):
                    out.append(str(x))
                else:
                    out.append("<?>")
                    allc = False
        return "".join(out)

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, sc)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        return self.np.unop(self, type(e.op).__name__, v)

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        return self.np.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, sc)
            c = self.np.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if res is None:
                res = c
            else:
                res = self.np.logic_and(self, res, c)
            t = self.truth_E(res)
            if t is False:
                return False
            left = right
        return res

    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_concrete(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, sc)
                if not isinstance(d, dict):
                    raise Unsupported("** of non-dict")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, sc)
        return self.call(f, args, kw)

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def e_Subscript(self, e, sc):
        return self.getitem(self.ev(e.value, sc), self.ev_index(e.slice, sc))

    def ev_index(self, s, sc):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, sc)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iter_concrete(self.ev(x.value, sc)))
                else:
                    out.append(self.ev_index(x, sc))
            return tuple(out)
        return self.ev(s, sc)

    def e_Slice(self, s, sc):
        return self.ev_index(s, sc)

    def e_Starred(self, e, sc):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def comp(self, gens, sc, emit, i=0):
        if i == len(gens):
            emit(sc)
            return
        g = gens[i]
        it = self.get_iter(self.ev(g.iter, sc))
        if not isinstance(it, list):
            raise SymComp(it)
        for x in it:
            self.assign(g.target, x, sc)
            if all(self.truth(self.ev(c, sc)) for c in g.ifs):
                self.comp(gens, sc, emit, i + 1)

    def e_ListComp(self, e, sc):
        out = PList()
        inner = Scope(sc)
        try:
            self.comp(e.generators, inner, lambda s: out.append(self.ev(e.elt, s)))
        except SymComp as ex:
            if len(e.generators) != 1 or e.generators[0].ifs:
                raise Unsupported("comprehension over symbolic range with filter")
            return self.sym_comp(e.elt, e.generators[0], ex.it, sc)
        return out

    def sym_comp(self, elt, gen, it, sc):
        """[f(k) for k in range(n)] with symbolic n -> SymList"""
        from . import loops
        return loops.sym_comprehension(self, elt, gen, it, sc)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, sc):
        r = self.e_ListComp(e, sc)
        return set(r)

    def e_DictComp(self, e, sc):
        out = {}
        inner = Scope(sc)

        def emit(s):
            out[self.hashable(self.ev(e.key, s))] = self.ev(e.value, s)

        self.comp(e.generators, inner, emit)
        return out

    # ------------------------------------------------------------ truth
    def truth_E(self, v):
        """python bool or bool E"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, PList) and v.sym is not None:
            return T.gt(v.sym.n, ZERO)
        if isinstance(v, (str, list, tuple, dict, set)):
            return len(v) > 0
        if isinstance(v, Sc):
            if v.kind == "bool":
                return v.re
            if v.kind == "cplx":
                return or_(T.ne(v.re, ZERO), T.ne(v.im, ZERO))
            c = T.ne(v.re, ZERO)
            return True if c is TRUE else False if c is FALSE else c
        if isinstance(v, Arr):
            size = self.np.size_E(v)
            if self.branch(T.eq(size, ONE)):
                x = v.elem(*[ZERO] * v.ndim)
                if isC(x):
                    return or_(T.ne(x[0], ZERO), T.ne(x[1], ZERO))
                return x if x.sort == "bool" else T.ne(x, ZERO)
            if self.branch(T.eq(size, ZERO)):
                return False
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, SymList):
            return T.gt(v.n, ZERO)
        if isinstance(v, (Func, Builtin, UObj, UClass, PyType, Module, ModelNS, Bound, Dia)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def truth(self, v):
        c = self.truth_E(v)
        if isinstance(c, bool):
            return c
        return self.branch(c)

    # ------------------------------------------------------------ attribute / item
    def getattr(self, o, name):
        if isinstance(o, Module):
            if name in o.scope.vars:
                v = o.scope.vars[name]
                if isinstance(v, Poison):
                    raise PoisonRead(name)
                return v
            m = self.load_module(o.name + "." + name)
            if m is not None:
                return m
            raise PyExc("AttributeError", name)
        if isinstance(o, ModelNS):
            return self.lib_attr(o.name + "." + name)
        if isinstance(o, UObj):
            if name in o.attrs:
                return o.attrs[name]
            v = self.class_attr(o.cls, name)
            if v is not None:
                return Bound(v, o) if isinstance(v, Func) else v
            raise PyExc("AttributeError", name)
        if isinstance(o, UClass):
            v = self.class_attr(o, name)
            if v is None:
                raise PyExc("AttributeError", name)
            return v
        return self.np.getattr_(self, o, name)

    def class_attr(self, c, name):
        if name in c.attrs:
            v = c.attrs[name]
            if isinstance(v, Poison):
                raise PoisonRead(name)
            return v
        for b in c.bases:
            if isinstance(b, UClass):
                v = self.class_attr(b, name)
                if v is not None:
                    return v
        return None

    def setattr(self, o, name, v):
        if isinstance(o, UObj):
            self.log_slot(o, o.attrs, name)
            o.attrs[name] = v
            return
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported("attribute assignment on %r" % (o,))

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.np.getitem(self, o, k)
        if isinstance(o, PList) and o.sym is not None:
            o = o.sym
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                f = lambda x: None if x is None else self.concrete_int(x)
                r = o[slice(f(k.start), f(k.stop), f(k.step))]
                return PList(r) if isinstance(o, list) else r
            i = self.concrete_int(k)
            try:
                return o[i]
            except IndexError:
                raise PyExc("IndexError")
        if isinstance(o, dict):
            kk = self.hashable(k)
            if kk in o:
                return o[kk]
            raise PyExc("KeyError", str(kk))
        if isinstance(o, SymList):
            if isinstance(k, slice):
                raise Unsupported("slice of symbolic list")
            i = self.np.index_E(self, k, o.n)
            return o.fn(i)
        if isinstance(o, Opaque) and o.what in ("r_", "c_"):
            return self.np.r_c_(self, o.what, k)
        if isinstance(o, Builtin) and o.name.startswith("typing"):
            return o
        return self.np.getitem_other(self, o, k)

    def concrete_int(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, int):
            return k
        if isinstance(k, Sc) and k.kind == "int":
            v = T.intval(k.re)
            if v is not None:
                return v
            for c in range(-4, 9):
                if self.entails(T.eq(k.re, const(c))):
                    return c
        raise Unsupported("symbolic index into python sequence")

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            self.np.setitem(self, o, k, v)
            return
        if isinstance(o, dict):
            if getattr(o, "frozen", False) and not self.loading:
                raise Unsupported("write to module-level dict")
            kk = self.hashable(k)
            self.log_slot(o, o, kk)
            o[kk] = v
            return
        if isinstance(o, PList):
            if o.sym is not None:
                i, old = self.np.index_E(self, k, o.sym.n), o.sym
                if getattr(o, "frozen", False) and not self.loading:
                    raise Unsupported("write to module-level list")
                if self.list_log is not None:
                    self.list_log.append(("set", o, i, v))

                def updated(j):
                    from .loops import merge
                    if i is j:
                        return v
                    return merge([(T.eq(j, i), v), (T.ne(j, i), old.fn(j))])
                o.sym = SymList(old.n, updated)
                return
            try:
                i = self.concrete_int(k)
            except Unsupported:
                raise
            self.log_list(o)
            o[i] = v
            return
        raise Unsupported("item assignment on %r" % (o,))

    def log_slot(self, owner, box, key):
        """an attribute or a dictionary entry is about to be written"""
        if self.slot_log is not None:
            self.slot_log.append((owner, box, key, box.get(key, MISSING)))
        elif isinstance(owner, dict) and getattr(owner, "frozen", False) and not self.loading:
            raise Unsupported("write to module-level dict")

    def log_list(self, l):
        if self.list_log is not None:
            self.list_log.append(("mut", l))
        if getattr(l, "frozen", False) and not self.loading:
            raise Unsupported("write to module-level list")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Builtin):
            self.libcalls[f.name] = self.libcalls.get(f.name, 0) + 1
            return f.f(self, args, kw)
        if isinstance(f, Partial):
            d = dict(f.kw)
            d.update(kw)
            return self.call(f.f, list(f.args) + list(args), d)
        if isinstance(f, PyType):
            if f.call is None:
                raise Unsupported("calling type %s" % f.name)
            return f.call(self, args, kw)
        if isinstance(f, ExcType):
            return Opaque("exc", f.name)
        if isinstance(f, UClass):
            o = UObj(f)
            init = self.class_attr(f, "__init__")
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
            return o
        if isinstance(f, UObj):
            c = self.class_attr(f.cls, "__call__")
            if c is not None:
                return self.call_func(c, [f] + list(args), kw)
        if isinstance(f, ModelNS):
            raise Unsupported("library function %s has no model" % f.name)
        if callable(getattr(f, "pycall", None)):
            return f.pycall(self, args, kw)
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyExc("TypeError", "too many positional arguments")
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        for n in pos[len(args):]:
            if n in kw:
                out[n] = kw.pop(n)
        for n in pos[: len(args)]:
            if n in kw:
                raise PyExc("TypeError", "multiple values for argument %s" % n)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyExc("TypeError", "missing argument %s" % n)
                out[n] = f.defaults[j]
        for n, d in zip([x.arg for x in a.kwonlyargs], f.kwdefaults):
            if n in kw:
                out[n] = kw.pop(n)
            elif d is Ellipsis:
                raise PyExc("TypeError", "missing keyword argument %s" % n)
            else:
                out[n] = d
        if kw:
            if a.kwarg is None:
                raise PyExc("TypeError", "unexpected keyword argument %s" % next(iter(kw)))
            out[a.kwarg.arg] = dict(kw)
        elif a.kwarg is not None:
            out[a.kwarg.arg] = {}
        return out

    def call_func(self, f, args, kw):
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        if f.qual in self.contracts:
            b = self.bind(f, args, kw)
            r = self.contracts[f.qual](self, f, b)
            if r is not NotImplemented:
                return r
        b = self.bind(f, args, kw)
        sc = Scope(f.scope)
        sc.vars.update(b)
        self.frames += 1
        if self.frames > 60:
            self.frames -= 1
            raise Unsupported("recursion depth")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sc)
            try:
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        raise Unsupported("generator function")
                self.exec_block(f.node.body, sc)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.frames -= 1


class SymComp(Exception):
    def __init__(self, it):
        self.it = it


class SymKey:
    """symbolic dictionary key (compared by term identity)"""

    def __init__(self, sc):
        self.sc = sc

    def __hash__(self):
        return hash(("symkey", self.sc.re.id))

    def __eq__(self, o):
        return isinstance(o, SymKey) and o.sc.re is self.sc.re


def const_key(i):
    return i
