"""Loop rules: a `for` loop over a symbolic range is replaced by the closed form
of its state recurrences.

Every cell the body modifies (scalars, arrays, list appends, iterator positions)
is replaced by an arbitrary value, the body is executed once on every path for an
arbitrary iteration k, and the resulting step relation is matched against the
rules below.  Each rule is an induction schema with side conditions (independence
of the step from other unsolved cells, uniqueness of the writing iteration); the
schemas are proved in /verif/lean/LoopRules.lean, the side conditions are checked
here on every run.  No rule applies -> Unsupported (the loop is outside the
verifier's reach), never a guess.
"""
import ast as _ast
from . import terms as T
from .terms import const, ite, and_, or_, not_, ZERO, ONE, TRUE, FALSE, ge0, sub, add, subst
from .prover import Cx, count_of, simp
from . import prover
from .values import *
from . import values as V
from .interp import MISSING


class LoopFail(Unsupported):
    pass


class NeedPeel(Exception):
    pass


_uid = [0]


def uid(p):
    _uid[0] += 1
    return "%s~%d" % (p, _uid[0])


def reachable(sc):
    """objects (by id) that exist when the loop is entered and that its body may modify"""
    seen = {}
    todo = []

    def scope(s, inner=True):
        while s is not None and id(s) not in seen:
            seen[id(s)] = s
            if s.module is None or inner:
                todo.extend(s.vars.values())
            s, inner = s.parent, False
    scope(sc)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        kind = type(x).__name__
        if isinstance(x, (list, tuple, set)):
            seen[id(x)] = x
            todo += x.raw() if hasattr(x, "raw") else list(x)
        elif isinstance(x, dict):
            seen[id(x)] = x
            todo += list(x.values())
        elif hasattr(x, "attrs") and hasattr(x, "cls"):
            seen[id(x)] = x
            todo += list(x.attrs.values())
        elif kind == "Bound":
            seen[id(x)] = x
            todo += [x.func, x.obj]
        elif kind == "Partial":
            seen[id(x)] = x
            todo += [x.f] + list(x.args) + list(x.kw.values())
        elif kind == "Func":
            seen[id(x)] = x
            scope(x.scope, False)
        elif kind in ("IterObj", "PList"):
            seen[id(x)] = x
    return seen


class Slot:
    """an attribute or a dictionary entry"""

    def __init__(self, owner, box, key):
        self.owner, self.box, self.key = owner, box, key

    def __eq__(self, o):
        return isinstance(o, Slot) and self.box is o.box and self.key == o.key

    def __hash__(self):
        return hash((id(self.box), self.key))

    def __repr__(self):
        return "slot %s" % (self.key,)


class Cell:
    def __init__(self, kind, ref, pre):
        self.kind = kind      # 'var', 'st', 'iter', 'list'
        self.ref = ref
        self.pre = pre
        self.sym = None       # havoc symbol(s)
        self.at = None        # k -> value at the start of iteration k
        self.vkind = None
        self.temp = False
        self.inv = False

    @property
    def solved(self):
        return self.at is not None


def exec_for_sym(I, st, it, sc, depth=0, own=frozenset()):
    """own: variables that the peeled first iteration introduced"""
    n = it.n
    if I.entails(T.le(n, ZERO)):
        return
    try:
        run_loop(I, st, it, sc, depth, own)
    except NeedPeel as ex:
        if depth >= 1:
            raise LoopFail("loop state does not settle after the first iteration (%s)" % ex)
        if not I.branch(T.gt(n, ZERO)):
            return
        known = set(sc.vars)
        I.assign(st.target, it.item(ZERO), sc)
        from .interp import ContinueEx, BreakEx
        t0 = len(I.random_trace)
        lv = getattr(I, "loop_vars", [])
        I.loop_vars = list(lv) + [const(depth)]
        try:
            I.exec_block(st.body, sc)
        except ContinueEx:
            pass
        except BreakEx:
            return
        finally:
            I.loop_vars = lv
        from .interp import SymIter
        # the draws of the first iteration are those of the loop at index 0
        first = I.random_trace[t0:]
        del I.random_trace[t0:]
        exec_for_sym(I, st, SymIter(sub(n, ONE), lambda k: it.item(add(k, ONE))), sc, depth + 1, frozenset(set(sc.vars) - known))
        rest = I.random_trace[t0:]
        if not rest:
            I.random_trace += [e + ((n,),) if len(e) == 5 else e for e in first]
        elif [(e[0], e[3]) for e in first] == [(e[0], e[3]) for e in rest]:
            I.random_peeled += first
        else:
            raise LoopFail("the first iteration draws other random numbers")


def run_loop(I, st, it, sc, off=0, own=frozenset()):
    from .interp import ContinueEx, BreakEx, ReturnEx, PList, IterObj, Poison, PyExc
    n = it.n
    k = T.fresh("k")
    base = I.path.cx
    krange = and_(ge0(k), T.lt(k, n))
    cxk = base.extend(krange)
    if cxk.infeasible():
        return
    pre_vars = dict(sc.vars)
    pre_ident = Storage._n
    pre_objs = reachable(sc)
    touched = {}      # storage -> original fn
    lists = {}        # id -> (list, content, sym)
    iters = {}        # id -> (obj, pos)
    saved = (I.write_log, I.list_log, I.iter_log, I.scope_log, I.slot_log, getattr(I, "loop_vars", []))
    slots = []        # writes of attributes and dictionary entries, undone in restore
    trace0 = len(I.random_trace)
    I.loop_vars = list(saved[5]) + [add(k, const(off))]
    cells = {}
    traces = []

    def restore():
        sc.vars.clear()
        sc.vars.update((x, v) for x, v in pre_vars.items() if not isinstance(x, Slot))
        while slots:
            _, box, key, old = slots.pop()
            if old is MISSING:
                box.pop(key, None)
            else:
                box[key] = old
        for s, f in touched.items():
            s.fn = f
        for l, c, sy in lists.values():
            l[:] = c
            l.sym = sy
        for o, p in iters.values():
            o.pos = p
        del I.random_trace[trace0:]

    def set_var(ref, v):
        if isinstance(ref, Slot):
            slots.append((ref.owner, ref.box, ref.key, ref.box.get(ref.key, MISSING)))
            ref.box[ref.key] = v
        else:
            sc.vars[ref] = v

    def set_state(kk):
        """cells in their value at iteration kk: closed form or havoc symbol"""
        for c in cells.values():
            if c.kind == "list":
                continue
            if c.kind == "listset":
                c.ref.sym = SymList(c.pre.n, _no_read)
                continue
            if c.temp:
                if c.ref in own or c.ref in pre_vars:
                    sc.vars[c.ref] = Poison("variable of the previous iteration")
                else:
                    sc.vars.pop(c.ref, None)
                continue
            v = c.at(kk) if c.solved else c.sym_value
            if c.kind == "var":
                set_var(c.ref, v)
            elif c.kind == "st":
                c.ref.fn = memo_fn(v)
            elif c.kind == "iter":
                c.ref.pos = v
            # list cells: appends are only logged

    def body():
        I.write_log, I.list_log, I.iter_log, I.scope_log, I.slot_log = [], [], [], set(), slots
        nslots = len(slots)
        orig_fns = {}
        sw = [c for c in cells.values() if c.vkind and c.vkind[0] == "switch"]
        if sw:
            first = I.branch(T.eq(k, ZERO))
            for c in sw:
                set_var(c.ref, c.pre if first else c.vkind[1])
        I.assign(st.target, it.item(k), sc)
        try:
            I.exec_block(st.body, sc)
        except ContinueEx:
            pass
        except BreakEx:
            raise LoopFail("break in a loop over a symbolic range")
        except ReturnEx:
            raise LoopFail("return in a loop over a symbolic range")
        if I.scope_log:
            raise LoopFail("nonlocal assignment in a symbolic loop")
        apps, sets = [], []
        for ev in I.list_log:
            if ev[0] == "append":
                if id(ev[1]) in pre_objs:
                    apps.append(ev)
            elif ev[0] == "set":
                if id(ev[1]) in pre_objs:
                    sets.append(ev)
            elif id(ev[1]) in pre_objs:
                raise LoopFail("container mutated in a symbolic loop")
        now = dict(sc.vars)
        for c in cells.values():
            if c.kind == "var" and isinstance(c.ref, Slot):
                now[c.ref] = c.ref.box.get(c.ref.key, MISSING)
        for owner, box, key, old in slots[nslots:]:
            if id(owner) in pre_objs:
                sl = Slot(owner, box, key)
                if sl not in pre_vars:
                    pre_vars[sl] = old
                now[sl] = box.get(key, MISSING)
                if old is MISSING or now[sl] is MISSING:
                    raise LoopFail("attribute or entry %r created or removed in a loop over a symbolic range" % (key,))
        snap = dict(
            vars=now,
            st={s: s.fn for s in I.write_log if s.ident <= pre_ident},
            it={o: o.pos for o in I.iter_log if id(o) in pre_objs},
            app=apps,
            set=sets,
        )
        traces.append(list(I.random_trace[trace0:]))
        return snap

    # storages/lists/iterators must be restorable before the first run: record lazily
    def guarded_body():
        return body()

    def reset():
        restore()
        set_state(k)

    # originals have to be captured before any write: hook through log lists
    class WLog(list):
        def append(self, s):
            list.append(self, s)

    def run():
        while True:
            del traces[:]
            cxe = cxk.extend(*[T.ge(c.sym, V.sc_elem(c.pre)) for c in cells.values() if c.inv and not c.solved])
            res = I.explore(guarded_body_hooked, cxe, reset=reset)
            # candidate invariants  sym >= initial value  have to be inductive
            bad = False
            for c in cells.values():
                if c.inv and not c.solved:
                    for pcx, kind, val, p in res:
                        if kind == "ret":
                            v = val["vars"].get(c.ref)
                            if not (is_scalar(v) and dtype_of(v) in ("i", "b") and pcx.entails(T.ge(V.num(sc_elem(v)), sc_elem(c.pre)))):
                                c.inv = False
                                bad = True
                                break
            if not bad:
                break
        out = []
        b = set(cxe.hyps)
        for pcx, kind, val, p in res:
            if kind == "step":
                raise LoopFail("while loop in a loop over a symbolic range")
            drop = p.req if kind == "ret" else ()
            c = and_(*[h for h in pcx.hyps if h not in b and h not in drop])
            out.append((c, kind, val))
        return out

    orig_log_write = I.np.log_write

    def guarded_body_hooked():
        return body()

    # capture originals: patch log_write during the loop
    def capturing(I_, s):
        if s.ident <= pre_ident and s not in touched:
            touched[s] = s.fn
        orig_log_write(I_, s)

    orig_log_list = None
    I.np.log_write = capturing
    pre_lists = []

    def scan_lists(sc_):
        s = sc_
        seen = set()

        def rec(x):
            if id(x) in seen:
                return
            seen.add(id(x))
            if isinstance(x, PList):
                lists[id(x)] = (x, x.raw(), x.sym)
                for y in x.raw():
                    rec(y)
            elif isinstance(x, (tuple,)):
                for y in x:
                    rec(y)
            elif isinstance(x, dict):
                for y in list(x.values()):
                    rec(y)
            elif isinstance(x, IterObj):
                iters[id(x)] = (x, x.pos)
        while s is not None:
            if s.module is None or s is sc_:
                for v in list(s.vars.values()):
                    rec(v)
            s = s.parent
    scan_lists(sc)
    targets = {x.id for x in _ast.walk(st.target) if isinstance(x, _ast.Name)}
    try:
        # -------- discovery (fixpoint over the set of modified cells)
        for rnd in range(6):
            res = run()
            normal = [r for r in res if r[1] == "ret"]
            new = False
            for c, _, snap in normal:
                for name, v in snap["vars"].items():
                    if ("var", name) in cells:
                        cell = cells["var", name]
                        if (not cell.solved or cell.vkind and cell.vkind[0] == "switch") and not cell.temp:
                            try:
                                new |= widen(cell, v)
                            except NeedPeel:
                                if name not in own and (not off or isinstance(name, Slot)):
                                    raise
                                cell.temp = new = True
                        continue
                    if name in pre_vars and pre_vars[name] is v:
                        continue
                    if name in pre_vars and same_value(pre_vars[name], v):
                        continue
                    cell = Cell("var", name, pre_vars.get(name))
                    cell.temp = name not in pre_vars or isinstance(pre_vars[name], Poison) or name in targets
                    if cell.temp and isinstance(name, Slot):
                        raise LoopFail("attribute or entry without a usable value before the loop")
                    cells["var", name] = cell
                    if not cell.temp:
                        try:
                            havoc_var(I, cell, v, cxk)
                        except NeedPeel:
                            if name not in own and (not off or isinstance(name, Slot)):
                                raise
                            cell.temp = True  # has to be assigned before it is read
                    new = True
                for s in snap["st"]:
                    if ("st", s) not in cells:
                        cell = Cell("st", s, touched[s])
                        nm = uid("A")
                        T.declare(nm, len(s.shape), "int" if s.dtype == "i" else "real")
                        T.declare(nm + "i", len(s.shape), "real")
                        cell.sym = nm
                        if s.dtype == "c":
                            cell.sym_value = lambda *i, nm=nm: (T.sel(nm, *i), T.sel(nm + "i", *i))
                        elif s.dtype == "b":
                            cell.sym_value = lambda *i, nm=nm: T.ne(T.sel(nm, *i), ZERO)
                        else:
                            cell.sym_value = lambda *i, nm=nm: T.sel(nm, *i)
                        cells["st", s] = cell
                        new = True
                for o in snap["it"]:
                    if ("iter", o) not in cells:
                        cell = Cell("iter", o, iters[id(o)][1])
                        cell.sym = T.var(uid("p"))
                        cell.sym_value = cell.sym
                        cells["iter", o] = cell
                        new = True
                for ev in snap["app"]:
                    if ("list", id(ev[1])) not in cells:
                        cell = Cell("list", ev[1], ev[1])
                        cell.at = lambda kk: None
                        cells["list", id(ev[1])] = cell
                for ev in snap["set"]:
                    if ("listset", id(ev[1])) not in cells:
                        cell = Cell("listset", ev[1], lists[id(ev[1])][2])
                        cell.at = lambda kk: None
                        cells["listset", id(ev[1])] = cell
                        new = True
            if not new:
                break
        else:
            raise LoopFail("set of modified cells does not settle")
        # -------- solve
        preference = True
        for rnd in range(8):
            todo = [c for c in cells.values() if not c.solved and not c.temp]
            if not todo:
                break
            progress = False
            havoc = {id(c): sym_names(c) for c in todo}
            for c in todo:
                if preference and reserved(I, c, base):
                    continue
                stale = set()
                for c2 in todo:
                    if c2 is not c:
                        stale |= havoc[id(c2)]
                if try_solve(I, c, normal, stale, k, n, cxk):
                    progress = True
            if not progress and try_invariants(I, todo, run, k, cxk, base):
                progress = True
            if not progress and preference and any(reserved(I, c, base) for c in todo):
                # the invariants do not apply: other rules for all
                preference, progress = False, True
            if not progress:
                if DEBUG:
                    for c in todo:
                        print("unsolved", c.kind, c.ref if c.kind == "var" else c.ref.shape, c.sym)
                raise LoopFail("no loop rule for %s" % ", ".join(sorted(str(c.ref if c.kind == "var" else c.kind) for c in todo)))
            res = run()
            normal = [r for r in res if r[1] == "ret"]
        # -------- exceptions
        excs = [r for r in res if r[1] == "exc"]
        # final state
        finals = {}
        restore()
        for key, c in cells.items():
            if c.kind == "list":
                finals[key] = list_final(I, c, normal, k, n, cxk, base)
            elif c.kind == "listset":
                finals[key] = list_set_final(c, normal, k, n, cxk, base)
            elif c.vkind and c.vkind[0] == "switch":
                finals[key] = c.vkind[1] if base.entails(T.gt(n, ZERO)) else Poison("variable set in a loop")
            elif not c.temp:
                finals[key] = c.at(n)
        temps = {}
        for key, c in cells.items():
            if c.temp:
                temps[c.ref] = [(r[0], r[2]["vars"].get(c.ref, _missing)) for r in normal]
        tr = traces[0] if traces else []
    finally:
        I.np.log_write = orig_log_write
        I.write_log, I.list_log, I.iter_log, I.scope_log, I.slot_log, I.loop_vars = saved
        restore()
    # ---- apply
    del I.random_trace[trace0:]
    for e in tr:
        I.random_trace.append(e + ((n,),) if len(e) == 5 else e)
    for c, _, ex in excs:
        cond = T.exists(ZERO, n, lambda j: subst(c, {k: j}))
        if I.branch(cond):
            raise ex
    for key, c in cells.items():
        if c.kind == "var" and not c.temp and isinstance(c.ref, Slot):
            I.log_slot(c.ref.owner, c.ref.box, c.ref.key)
            c.ref.box[c.ref.key] = finals[key]
        elif c.kind == "var" and not c.temp:
            sc.vars[c.ref] = finals[key]
        elif c.kind == "st":
            I.np.log_write(I, c.ref)
            c.ref.fn = memo_fn(finals[key])
        elif c.kind == "iter":
            c.ref.pos = finals[key]
            if I.iter_log is not None:
                I.iter_log.append(c.ref)
        elif c.kind == "listset":
            if I.list_log is not None:
                I.list_log.append(("mut", c.ref))
            c.ref.sym = finals[key]
        elif c.kind == "list":
            if I.list_log is not None and id(c.ref) not in ():
                I.list_log.append(("mut", c.ref))
            c.ref.sym = finals[key]
    I.loop_notes.append((getattr(st, "lineno", 0), len([c for c in cells.values() if not c.temp])))
    nonempty = None
    for name, vals in temps.items():
        if nonempty is None:
            nonempty = I.entails(T.gt(n, ZERO))
        v = None
        if nonempty and all(x is not _missing for _, x in vals):
            try:
                v = merge([(c, x) for c, x in vals])
                v = subst_value(v, {k: sub(n, ONE)})
            except Unsupported:
                v = None
        elif name in pre_vars and is_scalar(pre_vars[name]) and all(x is not _missing and is_scalar(x) for _, x in vals):
            try:
                v = merge([(c, x) for c, x in vals])
                v = merge([(T.gt(n, ZERO), subst_value(v, {k: sub(n, ONE)})), (T.le(n, ZERO), pre_vars[name])])
            except Unsupported:
                v = None
        sc.vars[name] = v if v is not None else Poison("loop temporary")


_missing = MISSING
import os as _os
DEBUG = _os.environ.get('VC_DEBUG')


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, str)):
        return a == b
    if isinstance(a, Sc):
        return a.kind == b.kind and a.re is b.re and a.im is b.im
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return False


def havoc_var(I, cell, post, cxk):
    pre = cell.pre
    if is_scalar(pre) and is_scalar(post):
        d = V.promote(dtype_of(pre), dtype_of(post))
        set_scalar_havoc(cell, d, (isinstance(post, Sc) and post.np))
        return
    if isinstance(pre, Arr) and isinstance(post, Arr):
        if len(pre.shape) != len(post.shape) or not all(x is y or cxk.entails(T.eq(x, y)) for x, y in zip(pre.shape, post.shape)):
            raise NeedPeel("array %s changes shape" % cell.ref)
        d = V.promote(pre.dtype, post.dtype)
        nm = uid("A")
        T.declare(nm, len(pre.shape), "int" if d == "i" else "real")
        T.declare(nm + "i", len(pre.shape), "real")
        cell.sym = nm
        cell.vkind = ("arr", d)
        f = (lambda *i: (T.sel(nm, *i), T.sel(nm + "i", *i))) if d == "c" else (lambda *i: T.ne(T.sel(nm, *i), ZERO)) if d == "b" else (lambda *i: T.sel(nm, *i))
        cell.sym_value = mkarr(pre.shape, d, f, cls=type(pre) if type(pre) is type(post) else Arr)
        return
    if is_scalar(pre) and isinstance(post, Arr):
        raise NeedPeel("%s becomes an array" % cell.ref)
    if pre is None and is_scalar(post) and dtype_of(post) in ("i", "f") and sc_elem(post).op == "const":
        # None on entry, this constant after every iteration
        cell.vkind = ("switch", post)
        cell.at = lambda kk: post
        return
    raise NeedPeel("%s changes type" % cell.ref)


def set_scalar_havoc(cell, d, npflag):
    cell.vkind = ("sc", d, npflag)
    if d == "c":
        cell.sym = (T.var(uid("s"), "real"), T.var(uid("s"), "real"))
        cell.sym_value = Sc("cplx", cell.sym[0], cell.sym[1], npflag)
    elif d == "b":
        cell.sym = T.var(uid("s"), "int")
        cell.sym_value = Sc("bool", T.ne(cell.sym, ZERO), np=npflag)
    else:
        cell.sym = T.var(uid("s"), "int" if d == "i" else "real")
        cell.inv = d == "i" and cell.kind == "var" and dtype_of(cell.pre) == "i"
        cell.sym_value = Sc("int" if d == "i" else "real", cell.sym, np=npflag)


def widen(cell, v):
    if cell.vkind and cell.vkind[0] == "switch" and not same_value(cell.vkind[1], v):
        raise NeedPeel(cell.ref)
    if cell.vkind and cell.vkind[0] == "sc":
        if not is_scalar(v):
            raise NeedPeel(cell.ref)
        d = V.promote(cell.vkind[1], dtype_of(v))
        if d != cell.vkind[1]:
            set_scalar_havoc(cell, d, cell.vkind[2])
            return True
        return False
    if cell.vkind and cell.vkind[0] == "arr":
        if not isinstance(v, Arr):
            raise NeedPeel(cell.ref)
        d = V.promote(cell.vkind[1], v.dtype)
        if d != cell.vkind[1]:
            raise NeedPeel("dtype of %s" % cell.ref)
    return False


def merge_E(cv):
    """value of the path that is taken; the conditions of the paths exclude each other"""
    def lits(c):
        return c.args if c.op == "and" else (c,)

    def rec(ps):
        if all(_vid(x) == _vid(ps[0][1]) for _, x in ps[1:]):
            return ps[0][1]
        best = None
        if len(ps) <= 40:
            for l in lits(ps[0][0]):
                nl = not_(l)
                yes = [p for p in ps if l in lits(p[0])]
                no = [p for p in ps if nl in lits(p[0])]
                if no and len(yes) + len(no) == len(ps):
                    score = (len({_vid(x) for _, x in yes}) + len({_vid(x) for _, x in no}), l.id)
                    if best is None or score < best[0]:
                        best = (score, l, yes, no)
        if best is None:
            r = ps[-1][1]
            for c, x in reversed(ps[:-1]):
                r = eite(c, x, r)
            return r
        return eite(best[1], rec(best[2]), rec(best[3]))
    return rec(list(cv))


def _vid(x):
    return tuple(y.id for y in x) if isinstance(x, tuple) else x.id


def merge(cv):
    vs = [v for _, v in cv]
    if all(same_value(vs[0], v) for v in vs[1:]):
        return vs[0]
    if all(is_scalar(v) for v in vs):
        d = V.promote(*[dtype_of(v) for v in vs])
        return mkelem(merge_E([(c, V.convert(sc_elem(v), dtype_of(v), d)) for c, v in cv]), d, np=any(isinstance(v, Sc) and v.np for v in vs))
    if all(isinstance(v, Arr) for v in vs):
        sh = vs[0].shape
        if any(len(v.shape) != len(sh) or any(x is not y for x, y in zip(v.shape, sh)) for v in vs):
            raise Unsupported("merging arrays of different shape")
        d = V.promote(*[v.dtype for v in vs])
        gs = [(c, v.getter(), v.dtype) for c, v in cv]
        return mkarr(sh, d, lambda *i: merge_E([(c, V.convert(g(*i), dt, d)) for c, g, dt in gs]))
    if all(isinstance(v, tuple) and len(v) == len(vs[0]) for v in vs):
        return tuple(merge([(c, v[j]) for c, v in cv]) for j in range(len(vs[0])))
    raise Unsupported("merging %r" % (vs,))


def subst_value(v, m):
    if isinstance(v, Sc):
        if v.im is not None:
            return Sc(v.kind, subst(v.re, m), subst(v.im, m), v.np)
        e = subst(v.re, m)
        return mkelem(e, dtype_of(v), np=v.np)
    if isinstance(v, Arr):
        g = v.getter()
        d = v.dtype

        def f(*i):
            # the index terms must not be captured by the substitution
            tmp = [T.fresh("t") for _ in i]
            x = g(*tmp)
            back = dict(zip(tmp, i))
            if isinstance(x, tuple):
                return tuple(subst(subst(y, m), back) for y in x)
            return subst(subst(x, m), back)
        return mkarr([subst(s, m) for s in v.shape], d, f, cls=type(v))
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if type(v).__name__ == "PList":
        r = type(v)(subst_value(x, m) for x in v) if v.sym is None else type(v)()
        if v.sym is not None:
            s = v.sym
            r.sym = SymList(subst(s.n, m), lambda i: subst_value(s.fn(i), m))
        return r
    if isinstance(v, dict):
        return {a: subst_value(b, m) for a, b in v.items()}
    if isinstance(v, Dia):
        return Dia([subst(s, m) for s in v.shape], subst_value(v.data, m), [subst(o, m) for o in v.offsets], v.dtype)
    return v


def sym_names(cell):
    if cell.solved or cell.sym is None:
        return set()
    s = cell.sym
    if isinstance(s, str):
        return {s, s + "i"}
    if isinstance(s, tuple):
        return set(x.args[0] for x in s)
    return {s.args[0]}


def mentions_any(e, names):
    es = e if isinstance(e, tuple) else (e,)
    for x in es:
        if any(v.args[0] in names for v in x.fv):
            return True
        if T.mentions(x, names):
            return True
    return False


def leaves(t, conds=()):
    """ite tree -> [(conds, leaf)]"""
    if t.op == "ite":
        c, a, b = t.args
        return leaves(a, conds + (c,)) + leaves(b, conds + (not_(c),))
    return [(conds, t)]


def try_solve(I, cell, normal, others, k, n, cxk):
    own = sym_names(cell)
    conds = [r[0] for r in normal]
    if cell.kind == "iter":
        post = merge_E([(c, r[2]["it"].get(cell.ref, cell.sym)) for c, r in zip(conds, normal)])
        return solve_scalar(cell, post, cell.sym, cell.pre, others, own, k, n, cxk, lambda e: e)
    if cell.kind == "var" and cell.vkind[0] == "sc":
        d, npf = cell.vkind[1], cell.vkind[2]
        vals = [(c, r[2]["vars"][cell.ref]) for c, r in zip(conds, normal)]
        if any(not is_scalar(v) for _, v in vals):
            raise NeedPeel(cell.ref)
        post = merge_E([(c, V.convert(sc_elem(v), dtype_of(v), d)) for c, v in vals])
        pre = V.convert(sc_elem(cell.pre), dtype_of(cell.pre), d)
        mk = lambda e: mkelem(e, d, np=npf)
        if d == "c":
            res = []
            for j in (0, 1):
                tmp = Cell("x", None, None)
                if not solve_scalar(tmp, post[j], cell.sym[j], pre[j], others, own, k, n, cxk, lambda e: e):
                    return False
                res.append(tmp.at)
            cell.at = lambda kk: mk((res[0](kk), res[1](kk)))
            return True
        if d == "b":
            # only last-value rule
            if mentions_any(post, others | own):
                return False
            cell.at = lambda kk: mk(ite(T.gt(kk, ZERO), subst(post, {k: sub(kk, ONE)}), pre))
            return True
        return solve_scalar(cell, post, cell.sym, pre, others, own, k, n, cxk, mk)
    # arrays
    if cell.kind == "st":
        s = cell.ref
        shape, d = s.shape, s.dtype
        fns = [(c, r[2]["st"].get(s, cell.sym_value)) for c, r in zip(conds, normal)]
        pre = cell.pre
        conv = lambda x, dt: x
    else:
        d = cell.vkind[1]
        shape = cell.pre.shape
        arrs = [r[2]["vars"][cell.ref] for r in normal]
        for a in arrs:
            if not isinstance(a, Arr) or len(a.shape) != len(shape):
                raise NeedPeel(cell.ref)
        fns = [(c, (lambda g, dt: (lambda *i: V.convert(g(*i), dt, d)))(a.getter(), a.dtype)) for c, a in zip(conds, arrs)]
        g0, d0 = cell.pre.getter(), cell.pre.dtype
        pre = lambda *i: V.convert(g0(*i), d0, d)
    iv = [T.fresh("i") for _ in shape]
    cxi = cxk.extend(and_(*[and_(ge0(v), T.lt(v, s)) for v, s in zip(iv, shape)]))
    post = merge_E([(c, f(*iv)) for c, f in fns])
    parts = []
    nm = cell.sym
    if d == "c":
        post = cplx(post)
        comps = [(post[0], nm, lambda *i: cplx(pre(*i))[0]), (post[1], nm + "i", lambda *i: cplx(pre(*i))[1])]
    elif d == "b":
        comps = [(ite(post, ONE, ZERO), nm, lambda *i: ite(pre(*i), ONE, ZERO))]
    else:
        comps = [(post, nm, pre)]
    ats = []
    for p, name, pr in comps:
        f = solve_array(I, p, name, pr, iv, others | (own - {name}), k, n, cxi)
        if f is None:
            return False
        ats.append(f)
    if d == "c":
        fn = lambda kk: (lambda *i: (ats[0](kk, i), ats[1](kk, i)))
    elif d == "b":
        fn = lambda kk: (lambda *i: T.eq(ats[0](kk, i), ONE))
    else:
        fn = lambda kk: (lambda *i: ats[0](kk, i))
    if cell.kind == "st":
        cell.at = fn
    else:
        cls = type(cell.sym_value)
        cell.at = lambda kk: mkarr(shape, d, fn(kk), cls=cls)
    return True


def reserved(I, c, base):
    """the contract has a preferred invariant for arrays like c"""
    if not (c.kind == "st" and c.ref.dtype == "f"):
        return False
    return any(inv[3] and len(inv[0]) == len(c.ref.shape) and all(base.entails(T.eq(x, y)) for x, y in zip(c.ref.shape, inv[0])) for inv in getattr(I, "invariants", ()))


def try_invariants(I, todo, run, k, cxk, base):
    """rule INVARIANT: the contract names the value of loop arrays at the start of iteration k.
    Cells are matched to invariants by shape and initial value; a matching is kept only if the
    body, started in the invariants at k, ends in them at k+1."""
    invs = list(getattr(I, "invariants", ()))
    arrs = [c for c in todo if c.kind == "st" and c.ref.dtype == "f" or c.kind == "var" and c.vkind and c.vkind[0] == "arr" and c.vkind[1] == "f"]
    if not invs or not arrs:
        return False
    plain = lambda seq, t: seq(t)
    step = lambda seq, t: seq.step(t)

    def dims(c):
        return c.ref.shape if c.kind == "st" else c.pre.shape

    def pre_of(c):
        return c.pre if c.kind == "st" else c.pre.getter()

    def ranged(c, cx):
        iv = [T.fresh("i") for _ in dims(c)]
        return iv, cx.extend(*[h for v, s in zip(iv, dims(c)) for h in (ge0(v), T.lt(v, s))])

    def value(c, inv, top, kk, i):
        v = T.lift(inv[1](top, kk, *i))
        return v if inv[2] is None else ite(inv[2](kk, *i), v, T.lift(V.num(pre_of(c)(*i))))

    def holds(c, elem, inv, kk, cx, top):
        iv, cxi = ranged(c, cx)
        r = prover.prove_eq(sub(T.lift(V.num(elem(*iv))), value(c, inv, top, kk, iv)), ZERO, cxi)
        if DEBUG and r[0] != "proved":
            print("invariant", invs.index(inv), "of", c.ref if c.kind == "var" else "storage", r)
        return r[0] == "proved"

    def fits(c, inv):
        return len(inv[0]) == len(dims(c)) and all(base.entails(T.eq(x, y)) for x, y in zip(dims(c), inv[0])) and holds(c, pre_of(c), inv, ZERO, base, plain)
    options = [(c, [v for v in invs if fits(c, v)]) for c in arrs]
    options = [(c, o) for c, o in options if o]

    def closed(c, inv):
        f = lambda kk: (lambda *i: value(c, inv, plain, kk, i))
        if c.kind == "st":
            return f
        cls, shape, d = type(c.sym_value), c.pre.shape, c.vkind[1]
        return lambda kk: mkarr(shape, d, f(kk), cls=cls)

    def preserved(c, inv, normal):
        for cond, _, snap in normal:
            elem = snap["st"].get(c.ref) if c.kind == "st" else None
            if c.kind == "var":
                v = snap["vars"].get(c.ref)
                if not isinstance(v, Arr) or v.dtype != "f" or len(v.shape) != len(inv[0]) or not all(cxk.entails(T.eq(x, y)) for x, y in zip(v.shape, inv[0])):
                    return False
                elem = v.getter()
            if elem is None or not holds(c, elem, inv, add(k, ONE), cxk.extend(cond), step):
                if DEBUG:
                    print("invariant not preserved", c.kind, c.ref if c.kind == "var" else "", invs.index(inv))
                return False
        return True

    def assignments(i, used):
        if i == len(options):
            yield []
            return
        c, o = options[i]
        for v in o:
            if id(v) not in used:
                for rest in assignments(i + 1, used | {id(v)}):
                    yield [(c, v)] + rest
    for m in assignments(0, frozenset()):
        for c, v in m:
            c.at = closed(c, v)
        try:
            res = run()
            normal = [r for r in res if r[1] == "ret"]
            if m and all(preserved(c, v, normal) for c, v in m):
                return True
        except LoopFail:
            pass
        for c, v in m:
            c.at = None
    return False


def solve_scalar(cell, post, sym, pre, others, own, k, n, cxk, mk):
    post = simp(post, cxk)
    if mentions_any(post, others):
        return False
    if not mentions_any(post, own):
        # rule LAST: the step does not depend on the previous value
        cell.at = lambda kk: mk(ite(T.gt(kk, ZERO), subst(post, {k: sub(kk, ONE)}), pre))
        return True
    ls = leaves(post)
    # rule SUM: v' = v + d(k)
    ok = True
    tree = None
    for cs, leaf in ls:
        if mentions_any(sub(leaf, sym), own) or any(mentions_any(c, own) for c in cs):
            ok = False
            break
    if ok:
        d = map_leaves(post, lambda l: sub(l, sym))
        cell.at = lambda kk: mk(add(pre, T.sum_(ZERO, kk, lambda j: subst(d, {k: j}))))
        return True
    # rule MAX/MIN: v' = ite(x > v, x, v)
    if post.op == "ite" and len(ls) == 2:
        xs = [l for _, l in ls if l is not sym]
        if len(xs) == 1 and not mentions_any(xs[0], own):
            x = xs[0]
            for kind, c in (("maxr", T.gt(x, sym)), ("maxr", T.ge(x, sym)), ("minr", T.lt(x, sym)), ("minr", T.le(x, sym))):
                if post is ite(c, x, sym) or post is ite(not_(c), sym, x):
                    def at(kk, kind=kind):
                        m = T.minmax(kind, ZERO, kk, lambda j: subst(x, {k: j}))
                        cmp = T.gt(m, pre) if kind == "maxr" else T.lt(m, pre)
                        return mk(ite(and_(T.gt(kk, ZERO), cmp), m, pre))
                    cell.at = at
                    return True
    return False


def map_leaves(t, f):
    if t.op == "ite":
        return ite(t.args[0], map_leaves(t.args[1], f), map_leaves(t.args[2], f))
    return f(t)


def conj_of(conds):
    out = []
    for c in conds:
        if c.op == "and":
            out += list(c.args)
        else:
            out.append(c)
    return out


def find_writer(I, conj, k, n, cx, iv=()):
    """an equality among conj that determines k -> (kappa, range fn, dropped atoms, extra)"""
    conj = sorted(conj, key=lambda c: not any(v in c.fv for v in iv))
    for c in conj:
        if c.op != "eq0":
            continue
        L = c.args[0]
        q0, d = T._linparts(L)
        if k in d and d[k].denominator == 1 and not any(k in t.fv for t in d if t is not k):
            q = d[k]
            rest = T.scale(-1, sub(L, T.scale(q, k)))   # q*k = rest
            if abs(q) == 1:
                kap = T.scale(q, rest)
                return kap, (lambda hi, kap=kap: and_(ge0(kap), T.lt(kap, hi))), [c], TRUE
            if rest.sort == "int":
                r = rest if q > 0 else T.neg(rest)
                qa = const(abs(q))
                kap = T.floordiv(r, qa)
                ex = T.eq0(T.mod(r, qa))
                return kap, (lambda hi, kap=kap: and_(ge0(kap), T.lt(kap, hi))), [c], ex
    for c in conj:
        if c.op != "eq0":
            continue
        L = c.args[0]
        q0, d = T._linparts(L)
        ks = [t for t in d if k in t.fv]
        if len(ks) == 1 and ks[0].op == "sum" and abs(d[ks[0]]) == 1:
            s = ks[0]
            h, lo, hi, body = s.args
            if lo is ZERO and hi is k and body.op == "ite" and (body.args[1], body.args[2]) in ((ONE, ZERO), (ZERO, ONE)):
                mc = body.args[0] if body.args[1] is ONE else not_(body.args[0])
                mf = lambda m, mc=mc, h=h: T.subst_b(mc, h, m)
                mk_ = mf(k)
                drop = [c] + [a for a in conj if a is mk_]
                if len(drop) == 1 and mk_.op == "and":
                    drop = [c] + [a for a in conj if a in mk_.args]
                if not cx.extend(and_(*conj)).entails(mk_):
                    continue
                from .interp import get_nth
                q = d[s]
                r = T.scale(-q, sub(L, T.scale(q, s)))
                nm = get_nth(n, mf)
                kap = T.fn(nm, r)
                return kap, (lambda hi, r=r, mf=mf: and_(ge0(r), T.lt(r, count_of(hi, mf)))), drop, TRUE
    return None


def prune(t, cx):
    """branches that cannot be reached removed"""
    if t.op != "ite":
        return t
    c, a, b = t.args
    ca, cb = cx.extend(c), cx.extend(not_(c))
    if cb.infeasible():
        return prune(a, cx)
    if ca.infeasible():
        return prune(b, cx)
    return ite(c, prune(a, ca), prune(b, cb))


def solve_array(I, post, name, pre, iv, others, k, n, cx):
    """-> at(kk, idx) or None"""
    post = prune(simp(post, cx), cx)
    if mentions_any(post, others):
        return None
    same = T.sel(name, *iv)
    if DEBUG:
        print("ARR", T.show(post)[:1500], others, [T.show(h) for h in cx.hyps])
    if not mentions_any(post, {name}):
        # rule LAST: every element is written in every iteration
        def at(kk, idx):
            m = dict(zip(iv, idx))
            return ite(T.gt(kk, ZERO), subst(subst(post, {k: sub(kk, ONE)}), m), pre(*idx))
        return at
    ls = leaves(post)
    writes = [(cs, l) for cs, l in ls if l is not same]
    names = {name}
    if not writes:
        return lambda kk, idx: pre(*idx)
    # writer determined by the index?
    ws = []
    for cs, l in writes:
        if any(mentions_any(c, names) for c in cs):
            ws = None
            break
        w = find_writer(I, conj_of(cs), k, n, cx, iv)
        if w is None:
            ws = None
            break
        ws.append(w)
    if ws and all(w[0] is ws[0][0] or cx.entails(T.eq(w[0], ws[0][0])) for w in ws):
        kap, rng, _, _ = ws[0]
        # other mentions of the array: previously written entries (recursion)?
        only_same = True
        for cs, l in writes:
            l2 = subst_term(subst(l, {k: kap}), same, ZERO)
            if mentions_any(l2, names):
                only_same = False
        conds_vals = []
        for (cs, l), w in zip(writes, ws):
            rest = [c for c in conj_of(cs) if c not in w[2]]
            conds_vals.append((and_(w[3], *[subst(c, {k: kap}) for c in rest]), l))
        if only_same:
            def at(kk, idx):
                m = dict(zip(iv, idx))
                p0 = pre(*idx)
                e = p0
                for c, l in reversed(conds_vals):
                    v = subst_term(subst(l, {k: kap}), same, T.var("@pre", "real"))
                    v = subst(v, m)
                    v = subst(v, {T.var("@pre", "real"): p0})
                    e = ite(subst(c, m), v, e)
                r = subst(rng(kk), m)
                return ite(r, e, p0)
            return at
        if len(iv) == 1:
            return solve_recursion(I, conds_vals, name, pre, iv, k, n, kap, rng, same, cx)
        return None
    # accumulation: every leaf is old + d
    ok = True
    for cs, l in ls:
        if any(mentions_any(c, names) for c in cs) or mentions_any(sub(l, same), names):
            ok = False
            break
    if ok:
        d = map_leaves(post, lambda l: sub(l, same))

        def at(kk, idx):
            m = dict(zip(iv, idx))
            dd = subst(d, m)
            return add(pre(*idx), T.sum_(ZERO, kk, lambda j: subst(dd, {k: j})))
        return at
    # last writer: conditions independent of k, values not reading the array
    if all(not mentions_any(l, names) and not any(k in c.fv or mentions_any(c, names) for c in cs) for cs, l in writes):
        def at(kk, idx):
            m = dict(zip(iv, idx))
            e = map_leaves(post, lambda l: pre(*iv) if l is same else l)
            e = subst(subst(e, {k: sub(kk, ONE)}), m)
            return ite(T.gt(kk, ZERO), e, pre(*idx))
        return at
    return None


def subst_term(e, what, by):
    if e is what:
        return by
    if what not in T.subterms(e):
        return e
    if e.op in ("sum", "exists", "minr", "maxr"):
        h, lo, hi, body = e.args
        v = T.fresh("z")
        b = subst_term(T.subst_b(body, h, v), what, by)
        lo, hi = subst_term(lo, what, by), subst_term(hi, what, by)
        return T.sum_over(lo, hi, v, b) if e.op == "sum" else T._rebind(e.op, lo, hi, v, b, e.sort)
    return T.rebuild(e, [subst_term(c, what, by) for c in T.children(e)])


RECDEF = {}


def solve_recursion(I, conds_vals, name, pre, iv, k, n, kap, rng, same, cx):
    """A[kappa^-1(k)] = f(k, A): fresh array R with its defining equation"""
    i = iv[0]
    from .interp import map_sel
    # iteration k writes exactly position i with kappa(i) = k
    v = T.var("@r")
    fvs = []
    for c, l in conds_vals:
        for x in list(c.fv) + list(l.fv):
            if "!" in x.args[0] and x not in (i, k) and x not in fvs:
                fvs.append(x)
    fvs.sort(key=lambda x: x.id)
    canon = {i: v}
    for j, x in enumerate(fvs):
        canon[x] = T.var("@rf%d" % j, x.sort)
    R = "rec"

    def build(Rname, idx, kk):
        """value at position idx given that iteration kappa(idx) wrote it"""
        m = {i: idx}
        kp = subst(kap, m)

        def rd(*jx):
            j = jx[0]
            kj = subst(kap, {i: j})
            done = and_(subst(rng(kp), {i: j}))
            return ite(done, T.sel(Rname, *(fvs + [j])), pre(j))
        e = pre(idx)
        for c, l in reversed(conds_vals):
            vv = subst(subst(l, {k: kap}), m)
            vv = map_sel(vv, {name: rd})
            e = ite(subst(c, m), vv, e)
        return e
    # canonical name from the defining term
    T.declare("@R", len(fvs) + 1, "real")
    key_t = subst(build("@R", i, n), canon)
    key = (key_t, subst(rng(n), canon))
    nm = RECDEF.get(key)
    if nm is None:
        nm = "rec#%d" % len(RECDEF)
        RECDEF[key] = nm
        T.declare(nm, len(fvs) + 1, "real", rec=True)
    REC_BODY[nm] = (fvs, i, lambda idx: build(nm, idx, n), rng)

    def at(kk, idx):
        return ite(subst(rng(kk), {i: idx[0]}), T.sel(nm, *(fvs + [idx[0]])), pre(idx[0]))
    return at


REC_BODY = {}


def unfold(e):
    """rec(..) outside of binders -> the right-hand side of its defining equation"""
    if e.op == "sel" and e.args[0] in REC_BODY:
        fvs, i, body, rng = REC_BODY[e.args[0]]
        a = list(e.args[1:])
        t = T.fresh("u")
        return subst(body(t), dict(list(zip(fvs, a[:-1])) + [(t, a[-1])]))
    if not any(x.op == "sel" and x.args[0] in REC_BODY for x in T.subterms(e)):
        return e
    if e.op in T.BINDERS:
        return e
    return T.rebuild(e, [unfold(c) for c in T.children(e)])


def or_paths(conds):
    """disjunction of path conditions; paths that differ in one decided test are joined"""
    sets = []
    for c in conds:
        l = frozenset(c.args) if c.op == "and" else frozenset([c])
        while True:
            for s in sets:
                d = s ^ l
                if len(d) == 2 and len(s) == len(l):
                    p, q = tuple(d)
                    if not_(p) is q or not_(q) is p:
                        sets.remove(s)
                        l = s & l
                        break
            else:
                break
        sets.append(l)
    return or_(*[and_(*s) for s in sets])


def list_final(I, cell, normal, k, n, cxk, base):
    l = cell.ref
    if l.sym is not None:
        raise LoopFail("append to a list of symbolic length in a symbolic loop")
    pre = list(l)
    if pre and not all(is_scalar(x) for x in pre):
        raise LoopFail("append to a non-empty list in a symbolic loop")

    def after(sl):
        """the elements before the loop come first"""
        if not pre:
            return sl
        p0 = const(len(pre))
        return SymList(add(p0, sl.n), lambda r: merge([(T.eq(r, const(j)), x) for j, x in enumerate(pre)] + [(T.ge(r, p0), sl.fn(sub(r, p0)))]))
    with_ = []
    without = []
    for c, _, snap in normal:
        evs = [e for e in snap["app"] if e[1] is l]
        if len(evs) > 1:
            raise LoopFail("several appends per iteration")
        (with_ if evs else without).append((c, evs[0][2] if evs else None))
    if not without:
        v = merge(with_)
        return after(SymList(n, lambda r: subst_value(v, {k: r})))
    from .interp import get_nth
    g = or_paths([c for c, _ in with_])
    mf = lambda j: subst(g, {k: j})
    v = merge(with_)
    cnt = count_of(n, mf)
    nm = get_nth(n, mf)
    return after(SymList(cnt, lambda r: subst_value(v, {k: T.fn(nm, r)})))


def _no_read(i):
    raise LoopFail("list read in the loop that assigns its items")


def list_set_final(cell, normal, k, n, cxk, base):
    """one assignment L[lo + k] = v in every iteration; L is not read in the loop"""
    if any(e[1] is cell.ref for _, _, snap in normal for e in snap["app"]):
        raise LoopFail("append to a list that is also assigned")
    lo, vals = None, []
    for c, _, snap in normal:
        evs = [e for e in snap["set"] if e[1] is cell.ref]
        if len(evs) != 1:
            raise LoopFail("a list item is not assigned exactly once per iteration")
        d = sub(evs[0][2], k)
        if k in d.fv or lo is not None and lo is not d:
            raise LoopFail("list items assigned at other places than the loop index")
        lo = d
        vals.append((c, evs[0][3]))
    v = merge(vals)
    new = lambda i: subst_value(v, {k: sub(i, lo)})
    old = cell.pre
    if base.entails(T.eq(lo, ZERO)) and base.entails(T.eq(old.n, n)):
        return SymList(old.n, new)

    def mixed(i):
        c = and_(T.ge(i, lo), T.lt(i, add(lo, n)))
        return merge([(c, new(i)), (not_(c), old.fn(i))])
    return SymList(old.n, mixed)


def sym_comprehension(I, elt, gen, it, sc):
    from .interp import Scope, PList, PyExc
    k = T.fresh("k")
    n = it.n
    base = I.path.cx
    cxk = base.extend(and_(ge0(k), T.lt(k, n)))
    saved = (I.write_log, I.list_log, I.iter_log, I.slot_log, getattr(I, "loop_vars", []))
    I.loop_vars = list(saved[4]) + [k]
    ident = Storage._n
    pre_objs = reachable(sc)
    trace0 = len(I.random_trace)

    def thunk():
        I.write_log, I.list_log, I.iter_log, I.slot_log = [], [], [], []
        del I.random_trace[trace0:]
        inner = Scope(sc)
        I.assign(gen.target, it.item(k), inner)
        v = I.ev(elt, inner)
        if any(s.ident <= ident for s in I.write_log) or I.iter_log or any(id(e[1]) in pre_objs for e in I.list_log) or any(id(e[0]) in pre_objs for e in I.slot_log):
            raise LoopFail("side effect in a comprehension")
        return v
    try:
        if cxk.infeasible():
            return PList()
        res = I.explore(thunk, cxk)
    finally:
        I.write_log, I.list_log, I.iter_log, I.slot_log, I.loop_vars = saved
    b = set(cxk.hyps)
    ok = []
    for pcx, kind, v, p in res:
        c = and_(*[h for h in pcx.hyps if h not in b and not (kind == "ret" and h in p.req)])
        if kind == "step":
            raise LoopFail("while loop in a comprehension")
        if kind == "exc":
            if I.branch(T.exists(ZERO, n, lambda j: subst(c, {k: j}))):
                raise v
        else:
            ok.append((c, v))
    r = PList()
    if not ok:
        return r
    v = merge(ok)
    r.sym = SymList(n, lambda i: subst_value(v, {k: i}))
    return r


def rec_seq(fn):
    """the sequence R with R(i) = fn(R, i) for i >= 0 (fn reads R at smaller indices only),
    as elem(i).  Equal definitions (up to the names of free loop variables) share a symbol."""
    t = T.fresh("u")
    T.declare("@S", 1, "real")
    probe = T.lift(fn(lambda j: T.sel("@S", T.lift(j)), t))
    fvs = sorted([x for x in probe.fv if "!" in x.args[0] and x is not t], key=lambda x: x.id)
    canon = {t: T.var("@r")}
    for j, x in enumerate(fvs):
        canon[x] = T.var("@rf%d" % j, x.sort)
    key = subst(probe, canon)
    nm = RECDEF.get(key)
    if nm is None:
        nm = "rec#%d" % len(RECDEF)
        RECDEF[key] = nm
        T.declare(nm, len(fvs) + 1, "real", rec=True)
        from .interp import map_sel
        body = map_sel(probe, {"@S": lambda j: T.sel(nm, *(fvs + [j]))})
        REC_BODY[nm] = (fvs, t, lambda idx: subst(body, {t: idx}), None)
    r = lambda i: T.sel(nm, *(fvs + [T.lift(i)]))
    # the right-hand side of the defining equation at i
    r.step = lambda i: T.lift(fn(r, T.lift(i)))
    return r
