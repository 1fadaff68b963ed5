"""Loops over symbolic ranges: automatically derived and checked summaries.

For a loop over i = 0..N-1 every cell the body may modify is found by executing the body once on a havocked state at a
generic i (all branches).  The new value of each cell as a term over the old one yields its closed form at iteration i
(additive -> Sum, indexed write -> map, overwrite -> last value, otherwise the recurrence itself as a defining fact).
The state at a generic iteration / after the loop is that closed form; nothing is unrolled.
"""
import sys, types
import z3
from . import core
from .core import E, Sc, SB, Cx, cx, mk, zv, zi, zr, zb, nf, subst, occurs, occurs_decl, ite, Unsupported, PathAbort, SubExplore, next_prefix
from .arr import Arr, SList, SRange, Buf, lit, ceq

TRACE_MODULES = ('quocslib', 'contracts', 'pyvc.factory')


class LoopExit(BaseException):
    def __init__(self, lid, kind):
        self.lid, self.kind = lid, kind


class Poison:
    """value of a cell that is not available at a generic iteration"""
    def __init__(self, why): self.__dict__['_w'] = why
    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        raise Unsupported('loop-carried value: ' + self._w)
    def _no(self, *a): raise Unsupported('loop-carried value: ' + self._w)
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __call__ = __getitem__ = __iter__ = __len__ = __bool__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __index__ = __float__ = __truediv__ = __neg__ = _no
    def __eq__(self, o): self._no()
    __hash__ = object.__hash__


CTL = []


class Ctl:
    def __init__(self, lid):
        self.lid, self.dry, self.exit = lid, True, None
        self.need_check = False


def vc_exit(lids, kind):
    if CTL and CTL[-1].dry and CTL[-1].lid in lids:
        CTL[-1].exit = kind
        raise LoopExit(CTL[-1].lid, kind)


def vc_caught(lid):
    e = sys.exc_info()[1]
    if e.lid != lid:
        raise e


SOFT = (AttributeError, TypeError, NotImplementedError, RecursionError, AssertionError, MemoryError, NameError, ImportError, IndexError, KeyError)


def vc_handler():
    """entry of an except clause of the code: an exception that stems from a gap of the numpy facade is no behaviour of the code"""
    e = sys.exc_info()[1]
    if not isinstance(e, SOFT) or e.__traceback__ is None:
        return
    import traceback
    fr = traceback.extract_tb(e.__traceback__)[-1]
    if '/pyvc/' in fr.filename and not (fr.line or '').lstrip().startswith('raise '):
        raise Unsupported('facade: %s: %s' % (type(e).__name__, e))


def vc_bodyexc(lid):
    e = sys.exc_info()[1]
    if CTL and CTL[-1].dry and CTL[-1].lid == lid:
        CTL[-1].exit = 'exc'
        return
    raise e


# ---------------------------------------------------------------------------------- heap snapshot
def traverse(roots):
    cells, objs = {}, {}
    st = list(roots)
    seen = set()
    while st:
        o = st.pop()
        if o is None or isinstance(o, (int, float, str, bytes, bool, Sc, SB, Cx, complex, type, types.ModuleType, types.BuiltinFunctionType)):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, Arr):
            k = ('B', id(o.buf))
            cells[k] = o.buf.fn
            if k not in objs:
                objs[k] = (o.buf, len(o.dims), o.kind)
        elif isinstance(o, SList):
            cells[('S', id(o))] = (o.n, o.fn)
            objs[('S', id(o))] = o
            if isinstance(o.n, int):
                st.extend(o.fn(i) for i in range(o.n))
        elif isinstance(o, list):
            cells[('P', id(o))] = tuple(o)
            objs[('P', id(o))] = o
            st.extend(o)
        elif isinstance(o, dict):
            for kk, v in o.items():
                cells[('D', id(o), kk)] = v
                objs[('D', id(o), kk)] = o
            cells[('K', id(o))] = tuple(o.keys())
            objs[('K', id(o))] = o
            st.extend(o.values())
        elif isinstance(o, (tuple, set, frozenset)):
            st.extend(o)
        elif isinstance(o, types.MethodType):
            st.append(o.__self__)
        elif isinstance(o, types.FunctionType):
            m = o.__module__ or ''
            if o.__closure__ and m.startswith(TRACE_MODULES):
                for c in o.__closure__:
                    try:
                        st.append(c.cell_contents)
                    except ValueError:
                        pass
        elif hasattr(o, '__vc_cells__'):
            for kk, v in o.__vc_cells__().items():
                cells[('X', id(o), kk)] = v
                objs[('X', id(o), kk)] = o
        elif hasattr(o, '__dict__'):
            m = type(o).__module__ or ''
            if m.startswith(TRACE_MODULES) or getattr(o, '__vc_trace__', False):
                for kk, v in o.__dict__.items():
                    cells[('A', id(o), kk)] = v
                    objs[('A', id(o), kk)] = o
                    st.append(v)
    return cells, objs


def snapshot(get):
    loc = get()
    cells, objs = traverse(list(loc.values()) + list(E.ghost_roots))
    for k, v in loc.items():
        cells[('L', k)] = v
    return cells, objs


def put(key, val, objs, setter):
    t = key[0]
    if t == 'L':
        setter({key[1]: val})
    elif t == 'A':
        objs[key].__dict__[key[2]] = val
    elif t == 'D':
        objs[key][key[2]] = val
    elif t == 'B':
        objs[key][0].fn = val
    elif t == 'S':
        objs[key].n, objs[key].fn = val
    elif t == 'P':
        objs[key][:] = list(val)
    elif t == 'X':
        objs[key].__vc_setcell__(key[2], val)
    elif t == 'K':
        d = objs[key]
        for kk in list(d.keys()):
            if kk not in val:
                del d[kk]


def restore(cells, objs, setter, only=None):
    for k, v in cells.items():
        if only is None or k in only:
            put(k, v, objs, setter)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Sc, SB)) and isinstance(b, (Sc, SB)):
        return a.e.eq(b.e) or (z3.is_arith(a.e) and z3.is_arith(b.e) and a.e.sort() == b.e.sort() and nf(a.e).eq(nf(b.e)))
    if isinstance(a, (Sc, SB)) or isinstance(b, (Sc, SB)):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    return False


def changed(before, after):
    out = []
    for k, v in after.items():
        if k[0] in ('L', 'A', 'D') and k not in before:
            out.append(k)
        elif k in before and not same(before[k], v):
            out.append(k)
    for k in before:
        if k not in after and k[0] in ('D', 'A'):
            out.append(k)
    return out


MISSING = object()


# ---------------------------------------------------------------------------------- value templates
class Lift:
    """substitution applied to values: pairs of z3 consts and function mappings"""

    def __init__(self, pairs, fmap=None):
        self.pairs, self.fmap = pairs, fmap or {}

    def z(self, e):
        if not self.pairs and not self.fmap:
            return e
        return subst(e, self.pairs, self.fmap)

    def v(self, x, memo=None):
        if x is None or isinstance(x, (int, float, str, bool, bytes, complex, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            return x
        if isinstance(x, (Sc, SB)):
            return mk(self.z(x.e))
        if isinstance(x, Cx):
            return Cx(self.v(x.re), self.v(x.im))
        if isinstance(x, Arr):
            f = x.frozen()
            return Arr([self.v(s) for s in x.shape], self._fn(f, len(x.shape)), x.kind)
        if isinstance(x, SList):
            return SList(self.v(x.n), self._fn(x.fn, 1))
        if isinstance(x, tuple):
            return tuple(self.v(y) for y in x)
        if isinstance(x, list):
            return [self.v(y) for y in x]
        if isinstance(x, dict):
            return {k: self.v(y) for k, y in x.items()}
        if hasattr(x, '__vc_lift__'):
            return x.__vc_lift__(self)
        if isinstance(x, Poison):
            return x
        raise Unsupported('template of type %s' % type(x).__name__)

    def _fn1(self, io, r):
        self.v(r)           # refuses what it cannot describe
        return lambda i: Lift([(io, zi(i))]).v(r)

    def _fn(self, f, nd):
        def g(*ix):
            # evaluate at placeholder indices, substitute, then put the real indices in
            phs = []
            for _ in ix:
                core.E_alpha[0] += 1
                phs.append(z3.Int(f'tmpl!{core.E_alpha[0]}'))
            r = f(*[Sc(p) for p in phs])
            r = self.v(r)
            return Lift([(p, zi(i)) for p, i in zip(phs, ix)]).v(r)
        return g


# ---------------------------------------------------------------------------------- iteration protocol
def vc_comp(f, it, cond):
    from .shadow import sym_seq
    s = sym_seq(it)
    if s is None:
        r = SList(0, None)
        r._setpy([f(x) for x in in_order(it) if cond is None or cond(x)])
        return r
    if cond is not None:
        raise Unsupported('filtered comprehension over a symbolic range')
    n, fn = s
    io = z3.Int(E.fresh('comp'))
    # evaluate twice at an arbitrary index in range: surfaces exceptions and effects of the elements
    d = E.sub if E.sub is not None else E

    def element():
        mark = len(E.scope)
        E.scope.append(z3.And(io >= 0, io < zi(n)))
        try:
            return f(fn(Sc(io)))
        finally:
            del E.scope[mark:]
    made = len(d.decisions)
    r = keep(element())
    forked = len(d.decisions) > made
    if not alike(r, element()):
        raise Unsupported('a comprehension whose elements have effects')
    if not forked:
        try:        # the value of every element is fixed now, whatever is overwritten later
            return SList(n, Lift([])._fn1(io, r))
        except Unsupported:
            pass

    def later(i):
        if not alike(r, element()):
            raise Unsupported('a comprehension over values that were overwritten later')
        return f(fn(i))
    return SList(n, later)


def keep(x):
    """a copy of a value that later changes do not reach"""
    if isinstance(x, (Arr, SList)):
        return x.copy()
    if isinstance(x, (tuple, list)):
        return type(x)(keep(y) for y in x)
    return x


def alike(a, b):
    """the same value, as far as can be told without a proof"""
    if same(a, b):
        return True
    if isinstance(a, Cx) and isinstance(b, Cx):
        return alike(a.re, b.re) and alike(a.im, b.im)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        ix = [Sc(z3.Int('alike!%d' % k)) for k in range(len(a.shape))]
        return alike(tuple(a.shape), tuple(b.shape)) and alike(a.frozen()(*ix), b.frozen()(*ix))
    if isinstance(a, SList) and isinstance(b, SList):
        ix = Sc(z3.Int('alike!0'))
        return alike(a.n, b.n) and (same(a.n, 0) or alike(a.fn(ix), b.fn(ix)))
    if isinstance(a, (Sc, SB, int, float, bool, str, Arr, SList, Cx)) or isinstance(b, (Sc, SB, int, float, bool, str, Arr, SList, Cx)):
        return False
    return True


def in_order(it):
    """sets have no order that a program may rely on: F.scramble() reverses the one taken here"""
    if isinstance(it, (set, frozenset)):
        return sorted(it, key=repr, reverse=E.backwards)
    return it


def vc_for(it, lid, get, setter):
    from .shadow import sym_seq
    s = sym_seq(it)
    if s is None:
        yield from in_order(it)
        return
    n, fn = s
    m = E.manual_loops.get(lid.split(':')[1])
    if m is not None:
        yield from manual(m, n, fn, get, setter)
        return
    yield from summarise(lid, n, fn, None, get, setter)


def manual(m, n, fn, get, setter, steps={}):
    """classical treatment of a loop by a stated invariant: m(mode, locals, i) with modes prove / havoc / assume"""
    loc0 = get()
    m('prove', Loc(loc0), 0)
    if E.choose(2, 'loop') == 1:
        i0 = core.skolem('it')
        E.assume(z3.And(i0.e >= 0, i0.e < zi(n)))
        new = dict(m('havoc', Loc(loc0), i0) or {})
        new.update({k: lit(mk(z3.simplify(zi(d['v0']) + d['step'] * i0.e))) for k, d in steps.items()})
        setter(new)
        loc0 = get()
        m('assume', Loc(loc0), i0)
        yield fn(i0)
        loc1 = get()
        for k, v in loc0.items():
            if k in loc1 and loc1[k] is not v and k not in new and k not in getattr(m, 'dead', ()) and not (_is_scalar(v) and (loc1[k] == v) is True):
                raise Unsupported('local %s changed in a loop with a stated invariant' % k)
        m('prove', Loc(loc1), lit(i0 + 1))
        raise PathAbort()
    N = core.ite(zi(n) > 0, n, 0) if not isinstance(n, int) else n
    new = dict(m('havoc', Loc(loc0), N) or {})
    new.update({k: lit(mk(z3.simplify(zi(d['v0']) + d['step'] * zi(N)))) for k, d in steps.items()})
    setter(new)
    m('assume', Loc(get()), N)


def manual_while(m, test, get, setter):
    """loop by a stated invariant: arbitrary state satisfying it, one execution of the body, invariant again.
    m('prove', locals); m('havoc', locals) -> {local: arbitrary value}; m('assume', locals); m.watch: objects whose attributes the loop
    may only change as listed"""
    m('prove', Loc(get()))
    new = m('havoc', Loc(get())) or {}
    setter(new)
    m('assume', Loc(get()))
    if not test():
        return
    loc0 = get()
    watch = [(o, ok, dict(o.__dict__)) for o, ok in getattr(m, 'watch', [])]
    yield None
    loc1 = get()
    for k, v in loc0.items():
        if k in loc1 and k not in new and loc1[k] is not v and not (_is_scalar(v) and (loc1[k] == v) is True):
            if k in getattr(m, 'dead', ()):
                continue
            raise Unsupported('local %s changed in a loop with a stated invariant' % k)
    for o, ok, d in watch:
        for k, v in o.__dict__.items():
            if k not in ok and (k not in d or d[k] is not v) and not (_is_scalar(v) and k in d and (d[k] == v) is True):
                raise Unsupported('attribute %s changed in a loop with a stated invariant' % k)
    m('prove', Loc(loc1))
    if test():
        raise PathAbort()


def vc_while(test, lid, get, setter):
    m = E.manual_loops.get(lid.split(':')[1])
    if m is not None:
        if 'i' in getattr(getattr(m, '__code__', None), 'co_varnames', ())[:getattr(getattr(m, '__code__', None), 'co_argcount', 0)]:
            # an invariant stated for a counted loop: the number of iterations is read off the condition
            yield from summarise(lid, None, lambda i: None, test, get, setter, hook=m)
            return
        yield from manual_while(m, test, get, setter)
        return
    h = E.loop_contracts.get(lid.split(':')[1]) or E.loop_contracts.get(lid)
    if h is None:
        # concrete loop unless the condition turns symbolic
        k = 0
        while True:
            mark_pc = len(E.all_pc())
            c = test()
            if isinstance(c, (SB, Sc)) and not isinstance(c, bool):
                yield from summarise(lid, None, lambda i: None, test, get, setter)
                return
            if len(E.all_pc()) != mark_pc:
                # evaluating the condition needed symbolic decisions
                if k > 0:
                    raise Unsupported('while loop with forking condition')
            if not c:
                return
            k += 1
            if k > 2000:
                raise Unsupported('long while loop')
            yield None
    yield from summarise(lid, None, lambda i: None, test, get, setter)


def _is_scalar(v):
    return isinstance(v, (int, float, Sc, SB, bool)) and not isinstance(v, str)


def summarise(lid, n, elem, test, get, setter, hook=None):
    ctl = Ctl(lid)
    uid = E.fresh('loop')
    iota = z3.Int(uid + '_i')
    before, objs0 = snapshot(get)
    pc_mark, scope_mark, facts_mark, trig0 = len(E.pc), len(E.scope), len(E.facts), dict(E.triggers)
    dec_mark = len(E.decisions)
    outer_sub = E.sub
    fresh0 = E.path_fresh
    havocked = {}          # key -> havoc descriptor
    branches = []
    CTL.append(ctl)
    E.dry += 1
    E.need_check.append(ctl)
    outer_created = E.created
    try:
        entry = None
        for attempt in range(10):
            branches = []
            prefix = []
            grew = False
            sub = SubExplore()
            created_total = set()
            while prefix is not None:
                # --- set up the generic state
                restore(before, objs0, setter)
                drop_new(before, objs0, get, setter)
                hv = {}
                for k, d in havocked.items():
                    hv[k] = d['value']()
                    put(k, hv[k], d['objs'], setter)
                base, objs_b = snapshot(get)
                sub.start(prefix)
                E.sub = sub
                E.path_fresh = fresh0
                E.created = []
                del E.facts[facts_mark:]
                del E.scope[scope_mark:]
                rng = iota >= 0 if n is None else z3.And(iota >= 0, iota < zi(n))
                E.scope.append(rng)
                ctl.dry, ctl.exit = True, None
                smark = len(E.scope)
                skip = False
                if test is not None:
                    dmark = len(sub.decisions)
                    c = test()
                    ce = zb(c)
                    entry = ce if len(sub.decisions) == dmark else None
                    if z3.is_false(z3.simplify(ce)):
                        skip = True
                    E.scope.append(ce)
                    sub.conds.append(ce)
                if not skip:
                    yield elem(Sc(iota))
                after, objs_a = snapshot(get)
                mods = [k for k in changed(base, after)]
                new = [k for k in mods if k not in havocked and k in before]
                for k in new:
                    havocked[k] = make_havoc(k, before, after, objs0, uid, len(havocked))
                    grew = True
                for k in list(havocked):
                    if k in after:
                        if retype(havocked[k], after[k]):
                            grew = True
                facts_body = [x for x in E.scope[smark:]]
                branches.append(dict(conds=list(sub.conds), after={k: after[k] for k in after if k in havocked or k not in before},
                                     exit=ctl.exit, created=list(E.created), facts=list(E.facts[facts_mark:]),
                                     assumed=[x for x in facts_body if not any(x.eq(c) for c in sub.conds)], hv=hv))
                prefix = next_prefix(sub.decisions)
                if len(branches) > 64:
                    raise Unsupported('too many branches in a loop body')
                if grew and attempt < 9:
                    prefix = None
            if not grew:
                # counters: cells that advance by the same constant in every iteration are functions of the iteration number
                step = counters(havocked, branches, iota)
                if step:
                    continue
                if test is not None and entry is not None:
                    cnt = counted(entry, iota, havocked)
                    if cnt is not None:
                        n, test = cnt, None
                        continue
                break
        else:
            raise Unsupported('loop modifications do not stabilise')
    finally:
        E.sub = outer_sub
        E.dry -= 1
        E.need_check.remove(ctl)
        del E.scope[scope_mark:]
        del E.facts[facts_mark:]
        if CTL and CTL[-1] is ctl:
            CTL.pop()
    E.triggers = trig0
    E.created = outer_created
    if E.dry and ctl.need_check:
        for c in E.need_check:
            c.need_check = True
    if hook is not None:
        snap_restore(before, objs0, get, setter)
        E.path_fresh = fresh0
        if test is not None:
            raise Unsupported('invariant stated for a counted loop')
        yield from manual(hook, n, elem, get, setter, {k[1]: d for k, d in havocked.items() if d.get('step') is not None and k[0] == 'L'})
        return
    # ------------------------------------------------------------------ closed forms
    N = n
    if N is None:
        E.weak = 'a loop whose number of iterations is not known'
        Nz = z3.Int(uid + '_N')
        E.note(Nz)
        E.assume(Nz >= 0)
        N = Sc(Nz)
    normal = [b for b in branches if b['exit'] is None]
    exits = [b for b in branches if b['exit'] is not None]
    created = {}
    for b in branches:
        for (nm, arity_sorts) in b['created']:
            created[nm] = arity_sorts
    lifted = lambda io: lift_created(created, io)
    closed = close_forms(havocked, normal, before, iota, N, uid, lifted)
    E.path_fresh = fresh0 + 1000

    def conds_at(b, k):
        """branch condition of generic iteration k in terms of closed forms"""
        c = z3.And(*b['conds']) if b['conds'] else z3.BoolVal(True)
        return closed.sub(c, k)

    def not_exit(k):
        cs = [z3.Not(conds_at(b, k)) for b in exits]
        cs += [closed.sub(zb(x), k) for b in normal for x in []]
        if test is not None:
            # the loop condition held at iteration k
            tc = [conds_at(b, k) for b in normal]
            cs.append(z3.Or(*tc) if tc else z3.BoolVal(False))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    for b in normal:
        for x in b['assumed']:
            bc = z3.And(*b['conds']) if b['conds'] else z3.BoolVal(True)
            E.facts.append((lambda k, x=x, bc=bc: z3.Implies(z3.And(k >= 0, k < zi(N)), closed.sub(z3.Implies(bc, x), k)), 1))
        for fn, ar in b['facts']:
            if ar == 1:
                E.facts.append((lambda k, t, fn=fn: z3.Implies(z3.And(k >= 0, k < zi(N)), closed.sub(zb(fn(t)), k)), 2))
    inv = E.loop_contracts.get(lid.split(':')[1]) or E.loop_contracts.get(lid)
    need_generic = bool(exits) or ctl.need_check or inv is not None or test is not None
    opts = 2 if need_generic else 1
    which = E.choose(opts, lid)
    snap_restore(before, objs0, get, setter)
    if which == 1:
        # --- generic iteration i0 (reached without an earlier exit)
        i0 = z3.Int(uid + '_i0')
        E.assume(z3.And(i0 >= 0, i0 < zi(N)))
        E.trigger(i0)
        E.trigger(i0 - 1)
        E.facts.append((lambda k: z3.Implies(z3.And(k >= 0, k < i0), not_exit(k)), 1))
        closed.install(Sc(i0), havocked, setter)
        if inv is not None:
            inv(Loc(get()), Sc(i0), 'assume')
        if test is not None:
            c = test()
            if not c:
                raise PathAbort()
        ctl2 = Ctl(lid)
        ctl2.dry = False
        yield elem(Sc(i0))
        if inv is not None:
            inv(Loc(get()), lit(Sc(i0) + 1), 'prove')
        raise PathAbort()
    if inv is not None:
        inv(Loc(get()), 0, 'prove')
    E.facts.append((lambda k: z3.Implies(z3.And(k >= 0, k < zi(N)), not_exit(k)), 1)) if (exits or test is not None) else None
    E.trigger(z3.simplify(zi(N) - 1))
    closed.install(N, havocked, setter)
    closed.set_locals_last(normal, before, setter, N, lifted, iota)
    if inv is not None:
        inv(Loc(get()), N, 'assume')
    if test is not None:
        c = test()
        if c:
            raise PathAbort()


class Loc:
    def __init__(self, d): self.__dict__.update(d)


def snap_restore(before, objs0, get, setter):
    restore(before, objs0, setter)
    drop_new(before, objs0, get, setter)


def drop_new(before, objs0, get, setter):
    """remove dict keys / attributes that the body created"""
    for k, v in before.items():
        if k[0] == 'K':
            d = objs0[k]
            for kk in list(d.keys()):
                if kk not in v:
                    del d[kk]
    owners = {}
    for k in before:
        if k[0] == 'A':
            owners.setdefault(id(objs0[k]), (objs0[k], set()))[1].add(k[2])
    for o, names in owners.values():
        for a in list(o.__dict__.keys()):
            if a not in names:
                del o.__dict__[a]


def _sortof(v):
    if isinstance(v, (SB, bool)):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, float):
        return 'r'
    if isinstance(v, Sc):
        return 'i' if z3.is_int(v.e) else 'r'
    return 'o'


_SORT = {'b': core.B, 'i': core.I, 'r': core.R}


def make_havoc(key, before, after, objs0, uid, idx):
    v0, v1 = before[key], after.get(key)
    nm = f"{uid}_h{idx}"
    d = dict(key=key, name=nm, objs=objs0, v0=v0)
    if key[0] == 'B':
        buf, nd, kind = objs0[key]
        d.update(type='buf', nd=nd, kind=kind)
        probe = None
        if kind == 'o':
            d['mat'] = True
        if kind == 'c':
            fr, fi = core.decl(nm + 'r', *([core.I] * nd), core.R), core.decl(nm + 'i', *([core.I] * nd), core.R)
            d['decls'] = [fr, fi]
            d['value'] = lambda: (lambda *ix: Cx(mk(fr(*[zi(i) for i in ix])), mk(fi(*[zi(i) for i in ix]))))
        elif kind == 'o':
            from .mats import MatSort, Mat
            f = core.decl(nm, *([core.I] * nd), MatSort)
            d['decls'] = [f]
            d['value'] = lambda: (lambda *ix: Mat(f(*[zi(i) for i in ix])))
        else:
            f = core.decl(nm, *([core.I] * nd), core.B if kind == 'b' else core.R)
            d['decls'] = [f]
            d['value'] = lambda: (lambda *ix: mk(f(*[zi(i) for i in ix])))
    elif key[0] == 'S':
        h = z3.Int(nm)
        d.update(type='slist', h=h)

        def old(i):
            raise Unsupported('reading an earlier element of a list under construction')
        d['value'] = lambda: (Sc(h), old)
    elif _is_scalar(v0) and _is_scalar(v1):
        s = ''.join(sorted(set(_sortof(v0) + _sortof(v1))))
        st = 'b' if s == 'b' else ('i' if s == 'i' else 'r')
        d.update(type='scalar', st=st)
        set_scalar(d)
    elif isinstance(v0, Cx) or isinstance(v1, Cx):
        if not (isinstance(v0, (Cx, complex)) or _is_scalar(v0)):
            d.update(type='last')
            d['value'] = lambda: Poison(str(key))
        else:
            a, b = z3.Real(nm + 'r'), z3.Real(nm + 'i')
            d.update(type='cplx', h=(a, b))
            d['value'] = lambda: Cx(mk(a), mk(b))
    elif getattr(v0, '__vc_mat__', False) and getattr(v1, '__vc_mat__', False):
        from .mats import MatSort, Mat
        h = z3.Const(nm, MatSort)
        d.update(type='mat', h=h)
        d['value'] = lambda: Mat(h)
    elif isinstance(v0, Arr) and isinstance(v1, Arr) and len(v0.shape) == len(v1.shape):
        nd = len(v0.shape)
        if v0.kind == 'c' or v1.kind == 'c' or v0.kind == 'o':
            d.update(type='last')
            d['value'] = lambda: Poison(str(key))
        else:
            f = core.decl(nm, *([core.I] * nd), core.R)
            d.update(type='arr', nd=nd, decls=[f])
            d['value'] = lambda: Arr(v0.shape, lambda *ix: mk(f(*[zi(i) for i in ix])), 'f')
    else:
        d.update(type='last')
        d['value'] = lambda: Poison(str(key))
    return d




def counters(havocked, branches, iota):
    normal = [b for b in branches if b['exit'] is None]
    found = False
    for k, d in havocked.items():
        if d['type'] != 'scalar' or d['st'] != 'i' or not normal:
            continue
        steps = set()
        for b in normal:
            v = b['after'].get(k)
            if not _is_scalar(v) or _sortof(v) != 'i':
                steps.add(None)
                continue
            g = nf(zi(v) - zi(b['hv'][k])) if k in b['hv'] else None
            steps.add(g.as_long() if g is not None and z3.is_int_value(g) else None)
        c = steps.pop() if len(steps) == 1 else None
        if 'step' in d:
            if c != d['step']:
                raise Unsupported('irregular counter')
            continue
        if c is None:
            continue
        d['step'] = c
        d['value'] = lambda v0=d['v0'], c=c: lit(mk(z3.simplify(zi(v0) + c * iota)))
        found = True
    return found


def counted(ce, iota, havocked):
    """number of iterations of a loop whose condition is linear in the iteration number and otherwise untouched by the loop"""
    neg = False
    while z3.is_not(ce):
        ce, neg = ce.arg(0), not neg
    if not z3.is_app(ce) or ce.num_args() != 2 or not z3.is_int(ce.arg(0)) or not z3.is_int(ce.arg(1)):
        return None
    a, b = ce.arg(0), ce.arg(1)
    op = ce.decl().kind()
    if neg:
        op = {z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_GE: z3.Z3_OP_LT}.get(op)
    # the condition as d >= 0
    d = {z3.Z3_OP_GE: a - b, z3.Z3_OP_GT: a - b - 1, z3.Z3_OP_LE: b - a, z3.Z3_OP_LT: b - a - 1}.get(op) if op is not None else None
    if d is None:
        return None
    c = nf(z3.substitute(d, (iota, iota + 1)) - d)
    r = nf(z3.substitute(d, (iota, z3.IntVal(0))))
    if not z3.is_int_value(c) or c.as_long() >= 0 or occurs(r, iota):
        return None
    for k, h in havocked.items():
        if h.get('step') is not None:
            continue
        for q in (h.get('h') if isinstance(h.get('h'), tuple) else [h.get('h')]):
            if q is not None and occurs(r, q):
                return None
        if h.get('decls') and occurs_decl(r, {f.name() for f in h['decls']}):
            return None
    c = -c.as_long()
    m = nf(r + 1) if c == 1 else r / c + 1
    return lit(mk(m)) if E.known(r >= 0) else lit(mk(z3.simplify(z3.If(r >= 0, m, z3.IntVal(0)))))


def set_scalar(d):
    h = z3.Const(d['name'] + d['st'], _SORT[d['st']])
    d['h'] = h
    d['value'] = lambda: mk(h)


def retype(d, v1):
    if d['type'] == 'scalar':
        if not _is_scalar(v1):
            d['type'] = 'last'
            d['value'] = lambda: Poison(str(d['key']))
            return True
        s = _sortof(v1)
        st = d['st']
        ns = st if s == st else 'r'
        if 'b' in (s, st) and s != st:
            ns = 'r'
        if ns != st:
            d['st'] = ns
            d.pop('step', None)
            set_scalar(d)
            return True
    if d['type'] in ('mat',) and not getattr(v1, '__vc_mat__', False):
        d['type'] = 'last'
        d['value'] = lambda: Poison(str(d['key']))
        return True
    if d['type'] == 'arr':
        if not isinstance(v1, Arr) or len(v1.shape) != d['nd']:
            d['type'] = 'last'
            d['value'] = lambda: Poison(str(d['key']))
            return True
    return False


def lift_created(created, io):
    pairs, fmap = [], {}
    for nm, (args, res) in created.items():
        if not args:
            pairs.append((z3.Const(nm, res), core.decl(nm + '@', core.I, res)(io)))
        else:
            f = core.decl(nm + '@', *args, core.I, res)
            fmap[nm] = lambda *a, f=f: f(*a, io)
    return pairs, fmap


class Closed:
    def __init__(self, iota, N, lifted):
        self.form = {}        # key -> function(i)-> value
        self.iota, self.N, self.lifted = iota, N, lifted
        self.hmap = {}        # havoc const name -> (const, fn(i)->z3)
        self.fmap = {}        # havoc decl name -> fn(i)->(fn(*args)->z3)

    def lift(self, i, e=None):
        """substitution: iota -> i, havocs -> closed forms at i, created names -> per-iteration functions (for the expression e only)"""
        iz = zi(i)
        pairs, fmap = self.lifted(iz)
        pairs = [(self.iota, iz)] + list(pairs)
        fm = dict(fmap)
        for nm, (c, f) in self.hmap.items():
            if e is None or occurs(e, c):
                pairs.append((c, f(iz)))
        for nm, g in self.fmap.items():
            fm[nm] = g(iz)
        return Lift(pairs, fm)

    def sub(self, e, i):
        return self.lift(i, e).z(e)

    def install(self, i, havocked, setter):
        for k, d in havocked.items():
            put(k, self.form[k](i), d['objs'], setter)

    def set_locals_last(self, normal, before, setter, N, lifted, iota):
        """locals first bound inside the body: their value in the last iteration"""
        names = set()
        for b in normal:
            for k in b['after']:
                if k not in before and k[0] == 'L':
                    names.add(k)
        if not names:
            return
        for k in names:
            vals = [b['after'].get(k, MISSING) for b in normal]
            if any(v is MISSING for v in vals):
                continue
            try:
                v = merge_vals(normal, vals)
                val = LastLocal(self, v, N)
            except Unsupported:
                val = Poison(str(k))
            if isinstance(val, LastLocal):
                try:
                    if E.known(zi(N) > 0):
                        val = self.lift(lit(N - 1)).v(v)
                    else:
                        val = Poison(str(k) + ' (loop may not have run)')
                except Unsupported:
                    val = Poison(str(k))
            setter({k[1]: val})


class LastLocal:
    def __init__(self, c, v, N): self.c, self.v, self.N = c, v, N


def merge_vals(branches, vals):
    r = vals[-1]
    for b, v in list(zip(branches, vals))[-2::-1]:
        c = z3.And(*b['conds']) if b['conds'] else z3.BoolVal(True)
        if v is r:
            continue
        if isinstance(v, (str, type(None))) or isinstance(r, (str, type(None))):
            if v == r:
                continue
            raise Unsupported('merge of different objects')
        r = ite(c, v, r)
    return r


def merged(branches, key, base):
    """new value of a cell after one iteration, merged over the branches"""
    vals = [b['after'].get(key, b['hv'].get(key)) for b in branches]
    return vals


def close_forms(havocked, normal, before, iota, N, uid, lifted):
    cl = Closed(iota, N, lifted)
    todo = {}
    # new values as z3 terms
    for k, d in havocked.items():
        t = d['type']
        if d.get('step') is not None:
            cl.form[k] = lambda i, v0=d['v0'], c=d['step']: lit(mk(z3.simplify(zi(v0) + c * zi(i))))
            continue
        vals = merged(normal, k, before)
        if not normal:
            # every iteration exits: the state at any generic iteration is the initial one (only iteration 0 runs)
            todo[k] = None
            continue
        if t == 'scalar':
            e = merge_vals(normal, vals)
            e = zb(e) if d['st'] == 'b' else (zi(e) if d['st'] == 'i' else zr(e))
            todo[k] = e
        elif t == 'cplx':
            e = cx(merge_vals(normal, vals))
            todo[k] = (zr(e.re), zr(e.im))
        elif t == 'mat':
            todo[k] = merge_vals(normal, vals).e
        elif t in ('buf', 'arr'):
            nd = d['nd']
            js = [z3.Int(f"{d['name']}_j{x}") for x in range(nd)]
            args = [Sc(j) for j in js]
            if t == 'arr':
                shp = [s for s in vals[0].shape]
                v0s = d['v0'].shape
                for a, b in zip(shp, v0s):
                    if not (isinstance(a, int) and isinstance(b, int) and a == b) and not E.known(zi(a) == zi(b)):
                        raise Unsupported('array changing shape in a loop')
                vals = [v.frozen() for v in vals]
            ev = [v(*args) for v in vals]
            m = merge_vals(normal, ev)
            if len(d['decls']) == 2:
                m = cx(m)
                todo[k] = (js, [zr(m.re), zr(m.im)])
            elif d.get('mat'):
                todo[k] = (js, [m.e])
            else:
                todo[k] = (js, [zb(m) if d['kind' if 'kind' in d else 'type'] == 'b' else zr(m)])
        elif t == 'slist':
            outs = []
            for n1, f1 in vals:
                dn = nf(zi(n1) - d['h'])
                if not z3.is_int_value(dn):
                    raise Unsupported('list length changes irregularly')
                outs.append((dn.as_long(), n1, f1))
            cs = {o[0] for o in outs}
            if cs != {1} and cs != {0}:
                raise Unsupported('conditional or multiple append')
            if cs == {0}:
                raise Unsupported('list modified in place in a loop')
            tv = [o[2](Sc(d['h'])) for o in outs]
            todo[k] = merge_vals(normal, tv)
        else:
            try:
                todo[k] = merge_vals(normal, vals)
            except Unsupported:
                todo[k] = Poison(str(k))
    hnames = {}
    for k, d in havocked.items():
        if d.get('step') is not None:
            continue
        if d['type'] == 'scalar':
            hnames[d['h'].decl().name()] = k
        elif d['type'] == 'cplx':
            for h in d['h']:
                hnames[h.decl().name()] = k
        elif d['type'] == 'mat':
            hnames[d['h'].decl().name()] = k
        elif d['type'] in ('buf', 'arr'):
            for f in d['decls']:
                hnames[f.name()] = k
        elif d['type'] == 'slist':
            hnames[d['h'].decl().name()] = k

    def deps(e):
        return {hnames[x] for x in hnames if occurs_decl(e, {x})}

    def exprs(k):
        v = todo[k]
        d = havocked[k]
        if d['type'] in ('scalar', 'mat'):
            return [v]
        if d['type'] == 'cplx':
            return list(v)
        if d['type'] in ('buf', 'arr'):
            return v[1]
        return []
    if not normal:
        for k, d in havocked.items():
            cl.form[k] = lambda i, d=d: d['v0']
            init_maps(cl, d)
        return cl
    # lists first: length n0 + i is always known
    for k, d in havocked.items():
        if d['type'] == 'slist':
            n0 = d['v0'][0]
            cl.hmap[d['h'].decl().name()] = (d['h'], lambda i, n0=n0: zi(lit(mk(zi(n0) + i))))
    order = [k for k in havocked if havocked[k]['type'] not in ('slist', 'last') and havocked[k].get('step') is None]
    pending = set(order)
    progress = True
    while pending and progress:
        progress = False
        for k in list(order):
            if k not in pending:
                continue
            es = exprs(k)
            dp = set()
            for e in es:
                dp |= deps(e)
            others = {x for x in dp if x in pending and x != k}
            if others:
                continue
            close_one(cl, k, havocked[k], todo[k], self_dep=k in dp)
            pending.discard(k)
            progress = True
    for k in order:
        if k in pending:
            close_rec(cl, k, havocked[k], todo[k], declare_only=True)
    for k in order:
        if k in pending:
            close_rec(cl, k, havocked[k], todo[k], facts_only=True)
    for k, d in havocked.items():
        if d['type'] == 'slist':
            n0, f0 = d['v0']
            tmpl = todo[k]

            def form(i, n0=n0, f0=f0, tmpl=tmpl):
                def fn(j):
                    c = z3.simplify(zi(j) < zi(n0)) if not (isinstance(n0, int) and n0 == 0) else z3.BoolVal(False)
                    if z3.is_true(c):
                        return f0(j)
                    v = cl.lift(lit(j - n0)).v(tmpl)
                    if z3.is_false(c):
                        return v
                    return ite(c, f0(j), v)
                return (lit(mk(zi(n0) + zi(i))), fn)
            cl.form[k] = form
        elif d['type'] == 'last':
            tmpl = todo[k]

            def form(i, d=d, tmpl=tmpl):
                if isinstance(i, int) and i == 0:
                    return d['v0']
                if E.known(zi(i) > 0):
                    return cl.lift(lit(i - 1)).v(tmpl)
                if E.known(zi(i) == 0):
                    return d['v0']
                return Poison('value of the previous iteration')
            cl.form[k] = form
    return cl


def init_maps(cl, d):
    t = d['type']
    if t == 'scalar':
        v0 = d['v0']
        f = {'b': zb, 'i': zi, 'r': zr}[d['st']]
        cl.hmap[d['h'].decl().name()] = (d['h'], lambda i: f(v0))
    elif t == 'cplx':
        v0 = cx(d['v0'])
        cl.hmap[d['h'][0].decl().name()] = (d['h'][0], lambda i: zr(v0.re))
        cl.hmap[d['h'][1].decl().name()] = (d['h'][1], lambda i: zr(v0.im))
    elif t == 'mat':
        v0 = d['v0']
        cl.hmap[d['h'].decl().name()] = (d['h'], lambda i: v0.e)
    elif t in ('buf', 'arr'):
        v0 = d['v0'].frozen() if t == 'arr' else d['v0']
        for x, f in enumerate(d['decls']):
            cl.fmap[f.name()] = lambda i, x=x: (lambda *a: elem_z(d, v0(*[mk(z) for z in a]), x))
    elif t == 'slist':
        cl.hmap[d['h'].decl().name()] = (d['h'], lambda i: zi(d['v0'][0]))


def elem_z(d, v, x):
    if d.get('mat'):
        return v.e
    if len(d['decls']) == 2:
        v = cx(v)
        return zr(v.re) if x == 0 else zr(v.im)
    if d.get('kind') == 'b':
        return zb(v)
    return zr(v)


def close_one(cl, k, d, e, self_dep):
    t = d['type']
    if t == 'scalar':
        v0 = d['v0']
        st = d['st']
        h = d['h']
        conv = {'b': zb, 'i': zi, 'r': zr}[st]
        if not self_dep:
            ff = lambda i: last_form(cl, conv(v0), e, i)
            cl.hmap[h.decl().name()] = (h, ff)
            cl.form[k] = lambda i: mk(ff(zi(i)))
            return
        if st in 'ir':
            g = nf(e - h)
            if not occurs(g, h):
                def ff(i):
                    io = cl.iota
                    if st == 'i':
                        if not occurs(g, io) and not cl_dep(cl, g):
                            return z3.simplify(conv(v0) + g * i)
                        s = core.Sum(mk(i), lambda q: mk(z3.ToReal(cl.sub(g, q))))
                        return z3.simplify(conv(v0) + z3.ToInt(zr(s)))
                    s = core.Sum(mk(i), lambda q: mk(cl.sub(g, q)))
                    return zr(arithp(conv(v0), zr(s)))
                cl.hmap[h.decl().name()] = (h, ff)
                cl.form[k] = lambda i: mk(ff(zi(i)))
                return
        return close_rec(cl, k, d, e)
    if t == 'cplx':
        v0 = cx(d['v0'])
        hr, hi = d['h']
        gs = [nf(e[0] - hr), nf(e[1] - hi)]
        if not any(occurs(g, h) for g in gs for h in (hr, hi)):
            for h, g, z in ((hr, gs[0], v0.re), (hi, gs[1], v0.im)):
                cl.hmap[h.decl().name()] = (h, lambda i, g=g, z=z: zr(arithp(zr(z), zr(core.Sum(mk(i), lambda q: mk(cl.sub(g, q)))))))
            cl.form[k] = lambda i: Cx(mk(cl.hmap[hr.decl().name()][1](zi(i))), mk(cl.hmap[hi.decl().name()][1](zi(i))))
            return
        return close_rec(cl, k, d, e)
    if t == 'mat':
        if not self_dep:
            ff = lambda i: last_form(cl, d['v0'].e, e, i)
            cl.hmap[d['h'].decl().name()] = (d['h'], ff)
            from .mats import Mat
            cl.form[k] = lambda i: Mat(ff(zi(i)))
            return
        return close_rec(cl, k, d, e)
    if t in ('buf', 'arr'):
        js, es = e
        decls = d['decls']
        v0 = d['v0'].frozen() if t == 'arr' else d['v0']
        kinds = []
        for f, ex in zip(decls, es):
            kinds.append(array_pattern(cl, d, js, f, ex, k))
        if any(x is None for x in kinds):
            return close_rec(cl, k, d, e)
        fns = []
        for x, (f, pat) in enumerate(zip(decls, kinds)):
            fns.append(make_array_form(cl, d, js, f, pat, v0, x))
        for f, g in zip(decls, fns):
            cl.fmap[f.name()] = lambda i, g=g: (lambda *a: g(i, *a))

        def val(i, *ix):
            zs = [zi(q) for q in ix]
            if d.get('mat'):
                from .mats import Mat
                return Mat(fns[0](zi(i), *zs))
            if len(fns) == 2:
                return Cx(mk(fns[0](zi(i), *zs)), mk(fns[1](zi(i), *zs)))
            return mk(fns[0](zi(i), *zs))
        if t == 'buf':
            cl.form[k] = lambda i: (lambda *ix: val(i, *ix))
        else:
            cl.form[k] = lambda i: Arr(d['v0'].shape, lambda *ix: val(i, *ix), d['v0'].kind)
        return
    raise Unsupported(t)


def cl_dep(cl, g):
    return any(occurs_decl(g, {n}) for n in list(cl.hmap) + list(cl.fmap))


def arithp(a, b):
    if z3.is_true(z3.simplify(a == 0)):
        return mk(b)
    return mk(a + b)


def last_form(cl, v0, e, i):
    i = z3.simplify(i)
    if z3.is_int_value(i) and i.as_long() == 0:
        return v0
    prev = cl.sub(e, z3.simplify(i - 1))
    if E.known(i > 0):
        return prev
    return z3.If(i > 0, prev, v0)


def array_pattern(cl, d, js, f, e, key):
    """('add', g) | ('map', cond_rest, dim, c, val) | ('rec', ...) | None"""
    nm = f.name()
    selfv = f(*js)
    if not (z3.is_bool(e) or d.get('mat')):
        g = nf(e - selfv)
        if not occurs_decl(g, {nm}):
            return ('add', g)
    es = core.nf_bool(z3.simplify(e)) if z3.is_bool(e) else z3.simplify(e)
    if z3.is_app_of(es, z3.Z3_OP_ITE):
        c, a, b = es.arg(0), es.arg(1), es.arg(2)
        if a.eq(selfv):
            c, a, b = z3.simplify(z3.Not(c)), b, a
        if b.eq(selfv):
            conj = flat_and(c)
            for dim, j in enumerate(js):
                for x in conj:
                    if x.decl().kind() == z3.Z3_OP_EQ and z3.is_int(x.arg(0)):
                        df = nf(x.arg(0) - x.arg(1))
                        for sg in (1, -1):
                            off = nf(j - cl.iota - sg * df) if sg == 1 else nf(j - cl.iota + df)
                            # x says j - iota - off == 0
                            if not occurs(off, j) and not occurs(off, cl.iota) and not any(occurs(off, q) for q in js):
                                rest = [y for y in conj if not y.eq(x)]
                                rest = [y for y in rest if not E.known(z3.Implies(z3.And(cl.iota >= 0, cl.iota < zi(cl.N), x), y))]
                                if any(occurs(y, cl.iota) for y in rest):
                                    continue
                                if occurs_decl(z3.And(*rest) if rest else z3.BoolVal(True), {nm}):
                                    continue
                                val = a
                                if occurs_decl(val, {nm}):
                                    # reads of earlier entries only?
                                    reads = read_indices(val, nm)
                                    ok = all(E.known(z3.Implies(z3.And(cl.iota >= 0, cl.iota < zi(cl.N), x), r[dim] < cl.iota + off)) for r in reads)
                                    if not ok:
                                        return None
                                    return ('recmap', rest, dim, off, val)
                                return ('map', rest, dim, off, val)
    return None


def read_indices(e, nm):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name() in E.functionals:
            r = E.functionals[x.decl().name()]
            st.append(r.body); st.append(r.n); st.extend(r.extra)
            continue
        if z3.is_app(x) and x.decl().name() == nm:
            out.append(x.children())
        st.extend(x.children())
    return out


def flat_and(c):
    if z3.is_and(c):
        r = []
        for x in c.children():
            r.extend(flat_and(x))
        return r
    return [c]


def make_array_form(cl, d, js, f, pat, v0, x):
    def init(*a):
        return elem_z(d, v0(*[mk(z) for z in a]), x)
    if pat[0] == 'add':
        g = pat[1]

        def form(i, *a):
            def term(q):
                s = Lift([(j, z) for j, z in zip(js, a)]).z(g)
                return mk(cl.sub(s, q))
            s = core.Sum(mk(i), term)
            return zr(arithp(init(*a), zr(s)))
        # the substitution of js must not capture: js are unique constants
        return form
    if pat[0] == 'map':
        _, rest, dim, off, val = pat

        def form(i, *a):
            sub = Lift([(j, z) for j, z in zip(js, a)])
            it = z3.simplify(a[dim] - cl.sub(off, a[dim]))
            cond = [it >= 0, it < i] + [cl.sub(sub.z(y), it) for y in rest]
            cond = z3.simplify(z3.And(*cond))
            from .arr import decide
            cd = decide(cond)
            if cd is True or (cd is not False and E.known(cond)):
                return cl.sub(sub.z(val), it)
            if cd is False or E.known(z3.Not(cond)):
                return init(*a)
            return z3.If(cond, cl.sub(sub.z(val), it), init(*a))
        return form
    if pat[0] == 'recmap':
        _, rest, dim, off, val = pat
        R = core.decl(f.name() + '_R', *[f.domain(q) for q in range(f.arity())], f.range())
        E.note(R)
        fm0 = {f.name(): lambda *a: R(*a)}

        def cond_of(a, i):
            sub = Lift([(j, z) for j, z in zip(js, a)])
            it = z3.simplify(a[dim] - cl.sub(off, a[dim]))
            return it, z3.simplify(z3.And(it >= 0, it < i, *[cl.sub(sub.z(y), it) for y in rest]))

        def value_at(a, it):
            sub = Lift([(j, z) for j, z in zip(js, a)])
            e = subst(sub.z(val), [], fm0)
            return cl.sub(e, it)

        def fact(*a):
            it, c = cond_of(a, zi(cl.N))
            return z3.And(z3.Implies(c, R(*a) == value_at(a, it)), z3.Implies(z3.Not(c), R(*a) == init(*a)))
        if len(js) == 1:
            E.facts.append((fact, 1))
        else:
            raise Unsupported('recurrence on a matrix')
        E.rec_facts.append((R, fact))

        def form(i, *a):
            it, c = cond_of(a, i)
            if z3.is_true(c) or E.known(c):
                return R(*a)
            if z3.is_false(c) or E.known(z3.Not(c)):
                return init(*a)
            return z3.If(c, R(*a), init(*a))
        return form
    raise Unsupported(pat[0])


E.rec_facts = []


def close_rec(cl, k, d, e, declare_only=False, facts_only=False):
    """general recurrence: the cell at iteration i is X(i), X(0)=v0, X(i+1)=body(X(i))"""
    t = d['type']
    N = cl.N
    if t == 'last':
        return
    E.weak = 'a loop-carried value known by its recurrence only'
    if t in ('scalar', 'mat', 'cplx'):
        hs = d['h'] if t == 'cplx' else [d['h']]
        es = e if t == 'cplx' else [e]
        if t == 'cplx':
            v0 = cx(d['v0'])
            inits = [zr(v0.re), zr(v0.im)]
        elif t == 'mat':
            inits = [d['v0'].e]
        else:
            inits = [{'b': zb, 'i': zi, 'r': zr}[d['st']](d['v0'])]
        Xs = [core.decl(h.decl().name() + '_X', core.I, h.sort()) for h in hs]
        for X in Xs:
            E.note(X)
        if not facts_only:
            for h, X in zip(hs, Xs):
                cl.hmap[h.decl().name()] = (h, lambda i, X=X: X(z3.simplify(i)))
            if t == 'mat':
                from .mats import Mat
                cl.form[k] = lambda i: Mat(Xs[0](zi(i)))
            elif t == 'cplx':
                cl.form[k] = lambda i: Cx(mk(Xs[0](zi(i))), mk(Xs[1](zi(i))))
            else:
                cl.form[k] = lambda i: mk(Xs[0](zi(i)))
        if not declare_only:
            for X, v, ex in zip(Xs, inits, es):
                E.assume(X(z3.IntVal(0)) == v)

                def fact(q, X=X, ex=ex):
                    return z3.Implies(z3.And(q >= 0, q < zi(N)), X(z3.simplify(q + 1)) == cl.sub(ex, q))
                E.facts.append((fact, 1))
        return
    # arrays
    js, es = e
    v0 = d['v0'].frozen() if t == 'arr' else d['v0']
    Xs = [core.decl(f.name() + '_X', core.I, *[core.I] * len(js), f.range()) for f in d['decls']]
    for X in Xs:
        E.note(X)
    if not facts_only:
        for f, X in zip(d['decls'], Xs):
            cl.fmap[f.name()] = lambda i, X=X: (lambda *a: X(z3.simplify(i), *a))

        def val(i, *ix):
            zs = [zi(q) for q in ix]
            if d.get('mat'):
                from .mats import Mat
                return Mat(Xs[0](zi(i), *zs))
            if len(Xs) == 2:
                return Cx(mk(Xs[0](zi(i), *zs)), mk(Xs[1](zi(i), *zs)))
            return mk(Xs[0](zi(i), *zs))
        if t == 'buf':
            cl.form[k] = lambda i: (lambda *ix: val(i, *ix))
        else:
            cl.form[k] = lambda i: Arr(d['v0'].shape, lambda *ix: val(i, *ix), d['v0'].kind)
    if not declare_only:
        if len(js) != 1:
            raise Unsupported('general recurrence on a matrix of scalars')
        for x, (X, ex) in enumerate(zip(Xs, es)):
            def f0(q, X=X, x=x):
                return X(z3.IntVal(0), q) == elem_z(d, v0(mk(q)), x)
            E.facts.append((f0, 1))

            def f1(p, q, X=X, ex=ex):
                s = Lift([(js[0], q)]).z(ex)
                return z3.Implies(z3.And(p >= 0, p < zi(N)), X(z3.simplify(p + 1), q) == cl.sub(s, p))
            E.facts.append((f1, 2))
