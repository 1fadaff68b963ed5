import os
"""PyVC core: symbolic scalars, normal form, functional terms, path exploration, obligations.

Floats are treated as mathematical reals (stated assumption); ints are mathematical integers.
"""
import z3, time, math, itertools
from fractions import Fraction

z3.set_param('smt.random_seed', 1)


class Unsupported(BaseException):
    """The engine cannot treat a construct: the function is undecided, never a violation."""


class PathAbort(BaseException):
    """End the current path silently (infeasible / invariant case closed)."""


class SemanticError(Exception):
    pass


# ----------------------------------------------------------------------------------------------
# engine state
# ----------------------------------------------------------------------------------------------
class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.timeout_feas = 1500
        self.timeout_prove = 10000
        self.deadline = None
        self.solver_time = 0.0
        self.queries = 0
        self.obligations = []          # dicts
        self.max_paths = 400
        self.reset_path([])
        self.functionals = {}          # name -> record (global registry, terms are canonical)
        self.func_key = {}
        self.fresh_n = 0
        self.loop_contracts = {}
        self.manual_loops = {}
        self.backwards = False
        self.assumptions = set()
        self.functions_run = set()
        self.cover = {}

    content_cache = {}

    def reset_path(self, prefix):
        self.content_cache = {}
        self.prefix = list(prefix)
        self.decisions = []            # (choice, n_alternatives_left)
        self.pc = []
        self.facts = []                # universal facts: callables  fn(terms)->list of z3 bools
        self.triggers = {}             # sexpr -> z3 int term
        self.scope = []                # scoped assumptions (functional bodies / loop bodies)
        self.sub = None                # sub exploration object
        self.ghost_roots = []
        self.inputs = {}               # name -> description (for model concretisation)
        self.path_fresh = 0
        self.fun_facts = []            # (decl-name-prefix lemma generators)
        self.opaque_apps = {}
        self.log = []
        self.depth = 0
        self.created = []              # symbols created while a loop body is executed generically
        self.weak = None               # why the state of the current path is an over-approximation, if it is
        self.dry = 0                   # >0 while executing a loop body generically
        self.need_check = []

    # -- names are deterministic per path so that re-execution reproduces the same terms
    def fresh(self, base):
        self.path_fresh += 1
        return f"{base}!{self.path_fresh}"

    def new(self, base, *sorts):
        """fresh uninterpreted constant / function (per-iteration when created inside a summarised loop)"""
        if _iota_depth[0]:
            raise Unsupported('fresh symbol inside a functional body')
        nm = self.fresh(base)
        sorts = sorts or (R,)
        self.created.append((nm, (tuple(sorts[:-1]), sorts[-1])))
        if len(sorts) == 1:
            return z3.Const(nm, sorts[0])
        return decl(nm, *sorts)

    def note(self, f):
        """register a declaration that depends on the generic iteration"""
        d = f.decl() if isinstance(f, z3.ExprRef) else f
        self.created.append((d.name(), (tuple(d.domain(i) for i in range(d.arity())), d.range())))

    # -- assumptions --------------------------------------------------------------------------
    def all_pc(self):
        return self.pc + self.scope

    def assume(self, e):
        e = zb(e)
        if z3.is_true(e):
            return
        if self.dry:
            self.scope.append(e)
        else:
            self.pc.append(e)

    def trigger(self, t):
        t = zi(t)
        if z3.is_int_value(t):
            pass
        self.triggers.setdefault(t.sexpr(), t)

    # -- solver -----------------------------------------------------------------------------
    def check(self, exprs, timeout, want_model=False, tactic=None):
        if self.deadline and time.time() > self.deadline:
            return 'unknown', None
        s = z3.Solver()
        s.set('timeout', int(timeout))
        for x in exprs:
            s.add(x)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.solver_time += dt
        self.queries += 1
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', None

    def feasible(self, cond):
        r, _ = self.check(self.all_pc() + [cond], self.timeout_feas)
        return r != 'unsat'

    def branch(self, cond):
        """Decide a symbolic condition on this path."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.sexpr()
        for p in self.all_pc():
            if p.eq(cond):
                return True
            if z3.is_not(p) and p.arg(0).eq(cond):
                return False
            if z3.is_not(cond) and cond.arg(0).eq(p):
                return False
        d = self.sub if self.sub is not None else self
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return d.decide_bool(cond)

    def decide_bool(self, cond):
        i = len(self.decisions)
        if i < len(self.prefix):
            c = self.prefix[i][0]
            self.decisions.append(self.prefix[i])
            self.pc.append(cond if c else z3.Not(cond))
            return bool(c)
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond)) if t else True
        if t and f:
            self.decisions.append((1, [0]))
            self.pc.append(cond)
            return True
        if t:
            self.decisions.append((1, []))
            self.pc.append(cond)
            return True
        self.decisions.append((0, []))
        self.pc.append(z3.Not(cond))
        return False

    def choose(self, n, label=''):
        """Non-deterministic choice among n alternatives (explored exhaustively)."""
        if n == 1:
            return 0
        if self.sub is not None:
            return self.sub.choose(n)
        i = len(self.decisions)
        if i < len(self.prefix):
            self.decisions.append(self.prefix[i])
            return self.prefix[i][0]
        self.decisions.append((0, list(range(1, n))))
        return 0

    # -- obligations ----------------------------------------------------------------------------
    def lemma_closure(self, exprs):
        """Ground instances of the registered lemmas relevant for exprs."""
        out = []
        seen_facts = set()
        seen_fun = set()
        trig = dict(self.triggers)
        work = list(exprs)
        for rnd in range(3):
            apps, idx = collect(work + out, trig)
            new = []
            fl = list(apps.items())
            # functional congruence
            for a in range(len(fl)):
                ra = self.functionals.get(fl[a][0])
                if ra is None:
                    continue
                for x in ra.unary_lemmas(self, trig):
                    k = ('u', fl[a][0], x.sexpr())
                    if k not in seen_facts:
                        seen_facts.add(k)
                        new.append(x)
                for b in range(a + 1, len(fl)):
                    rb = self.functionals.get(fl[b][0])
                    if rb is None or rb.kind != ra.kind:
                        continue
                    k = ('c', fl[a][0], fl[b][0])
                    if k in seen_fun or len(seen_fun) > 120:
                        continue
                    seen_fun.add(k)
                    l, w = congruence(ra, rb, self)
                    if l is not None:
                        new.append(l)
                        if w is not None:
                            trig.setdefault(w.sexpr(), w)
            # opaque function lemmas
            for nm, gen in OPAQUE_LEMMAS.items():
                for app in idx.get(nm, {}).values():
                    k = ('o', nm, app.get_id())
                    if k in seen_facts:
                        continue
                    seen_facts.add(k)
                    new.extend(gen(app))
            # universal facts
            terms = list(trig.values())[:40]
            for fi, (fn, arity) in enumerate(self.facts):
                if arity == 1:
                    combos = [(t,) for t in terms]
                else:
                    combos = [(s, t) for s in terms[:14] for t in terms[:14]]
                for c in combos:
                    k = (fi,) + tuple(t.sexpr() for t in c)
                    if k in seen_facts:
                        continue
                    seen_facts.add(k)
                    x = fn(*c)
                    if x is None:
                        continue
                    x = zb(x)
                    if not z3.is_true(x):
                        new.append(x)
            if not new:
                break
            out.extend(new)
        return out

    def prove(self, goal, name, extra=()):
        goal = zb(goal)
        if self.dry:
            for c in self.need_check:
                c.need_check = True
            return 'deferred'
        t0 = time.time()
        st0 = self.solver_time
        base = self.all_pc() + list(extra)
        g = z3.simplify(goal)
        rec = dict(name=name, status=None, backend='z3', time=0.0)
        if z3.is_true(g):
            r, model = 'unsat', None
        else:
            neg = z3.Not(goal)
            lem = self.lemma_closure(base + [neg])
            # cheap attempt without the nonlinear path facts first
            r, model = self.check(lem + base + [neg], self.timeout_prove)
            if r == 'unknown':
                r2, m2 = self.check(lem + [nf_bool(x) for x in base + [neg]], self.timeout_prove)
                if r2 != 'unknown':
                    r, model = r2, m2
                else:
                    rel = relevant(base + lem, neg)
                    r2, _ = self.check(rel + [neg], self.timeout_prove)
                    if r2 == 'unsat':
                        r = 'unsat'
        rec['time'] = self.solver_time - st0
        rec['status'] = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        if r == 'sat':
            rec['model'] = self.concretise(base + [z3.Not(goal)] , model)
            rec['goal'] = str(g)[:400]
            if self.weak:
                rec['weak'] = self.weak
        rec['decisions'] = [d[0] for d in self.decisions]
        if r == 'unknown' and os.environ.get('PYVC_UNK'):
            print('UNKNOWN', name, '\nGOAL', g, '\nPC', base, '\nLEM', lem)
        self.obligations.append(rec)
        return rec['status']

    def concretise(self, exprs, model):
        """Read an input assignment for the replay out of a (preferably small) model."""
        small = []
        for nm, d in self.inputs.items():
            if d['kind'] == 'int':
                small.append(z3.And(d['e'] <= 5, d['e'] >= -5))
        bounds = []
        for nm, d in self.inputs.items():
            if d['kind'] == 'real':
                bounds.append(z3.And(d['e'] <= 50, d['e'] >= -50))
        lem = self.lemma_closure(exprs)
        for add in (small + bounds, small, []):
            r, m = self.check(lem + exprs + add, self.timeout_prove)
            if r == 'sat':
                model = m
                break
        if model is None:
            return None
        out = {}
        for nm, d in self.inputs.items():
            try:
                out[nm] = self.read_input(model, d)
            except Exception as ex:      # noqa
                out[nm] = None
        return out

    def read_input(self, model, d):
        k = d['kind']
        if k in ('int', 'real', 'bool'):
            return pyval(model.eval(d['e'], model_completion=True))
        if k == 'choice':
            return d['v']
        if k == 'array':
            shape = [s if isinstance(s, int) else pyval(model.eval(zi(s), model_completion=True)) for s in d['shape']]
            if any(s > 12 for s in shape):
                return None
            def rec(ix):
                if len(ix) == len(shape):
                    return pyval(model.eval(zv(d['fn'](*[z3.IntVal(i) for i in ix])), model_completion=True))
                return [rec(ix + [i]) for i in range(shape[len(ix)])]
            return rec([])
        return None


E = Engine()


def pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    raise ValueError(v)


class SubExplore:
    """Decision handling while a loop body is executed once in generic form."""

    def __init__(self):
        self.prefix = []
        self.decisions = []
        self.conds = []

    def start(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.conds = []

    def decide_bool(self, cond):
        i = len(self.decisions)
        if i < len(self.prefix):
            c = self.prefix[i][0]
            self.decisions.append(self.prefix[i])
        else:
            t = E.feasible(cond)
            f = E.feasible(z3.Not(cond)) if t else True
            if t and f:
                c, alt = 1, [0]
            elif t:
                c, alt = 1, []
            else:
                c, alt = 0, []
            self.decisions.append((c, alt))
        x = cond if c else z3.Not(cond)
        self.conds.append(x)
        E.scope.append(x)
        return bool(c)

    def choose(self, n):
        raise Unsupported('nondeterministic choice inside a summarised loop')


def next_prefix(decisions):
    """Depth-first successor of a decision list, or None."""
    d = list(decisions)
    while d:
        c, alts = d[-1]
        if alts:
            d[-1] = (alts[0], alts[1:])
            return d
        d.pop()
    return None


# ----------------------------------------------------------------------------------------------
# scalars
# ----------------------------------------------------------------------------------------------
def is_num(v):
    return isinstance(v, (int, float, Fraction, Sc)) and not isinstance(v, bool)


def zv(v):
    """python or symbolic value -> z3 expression"""
    if isinstance(v, (Sc, SB)):
        return v.e
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported('infinite or NaN constant in arithmetic')
        return z3.RealVal(str(Fraction(repr(v))))
    if hasattr(v, '__vc_scalar__'):
        return zv(v.__vc_scalar__())
    if getattr(v, 'shape', None) == () and hasattr(v, 'item'):
        return zv(v.item())
    import numpy as _np
    if isinstance(v, _np.bool_):
        return z3.BoolVal(bool(v))
    if isinstance(v, _np.integer):
        return z3.IntVal(int(v))
    if isinstance(v, _np.floating):
        return zv(float(v))
    raise Unsupported(f'not a scalar: {type(v).__name__}')


def zi(v):
    e = zv(v)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def zr(v):
    e = zv(v)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(e):
        return z3.simplify(z3.ToReal(e))
    return e


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SB):
        return v.e
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, Sc):
        return v.e != 0
    if isinstance(v, (int, float)):
        return z3.BoolVal(bool(v))
    import numpy as _np
    if isinstance(v, _np.bool_):
        return z3.BoolVal(bool(v))
    if hasattr(v, '__vc_scalar__'):
        return zb(v.__vc_scalar__())
    raise Unsupported(f'not a condition: {type(v).__name__}')


def is_const(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def mk(e):
    """z3 arithmetic/bool expression -> python-level value"""
    if isinstance(e, (Sc, SB, bool, int, float)):
        return e
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SB(e)
    if z3.is_int_value(e):
        return e.as_long()
    return Sc(e)


def fold(e):
    if e.num_args() and all(is_const(c) for c in e.children()):
        e = z3.simplify(e)
    return mk(e)


def coerce2(a, b):
    a, b = zv(a), zv(b)
    if z3.is_bool(a):
        a = zi(a)
    if z3.is_bool(b):
        b = zi(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.simplify(z3.ToReal(a)) if is_const(a) else z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.simplify(z3.ToReal(b)) if is_const(b) else z3.ToReal(b)
    return a, b


class _Deferred:
    pass


def arith(op, a, b):
    if isinstance(a, float) and (math.isinf(a)) or isinstance(b, float) and (math.isinf(b)):
        raise Unsupported('arithmetic with infinity')
    a, b = coerce2(a, b)
    if op == '+':
        if is_const(a) and z3.simplify(a == 0).eq(z3.BoolVal(True)):
            return mk(b)
        if is_const(b) and z3.is_true(z3.simplify(b == 0)):
            return mk(a)
        return fold(a + b)
    if op == '-':
        if is_const(b) and z3.is_true(z3.simplify(b == 0)):
            return mk(a)
        return fold(a - b)
    if op == '*':
        for x, y in ((a, b), (b, a)):
            if is_const(x):
                if z3.is_true(z3.simplify(x == 0)):
                    return mk(x)
                if z3.is_true(z3.simplify(x == 1)):
                    return mk(y)
        return fold(a * b)
    if op == '/':
        if z3.is_int(a):
            a = zr(mk(a))
        if z3.is_int(b):
            b = zr(mk(b))
        if is_const(b):
            if z3.is_true(z3.simplify(b == 0)):
                raise ZeroDivisionError('division by zero')
            if z3.is_true(z3.simplify(b == 1)):
                return mk(a)
        return fold(a / b)
    if op == '//':
        if z3.is_int(a) and z3.is_int(b):
            return fold(a / b)
        return mk(floor_z(a / b))
    if op == '%':
        if z3.is_int(a) and z3.is_int(b):
            return fold(a % b)
        return mk(a - b * z3.ToReal(z3.ToInt(a / b)))
    raise Unsupported(op)


class Sc:
    """symbolic Int or Real"""
    __slots__ = ('e',)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def _b(self, op, o, r=False):
        if isinstance(o, (int, float, Fraction, Sc, SB)) or hasattr(o, '__vc_scalar__'):
            return arith(op, o, self) if r else arith(op, self, o)
        import numpy as _np
        if isinstance(o, _np.generic):
            return arith(op, o.item(), self) if r else arith(op, self, o.item())
        if isinstance(o, complex):
            return cx(o)._bin(op, self, True) if not r else cx(o)._bin(op, self)
        return NotImplemented

    def __add__(self, o): return self._b('+', o)
    def __radd__(self, o): return self._b('+', o, True)
    def __sub__(self, o): return self._b('-', o)
    def __rsub__(self, o): return self._b('-', o, True)
    def __mul__(self, o): return self._b('*', o)
    def __rmul__(self, o): return self._b('*', o, True)
    def __truediv__(self, o): return self._b('/', o)
    def __rtruediv__(self, o): return self._b('/', o, True)
    def __floordiv__(self, o): return self._b('//', o)
    def __rfloordiv__(self, o): return self._b('//', o, True)
    def __mod__(self, o): return self._b('%', o)
    def __rmod__(self, o): return self._b('%', o, True)
    def __neg__(self): return fold(-self.e)
    def __pos__(self): return self

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def _c(self, op, o):
        if isinstance(o, float) and math.isinf(o):
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        if o is None or isinstance(o, (str, list, tuple, dict)):
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        if not (isinstance(o, (int, float, Fraction, Sc, SB)) or hasattr(o, '__vc_scalar__')):
            import numpy as _np
            if isinstance(o, _np.generic):
                o = o.item()
            elif not isinstance(o, z3.ExprRef):
                return NotImplemented
        a, b = coerce2(self, o)
        r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
             '==': lambda: a == b, '!=': lambda: a != b}[op]()
        if is_const(a) and is_const(b) or a.eq(b):
            r = z3.simplify(r)
        return mk(r)

    def __lt__(self, o): return self._c('<', o)
    def __le__(self, o): return self._c('<=', o)
    def __gt__(self, o): return self._c('>', o)
    def __ge__(self, o): return self._c('>=', o)
    def __eq__(self, o): return self._c('==', o)
    def __ne__(self, o): return self._c('!=', o)
    def __hash__(self): return hash(self.e.sexpr())

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        return concrete_int(self)

    def __float__(self):
        if is_const(self.e):
            return pyval(self.e)
        raise Unsupported('float() of a symbolic value in library code')

    def __int__(self):
        return concrete_int(self)

    def __repr__(self): return '<sym>'
    def __str__(self): return '<sym>'
    def __format__(self, spec): return '<sym>'
    def __round__(self, nd=None): raise Unsupported('round of a symbolic value')
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    # numpy scalar look-alike
    def copy(self): return self
    def item(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def conj(self): return self
    def conjugate(self): return self
    def astype(self, t): return self
    def total_seconds(self): return self


def concrete_int(s):
    e = z3.simplify(zi(s))
    if z3.is_int_value(e):
        return e.as_long()
    r, m = E.check(E.all_pc(), E.timeout_feas)
    if r == 'sat':
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            r2, _ = E.check(E.all_pc() + [e != v], E.timeout_feas)
            if r2 == 'unsat':
                return v.as_long()
    raise Unsupported('symbolic integer needed as a concrete index')


class SB:
    """symbolic Boolean"""
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __and__(self, o): return mk(z3.simplify(z3.And(self.e, zb(o))))
    __rand__ = __and__
    def __or__(self, o): return mk(z3.simplify(z3.Or(self.e, zb(o))))
    __ror__ = __or__
    def __invert__(self): return mk(z3.Not(self.e))
    def __xor__(self, o): return mk(z3.Xor(self.e, zb(o)))
    def __eq__(self, o):
        if isinstance(o, (SB, bool)):
            return mk(z3.simplify(self.e == zb(o)))
        if isinstance(o, (int, float, Sc)):
            return Sc(zi(self)) == o
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk(z3.Not(r.e))
    def __hash__(self): return hash(self.e.sexpr())
    def __repr__(self): return '<symbool>'
    def __format__(self, spec): return '<symbool>'
    def _n(self): return Sc(zi(self))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __deepcopy__(self, memo): return self
    def item(self): return self


def ite(c, a, b):
    """value-level conditional without forking"""
    c = zb(c) if not isinstance(c, z3.BoolRef) else c
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return mk(z3.If(c, zb(a), zb(b)))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if is_num(a) and is_num(b) or isinstance(a, (Sc, SB, bool)) or isinstance(b, (Sc, SB, bool)):
        x, y = coerce2(a, b)
        if x.eq(y):
            return mk(x)
        return mk(z3.If(c, x, y))
    if hasattr(a, '__vc_ite__'):
        return a.__vc_ite__(c, b)
    if hasattr(b, '__vc_ite__'):
        return b.__vc_ite__(z3.Not(c), a)
    return a if E.branch(c) else b


def power(a, b):
    if isinstance(b, Sc) and is_const(b.e):
        b = pyval(b.e)
    if isinstance(b, float) and b.is_integer():
        b = int(b)
    if isinstance(b, int):
        if b < 0:
            return 1 / power(a, -b)
        r = 1
        for _ in range(b):
            r = r * a
        return r
    if isinstance(b, float) and b == 0.5:
        return fun('sqrt', a)
    if isinstance(b, float) and b == -0.5:
        return 1 / fun('sqrt', a)
    return fun2('pow', a, b)


# ------------------------------------------------------------------------------------------------
# complex numbers as pairs
# ------------------------------------------------------------------------------------------------
class Cx:
    __slots__ = ('re', 'im')
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    def _bin(self, op, o, rev=False):
        try:
            o = cx(o)
        except Unsupported:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if op == '+':
            return Cx(a.re + b.re, a.im + b.im)
        if op == '-':
            return Cx(a.re - b.re, a.im - b.im)
        if op == '*':
            return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if op == '/':
            if not isinstance(b.im, (Sc,)) and b.im == 0:
                return Cx(a.re / b.re, a.im / b.re)
            d = b.re * b.re + b.im * b.im
            return Cx((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
        return NotImplemented

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __truediv__(self, o): return self._bin('/', o)
    def __rtruediv__(self, o): return self._bin('/', o, True)
    def __neg__(self): return Cx(-self.re, -self.im)
    def conj(self): return Cx(self.re, -self.im)
    conjugate = conj
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def __eq__(self, o):
        o = cx(o)
        return mk(z3.And(zr(self.re) == zr(o.re), zr(self.im) == zr(o.im)))
    def __hash__(self): return 7
    def __repr__(self): return '<complex>'
    def __deepcopy__(self, memo): return self


def cx(v):
    if isinstance(v, Cx):
        return v
    if isinstance(v, complex):
        return Cx(v.real, v.imag)
    if isinstance(v, (int, float, Sc, Fraction, SB)):
        return Cx(v, 0)
    if hasattr(v, '__vc_scalar__'):
        return cx(v.__vc_scalar__())
    raise Unsupported('not complex: %s' % type(v).__name__)


# ------------------------------------------------------------------------------------------------
# polynomial normal form (used to make arguments of opaque functions syntactically canonical)
# ------------------------------------------------------------------------------------------------
_nf_cache = {}
_nf_keep = []


def nf(e):
    """canonical form of an arithmetic expression (as z3 expression)"""
    k = e.get_id()
    if k in _nf_cache:
        return _nf_cache[k]
    p = poly(e)
    r = poly_to_z3(p, z3.is_int(e))
    _nf_cache[k] = r
    _nf_keep.append(e)
    _nf_cache[r.get_id()] = r
    _nf_keep.append(r)
    return r


_atom = {}       # key -> (z3 expr)
_poly_cache = {}


def atom_key(e):
    s = e.sexpr()
    _atom[s] = e
    return s


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for k, x in m2:
                d[k] = d.get(k, 0) + x
                if d[k] == 0:
                    del d[k]
            m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > 400:
        raise Unsupported('polynomial too large')
    return r


def p_inv(p, sort_int=False):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted((k, -x) for k, x in m)): 1 / Fraction(c)}
    # make the leading coefficient 1 so that a/(2b) and (a/2)/b agree
    lead = sorted(p.items(), key=lambda t: repr(t[0]))[0][1]
    q = {m: c / Fraction(lead) for m, c in p.items()}
    e = poly_to_z3(q, False)
    return {((atom_key(e), -1),): 1 / Fraction(lead)}


def poly(e):
    k = e.get_id()
    r = _poly_cache.get(k)
    if r is not None:
        return r
    r = _poly(e)
    _poly_cache[k] = r
    _nf_keep.append(e)
    return r


def _poly(e):
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): Fraction(v)} if v else {}
    if z3.is_rational_value(e):
        v = e.as_fraction()
        return {(): Fraction(v)} if v else {}
    if z3.is_add(e):
        r = {}
        for c in e.children():
            r = p_add(r, poly(c))
        return r
    if z3.is_sub(e):
        ch = e.children()
        r = poly(ch[0])
        for c in ch[1:]:
            r = p_add(r, poly(c), -1)
        return r
    k = e.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        return p_add({}, poly(e.arg(0)), -1)
    if z3.is_mul(e):
        r = {(): Fraction(1)}
        for c in e.children():
            r = p_mul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        d = poly(e.arg(1))
        if not d:
            return {((atom_key(e), 1),): Fraction(1)}
        return p_mul(poly(e.arg(0)), p_inv(d))
    if k == z3.Z3_OP_TO_REAL:
        a = e.arg(0)
        kk = a.decl().kind()
        if z3.is_add(a) or z3.is_sub(a) or z3.is_mul(a) or kk == z3.Z3_OP_UMINUS or z3.is_int_value(a):
            pi = poly(a)
            r = {}
            for m, c in pi.items():
                mm = []
                for kx, x in m:
                    ae = _atom[kx]
                    mm.append((atom_key(z3.ToReal(ae) if z3.is_int(ae) else ae), x))
                r[tuple(sorted(mm))] = c
            return r
        return {((atom_key(z3.ToReal(nf(a))), 1),): Fraction(1)}
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return ite_poly(e)
    # atom with normalised children
    return {((atom_key(nf_atom(e)), 1),): Fraction(1)}


def canon_cond(c):
    """(positive-lead polynomial, strict, negated) for a comparison with zero, else None"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return None
    a, b = c.arg(0), c.arg(1)
    p = p_add(poly(a), poly(b), -1)
    if not p or (len(p) == 1 and () in p):
        return None
    up = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    lead = p[min((m for m in p if m != ()), key=repr)]
    if lead < 0:
        p = {m: -v for m, v in p.items()}
        up = not up
    if not up:                       # p <= 0 is not p > 0
        strict, neg = not strict, not neg
    return p, strict, neg


def ite_poly(e):
    try:
        cc = canon_cond(e.arg(0))
        a, b = poly(e.arg(1)), poly(e.arg(2))
    except Unsupported:
        cc = None
        a, b = poly(e.arg(1)), poly(e.arg(2))
    if a == b:
        return a
    isint = z3.is_int(e)
    if cc is None:
        at = z3.If(nf_bool(e.arg(0)), poly_to_z3(a, isint), poly_to_z3(b, isint))
        return {((atom_key(at), 1),): Fraction(1)}
    p, strict, neg = cc
    cint = z3.is_int(e.arg(0).arg(0)) if not z3.is_not(e.arg(0)) else False
    if neg:
        a, b = b, a
    na = {m: -v for m, v in a.items()}
    sign = 1
    if na == b and (a == p or b == p):          # plus or minus an absolute value
        sign = 1 if a == p else -1
        a, b, strict = p, {m: -v for m, v in p.items()}, False
    try:
        pz = poly_to_z3(p, cint)
    except Unsupported:
        pz = poly_to_z3(p, False)
    z = z3.IntVal(0) if z3.is_int(pz) else z3.RealVal(0)
    at = z3.If(pz > z if strict else pz >= z, poly_to_z3(a, isint), poly_to_z3(b, isint))
    return {((atom_key(at), 1),): Fraction(sign)}


def nf_atom(e):
    if e.num_args() == 0:
        return e
    ch = [nf(c) if z3.is_arith(c) else (nf_bool(c) if z3.is_bool(c) else c) for c in e.children()]
    return e.decl()(*ch)


def nf_bool(e):
    k = e.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (k == z3.Z3_OP_EQ and z3.is_arith(e.arg(0))):
        a, b = e.arg(0), e.arg(1)
        try:
            d = nf(a - b)
        except Unsupported:
            return e
        z = z3.IntVal(0) if z3.is_int(d) else z3.RealVal(0)
        r = {z3.Z3_OP_LE: lambda: d <= z, z3.Z3_OP_LT: lambda: d < z, z3.Z3_OP_GE: lambda: d >= z,
             z3.Z3_OP_GT: lambda: d > z, z3.Z3_OP_EQ: lambda: d == z}[k]()
        return z3.simplify(r) if is_const(d) else r
    if e.num_args() == 0 or z3.is_quantifier(e):
        return e
    if z3.is_bool(e) and all(z3.is_bool(c) for c in e.children()):
        return e.decl()(*[nf_bool(c) for c in e.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else \
            (z3.And if k == z3.Z3_OP_AND else z3.Or)(*[nf_bool(c) for c in e.children()])
    return e


def poly_to_z3(p, as_int):
    def conv(x):
        if not as_int and z3.is_int(x):
            return z3.ToReal(x)
        return x
    if not p:
        return z3.IntVal(0) if as_int else z3.RealVal(0)
    terms = []
    for m, c in sorted(p.items(), key=lambda t: repr(t[0])):
        num, den = [], []
        for k, x in m:
            a = conv(_atom[k])
            (num if x > 0 else den).extend([a] * abs(x))
        cf = None
        if c != 1 or not num:
            if as_int:
                if c.denominator != 1:
                    raise Unsupported('fractional integer polynomial')
                cf = z3.IntVal(c.numerator)
            else:
                cf = z3.RealVal(str(c))
        fs = ([cf] if cf is not None else []) + num
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        for d in den:
            t = t / d
        terms.append(t)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def int_of_real(e):
    """the integer term equal to the real term e when e is visibly integer-valued, else None"""
    p = poly(e)
    q = {}
    for m, c in p.items():
        if c.denominator != 1:
            return None
        mm = []
        for k, x in m:
            a = _atom[k]
            if x < 0:
                return None
            if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
                a = a.arg(0)
            if not z3.is_int(a):
                return None
            mm.append((atom_key(a), x))
        q[tuple(sorted(mm))] = c
    return poly_to_z3(q, True)


def trunc(e):
    i = int_of_real(e)
    if i is not None:
        return i
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def floor_z(e):
    i = int_of_real(e)
    return i if i is not None else z3.ToInt(e)


def affine_offset(e, iota):
    """if e == iota + c with c free of iota, return c, else None"""
    d = nf(e - iota)
    if occurs(d, iota):
        return None
    return d


def occurs(e, c):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_const(x) and x.decl().name() in E.functionals:
            r = E.functionals[x.decl().name()]
            st.append(r.n)
            st.extend(r.extra)
            if not r.iota.eq(c):
                st.append(r.body)
            elif occurs(r.n, c):
                return True
            continue
        st.extend(x.children())
    return False


def occurs_decl(e, names):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in names:
            return True
        if z3.is_const(x) and x.decl().name() in E.functionals:
            r = E.functionals[x.decl().name()]
            st.append(r.body); st.append(r.n)
            st.extend(r.extra)
            continue
        st.extend(x.children())
    return False


# ------------------------------------------------------------------------------------------------
# opaque scalar functions
# ------------------------------------------------------------------------------------------------
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
_decls = {}


def decl(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _decls:
        _decls[k] = z3.Function(name, *sorts)
    return _decls[k]


PI = z3.Real('pi')


def _lem_sqrt(a):
    x = a.arg(0)
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)), z3.Implies(x > 0, a > 0)]


OPAQUE_LEMMAS = {
    'sqrt': _lem_sqrt,
    'exp': lambda a: [a > 0],
    'sin': lambda a: [a <= 1, a >= -1],
    'cos': lambda a: [a <= 1, a >= -1],
    'normcdf': lambda a: [a >= 0, a <= 1, (a >= z3.RealVal('1/2')) == (a.arg(0) >= 0), (a <= z3.RealVal('1/2')) == (a.arg(0) <= 0)],
}
MONOTONE = {'normcdf', 'exp', 'log', 'erf'}


def fun(name, a):
    if isinstance(a, Cx):
        raise Unsupported('opaque function of a complex number')
    x = nf(zr(a))
    if name == 'sqrt' and is_const(x):
        v = pyval(x)
        if v >= 0 and math.isqrt(int(v)) ** 2 == v:
            return math.isqrt(int(v)) * 1.0 if v == int(v) else mk(decl('sqrt', R, R)(x))
    if is_const(x) and z3.is_true(z3.simplify(x == 0)):
        z = {'sin': 0.0, 'cos': 1.0, 'exp': 1.0, 'erf': 0.0}.get(name)
        if z is not None:
            return z
    if name == 'log' and is_const(x) and pyval(x) > 0:
        return math.log(pyval(x))          # rounded constant (floats are reals: stated assumption)
    return mk(decl(name, R, R)(x))


def fun2(name, a, b):
    return mk(decl(name, R, R, R)(nf(zr(a)), nf(zr(b))))


# ------------------------------------------------------------------------------------------------
# functionals: array -> scalar terms (Sum, opaque objective of a vector, ...)
# ------------------------------------------------------------------------------------------------
class Functional:
    def __init__(self, name, kind, n, iota, body, extra, sort):
        self.name, self.kind, self.n, self.iota, self.body, self.extra = name, kind, n, iota, body, extra
        self.sort = sort
        self.const = z3.Const(name, sort)
        self._un = None

    def at(self, k):
        return subst(self.body, [(self.iota, k)])

    def delta(self):
        """t if every term but the one at index t is zero (Sum of [i == t] * f(i))"""
        seen, work = set(), [self.body]
        while work:
            e = work.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_eq(e) and z3.is_int(e.arg(0)):
                p = e.arg(0) - e.arg(1)
                p0 = subst(p, [(self.iota, z3.IntVal(0))])
                sl = nf(subst(p, [(self.iota, z3.IntVal(1))]) - p0)
                t = None
                if is_const(sl) and abs(pyval(sl)) == 1:
                    t = nf(-p0 * sl)
                    z = nf(p - p0 - sl * self.iota)
                    if not (is_const(z) and pyval(z) == 0):
                        t = None
                if t is not None and not occurs(t, self.iota):
                    r = z3.simplify(z3.substitute(self.body, (e, z3.BoolVal(False))))
                    if is_const(r) and pyval(r) == 0:
                        return t
            work.extend(e.children())
        return None

    def unary_lemmas(self, eng, trig=()):
        if self.kind == 'Max':
            w = z3.Int(f'argmax!{self.name}')
            trig_terms = dict(trig)
            out = [z3.Implies(self.n > 0, z3.And(w >= 0, w < self.n, self.const == self.at(w)))]
            for t in list(trig_terms.values())[:40] + [w]:
                out.append(z3.Implies(z3.And(t >= 0, t < self.n), self.const >= self.at(t)))
            trig.setdefault(w.sexpr(), w)
            return out
        if self.kind == 'Sum':
            if self._un is None:
                l = [z3.Implies(self.n <= 0, self.const == 0)]
                d = self.delta()
                if d is not None:
                    l.append(self.const == z3.If(z3.And(d >= 0, d < self.n), self.at(d), z3.RealVal(0)))
                self._un = l
            return self._un
        return []


_iota_depth = [0]


def functional(kind, n, fn, extra=(), sort=None):
    """Term for a functional of the vector [fn(0)..fn(n-1)] plus extra scalar arguments."""
    sort = R if sort is None else sort
    _iota_depth[0] += 1
    iota = z3.Int(f'iota{_iota_depth[0]}')
    nz = nf(zi(n))
    mark = len(E.scope)
    E.scope.append(z3.And(iota >= 0, iota < nz))
    try:
        b = fn(Sc(iota))
        b = zv(b)
        if z3.is_int(b):
            b = zr(mk(b))
        body = nf(b) if z3.is_arith(b) else b
    finally:
        del E.scope[mark:]
        _iota_depth[0] -= 1
    return functional_raw(kind, nz, iota, body, tuple(nf(zr(x)) for x in extra), sort)


def functional_raw(kind, nz, iota, body, extra, sort):
    # canonical bound variable: choose by nesting level of placeholders that occur free in the body
    key = (kind, nz.sexpr(), iota.sexpr(), body.sexpr(), tuple(x.sexpr() for x in extra))
    nm = E.func_key.get(key)
    if nm is None:
        nm = f'{kind}#{len(E.functionals)}'
        E.func_key[key] = nm
        E.functionals[nm] = Functional(nm, kind, nz, iota, body, extra, sort)
    return mk(E.functionals[nm].const)


def Sum(n, fn):
    if isinstance(n, Sc) and is_const(n.e):
        n = pyval(n.e)
    if isinstance(n, int):
        r = 0
        for i in range(n):
            r = r + fn(i)
        return r
    _pi = z3.Int('probe_iota')
    mark = len(E.scope)
    E.scope.append(z3.And(_pi >= 0, _pi < zi(n)))
    try:
        _probe = fn(Sc(_pi))
    finally:
        del E.scope[mark:]
    if isinstance(_probe, Cx):
        return Cx(Sum(n, lambda i: cx(fn(i)).re), Sum(n, lambda i: cx(fn(i)).im))
    return sum_linear(n, fn)


def sum_linear(n, fn):
    """Sum with linearity applied: Sum(c*a + b) = c*Sum(a) + Sum(b) for iota-free coefficients."""
    _iota_depth[0] += 1
    iota = z3.Int(f'iota{_iota_depth[0]}')
    nz = nf(zi(n))
    mark = len(E.scope)
    E.scope.append(z3.And(iota >= 0, iota < nz))
    try:
        b = zr(fn(Sc(iota)))
        p = poly(b)
        out = None
        groups = {}
        for m, c in p.items():
            dep = tuple((k, x) for k, x in m if occurs(_atom[k], iota))
            ind = tuple((k, x) for k, x in m if not occurs(_atom[k], iota))
            groups.setdefault(dep, {})
            groups[dep][ind] = groups[dep].get(ind, 0) + c
        for dep, coeff in sorted(groups.items(), key=lambda t: repr(t[0])):
            cz = poly_to_z3({m: c for m, c in coeff.items() if c}, False)
            if not dep:
                s = z3.If(nz > 0, z3.ToReal(nz), z3.RealVal(0))
            else:
                body = poly_to_z3({dep: Fraction(1)}, False)
                s = zv(functional_raw('Sum', nz, iota, nf(body), (), R))
            t = s if z3.is_true(z3.simplify(cz == 1)) else cz * s
            out = t if out is None else out + t
    finally:
        del E.scope[mark:]
        _iota_depth[0] -= 1
    return mk(out if out is not None else z3.RealVal(0))


def congruence(a, b, eng):
    """lemma: same lengths and pointwise equal bodies imply equal values (skolemised witness)"""
    if len(a.extra) != len(b.extra) or a.sort != b.sort:
        return None, None
    w = z3.Int(f'wit!{a.name}!{b.name}')
    same = [a.n == b.n] + [x == y for x, y in zip(a.extra, b.extra)]
    if z3.is_false(z3.simplify(z3.And(*same))):
        return None, None
    l = z3.Implies(z3.And(*same, z3.Implies(z3.And(w >= 0, w < a.n), a.at(w) == b.at(w))), a.const == b.const)
    return l, w


def subst(e, pairs, fmap=None):
    """substitution that also goes into the hidden bodies of functionals; fmap: decl name -> python fn"""
    memo = {}
    pm = {p[0].get_id(): p[1] for p in pairs}
    keep = [p[0] for p in pairs]

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if k in pm:
            r = pm[k]
        elif z3.is_const(x) and x.decl().name() in E.functionals:
            f = E.functionals[x.decl().name()]
            n2 = go(f.n)
            ex = tuple(go(y) for y in f.extra)
            if touches(f.body, pairs, fmap, f.iota):
                io, bd = f.iota, f.body
                if any(p[0].eq(io) or occurs(p[1], io) for p in pairs) or fmap:
                    E_alpha[0] += 1
                    io2 = z3.Int(f'alpha!{E_alpha[0]}')
                    bd = subst(bd, [(io, io2)])
                    io = io2
                b2 = subst(bd, pairs, fmap)
                if f.kind == 'Sum':
                    r = zr(Sum(mk(nf(n2)), lambda i: mk(subst(b2, [(io, zi(i))]))))
                else:
                    r = zv(functional(f.kind, mk(nf(n2)), lambda i: mk(subst(b2, [(io, zi(i))])), [mk(y) for y in ex], f.sort))
            elif n2.eq(f.n) and all(p.eq(q) for p, q in zip(ex, f.extra)):
                r = x
            else:
                r = zv(functional_raw(f.kind, nf(n2), f.iota, f.body, ex, f.sort))
        elif x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if fmap and x.decl().name() in fmap:
                r = fmap[x.decl().name()](*ch)
            elif all(p.eq(q) for p, q in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        memo[k] = r
        keep.append(x)
        return r

    return go(e)


E_alpha = [0]


def touches(body, pairs, fmap, bound):
    for p in pairs:
        if not p[0].eq(bound) and occurs(body, p[0]):
            return True
    return bool(fmap) and occurs_decl(body, fmap)


def has_func(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name() in E.functionals:
            return True
        st.extend(x.children())
    return False


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if k == z3.Z3_OP_UNINTERPRETED:
        ch = [nf(c) if z3.is_arith(c) else c for c in ch]
    return x.decl()(*ch)


def collect(exprs, trig):
    """functional constants (following bodies lazily) and opaque applications occurring in exprs"""
    apps, opq = {}, {}
    seen = set()
    st = list(exprs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            nm = x.decl().name()
            if nm in E.functionals:
                apps[nm] = x
            continue
        if z3.is_app(x):
            nm = x.decl().name()
            if nm in OPAQUE_LEMMAS:
                opq.setdefault(nm, {})[x.get_id()] = x
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for c in x.children():
                    if z3.is_int(c) and len(trig) < 60 and not z3.is_int_value(c):
                        trig.setdefault(c.sexpr(), c)
            st.extend(x.children())
    return apps, opq


def relevant(facts, goal):
    """facts sharing symbols with the goal (transitively, two rounds)"""
    def syms(e):
        s = set(); st = [e]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(x.decl().name())
            st.extend(x.children())
        return s
    cur = syms(goal)
    fs = [(f, syms(f)) for f in facts]
    out = []
    for _ in range(2):
        add = set()
        for f, s in fs:
            if s & cur:
                add |= s
        cur |= add
    return [f for f, s in fs if s & cur]


def skolem(base='k'):
    t = z3.Int(E.fresh(base))
    E.trigger(t)
    return Sc(t)
