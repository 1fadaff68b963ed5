"""Symbolic factory: the object contracts use to obtain inputs and to state pre/postconditions."""
import z3, types
from . import mats, core, arr, snp, load, loops, stubs, shadow
from .core import E, Sc, SB, Cx, mk, zi, zr, zb, zv, ite as _ite, Unsupported, PathAbort
from .arr import Arr, SList, lit


class SymbolicFactory:
    sym = True
    np = snp
    pi = snp.pi

    def __init__(self, contract):
        self.c = contract
        self.patches = []

    # ---------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None, typ=None):
        v = z3.Int(name)
        E.inputs[name] = dict(kind='int', e=v)
        E.trigger(v)
        if lo is not None:
            E.assume(v >= lo)
        if hi is not None:
            E.assume(v <= hi)
        return Sc(v)

    def real(self, name, lo=None, hi=None, pos=False):
        v = z3.Real(name)
        E.inputs[name] = dict(kind='real', e=v)
        if lo is not None:
            E.assume(v >= zr(lo))
        if hi is not None:
            E.assume(v <= zr(hi))
        if pos:
            E.assume(v > 0)
        return Sc(v)

    def bool(self, name):
        v = z3.Bool(name)
        E.inputs[name] = dict(kind='bool', e=v)
        return SB(v)

    def choice(self, name, options, more=()):
        """one of `options`, each explored as a separate path (`more`: further values only the sampled run takes)"""
        options = list(options)
        k = E.choose(len(options), name)
        E.inputs[name] = dict(kind='choice', v=k)
        return options[k]

    def case(self, name):
        """a concrete (forked) boolean"""
        return self.choice(name, [False, True])

    def array(self, name, shape, lo=None, hi=None, scale=None):
        if not isinstance(shape, tuple):
            shape = (shape,)
        f = core.decl(name, *([core.I] * len(shape)), core.R)
        E.inputs[name] = dict(kind='array', fn=lambda *i: f(*i), shape=shape)
        if lo is not None or hi is not None:
            if len(shape) == 1:
                def fact(k):
                    c = [z3.And(k >= 0, k < zi(shape[0]))]
                    p = []
                    if lo is not None:
                        p.append(f(k) >= zr(lo))
                    if hi is not None:
                        p.append(f(k) <= zr(hi))
                    return z3.Implies(c[0], z3.And(*p))
                E.facts.append((fact, 1))
            else:
                raise Unsupported('bounded matrix input')
        return Arr(shape, lambda *i: mk(f(*[zi(x) for x in i])), 'f')

    # ---------------------------------------------------------------- matrices (abstract: only the ring laws, expm, adjoint, trace)
    def mat(self, name):
        return mats.Mat(z3.Const('M:' + name, mats.MatSort))

    def matfn(self, name, arity=1):
        """arbitrary matrices indexed by integers"""
        f = core.decl('M:' + name, *([core.I] * arity), mats.MatSort)
        return lambda *i: mats.Mat(f(*[zi(x) for x in i]))

    def mats(self, name, n):
        return self.list_of(n, self.matfn(name))

    def mat_store(self, name, n):
        """a storage holding n matrices"""
        g = self.matfn(name)
        return Arr((n,), lambda i: g(i), 'o')

    def table(self, n, fn):
        """array of length n with the given entries"""
        return Arr((n,), lambda i: fn(i), 'f')

    def mat_one(self): return mats.one_mat()

    def havoc(self, a, fn):
        """the storage now holds arbitrary values, given by fn"""
        a[:] = Arr(a.shape, lambda *i: fn(*i), a.kind)

    def expm(self, m): return m.__vc_expm__()
    def mat_eq(self, a, b): return a == b

    def list_of(self, n, fn):
        """python list with n (symbolic or concrete) entries"""
        if isinstance(n, int):
            return [fn(i) for i in range(n)]
        return SList(n, fn)

    def tolist(self, a):
        return SList.from_arr(a) if not isinstance(a.shape[0], int) else [a[i] for i in range(a.shape[0])]

    def func(self, name, args=1):
        """an arbitrary (deterministic) user function, usable on scalars and elementwise on arrays"""
        if args > 2:
            f = core.decl('fn:%s' % name, *([core.R] * args), core.R)
            return lambda *a: core.mk(f(*[zr(v) for v in a]))
        d = {1: core.fun, 2: core.fun2}[args]
        return lambda *a: arr.elementwise(lambda *x: d(name, *x), *a)

    def objective(self, name, *extra):
        """an arbitrary user figure of merit of a whole vector"""
        def f(x, *a):
            x = arr.asarr(x)
            g = x.frozen()
            return core.functional('obj:' + name, x.shape[0], lambda i: g(i), [zr(v) for v in a])
        return f

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        c = zb(c)
        if z3.is_false(z3.simplify(c)):
            raise PathAbort()
        E.assume(c)

    def require_feasible(self):
        r, _ = E.check(E.all_pc(), E.timeout_feas)
        if r == 'unsat':
            raise PathAbort()

    def ensure(self, name, c):
        self.n_ensure = getattr(self, 'n_ensure', 0) + 1
        return E.prove(c if not isinstance(c, bool) else z3.BoolVal(c), name)

    def forall(self, name, n, f, lo=0):
        """prove f(i) for every lo <= i < n"""
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 4:
            for i in range(lo, n):
                self.ensure(name, f(i))
            return
        i = core.skolem('i')
        mark, fm = len(E.scope), len(E.facts)
        E.scope.append(z3.And(i.e >= zi(lo), i.e < zi(n)))
        try:
            if not E.dry:
                r, _ = E.check(E.all_pc(), E.timeout_feas)
                if r == 'unsat':
                    return
            g = f(i)
            self.ensure(name, g)
        finally:
            del E.scope[mark:]

    def forall2(self, name, n, m, f):
        j = core.skolem('j')
        mark = len(E.scope)
        E.scope.append(z3.And(j.e >= 0, j.e < zi(m)))
        try:
            i = core.skolem('i')
            E.scope.append(z3.And(i.e >= 0, i.e < zi(n)))
            r, _ = E.check(E.all_pc(), E.timeout_feas)
            if r != 'unsat':
                self.ensure(name, f(i, j))
        finally:
            del E.scope[mark:]

    def assume_forall(self, n, f, arity=1):
        if arity == 1:
            if isinstance(n, int):
                for i in range(n):
                    self.assume(f(i))
                return
            def fact(k):
                dom = z3.And(k >= 0, k < zi(n))
                if not E.feasible(dom):
                    return z3.BoolVal(True)
                mark, pcs, nd = len(E.scope), len(E.pc), len(E.decisions)
                E.scope.append(dom)
                try:
                    r = z3.Implies(dom, zb(f(Sc(k))))
                    if any(d[1] for d in E.decisions[nd:]):
                        raise Unsupported('fork inside an assumption')
                    return r
                except IndexError:          # k outside the domain on this path
                    return z3.BoolVal(True)
                finally:
                    del E.scope[mark:]
                    del E.pc[pcs:]
            E.facts.append((fact, 1))
        else:
            E.facts.append((lambda k, l: z3.Implies(z3.And(k >= 0, k < zi(n), l >= 0, l < zi(n)), zb(f(Sc(k), Sc(l)))), 2))

    def hint(self, t):
        """ground term at which universal facts are to be instantiated"""
        if isinstance(t, int) and not isinstance(t, bool):
            E.trigger(z3.IntVal(t))
        elif isinstance(t, Sc):
            E.trigger(t)

    def skolem(self, name, lo, hi):
        """an arbitrary index lo <= k < hi (an input)"""
        v = z3.Int(name)
        E.inputs[name] = dict(kind='int', e=v)
        E.trigger(v)
        E.assume(z3.And(v >= zi(lo), v < zi(hi)))
        return Sc(v)

    def eq(self, a, b, tol=None):
        if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
            a, b = core.cx(a), core.cx(b)
            return mk(z3.And(zr(a.re) == zr(b.re), zr(a.im) == zr(b.im)))
        if getattr(a, '__vc_mat__', False):
            return a == b
        if a is None or b is None:
            return a is b
        x, y = core.coerce2(a, b)
        if not is_trivial(x, y):
            try:
                if core.nf(x - y).eq(core.nf(x - x)):
                    return True
            except Unsupported:
                pass
        return mk(z3.simplify(x == y) if x.eq(y) else x == y)

    exact_eq = eq

    def re(self, x): return x.re if isinstance(x, Cx) else x

    def le(self, a, b, tol=None):
        return a <= b

    def lt(self, a, b):
        return a < b

    exact_le = le

    def and_(self, *c): return mk(z3.simplify(z3.And(*[zb(x) for x in c])))
    def or_(self, *c): return mk(z3.simplify(z3.Or(*[zb(x) for x in c])))
    def not_(self, c): return mk(z3.Not(zb(c)))
    def implies(self, a, b): return mk(z3.Implies(zb(a), zb(b)))
    def iff(self, a, b): return mk(zb(a) == zb(b))
    def ite(self, c, a, b): return _ite(zb(c), a, b)

    def vec_eq(self, name, a, b):
        """arrays equal: same length and elementwise"""
        a, b = arr.asarr(a), arr.asarr(b)
        if len(a.shape) != len(b.shape):
            return self.ensure(name + '.shape', False)
        for x, y in zip(a.shape, b.shape):
            self.ensure(name + '.length', self.eq(x, y))
        f, g = a.frozen(), b.frozen()
        if len(a.shape) == 0:
            return self.ensure(name, self.eq(f(), g()))
        if len(a.shape) == 1:
            self.forall(name, a.shape[0], lambda i: self.eq(f(i), g(i)))
        else:
            j = core.skolem('j')
            mark = len(E.scope)
            E.scope.append(z3.And(j.e >= 0, j.e < zi(a.shape[1])))
            try:
                self.forall(name, a.shape[0], lambda i: self.eq(f(i, j), g(i, j)))
            finally:
                del E.scope[mark:]

    def nonempty(self, *names):
        pass

    # ---------------------------------------------------------------- mathematics
    def sum(self, n, f): return core.Sum(n, f)
    def fn(self, name, x): return core.fun(name, x)
    def sin(self, x): return core.fun('sin', x)
    def cos(self, x): return core.fun('cos', x)
    def exp(self, x): return core.fun('exp', x)
    def sqrt(self, x): return core.fun('sqrt', x)
    def erf(self, x): return core.fun('erf', x)
    def arccos(self, x): return core.fun('arccos', x)
    def normcdf(self, x): return core.fun('normcdf', x)
    def max2(self, a, b): return _ite(zr(a) >= zr(b), a, b)
    def min2(self, a, b): return _ite(zr(a) <= zr(b), a, b)

    def argmax(self, name, x, sign=1):
        """an index at which the (non-empty) array x attains its maximum"""
        a = arr.asarr(x)
        g = a.frozen()
        n = a.shape[0]
        p = core.skolem(name)
        E.assume(z3.And(p.e >= 0, p.e < zi(n)))
        E.trigger(p.e)
        top = zr(g(p))
        E.facts.append((lambda k: z3.Implies(z3.And(k >= 0, k < zi(n)), zr(g(Sc(k))) <= top if sign > 0 else zr(g(Sc(k))) >= top), 1))
        return p

    def argmin(self, name, x):
        return self.argmax(name, x, -1)

    # ---------------------------------------------------------------- code under contract
    def mod(self, name):
        return load.mod(name)

    def patch(self, obj, attr, val):
        self.patches.append((obj, attr, obj.__dict__.get(attr, _NO)))
        setattr(obj, attr, val)

    def scramble(self):
        """what no seed fixes is different from now on: the order of sets"""
        E.backwards = True

    def undo(self):
        E.backwards = False
        for o, a, v in reversed(self.patches):
            if v is _NO:
                delattr(o, a)
            else:
                setattr(o, a, v)
        self.patches = []

    def ghost(self, obj):
        E.ghost_roots.append(obj)
        return obj

    def raises(self, f, *exc):
        """(raised, value)"""
        try:
            return False, f()
        except (exc or (Exception,)) as ex:
            return True, ex

    def loop_inv(self, qualname, inv):
        E.loop_contracts[qualname] = inv

    def loop_manual(self, qualname, m):
        E.manual_loops[qualname] = m

    def columns(self, rows, n):
        from . import vecs
        return vecs.AMat(rows, n)

    def known(self, c):
        return not E.feasible(z3.Not(zb(c)))

    def unsupported(self, why):
        raise Unsupported(why)

    def rng(self, seed):
        return snp.SymRng(seed)

    def length(self, x):
        return shadow.vc_len(x)

    def newobj(self, cls, **attrs):
        """instance without running its constructor (fields given by the precondition)"""
        o = cls.__new__(cls)
        o.__dict__.update(attrs)
        return o

    def note(self, *a):
        pass


_NO = object()


def is_trivial(x, y):
    return x.eq(y)
