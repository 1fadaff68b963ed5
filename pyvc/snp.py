"""numpy facade on symbolic arrays (trusted model of the numpy operations the code uses)."""
import z3, math
import builtins as _bi
import numpy as _np
from fractions import Fraction
from . import core
from .core import E, Sc, SB, Cx, cx, mk, zv, zi, zr, zb, ite, Unsupported, fun, functional, is_num
from .core import Sum as _Sum
from .arr import Arr, SList, SRange, asarr, elementwise, lit, same_dim, bc, ceq, pick, in_range

ndarray = Arr


class _DT(type):
    def __instancecheck__(cls, x):
        return cls._chk(x)


def _mkdt(name, kind, chk):
    return _DT(name, (), {'kind': kind, '_chk': staticmethod(chk), '__new__': lambda c, v=0, *a: _conv(kind, v),
                          'name': name})


def _conv(kind, v):
    if isinstance(v, (list, tuple, SList, Arr)):
        return array(v, dtype=kind)
    if kind == 'f':
        return v if not isinstance(v, int) else (float(v) if not isinstance(v, bool) else float(v))
    if kind == 'i':
        if isinstance(v, Sc) and z3.is_real(v.e):
            return mk(core.trunc(v.e))
        return v if isinstance(v, Sc) else int(v)
    return v


_isreal = lambda x: isinstance(x, Sc) and z3.is_real(x.e)
float64 = _mkdt('float64', 'f', _isreal)
float32 = _mkdt('float32', 'f', _isreal)
floating = _mkdt('floating', 'f', _isreal)
int64 = _mkdt('int64', 'i', lambda x: False)
int32 = _mkdt('int32', 'i', lambda x: False)
integer = _mkdt('integer', 'i', lambda x: False)
number = _mkdt('number', 'f', _isreal)
generic = _mkdt('generic', 'f', _isreal)
bool_ = _mkdt('bool_', 'b', lambda x: False)
complex128 = _mkdt('complex128', 'c', lambda x: isinstance(x, Cx))
complex64 = complex128
complexfloating = complex128
object_ = _mkdt('object_', 'o', lambda x: False)
newaxis = None
inf = math.inf
nan = math.nan
pi = Sc(core.PI)
e = Sc(core.decl('euler', core.R)() if False else z3.Real('euler_e'))


def kind_of(t):
    if t is None:
        return None
    if t in ('f', 'i', 'b', 'c', 'o'):
        return t
    if hasattr(t, 'kind') and isinstance(getattr(t, 'kind'), str):
        return t.kind
    n = t if isinstance(t, str) else getattr(t, '__name__', '')
    n = n.lower()
    if 'complex' in n:
        return 'c'
    if 'float' in n or n == 'vc_float':
        return 'f'
    if 'int' in n:
        return 'i'
    if 'bool' in n:
        return 'b'
    if 'object' in n:
        return 'o'
    raise Unsupported('dtype %r' % (t,))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_dim(x) for x in s)
    return (_dim(s),)


def _dim(x):
    x = lit(x)
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(x, Sc) and z3.is_real(x.e):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(x, int) and x < 0:
        raise ValueError('negative dimensions are not allowed')
    return x


def full(shape, v, dtype=None):
    if isinstance(v, (Arr, list, SList)):
        va = asarr(v)
        shp = _shape(shape)
        return Arr(shp, bc(va, shp), va.kind)
    return Arr(_shape(shape), lambda *i: v, kind_of(dtype) or ('i' if isinstance(v, int) else 'f'))


def zeros(shape, dtype=None, **k):
    kd = kind_of(dtype) or 'f'
    return Arr(_shape(shape), lambda *i: 0 if kd == 'i' else (False if kd == 'b' else 0.0), kd)


def ones(shape, dtype=None, **k):
    kd = kind_of(dtype) or 'f'
    return Arr(_shape(shape), lambda *i: 1 if kd == 'i' else 1.0, kd)


def empty(shape, dtype=None, **k):
    kd = kind_of(dtype) or 'f'
    shp = _shape(shape)
    f = E.new('uninit', *([core.I] * len(shp)), core.R)
    if len(shp) == 0:
        return Arr((), lambda: mk(f), kd)
    if kd == 'o':
        return Arr(shp, lambda *i: None, kd)
    if kd == 'c':
        return Arr(shp, lambda *i: Cx(mk(f(*[zi(x) for x in i])), 0.0), kd)
    return Arr(shp, lambda *i: mk(f(*[zi(x) for x in i])), kd)


def zeros_like(a, dtype=None):
    if getattr(a, '__vc_mat__', False):
        from . import mats
        return mats.zero_mat()
    a = asarr(a)
    return zeros(a.shape, dtype or a.kind)


def ones_like(a, dtype=None):
    a = asarr(a)
    return ones(a.shape, dtype or a.kind)


def full_like(a, v, dtype=None):
    return full(asarr(a).shape, v)


def empty_like(a, dtype=None):
    return empty(asarr(a).shape, dtype)


def array(v, dtype=None, copy=True, ndmin=0):
    a = asarr(v)
    a = a.copy()
    k = kind_of(dtype)
    if k and k != a.kind:
        a = a.astype(k)
    return a


def asarray(v, dtype=None):
    a = asarr(v)
    k = kind_of(dtype)
    if k and k != a.kind:
        a = a.astype(k)
    return a


def asanyarray(v, dtype=None):
    return asarray(v, dtype)


def copy(a):
    return asarr(a).copy()


def atleast_1d(a):
    a = asarr(a)
    return a if a.shape else Arr((1,), lambda i: a.at_(), a.kind)


def squeeze(a):
    return asarr(a).squeeze()


def ravel(a):
    return asarr(a).reshape(-1)


def reshape(a, s):
    return asarr(a).reshape(s)


def transpose(a):
    return asarr(a).T


def shape(a):
    return asarr(a).shape


def size(a):
    return asarr(a).size


def ndim(a):
    return len(asarr(a).shape)


def linspace(start, stop, num=50, endpoint=True, dtype=None):
    n = _dim(num)
    if not endpoint:
        return Arr((n,), lambda i: start + i * ((stop - start) / (1.0 * n)), 'f')

    if not isinstance(n, int) and not isinstance(start, Arr) and bool(n == 1):     # forks: numpy's single sample is the start
        return Arr((n,), lambda i: start + 0.0, 'f')

    def fn(i):
        if isinstance(n, int):
            if n == 1:
                return start + 0.0
            if isinstance(i, int):
                return start + (stop - start) * Fraction(i, n - 1)
        return start + i * ((stop - start) / (1.0 * (n - 1)))
    return Arr((n,), fn, 'f')


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if isinstance(step, int) and step == 1 and not isinstance(a, float) and not isinstance(b, float):
        n = SRange(a, b).vc_len()
        return Arr((n,), lambda i: lit(a + i), 'i')
    raise Unsupported('arange')


def identity(n, dtype=None):
    return Arr((n, n), lambda i, j: mk(z3.If(ceq(i, j), z3.RealVal(1), z3.RealVal(0))), 'f')


def eye(n, m=None, dtype=None):
    return identity(n)


def diag(v):
    a = asarr(v)
    f = a.frozen()
    if len(a.shape) == 1:
        return Arr((a.shape[0],) * 2, lambda i, j: ite(ceq(i, j), f(i), 0.0), a.kind)
    return Arr((a.shape[0],), lambda i: f(i, i), a.kind)


def _u(name):
    def f(a):
        if isinstance(a, (list, tuple, SList)):
            a = asarr(a)
        return elementwise(lambda x: fun(name, x), a)
    f.__name__ = name
    return f


sin, cos, exp, sqrt, arccos, arcsin, arctan, tan, log, sinh, cosh, tanh, log10 = map(
    _u, ['sin', 'cos', 'exp', 'sqrt', 'arccos', 'arcsin', 'arctan', 'tan', 'log', 'sinh', 'cosh', 'tanh', 'log10'])
_exp_real = exp


def absolute(a):
    return elementwise(abs, asarr(a) if isinstance(a, (list, SList)) else a)


abs_ = absolute
fabs = absolute


def square(a):
    return elementwise(lambda x: x * x, a)


def power(a, b):
    return elementwise(core.power, a, b)


def sign(a):
    return elementwise(lambda x: mk(z3.If(zr(x) > 0, z3.RealVal(1), z3.If(zr(x) < 0, z3.RealVal(-1), z3.RealVal(0)))), a)


def floor(a):
    return elementwise(lambda x: math.floor(x) * 1.0 if isinstance(x, (int, float)) else mk(z3.ToReal(core.floor_z(zr(x)))), a)


def ceil(a):
    return elementwise(lambda x: math.ceil(x) * 1.0 if isinstance(x, (int, float)) else mk(-z3.ToReal(core.floor_z(-zr(x)))), a)


def rint(a):
    raise Unsupported('rint')


def _c2(a):
    return asarr(a) if isinstance(a, (list, tuple, SList)) else a


def maximum(a, b):
    return elementwise(lambda x, y: ite(zr(x) >= zr(y), x, y), _c2(a), _c2(b))


def minimum(a, b):
    return elementwise(lambda x, y: ite(zr(x) <= zr(y), x, y), _c2(a), _c2(b))


fmax, fmin = maximum, minimum


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    return elementwise(lambda p, x, y: ite(zb(p), x, y), _c2(c), _c2(a), _c2(b))


def add(a, b): return _c2(a) + _c2(b)
add.reduce = lambda a, axis=0: sum(a, axis)
def subtract(a, b): return _c2(a) - _c2(b)
def multiply(a, b): return _c2(a) * _c2(b)
def divide(a, b): return _c2(a) / _c2(b)


true_divide = divide


def negative(a): return -_c2(a)
def logical_and(a, b): return elementwise(lambda x, y: mk(z3.And(zb(x), zb(y))), a, b)
def logical_or(a, b): return elementwise(lambda x, y: mk(z3.Or(zb(x), zb(y))), a, b)
def logical_not(a): return elementwise(lambda x: mk(z3.Not(zb(x))), a)


def isnan(a): return elementwise(lambda x: False, a)
def isinf(a): return elementwise(lambda x: isinstance(x, float) and math.isinf(x), a)
def isfinite(a): return elementwise(lambda x: not (isinstance(x, float) and math.isinf(x)), a)


def isscalar(a):
    return is_num(a) or isinstance(a, (SB, bool, str))


def real(a): return elementwise(lambda x: cx(x).re, a)
def imag(a): return elementwise(lambda x: cx(x).im, a)
def conj(a): return a.conj() if hasattr(a, 'conj') else a


conjugate = conj


def _all_conc(*d):
    return _bi.all(isinstance(x, int) for x in d)


def sum(a, axis=None, **k):
    if not isinstance(a, (Arr, list, tuple, SList)):
        return a
    a = asarr(a)
    f = a.frozen()
    if len(a.shape) == 0:
        return f()
    if len(a.shape) == 1:
        return _Sum(a.shape[0], lambda i: _b2n(f(i)))
    if len(a.shape) == 2:
        n, m = a.shape
        if axis is None:
            return _Sum(n, lambda i: _Sum(m, lambda j: _b2n(f(i, j))))
        if axis == 0:
            return Arr((m,), lambda j: _Sum(n, lambda i: f(i, j)), a.kind)
        if axis in (1, -1):
            return Arr((n,), lambda i: _Sum(m, lambda j: f(i, j)), a.kind)
    raise Unsupported('sum axis')


def _b2n(x):
    return (1 if x else 0) if isinstance(x, bool) else (Sc(zi(x)) if isinstance(x, SB) else x)


def mean(a, axis=None):
    a = asarr(a)
    if axis is None:
        return sum(a) / (1.0 * a.size)
    if axis == 0 and len(a.shape) == 2:
        return sum(a, 0) / (1.0 * a.shape[0])
    raise Unsupported('mean axis')


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    w = asarr(weights)
    return sum(asarr(a) * w) / sum(w)


def var(a):
    a = asarr(a)
    m = mean(a)
    return mean(elementwise(lambda x: (x - m) * (x - m), a))


def std(a, axis=None):
    if axis is not None:
        raise Unsupported('std axis')
    return fun('sqrt', var(a))


def median(a):
    raise Unsupported('median')


def prod(a):
    a = asarr(a)
    if isinstance(a.shape[0], int) and len(a.shape) == 1:
        r = 1.0
        for i in range(a.shape[0]):
            r = r * a.at_(i)
        return r
    raise Unsupported('prod')


def amax(a, axis=None, **k):
    if not isinstance(a, (Arr, list, tuple, SList)):
        return a
    if axis is not None:
        raise Unsupported('max axis')
    a = asarr(a)
    f = a.frozen()
    if len(a.shape) == 2:
        n, m = a.shape
        if not _all_conc(n, m):
            if not E.branch(z3.And(zi(n) > 0, zi(m) > 0)):
                raise ValueError('zero-size array to reduction operation')
        return _max(n, lambda i: _max(m, lambda j: f(i, j), a.kind), a.kind)
    if len(a.shape) == 0:
        return f()
    if len(a.shape) != 1:
        raise Unsupported('max of a 3d array')
    n = a.shape[0]
    if isinstance(n, int):
        if n == 0:
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
    elif not E.branch(zi(n) > 0):
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    return _max(n, f, a.kind)


def _max(n, f, kind):
    if isinstance(n, int):
        r = f(0)
        for i in range(1, n):
            x = f(i)
            r = ite(zr(x) > zr(r), x, r) if not (is_num(x) and is_num(r) and not isinstance(x, Sc) and not isinstance(r, Sc)) else (x if x > r else r)
        return r
    v = _max_affine(n, f)
    if kind == 'i':
        return mk(z3.ToInt(zr(v)))
    return v


def _max_affine(n, f):
    """Max(c*x_i + b) = c*Max(x_i) + b (c >= 0) resp. c*Min(x_i) + b (c <= 0) when c, b do not depend on i"""
    core._iota_depth[0] += 1
    iota = z3.Int(f'iota{core._iota_depth[0]}')
    mark = len(E.scope)
    E.scope.append(z3.And(iota >= 0, iota < zi(n)))
    try:
        b = zr(f(Sc(iota)))
        p = core.poly(b)
    finally:
        del E.scope[mark:]
        core._iota_depth[0] -= 1
    dep, ind = {}, {}
    for m, c in p.items():
        d = tuple((k, x) for k, x in m if core.occurs(core._atom[k], iota))
        r = tuple((k, x) for k, x in m if not core.occurs(core._atom[k], iota))
        if d:
            dep.setdefault(d, {})[r] = c
        else:
            ind[r] = c
    if not dep:
        return mk(core.poly_to_z3(ind, False))
    # common factor of all the coefficients (up to a rational number)
    ks = sorted(dep, key=repr)
    lead = dep[ks[0]]
    ratios = {}
    for k in ks:
        o = dep[k]
        if set(o) != set(lead):
            return functional('Max', n, f)
        qs = {o[m] / lead[m] for m in lead}
        if len(qs) != 1:
            return functional('Max', n, f)
        ratios[k] = qs.pop()
    if len(lead) == 1 and () in lead:
        c = z3.RealVal(str(abs_py(lead[()])))
        sgn = 1 if lead[()] > 0 else -1
        rat = {k: ratios[k] * sgn for k in ks}
        sign = 1
    else:
        c = core.poly_to_z3(lead, False)
        rat = ratios
        sign = 1 if E.known(c >= 0) else (-1 if E.known(c <= 0) else 0)
        if sign == 0:
            return functional('Max', n, f)
    if sign < 0:
        rat = {k: -v for k, v in rat.items()}
        c = -c
    body = core.poly_to_z3({k: v for k, v in rat.items()}, False)
    sub = lambda i: mk(core.subst(body, [(iota, zi(i))]))
    v = functional('Max', n, sub)
    r = v if z3.is_true(z3.simplify(c == 1)) else mk(c) * v
    return r + mk(core.poly_to_z3(ind, False)) if ind else r


def abs_py(x):
    return -x if x < 0 else x


def amin(a, axis=None, **k):
    if not isinstance(a, (Arr, list, tuple, SList)):
        return a
    return -amax(-asarr(a), axis)


max, min = amax, amin


def ptp(a):
    return amax(a) - amin(a)


def all(a, axis=None):
    if isinstance(a, (bool, SB)):
        return a
    a = asarr(a)
    if len(a.shape) == 0:
        return a.at_()
    if len(a.shape) == 1 and isinstance(a.shape[0], int):
        return mk(z3.simplify(z3.And(*[zb(a.at_(i)) for i in range(a.shape[0])])))
    if len(a.shape) == 1:
        f = a.frozen()
        return ~any(Arr([a.shape[0]], lambda i: mk(z3.Not(zb(f(i)))), 'b'))
    raise Unsupported('all over a symbolic array')


def any(a, axis=None):
    if isinstance(a, (bool, SB)):
        return a
    a = asarr(a)
    if len(a.shape) == 0:
        return a.at_()
    if len(a.shape) == 1 and isinstance(a.shape[0], int):
        return mk(z3.simplify(z3.Or(*[zb(a.at_(i)) for i in range(a.shape[0])])))
    if len(a.shape) == 1:
        f = a.frozen()
        v = functional('Max', a.shape[0], lambda i: mk(z3.If(zb(f(i)), z3.RealVal(1), z3.RealVal(0))))
        return mk(z3.And(zi(a.shape[0]) > 0, zr(v) == 1))
    raise Unsupported('any over a symbolic array')


def _same_shape(a, b):
    if len(a.shape) != len(b.shape):
        return False
    c = [ceq(m, n) for m, n in zip(a.shape, b.shape)]
    return c[0] if len(c) == 1 else (True if not c else mk(z3.And(*[zb(x) for x in c])))


def array_equal(a, b, equal_nan=False):
    if _opaque(a) or _opaque(b):
        raise Unsupported('array_equal')
    a, b = asarr(a), asarr(b)
    if not _same_shape(a, b):
        return False
    return all(a == b)


def _opaque(a):
    return getattr(a, '__vc_vec__', False) or getattr(a, '__vc_mat__', False) or isinstance(a, Cx)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if _opaque(a) or _opaque(b):
        raise Unsupported('isclose')
    if not isinstance(a, (Arr, list, tuple, SList)) and not isinstance(b, (Arr, list, tuple, SList)):
        return abs_py(a - b) <= atol + rtol * abs_py(b)
    a, b = asarr(a), asarr(b)
    return absolute(a - b) <= atol + rtol * absolute(b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all(isclose(a, b, rtol, atol))


def dot(a, b):
    if getattr(a, '__vc_vec__', False):
        return a.ip(b)
    if getattr(a, '__vc_mat__', False) or getattr(b, '__vc_mat__', False):
        return a @ b
    if is_num(a) or is_num(b):
        return a * b
    a, b = asarr(a), asarr(b)
    f, g = a.frozen(), b.frozen()
    if len(a.shape) == 1 and len(b.shape) == 1:
        if not same_dim(a.shape[0], b.shape[0]):
            raise ValueError('shapes not aligned')
        return _Sum(a.shape[0], lambda i: f(i) * g(i))
    if len(a.shape) == 2 and len(b.shape) == 1:
        if not same_dim(a.shape[1], b.shape[0]):
            raise ValueError('shapes not aligned')
        return Arr((a.shape[0],), lambda i: _Sum(a.shape[1], lambda k: f(i, k) * g(k)), a.kind)
    if len(a.shape) == 1 and len(b.shape) == 2:
        if not same_dim(a.shape[0], b.shape[0]):
            raise ValueError('shapes not aligned')
        return Arr((b.shape[1],), lambda j: _Sum(a.shape[0], lambda k: f(k) * g(k, j)), a.kind)
    if len(a.shape) == 2 and len(b.shape) == 2:
        if not same_dim(a.shape[1], b.shape[0]):
            raise ValueError('shapes not aligned')
        return Arr((a.shape[0], b.shape[1]), lambda i, j: _Sum(a.shape[1], lambda k: f(i, k) * g(k, j)), a.kind)
    raise Unsupported('dot')


def matmul(a, b):
    return dot(a, b)


def inner(a, b):
    return dot(a, b)


def vdot(a, b):
    return dot(conj(asarr(a)), b)


def outer(a, b):
    a, b = asarr(a), asarr(b)
    f, g = a.frozen(), b.frozen()
    return Arr((a.shape[0], b.shape[0]), lambda i, j: f(i) * g(j), a.kind)


def trace(a):
    if getattr(a, '__vc_mat__', False):
        return a.trace()
    a = asarr(a)
    f = a.frozen()
    return _Sum(a.shape[0], lambda i: f(i, i))


def kron(a, b):
    raise Unsupported('kron')


def append(a, v, axis=None):
    a = asarr(a)
    if isinstance(v, (list, tuple, Arr, SList)):
        return concatenate((a, asarr(v)), axis or 0)
    n = a.shape[0]
    f = a.frozen()
    return Arr((lit(n + 1),), lambda i: ite(z3.simplify(zi(i) < zi(n)), f(i), v), a.kind)


def concatenate(seq, axis=0):
    seq = [asarr(s) for s in seq]
    if len(seq) == 1:
        return seq[0].copy()
    if len(seq) > 2:
        return concatenate((seq[0], concatenate(seq[1:], axis)), axis)
    a, b = seq
    f, g = a.frozen(), b.frozen()
    n = a.shape[0]
    if len(a.shape) != len(b.shape):
        raise ValueError('all the input array dimensions must match')
    if axis != 0:
        raise Unsupported('concatenate axis')
    if len(a.shape) == 2 and not same_dim(a.shape[1], b.shape[1]):
        raise ValueError('dimensions must match')
    return Arr((lit(n + b.shape[0]),) + tuple(a.shape[1:]),
               lambda i, *r: ite(z3.simplify(zi(i) < zi(n)), f(i, *r), g(lit(i - n), *r)), a.kind)


def hstack(seq):
    return concatenate(seq)


def vstack(seq):
    rows = [asarr(s) for s in seq]
    rows = [r if len(r.shape) == 2 else r[None, :] for r in rows]
    return concatenate(rows)


def stack(seq, axis=0):
    return asarr(list(seq))


def column_stack(seq):
    return asarr(list(seq)).T


def tile(a, n):
    a = asarr(a)
    if isinstance(n, (tuple, list)) and len(n) == 2 and len(a.shape) == 1 and isinstance(n[1], int) and n[1] == 1:
        f = a.frozen()
        return Arr((n[0], a.shape[0]), lambda i, j: f(j), a.kind)
    raise Unsupported('tile')


def triu(a, k=0):
    a = asarr(a)
    if len(a.shape) != 2:
        raise Unsupported('triu')
    f = a.frozen()
    return Arr(a.shape, lambda i, j: ite(mk(zi(j) - zi(i) >= zi(k)), f(i, j), 0.0), a.kind)


def tril(a, k=0):
    a = asarr(a)
    f = a.frozen()
    return Arr(a.shape, lambda i, j: ite(mk(zi(j) - zi(i) <= zi(k)), f(i, j), 0.0), a.kind)


def repeat(a, n):
    raise Unsupported('repeat')


def flip(a, axis=None):
    a = asarr(a)
    if len(a.shape) == 1:
        return a[::-1].copy()
    raise Unsupported('flip')


def cumsum(a):
    a = asarr(a)
    f = a.frozen()
    return Arr(a.shape, lambda i: _Sum(lit(i + 1), f), a.kind)


def diff(a):
    a = asarr(a)
    f = a.frozen()
    return Arr((lit(a.shape[0] - 1),), lambda i: f(lit(i + 1)) - f(i), a.kind)


class Perm:
    """sorting permutation of a vector: axiomatised bijection on [0,n) that sorts (stable not assumed)"""
    reg = {}


def _content_key(a):
    """identity of a vector's contents (argsort is a function of the contents); only outside summarised loops"""
    from . import loops
    if loops.CTL or a.kind not in ('f', 'i') or len(a.shape) != 1:
        return None
    io = z3.Int('content_iota')
    f = a.frozen()
    mark = len(E.scope)
    E.scope.append(z3.And(io >= 0, io < zi(a.shape[0])))
    try:
        b = core.nf(zr(f(Sc(io))))
    finally:
        del E.scope[mark:]
    return ('argsort', core.nf(zi(a.shape[0])).sexpr(), b.sexpr())


def _pick(order, z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z3.IntVal(order[z.as_long()])
    r = z3.IntVal(order[-1])
    for k in range(len(order) - 2, -1, -1):
        r = z3.If(z == k, z3.IntVal(order[k]), r)
    return r


def _small_order(vals):
    """every sorting permutation (ties in either order), one per path"""
    def below(i, j):
        a, b = zr(vals[i]), zr(vals[j])
        le, ge = z3.simplify(a <= b), z3.simplify(b <= a)
        cl, cg = (not z3.is_false(le)) and (z3.is_true(le) or E.feasible(le)), (not z3.is_false(ge)) and (z3.is_true(ge) or E.feasible(ge))
        if cl and cg and not (z3.is_true(le) and z3.is_true(ge)):
            first = E.choose(2) == 0
        else:
            first = cl
        E.assume(le if first else ge)
        return first
    order = []
    for k in range(len(vals)):
        pos = len(order)
        while pos > 0 and not below(order[pos - 1], k):
            pos -= 1
        order.insert(pos, k)
    return order


def argsort(a, axis=-1, kind=None):
    a = asarr(a)
    if len(a.shape) != 1:
        raise Unsupported('argsort of a matrix')
    n = a.shape[0]
    f = a.frozen()
    if isinstance(n, int) and n <= 1:
        return Arr((n,), lambda i: 0, 'i')
    if core._iota_depth[0]:
        raise Unsupported('argsort inside a functional')
    key = _content_key(a)
    if key is not None and key in E.content_cache:
        p = E.content_cache[key]
        return Arr((n,), lambda i: mk(p(zi(i))), 'i')
    if isinstance(n, int) and n <= 5:
        order = _small_order([f(i) for i in range(n)])
        pick = lambda i: order[i] if isinstance(i, int) else mk(_pick(order, zi(i)))
        if key is not None:
            E.content_cache[key] = lambda z: _pick(order, z)
        return Arr((n,), pick, 'i')
    p = E.new('perm', core.I, core.I)
    q = E.new('perminv', core.I, core.I)
    if key is not None:
        E.content_cache[key] = p
    nz = zi(n)

    def rng(k):
        return z3.And(k >= 0, k < nz)

    def one(k):
        return z3.Implies(rng(k), z3.And(rng(p(k)), rng(q(k)), q(p(k)) == k, p(q(k)) == k))

    def two(k, l):
        return z3.Implies(z3.And(rng(k), rng(l), k <= l), zr(f(mk(p(k)))) <= zr(f(mk(p(l)))))
    E.facts.append((one, 1))
    E.facts.append((two, 2))
    E.trigger(z3.IntVal(0))
    E.trigger(z3.simplify(nz - 1))
    return Arr((n,), lambda i: mk(p(zi(i))), 'i')


def sort(a, axis=-1):
    a = asarr(a)
    idx = argsort(a)
    f, g = a.frozen(), idx.frozen()
    return Arr(a.shape, lambda i: f(g(i)), a.kind)


def take(a, idx, axis=None):
    a = asarr(a)
    if isinstance(idx, (Arr, list, SList)):
        idx = asarr(idx)
        if axis in (None, 0) and (axis == 0 or len(a.shape) == 1):
            f, g = a.frozen(), idx.frozen()
            return Arr(idx.shape + a.shape[1:], lambda i, *r: f(g(i), *r), a.kind)
        raise Unsupported('take axis')
    return a[idx]


def _arg_ext(name, sgn):
    def f(a, axis=None):
        a = asarr(a)
        n = a.shape[0]
        g = a.frozen()
        w = E.new(name, core.I)
        E.assume(z3.And(w >= 0, w < zi(n)))
        gw = zr(g(mk(w)))
        # first index attaining the extremum
        E.facts.append((lambda k: z3.Implies(z3.And(k >= 0, k < zi(n)), z3.And(
            (zr(g(mk(k))) <= gw) if sgn > 0 else (zr(g(mk(k))) >= gw),
            z3.Implies(k < w, zr(g(mk(k))) != gw))), 1))
        E.trigger(w)
        return mk(w)
    return f


argmax, argmin = _arg_ext('argmax', 1), _arg_ext('argmin', -1)


def _pysum(l):
    r = l[0]
    for v in l[1:]:
        r = r + v
    return r


def polyfit(x, y, deg, **k):
    x, y = asarr(x), asarr(y)
    if deg != 1:
        raise Unsupported('polyfit degree')
    n = x.shape[0]
    f, g = x.frozen(), y.frozen()
    if isinstance(n, int) and 2 <= n <= 12:
        # least-squares line through concretely many points
        X, Y = [f(i) for i in range(n)], [g(i) for i in range(n)]
        tot = lambda l: _pysum(l)
        den = n * tot([u * u for u in X]) - tot(X) * tot(X)
        a = (n * tot([u * v for u, v in zip(X, Y)]) - tot(X) * tot(Y)) / den
        b = (tot(Y) - a * tot(X)) / n
        return Arr((2,), lambda i: pick(i, [lambda: a, lambda: b]), 'f')
    a = functional('polyfit_a', n, lambda i: core.mk(core.decl('pair', core.R, core.R, core.R)(core.nf(zr(f(i))), core.nf(zr(g(i))))))
    b = functional('polyfit_b', n, lambda i: core.mk(core.decl('pair', core.R, core.R, core.R)(core.nf(zr(f(i))), core.nf(zr(g(i))))))
    return Arr((2,), lambda i: pick(i, [lambda: a, lambda: b]), 'f')


def polyval(p, x):
    raise Unsupported('polyval')


def interp(*a, **k):
    raise Unsupported('interp')


def savetxt(*a, **k):
    raise Unsupported('savetxt')


def savez(*a, **k):
    raise Unsupported('savez')


class _Random:
    """global generator: a stream of unknown numbers, with a ghost use counter"""
    def __init__(self):
        self.uses = []

    def _draw(self, what, shape):
        h = E.random_hook
        if h is not None:
            h('global.' + what)
        if not shape:
            v = mk(E.new('grand_' + what, core.R))
            if what == 'rand':
                E.assume(z3.And(v.e >= 0, v.e < 1))
            return v
        f = E.new('grand_' + what, *([core.I] * len(shape)), core.R)
        if what == 'rand' and len(shape) == 1:
            E.facts.append((lambda k: z3.And(f(k) >= 0, f(k) < 1), 1))
        return Arr(shape, lambda *i: mk(f(*[zi(x) for x in i])), 'f')

    def rand(self, *shape): return self._draw('rand', _shape(shape) if shape else ())
    def randn(self, *shape): return self._draw('randn', _shape(shape) if shape else ())
    def random(self, size=None): return self._draw('rand', _shape(size) if size is not None else ())
    random_sample = random
    def normal(self, loc=0.0, scale=1.0, size=None): return loc + scale * self._draw('randn', _shape(size) if size is not None else ())
    def uniform(self, a=0.0, b=1.0, size=None): return a + (b - a) * self._draw('rand', _shape(size) if size is not None else ())

    def seed(self, s=None):
        h = E.random_hook
        if h is not None:
            h('global.seed')

    def default_rng(self, seed=None): return SymRng(seed)
    def RandomState(self, seed=None): return SymRng(seed)
    def get_state(self): raise Unsupported('random state')
    def __getattr__(self, k): raise Unsupported('numpy.random.' + k)


class SymRng:
    __vc_trace__ = True
    """seeded generator: the k-th draw is a function of the seed and of k only"""
    def __init__(self, seed):
        self.seed_val = seed
        self.count = 0

    def _draw(self, what, shape):
        h = E.random_hook
        if h is not None:
            h('seeded.' + what)
        sd = self.seed_val
        key = 'None' if sd is None else (str(sd) if not isinstance(sd, Sc) else sd.e.sexpr())
        if sd is None and h is not None:
            h('entropy')
        # the k-th draw of the stream of this seed: a function of k (k may be symbolic inside loops)
        c = self.count
        self.count = lit(self.count + 1)
        st = core.decl(f'srand_{what}_{key}', core.I, *([core.I] * len(shape)), core.R)
        ck = zi(c)
        if not shape:
            v = mk(st(ck))
            if what == 'rand':
                E.assume(z3.And(v.e >= 0, v.e < 1))
            return v
        if what == 'rand' and len(shape) == 1:
            E.facts.append((lambda k: z3.And(st(ck, k) >= 0, st(ck, k) < 1), 1))
        return Arr(shape, lambda *i: mk(st(ck, *[zi(x) for x in i])), 'f')
        nm = None
        f = core.decl(nm, *([core.I] * len(shape)), core.R)
        if what == 'rand' and len(shape) == 1:
            E.facts.append((lambda k: z3.And(f(k) >= 0, f(k) < 1), 1))
        return Arr(shape, lambda *i: mk(f(*[zi(x) for x in i])), 'f')

    def random(self, size=None): return self._draw('rand', _shape(size) if size is not None else ())
    def rand(self, *shape): return self._draw('rand', _shape(shape) if shape else ())
    def randn(self, *shape): return self._draw('randn', _shape(shape) if shape else ())
    def standard_normal(self, size=None): return self._draw('randn', _shape(size) if size is not None else ())
    def normal(self, loc=0.0, scale=1.0, size=None): return loc + scale * self._draw('randn', _shape(size) if size is not None else ())
    def uniform(self, a=0.0, b=1.0, size=None): return a + (b - a) * self._draw('rand', _shape(size) if size is not None else ())


random = _Random()
E.random_hook = None


class _Linalg:
    LinAlgError = type('LinAlgError', (Exception,), {})

    def norm(self, a, *k):
        if getattr(a, "__vc_vec__", False) and not k:
            return a.norm()
        if k:
            raise Unsupported('norm order')
        a = asarr(a)
        f = a.frozen()
        if len(a.shape) == 1:
            return fun('sqrt', _Sum(a.shape[0], lambda i: f(i) * f(i)))
        raise Unsupported('norm')

    def __getattr__(self, k):
        raise Unsupported('numpy.linalg.' + k)


linalg = _Linalg()
__version__ = '2.5.4'


class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def seterr(**k): return {}


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if name == 'abs':
        return absolute
    if name == 'float':
        return float64
    raise Unsupported('numpy.' + name)
