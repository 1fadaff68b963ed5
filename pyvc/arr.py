"""Symbolic arrays, lists and ranges."""
import z3
from . import core
from .core import E, Sc, SB, Cx, cx, mk, zv, zi, zr, zb, ite, Unsupported, Sum, functional, is_num, arith

_uid = [0]


def lit(v):
    """length-like value: python int when constant"""
    if isinstance(v, Sc):
        e = z3.simplify(v.e)
        if z3.is_int_value(e):
            return e.as_long()
        return v
    if isinstance(v, bool):
        return int(v)
    import numpy as _np
    if isinstance(v, _np.integer):
        return int(v)
    if isinstance(v, float) and v.is_integer():
        raise TypeError("'float' object cannot be interpreted as an integer")
    return v


def same_dim(a, b):
    """are two dimensions equal? decides (forks) when symbolic"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    x, y = core.nf(zi(a)), core.nf(zi(b))
    if x.eq(y):
        return True
    return E.branch(x == y)


class Buf:
    __slots__ = ('fn', 'uid', 'shape')

    def __init__(self, fn, shape=None):
        self.fn, self.shape = fn, shape
        _uid[0] += 1
        self.uid = _uid[0]


def ceq(a, b):
    """index equality as z3 bool"""
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return z3.simplify(zi(a) == zi(b))


def in_range(i, n):
    """0 <= i < n as z3"""
    return z3.simplify(z3.And(zi(i) >= 0, zi(i) < zi(n)))


def norm_index(i, n):
    """python index semantics incl. negatives and IndexError"""
    if isinstance(i, bool):
        i = int(i)
    i = lit(i)
    if isinstance(i, int):
        if isinstance(n, int):
            if i < -n or i >= n:
                raise IndexError('index out of range')
            return i if i >= 0 else i + n
        if i >= 0:
            if not E.branch(zi(n) > i):
                raise IndexError('index out of range')
            return i
        if not E.branch(zi(n) >= -i):
            raise IndexError('index out of range')
        return lit(n + i)
    if not isinstance(i, Sc):
        raise Unsupported('index of type %s' % type(i).__name__)
    if z3.is_real(i.e):
        raise IndexError('only integers are valid indices')
    if E.branch(i.e >= 0):
        if not E.branch(i.e < zi(n)):
            raise IndexError('index out of range')
        return i
    if not E.branch(i.e >= -zi(n)):
        raise IndexError('index out of range')
    return lit(i + n)


def slice_bounds(s, n):
    """start, length for a step-1 slice (clamped as python does)"""
    if s.step not in (None, 1):
        if s.step == -1 and s.start is None and s.stop is None:
            return None
        raise Unsupported('slice step')

    def clampidx(v, default):
        if v is None:
            return default
        v = lit(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return min(max(v, 0), n)
        if isinstance(v, int) and v == 0:
            return 0
        if isinstance(v, int) and v < 0:
            if E.branch(zi(n) >= -v):
                return lit(n + v)
            return 0
        if isinstance(v, Sc) and E.branch(v.e < 0):
            if E.branch(v.e + zi(n) >= 0):
                return lit(v + n)
            return 0
        if isinstance(v, Sc) and z3.is_real(v.e):
            raise TypeError('slice indices must be integers')
        if E.branch(zi(v) <= zi(n)):
            return v
        return n
    a = clampidx(s.start, 0)
    b = clampidx(s.stop, n)
    if isinstance(a, int) and isinstance(b, int):
        return a, max(b - a, 0)
    if isinstance(a, int) and a == 0:
        return a, b
    if E.branch(zi(b) >= zi(a)):
        return a, lit(b - a)
    return a, 0


class Arr:
    """n-dimensional array with symbolic shape; elements are scalars (or abstract matrices)"""
    __array_ufunc__ = None
    __vc_arr__ = True

    def __init__(self, shape, fn=None, kind='f', buf=None, dims=None):
        self.shape = tuple(lit(s) for s in shape)
        self.kind = kind
        self.buf = buf if buf is not None else Buf(fn, self.shape)
        # dims: per base dimension ('fix', a) or ('rng', start, viewdim, sign)
        self.dims = dims if dims is not None else [('rng', 0, d, 1) for d in range(len(self.shape))]

    # -- access --------------------------------------------------------------------------------
    def frozen(self):
        fn, dims = self.buf.fn, list(self.dims)
        if all(d[0] == 'rng' and d[1] == 0 and d[2] == i and d[3] == 1 for i, d in enumerate(dims)) and len(dims) == len(self.shape):
            return fn

        def get(*ix):
            b = []
            for d in dims:
                if d[0] == 'fix':
                    b.append(d[1])
                else:
                    v = ix[d[2]]
                    if d[3] == 1:
                        b.append(v if isinstance(d[1], int) and d[1] == 0 else lit(v + d[1]))
                    else:
                        b.append(lit(d[1] - v))
            return fn(*b)
        return get

    def at_(self, *ix):
        return self.frozen()(*ix)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return lit(r)

    @property
    def dtype(self):
        from . import snp
        return {'f': snp.float64, 'i': snp.int64, 'b': snp.bool_, 'c': snp.complex128, 'o': snp.object_}[self.kind]

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        n = self.shape[0]
        if isinstance(n, int):
            return n
        return core.concrete_int(n)

    def vc_len(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            nk = len([k for k in key if k is not None and k is not Ellipsis])
            key = key[:i] + (slice(None),) * (len(self.shape) - nk) + key[i + 1:]
        return key

    def _view(self, key):
        """basic indexing -> (new dims, new shape)"""
        key = self._key(key)
        nk = len([k for k in key if k is not None])
        if nk > len(self.shape):
            raise IndexError('too many indices for array')
        key = key + (slice(None),) * (len(self.shape) - nk)
        newshape = []
        vmap = {}     # old view dim -> ('fix', idx) or ('rng', start, newdim, sign)
        vd = 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            n = self.shape[vd]
            if isinstance(k, slice):
                sb = slice_bounds(k, n)
                if sb is None:      # full reversal
                    vmap[vd] = ('rng', lit(n - 1), len(newshape), -1)
                    newshape.append(n)
                else:
                    a, m = sb
                    vmap[vd] = ('rng', a, len(newshape), 1)
                    newshape.append(m)
            else:
                vmap[vd] = ('fix', norm_index(k, n))
            vd += 1
        dims = []
        for d in self.dims:
            if d[0] == 'fix':
                dims.append(d)
                continue
            _, start, v, sg = d
            m = vmap.get(v)
            if m is None:
                raise Unsupported('view')
            if m[0] == 'fix':
                dims.append(('fix', lit(start + m[1]) if sg == 1 else lit(start - m[1])))
            else:
                s2 = lit(start + m[1]) if sg == 1 else lit(start - m[1])
                dims.append(('rng', s2, m[2], sg * m[3]))
        return dims, newshape

    def __getitem__(self, key):
        k1 = self._key(key)
        if any(isinstance(k, (list, SList, Arr)) or _is_np(k) for k in k1):
            return self._fancy_get(k1)
        dims, shape = self._view(key)
        v = Arr(shape, kind=self.kind, buf=self.buf, dims=dims)
        if not shape:
            return v.at_()
        return v

    def _fancy_get(self, key):
        if len(key) == 1 or all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            idx = seq_of(key[0])
            if idx.kind == 'b':
                raise Unsupported('boolean mask selection')
            f = self.frozen()
            n0 = self.shape[0]
            g = idx.frozen()
            check_all_in(idx, n0)

            def fn(i, *r):
                return f(wrapidx(g(i), n0), *r)
            return Arr(idx.shape + self.shape[1:], fn, self.kind)
        if len(key) == 2 and len(self.shape) == 2 and isinstance(key[0], slice) and key[0] == slice(None):
            t = self.T._fancy_get((key[1],))
            return t.T
        raise Unsupported('fancy indexing')

    def __setitem__(self, key, val):
        k1 = self._key(key)
        if any(isinstance(k, (list, SList, Arr)) or _is_np(k) for k in k1):
            return self._fancy_set(k1, val)
        dims, shape = self._view(key)
        self._assign(dims, shape, val)

    def _assign(self, dims, shape, val):
        if isinstance(val, (list, tuple, SList)) or _is_np(val):
            val = asarr(val)
        if isinstance(val, Arr):
            while len(val.shape) > len(shape) and val.shape and val.shape[0] == 1:
                val = val[0]
            if not isinstance(val, Arr):
                return self._assign(dims, shape, val)
            if len(val.shape) > len(shape):
                raise ValueError('could not broadcast input array')
            vf = bc(val, shape)
        else:
            if self.kind == 'i' and isinstance(val, Sc) and z3.is_real(val.e):
                raise Unsupported('real stored into an integer array')
            vf = lambda *i, _v=val: _v
        old = self.buf.fn
        dd = list(dims)
        shp = list(shape)

        bs = self.buf.shape

        def whole(d, ax):       # the view spans the whole axis: no condition on the index
            if bs is None or ax >= len(bs) or d[3] != 1 or not (isinstance(d[1], int) and d[1] == 0):
                return False
            a, b = shp[d[2]], bs[ax]
            return a is b or (isinstance(a, int) and isinstance(b, int) and a == b) or \
                (isinstance(a, Sc) and isinstance(b, Sc) and a.e.eq(b.e))
        wh = [d[0] != 'fix' and whole(d, ax) for ax, d in enumerate(dd)]

        def fn(*b):
            conds = []
            vi = [0] * len(shp)
            for d, x, w in zip(dd, b, wh):
                if d[0] == 'fix':
                    conds.append(ceq(d[1], x))
                else:
                    v = lit(x - d[1]) if d[3] == 1 else lit(d[1] - x)
                    vi[d[2]] = v
                    if w:
                        continue
                    conds.append(in_range(v, shp[d[2]]))
            c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if z3.is_false(c):
                return old(*b)
            if z3.is_true(c):
                return vf(*vi)
            c = decide(c)
            if c is True:
                return vf(*vi)
            if c is False:
                return old(*b)
            if not core._iota_depth[0] and not E.dry and len(b) == 1 and dd[0][0] == 'fix':
                # a single-entry write read at an entry the path condition places: no case split in the term
                if E.known(c):
                    return vf(*vi)
                if E.known(z3.Not(c)):
                    return old(*b)
            return ite(c, vf(*vi), old(*b))
        self.buf.fn = fn

    def _fancy_set(self, key, val):
        if len(key) != 1 or len(self.shape) != 1:
            raise Unsupported('fancy assignment')
        k0 = key[0]
        idx = seq_of(k0)
        if idx.kind == 'b':
            m = idx.frozen()
            vf = bc(asarr(val), self.shape) if isinstance(val, (Arr, list, SList)) else (lambda *i: val)
            if isinstance(val, (Arr, list, SList)):
                raise Unsupported('mask assignment of an array')
            old = self.frozen()
            self._assign(self.dims_id(), list(self.shape), Arr(self.shape, lambda *i: ite(zb(m(*i)), vf(*i), old(*i)), self.kind))
            return
        n0 = self.shape[0]
        check_all_in(idx, n0)
        m = idx.shape[0]
        if isinstance(val, (Arr, list, tuple, SList)) or _is_np(val):
            va = asarr(val)
            if va.shape and not (va.shape[0] == 1 and not (isinstance(m, int) and m == 1)):
                if not same_dim(va.shape[0], m):
                    raise ValueError('shape mismatch in assignment')
            vf = bc(va, (m,))
        else:
            vf = lambda i: val
        old = self.frozen()
        g = idx.frozen()
        if isinstance(m, int):
            def fn(b):
                r = old(b)
                for j in range(m):
                    r = ite(ceq(wrapidx(g(j), n0), b), vf(j), r)
                return r
        else:
            io = z3.Int('affprobe')
            mark = len(E.scope)
            E.scope.append(z3.And(io >= 0, io < zi(m)))
            try:
                c = core.affine_offset(zi(g(Sc(io))), io)
            finally:
                del E.scope[mark:]
            if c is None:
                raise Unsupported('assignment through a non-contiguous index list')

            def fn(b):
                j = lit(mk(zi(b) - c))
                cc = in_range(j, m)
                cc = decide(cc)
                if cc is True:
                    return vf(j)
                if cc is False:
                    return old(b)
                return ite(cc, vf(j), old(b))
        self._assign(self.dims_id(), list(self.shape), Arr(self.shape, fn, self.kind))

    def dims_id(self):
        return self.dims

    @property
    def at(self):
        return _At(self)

    # -- elementwise ------------------------------------------------------------------------------
    def _bin(self, op, o, rev=False):
        if isinstance(o, (list, tuple, SList)) or _is_np(o):
            o = asarr(o)
        if o is None or isinstance(o, str):
            return NotImplemented
        if getattr(o, '__vc_mat__', False):
            return NotImplemented
        return elementwise((lambda a, b: op(b, a)) if rev else op, self, o)

    def __add__(self, o): return self._bin(lambda a, b: a + b, o)
    def __radd__(self, o): return self._bin(lambda a, b: a + b, o, True)
    def __sub__(self, o): return self._bin(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._bin(lambda a, b: a - b, o, True)
    def __mul__(self, o): return self._bin(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._bin(lambda a, b: a * b, o, True)
    def __truediv__(self, o): return self._bin(div_np, o)
    def __rtruediv__(self, o): return self._bin(div_np, o, True)
    def __floordiv__(self, o): return self._bin(lambda a, b: a // b, o)
    def __mod__(self, o): return self._bin(lambda a, b: a % b, o)
    def __pow__(self, o): return self._bin(core.power, o)
    def __rpow__(self, o): return self._bin(core.power, o, True)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(abs, self)
    def __lt__(self, o): return self._bin(lambda a, b: a < b, o)
    def __le__(self, o): return self._bin(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._bin(lambda a, b: a > b, o)
    def __ge__(self, o): return self._bin(lambda a, b: a >= b, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return False
        return self._bin(lambda a, b: a == b, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return True
        return self._bin(lambda a, b: a != b, o)

    __hash__ = object.__hash__

    def __and__(self, o): return self._bin(lambda a, b: mk(z3.And(zb(a), zb(b))), o)
    def __or__(self, o): return self._bin(lambda a, b: mk(z3.Or(zb(a), zb(b))), o)
    def __invert__(self): return elementwise(lambda a: mk(z3.Not(zb(a))), self)

    def _ibin(self, op, o):
        if isinstance(o, Arr) and len(o.shape) > len(self.shape):
            raise ValueError('non-broadcastable output operand')
        r = elementwise(op, self, asarr(o) if isinstance(o, (list, SList)) else o)
        if isinstance(r, Arr):
            self._assign(self.dims, list(self.shape), r)
        return self

    def __iadd__(self, o): return self._ibin(lambda a, b: a + b, o)
    def __isub__(self, o): return self._ibin(lambda a, b: a - b, o)
    def __imul__(self, o): return self._ibin(lambda a, b: a * b, o)
    def __itruediv__(self, o): return self._ibin(div_np, o)

    def __matmul__(self, o):
        from . import snp
        return snp.matmul(self, o)

    def __rmatmul__(self, o):
        from . import snp
        return snp.matmul(o, self)

    def __bool__(self):
        if len(self.shape) == 0:
            return bool(self.at_())
        if len(self.shape) == 1 and self.shape[0] == 1:
            return bool(self.at_(0))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            n = core.concrete_int(n)
        for i in range(n):
            yield self[i]

    def __contains__(self, v):
        raise Unsupported('membership in an array')

    # -- methods -----------------------------------------------------------------------------------
    def copy(self, order=None):
        return Arr(self.shape, self.frozen(), self.kind)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, t, copy=True):
        from . import snp
        k = snp.kind_of(t)
        f = self.frozen()
        if k == self.kind or k == 'o' or k == 'c' or (k == 'f' and self.kind in 'ib'):
            if k == 'f' and self.kind in 'ib':
                return Arr(self.shape, lambda *i: mk(zr(f(*i))), 'f')
            if k == 'f' and self.kind == 'c':
                return Arr(self.shape, lambda *i: cx(f(*i)).re, 'f')
            return Arr(self.shape, f, k)
        if k == 'f':
            return Arr(self.shape, lambda *i: (cx(f(*i)).re), 'f')
        raise Unsupported('astype')

    def tolist(self):
        if len(self.shape) == 1:
            return SList.from_arr(self) if not isinstance(self.shape[0], int) else [self.at_(i) for i in range(self.shape[0])]
        if len(self.shape) == 0:
            return self.at_()
        raise Unsupported('tolist')

    def item(self):
        return self.at_(*[0] * len(self.shape))

    def sum(self, axis=None):
        from . import snp
        return snp.sum(self, axis)

    def mean(self, axis=None):
        from . import snp
        return snp.mean(self, axis)

    def std(self, axis=None):
        from . import snp
        return snp.std(self)

    def max(self, axis=None):
        from . import snp
        return snp.amax(self)

    def min(self, axis=None):
        from . import snp
        return snp.amin(self)

    def dot(self, o):
        from . import snp
        return snp.dot(self, o)

    def argsort(self):
        from . import snp
        return snp.argsort(self)

    def conj(self):
        return elementwise(lambda a: a.conj() if isinstance(a, Cx) else a, self)
    conjugate = conj

    @property
    def real(self):
        return elementwise(lambda a: cx(a).re, self)

    @property
    def imag(self):
        return elementwise(lambda a: cx(a).im, self)

    @property
    def T(self):
        if len(self.shape) == 1:
            return self
        if len(self.shape) == 2:
            f = self.frozen()
            return Arr((self.shape[1], self.shape[0]), lambda i, j: f(j, i), self.kind)
        raise Unsupported('transpose')

    def transpose(self, *a):
        return self.T

    def flatten(self):
        return self.reshape(-1)
    ravel = flatten

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        f = self.frozen()
        if len(shape) == 1:
            if len(self.shape) == 1:
                return Arr(self.shape, f, self.kind)
            if len(self.shape) == 2:
                n, m = self.shape
                if isinstance(m, int) and m == 1:
                    return Arr((n,), lambda i: f(i, 0), self.kind)
                if isinstance(n, int) and n == 1:
                    return Arr((m,), lambda i: f(0, i), self.kind)
                if isinstance(m, int) and isinstance(n, int):
                    return Arr((n * m,), lambda i: f(i // m, i % m) if isinstance(i, int) else f(mk(zi(i) / m), mk(zi(i) % m)), self.kind)
                return Arr((lit(n * m),), lambda i: f(mk(zi(i) / zi(m)), mk(zi(i) % zi(m))), self.kind)
        if len(shape) == 2 and len(self.shape) == 1:
            if isinstance(shape[0], int) and shape[0] == 1:
                return Arr((1, self.shape[0]), lambda i, j: f(j), self.kind)
            if isinstance(shape[1], int) and shape[1] == 1:
                return Arr((self.shape[0], 1), lambda i, j: f(i), self.kind)
            n, m = shape
            if not (isinstance(n, int) and n == -1) and not (isinstance(m, int) and m == -1):
                if not same_dim(lit(n * m), self.shape[0]):
                    raise ValueError('cannot reshape')
                return Arr((n, m), lambda i, j: f(lit(i * m + j)), self.kind)
        raise Unsupported('reshape')

    def squeeze(self):
        f = self.frozen()
        keep = [i for i, s in enumerate(self.shape) if not (isinstance(s, int) and s == 1)]
        shp = [self.shape[i] for i in keep]

        def g(*ix):
            full = [0] * len(self.shape)
            for k, v in zip(keep, ix):
                full[k] = v
            return f(*full)
        return Arr(shp, g, self.kind)

    def fill(self, v):
        self._assign(self.dims, list(self.shape), v)

    def __vc_ite__(self, c, o):
        if not isinstance(o, Arr) or len(o.shape) != len(self.shape):
            raise Unsupported('conditional of different shapes')
        shp = [s if (isinstance(s, int) and isinstance(t, int) and s == t) or zi(s).eq(zi(t)) else mk(z3.If(c, zi(s), zi(t)))
               for s, t in zip(self.shape, o.shape)]
        f, g = self.frozen(), o.frozen()
        return Arr(shp, lambda *i: ite(c, f(*i), g(*i)), self.kind)

    def __repr__(self): return '<array>'
    def __format__(self, s): return '<array>'


class _At:
    def __init__(self, a): self.a = a

    def __getitem__(self, key):
        return _AtKey(self.a, key)


class _AtKey:
    def __init__(self, a, key):
        self.a, self.key = a, key

    def set(self, val):
        c = self.a.copy()
        c[self.key] = val
        return c

    def add(self, val):
        c = self.a.copy()
        c[self.key] = c[self.key] + val
        return c


def _is_np(v):
    import numpy as _np
    return isinstance(v, _np.ndarray)


def decide(c):
    """True/False when the condition is determined by the path condition cheaply, else the condition"""
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    for p in E.scope:
        if p.eq(c):
            return True
    return c


def div_np(a, b):
    if isinstance(b, (int, float)) and b == 0:
        raise Unsupported('array division by zero')
    return a / b


def wrapidx(i, n):
    i = lit(i)
    if isinstance(i, int):
        return i if i >= 0 else lit(n + i)
    return i


def check_all_in(idx, n):
    """index list within bounds (negative wrap allowed only for constants)"""
    m = idx.shape[0]
    g = idx.frozen()
    if isinstance(m, int):
        for j in range(m):
            norm_index(g(j), n)
        return
    io = z3.Int(E.fresh('ix'))
    x = zi(g(Sc(io)))
    E.trigger(io)
    ok = z3.Implies(z3.And(io >= 0, io < zi(m)), z3.And(x >= 0, x < zi(n)))
    if E.branch_valid(ok):
        return
    raise IndexError('index list out of bounds')


def _branch_valid(self, c):
    r, _ = self.check(self.all_pc() + self.lemma_closure(self.all_pc() + [z3.Not(c)]) + [z3.Not(c)], self.timeout_prove)
    if r == 'unsat':
        return True
    if r == 'sat':
        return False
    raise Unsupported('validity unknown')


core.Engine.branch_valid = _branch_valid


def bc(a, shape):
    """broadcast accessor of a to shape"""
    f = a.frozen()
    off = len(shape) - len(a.shape)
    ones = []
    for d, s in enumerate(a.shape):
        t = shape[off + d]
        if isinstance(s, int) and s == 1 and not (isinstance(t, int) and t == 1):
            ones.append(True)
        else:
            if not same_dim(s, t):
                raise ValueError('operands could not be broadcast together')
            ones.append(False)
    if off == 0 and not any(ones):
        return f

    def g(*ix):
        jx = ix[off:]
        return f(*[0 if o else j for o, j in zip(ones, jx)])
    return g


def join_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            v = s[k]
            if isinstance(cur, int) and cur == 1:
                cur = v
            elif isinstance(v, int) and v == 1:
                pass
            elif not same_dim(cur, v):
                raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return out


def result_kind(vals):
    ks = [v.kind if isinstance(v, Arr) else ('c' if isinstance(v, (Cx, complex)) else
          'i' if isinstance(v, (int,)) or (isinstance(v, Sc) and z3.is_int(v.e)) else 'f') for v in vals]
    for k in 'ocf':
        if k in ks:
            return k
    return 'i'


def elementwise(op, *args):
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return op(*args)
    shape = join_shapes([a.shape for a in arrs])
    fs = [bc(a, shape) if isinstance(a, Arr) else (lambda *i, _a=a: _a) for a in args]
    cache = {}

    def fn(*ix):
        k = tuple(i if isinstance(i, int) else zi(i).sexpr() for i in ix) + tuple(p.get_id() for p in E.scope)
        if k not in cache:
            cache[k] = op(*[f(*ix) for f in fs])
        return cache[k]
    if not shape:
        return fn()
    return Arr(shape, fn, result_kind(args))


def asarr(v, kind=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, SList):
        return v.to_arr()
    if isinstance(v, SRange):
        return Arr((v.vc_len(),), lambda i: v.start + i * v.step, 'i')
    if _is_np(v):
        import numpy as _np
        if v.dtype.kind == 'c':
            return Arr(v.shape, lambda *i: _np_at(v, i), 'c')
        return Arr(v.shape, lambda *i: _np_at(v, i), 'i' if v.dtype.kind in 'iu' else ('b' if v.dtype.kind == 'b' else 'f'))
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return Arr((0,), lambda i: 0.0, kind or 'f')
        if any(isinstance(x, (list, tuple, Arr, SList)) or _is_np(x) for x in v):
            rows = [asarr(x) for x in v]
            shp = rows[0].shape
            for r in rows[1:]:
                if len(r.shape) != len(shp) or not all(same_dim(a, b) for a, b in zip(r.shape, shp)):
                    raise ValueError('inhomogeneous shape')
            fs = [r.frozen() for r in rows]
            return Arr((len(rows),) + tuple(shp), lambda i, *r: pick(i, [lambda f=f: f(*r) for f in fs]), result_kind(rows))
        vals = list(v)
        return Arr((len(vals),), lambda i: pick(i, [lambda x=x: x for x in vals]), kind or (result_kind(vals) if not isinstance(vals[0], (bool, SB)) else 'b'))
    if hasattr(v, '__vc_scalar__'):
        v = v.__vc_scalar__()
    return Arr((), lambda: v, result_kind([v]))


def _np_at(v, ix):
    if all(isinstance(i, int) for i in ix):
        return v[ix].item()
    if len(ix) == 1:
        return pick(ix[0], [lambda x=x: x.item() for x in v])
    raise Unsupported('symbolic index into a constant matrix')


def pick(i, thunks):
    i = lit(i)
    if isinstance(i, int):
        return thunks[i]()
    r = thunks[-1]()
    for k in range(len(thunks) - 2, -1, -1):
        r = ite(ceq(i, k), thunks[k](), r)
    return r


def seq_of(v):
    if isinstance(v, Arr):
        return v
    return asarr(v)


# --------------------------------------------------------------------------------------------------
# lists of symbolic length
# --------------------------------------------------------------------------------------------------
def no_element(i):
    raise IndexError('list index out of range')


class SList:
    __array_ufunc__ = None

    def __init__(self, n, fn):
        self.n = lit(n)
        self.fn = fn

    @staticmethod
    def from_arr(a):
        return SList(a.shape[0], a.frozen())

    def vc_len(self):
        return self.n

    def __len__(self):
        return self.n if isinstance(self.n, int) else core.concrete_int(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            sb = slice_bounds(k, self.n)
            if sb is None:
                raise Unsupported('reversed list')
            a, m = sb
            fn = self.fn
            return SList(m, lambda i: fn(lit(a + i)))
        return self.fn(norm_index(k, self.n))

    def __setitem__(self, k, v):
        k = norm_index(k, self.n)
        old = self.fn
        self.fn = lambda i: ite(ceq(i, k), v, old(i))

    def append(self, v):
        n, old = self.n, self.fn
        if isinstance(n, int):
            l = self.pylist() if n else []
            l.append(v)
            self._setpy(l)
            return

        def fn(i):
            c = ceq(i, n)
            c2 = decide(c)
            if c2 is True:
                return v
            if c2 is False:
                return old(i)
            # decided by the current path?
            if E.known(c):
                return v
            if E.known(z3.Not(c)):
                return old(i)
            return ite(c, v, old(i))
        self.fn = fn
        self.n = lit(n + 1)

    def copy(self):
        return SList(self.n, self.fn)

    def __copy__(self): return self.copy()

    def pylist(self):
        return [self.fn(i) for i in range(len(self))]

    def _setpy(self, l):
        self.n = len(l)
        self.fn = (lambda i: pick(i, [lambda x=x: x for x in l])) if l else no_element

    def extend(self, o):
        for v in o:
            self.append(v)

    def pop(self, k=-1):
        l = self.pylist()
        v = l.pop(k)
        self._setpy(l)
        return v

    def insert(self, k, v):
        l = self.pylist()
        l.insert(k, v)
        self._setpy(l)

    def index(self, v):
        return self.pylist().index(v)

    def remove(self, v):
        l = self.pylist()
        l.remove(v)
        self._setpy(l)

    def count(self, v):
        return self.pylist().count(v)

    def sort(self, **k):
        l = self.pylist()
        if any(isinstance(x, Sc) for x in l):
            raise Unsupported('sort of symbolic values')
        l.sort(**k)
        self._setpy(l)

    def __contains__(self, v):
        return v in self.pylist()

    def __iadd__(self, o):
        if isinstance(o, (list, tuple)) or (isinstance(o, SList) and isinstance(o.n, int)):
            self.extend(o)
            return self
        r = self + o
        self.n, self.fn = r.n, r.fn
        return self

    def __eq__(self, o):
        if isinstance(o, (list, SList)):
            return self.pylist() == list(o)
        return False

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def __radd__(self, o):
        return SList(len(o), lambda i: pick(i, [lambda x=x: x for x in o])) + self if o else self.copy()

    def to_arr(self):
        if isinstance(self.n, int):
            return asarr(self.pylist())
        probe = None
        fn = self.fn
        io = Sc(z3.Int('listprobe'))
        mark = len(E.scope)
        E.scope.append(z3.And(io.e >= 0, io.e < zi(self.n)))
        try:
            probe = fn(io)
        finally:
            del E.scope[mark:]
        if isinstance(probe, Arr):
            shp = probe.shape
            return Arr((self.n,) + tuple(shp), lambda i, *r: fn(i).at_(*r), probe.kind)
        return Arr((self.n,), fn, result_kind([probe]))

    def __add__(self, o):
        if isinstance(o, list):
            o = SList(len(o), lambda i: pick(i, [lambda x=x: x for x in o]))
        if isinstance(o, SList):
            n, f, g = self.n, self.fn, o.fn
            return SList(lit(n + o.n), lambda i: ite(z3.simplify(zi(i) < zi(n)), f(i), g(lit(i - n))))
        return NotImplemented

    def __iter__(self):
        for i in range(len(self)):
            yield self.fn(i)

    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return E.branch(zi(self.n) > 0)

    def __vc_ite__(self, c, o):
        if isinstance(o, list):
            oo = o
            o = SList(len(oo), lambda i: pick(i, [lambda x=x: x for x in oo]))
        f, g = self.fn, o.fn
        n = self.n if zi(self.n).eq(zi(o.n)) else mk(z3.If(c, zi(self.n), zi(o.n)))
        return SList(n, lambda i: ite(c, f(i), g(i)))

    def __repr__(self): return '<list>'


def _known(self, c):
    """condition implied by the path condition (one solver call)"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    r, _ = self.check(self.all_pc() + [z3.Not(c)], self.timeout_feas)
    return r == 'unsat'


core.Engine.known = _known


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if not isinstance(step, int) or step not in (1, -1):
            raise Unsupported('range step')

    def vc_len(self):
        d = (self.stop - self.start) if self.step == 1 else (self.start - self.stop)
        d = lit(d)
        if isinstance(d, int):
            return max(d, 0)
        if isinstance(self.start, int) and self.step == 1 and self.start == 0 and E.known(zi(d) >= 0):
            return d
        if E.branch(zi(d) >= 0):
            return d
        return 0

    def fn(self, i):
        return lit(self.start + i * self.step)

    def __len__(self):
        return core.concrete_int(self.vc_len()) if not isinstance(self.vc_len(), int) else self.vc_len()

    def __iter__(self):
        for i in range(len(self)):
            yield self.fn(i)
