"""builtins seen by the code under verification"""
import builtins, types, sys
import z3
from . import core, arr, snp
from .core import E, Sc, SB, Cx, Unsupported, ite, zr, zi, zb, mk
from .arr import Arr, SList, SRange, lit

_bi = builtins


def vc_len(x):
    if hasattr(x, 'vc_len'):
        return x.vc_len()
    if getattr(x, '__vc_scalar__', None):
        raise TypeError("object of type 'float' has no len()")
    if isinstance(x, (Sc, SB)):
        raise TypeError("object of type 'float' has no len()")
    return _bi.len(x)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (range, SRange))


class vc_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        a = [lit(x) for x in a]
        for x in a:
            if isinstance(x, float) or (isinstance(x, Sc) and z3.is_real(x.e)):
                raise TypeError("'float' object cannot be interpreted as an integer")
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, _bi.float) or (_bi.isinstance(x, Sc) and z3.is_real(x.e))


class vc_float(metaclass=_FloatMeta):
    __name__ = 'float'

    def __new__(cls, x=0.0):
        if isinstance(x, Sc):
            return mk(zr(x))
        if isinstance(x, SB):
            return mk(zr(x))
        if isinstance(x, Arr):
            if x.shape == ():
                return vc_float(x.at_())
            if len(x.shape) == 1 and x.shape[0] == 1:
                return vc_float(x.at_(0))
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if hasattr(x, '__vc_scalar__'):
            return vc_float(x.__vc_scalar__())
        if hasattr(x, '__vc_float__'):
            return x.__vc_float__()
        return _bi.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, _bi.int) or (_bi.isinstance(x, Sc) and z3.is_int(x.e))


class vc_int(metaclass=_IntMeta):
    __name__ = 'int'

    def __new__(cls, x=0, *a):
        if isinstance(x, Sc):
            if z3.is_int(x.e):
                return x
            return mk(core.trunc(x.e))
        if isinstance(x, SB):
            return mk(zi(x))
        if isinstance(x, Arr) and x.shape == ():
            return vc_int(x.at_())
        return _bi.int(x, *a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, (_bi.bool, SB))


class vc_bool(metaclass=_BoolMeta):
    __name__ = 'bool'

    def __new__(cls, x=False):
        if isinstance(x, SB):
            return x
        if isinstance(x, Sc):
            return x != 0
        return _bi.bool(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, (_bi.list, SList))


class vc_list(metaclass=_ListMeta):
    __name__ = 'list'

    def __new__(cls, x=()):
        if isinstance(x, Arr):
            if len(x.shape) == 1 and not isinstance(x.shape[0], int):
                return SList.from_arr(x)
            return [x[i] for i in range(vc_len(x))]
        if isinstance(x, SList):
            return x.copy()
        if isinstance(x, SRange):
            return SList(x.vc_len(), x.fn)
        from .loops import in_order
        return _bi.list(in_order(x))


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, _bi.tuple)


class vc_tuple(metaclass=_TupleMeta):
    __name__ = 'tuple'

    def __new__(cls, x=()):
        return _bi.tuple(x)


_map = {vc_float: None}


def vc_isinstance(x, t):
    if isinstance(t, tuple):
        return any(vc_isinstance(x, u) for u in t)
    return _bi.isinstance(x, t)


def vc_type(x, *a):
    if a:
        return _bi.type(x, *a)
    if isinstance(x, Sc):
        return vc_int if z3.is_int(x.e) else vc_float
    if isinstance(x, SB):
        return vc_bool
    t = _bi.type(x)
    return {_bi.float: vc_float, _bi.int: vc_int, _bi.bool: vc_bool, _bi.list: vc_list, SList: vc_list}.get(t, t)


def _minmax(name, pick_first):
    real = getattr(_bi, name)

    def f(*a, **k):
        if k:
            return real(*a, **k)
        if len(a) == 1:
            if isinstance(a[0], (Arr, SList)):
                return (snp.amax if name == 'max' else snp.amin)(a[0])
            a = list(a[0])
        if not any(isinstance(x, (Sc, SB)) or hasattr(x, '__vc_scalar__') for x in a):
            return real(a)
        r = a[0]
        for x in a[1:]:
            # python's max/min keep the first of equals
            c = (zr(x) > zr(r)) if name == 'max' else (zr(x) < zr(r))
            r = ite(z3.simplify(c), x, r)
        return r
    return f


vc_max, vc_min = _minmax('max', True), _minmax('min', True)


def vc_sum(x, start=0):
    if isinstance(x, (Arr, SList)):
        a = arr.asarr(x)
        if len(a.shape) == 1:
            r = snp.sum(a)
            return r if (isinstance(start, int) and start == 0) else start + r
    r = start
    for v in x:
        r = r + v
    return r


class _Seq:
    """enumerate/zip/reversed over sequences of symbolic length"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def vc_len(self):
        return self.n

    def __iter__(self):
        for i in range(len(self)):
            yield self.fn(i)

    def __len__(self):
        return self.n if isinstance(self.n, int) else core.concrete_int(self.n)


def sym_seq(x):
    """(n, fn) if x is a sequence of symbolic length"""
    if isinstance(x, Arr) and not isinstance(x.shape[0], int):
        return x.shape[0], (lambda i: x[i])
    if isinstance(x, (SList, SRange, _Seq)):
        n = x.vc_len()
        if not isinstance(n, int):
            return n, x.fn
    if hasattr(x, '__vc_seq__'):
        return x.__vc_seq__()
    return None


def vc_enumerate(x, start=0):
    s = sym_seq(x)
    if s:
        return _Seq(s[0], lambda i: (i + start if start else i, s[1](i)))
    return _bi.enumerate(x, start)


def vc_zip(*xs, **k):
    ss = [sym_seq(x) for x in xs]
    if any(ss):
        n = None
        fs = []
        for x, s in zip(xs, ss):
            if s is None:
                y = list(x)
                s = (len(y), lambda i, y=y: arr.pick(i, [lambda v=v: v for v in y]))
            if n is None:
                n = s[0]
            elif not (isinstance(n, Sc) and isinstance(s[0], Sc) and core.nf(n.e).eq(core.nf(s[0].e))):
                n = lit(vc_min(n, s[0]))
            fs.append(s[1])
        return _Seq(n, lambda i: tuple(f(i) for f in fs))
    return _bi.zip(*xs, **k)


def vc_reversed(x):
    s = sym_seq(x)
    if s:
        n, f = s
        return _Seq(n, lambda i: f(lit(n - 1 - i)))
    if isinstance(x, Arr):
        return _bi.reversed(list(x))
    return _bi.reversed(x)


def vc_abs(x):
    return _bi.abs(x)


def vc_all(x):
    return _bi.all(x)


def vc_any(x):
    return _bi.any(x)


def vc_sorted(x, **k):
    if isinstance(x, (Arr, SList)):
        raise Unsupported('sorted of a symbolic sequence')
    x = list(x)
    if any(isinstance(v, Sc) for v in x):
        raise Unsupported('sorted of symbolic values')
    return _bi.sorted(x, **k)


def vc_round(x, nd=None):
    if isinstance(x, Sc):
        raise Unsupported('round')
    return _bi.round(x) if nd is None else _bi.round(x, nd)


def vc_print(*a, **k):
    return None


def vc_callable(x):
    return _bi.callable(x)


def vc_pow(a, b, *m):
    return core.power(a, b) if isinstance(a, Sc) or isinstance(b, Sc) else _bi.pow(a, b, *m)


_STUBS = {}


def stub(name):
    from . import stubs
    return stubs.get(name)


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    root = name.split('.')[0]
    if root in ('numpy', 'scipy', 'jax', 'matplotlib'):
        from . import stubs
        m = stubs.get(name)
        if fromlist:
            return m
        return stubs.get(root)
    return _bi.__import__(name, globals, locals, fromlist, level)


def builtins_dict():
    from . import loops
    d = dict(_bi.__dict__)
    d.update(len=vc_len, range=vc_range, float=vc_float, int=vc_int, bool=vc_bool, list=vc_list, tuple=vc_tuple,
             isinstance=vc_isinstance, type=vc_type, max=vc_max, min=vc_min, sum=vc_sum, enumerate=vc_enumerate,
             zip=vc_zip, reversed=vc_reversed, sorted=vc_sorted, round=vc_round, print=vc_print, pow=vc_pow,
             __import__=vc_import, vc0_for=loops.vc_for, vc0_while=loops.vc_while, vc0_comp=loops.vc_comp,
             vc0_exit=loops.vc_exit, vc0_LoopExit=loops.LoopExit, vc0_caught=loops.vc_caught,
             vc0_bodyexc=loops.vc_bodyexc, vc0_handler=loops.vc_handler, vc0_Exception=Exception, vc0_inorder=loops.in_order, vc0_newlist=lambda: SList(0, arr.no_element))
    return d
