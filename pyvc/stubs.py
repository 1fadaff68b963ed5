"""facades for third-party modules imported by the code under verification"""
import types
from . import snp, core
from .core import fun, Unsupported
from .arr import elementwise, asarr, Arr, SList

_mods = {}


def _m(name, **k):
    m = types.SimpleNamespace(**k)
    m.__name__ = name
    _mods[name] = m
    return m


class _Any:
    """unmodelled third-party object: using it makes the function undecided"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Any(self._n + '.' + k)
    def __call__(self, *a, **k): raise Unsupported('unmodelled ' + self._n)


def _sub(prefix, k):
    if k.startswith('__'):
        raise AttributeError(k)
    return _Any(prefix + k)


def _sf(name):
    def f(x):
        return elementwise(lambda v: fun(name, v), asarr(x) if isinstance(x, (list, SList)) else x)
    return f


_mods['numpy'] = snp
_mods['numpy.linalg'] = snp.linalg
_mods['numpy.random'] = snp.random
_special = _m('scipy.special', erf=_sf('erf'))
_norm = types.SimpleNamespace(cdf=_sf('normcdf'))
_stats = _m('scipy.stats', norm=_norm)


class _Linalg:
    def expm(self, a):
        if hasattr(a, '__vc_expm__'):
            return a.__vc_expm__()
        raise Unsupported('expm of an explicit matrix')

    def __getattr__(self, k):
        return _sub('scipy.linalg.', k)


_slin = _Linalg()
_mods['scipy.linalg'] = _slin


class _Opt:
    def __init__(self): self.minimize = None
    def __getattr__(self, k): return _sub('scipy.optimize.', k)


_opt = _mods['scipy.optimize'] = types.SimpleNamespace(minimize=lambda *a, **k: MINIMIZE(*a, **k))


def MINIMIZE(*a, **k):
    raise Unsupported('scipy.optimize.minimize')


class _Scipy:
    special, stats, linalg, optimize = _special, _stats, _slin, _opt
    def __getattr__(self, k): return _sub('scipy.', k)


_mods['scipy'] = _Scipy()


class _JnpProxy:
    def __getattr__(self, k):
        return getattr(snp, k)


_jnp = _JnpProxy()


def _jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


class _FakeLax:
    def fori_loop(self, a, b, body, init):
        return control_flow()['fori_loop'](a, b, body, init)

    def scan(self, f, init, xs, length=None):
        return SCAN(f, init, xs, length)

    def __getattr__(self, k): return _sub('jax.lax.', k)


_CF = '''
def fori_loop(lower, upper, body_fun, init_val):
    val = init_val
    for i in range(lower, upper):
        val = body_fun(i, val)
    return val

def scan(f, init, xs, length=None):
    carry = init
    ys = []
    for x in xs:
        carry, y = f(carry, x)
        ys.append(y)
    return carry, ys
'''
_cf = {}


def control_flow():
    """lax.fori_loop / lax.scan by their documented Python equivalents, iterated like any loop of the code"""
    if not _cf:
        import ast
        from . import load, shadow
        tree = load.Transform('jax.lax').visit(ast.parse(_CF))
        ast.fix_missing_locations(tree)
        _cf['__builtins__'] = shadow.builtins_dict()
        exec(compile(tree, '/pyvc/lax', 'exec'), _cf)
    return _cf


def SCAN(f, init, xs, length=None):
    if length is not None or xs is None:
        raise Unsupported('lax.scan')
    return control_flow()['scan'](f, init, xs)


class _Jax:
    numpy = _jnp
    lax = _FakeLax()
    config = types.SimpleNamespace(update=lambda *a, **k: None)
    debug = types.SimpleNamespace(print=lambda *a, **k: None)
    scipy = types.SimpleNamespace(linalg=_slin, special=_special, optimize=_opt)
    jit = staticmethod(_jit)
    Array = snp.Arr

    def vmap(self, f, *a, **k):
        return VMAP(f, *a, **k)

    def grad(self, f, *a, **k): raise Unsupported('jax.grad')
    def value_and_grad(self, f, *a, **k): raise Unsupported('jax.value_and_grad')
    def __getattr__(self, k): return _sub('jax.', k)


def VMAP(f, *a, **k):
    raise Unsupported('vmap')


_jax = _Jax()
_mods['jax'] = _jax
_mods['jax.numpy'] = _jnp
_mods['jax.lax'] = _jax.lax
_mods['jax.scipy'] = _jax.scipy
_mods['jax.scipy.linalg'] = _slin
_mods['jax.scipy.special'] = _special
_mods['jax.config'] = _jax.config
_mods["jax.scipy.optimize"] = _opt


def get(name):
    if name in _mods:
        return _mods[name]
    return _Any(name)
