"""Abstract complex matrices: a free algebra over an uninterpreted sort.

Normal form: a matrix value is a linear combination  sum_k coeff_k * word_k  with complex scalar coefficients and words
of atomic matrices (non-commutative).  The z3 term of a value is built from the uninterpreted functions mul/add/scale/
expm/dag over the sort, after normalisation, so that values equal by the ring axioms (associativity, distributivity,
commutativity of +, scalar linearity) get equal terms.
"""
import z3
from . import core
from .core import E, Cx, cx, mk, zr, nf, Unsupported, is_num, Sc, SB
from .core import R, I

MatSort = z3.DeclareSort('Mat')
_mul = z3.Function('m.mul', MatSort, MatSort, MatSort)
_add = z3.Function('m.add', MatSort, MatSort, MatSort)
_scale = z3.Function('m.scale', R, R, MatSort, MatSort)
_expm = z3.Function('m.expm', MatSort, MatSort)
_dag = z3.Function('m.dag', MatSort, MatSort)
_tr = z3.Function('m.trT', MatSort, MatSort)
_zero = z3.Const('m.zero', MatSort)
_one = z3.Const('m.one', MatSort)
_trre = z3.Function('m.trace_re', MatSort, R)
_trim = z3.Function('m.trace_im', MatSort, R)


def lin(e):
    """z3 Mat term -> list of (coeff Cx, word tuple of atomic terms) normal form as dict word-keys -> (Cx, atoms)"""
    k = e.decl().name()
    if e.eq(_zero):
        return {}
    if e.eq(_one):
        return {(): (Cx(1.0, 0.0), ())}
    if k == 'm.add':
        return l_add(lin(e.arg(0)), lin(e.arg(1)))
    if k == 'm.scale':
        return l_scale(Cx(mk(e.arg(0)), mk(e.arg(1))), lin(e.arg(2)))
    if k == 'm.mul':
        return l_mul(lin(e.arg(0)), lin(e.arg(1)))
    if k == 'm.dag':
        a = e.arg(0)
        la = lin(a)
        if len(la) == 1 and list(la.values())[0][1] == (a,) and not nontrivial(list(la.values())[0][0]):
            return {(e.sexpr(),): (Cx(1.0, 0.0), (e,))}
        return l_dag(la)
    if k == 'm.expm':
        e = _expm(term(lin(e.arg(0))))
    elif z3.is_app_of(e, z3.Z3_OP_ITE):
        e = z3.If(e.arg(0), term(lin(e.arg(1))), term(lin(e.arg(2))))
    elif e.num_args() and k not in ('m.dag',):
        e = e.decl()(*[nf(c) if z3.is_arith(c) else c for c in e.children()])
    return {(e.sexpr(),): (Cx(1.0, 0.0), (e,))}


def nontrivial(c):
    return not (isinstance(c.re, (int, float)) and c.re == 1 and isinstance(c.im, (int, float)) and c.im == 0)


def l_add(a, b):
    r = dict(a)
    for w, (c, at) in b.items():
        if w in r:
            s = r[w][0] + c
            if zero(s):
                del r[w]
            else:
                r[w] = (s, at)
        else:
            r[w] = (c, at)
    return r


def zero(c):
    return all(z3.is_true(z3.simplify(nf(zr(x)) == 0)) for x in (c.re, c.im))


def l_scale(c, a):
    return {w: (c * k, at) for w, (k, at) in a.items() if not zero(c * k)}


def l_mul(a, b):
    r = {}
    for w1, (c1, a1) in a.items():
        for w2, (c2, a2) in b.items():
            r = l_add(r, {w1 + w2: (c1 * c2, a1 + a2)})
    return r


def l_dag(a):
    r = {}
    for w, (c, at) in a.items():
        na = tuple(dag_atom(x) for x in reversed(at))
        r = l_add(r, {tuple(x.sexpr() for x in na): (c.conj(), na)})
    return r


def dag_atom(x):
    if x.decl().name() == 'm.dag':
        return x.arg(0)
    return _dag(x)


def term(l):
    out = None
    for w in sorted(l, key=lambda w: (len(w), w)):
        c, at = l[w]
        t = None
        for x in at:
            t = x if t is None else _mul(t, x)
        if t is None:
            t = _one
        re, im = nf(zr(c.re)), nf(zr(c.im))
        if not (z3.is_true(z3.simplify(re == 1)) and z3.is_true(z3.simplify(im == 0))):
            t = _scale(re, im, t)
        out = t if out is None else _add(out, t)
    return out if out is not None else _zero


class Mat:
    __vc_mat__ = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, e, n=None):
        self.e = e

    @staticmethod
    def of(l):
        return Mat(term(l))

    @property
    def shape(self):
        return (DIM[0], DIM[0])

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        from . import snp
        return snp.complex128

    def _l(self):
        return lin(self.e)

    def __matmul__(self, o):
        if not isinstance(o, Mat):
            return NotImplemented
        return Mat.of(l_mul(self._l(), o._l()))

    def dot(self, o): return self @ o

    def __add__(self, o):
        if isinstance(o, Mat):
            return Mat.of(l_add(self._l(), o._l()))
        if is_num(o) and not isinstance(o, Sc) and o == 0:
            return self
        if hasattr(o, '__vc_arr__'):
            return NotImplemented
        raise Unsupported('matrix plus scalar')
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Mat):
            return Mat.of(l_add(self._l(), l_scale(Cx(-1.0, 0.0), o._l())))
        if is_num(o) and not isinstance(o, Sc) and o == 0:
            return self
        raise Unsupported('matrix minus scalar')

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Mat.of(l_scale(Cx(-1.0, 0.0), self._l()))

    def __mul__(self, o):
        if isinstance(o, Mat):
            raise Unsupported('elementwise product of abstract matrices')
        if hasattr(o, '__vc_arr__'):
            return NotImplemented
        return Mat.of(l_scale(cx(o), self._l()))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Mat.of(l_scale(cx(1.0) / cx(o), self._l()))

    def __vc_expm__(self):
        return Mat(_expm(term(self._l())))

    def conj(self):
        return _Conj(self)
    conjugate = conj

    @property
    def T(self):
        return _Transp(self)

    def transpose(self):
        return self.T

    def dag(self):
        return Mat.of(l_dag(self._l()))

    def trace(self):
        # linear and cyclic: canonical rotation of each word
        re, im = 0.0, 0.0
        for w, (c, at) in self._l().items():
            rots = [tuple(at[i:] + at[:i]) for i in range(max(len(at), 1))]
            best = min(rots, key=lambda t: tuple(x.sexpr() for x in t))
            t = None
            for x in best:
                t = x if t is None else _mul(t, x)
            if t is None:
                t = _one
            v = c * Cx(mk(_trre(t)), mk(_trim(t)))
            re, im = re + v.re, im + v.im
        return Cx(re, im)

    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def astype(self, t): return self

    def __eq__(self, o):
        if isinstance(o, Mat):
            return mk(z3.simplify(term(self._l()) == term(o._l())))
        return False
    __hash__ = None

    def __vc_ite__(self, c, o):
        if not isinstance(o, Mat):
            raise Unsupported('conditional of a matrix and something else')
        a, b = term(self._l()), term(o._l())
        return self if a.eq(b) else Mat(z3.If(c, a, b))

    def __vc_lift__(self, L):
        return Mat(L.z(self.e))

    def __getitem__(self, k):
        raise Unsupported('entry of an abstract matrix')

    def __repr__(self): return '<matrix>'


class _Conj:
    def __init__(self, m): self.m = m
    @property
    def T(self): return self.m.dag()
    def transpose(self): return self.m.dag()
    def __getattr__(self, k): raise Unsupported('entrywise conjugate of an abstract matrix')


class _Transp:
    def __init__(self, m): self.m = m
    def conj(self): return self.m.dag()
    conjugate = conj
    def __getattr__(self, k): raise Unsupported('transpose of an abstract matrix')


DIM = [None]


def zero_mat(): return Mat(_zero)
def one_mat(): return Mat(_one)
