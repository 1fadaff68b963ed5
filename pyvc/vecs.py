"""A matrix seen as a finite family of vectors of an inner-product space, known only through its Gram function.

Used for code that touches whole columns only (Gram-Schmidt): every vector is a linear combination of the columns that
were there when the Gram function was introduced, so inner products expand bilinearly."""
import z3
from . import core
from .core import E, Sc, mk, zi, zr, Unsupported
from .arr import lit


class AVec:
    __vc_vec__ = True

    def __init__(self, m, terms):
        self.m, self.terms = m, terms        # [(column index, coefficient)]

    def _chk(self, o):
        if not isinstance(o, AVec) or o.m is not self.m or o.m.gram is not self.m.gram:
            raise Unsupported('vector of another space')

    def __add__(self, o):
        self._chk(o)
        return AVec(self.m, self.terms + o.terms)

    def __neg__(self): return self * -1

    def __sub__(self, o):
        self._chk(o)
        return self + (o * -1)

    def __mul__(self, c):
        if isinstance(c, AVec):
            raise Unsupported('entrywise product of columns')
        return AVec(self.m, [(k, v * c) for k, v in self.terms])
    __rmul__ = __mul__

    def __truediv__(self, c): return AVec(self.m, [(k, v / c) for k, v in self.terms])

    def ip(self, o):
        self._chk(o)
        s = 0.0
        for k, a in self.terms:
            for l, b in o.terms:
                s = s + a * b * self.m.g(k, l)
        return s

    def copy(self): return AVec(self.m, list(self.terms))
    def dot(self, o): return self.ip(o)
    def conj(self): return self
    __matmul__ = ip

    def norm(self):
        q = self.ip(self)
        r = core.fun('sqrt', q)
        E.assume(zr(q) >= 0)
        E.assume(z3.And(zr(r) >= 0, zr(r) * zr(r) == zr(q)))
        if self.m.indep and self.nonzero():
            E.assume(zr(r) > 0)
        return r

    def nonzero(self):
        """a combination with a provably non-zero coefficient (of independent columns)"""
        for k, c in self.m._collect(self.terms):
            if not E.feasible(zr(c) == 0):
                return True
        return False


class AMat:
    __vc_colmat__ = True

    def __init__(self, rows, n, name='gram'):
        self.shape = (rows, n)
        self.n = n
        self.indep = True
        self.fresh(name)

    def fresh(self, name='gram', keep=None, col=None):
        """new Gram function; keep: all inner products not involving column col stay"""
        f = core.decl(E.fresh(name), core.I, core.I, core.R)
        self.gram, self.over = f, []
        E.facts.append((lambda a, b: f(a, b) == f(b, a), 2))
        return self

    def g(self, k, l):
        a, b = zi(k), zi(l)
        if a.sexpr() > b.sexpr():
            a, b = b, a
        return mk(self.gram(a, b))

    def col(self, k):
        for i, v in reversed(self.over):
            if E.branch(zi(i) == zi(k)):
                return v
        return AVec(self, [(k, 1.0)])

    def _key(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None, None, None) and not isinstance(key[1], slice):
            return lit(key[1])
        raise Unsupported('only whole columns')

    def __getitem__(self, key):
        return self.col(self._key(key))

    def __setitem__(self, key, v):
        k = self._key(key)
        if not isinstance(v, AVec) or v.m is not self:
            raise Unsupported('column value')
        # an elementary operation keeps the columns independent: column k may only get multiples of other columns added
        # and be multiplied by something non-zero
        tot = 0.0
        for i, c in v.terms:
            if E.branch(zi(i) == zi(k)):
                tot = tot + c
        if not (isinstance(tot, (int, float)) and tot) and E.feasible(zr(tot) == 0):
            self.indep = False
        self.over = [(i, w) for i, w in self.over] + [(k, v)]

    def _collect(self, terms):
        out = []
        for k, c in terms:
            for j, (l, d) in enumerate(out):
                if zi(l).eq(zi(k)):
                    out[j] = (l, d + c)
                    break
            else:
                out.append((k, c))
        return out

    def touched(self):
        return [i for i, v in self.over]

    # ------------------------------------------------------------------ invariants used by the contracts
    def orthonormal_below(self, j):
        f, J = self.gram, zi(j)
        def fact(a, b):
            return z3.Implies(z3.And(a >= 0, a < J, b >= 0, b < J),
                              z3.And(f(a, b) == z3.If(a == b, z3.RealVal(1), z3.RealVal(0)), f(a, b) == f(b, a)))
        E.facts.append((fact, 2))

    def fresh_column(self, j):
        """column j becomes an arbitrary vector such that the family stays independent; all others stay"""
        old, J = self.gram, zi(j)
        self.over = []
        f = core.decl(E.fresh('gram'), core.I, core.I, core.R)
        self.gram = f
        E.facts.append((lambda a, b: f(a, b) == f(b, a), 2))
        E.facts.append((lambda a, b: z3.Implies(z3.And(a != J, b != J), f(a, b) == old(a, b)), 2))

    def orthogonal_to_first(self, j, k):
        f, J, K = self.gram, zi(j), zi(k)
        E.facts.append((lambda a: z3.Implies(z3.And(a >= 0, a < K), z3.And(f(a, J) == 0, f(J, a) == 0)), 1))
