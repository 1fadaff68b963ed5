from pyvc.api import contract
from ._common import *
from .c09_super import Numbers

LA = 'quocslib.tools.linearalgebra'


@contract('C11', functions=[LA + ':simplex_creation'], assumes=['gram_schmidt: a square matrix whose rows are orthonormal (proved separately for its columns; square)'])
def simplex_from_orthonormal_rows(F):
    """shape, first vertex, and displacements = orthonormal rows times the spreads, for any number of search entries"""
    m = F.mod(LA)
    N = F.int('N', 1)
    mean, sigma = F.array('mean', N), F.array('sigma', N)
    F.assume_forall(N, lambda i: F.lt(0, sigma[i]))
    if F.sym:
        Q = F.array('Q', (N, N))
        F.patch(m, 'gram_schmidt', lambda A: Q)
    rng = Numbers(F) if F.case('generator') else None
    S = m.simplex_creation(mean.copy(), sigma.copy(), rng=rng) if rng is not None else m.simplex_creation(mean.copy(), sigma.copy())
    F.ensure('one more vertex than entries', F.eq(S.shape[0], N + 1))
    F.ensure('vertices have one value per entry', F.eq(S.shape[1], N))
    F.forall('first vertex is the start value', N, lambda j: F.eq(S[0, j], mean[j]))
    if F.sym:
        F.forall2('displacements are the rows times the spreads', N, N, lambda i, j: F.eq(S[i + 1, j] - mean[j], Q[i, j] * sigma[j]))
    else:
        if rng is not None:
            F.assume(abs(1 + 3 ** 0.5 * (rng.given[0][1][0] - 0.5) * 2) > 1e-3)
        D = (S[1:] - mean) / sigma
        F.ensure('orthonormal displacements', bool(abs(D @ D.T - F.np.eye(N)).max() < 1e-5))


@contract('C11', functions=[LA + ':gram_schmidt'], assumes=['the columns of the input are linearly independent (holds for the simplex matrix unless 1 + sqrt(3)(2r-1) is exactly 0)'])
def gram_schmidt_orthonormalises(F):
    """any number of independent columns: the result has orthonormal columns (loop invariants: the columns done so far are orthonormal;
    inside, the current column is orthogonal to the columns already projected out)"""
    m = F.mod(LA)
    n = F.int('n', 1)
    if not F.sym:
        A = F.array('A', (n, n)) + 5 * F.np.eye(n)
        F.assume(F.np.linalg.cond(A) < 1e4)
        Q = m.gram_schmidt(A.copy())
        F.ensure('orthonormal columns', bool(abs(Q.T @ Q - F.np.eye(n)).max() < 1e-5))
        return
    A = F.columns(F.int('rows', 1), n)
    d = lambda a, b: F.ite(F.eq(a, b), 1.0, 0.0)
    state = {}

    def outer(mode, loc, j):
        if mode == 'havoc':
            A.fresh()
        elif mode == 'assume':
            A.orthonormal_below(j)
        else:
            F.ensure('columns stay independent', A.indep)
            F.forall2('columns done so far are orthonormal', j, j, lambda a, b: F.eq(A.col(a).ip(A.col(b)), d(a, b)))

    def inner(mode, loc, k):
        j = loc.j
        if mode == 'havoc':
            if any(not F.known(F.eq(t, j)) for t in A.touched()):
                F.unsupported('another column was changed')
            A.fresh_column(j)
        elif mode == 'assume':
            A.orthogonal_to_first(j, k)
        else:
            F.ensure('columns stay independent', A.indep)
            if any(not F.known(F.eq(t, j)) for t in A.touched()):
                F.unsupported('another column was changed')
            F.forall('current column orthogonal to the columns projected out', k, lambda a: F.eq(A.col(a).ip(A.col(j)), 0.0))
    F.loop_manual('gram_schmidt#1', outer)
    F.loop_manual('gram_schmidt#2', inner)
    Q = m.gram_schmidt(A)
    F.ensure('the matrix itself is returned', Q is A)
    F.forall2('orthonormal columns', n, n, lambda a, b: F.eq(Q.col(a).ip(Q.col(b)), d(a, b)))
