from pyvc.api import contract
from ._common import *
from ._alg import *
from .c18_neldermead import Recorder
from .c20_cmaes import Normals, Linalg, Recorder as CmaRecorder

DM = 'quocslib.gradientfreemethods.DirectSearchMethod'
NM, CM = 'quocslib.gradientfreemethods.NelderMead', 'quocslib.gradientfreemethods.CMAES'
FN = [DM + ':Wrap.__init__', DM + ':Wrap.wrap_function', DM + ':Wrap.function_wrapper', DM + ':DirectSearchMethod._get_wrapper']


@contract('C26', functions=FN, assumes=['any number of calls by induction: an arbitrary number of earlier calls, then the next one'], paths=100)
def next_request(F):
    """the k-th request for any k: the objective sees the proposal and the extra arguments, its answer comes back, the counter is k"""
    m = F.mod(DM)
    seen = []
    ans = F.func('f')
    kinds = F.choice('extra', [0, 1, 2])
    extra = tuple(F.real('e%d' % j) for j in range(kinds))
    how = F.choice('answer', ['number', 'object'])
    token = object()

    def objective(*a):
        seen.append(a)
        return token if how == 'object' else ans(a[0][0])
    n, k0 = F.int('n', 1, None if F.sym else 5), F.int('earlier', 0)
    calls, func = m.DirectSearchMethod._get_wrapper(extra, objective)
    F.ensure('starts at zero', F.eq(calls[0], 0))
    calls[0] = k0
    for j in range(2):
        x = F.array('x%d' % j, n)
        keep = x.copy()
        more = F.choice('wrapper_args%d' % j, [0, 1])
        it = F.int('iterations%d' % j)
        r = func(x, it) if more else func(x)
        F.ensure('one call of the objective', len(seen) == j + 1)
        a = seen[-1]
        F.ensure('the proposal itself and the declared arguments', len(a) == 1 + more + kinds)
        F.vec_eq('proposal', a[0], keep)
        F.vec_eq('proposal left alone', x, keep)
        if more:
            F.ensure('evaluation argument', F.exact_eq(a[1], it))
        for i in range(kinds):
            F.ensure('extra argument', F.exact_eq(a[1 + more + i], extra[i]))
        F.ensure('answer', r is token if how == 'object' else F.exact_eq(r, ans(keep[0])))
        F.ensure('counter', F.eq(calls[0], k0 + j + 1))


@contract('C26', functions=FN, paths=50)
def two_wrappers_do_not_share_their_counter(F):
    m = F.mod(DM)
    f, g = F.func('f'), F.func('g')
    c1, w1 = m.DirectSearchMethod._get_wrapper((), lambda x: f(x))
    x, y = F.real('x'), F.real('y')
    F.ensure('value', F.exact_eq(w1(x), f(x)))
    c2, w2 = m.DirectSearchMethod._get_wrapper((F.real('e'),), lambda x, e: g(x))
    F.ensure('value', F.exact_eq(w2(y), g(y)))
    F.ensure('value of the first objective', F.exact_eq(w1(y), f(y)))
    F.ensure('own counters', F.and_(F.eq(c1[0], 2), F.eq(c2[0], 1)))
    c0, w0 = m.DirectSearchMethod._get_wrapper((), None)
    F.ensure('no objective, no wrapper', w0 is None and F.eq(c0[0], 0))


@contract('C26', functions=FN + [NM + ':NelderMead.run_dsm', CM + ':CMAES.run_dsm'],
          bound='complete runs in one and two dimensions, ended by the criteria at the first or second check', paths=3000)
def whole_search(F):
    """during a complete search every request reaches the objective with the extra arguments, its answer is what the search works with,
    and the reported number of evaluations counts the requests"""
    kind = F.choice('search', ['NelderMead', 'CMAES'])
    N, stop = F.choice('dimension and stop', [(1, 1), (1, 2), (2, 1)] if kind == 'NelderMead' else [(1, 1), (2, 1)])
    mod = F.mod(NM if kind == 'NelderMead' else CM)
    s = getattr(mod, kind)({} if kind == 'NelderMead' else {"population": 2}, {})
    s.sc_obj = (Recorder if kind == 'NelderMead' else CmaRecorder)(lambda k: k == stop)
    if kind == 'CMAES':
        s.rng = Normals(F, lambda k: False)
        if F.sym:
            F.patch(mod, 'linalg', Linalg(F, N))
    extra = F.choice('extra', [0, 2])
    args = tuple(F.real('e%d' % j) for j in range(extra))
    x0 = F.array('x0', N, -10.0, 10.0)
    log = []

    def objective(x, it, *more):
        F.ensure('declared extra arguments', len(more) == extra and F.and_(True, *[F.exact_eq(a, b) for a, b in zip(more, args)]))
        v = F.real('f%d' % len(log), -1e6, 1e6)
        log.append((x.copy(), v, it))
        return v
    more = dict(sigma_v=F.np.ones(N)) if kind == 'CMAES' else dict(initial_simplex=F.array('simplex', (N + 1, N)))
    r = s.run_dsm(objective, x0.copy(), args=args, **more)
    F.ensure('reported number of evaluations', F.eq(r["NfunevalsUsed"], len(log)))
    for k in range(len(log)):
        F.ensure('iteration number never runs backwards', k == 0 or F.le(log[k - 1][2], log[k][2]))
    F.ensure('the reported best is an answer given for that vector',
             F.or_(*[F.and_(F.eq(r["F_min_val"], v), *[F.eq(r["X_opti_vec"][j], x[j]) for j in range(N)]) for x, v, it in log]))
