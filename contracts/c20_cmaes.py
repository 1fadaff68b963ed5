from pyvc.api import contract
from ._common import *
from ._alg import Criteria
from .c18_neldermead import same_point

CMA = 'quocslib.gradientfreemethods.CMAES'
WR = 'quocslib.gradientfreemethods.DirectSearchMethod'
FN = [CMA + ':CMAES.' + n for n in ('__init__', 'run_dsm', '_get_normal_numbers')] + [WR + ':Wrap.function_wrapper']


class Recorder(Criteria):
    """stopping criteria with an arbitrary verdict; keeps what the search reports to them"""
    def __init__(self, verdict):
        super().__init__()
        self.reports, self.verdict = [], verdict

    def check_stopping_criteria(self, fsim=None, calls=None):
        self.reports.append((fsim.copy(), calls))
        if self.verdict(len(self.reports)):
            self.is_converged, self.terminate_reason = True, 'criterion'


class Normals:
    """the seeded generator: arbitrary numbers per request; `zero` gives the requests answered by zeros (the sample is then the mean itself)"""
    def __init__(self, F, zero, N=None):
        self.F, self.given, self.zero, self.N = F, [], zero, N

    def get_random_normal_numbers(self, n):
        F = self.F
        if not F.sym and self.N is not None and n != self.N:
            shape = tuple(n) if isinstance(n, (tuple, list)) else (int(n),)      # several candidates at once
            size = int(F.np.prod(shape))
            if size % self.N == 0:
                return F.np.array([self.get_random_normal_numbers(self.N) for _ in range(size // self.N)]).reshape(shape)
        z = F.np.zeros(n) if self.zero(len(self.given)) else F.array('z%d' % len(self.given), n, -3.0, 3.0)
        self.given.append(z)
        return z.copy()


class Linalg:
    """eigh: any positive eigenvalues and any matrix of eigenvectors (the mean and the ranking do not depend on them)"""
    def __init__(self, F, N):
        self.F, self.N, self.k = F, N, 0

    def eigh(self, C):
        self.k += 1
        F = self.F
        lv = F.array('lv%d' % self.k, self.N, 0.01, 100.0)
        F.assume_forall(self.N, lambda i: F.lt(0, lv[i]))
        return lv, F.array('B%d' % self.k, (self.N, self.N))


def expected_mean(F, pts, vals, mu, N):
    """weighted sum of the best mu points: positive decreasing logarithmic weights that add up to one (values distinct on this path)"""
    import math
    order = list(range(len(pts)))
    for a in range(1, len(order)):
        k = a
        while k > 0 and vals[order[k]] < vals[order[k - 1]]:
            order[k], order[k - 1] = order[k - 1], order[k]
            k -= 1
    w = [math.log(mu + 0.5) - math.log(i + 1) for i in range(mu)]
    tot = sum(w)
    w = [v / tot for v in w]
    return order, [sum(w[i] * pts[order[i]][j] for i in range(mu)) for j in range(N)]


def distinct(F, vals):
    for a in range(len(vals)):
        for b in range(a):
            F.assume(F.not_(F.eq(vals[a], vals[b])))


def generations(F, N, P, G, population):
    m = F.mod(CMA)
    if F.sym:
        F.patch(m, 'linalg', Linalg(F, N))
    s = m.CMAES({} if population is None else {"population": population}, {})
    s.sc_obj = Recorder(lambda k: k == G)
    rng = Normals(F, lambda k: k >= P and k % P == 0, N)      # first sample of every later generation: the mean itself
    s.rng = rng
    x0, sv = F.array('x0', N, -100.0, 100.0), F.array('sigma', N, 0.01, 10.0)
    F.assume_forall(N, lambda i: F.lt(0, sv[i]))
    log = []

    def func(x, it):
        v = F.real('f%d' % len(log), -1e9, 1e9)
        log.append((x.copy(), v))
        return v
    start, spread = x0.copy(), sv.copy()
    r = s.run_dsm(func, start, sigma_v=spread)
    F.vec_eq('the caller keeps his start point', start, x0)
    F.vec_eq('the caller keeps his spreads', spread, sv)
    F.ensure('population per generation', len(log) == P * G)
    if len(log) != P * G:
        return
    F.vec_eq('the start point is evaluated first', log[0][0], x0)
    for k in range(1, P):
        F.forall('samples of the first generation', N, lambda j: F.eq(log[k][0][j], x0[j] + sv[j] * rng.given[k][j]))
    for g in range(G):
        gen = log[g * P:(g + 1) * P]
        pts, vals = [[e[0][j] for j in range(N)] for e in gen], [e[1] for e in gen]
        distinct(F, vals)
        order, mean = expected_mean(F, pts, vals, P // 2, N)
        if g + 1 < G:
            for j in range(N):
                F.ensure('mean of the best half', F.le(abs(log[(g + 1) * P][0][j] - mean[j]), 1e-6 * (1.0 + sum(abs(p[j]) for p in pts))))
        if g < len(s.sc_obj.reports):
            f, calls = s.sc_obj.reports[g]
            F.ensure('count reported to the criteria', F.eq(calls, P * (g + 1)))
            for k in range(P):
                F.ensure('values reported to the criteria', F.or_(*[F.eq(f[i], vals[k]) for i in range(P)]))
    b = order[0]
    F.ensure('best value of the last generation', F.eq(r["F_min_val"], vals[b]))
    for v in vals:
        F.ensure('is the smallest', F.le(r["F_min_val"], v))
    F.ensure('with its own point', same_point(F, r["X_opti_vec"], pts[b], N))
    F.ensure('number of evaluations', F.eq(r["NfunevalsUsed"], len(log)))




@contract('C20', functions=FN, assumes=['eigh: any result'], bound='search dimension 1 and 2, population 2 to 4, one and two generations; values distinct', paths=3000)
def whole_runs(F):
    """evaluated points, ranking, weighted mean and the reported best, from the call to the result"""
    N, P, G = F.choice('size', [(1, 2, 2), (1, 3, 2), (2, 4, 1)], more=[(3, 6, 3), (4, 8, 2), (5, 11, 1)])
    generations(F, N, P, G, P)


@contract('C20', functions=FN, assumes=['eigh: any result'], bound='search dimension 1 and 2, population 2 to 4; values of a generation distinct', paths=3000)
def any_generation(F):
    """loop invariant of the search: from an arbitrary mean, step size, paths, axes and count, one generation samples around the mean,
    pairs every candidate with its own value, forms the new mean and reports its best candidate"""
    N, P = F.choice('size', [(1, 2), (1, 3), (2, 3), (1, 4)], more=[(3, 6), (4, 8)])
    if not F.sym:
        generations(F, F.int('N', 1, 5), P, 3, P)
        return
    m = F.mod(CMA)
    F.patch(m, 'linalg', Linalg(F, N))
    s = m.CMAES({"population": P}, {}, callback=lambda: F.choice('go on', [True, False]))
    s.sc_obj = Recorder(lambda k: F.bool('criterion'))
    log, st = [], {}
    s.rng = Normals(F, lambda k: False)

    def func(x, it):
        v = F.real('w%d' % len(log), -1e9, 1e9)
        log.append((x.copy(), v))
        return v

    def hook(mode, loc):
        if mode == 'havoc':
            st.update(mean=F.array('mean', N, -100.0, 100.0), sigma=F.real('sigma', pos=True), B=F.array('B', (N, N)), D=F.array('D', N),
                      c=F.int('calls', P), before=len(log))
            del log[:]
            loc.calls_number[0] = st['c']
            F.ensure('the start point is the first mean', F.and_(F.eq(loc.counteval, 0), *[F.eq(loc.xmean[j], x0[j]) for j in range(N)]))
            return dict(xmean=st['mean'].copy(), sigma=st['sigma'], B=st['B'].copy(), D=st['D'].copy(), counteval=F.int('evaluations', P), iterations=F.int('iterations', 2),
                        ps=F.array('ps', N), pc=F.array('pc', N), C=F.array('C', (N, N)), invsqrtC=F.array('isC', (N, N)), fsim=F.array('oldf', P), ind=loc.ind.copy(),
                        arx=F.array('oldarx', (N, P)))
        if mode == 'prove' and st and log:
            st['new'] = loc.xmean
    hook.watch = [(s, ()), (s.sc_obj, ('is_converged', 'terminate_reason', 'reports'))]
    hook.dead = ('xold', 'y', 'z', 'hsig', 'artmp', 'lv', 'average_FoM', 'FoM_variance', 'k')
    F.loop_manual('CMAES.run_dsm#1', hook)
    x0 = F.array('x0', N)
    r = s.run_dsm(func, x0.copy(), sigma_v=F.array('sv', N))
    if 'new' not in st:
        F.unsupported('the loop of the search was not reached')
    F.ensure('population per generation', len(log) == P)
    z = s.rng.given
    for k in range(P):
        for j in range(N):
            F.ensure('sample', F.eq(log[k][0][j], st['mean'][j] + st['sigma'] * sum(st['B'][j, i] * st['D'][i] * z[k][i] for i in range(N))))
    pts, vals = [[e[0][j] for j in range(N)] for e in log], [e[1] for e in log]
    distinct(F, vals)
    order, mean = expected_mean(F, pts, vals, P // 2, N)
    big = 1.0 + sum(abs(p[j]) for p in pts for j in range(N))
    for j in range(N):
        F.ensure('mean of the best half', F.le(abs(st['new'][j] - mean[j]), 1e-6 * big))
    b = order[0]
    F.ensure('best value of the last generation', F.eq(r["F_min_val"], vals[b]))
    F.ensure('with its own point', same_point(F, r["X_opti_vec"], pts[b], N))
    F.ensure('number of evaluations', F.eq(r["NfunevalsUsed"], st['c'] + P))


@contract('C20', functions=FN, bound='search dimension 1 (population 4); larger ones sampled', paths=300)
def default_population(F):
    """without a configured population: 4 + floor(3 ln N) candidates"""
    N = 1 if F.sym else F.int('N', 1, 8)
    import math
    generations(F, N, int(4 + math.floor(3 * math.log(N))), 1, None)


class Textbook:
    """the update equations of CMA-ES (Hansen): state after the ranked candidates of each generation"""
    def __init__(self, np, N, P, mean, spread):
        self.np, self.N, self.P, self.evals = np, N, P, 0
        self.mu = P // 2
        w = np.log(self.mu + 0.5) - np.log(np.arange(1, self.mu + 1))
        self.w = w / w.sum()
        self.me = me = 1.0 / (self.w ** 2).sum()
        self.cc = (4 + me / N) / (N + 4 + 2 * me / N)
        self.cs = (me + 2) / (N + me + 5)
        self.c1 = 2 / ((N + 1.3) ** 2 + me)
        self.cmu = min(1 - self.c1, 2 * (me - 2 + 1 / me) / ((N + 2) ** 2 + me))
        self.damp = 1 + 2 * max(0.0, np.sqrt((me - 1) / (N + 1)) - 1) + self.cs
        self.chi = N ** 0.5 * (1 - 1 / (4 * N) + 1 / (21 * N ** 2))
        self.mean, self.sigma, self.pc, self.ps = mean, 1.0, np.zeros(N), np.zeros(N)
        self.C = self.used = np.diag(spread ** 2)          # covariance, and the one the candidates are drawn with
        self.tie = False

    def learn(self, pts, vals):
        np, N = self.np, self.N
        self.evals += self.P
        order = np.argsort(vals)[:self.mu]
        old, X = self.mean, pts[order]
        self.mean = self.w @ X
        y = (self.mean - old) / self.sigma
        lv, B = np.linalg.eigh(self.used)
        if lv.min() <= 1e-9 * lv.max():
            self.tie = True
            return
        self.ps = (1 - self.cs) * self.ps + np.sqrt(self.cs * (2 - self.cs) * self.me) * (B @ ((B.T @ y) / np.sqrt(lv)))
        ratio = np.linalg.norm(self.ps) / np.sqrt(1 - (1 - self.cs) ** (2 * self.evals / self.P)) / self.chi
        self.tie = self.tie or abs(ratio - (1.4 + 2 / (N + 1))) < 1e-6
        h = float(ratio < 1.4 + 2 / (N + 1))
        self.pc = (1 - self.cc) * self.pc + h * np.sqrt(self.cc * (2 - self.cc) * self.me) * y
        A = (X - old) / self.sigma
        self.C = ((1 - self.c1 - self.cmu) * self.C + self.c1 * (np.outer(self.pc, self.pc) + (1 - h) * self.cc * (2 - self.cc) * self.C)
                  + self.cmu * (A.T * self.w) @ A)
        self.sigma = self.sigma * np.exp(self.cs / self.damp * (np.linalg.norm(self.ps) / self.chi - 1))
        if self.evals > self.P / (self.c1 + self.cmu) / N / 10:
            self.used = self.C


@contract('C20', functions=FN, symbolic=False, samples=120, bound='sampled: search dimension up to 5, population up to 12, up to five generations')
def update_equations(F):
    """every generation is drawn with the mean, step size and covariance that the CMA-ES update gives for the candidates before it"""
    np = F.np
    N, G = F.int('N', 1, 5), F.int('generations', 2, 5)
    P = F.int('population', max(4, N + 2), 12)
    s = F.mod(CMA).CMAES({"population": P}, {})
    s.sc_obj = Recorder(lambda k: k == G)
    s.rng = rng = Normals(F, lambda k: k >= P and k % P == 0, N)
    x0, sv = F.array('x0', N, -10.0, 10.0), F.array('sigma', N, 0.05, 5.0)
    c = F.array('direction', N, -2.0, 2.0)
    kind = F.choice('values', ['arbitrary', 'slope', 'bowl'])
    log = []

    def func(x, it):
        v = F.real('f%d' % len(log), -1e3, 1e3) if kind == 'arbitrary' else float(c @ x) if kind == 'slope' else float((c * c + 0.1) @ (x - c) ** 2)
        log.append((x.copy(), v))
        return v
    s.run_dsm(func, x0.copy(), sigma_v=sv.copy())
    F.ensure('population per generation', len(log) == P * G and len(rng.given) == P * G)
    t = Textbook(np, N, P, x0, sv)
    for g in range(G):
        pts, vals = np.array([e[0] for e in log[g * P:(g + 1) * P]]), np.array([e[1] for e in log[g * P:(g + 1) * P]])
        Z = np.array(rng.given[g * P:(g + 1) * P])
        scale = 1.0 + np.abs(pts).max()
        F.assume(np.unique(vals).size == P and np.linalg.matrix_rank(Z[1:], tol=0.05) == N and not t.tie and np.isfinite(t.sigma))
        F.ensure('drawn around the mean of generation %d' % g, bool(np.abs(pts[0] - t.mean).max() <= 1e-6 * scale))
        M, *_ = np.linalg.lstsq(Z[1:], pts[1:] - t.mean, rcond=None)
        F.ensure('candidates are linear in the draws of generation %d' % g, bool(np.abs(Z[1:] @ M - (pts[1:] - t.mean)).max() <= 1e-6 * scale))
        want = t.sigma ** 2 * t.used
        F.ensure('covariance of generation %d' % g, bool(np.abs(M.T @ M - want).max() <= 1e-5 * (np.abs(want).max() + 1e-6 * scale)))
        t.learn(pts, vals)
