from pyvc.api import contract
from ._common import *
from ._alg import Criteria

NM = 'quocslib.gradientfreemethods.NelderMead'
WR = 'quocslib.gradientfreemethods.DirectSearchMethod'
FN = [NM + ':NelderMead.run_dsm', NM + ':NelderMead.__init__', WR + ':Wrap.function_wrapper', WR + ':Wrap.wrap_function']


class Recorder(Criteria):
    """stopping criteria with an arbitrary verdict; keeps what the search reports to them"""
    def __init__(self, verdict):
        super().__init__()
        self.reports, self.verdict = [], verdict

    def check_stopping_criteria(self, sim=None, fsim=None, calls=None):
        self.reports.append((sim.copy(), fsim.copy(), calls))
        if not self.is_converged and self.verdict(len(self.reports)):
            self.is_converged, self.terminate_reason = True, 'criterion'


class Landscape:
    """arbitrary figure of merit: the k-th evaluation returns an arbitrary value; optionally a stop arrives during one evaluation"""
    def __init__(self, F, stop_at=None, tag='v'):
        self.F, self.log, self.stop_at, self.search, self.tag = F, [], stop_at, None, tag

    def __call__(self, x, iteration):
        v = self.F.real('%s%d' % (self.tag, len(self.log)), -1e9, 1e9) if self.tag else float(len(self.log))
        self.log.append((x.copy(), v))
        if self.stop_at is not None and len(self.log) == self.stop_at:
            self.search.sc_obj.is_converged = True
        return v


def coefficients(D, adaptive):
    return (1.0, 1.0 + 2.0 / D, 0.75 - 1.0 / (2.0 * D), 1.0 - 1.0 / D) if adaptive else (1.0, 2.0, 0.5, 0.5)


def same_point(F, a, b, D):
    return F.and_(*[F.eq(a[i], b[i]) for i in range(D)])


def step(F, rows, vals, evals, D, adaptive, stop_at=None):
    """the textbook Nelder-Mead step from the sorted simplex (rows, vals), given the values of the points evaluated so far (evals):
    checks the evaluated points and returns the new rows and values, or None when the stop ends the step early"""
    rho, chi, psi, sigma = coefficients(D, adaptive)
    bar = [sum(rows[i][j] for i in range(D)) / D for j in range(D)]
    w = rows[-1]

    def point(c):
        return [bar[j] + c * (bar[j] - w[j]) for j in range(D)]

    def seen(k, what, p):
        F.ensure('%s is evaluated' % what, len(evals) > k)
        if len(evals) <= k:
            raise Broken()
        for j in range(D):
            F.ensure('%s point' % what, F.eq(evals[k][0][j], p[j]))
        return evals[k][1]

    def stopped(k):
        return stop_at is not None and k >= stop_at
    keep = lambda p, v: (rows[:-1] + [p], vals[:-1] + [v])
    xr = point(rho)
    fr = seen(0, 'reflection', xr)
    if fr < vals[0]:
        if stopped(1):
            return rows, vals, 1
        xe = point(rho * chi)
        fe = seen(1, 'expansion', xe)
        return keep(xe, fe) + (2,) if fe < fr else keep(xr, fr) + (2,)
    if fr < vals[-2]:
        return keep(xr, fr) + (1,)
    if stopped(1):
        return rows, vals, 1
    if fr < vals[-1]:
        xc = point(psi * rho)
        fc = seen(1, 'outside contraction', xc)
        if fc <= fr:
            return keep(xc, fc) + (2,)
    else:
        xc = point(-psi)
        fc = seen(1, 'inside contraction', xc)
        if fc < vals[-1]:
            return keep(xc, fc) + (2,)
    rows, vals = list(rows), list(vals)
    for k in range(1, D + 1):
        if stopped(1 + k):
            return rows, vals, 1 + k
        rows[k] = [rows[0][j] + sigma * (rows[k][j] - rows[0][j]) for j in range(D)]
        vals[k] = seen(1 + k, 'shrink', rows[k])
    return rows, vals, 2 + D


class Broken(Exception):
    pass


def same_simplex(F, name, sim, fsim, rows, vals, D):
    """sim/fsim hold exactly the pairs of rows/vals, best first"""
    for k in range(D + 1):
        F.ensure(name + ': every vertex keeps its own value', F.or_(*[F.and_(F.eq(fsim[m], vals[k]), *[F.eq(sim[m, j], rows[k][j]) for j in range(D)]) for m in range(D + 1)]))
        F.ensure(name + ': no other vertex', F.or_(*[F.and_(F.eq(fsim[k], vals[m]), *[F.eq(sim[k, j], rows[m][j]) for j in range(D)]) for m in range(D + 1)]))
        if k:
            F.ensure(name + ': best first', F.le(fsim[k - 1], fsim[k]))


def sorted_pairs(F, rows, vals):
    """sorted copy (values distinct on this path)"""
    rows, vals = list(rows), list(vals)
    for a in range(1, len(vals)):
        k = a
        while k > 0 and vals[k] < vals[k - 1]:
            rows[k], rows[k - 1], vals[k], vals[k - 1] = rows[k - 1], rows[k], vals[k - 1], vals[k]
            k -= 1
    return rows, vals


def any_iteration(F, D, adaptive, stop_at):
    m = F.mod(NM)
    start = stop_at == 'start'
    land = Landscape(F, None, 'v' if start else '')
    s = m.NelderMead({"is_adaptive": adaptive}, {}, callback=lambda: F.choice('go on', [True, False]))
    s.sc_obj = Recorder(lambda k: F.bool('criterion'))
    land.search = s
    st = {}

    def hook(mode, loc):
        if mode == 'prove':
            F.ensure('a value per vertex', F.eq(F.length(loc.fsim), F.length(loc.sim)))
            for k in range(1, D + 1):
                F.ensure('best first', F.le(loc.fsim[k - 1], loc.fsim[k]))
            if 'c' not in st:
                same_simplex(F, 'start', loc.sim, loc.fsim, [e[0] for e in land.log], [e[1] for e in land.log], D)
                F.ensure('one evaluation per vertex', len(land.log) == D + 1)
                F.ensure('counted', F.eq(loc.calls_number[0], D + 1))
                if start:
                    F.assume(False)
            return
        if mode == 'havoc':
            st['sim'], st['f'], st['c'], st['it'] = F.array('sim', (D + 1, D)), F.array('fsim', D + 1), F.int('calls', D + 1), F.int('iterations', 1)
            land.log = []
            land.tag = 'w'
            land.stop_at = stop_at
            loc.calls_number[0] = st['c']
            s.sc_obj.reports = []
            st['box'] = loc.calls_number
            return dict(sim=st['sim'].copy(), fsim=st['f'].copy(), iterations=st['it'])
        for k in range(1, D + 1):
            F.assume(F.le(st['f'][k - 1], st['f'][k]))
    hook.watch = [(s, ()), (s.sc_obj, ('is_converged', 'terminate_reason', 'reports'))]
    hook.dead = ('ind', 'k')
    F.loop_manual('NelderMead.run_dsm#3', hook)
    S = F.array('start', (D + 1, D))
    r = s.run_dsm(land, S[0].copy(), initial_simplex=S.copy())
    if 'sim' not in st:
        F.unsupported('the loop of the search was not reached')
    rows, vals = [[st['sim'][k, j] for j in range(D)] for k in range(D + 1)], [st['f'][k] for k in range(D + 1)]
    try:
        rows, vals, used = step(F, rows, vals, land.log, D, adaptive, stop_at)
    except Broken:
        return
    F.ensure('nothing else is evaluated', len(land.log) == used)
    for sim, fsim, calls in s.sc_obj.reports:
        same_simplex(F, 'report', sim, fsim, rows, vals, D)
        F.ensure('reported count', F.eq(calls, st['c'] + used))
    F.ensure('returned count', F.eq(r["NfunevalsUsed"], st['c'] + used))
    F.ensure('returned vertex with its value', F.or_(*[F.and_(F.eq(r["F_min_val"], vals[k]), same_point(F, r["X_opti_vec"], rows[k], D)) for k in range(D + 1)]))
    for k in range(D + 1):
        F.ensure('returned value is the smallest', F.le(r["F_min_val"], vals[k]))
    F.ensure('never worse than before', F.le(r["F_min_val"], st['f'][0]))


def whole_run(F, D, adaptive, iterations, stop_at=None):
    """complete run of the given number of iterations from an arbitrary simplex (values of the start simplex distinct)"""
    m = F.mod(NM)
    land = Landscape(F, stop_at)
    s = m.NelderMead({"is_adaptive": adaptive}, {})
    s.sc_obj = Recorder(lambda k: k == iterations)
    land.search = s
    S = F.array('start', (D + 1, D))
    s.run = r = s.run_dsm(land, S[0].copy(), initial_simplex=S.copy())
    for k in range(D + 1):
        F.ensure('start simplex is evaluated', F.or_(*[same_point(F, land.log[k][0], S[i], D) for i in range(D + 1)]))
    rows, vals, done = [[e[0][j] for j in range(D)] for e in land.log[:D + 1]], [e[1] for e in land.log[:D + 1]], D + 1
    for it in range(iterations):
        for a in range(D + 1):
            for b in range(a):
                F.assume(F.not_(F.eq(vals[a], vals[b])))
        rows, vals = sorted_pairs(F, rows, vals)
        if stop_at is not None and done >= stop_at and it > 0:
            break
        try:
            rows, vals, used = step(F, rows, vals, land.log[done:], D, adaptive, None if stop_at is None else stop_at - done)
        except Broken:
            return
        done += used
        if it < len(s.sc_obj.reports):
            sim, fsim, calls = s.sc_obj.reports[it]
            same_simplex(F, 'report', sim, fsim, rows, vals, D)
            F.ensure('reported count', F.eq(calls, done))
    F.ensure('nothing else is evaluated', len(land.log) == done)
    F.ensure('returned count', F.eq(r["NfunevalsUsed"], done))
    F.ensure('returned vertex with its value', F.or_(*[F.and_(F.eq(r["F_min_val"], vals[k]), same_point(F, r["X_opti_vec"], rows[k], D)) for k in range(D + 1)]))
    for k in range(D + 1):
        F.ensure('returned value is the smallest held', F.le(r["F_min_val"], vals[k]))
    for x, v in land.log if stop_at is None else []:
        F.ensure('nothing evaluated was better', F.le(r["F_min_val"], v))


for D in (1, 2, 3):
    def f(F, D=D):
        adaptive = D != 3 and F.case('adaptive')          # (2/3 and 1/6 are rounded: dimension 3 with the fixed coefficients)
        stop = F.choice('stop during evaluation', ['start', None, 1, 2, 3][:4 if D == 1 else 5])
        if F.sym:
            any_iteration(F, D, adaptive, stop)
        else:
            whole_run(F, D, adaptive, 3, None if stop in (None, 'start') else D + 1 + stop)
    f.__name__ = 'any_iteration_dim%d' % D
    f.__doc__ = """loop invariant of the search, dimension %d: arbitrary simplex, values, iteration number and count; one step of the loop is the
    textbook step, pairs stay together, and what is returned is the best vertex held""" % D
    contract('C18', functions=FN, bound='search dimension %d (the contracts cover 1, 2 and 3)' % D, paths=6000)(f)


@contract('C18', functions=FN, bound='search dimension 1 and 2, two iterations; start values distinct', paths=6000)
def complete_runs(F):
    """whole runs from the call to the result"""
    D = F.choice('dim', [1, 2], more=[3, 4, 6])
    whole_run(F, D, F.case('adaptive'), 2 if D == 1 else 1)


@contract('C18', functions=FN, bound='search dimension 1 to 4', paths=400)
def default_start_simplex(F):
    """without a given simplex the search starts at x0 and displaces one entry per further vertex; any dimension"""
    m = F.mod(NM)
    D = F.choice('dim', [1, 2, 3, 4], more=[6, 9])
    x0 = F.array('x0', D)
    seen = []

    def func(x, it):
        seen.append(x.copy())
        return float(len(seen))
    s = m.NelderMead({}, {})
    s.sc_obj = Recorder(lambda k: True)
    r = s.run_dsm(func, x0.copy())
    start = seen[:D + 1]
    F.ensure('start point is a vertex', F.or_(*[same_point(F, p, x0, D) for p in start]))
    for k in range(D):
        F.ensure('one vertex displaces entry by itself', F.or_(*[F.and_(F.not_(F.eq(p[k], x0[k])), *[F.eq(p[j], x0[j]) for j in range(D) if j != k]) for p in start]))
