from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c14_stop import Clock
from .c18_neldermead import NM

SC, NS, CS = ('quocslib.stoppingcriteria.' + n for n in ('StoppingCriteria', 'NelderMeadStoppingCriteria', 'CMAESStoppingCriteria'))
BASE = [SC + ':StoppingCriteria.' + n for n in ('__init__', 'check_func_eval_single_direct_search', 'check_simplex_criterion', 'check_f_size', 'check_direct_search_time_out')]
EVAL, SIMPLEX, SPREAD, TIME = ("Exceeded number of allowed function evaluations per direct search.", "Convergence of the simplex.", "Convergence of the FoM (fatol).",
                               "Optimization time for direct search exceeded limit.")


def configured(F):
    return dict(max_eval=F.int('max_eval', 1, 10 ** 9), xatol=F.real('xatol', 0.0, 1e3), fatol=F.real('fatol', 0.0, 1e3), time_lim=F.real('time_lim', 0.0, 1e6))


def state(F, tag, size=None):
    """an arbitrary state of the search: simplex or population of any (or the given) size, values, evaluation count"""
    R, C = size if size is not None else (F.int('further vertices' + tag, 1, 4), F.int('entries' + tag, 1, 4))
    return F.array('sim' + tag, (R + 1, C)), F.array('fsim' + tag, R + 1), F.int('calls' + tag, 0, 10 ** 9), R, C


def spread(F, f, n):
    m = F.sum(n, lambda i: f[i]) / n
    return F.sqrt(F.sum(n, lambda i: (f[i] - m) * (f[i] - m)) / n)


def judge(F, what, sc, conf, sim, f, calls, R, C, minutes, simplex):
    """the verdict after a check of a search that was still running"""
    ev = F.le(conf['max_eval'], calls)
    sp = F.le(spread(F, f, R + 1), conf['fatol'])
    ti = F.le(conf['time_lim'], minutes)
    conds = [ev, sp, ti]
    if simplex:
        sx = F.le(F.np.max(F.np.abs(sim[1:] - sim[0])), conf['xatol'])
        conds.append(sx)
    if sc.is_converged:
        F.ensure(what + 'fires only if a condition holds', F.or_(*conds))
        r = sc.terminate_reason
        F.ensure(what + 'a known reason', r in (EVAL, SPREAD, TIME) + ((SIMPLEX,) if simplex else ()))
        F.ensure(what + 'the reason did occur', {EVAL: ev, SPREAD: sp, TIME: ti, SIMPLEX: sx if simplex else False}.get(r, False))
        if r == SIMPLEX and simplex:
            F.forall2(what + 'every vertex is within xatol', R, C, lambda i, j: F.le(abs(sim[i + 1, j] - sim[0, j]), conf['xatol']))
    else:
        for c in conds:
            F.ensure(what + 'fires whenever a condition holds', F.not_(c))


def check_twice(F, cls, mod, simplex):
    clock = Clock().install(F, SC)
    clock.minutes = F.real('start', 0.0, 1e6)
    conf = configured(F)
    sc = getattr(F.mod(mod), cls)(dict(conf))
    size = F.choice('size', [(1, 1), (2, 2), (3, 3)], more=[(5, 5), (8, 8)]) if simplex else None
    a, b = state(F, '1', size), state(F, '2', size)
    t1, t2 = F.real('elapsed1', 0.0, 1e6), F.real('elapsed2', 0.0, 1e6)
    t0 = clock.minutes
    if F.case('reset'):
        clock.minutes = t0 = F.real('restart', 0.0, 1e6)
        sc.reset_direct_search_start_time()
    if not F.sym:      # states close to convergence occur
        for s in (a, b):
            if F.case('tight'):
                s[0][1:] = s[0][0] + (s[0][1:] - s[0][0]) * 1e-3
            if F.case('flat'):
                s[1][1:] = s[1][0] + (s[1][1:] - s[1][0]) * 1e-3
        F.assume(abs(clock.minutes + t1 - clock.minutes - conf['time_lim']) > 1e-6 and abs(t2 - conf['time_lim']) > 1e-6)
    F.ensure('a new search is running', not sc.is_converged)
    call = (lambda s: sc.check_stopping_criteria(s[0].copy(), s[1].copy(), s[2])) if simplex else (lambda s: sc.check_stopping_criteria(s[1].copy(), s[2]))
    clock.minutes = t0 + t1
    call(a)
    judge(F, 'first check: ', sc, conf, *a, t1, simplex)
    fired, why = sc.is_converged, sc.terminate_reason
    clock.minutes = t0 + t2
    call(b)
    if fired:
        F.ensure('stays fired', sc.is_converged)
        F.ensure('keeps its reason', sc.terminate_reason == why)
    else:
        judge(F, 'later check: ', sc, conf, *b, t2, simplex)


@contract('C19', functions=BASE + [NS + ':NelderMeadStoppingCriteria.__init__', NS + ':NelderMeadStoppingCriteria.check_stopping_criteria'], assumes=['np.std, np.max: their definitions'], bound='search dimension 1, 2 and 3', paths=600)
def nelder_mead_criteria(F):
    """any configuration, any simplex and values, any clock; two checks"""
    check_twice(F, 'NelderMeadStoppingCriteria', NS, True)


@contract('C19', functions=BASE + [CS + ':CMAESStoppingCriteria.__init__', CS + ':CMAESStoppingCriteria.check_stopping_criteria'], assumes=['np.std: its definition'], paths=600)
def cmaes_criteria(F):
    check_twice(F, 'CMAESStoppingCriteria', CS, False)


@contract('C19', functions=[SC + ':StoppingCriteria.' + n for n in ('__init__', '_check_cbs_stopping_crit', 'check_advanced_stopping_criteria', 'add_to_FoM_track', 'reset_curr_FoM_track_for_new_SI')],
          assumes=['np.polyfit of degree 1: the least-squares line'], bound='two to five evaluations per window, up to two more than the window', paths=600)
def change_based_stop(F):
    """fires exactly when the fitted change over the last configured evaluations of this search is below the threshold"""
    n = F.choice('window', [2, 3, 5], more=[4, 10, 17, 40])
    more = F.choice('evaluations', [-1, 0, 2], more=[1, 5, 12])
    change = F.real('cbs_change', 0.0, 1e3)
    kind = F.case('cmaes')
    sc = F.mod(CS).CMAESStoppingCriteria(dict(change_based_stop={"cbs_funct_evals": n, "cbs_change": change})) if kind else \
        F.mod(NS).NelderMeadStoppingCriteria(dict(change_based_stop={"cbs_funct_evals": n, "cbs_change": change}))
    if F.case('earlier_search'):
        for k in range(n):
            sc.add_to_FoM_track(F.real('old%d' % k, -1e6, 1e6))
        sc.reset_curr_FoM_track_for_new_SI()
    f = [F.real('f%d' % k, -1e3, 1e3) for k in range(n + more)]
    fired = False
    for k in range(n + more):
        sc.add_to_FoM_track(f[k])
        sc.check_advanced_stopping_criteria()
        if fired:
            F.ensure('stays fired', sc.is_converged)
            continue
        if k + 1 < n:
            F.ensure('too few evaluations', not sc.is_converged)
            continue
        y = f[k + 1 - n:k + 1]
        mx = (n - 1) / 2.0
        slope = sum((i - mx) * y[i] for i in range(n)) / sum((i - mx) * (i - mx) for i in range(n))
        if not F.sym:
            F.assume(abs(abs(slope * n) - change) > 1e-6)
        F.ensure('fires exactly below the threshold', F.iff(sc.is_converged, F.lt(abs(slope * n), change)))
        fired = sc.is_converged
        if fired:
            F.ensure('reason', sc.terminate_reason == "Change-based stopping criterion reached.")


@contract('C19', functions=[SC + ':StoppingCriteria.__init__', SC + ':StoppingCriteria.check_advanced_stopping_criteria'], paths=100)
def no_change_based_stop_by_default(F):
    sc = F.mod(NS).NelderMeadStoppingCriteria({})
    for k in range(3):
        sc.add_to_FoM_track(F.real('f%d' % k))
        sc.check_advanced_stopping_criteria()
    F.ensure('not configured: never fires', not sc.is_converged)


@contract('C19', functions=[DC + ':dCRABAlgorithm.run', OA + ':OptimizationAlgorithm._routine_call', SC + ':StoppingCriteria.reset_direct_search_start_time'],
          bound='window of two evaluations; two super-iterations', paths=400)
def each_super_iteration_is_a_new_search(F):
    """the window of evaluations and the search time start again with every super-iteration"""
    clock = Clock().install(F, SC)
    f = [F.real('f%d' % k, -1e3, 1e3) for k in range(4)]
    change = F.real('cbs_change', 0.0, 1e3)
    lim = F.real('time_lim', 1.0, 1e3)
    t = F.real('elapsed', 0.0, 1e3)
    sc = F.mod(NS).NelderMeadStoppingCriteria(dict(change_based_stop={"cbs_funct_evals": 2, "cbs_change": change}, time_lim=lim, fatol=-1.0, xatol=-1.0))
    st = dict(si=0)

    def search(func, x0):
        si = st['si'] = st['si'] + 1
        sc.is_converged = False
        for k in range(2):
            func(F.array('x%d%d' % (si, k), N))
            if k == 0:
                F.ensure('one evaluation of this search is no change', not sc.is_converged)
        y = f[2 * si - 2:2 * si]
        if not F.sym:
            F.assume(abs(abs(y[1] - y[0]) * 2 - change) > 1e-6)
        F.ensure('fires on the evaluations of this search', F.iff(sc.is_converged, F.lt(2 * abs(y[1] - y[0]), change)))
        sc.is_converged = False
        clock.minutes = clock.minutes + t
        sc.check_stopping_criteria(F.array('sim%d' % si, (2, 1)), F.array('fsim%d' % si, 2), 1)
        if not F.sym:
            F.assume(abs(t - lim) > 1e-6)
        F.ensure('time of this search', F.iff(sc.is_converged, F.le(lim, t)))
    alg, client, dump, he, N = any_algorithm(F, 'dcrab', lambda k, p, q, tt: {"FoM": f[k]}, search, [par_settings(F, 'q')], super_iteration_number=2)
    alg.dsm_obj.sc_obj = sc
    alg.begin()
    alg.run()
    F.ensure('two searches', st['si'] == 2)


@contract('C19', functions=[NM + ':NelderMead.run_dsm', NM + ':NelderMead.__init__', NS + ':NelderMeadStoppingCriteria.check_stopping_criteria'], bound='search dimension 1; budget of one to six evaluations; two searches', paths=600)
def nelder_mead_search_obeys_them(F):
    """the search ends with the first iteration that reaches the budget, says so, and a new search starts afresh"""
    M = F.choice('max_eval', [1, 3, 4, 6], more=[2, 9, 15])
    calls = []
    s = F.mod(NM).NelderMead({}, {"max_eval": M, "xatol": -1.0, "fatol": -1.0})
    for run in range(2):
        calls = []
        at = []

        def func(x, it):
            calls.append(it)
            at.append(s.sc_obj.is_converged)
            return F.choice('value', [-float(len(calls)), 1.0]) if len(calls) > 2 and run == 0 else float(len(calls))
        r = s.run_dsm(func, F.array('x%d' % run, 1))
        F.ensure('runs until the budget is reached', r["NfunevalsUsed"] >= M)
        F.ensure('counts the evaluations of this search', F.eq(r["NfunevalsUsed"], len(calls)))
        F.ensure('ends with that iteration', r["NfunevalsUsed"] < max(M, 3) + 3)
        F.ensure('no evaluation after it fired', not any(at))
        F.ensure('reason', r["terminate_reason"] == EVAL)
