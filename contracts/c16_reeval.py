from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c12_record import FN

AF = [m + c + '.' + f for m, c in ((DC + ':', 'dCRABAlgorithm'), (DSA + ':', 'DirectSearchAlgorithm')) for f in ('_inner_routine_call', '_get_average_FoM_std', '_probabnormx1betterx2', '__init__')]
ASS = ['up to three thresholds, two vectors (the first one leaves an arbitrary record or none)', 'the probability helper is replaced by its contract (probability_of_improvement)', 'norm.cdf: the standard normal distribution function (opaque, monotone)']


def mean(F, v):
    t = v[0]
    for x in v[1:]:
        t = t + x
    return t / len(v)


def probability(F, m1, s1, m2, s2):
    comb = F.sqrt(s1 * s1 + s2 * s2)
    if comb < 1e-14:
        comb = 1.0
    return F.normcdf((m2 - m1) / comb)


class Judge:
    """the probability as the algorithm's own helper computes it (its contract: probability_of_improvement): in the proof an opaque function of
    the four numbers, whose arguments are checked; an algorithm without that helper is checked against the formula itself"""
    def __init__(self, F, alg, name='_probabnormx1betterx2'):
        self.F, self.calls, self.at = F, [], 0
        real = getattr(alg, name, None)
        if real is None:
            return
        P = F.func('P', 4) if F.sym else real

        def judge(m1, s1, m2, s2):
            p = P(m1, s1, m2, s2)
            if F.sym:
                F.assume(F.and_(F.le(0, p), F.le(p, 1)))
            self.calls.append((m1, s1, m2, s2, p))
            return p
        setattr(alg, name, judge)

    def __call__(self, m1, s1, m2, s2):
        F = self.F
        if self.at < len(self.calls):
            c = self.calls[self.at]
            self.at += 1
            for what, a, b in zip(('mean', 'mean deviation', 'record', 'record deviation'), c, (m1, s1, m2, s2)):
                F.ensure('compared with the record: ' + what, F.eq(a, b))
            return c[4]
        return probability(F, m1, s1, m2, s2)


def close(F, p, t):
    """sampled runs stay away from ties that rounding could decide"""
    if not F.sym:
        F.assume(abs(p - t) > 1e-9)


@contract('C16', functions=AF + FN, assumes=ASS, paths=900, bound='up to three thresholds; two vectors, the second after any number of evaluations')
def averages_and_thresholds(F):
    """the search gets the mean of all repetitions; repeated while the probability reaches the next threshold; record only above the last one"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    L = F.choice('thresholds', [1, 2, 3], more=[5, 6, 8])
    with_std = F.case('std_given')
    ps = [F.real('p%d' % k, 0, 1) for k in range(L)]
    vals, stds = [], []

    def answer(k, p, q, t):
        vals.append(F.real('f%d' % k, -1e3, 1e3))
        stds.append(F.real('s%d' % k, 0, 10) if with_std else 1.0)
        d = {"FoM": vals[-1]}
        if with_std:
            d["std"] = stds[-1]
        return d
    rec = [1e10, 0.0, None]

    late = F.case('late_in_the_run') if L < 3 else False

    def search(func, x0):
        ask, age = Reuse(F, func), Age(F, alg)
        for v in range(2):
            if late and v == 1:
                age.grow(len(client.seen))
            x = F.array('x%d' % v, N)
            n0, d0 = len(client.seen), len(dump.controls)
            got = ask(x)
            n1 = len(client.seen)
            ths = [0.5] if n0 == 0 else ps
            # what should have happened
            n, isrec, on = 1, False, True
            for th in ths:
                if on:
                    m, s = mean(F, vals[n0:n0 + n]), mean(F, stds[n0:n0 + n])
                    p = judge(m, s, rec[0], rec[1])
                    close(F, p, th)
                    if p < th:
                        on = False
                    else:
                        n += 1
            F.ensure('number of repetitions', n1 - n0 == n)
            m, s = mean(F, vals[n0:n1]), mean(F, stds[n0:n1])
            F.ensure('the search receives the mean of all repetitions', F.eq(got, m))
            if on:
                p = judge(m, s, rec[0], rec[1])
                close(F, p, ths[-1])
                if p > ths[-1]:
                    isrec = True
                    rec[:] = [m, s, n1 - 1]
            for k in range(n0, n1):
                F.ensure('the same vector is repeated', F.eq(client.seen[k][1][0], client.seen[n0][1][0]))
            out = dump.controls[d0:]
            F.ensure('one report per repetition and one per record', len(out) == n + (1 if isrec else 0))
            for k in range(n):
                F.ensure('a repetition alone is no record', not out[k]['is_record'])
                if kind == 'dcrab':
                    F.ensure('reported average so far', F.eq(out[k]['FoM'], mean(F, vals[n0:n0 + k + 1])))
            if isrec and len(out) == n + 1:
                F.ensure('record announced', out[-1]['is_record'])
                F.ensure('announced with the mean', F.eq(out[-1]['FoM'], m))
                F.ensure('announced with the mean deviation', F.eq(out[-1]['sigma'], s))
            F.ensure('record value', F.eq(alg._get_final_results()["Figure of merit"], rec[0]))
        ask.end()
    alg, client, dump, he, N = any_algorithm(F, kind, answer, search, [par_settings(F, 'q')], re_evaluation={"re_evaluation_steps": list(ps)})
    judge = Judge(F, alg)
    alg.begin()
    alg.run()
    res = alg._get_final_results()
    if kind == 'dcrab':
        F.ensure('reported deviation', F.eq(res["Std"], rec[1]))
    if rec[2] is not None:
        F.ensure('best controls', F.eq(alg.get_best_controls()['parameters'][0], client.seen[rec[2]][1][0]))


@contract('C16', functions=[m + c + '._probabnormx1betterx2' for m, c in ((DC + ':', 'dCRABAlgorithm'), (DSA + ':', 'DirectSearchAlgorithm'))])
def probability_of_improvement(F):
    """P(x1 below x2) of two normal variables"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    alg, client, dump, he, N = any_algorithm(F, kind, None, lambda f, x: None, [par_settings(F, 'q')])
    m1, m2, s1, s2 = F.real('m1'), F.real('m2'), F.real('s1', 0), F.real('s2', 0)
    if not F.sym:
        F.assume(s1 + s2 > 1e-6)
    p = alg._probabnormx1betterx2(m1, s1, m2, s2)
    F.ensure('probability', F.eq(p, probability(F, m1, s1, m2, s2)))
    if m1 <= m2:
        F.ensure('better mean: at least even', F.le(0.5, p))
    else:
        F.ensure('worse mean: at most even', F.le(p, 0.5))


@contract('C16', functions=[m + c + '.__init__' for m, c in ((DC + ':', 'dCRABAlgorithm'), (DSA + ':', 'DirectSearchAlgorithm'))], paths=400)
def default_thresholds(F):
    """without configured steps the documented defaults 0.3, 0.5, 0.501 apply"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    out = []
    for conf in ({}, {"re_evaluation_steps": [0.3, 0.5, 0.501]}):
        got = []

        def search(func, x0):
            for v in range(2):
                got.append(func(F.array('x%d' % v, N)))
        alg, client, dump, he, N = any_algorithm(F, kind, lambda k, p, q, t: {"FoM": F.real('f%d' % k, -1e3, 1e3)}, search, [par_settings(F, 'q')], re_evaluation=dict(conf))
        alg.begin()
        alg.run()
        out.append((got, len(client.seen)))
    F.ensure('same repetitions', out[0][1] == out[1][1])
    for a, b in zip(out[0][0], out[1][0]):
        F.ensure('same values', F.eq(a, b))
