from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c12_record import FN, KINDS

ASS = ['induction over the evaluations as in C12 (first, arbitrarily many, two more); the same arbitrary vectors on both sides',
       'figures of merit between -1e9 and 1e9']


def one(F, kind, direction, foms, xs, goal=None, late=False, again=False, **alg):
    """a run whose evaluations return foms (user's sign); returns everything observable"""
    log = dict(got=[], rec=[])
    extra = dict(alg)
    if goal is not None:
        extra['FoM_goal'] = goal

    def search(func, x0):
        age, ask = Age(F, a), Reuse(F, func)
        for k in range(len(foms)):
            if late and k == 1 and a.is_optimization_running():
                age.grow()
            log['got'].append(ask(xs[k]))
        ask.end()
    said = as_user_keeps_it(F, lambda k: foms[k])
    a, client, dump, he, N = any_algorithm(F, kind, lambda k, p, q, t: {"FoM": said(k), "std": 0.5}, search, [par_settings(F, 'q')], direction=direction, again=again, **extra)
    a.begin()
    a.run()
    a.end()
    log.update(alg=a, client=client, dump=dump, res=dump.dicts[-1][1], he=he)
    return log


@contract('C13', functions=FN, assumes=ASS, paths=600)
def maximisation_is_minimisation_of_the_negative(F):
    """two runs, (f, maximise, goal g) and (-f, minimise, goal -g): same values for the search, same evaluations, same records; reports in the user's sign"""
    kind = F.choice('algorithm', KINDS)
    n = F.choice('evaluations', [1, 2, 3], more=[5, 8])
    N = 2 if kind == 'grape' else 1
    xs = [F.array('x%d' % k, N) for k in range(n)]
    foms = [F.real('f%d' % k, -1e9, 1e9) for k in range(n)]
    g = F.real('goal', -1e9, 1e9) if F.case('with_goal') else None
    late = F.case('late_in_the_run') if n > 1 else False
    again = F.case('settings used before')
    A = one(F, kind, 'maximization', foms, xs, g, late, again)
    B = one(F, kind, 'minimization', [-f for f in foms], xs, None if g is None else -g, late, again)
    made = len(A['client'].seen)
    F.ensure('same number of evaluations', made == len(B['client'].seen))
    for k in range(n):
        F.ensure('the search sees the same values', F.eq(A['got'][k], B['got'][k]))
        if k < made:
            F.ensure('maximisation: the search sees the negated value', F.eq(A['got'][k], -foms[k]))
            F.ensure('same parameter sent', F.eq(A['client'].seen[k][1][0], B['client'].seen[k][1][0]))
            F.ensure('same record flag', F.iff(A['dump'].controls[k]['is_record'], B['dump'].controls[k]['is_record']))
    F.ensure('reported values have the user sign', F.eq(A['res']["Figure of merit"], -B['res']["Figure of merit"]))
    b = foms[0]
    for k in range(1, made):
        if b < foms[k]:
            b = foms[k]
    F.ensure('the largest value is reported', F.eq(A['res']["Figure of merit"], b))
    for k in range(made):
        L = F.length(A['alg'].FoM_list)
        F.ensure('listed value has the user sign', F.eq(A['alg'].FoM_list[L - made + k if k else 0], foms[k]))


@contract('C13', functions=[COM + ':AllInOneCommunication.get_data', COM + ':AllInOneCommunication.__init__'])
def users_dictionary_is_not_changed(F):
    """the same dictionary object returned twice gives the same value twice, and stays as the user made it"""
    direction = F.choice('direction', ['maximization', 'minimization'])
    f = F.real('f')
    d = {"FoM": f}
    c, dump, he = comm(F, Client(lambda k, p, q, t: d), direction)
    c.send_controls(dict(pulses=[], parameters=[], timegrids=[]))
    s = -1.0 if direction == 'maximization' else 1.0
    for k in range(2):
        r = c.get_data()["FoM_values"]
        F.ensure('value for the search', F.eq(r["FoM"], s * f))
    F.ensure('the user dictionary keeps its value', F.eq(d["FoM"], f))


@contract('C13', functions=FN, assumes=ASS, bound='one re-evaluation threshold', paths=600)
def direction_symmetry_with_re_evaluation(F):
    """the same with noise re-evaluation and drift compensation configured"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    p = F.real('threshold', 0, 1)
    xs = [F.array('x%d' % k, 1) for k in range(2)]
    foms = [F.real('f%d' % k, -1e9, 1e9) for k in range(5)]
    out = []
    for s, direction in ((1.0, 'maximization'), (-1.0, 'minimization')):
        log = dict(got=[])

        def search(func, x0):
            ask = Reuse(F, func)
            for x in xs:
                log['got'].append(ask(x))
            ask.end()
        a, client, dump, he, N = any_algorithm(F, kind, lambda k, p, q, t: {"FoM": s * foms[k], "std": 0.5}, search, [par_settings(F, 'q')], direction=direction,
                                               re_evaluation={"re_evaluation_steps": [p]})
        a.begin()
        a.run()
        a.end()
        log.update(client=client, dump=dump, res=dump.dicts[-1][1])
        out.append(log)
    A, B = out
    F.ensure('same number of evaluations', len(A['client'].seen) == len(B['client'].seen))
    F.ensure('same number of answers', F.and_(len(A['got']) == 2, len(B['got']) == 2))
    for k in range(2):
        F.ensure('the search sees the same values', F.eq(A['got'][k], B['got'][k]))
    F.ensure('same number of dumps', len(A['dump'].controls) == len(B['dump'].controls))
    for u, v in zip(A['dump'].controls, B['dump'].controls):
        F.ensure('same record flag', F.iff(u['is_record'], v['is_record']))
    F.ensure('reported values have the user sign', F.eq(A['res']["Figure of merit"], -B['res']["Figure of merit"]))
