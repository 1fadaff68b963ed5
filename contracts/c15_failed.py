from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c12_record import FN, KINDS

ASS = ['one successful evaluation (an arbitrary record), then the failed or suppressed one, then further requests']


def run_all(F, kind, answer, search, **alg):
    a, client, dump, he, N = any_algorithm(F, kind, answer, search, [par_settings(F, 'q')], **alg)
    said = []
    a.comm_obj.end_communication = lambda d: said.append(dict(d))
    return a, client, dump, he, N, said


@contract('C15', functions=FN, assumes=ASS, paths=400)
def failure_stops_and_keeps_the_record(F):
    """an evaluation with a status other than zero, with any value or none: stopped, record unchanged, nothing saved, no exception"""
    kind = F.choice('algorithm', KINDS)
    direction = F.choice('direction', ['minimization', 'maximization'])
    first = F.choice('fails_at', [0, 1])
    f0 = F.real('f0', -1e9, 1e9)
    bad = F.choice('accompanying', ['value', 'none', 'missing'])
    code = F.int('status')
    F.assume(F.not_(F.eq(code, 0)))
    s = 1.0 if direction == 'minimization' else -1.0
    made = [first]

    def answer(k, p, q, t):
        if k < first:
            return {"FoM": f0}
        d = {"status_code": code}
        if bad != 'missing':
            d["FoM"] = None if bad == 'none' else F.real('fail', -1e9, 1e9)
        return d

    def search(func, x0):
        ask, age = Reuse(F, func), Age(F, alg)
        for k in range(3):
            if k == 1 and first:
                made[0] = age.grow()
            ask(F.array('x%d' % k, N))
        ask.end()
    alg, client, dump, he, N, said = run_all(F, kind, answer, search, direction=direction)
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('stopped', not he.is_user_running)
    F.ensure('no evaluation after the failure', len(client.seen) == first + 1)
    F.ensure('only successful evaluations are handed to the result files', len(dump.controls) == first)
    if first:
        F.ensure('record value kept', F.eq(said[-1]["Figure of merit"], f0))
        F.ensure('best controls kept', F.eq(alg.get_best_controls()['parameters'][0], client.seen[0][1][0]))
    else:
        F.ensure('no value becomes the record', F.eq(said[-1]["Figure of merit"], s * 1e10))
    F.ensure('only successful evaluations are listed', F.length(alg.FoM_list) == made[0])


@contract('C15', functions=FN, assumes=ASS, paths=400)
def suppressed_evaluations_change_nothing(F):
    """requests after a stop: record, best controls, evaluation count and saved results stay"""
    kind = F.choice('algorithm', KINDS)
    n = F.choice('before', [0, 1, 2], more=[4, 6])
    foms = [F.real('f%d' % k, -1e9, 1e9) for k in range(n)]

    def search(func, x0):
        ask, age = Reuse(F, func), Age(F, alg)
        for k in range(n):
            if k == 1:
                age.grow()
            ask(F.array('x%d' % k, N))
        he.set_is_user_running(False)
        for k in range(2):
            ask(F.array('late%d' % k, N))
        ask.end()
    alg, client, dump, he, N, said = run_all(F, kind, lambda k, p, q, t: {"FoM": foms[k]}, search)
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('no further evaluation', len(client.seen) == n)
    F.ensure('nothing further saved', len(dump.controls) == n)
    if n:
        b = 0
        for k in range(1, n):
            if foms[k] < foms[b]:
                b = k
        F.ensure('record value kept', F.eq(said[-1]["Figure of merit"], foms[b]))
        F.ensure('best controls kept', F.eq(alg.get_best_controls()['parameters'][0], client.seen[b][1][0]))
    else:
        F.ensure('no record', F.eq(said[-1]["Figure of merit"], 1e10))


def trouble(F, how, at, f):
    """answer of the client when the k-th evaluation fails or the user stops inside it"""
    def answer(k, p, q, t, he):
        if k == at:
            if how == 'failure':
                return {"FoM": F.real('fail', -1e9, 1e9) if F.case('with_value') else None, "status_code": -1}
            he.set_is_user_running(False)
        return {"FoM": f(k), "std": 0.1}
    return answer


@contract('C15', functions=FN, assumes=['two re-evaluation thresholds; the stop happens at the second to fifth evaluation'], paths=900, bound='two re-evaluation thresholds; the stop happens at the second to fifth evaluation')
def stop_inside_re_evaluation(F):
    """failure or stop at any evaluation of a re-evaluation sequence: only completed sequences can become the record, and the record keeps its average"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    how = F.choice('how', ['failure', 'stop'])
    at = F.choice('at', [1, 2, 3, 4], more=[5, 6, 8])
    ps = [F.real('p%d' % k, 0, 1) for k in range(2)]
    # the first vector is repeated once at most (documented: no thresholds for the very first evaluation)
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(7)]
    ans = trouble(F, how, at, lambda k: val[k])
    rec = []

    def search(func, x0):
        ask = Reuse(F, func)
        for k in range(2):
            b0, off = alg._get_final_results()["Figure of merit"], not he.is_user_running
            n0 = len(client.seen)
            ask(F.array('x%d' % k, N))
            b1, n1 = alg._get_final_results()["Figure of merit"], len(client.seen)
            if not he.is_user_running:
                F.ensure('interrupted sequence leaves the record', F.eq(b0, b1))
            rec.append((n0, n1))
    alg, client, dump, he, N, said = run_all(F, kind, lambda k, p, q, t: ans(k, p, q, t, he), search, re_evaluation={"re_evaluation_steps": ps})
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('no evaluation after the interruption', F.implies(not he.is_user_running, len(client.seen) == at + 1))


@contract('C15', functions=FN + [DC + ':dCRABAlgorithm._update_FoM'], bound='drift compensation after the first super-iteration with one to three averages; one vector per super-iteration', paths=600)
def stop_inside_drift_compensation(F):
    """failure or stop at any of the drift measurements after a super-iteration: the best controls stay, the placeholder never becomes the reference value"""
    how = F.choice('how', ['failure', 'stop'])
    A = F.choice('num_average', [1, 2, 3], more=[5])
    at = F.choice('at', [1, 2, 3], more=[4, 5])
    F.assume(at <= A)
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(8)]
    ans = trouble(F, how, at, lambda k: val[k])
    alg, client, dump, he, N, said = run_all(F, 'dcrab', lambda k, p, q, t: ans(k, p, q, t, he), lambda func, x0: func(F.array('x', N)),
                                             compensate_drift={"compensate_after_SI": True, "num_average": A}, super_iteration_number=2)
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('stopped there', len(client.seen) == at + 1)
    r = said[-1]["Figure of merit"]
    made = [val[k] for k in range(at + 1 if how == 'stop' else at)]
    F.ensure('the reference value is one that was measured', F.or_(*[F.eq(r, v) for v in made]))
    F.ensure('best controls kept', F.eq(alg.get_best_controls()['parameters'][0], client.seen[0][1][0]))


@contract('C15', functions=FN, assumes=ASS, paths=400)
def stop_inside_search_drift_compensation(F):
    """the search announces a drift-compensated value after the optimisation was stopped: ignored"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    f0 = F.real('f0', -1e9, 1e9)
    how = F.choice('how', ['failure', 'stop', 'before'])

    def answer(k, p, q, t):
        if k == 1:
            if how == 'failure':
                return {"FoM": None, "status_code": -1}
            he.set_is_user_running(False)
        return {"FoM": f0 if k == 0 else F.real('f%d' % k, -1e9, 1e9)}

    def script(func, x0):
        x = F.array('x', N)
        func(x.copy())
        if how == 'before':
            he.set_is_user_running(False)
        v = func(x.copy())
        best0 = alg._get_final_results()["Figure of merit"]
        raw = alg._inner_routine_call(x.copy(), 1, v)
        F.ensure('reference value kept', F.eq(alg._get_final_results()["Figure of merit"], best0))
    alg, client, dump, he, N, said = run_all(F, kind, answer, script)
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('best controls kept', F.eq(alg.get_best_controls()['parameters'][0], client.seen[0][1][0]))
