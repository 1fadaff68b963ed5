from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings

OAF = [OA + ':OptimizationAlgorithm.' + m for m in ('__init__', '_routine_call', 'get_is_record', 'get_best_controls', 'end', 'is_optimization_running')]
FN = OAF + [COM + ':AllInOneCommunication.' + m for m in ('__init__', 'send_controls', 'get_data', 'send_FoM_response', 'update_controls')] + \
    [DC + ':dCRABAlgorithm.' + m for m in ('_inner_routine_call', '_get_response_for_client', '_get_final_results', 'run', '_dsm_build', '_update_base_pulses', '_get_average_FoM_std')] + \
    [DSA + ':DirectSearchAlgorithm.' + m for m in ('_inner_routine_call', '_get_response_for_client', '_get_final_results', 'run', '_dsm_build', '_get_controls')] + \
    [GR + ':GRAPEAlgorithm.' + m for m in ('inner_routine_call', '_get_response_for_client', '_get_final_results', 'run', '_get_controls')] + \
    [AD + ':ADAlgorithm.' + m for m in ('__init__', 'inner_routine_call', '_get_response_for_client', '_get_final_results', 'run', 'inner_run', '_get_controls')]
ASS = ['induction over the evaluations: the first establishes an arbitrary record, counters and lists are then generalised to any number of further evaluations, the next two are the step (improvement, tie, no improvement); that nothing else distinguishes earlier evaluations is not proved',
       'figures of merit below the start value 1e10']
KINDS = ['dcrab', 'direct', 'grape', 'ad']


@contract('C12', functions=FN, assumes=ASS, paths=400)
def best_of_all_evaluations(F):
    """after every evaluation the reported best is the best so far; record flags, final report and best controls belong to it"""
    kind = F.choice('algorithm', KINDS)
    n = F.choice('evaluations', [1, 2, 3], more=[5, 9])
    foms, xs, best = [F.real('f%d' % k, -1e9, 1e9) for k in range(n)], [], []
    pars = [par_settings(F, 'q')]
    reuse = F.case('search_reuses_its_array')
    late = F.case('late_in_the_run') if n > 1 else False

    def search(func, x0):
        hold, more, age = None, 0, Age(F, alg)
        for k in range(n):
            if late and k == 1:
                more = age.grow() - 1
            x = F.array('x%d' % k, N)
            xs.append(x)
            if reuse and hold is not None:
                hold[:] = x                     # the search works in place on one array
            else:
                hold = x.copy()
            got = func(hold)
            F.ensure('the search receives the value of its evaluation', F.eq(got, foms[k]))
            rec = not best or foms[k] < foms[best[-1]]
            if rec:
                best.append(k)
            F.ensure('one dumped evaluation per evaluation', F.length(dump.controls) == k + 1)
            r = dump.controls[-1]
            F.ensure('record flag', F.iff(r['is_record'], rec))
            F.ensure('value sent with the evaluation', F.eq(r['FoM'], foms[k]))
            F.ensure('evaluation number', F.eq(r['iteration_number'], more + k + 1))
            F.ensure('best so far', F.eq(alg._get_final_results()["Figure of merit"], foms[best[-1]]))
        if reuse:
            hold[:] = F.array('x_after', N)
    said = as_user_keeps_it(F, lambda k: foms[k])
    alg, client, dump, he, N = any_algorithm(F, kind, lambda k, p, q, t: {"FoM": said(k)}, search, pars)
    alg.begin()
    alg.run()
    alg.end()
    b = best[-1]
    res = dump.dicts[-1][1]
    F.ensure('result file', dump.dicts[-1][0] == "optimized_parameters")
    F.ensure('final figure of merit', F.eq(res["Figure of merit"], foms[b]))
    if kind == 'direct':
        F.vec_eq('final parameters', res["parameters"], xs[b])
    p, q, t = client.seen[b]
    out = alg.get_best_controls()
    F.ensure('best parameter', F.eq(out['parameters'][0], q[0]))
    F.ensure('parameters kept', F.length(out['parameters']) == 1)
    if kind == 'grape':
        F.vec_eq('best pulse', out['pulses'][0], p[0])
