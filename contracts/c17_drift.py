from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c12_record import FN
from .c14_stop import Clock
from .c16_reeval import mean

NM = 'quocslib.gradientfreemethods.NelderMead'
UPD = [DC + ':dCRABAlgorithm._update_FoM', DC + ':dCRABAlgorithm.run', DC + ':dCRABAlgorithm.__init__', DC + ':dCRABAlgorithm._inner_routine_call', DSA + ':DirectSearchAlgorithm._inner_routine_call']


@contract('C17', functions=UPD + FN, bound='one evaluated vector per super-iteration; one to three averages', paths=600)
def drift_after_super_iteration(F):
    """before the next super-iteration the best controls are measured num_average times and the mean becomes the reference; not configured: no measurement"""
    mode = F.choice('configured', ['no', 'after SI', 'minutes'])
    A = F.choice('num_average', [1, 2, 3], more=[5, 7])
    val = []

    def answer(k, p, q, t):
        val.append(F.real('f%d' % k, -1e9, 1e9))
        return {"FoM": val[k]}
    conf = {"num_average": A}
    if mode == 'after SI':
        conf["compensate_after_SI"] = True
    if mode == 'minutes':
        conf["compensate_after_minutes"] = F.real('minutes', pos=True)
    on = mode != 'no'
    st = dict(si=0, ref=None, best=None, seen=0)
    late = F.sym and F.case('arbitrarily late')      # the second super-iteration has an arbitrary number and comes after any number of evaluations
    SI = F.int('super-iterations', 2) if late else F.choice('super-iterations', [2], more=[3, 12, 26])
    if late:
        representative_rounds(F, DC)

    def search(func, x0):
        st['si'] += 1
        if st['si'] == 1:
            st['age'] = Age(F, alg)
        else:
            n0 = st['seen']
            F.ensure('measurements between the super-iterations', len(client.seen) == n0 + (A if on else 0))
            if on:
                st['ref'] = mean(F, val[n0:n0 + A])
                for k in range(n0, n0 + A):
                    F.ensure('the best controls are measured', F.eq(client.seen[k][1][0], client.seen[st['best']][1][0]))
                    F.ensure('announced as record', dump.controls[k]['is_record'])
            F.ensure('the mean is the reference, or it stays', F.eq(alg._get_final_results()["Figure of merit"], st['ref']))
        func(F.array('x%d' % st['si'], N))
        last = st['seen'] = len(client.seen)
        if st['ref'] is None or val[last - 1] < st['ref']:
            st['ref'], st['best'] = val[last - 1], last - 1
        if st['si'] == 1 and late:
            st['age'].grow()
    alg, client, dump, he, N = any_algorithm(F, 'dcrab', answer, search, [par_settings(F, 'q')], compensate_drift=conf, super_iteration_number=SI)
    alg.begin()
    alg.run()
    F.ensure('next record is judged against the reference', F.eq(alg._get_final_results()["Figure of merit"], st['ref']))
    F.ensure('best controls', F.eq(alg.get_best_controls()['parameters'][0], client.seen[st['best']][1][0]))


@contract('C17', functions=UPD, assumes=['dCRAB with a pulse whose basis is linear in its parameters'], paths=600, bound='one or two averages, two evaluations in the first super-iteration')
def drift_measures_the_best_pulse(F):
    """the pulse measured by drift compensation is the best pulse of the finished super-iteration"""
    from .c08_dressing import linear_basis, drawn
    h = F.func('h', 2)
    K, n = F.int('K', 1), F.int('bins', 2)
    A = F.choice('num_average', [1, 2], more=[3, 5])
    pulses = [dict(pulse_name='u', bins_number=n, time_name='t', lower_limit=-1.0, upper_limit=1.0, amplitude_variation=1.0,
                   basis={"basis_attribute": linear_basis(F, K, h), "random_super_parameter_distribution": {"distribution_attribute": drawn(F)}})]
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(10)]
    client = Client(lambda k, p, q, t: {"FoM": val[k]})
    conf = settings(pulses, [dict(time_name='t', initial_value=F.real('T', pos=True))], [], super_iteration_number=2, compensate_drift={"compensate_after_SI": True, "num_average": A})

    def script(si, func, x0, kw):
        if si == 1:
            b = 1 if val[1] < val[0] else 0
            F.ensure('number of measurements', len(client.seen) == 2 + A)
            for k in range(2, 2 + A):
                F.vec_eq('the best pulse is measured', client.seen[k][0][0], client.seen[b][0][0])
            return
        for e in range(2):
            func(F.array('x%d_%d' % (si, e), K), e + 1)
    F.patch(F.mod(DC), 'simplex_creation', lambda *a, **k: None)
    alg, c, dump, he = dcrab(F, client, conf, script)
    alg.begin()
    alg.run()


@contract('C17', functions=UPD, assumes=['one earlier record, then num_average re-measurements of a vector announced by the search'], paths=400, bound='one or two averages')
def drift_inside_the_search(F):
    """the search announces the mean of its re-measurements: it becomes the reference value, and the vector it measured the best one"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    A = F.choice('num_average', [1, 2], more=[3, 5])
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(13)]
    same = F.case('record_vector')

    def search(func, x0):
        a, b = F.array('a', N), F.array('b', N)
        func(a.copy())
        x = a if same else b
        got = [func(x.copy()) for k in range(A)]
        m = mean(F, got)
        d0 = len(dump.controls)
        r = alg._inner_routine_call(x.copy(), 1, m)
        F.ensure('announcement is no evaluation', len(client.seen) == 1 + A)
        F.ensure('answer', F.eq(r, m))
        F.ensure('reference value', F.eq(alg._get_final_results()["Figure of merit"], mean(F, val[1:1 + A])))
        F.ensure('saved as record', F.and_(len(dump.controls) == d0 + 1, dump.controls[-1]['is_record']))
        F.ensure('saved value', F.eq(dump.controls[-1]['FoM'], m))
    alg, client, dump, he, N = any_algorithm(F, kind, lambda k, p, q, t: {"FoM": val[k]}, search, [par_settings(F, 'q')])
    alg.begin()
    alg.run()
    F.ensure('best controls', F.eq(alg.get_best_controls()['parameters'][0], client.seen[1][1][0]))


@contract('C17', functions=[NM + ':NelderMead.run_dsm'], bound='one Nelder-Mead iteration from an arbitrary simplex of dimension 1 or 2, any values, any clock', paths=4000)
def nelder_mead_remeasures_its_best_vertex(F):
    """Nelder-Mead: when the time has come, the best vertex is measured num_average times, the mean is announced and kept; otherwise nothing is measured"""
    m = F.mod(NM)
    clock = Clock().install(F, NM)
    D = F.choice('dim', [1, 2])
    minutes, due, A = F.choice('configuration', [(0.0, True, 1), (5.0, False, 1), (5.0, True, 1), (5.0, True, 2)])
    S = F.array('simplex', (D + 1, D))
    log = []

    def func(x, it, new=None):
        if new is not None:
            log.append((x.copy(), new, True))
            return new
        v = F.real('v%d' % len(log), -1e9, 1e9)
        log.append((x.copy(), v, False))
        return v

    def callback():
        return False
    s = m.NelderMead({}, {}, callback=callback)
    first = [True]

    def counted(x, it, new=None):
        if len(log) == D + 1 and due:
            clock.minutes = 6.0
        return func(x, it, new)
    r = s.run_dsm(counted, S[0].copy(), initial_simplex=S.copy(), drift_comp_minutes=minutes, drift_comp_num_average=A)
    announced = [k for k, e in enumerate(log) if e[2]]
    if minutes > 0 and due:
        F.ensure('announced once, at the end', announced == [len(log) - 1])
        x, v, _ = log[-1]
        again = log[len(log) - 1 - A:len(log) - 1]
        before = log[:len(log) - 1 - A]
        F.ensure('the mean is announced', F.eq(v, mean(F, [e[1] for e in again])))
        for e in again:
            F.vec_eq('the announced vertex is measured', e[0], x)
        lowest = F.min2(before[0][1], before[1][1])
        for e in before[2:]:
            lowest = F.min2(lowest, e[1])
        F.ensure('the announced vertex is the best one', F.or_(*[F.and_(F.eq(e[1], lowest), *[F.eq(e[0][i], x[i]) for i in range(D)]) for e in before]))
        F.ensure('returned value', F.eq(r["F_min_val"], v))
        F.vec_eq('returned vertex', r["X_opti_vec"], x)
    else:
        F.ensure('nothing is announced', announced == [])
    F.ensure('number of evaluations', F.eq(r["NfunevalsUsed"], len(log)))
