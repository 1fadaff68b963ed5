from pyvc.api import contract
from ._common import *
from ._alg import *
from ._alg import _ctr
from .c06_controls import par_settings

RG, UM, LA = 'quocslib.tools.randomgenerator', 'quocslib.pulses.superparameter.Uniform', 'quocslib.tools.linearalgebra'
CM_ = 'quocslib.Controls'
CMA = 'quocslib.gradientfreemethods.CMAES'
FN = [RG + ':RandomNumberGenerator.__init__', RG + ':RandomNumberGenerator.get_random_numbers', UM + ':Uniform.set_random_super_parameter']


def simplex_stand_in(F):
    """contract of simplex_creation (C11): a function of the mean, the spreads and, if there is a generator, of its next numbers only"""
    def f(mean, sigma, rng=None):
        n = F.length(mean)
        r = F.np.random.rand(n) if rng is None else rng.get_random_numbers(n)
        return F.np.array([mean, mean + sigma * r])
    return f


def same_deliveries(F, a, b):
    F.ensure('same number of evaluations', len(a.seen) == len(b.seen))
    for (p, q, t), (p2, q2, t2) in zip(a.seen, b.seen):
        for u, v in zip(p, p2):
            F.vec_eq('same pulses', u, v)
        for u, v in zip(q, q2):
            F.ensure('same parameters', F.eq(u, v))
        for u, v in zip(t, t2):
            F.vec_eq('same time grids', u, v)


def a_seed(F):
    return F.int('seed', 0) if F.sym or F.given else F.int('seed', *F.choice('seeds', [(0, 50), (10 ** 5, 10 ** 5 + 50)], more=[(2 ** 31 - 20, 2 ** 31 + 20), (2 ** 32, 2 ** 32 + 40), (2 ** 64, 2 ** 64 + 40)]))


@contract('C10', functions=FN + [DC + ':dCRABAlgorithm.__init__', DC + ':dCRABAlgorithm.run', DC + ':dCRABAlgorithm._dsm_build'],
          assumes=['simplex_creation depends on its arguments and on the given generator only (C11)', 'a generator created with a seed yields a stream fixed by the seed (numpy)',
                   'two super-iterations; a deterministic search evaluating simplex vertices'], paths=600, bound='one pulse, two super-iterations, two evaluations each')
def dcrab_is_fixed_by_its_seed(F):
    """same settings, seed and figure of merit: the same pulses, parameters and time grids are sent, whatever the global generators do"""
    K, n = F.int('K', 1, 6), F.int('bins', 2, 8)
    h = F.func('h', 2)
    from .c08_dressing import linear_basis
    seed = a_seed(F)
    low, high = F.real('wl', pos=True), F.real('wh', pos=True)
    F.assume(low <= high)
    T = F.real('T', pos=True)
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(4)]
    q = par_settings(F, 'q')
    base = linear_basis(F, K, h)
    P = F.choice('pulses', [1], more=[2, 3])
    reuse = F.case('same settings dictionary')

    def configured():
        pulses = [dict(pulse_name='u%d' % k, bins_number=n, time_name='t%d' % k, lower_limit=-1.0, upper_limit=1.0, amplitude_variation=1.0,
                       basis={"basis_attribute": base, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": low, "upper_limit": high}})
                  for k in range(P)]
        return settings(pulses, [dict(time_name='t%d' % k, initial_value=T) for k in range(P)], [dict(q)], super_iteration_number=2,
                        random_number_generator={"seed_number": seed})
    first = configured()

    def once():
        conf = first if reuse else configured()
        client = Client(lambda k, p, q, t: {"FoM": val[k]})

        def script(si, func, x0, kw):
            func(kw['initial_simplex'][0], 1)
            func(kw['initial_simplex'][1], 1)
        F.patch(F.mod(DC), 'simplex_creation', simplex_stand_in(F))
        alg, c, d, he = dcrab(F, client, conf, script)
        alg.begin()
        alg.run()
        return client
    a = once()
    F.scramble()
    b = once()
    F.ensure('evaluations', len(a.seen) == 4)
    same_deliveries(F, a, b)


@contract('C10', functions=FN + [CM_ + ':Controls.select_basis', CM_ + ':Controls.__init__', CM_ + ':Controls.get_random_super_parameter'],
          assumes=['a generator created with a seed yields a stream fixed by the seed (numpy)'], bound='two pulses over one or two times, two super-iterations', paths=400)
def draws_of_several_pulses_are_fixed_by_the_seed(F):
    """which draw goes to which pulse depends on the configuration and the seed only, not on the order of any set of names"""
    from .c08_dressing import linear_basis
    seed = a_seed(F)
    h = F.func('h', 2)
    low, high = F.real('wl', pos=True), F.real('wh', pos=True)
    F.assume(low <= high)
    base = linear_basis(F, 2, h)
    one_time = F.case('the same time')

    def once():
        pulses = [dict(pulse_name='u%d' % k, bins_number=3, time_name='t%d' % (0 if one_time else k), lower_limit=-1.0, upper_limit=1.0, amplitude_variation=1.0,
                       basis={"basis_attribute": base, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": low, "upper_limit": high}})
                  for k in range(2)]
        c = F.mod(CM_).Controls(pulses, [dict(time_name='t%d' % k, initial_value=1.0 + k) for k in range(2)], [], rng=F.mod(RG).RandomNumberGenerator(seed))
        out = []
        for si in range(2):
            c.select_basis()
            out.append([w[0] for w in c.get_random_super_parameter()])
        return out
    a = once()
    F.scramble()
    b = once()
    for u, v in zip(a, b):
        F.ensure('one draw per pulse', F.and_(len(u) == 2, len(v) == 2))
        for x, y in zip(u, v):
            F.ensure('the same draws', F.eq(x, y))


@contract('C10', functions=FN + [GR + ':GRAPEAlgorithm.__init__', GR + ':GRAPEAlgorithm.run', AD + ':ADAlgorithm.__init__', AD + ':ADAlgorithm.inner_run'],
          assumes=['a minimizer that is a function of what it is given', 'a generator created with a seed yields a stream fixed by the seed (numpy)'], paths=400, bound='two evaluations per search')
def gradient_searches_are_fixed_by_their_seed(F):
    kind = F.choice('algorithm', ['grape', 'ad'])
    seed = a_seed(F)
    q = par_settings(F, 'q')
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(2)]

    def once():
        def search(func, x0):
            func(x0)
        alg, client, dump, he, N = any_algorithm(F, kind, lambda k, p, q, t: {"FoM": val[k]}, search, [dict(q)], random_number_generator={"seed_number": seed})
        alg.begin()
        alg.run()
        return client
    a = once()
    F.scramble()
    b = once()
    F.ensure('evaluations', len(a.seen) >= 1)
    same_deliveries(F, a, b)


@contract('C10', functions=FN + [DC + ':dCRABAlgorithm.__init__', CMA + ':CMAES.run_dsm', CMA + ':CMAES._get_normal_numbers'], assumes=['CMA-ES as dCRAB creates it, first generation, two search entries'], paths=400, bound='first generation, two search entries')
def cmaes_samples_are_fixed_by_the_seed(F):
    """the CMA-ES search that dCRAB creates samples from the seeded generator"""
    seed = a_seed(F)
    q = [par_settings(F, 'q'), par_settings(F, 'r')]
    val = [F.real('f%d' % k, -1e9, 1e9) for k in range(12)]

    def once():
        conf = settings([], [], [dict(d) for d in q], random_number_generator={"seed_number": seed},
                        dsm_settings={"general_settings": {"dsm_algorithm_name": "CMAES", "population": 3}, "stopping_criteria": {"max_eval": 3}})
        client = Client(lambda k, p, q, t: {"FoM": val[k]})
        alg, c, d, he = dcrab(F, client, conf)
        pts = []

        class Done(Exception):
            pass

        def func(x, it):
            pts.append(x.copy())
            if len(pts) == 3:
                raise Done()
            return float(len(pts))
        try:
            alg.dsm_obj.run_dsm(func, alg.controls.get_mean_value(), sigma_v=alg.controls.get_sigma_variation())
        except Done:
            pass
        return pts
    a = once()
    F.scramble()
    b = once()
    F.ensure('three samples', len(a) == 3)
    for u, v in zip(a, b):
        F.vec_eq('same samples', u, v)


@contract('C10', functions=FN + [LA + ':simplex_creation'], assumes=['gram_schmidt is a function of its argument (it draws nothing: C11)', 'a generator created with a seed yields a stream fixed by the seed (numpy)'])
def simplex_is_fixed_by_the_seed(F):
    m, r = F.mod(LA), F.mod(RG)
    N = F.int('N', 1, 6)
    mean, sigma = F.array('mean', N), F.array('sigma', N)
    seed = a_seed(F)
    real = m.gram_schmidt

    def once():
        given = []

        def gs(A):
            given.append(A.copy())
            return A if F.sym else real(A)
        F.patch(m, 'gram_schmidt', gs)
        rng = r.RandomNumberGenerator(seed)
        S1 = m.simplex_creation(mean.copy(), sigma.copy(), rng=rng)
        S2 = m.simplex_creation(mean.copy(), sigma.copy(), rng=rng)
        return given, S1, S2
    g, S1, S2 = once()
    F.scramble()
    h, R1, R2 = once()
    for A, B in list(zip(g, h)) + [(S1, R1), (S2, R2)]:
        F.forall2('same simplex', N, N, lambda i, j: F.eq(A[i, j], B[i, j]))
    F.forall('same last vertex', N, lambda j: F.eq(S1[N, j], R1[N, j]))
    F.forall('same last vertex of a later simplex', N, lambda j: F.eq(S2[N, j], R2[N, j]))


CHILD = '''
import sys, io, contextlib
sys.path.insert(0, sys.argv[1])
import numpy as np
from quocslib.Optimizer import Optimizer
from quocslib.utils.AbstractFoM import AbstractFoM
sent = []
class P(AbstractFoM):
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        sent.append([[float(v) for v in p] for p in pulses] + [[float(v) for v in parameters]])
        return {"FoM": sum(float(np.sum((p - 0.3) ** 2)) for p in pulses) + sum(float(v) ** 2 for v in parameters)}
times = [dict(time_name=n, initial_value=1.0 + k) for k, n in enumerate(("alpha", "beta", "gamma"))]
pulses = [dict(pulse_name="p_" + t["time_name"], time_name=t["time_name"], bins_number=4, lower_limit=-2.0, upper_limit=2.0, amplitude_variation=0.5,
               basis=dict(basis_name="Fourier", basis_vector_number=2,
                          random_super_parameter_distribution=dict(distribution_name="Uniform", lower_limit=0.1, upper_limit=4.0))) for t in times]
pars = [dict(parameter_name=n, initial_value=0.4, lower_limit=-1.0, upper_limit=1.0, amplitude_variation=0.2) for n in ("first", "second")]
d = dict(optimization_client_name="seeded", create_logfile=False, console_info=False, dump_results=False, use_microsecond_name=True, pulses=pulses, times=times, parameters=pars,
         algorithm_settings=dict(algorithm_name="dCRAB", super_iteration_number=2, random_number_generator=dict(seed_number=int(sys.argv[2])),
                                 dsm_settings=dict(general_settings=dict(dsm_algorithm_name=sys.argv[3]), stopping_criteria=dict(max_eval=8))))
with contextlib.redirect_stdout(io.StringIO()):
    Optimizer(d, P()).execute()
print(sent)
'''


@contract('C10', functions=[DC + ':dCRABAlgorithm.run', CM_ + ':Controls.select_basis'], symbolic=False, supplement=True, samples=1,
          bound='one configuration of three pulses and two parameters, two searches, run in fresh processes with different hash seeds')
def the_process_does_not_matter(F):
    """the same seeded optimisation in two processes, in which the order of sets of names differs"""
    import os, subprocess, sys, tempfile
    src = os.path.dirname(os.path.dirname(os.path.abspath(F.mod('quocslib').__file__ or F.mod(DC).__file__.replace('optimizationalgorithms' + os.sep, ''))))
    seed = F.int('seed', 0, 1000)
    for search in ('NelderMead', 'CMAES'):
        out = []
        for k in (1, 2, 3):
            with tempfile.TemporaryDirectory() as w:
                r = subprocess.run([sys.executable, '-c', CHILD, src, str(seed), search], capture_output=True, text=True, cwd=w, timeout=100,
                                   env=dict(os.environ, PYTHONHASHSEED=str(k), PYTHONDONTWRITEBYTECODE='1'))
            F.ensure('the optimisation runs', r.returncode == 0)
            F.ensure('figures of merit are asked for', len(r.stdout) > 4)
            out.append(r.stdout)
        F.ensure('the same evaluations in every process (%s)' % search, out.count(out[0]) == len(out))
