from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import CB, BP, CM, par_settings
from .c03_chain import tgrid

FN = [DC + ':dCRABAlgorithm.' + m for m in ('run', '_dsm_build', '_update_base_pulses', '_inner_routine_call', '_get_response_for_client', '_get_controls',
                                            '_get_final_results', '__init__')] + \
     [OA + ':OptimizationAlgorithm._routine_call', OA + ':OptimizationAlgorithm.get_best_controls', CM + ':Controls.update_base_controls',
      CM + ':Controls.select_basis', BP + ':BasePulse.set_base_pulse', CB + ':ChoppedBasis.__init__']
ASS = ['induction over evaluations and super-iterations: a first super-iteration with arbitrary vectors and values, then one with an arbitrary number after arbitrarily many evaluations; that nothing else distinguishes earlier rounds is not proved',
       'simplex_creation: any simplex (its own contract: C11)']


def linear_basis(F, K, h):
    """a chopped basis that is linear in its parameters: update(t) = (first + last parameter) * h(w, t)"""
    class LinearBasis(F.mod(CB).ChoppedBasis):
        super_parameter_number = 1

        def __init__(self, map_index, pulse_dictionary, rng=None, is_AD=False):
            self.control_parameters_number = K
            super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
            self.scale_coefficients = F.np.ones((K,))
            self.offset_coefficients = F.np.zeros((K,))

        def _get_shaped_pulse(self):
            x = self.optimized_control_parameters
            return (x[0] + x[K - 1]) * h(self.time_grid, self.super_parameter_distribution_obj.w[0])
    return LinearBasis


def drawn(F):
    """a super-parameter distribution: any new value per draw, in a new array or in the old one"""
    in_place = F.case('drawn in place')

    class Drawn:
        def __init__(self, n, settings, rng=None):
            self.k, self.w = 0, F.np.zeros(1)

        def set_random_super_parameter(self):
            self.k += 1
            w = F.np.zeros(1)
            w[0] = F.real('w%d' % self.k)
            if in_place:
                self.w[:] = w
            else:
                self.w = w
    return Drawn


def world(F, SI, evals, npar=1, late=False):
    """`late`: the second super-iteration has an arbitrary number and comes after arbitrarily many evaluations (symbolic runs only)"""
    if late:
        SI = F.int('super-iterations', 2)
        representative_rounds(F, DC)
    h = F.func('h', 2)
    K = F.int('K', 1)
    n = F.int('bins', 2)
    lo, hi = F.real('lower'), F.real('upper')
    F.assume(lo <= hi)
    foms = []
    client = Client(lambda k, p, q, t: {"FoM": foms[k]})
    pulses = [dict(pulse_name='u', bins_number=n, time_name='t', lower_limit=lo, upper_limit=hi, amplitude_variation=1.0,
                   basis={"basis_attribute": linear_basis(F, K, h), "random_super_parameter_distribution": {"distribution_attribute": drawn(F)}})]
    pars = [par_settings(F, 'q%d' % k, label(k)) for k in range(npar)]
    T = F.real('T', pos=True)
    conf = settings(pulses, [dict(time_name='t', initial_value=T)], [dict(d) for d in pars], super_iteration_number=SI)
    N = K + npar
    xs, ages = [], []

    def script(si, func, x0, kw):
        if late and si == 0:
            ages.append(Age(F, alg))
        elif late:
            ages[0].grow(evals)
        for e in range(evals):
            x = F.array('x%d_%d' % (si, e), N)
            f = F.real('f%d_%d' % (si, e), -100, 100)
            foms.append(f)
            xs.append((si, x, f, len(client.seen)))
            func(x.copy(), e + 1)
    alg, c, dump, he = dcrab(F, client, conf, script)
    F.patch(F.mod(DC), 'simplex_creation', lambda *a, **k: None)
    return dict(alg=alg, xs=xs, client=client, K=K, n=n, N=N, pars=pars, h=h, T=T, lo=lo, hi=hi, npar=npar)


def best(xs):
    b = None
    for e in xs:
        if b is None or e[2] < b[2]:
            b = e
    return b


@contract('C08', functions=FN, assumes=ASS, paths=600)
def best_controls_survive_dressing(F):
    """after the super-iterations, the controls of the start values are the controls that were evaluated at the best vector"""
    SI, ev = F.choice('history', [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)], more=[(4, 2), (6, 1), (1, 6)])
    d = world(F, SI, ev, late=F.sym and SI == 2 and F.case('arbitrarily late'))
    d['alg'].run()
    b = best(d['xs'])
    F.ensure('every super-iteration searched', F.eq(len(d['xs']), SI * ev))
    p, q, t = d['client'].seen[b[3]]
    out = d['alg'].get_best_controls()
    F.vec_eq('best pulse is the pulse of the best evaluation', out['pulses'][0], p[0])
    F.vec_eq('best time grid', out['timegrids'][0], t[0])
    for k in range(d['npar']):
        F.ensure('best parameter', F.eq(out['parameters'][k], q[k]))


@contract('C08', functions=FN, assumes=ASS, paths=600, bound='up to three super-iterations')
def one_entry_per_super_iteration(F):
    """lists of best vectors and super-parameters: one matching entry per finished super-iteration"""
    SI = F.choice('SI', [0, 1, 2, 3], more=[5, 8])
    d = world(F, SI, 1, npar=0)
    d['alg'].run()
    res = d['alg']._get_final_results()
    P, W = res['dcrab_para_list'], res['dcrab_freq_list']
    F.ensure('one vector per super-iteration', F.length(P) == SI)
    F.ensure('one super-parameter set per super-iteration', F.length(W) == SI)
    rec = None
    for si in range(SI):
        here = d['xs'][si]
        if rec is None or here[2] < rec:
            rec = here[2]
            F.vec_eq('vector of super-iteration %d' % si, P[si], here[1])
        else:
            F.vec_eq('no record in super-iteration %d: the zero update' % si, P[si], F.np.zeros(d['N']))
        F.ensure('super-parameters of super-iteration %d' % si, F.eq(W[si][0][0], F.real('w%d' % (si + 1))))


@contract('C08', functions=[BP + ':BasePulse.set_base_pulse', CM + ':Controls.update_base_controls'])
def accumulate_or_replace(F):
    """two updates: the base pulse is their sum, or the last one if so configured"""
    from .c07_delivery import world as w7, own
    over = F.case('overwrite')
    c, info, pars, at, N = w7(F, 1, 0, overwrite_base_pulse=over, shaping_options=["add_base_pulse"])
    y, z = F.array('first', N), F.array('second', N)
    c.update_base_controls(y)
    if F.case('evaluated_between'):
        c.get_controls_lists(F.array('between', N))
    c.update_base_controls(z)
    pulses, grids, vals = c.get_controls_lists(F.array('x', N))
    b = info[0]
    t = tgrid(F, b['T'], b['n'])
    gy, gz = b['g'](own(F, y, b)), b['g'](own(F, z, b))
    if over:
        F.forall('base replaced', b['n'], lambda i: F.eq(pulses[0][i], gz * b['h'](t(i))))
    else:
        F.forall('base accumulated', b['n'], lambda i: F.eq(pulses[0][i], (gy + gz) * b['h'](t(i))))
