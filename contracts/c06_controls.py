from pyvc.api import contract
from ._common import *

CM, BP, CB, BPAR = 'quocslib.Controls', 'quocslib.pulses.BasePulse', 'quocslib.pulses.basis.ChoppedBasis', 'quocslib.parameters.BaseParameter'
FN = [CM + ':Controls.' + m for m in ('__init__', 'get_control_parameters_number', 'get_sigma_variation', 'get_mean_value', 'select_basis',
                                      '_update_control_parameter_indexes', 'get_random_super_parameter')] + \
     [BP + ':BasePulse.set_control_parameters_list', BP + ':BasePulse.__init__', BPAR + ':BaseParameter.set_control_parameters_list',
      BPAR + ':BaseParameter.__init__', CB + ':ChoppedBasis.__init__']


def user_basis(F, g, h, K, scale, offset, chopped=None):
    """a basis supplied by the user: update = g(own parameters) * h(time grid), K parameters, its own scales and offsets.
    chopped: (distribution class, function returning the sizes and vectors after the next redraw)"""
    if chopped is None:
        base = F.mod(BP).BasePulse
    else:
        base = F.mod(CB).ChoppedBasis

    class UserBasis(base):
        super_parameter_number = 1

        def __init__(self, map_index, pulse_dictionary, rng=None, is_AD=False):
            self.control_parameters_number = K
            super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
            self.scale_coefficients = scale
            self.offset_coefficients = offset

        def _get_shaped_pulse(self):
            return g(self.optimized_control_parameters) * h(self.time_grid)

        def update_chopped_basis(self):
            if chopped is not None:
                self.control_parameters_number, self.scale_coefficients, self.offset_coefficients = chopped()
    return UserBasis


class AnyDistribution:
    def __init__(self, n, settings, rng=None):
        self.w = []

    def set_random_super_parameter(self):
        self.w = []


def pulse_settings(F, name, cls, n, time_name='t', lo=None, hi=None, **kw):
    d = dict(pulse_name=name, bins_number=n, time_name=time_name, lower_limit=F.real('lower_' + name) if lo is None else lo,
             upper_limit=F.real('upper_' + name) if hi is None else hi, amplitude_variation=F.real('var_' + name),
             basis={"basis_attribute": cls, "random_super_parameter_distribution": {"distribution_attribute": AnyDistribution}})
    d.update(kw)
    return d


def par_settings(F, name, parameter_name=None):
    lo, hi = F.real('lower_' + name), F.real('upper_' + name)
    F.assume(lo <= hi)
    return dict(parameter_name=parameter_name or name, initial_value=F.real('initial_' + name), lower_limit=lo, upper_limit=hi, amplitude_variation=F.real('var_' + name))


def _vectors(F, c, blocks):
    """blocks: (size, scales, offsets) in configuration order"""
    total = 0
    for K, s, o in blocks:
        total = total + K
    F.ensure('number of search parameters', F.eq(c.get_control_parameters_number(), total))
    sig, mean = c.get_sigma_variation(), c.get_mean_value()
    F.ensure('length of the spreads', F.eq(F.length(sig), total))
    F.ensure('length of the start values', F.eq(F.length(mean), total))
    at = 0
    for k, (K, s, o) in enumerate(blocks):
        F.forall('spread of control %d in its block' % k, K, lambda i: F.eq(sig[at + i], s(i)))
        F.forall('start value of control %d in its block' % k, K, lambda i: F.eq(mean[at + i], o(i)))
        at = at + K


def _controls(F, np_, nq, redraw):
    pulses, blocks, after = [], [], []
    bins = F.int('bins', 1)
    for k in range(np_):
        K = F.int('K%d' % k, 1)
        s, o = F.array('scale%d' % k, K), F.array('offset%d' % k, K)
        ch = None
        new = (K, s, o)
        if redraw and F.case('chopped%d' % k):
            K2 = F.int('K%d_new' % k, 1)
            new = (K2, F.array('scale%d_new' % k, K2), F.array('offset%d_new' % k, K2))
            ch = (lambda v: lambda: v)(new)
        cls = user_basis(F, F.objective('g%d' % k), F.func('h%d' % k), K, s, o, ch)
        pulses.append(pulse_settings(F, 'u%d' % k, cls, bins, lo=-1.0, hi=1.0, pulse_name=label(k)))
        blocks.append((K, (lambda a: lambda i: a[i])(s), (lambda a: lambda i: a[i])(o)))
        after.append((new[0], (lambda a: lambda i: a[i])(new[1]), (lambda a: lambda i: a[i])(new[2])))
    pars = [par_settings(F, 'q%d' % k, label(k)) for k in range(nq)]
    pb = [(1, (lambda d: lambda i: d['amplitude_variation'])(d), (lambda d: lambda i: d['initial_value'])(d)) for d in pars]
    c = F.mod(CM).Controls(pulses, [dict(time_name='t', initial_value=F.real('T', 0))], [dict(d) for d in pars])
    return c, blocks + pb, after + pb


@contract('C06', functions=FN, bound='up to three pulses and two parameters (any sizes)')
def blocks_of_the_vector(F):
    """any sizes, any mix of pulses and parameters"""
    np_ = F.choice('pulses', [0, 1, 2, 3], more=[4, 5, 7])
    nq = F.choice('parameters', [0, 1, 2], more=[3, 5])
    if np_ + nq == 0:
        F.assume(False)
    c, before, after = _controls(F, np_, nq, False)
    _vectors(F, c, before)
    F.ensure('no super-parameters without a chopped basis', F.length(c.get_random_super_parameter()) == 0)


@contract('C06', functions=FN, bound='up to two pulses and two parameters (any sizes), up to two redraws', paths=1500)
def blocks_after_redraw(F):
    """bases that change size when they are redrawn"""
    np_ = F.choice('pulses', [1, 2], more=[3, 5])
    nq = F.choice('parameters', [0, 1, 2], more=[3, 5])
    c, before, after = _controls(F, np_, nq, True)
    c.get_sigma_variation()
    for k in range(F.choice('redraws', [1, 2], more=[3, 5])):
        c.select_basis()
    _vectors(F, c, after)
