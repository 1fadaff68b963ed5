from pyvc.api import contract
from ._common import *

UM, CB, CM = 'quocslib.pulses.superparameter.Uniform', 'quocslib.pulses.basis.ChoppedBasis', 'quocslib.Controls'
FN = [UM + ':Uniform.__init__', UM + ':Uniform.set_random_super_parameter',
      'quocslib.pulses.superparameter.SuperParameterDistribution:SuperParameterDistribution.__init__']


class Numbers:
    """a configured generator: n fresh numbers of [0, 1) per request"""
    def __init__(self, F, tag='r'):
        self.F, self.tag, self.given = F, tag, []

    def get_random_numbers(self, n):
        F = self.F
        a = F.array('%s%d' % (self.tag, len(self.given)), n, lo=0, hi=1)
        F.assume_forall(n, lambda i: F.lt(a[i], 1))
        self.given.append((n, a))
        return a.copy()


def stratified(F, w, k, a, b, r=None, what=''):
    F.ensure(what + 'number of super-parameters', F.eq(F.length(w), k))
    F.forall(what + 'not below its sub-interval', k, lambda i: F.le(a + i * (b - a) / k, w[i]))
    F.forall(what + 'not above its sub-interval', k, lambda i: F.le(w[i], a + (i + 1) * (b - a) / k))
    F.forall(what + 'inside the range', k, lambda i: F.and_(F.le(a, w[i]), F.le(w[i], b)))
    if r is not None:
        F.forall(what + 'placed by the random number', k, lambda i: F.eq(w[i], a + (b - a) / k * (i + r[i])))


def _range(F, tag=''):
    a, b = F.real('low' + tag, lo=None), F.real('high' + tag)
    F.assume(a <= b)
    return a, b


@contract('C09', functions=FN)
def draws_are_stratified(F):
    """every draw, the first and any later one, with the numbers of the configured generator"""
    k = F.int('k', 1)
    a, b = _range(F)
    g = Numbers(F)
    d = F.mod(UM).Uniform(k, {"lower_limit": a, "upper_limit": b, "distribution_name": "Uniform"}, rng=g)
    n = F.choice('draws', [1, 2], more=[3, 6])
    for _ in range(n):
        d.set_random_super_parameter()
    F.ensure('one request per draw', len(g.given) == n)
    F.ensure('k numbers requested', F.eq(g.given[-1][0], k))
    stratified(F, d.w, k, a, b, g.given[-1][1])


@contract('C09', functions=FN)
def draws_without_generator(F):
    """no generator configured: the global one, stratified all the same"""
    k = F.int('k', 1)
    a, b = _range(F)
    d = F.mod(UM).Uniform(k, {"lower_limit": a, "upper_limit": b}, rng=None)
    if F.case('second'):
        d.set_random_super_parameter()
    d.set_random_super_parameter()
    stratified(F, d.w, k, a, b)


@contract('C09', functions=FN + [CB + ':ChoppedBasis.__init__', CM + ':Controls.select_basis', CM + ':Controls.get_random_super_parameter', CM + ':Controls.__init__'], bound='two pulses')
def basis_selection_redraws_every_pulse(F):
    """the super-parameters of all chopped pulses after a basis selection, as reported to the user"""
    g = Numbers(F)
    ks, ranges, pulses = [], [], []
    for j in range(2):
        ks.append(F.int('k%d' % j, 1))
        ranges.append(_range(F, str(j)))
        pulses.append(dict(pulse_name=label(j), bins_number=5, time_name='t', lower_limit=-1.0, upper_limit=1.0, amplitude_variation=1.0,
                           basis={"basis_name": F.choice('basis%d' % j, ["Fourier", "Sinc"]), "basis_vector_number": ks[j],
                                  "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": ranges[j][0], "upper_limit": ranges[j][1]}}))
    c = F.mod(CM).Controls(pulses, [dict(time_name='t', initial_value=1.0)], [], rng=g)
    n = F.choice('selections', [1, 2], more=[3, 6])
    for _ in range(n):
        c.select_basis()
    w = c.get_random_super_parameter()
    F.ensure('a set per chopped pulse', F.length(w) == 2)
    F.ensure('fresh numbers for every pulse and selection', len(g.given) == 2 * n)
    for j in range(2):
        stratified(F, w[j], ks[j], ranges[j][0], ranges[j][1], g.given[2 * (n - 1) + j][1], 'pulse %d: ' % j)
