from pyvc.api import contract
from ._common import *
import types

OU = 'quocslib.noiseprocesses.ornsteinuhlenbeckprocess'
FN = [OU + ':OrnsteinUhlenbeck.' + m for m in ('__init__', 'get_noise_realization', 'get_ensemble_noise_realization')]
ASS = ['numpy.random: an arbitrary stream of normal numbers, arrays take consecutive ones', 'relaxation time, step positive, strength not negative; at least one sample, T/dt no rounding tie']


class Stream:
    """ghost state: the stream of increments and the number consumed"""
    __vc_trace__ = True

    def __init__(self, F):
        self.F, self.g, self.count = F, F.func('g'), 0

    def randn(self, *shape):
        if len(shape) == 1 and not isinstance(shape[0], int) or len(shape) > 1:
            self.F.unsupported('array of increments')
        if not shape:
            k = self.count
            self.count = k + 1
            return self.g(k)
        return self.F.np.array([self.randn() for _ in range(shape[0])])

    def standard_normal(self, size=None): return self.randn(*(() if size is None else (size if isinstance(size, tuple) else (size,))))
    def normal(self, loc=0.0, scale=1.0, size=None): return loc + scale * self.standard_normal(size)


def install(F, m):
    s, np = F.ghost(Stream(F)), F.np

    class Numpy:
        random = s
        def __getattr__(self, k): return getattr(np, k)
    F.patch(m, 'np', Numpy())
    return s


def process(F, dt=None):
    m = F.mod(OU)
    s = install(F, m)
    tau, c, x0, dt = F.real('tau', 0.05, 5.0), F.real('c', 0.0, 4.0), F.real('x0', -3.0, 3.0), dt or F.real('dt', 0.01, 1.0)
    return m, s, m.OrnsteinUhlenbeck(tau=tau, c=c, x0=x0, dt=dt), tau, c, x0, dt


def coefficients(F, tau, c, dt):
    return F.exp(-(1 / tau) * dt), F.sqrt(c * tau / 2 * (1 - F.exp(-2 / tau * dt)))


def follows(F, out, n, tau, c, x0, dt, g, first):
    """mean reversion and increment of every step; first: stream position of the first increment"""
    mu, sd = coefficients(F, tau, c, dt)
    F.ensure('number of samples', F.eq(F.length(out), n))
    F.ensure('start value', F.eq(out[0], x0))
    F.forall('recursion', n - 1, lambda i: F.eq(out[i + 1], out[i] * mu + sd * g(first + i)))


@contract('C25', functions=FN[:2], assumes=ASS, paths=50)
def any_trace(F):
    """any number of samples, at any position of the stream (further traces of the same process: next contract)"""
    m, s, ou, tau, c, x0, dt = process(F)
    n, k0 = F.int('n', 1), F.int('used', 0)
    s.count = k0
    a = ou.get_noise_realization(dt * (n + F.real('fraction', 0.1, 0.9)))
    follows(F, a, n, tau, c, x0, dt, s.g, k0)
    F.ensure('one fresh increment per step', F.eq(s.count, k0 + n - 1))


@contract('C25', functions=FN, assumes=ASS, bound='up to four samples, three traces, two step sizes', supplement=True, paths=50)
def short_ensembles(F):
    dt = F.choice('step', [0.5, 0.25])
    m, s, ou, tau, c, x0, dt = process(F, dt)
    n, M = F.choice('n', [1, 2, 3, 4], more=[9, 30]), F.choice('traces', [0, 1, 2, 3], more=[6, 40])
    out = ou.get_ensemble_noise_realization(dt * n + 0.125, M)
    F.ensure('number of traces', len(out) == M)
    for j in range(M):
        follows(F, out[j], n, tau, c, x0, dt, s.g, j * (n - 1))
    F.ensure('every trace has its own increments', s.count == M * (n - 1))


@contract('C25', functions=FN[2:], assumes=ASS + ['get_noise_realization by its contract'], paths=50)
def any_ensemble(F):
    """any number of traces of any length: each row is one trace of its own"""
    m, s, ou, tau, c, x0, dt = process(F)
    n, M = F.int('n', 1), F.int('traces', 0)
    T = dt * (n + F.real('fraction', 0.1, 0.9))
    trace = F.func('trace', 2)
    asked = types.SimpleNamespace(k=0)

    class Calls:
        __vc_trace__ = True
        def __init__(self): self.k = 0
        def __call__(self, t):
            F.ensure('total time', F.exact_eq(t, T))
            k = self.k
            self.k = k + 1
            return F.np.array([trace(k, i) for i in range(n)]) if not F.sym else F.table(n, lambda i: trace(k, i))
    calls = Calls()
    ou.get_noise_realization = calls
    out = ou.get_ensemble_noise_realization(T, M)
    F.ensure('number of traces', F.eq(F.length(out), M))
    F.ensure('one realization per trace', F.eq(calls.k, M))
    F.forall2('rows', M, n, lambda j, i: F.eq(out[j, i], trace(j, i)))
