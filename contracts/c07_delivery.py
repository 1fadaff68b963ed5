from pyvc.api import contract
from ._common import *
from .c06_controls import user_basis, pulse_settings, par_settings, CM, BP, BPAR
from .c03_chain import tgrid

FN = [CM + ':Controls.' + m for m in ('__init__', '_get_controls_lists', 'get_bare_controls_lists', 'update_base_controls')] + \
     [BP + ':BasePulse.' + m for m in ('get_pulse', 'get_bare_pulse', 'set_base_pulse', '_set_control_parameters', '_set_time_grid')] + \
     [BPAR + ':BaseParameter.' + m for m in ('get_parameter', 'set_parameter')] + ['quocslib.parameters.TimeParameter:TimeParameter.get_time']
BOUND = 'up to two pulses, two times and two parameters (any sizes)'
ASS = ['time optimisation is announced as unfinished in the code and excluded']


def world(F, np_, nq, ad=False, lo=-1.0, hi=1.0, bins=None, **kw):
    times = [dict(time_name=label(k), initial_value=F.real('T%d' % k, 0, 3 if ad and not F.sym else None)) for k in range(2)]
    pulses, info = [], []
    at = 0
    for k in range(np_):
        K = F.int('K%d' % k, 1)
        g, h = F.objective('g%d' % k), F.func('h%d' % k)
        s, o = F.array('scale%d' % k, K), F.array('offset%d' % k, K)
        which = F.choice('time_of_%d' % k, [0, 1])
        n = (F.int('bins%d' % k, 2) if F.case('many%d' % k) else 1) if bins is None else bins[k]
        cls = user_basis(F, g, h, K, s, o)
        pulses.append(pulse_settings(F, 'u%d' % k, cls, n, label(which), lo, hi, pulse_name=label(k), **kw))
        info.append(dict(K=K, g=g, h=h, n=n, T=times[which]['initial_value'], at=at, base=lambda i: 0.0))
        at = at + K
    pars = [par_settings(F, 'q%d' % k, label(k)) for k in range(nq)]
    c = F.mod(CM).Controls(pulses, times, [dict(d) for d in pars], is_AD=ad)
    return c, info, pars, at, at + nq


def own(F, x, b):
    return x[b['at']:b['at'] + b['K']]


def check_delivery(F, c, x, info, pars, at, lo=-1.0, hi=1.0, what=''):
    pulses, grids, vals = c.get_controls_lists(x)
    F.ensure(what + 'one pulse per configured pulse', F.length(pulses) == len(info))
    F.ensure(what + 'one time grid per configured pulse', F.length(grids) == len(info))
    F.ensure(what + 'one value per configured parameter', F.length(vals) == len(pars))
    for k, b in enumerate(info):
        t = tgrid(F, b['T'], b['n'])
        amp = b['g'](own(F, x, b))
        F.ensure(what + 'length of pulse %d' % k, F.eq(F.length(pulses[k]), b['n']))
        F.ensure(what + 'length of grid %d' % k, F.eq(F.length(grids[k]), b['n']))
        F.forall(what + 'time grid of pulse %d' % k, b['n'], lambda i: F.eq(grids[k][i], t(i)))
        F.forall(what + 'pulse %d' % k, b['n'], lambda i: F.eq(pulses[k][i], clip_spec(F, b['base'](i) + amp * b['h'](t(i)), lo, hi)))
    for k, d in enumerate(pars):
        F.ensure(what + 'parameter %d' % k, F.eq(vals[k], clip_spec(F, x[at + k], d['lower_limit'], d['upper_limit'])))


def used(F, c):
    """an evaluation whose receiver goes on to change the arrays it was given"""
    def call(x):
        pulses, grids, vals = c.get_controls_lists(x)
        for k, a in enumerate(list(pulses) + list(grids)):
            a[:] = F.array('scribble%d' % k, F.length(a))
    return call


@contract('C07', functions=FN, assumes=ASS, bound=BOUND, paths=1200)
def delivered_controls(F):
    """pulses, grids and parameters of a search vector, after an arbitrary earlier evaluation"""
    np_, nq = F.choice('pulses', [1, 2], more=[3, 4]), F.choice('parameters', [0, 1, 2], more=[3, 4])
    c, info, pars, at, N = world(F, np_, nq)
    x = after_earlier(F, used(F, c), N)
    check_delivery(F, c, x, info, pars, at)


@contract('C07', functions=FN, assumes=ASS, bound=BOUND, paths=1200)
def bare_pulses(F):
    """bare pulses: the update alone, without guess, scaling or limits"""
    np_, nq = F.choice('pulses', [1, 2], more=[3, 4]), F.choice('parameters', [0, 1], more=[2, 3])
    c, info, pars, at, N = world(F, np_, nq)
    x = after_earlier(F, c.get_controls_lists if F.case('after_delivery') else c.get_bare_controls_lists, N)
    bare = c.get_bare_controls_lists(x)
    F.ensure('one bare pulse per configured pulse', F.length(bare) == np_)
    for k, b in enumerate(info):
        t = tgrid(F, b['T'], b['n'])
        amp = b['g'](own(F, x, b))
        F.ensure('length of bare pulse %d' % k, F.eq(F.length(bare[k]), b['n']))
        F.forall('bare pulse %d' % k, b['n'], lambda i: F.eq(bare[k][i], amp * b['h'](t(i))))


@contract('C07', functions=FN, assumes=ASS, bound=BOUND, paths=1200)
def base_updates(F):
    """an update of the base controls uses every control's own entries and its own time"""
    np_, nq = F.choice('pulses', [1, 2], more=[3, 4]), F.choice('parameters', [0, 1], more=[2, 3])
    c, info, pars, at, N = world(F, np_, nq)
    y = F.array('accepted', N)
    if F.case('after_delivery'):
        used(F, c)(F.array('x_before', N))
    keep = y.copy()
    c.update_base_controls(y)
    y = keep
    for b in info:
        t = tgrid(F, b['T'], b['n'])
        b['base'] = (lambda b, t, amp: lambda i: amp * b['h'](t(i)))(b, t, b['g'](own(F, y, b)))
    m = c.get_mean_value()
    for k, d in enumerate(pars):
        F.ensure('kept parameter %d' % k, F.eq(m[at + k], clip_spec(F, y[at + k], d['lower_limit'], d['upper_limit'])))
    if F.case('used_in_between'):
        used(F, c)(F.array('x_between', N))
    x = F.array('x', N)
    check_delivery(F, c, x, info, pars, at, what='after the update: ')


@contract('C07', functions=FN[:1] + [CM + ':Controls._get_controls_jax_obj', CM + ':Controls._get_converted_jax_obj', CM + ':Controls._buffer_AD_arrays',
                                     BP + ':BasePulse._set_AD_functions', BPAR + ':BaseParameter._set_AD_functions'],
          assumes=ASS + ['jax.numpy agrees with numpy on the functions used (single precision rounding ignored)'], bound=BOUND, samples=25)
def differentiable_variant(F):
    """the automatic-differentiation variant delivers the same values, zero-padded to the longest pulse"""
    np_, nq = F.choice('pulses', [1, 2], more=[3, 4]), F.choice('parameters', [0, 1, 2], more=[3, 4])
    n0 = F.int('bins0', 2)
    n1 = n0 + F.int('more', 0) if F.case('second_longer') else F.int('bins1', 2)
    if np_ == 2:
        F.assume(n1 <= n0 + 40)
    bins = [n0, n1] + [F.int('bins%d' % k, 2) for k in range(2, np_)]
    c, info, pars, at, N = world(F, np_, nq, ad=True, bins=bins)
    x = F.array('x', N, lo=-3, hi=3)
    if not F.sym:
        import jax.numpy as jnp
        x = jnp.asarray(x)
    tol = 2e-3
    P, G, V = (c.get_final_controls_lists if F.case('final') else c.get_controls_lists)(x)
    longest = n0
    for k in range(1, np_):
        longest = F.max2(longest, bins[k])
    for k, b in enumerate(info):
        t = tgrid(F, b['T'], b['n'])
        amp = b['g'](own(F, x, b))
        pk, gk = P[k], G[k]
        F.ensure('padded length %d' % k, F.eq(F.length(pk), longest))
        F.ensure('padded grid length %d' % k, F.eq(F.length(gk), longest))
        F.forall('time grid of pulse %d' % k, b['n'], lambda i: F.eq(F.re(gk[i]), t(i), tol))
        F.forall('pulse %d' % k, b['n'], lambda i: F.eq(F.re(pk[i]), clip_spec(F, amp * b['h'](t(i)), -1.0, 1.0), tol))
        F.forall('padding of pulse %d' % k, longest, lambda i: F.exact_eq(F.re(pk[i]), 0.0), lo=b['n'])
        F.forall('padding of grid %d' % k, longest, lambda i: F.exact_eq(F.re(gk[i]), 0.0), lo=b['n'])
    F.ensure('one value per configured parameter', F.length(V) == nq)
    for k, d in enumerate(pars):
        F.ensure('parameter %d' % k, F.eq(F.re(V[k]), clip_spec(F, x[at + k], d['lower_limit'], d['upper_limit']), tol))
