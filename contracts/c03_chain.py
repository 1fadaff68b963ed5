from pyvc.api import contract
from ._common import *
from .c01_pulse import _pulse, BPM

FN = [BPM + ':BasePulse.' + m for m in ('__init__', 'get_pulse', '_get_build_pulse', 'add_initial_guess', 'add_base_pulse', 'add_shaped_pulse', 'scale_pulse',
                                        'limit_pulse', '_get_initial_guess', '_get_scaling_function', '_set_time_grid', '_set_control_parameters')]
NAMES = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
ABSENT = 'none'


def tgrid(F, T, n):
    """the linear grid: n samples from 0 to T (a single sample is 0)"""
    return (lambda i: 0.0) if n == 1 else (lambda i: T * i / (n - 1))


def step(F, d, name, cur, i, t, scale2):
    if name == "add_initial_guess":
        g = d['gf'](t(i), i) if d['gf'] else 0.0
        return cur + clip_spec(F, g, d['lo'], d['hi'])
    if name == "add_base_pulse":
        return cur + d['base'][i]
    if name == "add_new_update_pulse":
        return cur + d['shaped'][i]
    if name == "scale_pulse":
        if scale2:
            return scale2(t(i), cur)
        return cur * (d['sf'](t(i), i) if d['sf'] else 1.0)
    if name == "limit_pulse":
        return clip_spec(F, cur, d['lo'], d['hi'])
    return cur


def _check(F, d, chain, scale2=None, history=True):
    n, p = d['n'], d['p']
    if history:        # an arbitrary earlier evaluation must leave no trace
        x = after_earlier(F, lambda x: p.get_pulse(x, F.real('T_before', 0)), d['K'])
    else:
        x = F.array('x', d['K'])
    T = F.real('T', 0)
    out = p.get_pulse(x, T)
    t = tgrid(F, T, n)
    F.ensure('length', F.eq(F.length(out), n))
    F.ensure('grid length', F.eq(F.length(p.time_grid), n))
    F.forall('linear time grid', n, lambda i: F.eq(p.time_grid[i], t(i)))

    def want(i):
        cur = 0.0
        for s in chain:
            cur = step(F, d, s, cur, i, t, scale2)
        return cur
    F.forall('steps in order', n, lambda i: F.eq(out[i], want(i)))
    F.vec_eq('expansion receives the search parameters', p.optimized_control_parameters, x)


@contract('C03', functions=FN, assumes=['_get_shaped_pulse of a basis: any array of bins_number samples (its own contract: C04)'])
def default_chain(F):
    """guess, base, update, scale, limit; guess and scaling of every supported kind, evaluated on the delivered time grid"""
    gk, sk = F.choice('guess_kind', ['lambda', 'list', 'none', 'file']), F.choice('scale_kind', ['lambda', 'list', 'two', 'none', 'file'])
    d = _pulse(F, False, gk, sk)
    s2 = None
    if sk == 'two':
        s2 = d['mod'].vc_user_scale
    _check(F, d, NAMES, s2)


@contract('C03', functions=FN, bound='chains of up to three steps', paths=1500, samples=150)
def configured_chain(F):
    """every configured chain of up to three of the five steps (repeats and unknown names included)"""
    L = F.choice('L', [0, 1, 2, 3], more=[4, 5, 6])
    chain = [F.choice('op%d' % k, NAMES + ['smooth_pulse']) for k in range(L)]
    sk = 'none'
    if 'scale_pulse' in chain:
        sk = F.choice('scale_kind', ['lambda', 'two'])
    d = _pulse(F, False, 'lambda' if 'add_initial_guess' in chain else 'none', sk, options=list(chain))
    _check(F, d, chain, d['mod'].vc_user_scale if sk == 'two' else None, history=False)
