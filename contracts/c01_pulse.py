from pyvc.api import contract
from ._common import *

BPM = 'quocslib.pulses.BasePulse'


def _pulse(F, shrink, guess_kind, scale_kind, n=None, options=None, **more):
    mod = F.mod(BPM)
    n = F.int('bins', 1) if n is None else n
    K = F.int('K', 1)
    shaped = F.array('shaped', n)
    l, u = F.real('lower'), F.real('upper')
    if not F.sym and F.case('whole_number_limits'):
        l, u = int(l), int(u)
    g, gf = guess_setting(F, mod, guess_kind, 'guess', n)
    s, sf = guess_setting(F, mod, scale_kind, 'scale', n)
    C = any_basis(F, K, shaped)
    m = F.int('map_index', -1)
    kw = dict(more) if options is None else dict(more, shaping_options=options)
    p = C(map_index=m, pulse_name='p', bins_number=n, time_name='t', lower_limit=l, upper_limit=u, amplitude_variation=F.real('av'),
          initial_guess=g, scaling_function=s, **({} if shrink is None else {"shrink_ampl_lim": shrink}), **kw)
    base = F.array('base', n)
    p.base_pulse = base.copy()
    lo, hi = F.min2(l, u), F.max2(l, u)
    return dict(p=p, n=n, K=K, shaped=shaped, lo=lo, hi=hi, gf=gf, sf=sf, base=base, m=m, mod=mod)


FN = [BPM + ':BasePulse.' + m for m in ('__init__', 'get_pulse', '_get_build_pulse', '_get_limited_pulse', 'limit_pulse', 'scale_pulse', 'add_initial_guess',
                                        'add_base_pulse', 'add_shaped_pulse', 'set_base_pulse', '_get_initial_guess', '_get_scaling_function')]
ASS = ['_get_shaped_pulse of a basis: any array of bins_number samples (its own contract: C04)']
STEPS = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse", "unknown_step"]


def inside(F, d, out, le, what=''):
    F.ensure(what + 'length', F.eq(F.length(out), d['n']))
    F.forall(what + 'lower limit', d['n'], lambda i: le(d['lo'], out[i]))
    F.forall(what + 'upper limit', d['n'], lambda i: le(out[i], d['hi']))


@contract('C01', functions=FN, assumes=ASS, paths=600)
def delivered_within_limits_clip(F):
    """clipping mode: every delivered sample and every limited guess sample lies within the declared limits"""
    d = _pulse(F, False, F.choice('guess_kind', ['lambda', 'list', 'none', 'file']), F.choice('scale_kind', ['lambda', 'list', 'two', 'none', 'file']))
    x = F.array('x', d['K'])
    out = d['p'].get_pulse(x, F.real('T'))
    inside(F, d, out, F.exact_le)
    inside(F, d, d['p']._get_initial_guess(), F.exact_le, 'guess: ')


@contract('C01', functions=FN, assumes=ASS, paths=600)
def delivered_within_limits_later(F):
    """the same after earlier evaluations and accepted updates of the base pulse, plain and differentiable variant"""
    ad = F.case('is_AD') if F.sym else False
    d = _pulse(F, False, F.choice('guess_kind', ['lambda', 'list']), F.choice('scale_kind', ['lambda', 'list']), is_AD=ad)
    x = after_earlier(F, lambda x: d['p'].get_pulse(x, F.real('T_before')), d['K'])
    if F.case('accepted'):
        d['p'].set_base_pulse(x, F.real('T_accepted'))
        if F.case('evaluated_again'):
            inside(F, d, d['p'].get_pulse(F.array('x_between', d['K']), F.real('T_between')), F.exact_le, 'in between: ')
    inside(F, d, d['p'].get_pulse(x, F.real('T')), F.exact_le)


@contract('C01', functions=FN, assumes=ASS, bound='chains of up to two steps before the limiting step', paths=1500)
def every_chain_ending_with_limiting(F):
    chain = [F.choice('op%d' % k, STEPS) for k in range(F.choice('L', [0, 1, 2], more=[3, 4, 5]))]
    sk = F.choice('scale_kind', ['lambda', 'list', 'two']) if 'scale_pulse' in chain else 'none'
    gk = F.choice('guess_kind', ['lambda', 'list']) if 'add_initial_guess' in chain else 'none'
    d = _pulse(F, False, gk, sk, options=chain + ['limit_pulse'])
    inside(F, d, d['p'].get_pulse(F.array('x', d['K']), F.real('T')), F.exact_le)


@contract('C01', functions=[BPM + ':BasePulse._shrink_pulse_2', BPM + ':BasePulse._get_limited_pulse'])
def limited_within_limits_shrink(F):
    """shrinking mode, for every input pulse"""
    d = _pulse(F, True, 'none', 'none')
    x = F.array('x', d['n'])
    inside(F, d, d['p']._get_limited_pulse(x.copy()), F.le)


@contract('C01', functions=FN, assumes=ASS, paths=600)
def delivered_ends_with_the_shrinking_step(F):
    """shrinking mode: what is delivered (and the guess) is the result of one limiting step on some pulse, to which the contract above applies"""
    d = _pulse(F, True, F.choice('guess_kind', ['lambda', 'list']), F.choice('scale_kind', ['lambda', 'none']), is_AD=False)
    p, n = d['p'], d['n']
    x = F.array('x', d['K'])
    if not F.sym:
        p.get_pulse(F.array('x_before', d['K']), F.real('T_before'))
        inside(F, d, p.get_pulse(x, F.real('T')), F.le)
        return inside(F, d, p._get_initial_guess(), F.le, 'guess: ')
    made = []

    def by_contract(self, pulse):
        F.ensure('a pulse of the right length is limited', F.eq(F.length(pulse), n))
        out = F.array('limited%d' % len(made), n)
        F.assume_forall(n, lambda i: F.and_(d['lo'] <= out[i], out[i] <= d['hi']))
        made.append(out)
        return out
    F.patch(F.mod(BPM).BasePulse, '_shrink_pulse_2', by_contract)
    inside(F, d, p.get_pulse(x, F.real('T')), F.le)
    inside(F, d, p._get_initial_guess(), F.le, 'guess: ')
