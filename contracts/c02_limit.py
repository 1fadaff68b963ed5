from pyvc.api import contract
from ._common import *
from .c01_pulse import _pulse, BPM

FN = [BPM + ':BasePulse._get_limited_pulse', BPM + ':BasePulse.limit_pulse', BPM + ':BasePulse.__init__']


@contract('C02', functions=FN)
def clip_is_nearest_limit(F):
    """clipping mode (the default): every sample becomes the nearest admissible value, so an admissible pulse is unchanged"""
    d = _pulse(F, F.choice('mode', [False, None]), 'none', 'none')
    x = F.array('x', d['n'])
    out = d['p']._get_limited_pulse(x.copy())
    F.ensure('length', F.eq(F.length(out), d['n']))
    F.forall('nearest limit', d['n'], lambda i: F.eq(out[i], F.max2(d['lo'], F.min2(x[i], d['hi']))))
    F.forall('inside stays', d['n'], lambda i: F.implies(F.and_(d['lo'] <= x[i], x[i] <= d['hi']), F.exact_eq(out[i], x[i])))


def _shrunk(F):
    d = _pulse(F, True, 'none', 'none')
    x = F.array('x', d['n'])
    p, q = F.argmax('p', x), F.argmin('q', x)
    out = d['p']._get_limited_pulse(x.copy())
    F.ensure('length', F.eq(F.length(out), d['n']))
    return d, x, p, q, out


SF = [BPM + ':BasePulse._shrink_pulse_2', BPM + ':BasePulse._get_limited_pulse']


@contract('C02', functions=SF)
def shrink_keeps_admissible(F):
    """shrinking mode: an admissible pulse is delivered unchanged; a pulse wholly beyond a limit becomes that limit"""
    d, x, p, q, out = _shrunk(F)
    inside = F.and_(d['lo'] <= x[q], x[p] <= d['hi'])
    F.forall('inside unchanged', d['n'], lambda i: F.implies(inside, F.exact_eq(out[i], x[i])))
    F.forall('wholly above', d['n'], lambda i: F.implies(x[q] >= d['hi'], F.eq(out[i], d['hi'])))
    F.forall('wholly below', d['n'], lambda i: F.implies(x[p] <= d['lo'], F.eq(out[i], d['lo'])))


@contract('C02', functions=SF)
def shrink_is_one_contraction(F):
    """shrinking mode: one common affine map of slope in [0, 1]; an exceeded extreme lands exactly on its limit"""
    d, x, p, q, out = _shrunk(F)
    part = F.and_(x[p] > d['lo'], x[q] < d['hi'])
    F.ensure('slope not negative', F.implies(part, F.le(out[q], out[p])))
    F.ensure('slope at most one', F.implies(part, F.le(out[p] - out[q], x[p] - x[q])))
    F.forall('common affine map', d['n'], lambda i: F.implies(part, F.eq((out[i] - out[q]) * (x[p] - x[q]), (out[p] - out[q]) * (x[i] - x[q]))))
    F.ensure('exceeded maximum lands on the upper limit', F.implies(F.and_(part, x[p] > d['hi']), F.eq(out[p], d['hi'])))
    F.ensure('exceeded minimum lands on the lower limit', F.implies(F.and_(part, x[q] < d['lo']), F.eq(out[q], d['lo'])))
    F.ensure('untouched minimum', F.implies(F.and_(part, x[q] >= d['lo']), F.eq(out[q], x[q])))
    F.ensure('untouched maximum', F.implies(F.and_(part, x[p] <= d['hi']), F.eq(out[p], x[p])))
