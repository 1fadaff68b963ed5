from pyvc.api import contract
from ._common import *

PM, CM = 'quocslib.parameters.Parameter', 'quocslib.Controls'
BPAR = 'quocslib.parameters.BaseParameter'
FN = [PM + ':Parameter.__init__'] + [BPAR + ':BaseParameter.' + m for m in ('__init__', 'set_parameter', 'get_parameter', '_set_parameter', '_check_limits')]


def interval(F, tag=''):
    lo, hi = F.real('lower' + tag), F.real('upper' + tag)
    F.assume(lo <= hi)
    return lo, hi


def inside(F, v, p, lo, hi, what):
    """v is p when admissible, else the violated limit"""
    F.ensure(what + ': not below the interval', F.exact_le(lo, v))
    F.ensure(what + ': not above the interval', F.exact_le(v, hi))
    F.ensure(what + ': an admissible proposal is taken as it is', F.implies(F.and_(lo <= p, p <= hi), F.exact_eq(v, p)))
    F.ensure(what + ': below goes to the lower limit', F.implies(p < lo, F.exact_eq(v, lo)))
    F.ensure(what + ': above goes to the upper limit', F.implies(p > hi, F.exact_eq(v, hi)))


def _settings(F, tag=''):
    lo, hi = interval(F, tag)
    return dict(parameter_name='p' + tag, initial_value=F.real('initial' + tag), lower_limit=lo, upper_limit=hi,
                amplitude_variation=F.real('variation' + tag)), lo, hi


@contract('C05', functions=FN)
def delivered_parameter(F):
    """get and set after any earlier proposal; several entries in the vector do not matter"""
    d, lo, hi = _settings(F)
    ad = F.case('is_AD') if F.sym else False
    q = F.mod(PM).Parameter(F.int('map_index', -1), dict(d), is_AD=ad)
    x = after_earlier(F, q.set_parameter if F.case('earlier_set') else q.get_parameter, 1)
    if F.case('by_set'):
        q.set_parameter(x)
        v = q.value
    else:
        v = q.get_parameter(x)
        F.ensure('kept value is the delivered value', F.exact_eq(q.value, v))
    inside(F, v, x[0], lo, hi, 'parameter')


@contract('C05', functions=FN + [CM + ':Controls.__init__', CM + ':Controls.update_base_controls', CM + ':Controls.get_mean_value',
                                 CM + ':Controls._get_controls_lists'])
def parameters_of_the_controls(F):
    """two parameters behind the controls: what is delivered, and what is kept as the current best"""
    a, alo, ahi = _settings(F, '_a')
    b, blo, bhi = _settings(F, '_b')
    c = F.mod(CM).Controls([], [], [dict(a), dict(b)])
    x = F.array('x', 2)
    pulses, grids, pars = c.get_controls_lists(x)
    F.ensure('two parameters', F.length(pars) == 2)
    inside(F, pars[0], x[0], alo, ahi, 'first delivered')
    inside(F, pars[1], x[1], blo, bhi, 'second delivered')
    y = F.array('best', 2)
    c.update_base_controls(y)
    m = c.get_mean_value()
    inside(F, m[0], y[0], alo, ahi, 'first kept')
    inside(F, m[1], y[1], blo, bhi, 'second kept')
