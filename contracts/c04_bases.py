from pyvc.api import contract
from ._common import *

BASES = {}


def _make(F, name, extra=None, n=None):
    n = F.int('n', 1) if n is None else n
    bins = F.int('bins', 1)
    w = F.array('w', n)

    class AnyDistribution:
        def __init__(self, number, settings, rng=None):
            self.w, self.in_place = w.copy(), False

        def set_random_super_parameter(self):
            new = F.array('w_redrawn', n)
            if self.in_place:
                self.w[:] = new
            else:
                self.w = new
    mod = F.mod('quocslib.pulses.basis.' + name)
    basis = {"basis_vector_number": n, "random_super_parameter_distribution": {"distribution_attribute": AnyDistribution}}
    basis.update(extra or {})
    l, u = F.real('lower'), F.real('upper')
    g = F.func('guess')
    F.patch(F.mod('quocslib.pulses.BasePulse'), 'vc_user_guess', g)
    av = F.real('av', pos=True)
    d = {"pulse_name": "p", "bins_number": bins, "time_name": "t", "lower_limit": l, "upper_limit": u, "amplitude_variation": av,
         "initial_guess": {"function_type": "lambda_function", "lambda_function": "lambda t: vc_user_guess(t)"}, "basis": basis}
    m = F.int('map_index', -1)
    p = getattr(mod, name)(m, d)
    return dict(name=name, p=p, n=n, bins=bins, w=w, lo=F.min2(l, u), hi=F.max2(l, u), g=g, av=av, m=m)


def _declared(F, d, count):
    """as many search parameters, scales and offsets as the expansion consumes; zero offsets; contiguous indices"""
    p = d['p']
    F.ensure('number of parameters', F.eq(p.control_parameters_number, count))
    F.ensure('number of indices', F.eq(F.length(p.control_parameters_list), count))
    F.ensure('number of scales', F.eq(F.length(p.scale_coefficients), count))
    F.ensure('number of offsets', F.eq(F.length(p.offset_coefficients), count))
    F.forall('zero offsets', count, lambda i: F.eq(p.offset_coefficients[i], 0))


def _expansion(F, d, count, spec):
    """the unshaped pulse of an arbitrary vector, after an arbitrary earlier evaluation"""
    p, n, bins = d['p'], d['n'], d['bins']
    T = F.real('T', pos=True)
    before = T if F.case('same_final_time') else F.real('T_before', pos=True)
    x = after_earlier(F, lambda x: p.get_bare_pulse(x, before), count)
    redraw = F.choice('redrawn', ['no', 'new array', 'in place']) if d['name'] != 'PiecewiseBasis' else 'no'
    if redraw != 'no':
        p.super_parameter_distribution_obj.in_place = redraw == 'in place'
        p.super_parameter_distribution_obj.set_random_super_parameter()
        p.update_chopped_basis()
        d['w'] = p.super_parameter_distribution_obj.w.copy()
    keep = x.copy()
    out = p.get_bare_pulse(x, T)
    x = keep
    F.ensure('length', F.eq(F.length(out), bins))
    t = p.time_grid
    F.ensure('grid length', F.eq(F.length(t), bins))
    F.forall('expansion', bins, lambda i: F.eq(out[i], spec(x, t[i], T)))


def _zero(F, d, count):
    p = d['p']
    T = F.real('T', pos=True)
    out = p.get_bare_pulse(0.0 * F.array('x', count), T)
    F.forall('zero vector is the zero update', d['bins'], lambda i: F.eq(out[i], 0))


def _fn(name):
    return ['quocslib.pulses.basis.%s:%s.__init__' % (name, name), 'quocslib.pulses.basis.%s:%s._get_shaped_pulse' % (name, name),
            'quocslib.pulses.BasePulse:BasePulse.get_bare_pulse', 'quocslib.pulses.basis.ChoppedBasis:ChoppedBasis.__init__']


AS = ['the super-parameter distribution: any object with an array w of basis_vector_number entries (its own contract: C09)']


def fourier_spec(F, d):
    return lambda x, t, T: F.sum(d['n'], lambda k: x[2 * k] * F.sin(2 * F.pi * d['w'][k] * t / T) + x[2 * k + 1] * F.cos(2 * F.pi * d['w'][k] * t / T))


@contract('C04', functions=_fn('Fourier'), assumes=AS)
def fourier(F):
    d = _make(F, 'Fourier')
    _declared(F, d, 2 * d['n'])
    _expansion(F, d, 2 * d['n'], fourier_spec(F, d))


@contract('C04', functions=_fn('DummyBasis'), assumes=AS)
def dummy_basis(F):
    d = _make(F, 'DummyBasis')
    _declared(F, d, 2 * d['n'])
    _expansion(F, d, 2 * d['n'], fourier_spec(F, d))


@contract('C04', functions=_fn('Walsh') + ['quocslib.pulses.basis.Walsh:Walsh._limit_constraints'], assumes=AS)
def walsh(F):
    """the Fourier-type sum, cut where the sum added to the limited guess would leave the limits"""
    d = _make(F, 'Walsh')
    _declared(F, d, 2 * d['n'])
    s = fourier_spec(F, d)

    def spec(x, t, T):
        g = clip_spec(F, d['g'](t), d['lo'], d['hi'])
        return clip_spec(F, g + s(x, t, T), d['lo'], d['hi']) - g
    _expansion(F, d, 2 * d['n'], spec)


@contract('C04', functions=_fn('Chebyshev'), assumes=AS)
def chebyshev(F):
    d = _make(F, 'Chebyshev')
    _declared(F, d, 2 * d['n'])
    eps = 1e-10
    _expansion(F, d, 2 * d['n'], lambda x, t, T: F.sum(d['n'], lambda k: x[2 * k] * F.cos(
        d['w'][k] * F.arccos(-1 + eps + 2 * (1 - eps) * t / T) + x[2 * k + 1])))


@contract('C04', functions=_fn('Sinc'), assumes=AS)
def sinc(F):
    wmax = F.real('basis_max', pos=True)
    d = _make(F, 'Sinc', dict(basis_max=wmax))
    _declared(F, d, d['n'])

    def sc(y):      # sin(y)/y with the removable singularity at 0
        y = F.ite(y == 0, 1e-20, y)
        return F.sin(y) / y
    _expansion(F, d, d['n'], lambda x, t, T: F.sum(d['n'], lambda k: x[k] * sc(2 * F.pi * wmax * (t - d['w'][k]) / T)))


def step_fn(F, t, tau, sigma):
    return (F.erf((t - tau) / (F.sqrt(2) * sigma)) + 1) / 2


def sig_pulse(F, d, A, tau, sig, sigma, offset, back=True):
    n = d['n']

    def spec(x, t, T):
        r = A(x)[0] * step_fn(F, t, offset, sigma) + F.sum(n, lambda k: A(x)[k + 1] * step_fn(F, t, tau(x, T)(k), sig(x, T)(k)))
        if back:
            r = r - F.sum(n + 1, lambda k: A(x)[k]) * step_fn(F, t, T - offset, sigma)
        return r
    return spec


@contract('C04', functions=_fn('Sigmoid'), assumes=AS)
def sigmoid(F):
    sigma, off = F.real('sigma', pos=True), F.real('offset')
    d = _make(F, 'Sigmoid', dict(sigma=sigma, offset=off))
    _declared(F, d, d['n'] + 1)
    _expansion(F, d, d['n'] + 1, sig_pulse(F, d, lambda x: x, lambda x, T: (lambda k: d['w'][k]), lambda x, T: (lambda k: sigma), sigma, off))


def sig_sigmas(F, d, dsig, tau, sigma, off, T, x):
    """widened steps; with a real offset the widths are kept so that the steps stay inside the pulse"""
    def s(k):
        if d['kappa']:
            half = T / 2
            tk = tau(k)
            r = F.ite(half - tk >= 0, half - tk, tk - half)
            return sigma + ((half - r) * (sigma / off) - sigma) * (1 - F.cos(F.pi * dsig(k))) / 2
        return dsig(k) + sigma
    return s


@contract('C04', functions=_fn('SigmoidSigmas'), assumes=AS)
def sigmoid_sigmas(F):
    sigma, off, sv = F.real('sigma', pos=True), F.real('offset'), F.real('sigma_variation')
    wide = F.case('offset_positive')
    F.assume(off >= 10 ** (-10) if wide else off < 10 ** (-10))
    d = _make(F, 'SigmoidSigmas', dict(sigma=sigma, offset=off, sigma_variation=sv))
    d['kappa'] = wide
    n = d['n']
    _declared(F, d, 2 * n + 1)

    def absv(v): return F.ite(v >= 0, v, -v)
    _expansion(F, d, 2 * n + 1, sig_pulse(F, d, lambda x: x, lambda x, T: (lambda k: d['w'][k]),
                                          lambda x, T: sig_sigmas(F, d, lambda k: absv(x[n + 1 + k]) * sv, lambda k: d['w'][k], sigma, off, T, x), sigma, off))


@contract('C04', functions=['quocslib.pulses.basis.PiecewiseBasis:PiecewiseBasis.__init__', 'quocslib.pulses.basis.PiecewiseBasis:PiecewiseBasis._get_shaped_pulse'])
def piecewise(F):
    d = _make(F, 'PiecewiseBasis')
    _declared(F, d, d['bins'])
    p = d['p']
    x = after_earlier(F, lambda x: p.get_bare_pulse(x, F.real('T_before', pos=True)), d['bins'])
    out = p.get_bare_pulse(x, F.real('T', pos=True))
    F.ensure('length', F.eq(F.length(out), d['bins']))
    F.forall('samples are the parameters', d['bins'], lambda i: F.exact_eq(out[i], x[i]))


def _mkzero(name, cnt, extra=None):
    def z(F):
        """the zero vector is the zero update"""
        d = _make(F, name, extra(F) if extra else None)
        _zero(F, d, cnt(d))
    z.__name__ = 'zero_' + name
    contract('C04', functions=_fn(name), assumes=AS)(z)


SG = lambda F: dict(sigma=F.real('sigma', pos=True), offset=F.real('offset', 0.001))
for _n, _c, _e in [('Fourier', lambda d: 2 * d['n'], None), ('DummyBasis', lambda d: 2 * d['n'], None), ('Walsh', lambda d: 2 * d['n'], None),
                   ('Chebyshev', lambda d: 2 * d['n'], None), ('Sinc', lambda d: d['n'], None), ('Sigmoid', lambda d: d['n'] + 1, SG),
                   ('SigmoidSigmas', lambda d: 2 * d['n'] + 1, SG), ('PiecewiseBasis', lambda d: d['bins'], None)]:
    _mkzero(_n, _c, _e)


def _taus(F, d, raw, T, off):
    """step times: the shifted times, moved back into [offset, T-offset] when an end leaves it (one step: clamped; more: rescaled)"""
    n = d['n']
    if n == 1:
        t0 = raw[0]
        if t0 < off:
            return lambda k: off
        if t0 > T - off:
            return lambda k: T - off
        return lambda k: t0
    order = F.np.sort(raw)
    lo, hi = order[0], order[n - 1]
    if lo < off or hi > T - off:
        H, L = (T - off if hi < T - off else hi), (off if lo > off else lo)
        return lambda k: T / 2 + (raw[k] - (H - L) / 2 - L) * 2 * (T / 2 - off) / (H - L)
    return lambda k: raw[k]


def _n12(F):
    return 1 if F.case('single') else F.int('n', 2)


def _expansion2(F, d, count, mkspec, tv=0.0):
    p, n, bins = d['p'], d['n'], d['bins']
    T = F.real('T', pos=True)
    x = F.array('x', count)
    F.assume(d['off'] < T / 2)
    if not F.sym and abs(tv) > 1e-9 and (not F.given or 'steered' in F.given) and F.case('steered'):
        # sampled runs: the step times lie around the pulse, so that either end, both or none leaves it
        low, high = F.choice('earliest', [0.1, -0.3], [0.4]), F.choice('latest', [0.9, 1.3], [0.6])
        for k in range(n):
            u = low + (high - low) * k / max(1, n - 1)
            k = (k + n // 2) % n
            x[n + 1 + k] = (u * T - d['w'][k]) * d['av'] / tv
    if not F.sym:
        p.get_bare_pulse(F.array('x_before', count), T)
    keep = x.copy()
    out = p.get_bare_pulse(x, T)
    x = keep
    F.ensure('length', F.eq(F.length(out), bins))
    t = p.time_grid
    spec = mkspec(x, T)
    F.forall('expansion', bins, lambda i: F.eq(out[i], spec(x, t[i], T)))


@contract('C04', functions=_fn('SigmoidTimeDep'), assumes=AS, samples=300)
def sigmoid_time_dep(F):
    sigma, off, tv = F.real('sigma', pos=True), F.real('offset', 0), F.real('tau_variation')
    d = _make(F, 'SigmoidTimeDep', dict(sigma=sigma, offset=off, tau_variation=tv), n=_n12(F))
    n = d['n']
    d['off'] = off
    _declared(F, d, 2 * n + 1)

    def spec(x, T):
        raw = d['w'] + x[n + 1:] * tv / d['av']
        tau = _taus(F, d, raw, T, off)
        return sig_pulse(F, d, lambda x: x, lambda x, T: tau, lambda x, T: (lambda k: sigma), sigma, off)
    _expansion2(F, d, 2 * n + 1, spec, tv)


@contract('C04', functions=_fn('SigmoidAllParas'), assumes=AS, samples=300)
def sigmoid_all_paras(F):
    sigma, off = F.real('sigma', pos=True), F.real('offset', -1)
    tau_on, sig_on, wide = F.case('tau_on'), F.case('sigma_on'), F.case('offset_positive')
    F.assume(off >= 10 ** (-10) if wide else off < 10 ** (-10))
    tv = F.real('tau_variation', 1e-3) if tau_on else 0.0
    sv = F.real('sigma_variation', 1e-3) if sig_on else 0.0
    d = _make(F, 'SigmoidAllParas', dict(sigma=sigma, offset=off, tau_variation=tv, sigma_variation=sv), n=_n12(F))
    n = d['n']
    d['off'] = off
    d['kappa'] = wide and sig_on
    count = n + 1 + (n if tau_on else 0) + (n if sig_on else 0)
    _declared(F, d, count)

    def absv(v): return F.ite(v >= 0, v, -v)

    def spec(x, T):
        tau = (lambda k: d['w'][k])
        if tau_on:
            tau = _taus(F, d, d['w'] + x[n + 1:2 * n + 1] * tv / d['av'], T, off)
        o = 2 * n + 1 if tau_on else n + 1
        dsig = (lambda k: absv(x[o + k]) * sv / d['av']) if sig_on else (lambda k: 0.0)
        return sig_pulse(F, d, lambda x: x, lambda x, T: tau, lambda x, T: sig_sigmas(F, d, dsig, tau, sigma, off, T, x), sigma, off, back=wide)
    _expansion2(F, d, count, spec, tv)
