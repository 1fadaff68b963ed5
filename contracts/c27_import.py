from pyvc.api import contract
from ._common import *
from ._alg import *
import contextlib
import io
import logging
import sys
import types

DI = 'quocslib.utils.dynamicimport'
FN = [DI + ':dynamic_import', 'quocslib.utils.inputoutput:readjson']
ASS = ['importlib.import_module and getattr: their documented meaning', 'names: the registered ones and unknown ones, including look-alikes']
A, G, B, S = 'quocslib.optimizationalgorithms.', 'quocslib.gradientfreemethods.', 'quocslib.pulses.basis.', 'quocslib.pulses.superparameter.'
BASES = ['Chebyshev', 'ChoppedBasis', 'Fourier', 'PiecewiseBasis', 'Sigmoid', 'SigmoidTimeDep', 'SigmoidSigmas', 'SigmoidAllParas', 'Sinc', 'Walsh']
REGISTERED = {'algorithm': {n: (A + n + 'Algorithm', n + 'Algorithm') for n in ('AD', 'dCRAB', 'DirectSearch', 'GRAPE')},
              'dsm_settings': {n: (G + n, n) for n in ('NelderMead', 'CMAES')},
              'basis': {n: (B + n, n) for n in BASES},
              'superparameter_distribution': {'Uniform': (S + 'Uniform', 'Uniform')}}
KINDS = list(REGISTERED)
UNKNOWN = ['', 'fourier', 'Fourier ', 'NelderMea', 'dCRABAlgorithm', 'module_name', 'Chebyshevs']


class Said(logging.Handler):
    """everything printed or logged"""
    def __init__(self):
        super().__init__()
        self.text = []

    def emit(self, record): self.text.append(record.getMessage())


def select(F, m, **k):
    """the class and whether anything was said"""
    h, out = Said(), io.StringIO()
    root = logging.getLogger()
    F.patch(m, 'print', lambda *a, **k: h.text.append(' '.join(str(x) for x in a)))
    root.addHandler(h)
    import warnings
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = m.dynamic_import(**k)
    finally:
        root.removeHandler(h)
    return r, bool(out.getvalue().strip() or h.text or w)


def named(F, module, cls):
    return getattr(F.mod(module), cls)


@contract('C27', functions=FN, assumes=ASS, paths=3000)
def every_registered_name(F):
    """each short name of each kind selects its class, also when a different kind has the same name; an attribute always wins"""
    m = F.mod(DI)
    kind = F.choice('kind', KINDS)
    name = F.choice('name', [n for k in KINDS for n in REGISTERED[k]] + UNKNOWN)
    mine = object()
    r, _ = select(F, m, attribute=mine, name=name, class_type=kind, module_name='nowhere', class_name='Nothing')
    F.ensure('an attribute is used as it is', r is mine)
    r, said = select(F, m, name=name, class_type=kind)
    if name in REGISTERED[kind]:
        F.ensure('the registered class', r is named(F, *REGISTERED[kind][name]))
        r, _ = select(F, m, attribute=None, module_name=None, class_name=None, name=name, class_type=kind)
        F.ensure('the registered class', r is named(F, *REGISTERED[kind][name]))
    else:
        F.ensure('no class for an unknown name', r is None)
        F.ensure('a message', said)


@contract('C27', functions=FN, assumes=ASS, paths=3000)
def module_and_class(F):
    """given by module and class name: that class; incomplete or wrong: none, and a message"""
    m = F.mod(DI)
    kind = F.choice('kind', [None] + KINDS)
    every = [v for k in KINDS for v in REGISTERED[k].values()]
    module, cls = F.choice('module', [v[0] for v in every] + [None, 'quocslib.nowhere', '']), F.choice('class', ['Fourier', 'NelderMead', None, 'Nothing'] if F.case('fixed') else ['own'])
    if cls == 'own':
        own = [v for v in every if v[0] == module]
        cls = own[0][1] if own else 'Fourier'
    r, said = select(F, m, module_name=module, class_name=cls, class_type=kind)
    if module and cls and (module, cls) in every:
        F.ensure('that class', r is named(F, module, cls))
    elif module in [v[0] for v in every] and cls and hasattr(F.mod(module), cls):
        F.ensure('the name in that module', r is getattr(F.mod(module), cls))
    else:
        F.ensure('no class', r is None)
        F.ensure('a message', said)


@contract('C27', functions=FN, assumes=ASS, paths=100)
def unusual_requests(F):
    m = F.mod(DI)
    n = F.choice('case', [0, 1, 2, 3])
    r, said = select(F, m, **[dict(), dict(name='Fourier'), dict(name='Fourier', class_type='bases'), dict(name='Fourier', class_type='algorithm')][n])
    F.ensure('nothing selected, a message', r is None and said)


def stub(log):
    class Stub:
        def __init__(self, *a, **k):
            log.append(self)
            self.a, self.k, self.last_index, self.bins_number = a, k, 0, 2
    return Stub


def ways(F, kind, prefix, log):
    """a settings fragment selecting a recording class in one of the ways; the class"""
    C = stub(log)
    way = F.choice('way', ['attribute', 'module', 'name'])
    if way == 'attribute':
        return {prefix + '_attribute': C}, C
    mod, cls = REGISTERED[kind][F.choice('which', list(REGISTERED[kind]))]
    F.patch(F.mod(mod), cls, C)
    if way == 'module':
        return {prefix + '_module': mod, prefix + '_class': cls}, C
    return {prefix + '_name': [k for k, v in REGISTERED[kind].items() if v == (mod, cls)][0]}, C


@contract('C27', functions=FN + ['quocslib.Optimizer:Optimizer.__init__', 'quocslib.Controls:Controls.__init__', B + 'ChoppedBasis:ChoppedBasis.__init__',
                                 DC + ':dCRABAlgorithm.__init__', DSA + ':DirectSearchAlgorithm.__init__'], assumes=ASS, paths=3000)
def every_place_of_use(F):
    """algorithm, basis, distribution and direct search: the selected class is the one that is used, with its own settings"""
    place = F.choice('place', ['algorithm', 'basis', 'superparameter_distribution', 'dsm_settings'])
    log = []
    prefix = {'algorithm': 'algorithm', 'basis': 'basis', 'superparameter_distribution': 'distribution', 'dsm_settings': 'dsm_algorithm'}[place]
    if place == 'dsm_settings':
        C, name = stub(log), F.choice('search', ['NelderMead', 'CMAES'])
        mod, cls = REGISTERED[place][name]
        F.patch(F.mod(mod), cls, C)
        conf = settings([], [], [])
        by = F.case('by name')
        conf['algorithm_settings']['dsm_settings']['general_settings'] = {'dsm_algorithm_name': name} if by else {'dsm_algorithm_module': mod, 'dsm_algorithm_class': cls}
        alg = F.choice('algorithm', [DC + ':dCRABAlgorithm', DSA + ':DirectSearchAlgorithm'])
        c, d, he = comm(F, Client(None))
        if alg.startswith(DSA):
            F.patch(F.mod(DSA), 'NelderMead', type('Other', (), {}))
        a = getattr(F.mod(alg.split(':')[0]), alg.split(':')[1])(optimization_dict=conf, communication_obj=c)
        F.ensure('the selected search', len(log) == 1 and a.dsm_obj is log[0])
        return
    frag, C = ways(F, place, prefix, log)
    if place == 'algorithm':
        m = F.mod('quocslib.Optimizer')
        F.patch(m, 'AllInOneCommunication', lambda **k: types.SimpleNamespace(results_path='.'))
        conf, fom = dict(algorithm_settings=dict(frag)), object()
        o = m.Optimizer(conf, fom)
        F.ensure('the selected algorithm', len(log) == 1 and o.get_optimization_algorithm() is log[0])
        F.ensure('with the settings', log[0].k.get('optimization_dict') is conf and log[0].k.get('FoM_object') is fom)
    elif place == 'basis':
        other = {'basis_name': 'PiecewiseBasis', 'bins_number': 2}
        ps = [dict(pulse_name='u%d' % k, basis=(frag if k == 1 else other), bins_number=2, time_name='t', lower_limit=-1.0, upper_limit=1.0, amplitude_variation=0.1) for k in range(2)]
        if not any(k in frag and frag[k] in ('PiecewiseBasis', B + 'PiecewiseBasis') for k in ('basis_name', 'basis_module')):
            c = F.mod('quocslib.Controls').Controls(ps, [dict(time_name='t', initial_value=1.0)], [], rng=None)
            F.ensure('the selected basis for its own pulse', len(log) == 1 and c.pulse_objs_list[1] is log[0] and c.pulse_objs_list[0] is not log[0])
            F.ensure('with its own settings', len(log[0].a) > 1 and log[0].a[1] is ps[1])
    else:
        settings_ = dict(frag)
        Fo = F.mod(B + 'Fourier').Fourier
        p = Fo(-1, dict(pulse_name='u', bins_number=2, time_name='t', lower_limit=-1.0, upper_limit=1.0, amplitude_variation=0.1,
                        basis={'basis_vector_number': 2, 'random_super_parameter_distribution': settings_}), rng=None)
        F.ensure('the selected distribution', len(log) == 1 and p.super_parameter_distribution_obj is log[0])
