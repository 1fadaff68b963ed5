from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
import os
import types

BD = 'quocslib.utils.BestDump'
DUMP = [BD + ':BestDump.dump_controls', BD + ':BestDump.dump_dict', BD + ':NumpyEncoder.default', BD + ':BestDump.__init__']
ASS = ['numpy.savez stores its keyword arguments under their names (not file and allow_pickle, which it takes itself), json.dumps writes dicts, '
       'lists, strings and python numbers and asks the encoder for anything else; opening for writing replaces the file']
NAMES = ['a', 'a1', 'a2', 'time_grid_for_a', 'FoM', 'file', 'pulse_names']


class Disk:
    """ghost state: the content of the files; symbolically a stand-in for numpy.savez, json and open, concretely the real files"""

    def __init__(self, F):
        self.F, self.files, self.m = F, {}, F.mod(BD)
        if not F.sym:
            self.root = F.tmpdir()
            return
        self.root = '/nowhere'
        np, files = F.np, self.files

        class Numpy:
            float128 = type('float128', (), {})
            float64 = staticmethod(float)

            def __getattr__(self, k): return getattr(np, k)

            def savez(self, file, *args, allow_pickle=True, **kwds):
                files[file] = dict(kwds)

        def plain(v, cls):
            if v is None or isinstance(v, (str, bool, int, float)) or hasattr(v, 'e'):
                return v
            if isinstance(v, dict):
                return {str(k): plain(x, cls) for k, x in v.items()}
            if isinstance(v, (list, tuple)):
                return [plain(x, cls) for x in v]
            return plain(cls().default(v), cls)

        class Handle:
            def __init__(self, p): self.p = p
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def write(self, s): files[self.p] = s

        import json
        self.json = types.SimpleNamespace(dumps=lambda d, indent=None, cls=json.JSONEncoder: plain(d, cls),
                                          dump=lambda d, f, indent=None, cls=json.JSONEncoder: f.write(plain(d, cls)), JSONEncoder=json.JSONEncoder)
        F.patch(self.m, 'np', Numpy())
        F.patch(self.m, 'json', self.json)
        F.patch(self.m, 'open', lambda p, mode='r', *a, **k: Handle(p) if mode in ('w', 'wt', 'w+') else F.unsupported('open for ' + mode))

    def load(self, form):
        """what a user gets from loading the saved file, None if there is none"""
        path = os.path.join(self.root, 'now_best_controls.' + form)
        if self.F.sym:
            return self.files.get(path)
        if not os.path.exists(path):
            return None
        try:
            if form == 'json':
                import json
                return json.load(open(path))
            with self.F.np.load(path, allow_pickle=True) as z:
                return {k: z[k] for k in z.files}
        except Exception as ex:
            self.F.ensure('the saved file can be loaded (%s)' % type(ex).__name__, False)

    def names(self):
        return sorted(self.files) if self.F.sym else sorted(os.path.join(self.root, f) for f in os.listdir(self.root))


def entries(x):
    """list of the entries of a list or array, None for a number"""
    if isinstance(x, list):
        return x
    sh = getattr(x, 'shape', ())
    return [x[i] for i in range(sh[0])] if len(sh) == 1 and isinstance(sh[0], int) else None


def same(F, got, want):
    """the loaded entry is the value sent (an array of known length, a number or a list of names)"""
    g, w = entries(got), entries(want)
    if (g is None) != (w is None):
        return False
    if g is None:
        g, w = [got], [want]
    if len(g) != len(w):
        return False
    if w and isinstance(w[0], str):
        return [str(x) for x in g] == w
    if any(isinstance(x, str) or getattr(getattr(x, 'dtype', None), 'kind', 'f') not in 'fiub' for x in g):
        return False
    return F.and_(True, *[F.exact_eq(x, y) for x, y in zip(g, w)])


def complete(F, saved, pn, pulses, grids, qn, pars, data):
    F.ensure('saved', saved is not None)
    if saved is None:
        return
    keys = list(saved)
    F.ensure('one key for each value', len(keys) == 2 * len(pulses) + len(pars) + len(data))
    for k, v in data.items():
        F.ensure('record data ' + k, k in saved and same(F, saved[k], v))
    taken = list(data) + ['file', 'allow_pickle']
    every = [x.rstrip('0123456789') for x in pn + ['time_grid_for_' + x for x in pn] + qn + taken]

    def alone(name):
        return every.count(name.rstrip('0123456789')) == 1

    def mine(name):
        return [k for k in keys if k.startswith(name) and (k == name or k[len(name):].isdigit()) and k not in data]
    for i, p in enumerate(pulses):
        c = [k for k in mine(pn[i]) if 'time_grid_for_' + k in saved]
        F.ensure('pulse and time grid under its name', F.or_(False, *[F.and_(same(F, saved[k], p), same(F, saved['time_grid_for_' + k], grids[i])) for k in c]))
        if alone(pn[i]) and alone('time_grid_for_' + pn[i]):
            F.ensure('unique names are kept', pn[i] in saved and same(F, saved[pn[i]], p))
    for i, q in enumerate(pars):
        F.ensure('parameter under its name', F.or_(False, *[same(F, saved[k], q) for k in mine(qn[i])]))
        if alone(qn[i]):
            F.ensure('unique parameter names are kept', qn[i] in saved and same(F, saved[qn[i]], q))


def sent(F, P, Q, tag=''):
    pulses = [F.array('p%s%d' % (tag, k), 2) for k in range(P)]
    grids = [F.array('t%s%d' % (tag, k), 2) for k in range(P)]
    if not F.sym and (not F.given or 'bins' in F.given):
        n = F.choice('bins', [1, 2, 3, 5], more=[300, 1001, 20000])
        grow = lambda a: F.np.resize(a, n) + F.np.arange(n) / 3
        pulses, grids = [grow(a) for a in pulses], [grow(a) for a in grids]
    return pulses, grids, [F.real('q%s%d' % (tag, k)) for k in range(Q)]


@contract('C23', functions=DUMP, assumes=ASS, bound='up to two pulses and two parameters (or three pulses) with names from an alphabet containing every kind of collision', paths=6000)
def every_value_is_retrievable(F):
    """a record replaces the file by a complete one, whatever the names; nothing but the record is saved under it"""
    P, Q = F.choice('controls', [(0, 0), (0, 2), (1, 1), (2, 0), (1, 2), (2, 1), (3, 0)], more=[(4, 3), (6, 0), (0, 6)])
    form = F.choice('format', ['npz', 'json'])
    names = NAMES if P + Q < 3 else NAMES[:5]
    pn = [F.choice('pulse%d' % k, names) for k in range(P)]
    qn = [F.choice('parameter%d' % k, names) for k in range(Q)]
    disk = Disk(F)
    d = disk.m.BestDump(disk.root, 'now', form)
    pulses, grids, pars = sent(F, P, Q)
    f, k = F.real('f'), F.int('k', 0)
    data = dict(FoM=f, iteration_number=k, pulse_names=list(pn), parameter_names=list(qn))
    d.dump_controls(pulses=list(pulses), timegrids=list(grids), parameters=list(pars), is_record=True, **data)
    complete(F, disk.load(form), pn, pulses, grids, qn, pars, data)
    F.ensure('one file', len(disk.names()) == 1)


@contract('C23', functions=DUMP, assumes=ASS, paths=200, bound='up to three pulses and two parameters')
def default_names(F):
    """without configured names the controls are numbered"""
    P, Q = F.choice('controls', [(0, 1), (1, 0), (2, 2), (3, 1)], more=[(5, 4), (12, 11)])
    form = F.choice('format', ['npz', 'json'])
    disk = Disk(F)
    d = disk.m.BestDump(disk.root, 'now', form)
    pulses, grids, pars = sent(F, P, Q)
    f = F.real('f')
    d.dump_controls(pulses, grids, pars, True, FoM=f)
    complete(F, disk.load(form), ['pulse_%d' % (k + 1) for k in range(P)], pulses, grids, ['parameter_%d' % (k + 1) for k in range(Q)], pars, dict(FoM=f))


@contract('C23', functions=DUMP + [COM + ':AllInOneCommunication.' + m for m in ('send_controls', 'set_controls_names', 'send_FoM_response', 'update_controls')],
          assumes=ASS + ['three responses with arbitrary controls, record flags, values and status codes: an induction step over the last saved record'], paths=400)
def file_belongs_to_the_latest_record(F):
    form = F.choice('format', ['npz', 'json'])
    disk = Disk(F)
    c, _, he = comm(F, Client(None), dump=disk.m.BestDump(disk.root, 'now', form))
    pn, qn = ['u', 'v'], ['q']
    names = dict(pulse_names=pn, parameter_names=qn)
    c.set_controls_names(dict(names))
    last = None
    for k in range(3):
        pulses, grids, pars = sent(F, 2, 1, '%d_' % k)
        c.send_controls(dict(pulses=list(pulses), parameters=list(pars), timegrids=list(grids)))
        rec, bad = F.case('record%d' % k), F.case('failed%d' % k)
        code = F.int('status%d' % k) if bad else 0
        if bad:
            F.assume(F.not_(F.eq(code, 0)))
        r = dict(is_record=rec, FoM=F.real('f%d' % k), iteration_number=k, status_code=code)
        c.send_FoM_response(dict(r))
        if rec and not bad:
            r.pop('is_record')
            last = (pulses, grids, pars, dict(r, **names))
        got = disk.load(form)
        if last is None:
            F.ensure('nothing saved without a record', got is None)
        else:
            complete(F, got, pn, last[0], last[1], qn, last[2], last[3])
