from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c12_record import FN as ALG
import os
import types

FU = 'quocslib.utils.FilesUpdateFom'
FN = [FU + ':FilesUpdateFoM.' + m for m in ('__init__', 'get_FoM', 'read_FoM_values', 'put_controls_into_user_path', '_put_controls_json', '_put_controls_txt')]
ASS = ['the partner process answers only to published controls, at an arbitrary time; it writes a number or an unreadable text and does not remove files',
       'os.path.exists / os.remove / open / sleep / float of the text written for a number: their documented meaning; waiting advances the clock by the time slept']
UNREADABLE = ['', '\n', 'abc', '1.0 2.0', 'None', '[1.0]']


class World:
    """ghost state: clock, exchange folder and partner; symbolically a stand-in for os, time, open, float and the writers, concretely a real
    folder with a stand-in clock. answers[k] = (delay after publication k, text or number) or None"""

    def __init__(self, F, stale=None):
        self.F, self.m = F, F.mod(FU)
        self.now, self.published, self.answers, self.at, self.order = 0.0, [], [], [], []
        self.files, self.done = {}, 0
        self.root = '/nowhere' if F.sym else F.tmpdir()
        self.fom = os.path.join(self.root, 'FoM.txt')
        w = self

        def sleep(t):
            w.now = w.now + t
        clock = types.SimpleNamespace(sleep=sleep, time=lambda: w.now, monotonic=lambda: w.now, perf_counter=lambda: w.now)
        F.patch(self.m, 'time', clock)
        path = types.SimpleNamespace(join=os.path.join, exists=self.exists, isfile=self.exists)
        F.patch(self.m, 'os', types.SimpleNamespace(path=path, remove=self.remove, unlink=self.remove))
        self.real_json, self.real_savetxt = self.m.writejsonfile, F.np.savetxt if not F.sym else None
        F.patch(self.m, 'writejsonfile', self.writejson)
        if F.sym:
            F.patch(self.m, 'open', lambda p, mode='r', *a, **k: Handle(self, p, mode))
            F.patch(self.m, 'float', self.number)
            np = F.np

            class Numpy:
                def __getattr__(self, k): return getattr(np, k)
                def savetxt(self, f, rows, fmt=None): f.rows.append(rows)
            F.patch(self.m, 'np', Numpy())
        if stale is not None:
            self.write(stale)

    # the partner
    def write(self, v):
        if self.F.sym:
            self.files[self.fom] = v
        else:
            with open(self.fom, 'w') as f:
                f.write(v if isinstance(v, str) else repr(float(v)) + '\n')

    def here(self):
        return self.fom in self.files if self.F.sym else os.path.exists(self.fom)

    def tick(self):
        """everything the partner has done up to now"""
        k = len(self.published) - 1
        if k >= 0 and self.done <= k:
            a = self.answers[k] if k < len(self.answers) else None
            if a is not None and self.F.le(self.at[k] + a[0], self.now):
                self.done = k + 1
                self.write(a[1])

    def publish(self, content):
        self.F.ensure('no earlier figure of merit when the controls are published', not self.here())
        self.published.append(content)
        self.at.append(self.now)

    # the system calls of the code under contract
    def exists(self, p):
        self.tick()
        return p in self.files if self.F.sym else os.path.exists(p)

    def remove(self, p):
        self.tick()
        if not self.F.sym:
            return os.remove(p)
        if p not in self.files:
            raise FileNotFoundError(p)
        del self.files[p]

    def writejson(self, p, d):
        self.F.ensure('controls file', p == os.path.join(self.root, 'controls.json'))
        if not self.F.sym:
            self.real_json(p, d)
            import json
            d = json.load(open(p))
        self.publish(dict(d))
        return 0

    def number(self, s):
        v = self.files.get('#' + s) if isinstance(s, str) else None
        if v is not None:
            return v
        if s == 'nan' or not isinstance(s, str):
            self.F.unsupported('float of %r' % (s,))
        return float(s)


class Handle:
    def __init__(self, w, p, mode):
        self.w, self.p, self.mode, self.rows = w, p, mode, []
        if 'r' in mode:
            w.tick()
            if p not in w.files:
                raise FileNotFoundError(p)

    def __enter__(self): return self

    def __exit__(self, *a):
        if 'w' in self.mode and a[0] is None:
            self.w.F.ensure('controls file', self.p == os.path.join(self.w.root, 'controls.txt'))
            self.w.publish(self.rows)
        return False

    def readline(self):
        v = self.w.files[self.p]
        if isinstance(v, str):
            return v.split('\n')[0] + ('\n' if '\n' in v else '')
        self.w.files['#<number>'] = v
        return ' <number>\n'

    def read(self): return self.readline()


def vals(F, a, b):
    return len(a) == len(b) and F.and_(True, *[F.exact_eq(x, y) for x, y in zip(a, b)])


def controls(F, tag, P=1, Q=1):
    return dict(pulses=[F.array('p%s%d' % (tag, k), 2) for k in range(P)], timegrids=[F.array('t%s%d' % (tag, k), 2) for k in range(P)],
                parameters=[F.real('q%s%d' % (tag, k)) for k in range(Q)])


def published(F, w, c, ext):
    d = w.published[-1]
    if ext == 'json':
        F.ensure('every control is in the file', set(d) == {x + str(k + 1) for x in ('pulse', 'time_grid') for k in range(len(c['pulses']))} |
                 {'parameter%d' % (k + 1) for k in range(len(c['parameters']))})
        for k, (p, t) in enumerate(zip(c['pulses'], c['timegrids'])):
            F.ensure('pulse', vals(F, d['pulse%d' % (k + 1)], p))
            F.ensure('time grid', vals(F, d['time_grid%d' % (k + 1)], t))
        for k, q in enumerate(c['parameters']):
            F.ensure('parameter', F.exact_eq(d['parameter%d' % (k + 1)], q))


@contract('C24', functions=FN, assumes=ASS, bound='time limits up to two seconds and sample delays (any limit and delay: see the loop contract)', paths=9000)
def answers_and_silence(F):
    """a request with a left-over file, then a second one: own answers only, status otherwise"""
    w = World(F, stale=F.choice('left_over', [None, 'number', 'junk']) and F.real('old'))
    ext = 'json'
    limit = F.choice('limit', [0.0, 1.0, 2.0])
    fo = w.m.FilesUpdateFoM(controls_folder=w.root, file_extension=ext, FoM_folder=w.root, max_time=limit)
    for k in range(2):
        kind = F.choice('answer%d' % k, ['number', 'unreadable', 'silent'])
        delay = (F.choice('delay%d' % k, [0.0, 0.3, 0.9, 1.7, 2.6]) if F.sym else F.real('delay%d' % k, 0.0, 4.0)) if kind != 'silent' else 0.0
        v = F.real('v%d' % k, -1e6, 1e6)
        w.answers.append(None if kind == 'silent' else (delay, v if kind == 'number' else UNREADABLE[k]))
        c = controls(F, str(k))
        r = fo.get_FoM(**{x: list(y) for x, y in c.items()})
        F.ensure('controls published once per request', len(w.published) == k + 1)
        published(F, w, c, ext)
        code = r.get('status_code', 0)
        waited = w.now - w.at[k]
        F.ensure('an answer or a status', code != 0 or kind == 'number')
        if code == 0:
            F.ensure('the value of this request', F.exact_eq(r['FoM'], v))
            F.ensure('answered before it was read', F.le(delay, waited))
        else:
            F.ensure('no value with a failure', r.get('FoM') is None)
            if kind == 'silent' or not F.le(delay, waited):
                F.ensure('the partner had the configured time', F.le(limit - 1e-6, waited))
            elif kind == 'number':
                F.ensure('an answer in time is used', not F.le(delay, limit - 0.5))
        F.ensure('does not wait for ever', F.le(waited, limit + 1.0))
        w.done = k + 1      # a later answer to this request is the left-over file of the next one
        if w.answers[k] is not None and F.case('late%d' % k):
            w.write(w.answers[k][1])


@contract('C24', functions=FN, assumes=ASS, paths=600, bound='up to two pulses and two parameters')
def every_unreadable_answer(F):
    """whatever the first line contains, something that is no number is a failure; txt and json form"""
    ext = F.choice('extension', ['json', 'txt'])
    w = World(F)
    fo = w.m.FilesUpdateFoM(controls_folder=w.root, file_extension=ext, FoM_folder=w.root, max_time=3)
    if not F.sym and ext == 'txt':
        w.publish(None)
    bad = F.choice('text', UNREADABLE + ['fine'])
    v = F.real('v', -1e6, 1e6)
    w.answers.append((0.7, v if bad == 'fine' else bad))
    c = controls(F, '', *F.choice('controls', [(1, 1), (2, 0), (0, 2), (2, 2)]))
    r = fo.get_FoM(**{x: list(y) for x, y in c.items()})
    F.ensure('controls published', len(w.published) == 1)
    if ext == 'json':
        published(F, w, c, ext)
    if bad == 'fine':
        F.ensure('value', F.exact_eq(r['FoM'], v) if r.get('status_code', 0) == 0 else False)
    else:
        F.ensure('failure', r.get('status_code', 0) != 0 and r.get('FoM') is None)


@contract('C24', functions=FN, assumes=ASS + ['any time limit, any delay: loop 1 of read_FoM_values by the stated invariant'], paths=600)
def waiting_for_any_time(F):
    if not F.sym:
        return answers_and_silence(F)
    w = World(F, stale=F.real('old'))
    limit = F.real('limit', 0.0, 1e6)
    fo = w.m.FilesUpdateFoM(controls_folder=w.root, FoM_folder=w.root, max_time=limit)
    delay, v = F.real('delay', 0.0), F.real('v')
    w.answers.append((delay, v))

    def hook(mode, loc):
        if mode == 'prove':
            F.ensure('the counter is the time waited', F.eq(loc.time_counter, w.now - w.at[0]))
            F.ensure('still in time', F.or_(F.eq(loc.time_counter, 0), F.not_(F.le(limit, loc.time_counter))))
            F.ensure('counter never negative', F.le(0, loc.time_counter))
        elif mode == 'havoc':
            t = F.real('waited', 0.0)
            w.now = w.at[0] + t
            w.done = 0
            w.files.pop(w.fom, None)
            return dict(time_counter=t)
        else:
            F.assume(F.or_(F.eq(loc.time_counter, 0), F.not_(F.le(limit, loc.time_counter))))
            F.assume(F.or_(F.eq(loc.time_counter, 0), F.not_(F.le(delay, loc.time_counter - 0.5))))  # else the file had been seen before
    F.loop_manual('FilesUpdateFoM.read_FoM_values#1', hook)
    c = controls(F, '')
    r = fo.get_FoM(**{x: list(y) for x, y in c.items()})
    waited = w.now - w.at[0]
    if r.get('status_code', 0) == 0:
        F.ensure('the value of this request', F.exact_eq(r['FoM'], v))
        F.ensure('answered before it was read', F.le(delay, waited))
    else:
        F.ensure('the partner had the configured time', F.le(limit, waited))
        F.ensure('an answer in time is used', not F.le(delay, limit - 0.5))
    F.ensure('does not wait for ever', F.le(waited, limit + 1.0))


@contract('C24', functions=FN + ALG, assumes=ASS, bound='one successful evaluation, then a silent or unreadable partner', paths=300)
def optimization_stops_in_order(F):
    """a failed exchange ends the optimization; the record of the earlier evaluation stays"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    w = World(F)
    fo = w.m.FilesUpdateFoM(controls_folder=w.root, FoM_folder=w.root, max_time=1.0)
    v = F.real('v', -1e6, 1e6)
    bad = F.choice('second', ['silent', 'unreadable'])
    w.answers += [(0.1, v), None if bad == 'silent' else (0.1, 'oops'), (0.1, v - 1.0), (0.1, v - 2.0)]

    def search(func, x0):
        for k in range(3):
            func(F.array('x%d' % k, N))
    alg, _, dump, he, N = any_algorithm(F, kind, None, search, [par_settings(F, 'q')])
    alg.comm_obj.FoM_obj = fo
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('stopped', not he.is_user_running)
    F.ensure('no request after the failure', len(w.published) == 2)
    F.ensure('the record stays', F.eq(alg.best_FoM, v))
