"""Concrete counterpart: runs the same contracts against the real code with real numpy/scipy/jax (python of /repo's venv).

Used (1) to replay a verifier counterexample, (2) as the bounded stand-in where the verifier is out of reach and as a
cross-check of the contracts themselves (CPython run of the unmodified code)."""
import sys, os, json, time, math, random, traceback, importlib, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import numpy as np
from pyvc import api
from pyvc.api import Reject, Failed

TOL = 1e-7


class ConcreteFactory:
    sym = False
    np = np
    pi = math.pi

    def __init__(self, rnd, given=None, size=None, large=False):
        self.large = large             # one of the unbounded counts of this run is large
        self.r, self.given = rnd, dict(given or {})
        self.inputs = {}
        self.patches = []
        self.size = size if size is not None else rnd.choice([1, 2, 3, 5, 8])
        self.ensured = 0
        self.tmp = None

    def _have(self, name):
        if name in self.inputs:         # the same input asked for again
            self.given[name] = self.inputs[name]
        return name in self.given and self.given[name] is not None

    # inputs
    def int(self, name, lo=None, hi=None, typ=None):
        if self._have(name):
            v = int(self.given[name])
        else:
            a = lo if lo is not None else -self.size - 3
            b = hi if hi is not None else a + max(self.size, 1) * self.r.choice([1, 1, 1, 2])
            b = max(a, min(b, a + 40)) if hi is None or hi - a > 60 else b
            v = self.r.randint(int(a), int(max(a, b)))
            if lo is not None and self.r.random() < 0.15:
                v = lo
            if self.large and lo is not None and (hi is None or hi - lo > 1000) and self.r.random() < 0.6:
                v, self.large = int(a) + self.r.choice([33, 64, 130, 257, 500, 999]), False
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        self.inputs[name] = v
        return v

    def _num(self, lo=None, hi=None):
        r = self.r
        k = r.random()
        if lo is not None and hi is not None:
            if k < 0.08: return float(lo)
            if k < 0.16: return float(hi)
            return r.uniform(lo, hi)
        if k < 0.1:
            v = r.choice([0.0, 1.0, -1.0, 0.5, 2.0, -3.0])
        elif k < 0.25:
            v = float(r.randint(-4, 4))
        elif k < 0.9:
            v = r.uniform(-3, 3)
        else:
            v = r.uniform(-1, 1) * 10 ** r.uniform(-3, 3)
        if lo is not None:
            v = float(lo) + abs(v)
        elif hi is not None:
            v = float(hi) - abs(v)
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        if self._have(name):
            v = float(self.given[name])
        else:
            v = self._num(0.0 if (pos and lo is None) else lo, hi)
            if pos and v <= 0:
                v = 0.37
        if pos and v <= 0 or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = bool(self.given[name]) if self._have(name) else self.r.random() < 0.5
        self.inputs[name] = v
        return v

    def choice(self, name, options, more=()):
        base, options = len(options), list(options) + list(more)
        if self._have(name):
            k = int(self.given[name])
        else:
            k = self.r.randrange(base) if not more or self.r.random() < 0.6 else self.r.randrange(base, len(options))
        if k >= len(options):
            raise Reject(name)
        self.inputs[name] = k
        return options[k]

    def case(self, name):
        return self.choice(name, [False, True])

    def mat(self, name):
        d = self.__dict__.setdefault('mat_dim', self.r.choice([1, 2, 2, 3]))
        g = np.random.default_rng(self.r.randrange(2 ** 31))
        return g.normal(size=(d, d)) + 1j * g.normal(size=(d, d))

    def mats(self, name, n): return [self.mat(name) for _ in range(int(n))]
    def mat_store(self, name, n):
        l = self.mats(name, n)
        if self.r.random() < 0.5 or not l:
            return l
        return np.array(l)

    def mat_one(self): return np.eye(self.__dict__.setdefault('mat_dim', self.r.choice([1, 2, 2, 3])), dtype=complex)

    def expm(self, m):
        import scipy.linalg
        return scipy.linalg.expm(m)

    def mat_eq(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(abs(a - b) <= 1e-4 * (1.0 + abs(b).max())))

    def array(self, name, shape, lo=None, hi=None, scale=None):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        a = None
        if self._have(name):
            try:
                a = np.array(self.given[name], dtype=float).reshape(shape)
            except Exception:
                a = None
            if a is not None and ((lo is not None and (a < lo).any()) or (hi is not None and (a > hi).any())):
                a = None
        if a is None:
            a = np.array([self._num(lo, hi) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
            if scale is not None:
                a = a * scale
        self.inputs[name] = a.tolist()
        return a.copy()

    def list_of(self, n, fn):
        return [fn(i) for i in range(n)]

    def tolist(self, a):
        return [a[i] for i in range(len(a))]

    def func(self, name, args=1):
        w = [self.r.uniform(-2, 2) for _ in range(6)]
        if args == 1:
            return lambda x: w[0] * np.sin(w[1] * x + w[2]) + w[3] + w[4] * x
        return lambda x, y: w[0] * np.sin(w[1] * x + w[2]) * (1 + 0.3 * w[3] * y) + w[4] * y + w[5]

    def objective(self, name, *extra):
        seed = self.r.random()

        def f(x, *a):
            x = np.asarray(x, dtype=float)
            k = np.arange(1, len(x) + 1)
            return float(np.sum((x - np.sin(k * seed * 7)) ** 2 * (1 + np.cos(k * seed * 3) ** 2)) + 0.3 * np.sin(np.sum(x) * 5 * seed) + sum(float(v) for v in a) * 0.01)
        return f

    # logic
    def assume(self, c):
        if not bool(c):
            raise Reject('assume')

    def require_feasible(self):
        pass

    def ensure(self, name, c):
        self.ensured += 1
        if not bool(c):
            raise Failed(name)

    def forall(self, name, n, f, lo=0):
        for i in range(int(lo), int(n)):
            self.ensure(name, f(i))
        self.ensured += 1

    def forall2(self, name, n, m, f):
        for i in range(int(n)):
            for j in range(int(m)):
                self.ensure(name, f(i, j))
        self.ensured += 1

    def assume_forall(self, n, f, arity=1):
        for i in range(n):
            if arity == 1:
                self.assume(f(i))
            else:
                for j in range(n):
                    self.assume(f(i, j))

    def hint(self, t):
        pass

    def skolem(self, name, lo, hi):
        if hi <= lo:
            raise Reject(name)
        return self.int(name, int(lo), int(hi) - 1)

    def re(self, x): return float(np.real(x))

    def eq(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            return bool(np.all(a == b))
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            return bool(np.array_equal(a, b))
        t = tol or TOL
        return bool(np.all(np.abs(a - b) <= t * (1 + np.maximum(np.abs(a), np.abs(b)))))

    def exact_eq(self, a, b, tol=None):
        return bool(np.all(np.asarray(a) == np.asarray(b)))

    def le(self, a, b, tol=None):
        return bool(a <= b + (tol or TOL) * (1 + max(abs(float(a)), abs(float(b)))))

    def exact_le(self, a, b, tol=None):
        return bool(a <= b)

    def lt(self, a, b):
        return bool(a < b)

    def and_(self, *c): return all(bool(x) for x in c)
    def or_(self, *c): return any(bool(x) for x in c)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b

    def vec_eq(self, name, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.ensure(name + '.shape', a.shape == b.shape)
        self.ensure(name, self.eq(a, b))

    # mathematics
    def sum(self, n, f):
        s = 0.0
        for i in range(n):
            s = s + f(i)
        return s

    def fn(self, name, x):
        return {'sinc': lambda v: math.sin(v) / v}[name](x)

    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def exp(self, x): return math.exp(x)
    def sqrt(self, x): return math.sqrt(x)
    def erf(self, x): return math.erf(x)
    def arccos(self, x): return math.acos(max(-1.0, min(1.0, x)))
    def normcdf(self, x): return 0.5 * math.erfc(-x / math.sqrt(2))
    def max2(self, a, b): return a if a >= b else b
    def min2(self, a, b): return a if a <= b else b

    def argmax(self, name, x): return int(np.argmax(x))
    def argmin(self, name, x): return int(np.argmin(x))

    def loop_manual(self, qualname, m):
        pass

    # code
    def mod(self, name):
        return importlib.import_module(name)

    def patch(self, obj, attr, val):
        self.patches.append((obj, attr, obj.__dict__.get(attr, _NO) if hasattr(obj, '__dict__') else _NO))
        setattr(obj, attr, val)

    def scramble(self):
        np.random.seed(self.int('scramble', 0, 1000))

    def undo(self):
        for o, a, v in reversed(self.patches):
            if v is _NO:
                try:
                    delattr(o, a)
                except AttributeError:
                    pass
            else:
                setattr(o, a, v)
        self.patches = []
        if self.tmp:
            import shutil
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def ghost(self, obj): return obj

    def raises(self, f, *exc):
        try:
            return False, f()
        except (exc or (Exception,)) as ex:
            return True, ex

    def loop_inv(self, *a): pass
    def rng(self, seed): return np.random.default_rng(seed)
    def length(self, x): return len(x)

    def newobj(self, cls, **attrs):
        o = cls.__new__(cls)
        o.__dict__.update(attrs)
        return o

    def note(self, *a):
        self.inputs.setdefault('notes', []).append([str(x)[:200] for x in a])

    def tmpdir(self):
        import tempfile
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='pyvc-')
        return self.tmp


_NO = object()


def load_contracts(pid):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            src = open(os.path.join(d, f)).read()
            if pid is None or "'%s'" % pid in src:
                importlib.import_module('contracts.' + f[:-3])
    return [c for c in api.CONTRACTS if pid is None or c['pid'] == pid]


def run_once(c, F):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), np.errstate(all='ignore'):
            import warnings
            warnings.simplefilter('ignore')
            c['fn'](F)
        return 'ok', None
    except Reject:
        return 'reject', None
    except Failed as f:
        return 'fail', f.name
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        loc = ''
        for fr in tb:
            if 'quocslib' in fr.filename:
                loc = '%s:%d' % (os.path.basename(fr.filename), fr.lineno)
        if not loc:
            # raised by the contract text itself
            return 'harness', '%s: %s' % (type(ex).__name__, ex) + traceback.format_exc()[-600:]
        return 'fail', 'no exception escapes (%s: %s @ %s)' % (type(ex).__name__, str(ex)[:100], loc)
    finally:
        F.undo()


def main():
    a = json.load(sys.stdin)
    pid, seed = a['pid'], a['seed']
    t0 = time.time()
    cs = load_contracts(pid)
    res = []
    # 1. replay of the verifier's counterexamples
    for rp in a.get('replays', []):
        c = [c for c in cs if c['name'] == rp['contract']]
        if not c:
            continue
        hit = None
        for k in range(8):
            F = ConcreteFactory(random.Random('%s-%d' % (seed, k)), given=rp['inputs'])
            st, nm = run_once(c[0], F)
            if st == 'fail':
                hit = dict(contract=rp['contract'], failed=nm, inputs=F.inputs, k=k, given=rp['inputs'], source='verifier counterexample')
                break
        res.append(dict(replay=rp['contract'], reproduced=hit))
    # 2. sampled run of every contract
    out = []
    active = [c for c in cs if c['concrete'] and (not a.get('only') or c['name'] in a['only'])]
    per = a['seconds'] / max(1, len(active))
    for c in active:
        n, ok, rej, harness = 0, 0, 0, []
        ens = 0
        fail = None
        distinct = set()
        ex = []
        ts = time.time()
        limit = c['samples'] * a.get('factor', 1)
        while n < limit and (time.time() - ts < per or n < 3):
            rnd = random.Random('%s/%s/%d' % (seed, c['name'], n))
            F = ConcreteFactory(rnd, large=n % 12 == 7)
            st, nm = run_once(c, F)
            n += 1
            if st == 'ok':
                ok += 1
                ens += F.ensured
                if F.ensured:
                    distinct.add(json.dumps(F.inputs, sort_keys=True, default=str)[:2000])
                if len(ex) < 1:
                    ex.append(trim(F.inputs))
            elif st == 'reject':
                rej += 1
                limit = min(limit + 1, c['samples'] * a.get('factor', 1) * 4)
            elif st == 'harness':
                harness.append(nm)
                if len(harness) > 3:
                    break
            else:
                fail = dict(contract=c['name'], failed=nm, inputs=F.inputs, sample=n - 1, seed=seed, source='sampled contract run')
                break
        out.append(dict(contract=c['name'], runs=n, ok=ok, rejected=rej, ensured=ens, distinct=len(distinct), harness=harness[:2],
                        fail=fail, examples=ex))
    print('\n@@RESULT@@' + json.dumps(dict(replays=res, sampled=out, wall=time.time() - t0), default=str))


def trim(d):
    s = json.dumps(d, default=str)
    return json.loads(s) if len(s) < 1500 else s[:1500]


if __name__ == '__main__':
    main()
