from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import user_basis, pulse_settings, par_settings

FN = [AD + ':ADAlgorithm.' + m for m in ('__init__', 'run', 'inner_run', 'inner_routine_call', 'get_gradient', '_get_controls', '_get_response_for_client', '_get_final_results')] + \
     [OA + ':OptimizationAlgorithm._routine_call', COM + ':AllInOneCommunication.get_data']
ASS = ['jax.grad(f)(x) is the gradient of f at x (stand-in: which function is differentiated, and where)', 'a minimizer that asks for values and gradients at any vectors']


class Jax:
    """stand-in for jax: differentiation is recorded (function, point); a compiled function keeps what it computed from anything but its
    argument as it was at its first call (it is evaluated at every vector of the contract then, and replayed later)"""
    def __init__(self, m, F):
        self.real, self.F, self.asked, self.points, self.now, self.client = m.jax, F, [], [], 0, None

    def jit(self, f, *a, **k): return Compiled(self, f)

    def grad(self, f, *a, **k): return Gradient(self, f)
    jacrev = jacfwd = grad

    def __getattr__(self, n): return getattr(self.real, n)

    def array(self, x):
        return x if self.F.sym else self.real.numpy.asarray(x)      # what differentiation and compilation hand to the function


class Gradient:
    def __init__(self, jx, f):
        self.jx, self.f = jx, f

    def __call__(self, x):
        x = self.jx.array(x)
        self.jx.asked.append((self.f, x))
        return x * 0.0


class Compiled:
    def __init__(self, jx, f):
        self.jx, self.f, self.traced = jx, f, None

    def __call__(self, x):
        jx, grad = self.jx, isinstance(self.f, Gradient)
        f = self.f.f if grad else self.f
        if self.traced is None:
            self.traced = []
            for p in jx.points:
                n = len(jx.client.seen)
                v = f(jx.array(p))
                self.traced.append((v, jx.client.seen[n:]))
                del jx.client.seen[n:]

        def replay(at):
            v, seen = self.traced[jx.now]
            jx.client.seen.extend(seen)
            return v
        if not grad:
            return replay(x)
        x = jx.array(x)
        jx.asked.append((replay, x))
        return x * 0.0


def same_controls(F, what, a, b):
    (p, q, t), (p2, q2, t2) = a, b
    F.ensure(what + ': as many pulses', F.length(p) == F.length(p2))
    for k in range(F.length(p)):
        F.ensure(what + ': as many samples', F.eq(F.length(p[k]), F.length(p2[k])))
        F.forall(what + ': pulse', F.length(p[k]), lambda i: F.eq(F.re(p[k][i]), F.re(p2[k][i]), 2e-3))
        F.forall(what + ': time grid', F.length(t[k]), lambda i: F.eq(F.re(t[k][i]), F.re(t2[k][i]), 2e-3))
    F.ensure(what + ': as many parameters', F.length(q) == F.length(q2))
    for k in range(F.length(q)):
        F.ensure(what + ': parameter', F.eq(F.re(q[k]), F.re(q2[k]), 2e-3))


@contract('C28', functions=FN, assumes=ASS, bound='at most one pulse and two parameters (any sizes); one or two super-iterations', paths=400)
def gradient_belongs_to_the_cost(F):
    """for every vector: the differentiated function is the signed figure of merit of the very controls whose value the search receives"""
    n_par = F.choice('parameters', [1, 2], more=[3, 6])
    with_pulse = F.case('pulse')
    direction = F.choice('direction', ['minimization', 'maximization'])
    n_si = F.choice('super_iterations', [1, 2], more=[3])
    K, N = F.int('K', 1), n_par
    pulses = []
    if with_pulse:
        cls = user_basis(F, F.objective('g'), F.func('h'), K, F.array('scale', K), F.array('offset', K))
        pulses = [pulse_settings(F, 'u', cls, F.int('bins', 2), lo=-1.0, hi=1.0)]
        N = N + K
    pars = [par_settings(F, 'q%d' % k, label(k)) for k in range(n_par)]
    m = F.mod(AD)
    jx = Jax(m, F)
    F.patch(m, 'jax', jx)
    value = F.real('value', -1e6, 1e6)
    sign = 1.0 if direction == 'minimization' else -1.0
    client = jx.client = Client(lambda k, p, q, t: {"FoM": value})
    conf = settings(pulses, [dict(time_name='t', initial_value=F.real('T', 0, None if F.sym else 3))], [dict(d) for d in pars], direction=direction,
                    super_iteration_number=n_si, random_number_generator={"seed_number": 3})
    rounds = []

    def vec(nm):
        return F.array(nm, N, lo=-3, hi=3)

    jx.points = [vec('x%d' % k) for k in range(n_si)]

    def search(fun, x0):
        k = len(rounds)
        rounds.append(1)
        jac = m.optimize.calls[-1][1]['jac']
        F.ensure('length of the start vector', F.eq(F.length(x0), N))
        if F.case('value_elsewhere_first_%d' % k):
            fun(vec('w%d' % k))
        x, jx.now = jx.points[k], k
        count, record = alg.iteration_number, alg.best_FoM
        gx = jac(x)
        F.ensure('a gradient for every entry', F.eq(F.length(gx), N))
        F.ensure('one differentiation per gradient', len(jx.asked) == 1)
        f, at = jx.asked.pop()
        F.forall('differentiated at the vector of the search', N, lambda i: F.eq(at[i], x[i], 1e-5))
        seen = len(client.seen)
        cost = f(at)
        F.ensure('the differentiated function makes one evaluation', len(client.seen) == seen + 1)
        F.ensure('the gradient is no evaluation of the search', F.exact_eq(alg.iteration_number, count))
        F.ensure('the gradient sets no record', F.exact_eq(alg.best_FoM, record))
        v = fun(x)
        F.ensure('value handed to the search', F.eq(v, sign * value, 1e-3))
        F.ensure('same value as the differentiated function', F.eq(cost, v, 1e-3))
        same_controls(F, 'the same controls', client.seen[seen], client.seen[-1])
    alg, c, d, he = autodiff(F, client, conf, search)
    alg.begin()
    alg.run()
    F.ensure('one search per super-iteration', len(rounds) == n_si)


@contract('C28', functions=FN, symbolic=False, samples=6, supplement=True, bound='sampled: up to three pulses of up to four samples, up to two parameters, a quadratic figure of merit, one to three super-iterations, real jax')
def gradient_by_differences(F):
    """with jax itself: every gradient handed to the search is the difference quotient of the values handed to it"""
    np = F.np
    import jax.numpy as jnp
    direction = F.choice('direction', ['minimization', 'maximization'])
    P, Q, SI = F.choice('pulses', [1, 2, 3]), F.choice('parameters', [0, 1, 2]), F.choice('super_iterations', [1, 2, 3])
    bins = [F.int('bins%d' % k, 1, 4) for k in range(P)]
    N = sum(bins) + Q
    pulses = [dict(pulse_name=label(k), time_name=label(k), bins_number=n, lower_limit=-9.0, upper_limit=9.0, amplitude_variation=0.7,
                   basis={"basis_name": "PiecewiseBasis", "bins_number": n},
                   initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 0.3 + 0.1 * t"}) for k, n in enumerate(bins)]
    pars = [dict(parameter_name=label(k), initial_value=0.2, lower_limit=-5.0, upper_limit=5.0, amplitude_variation=0.4) for k in range(Q)]
    times = [dict(time_name=label(k), initial_value=0.5 + k) for k in range(P)]
    weight, goal = F.array('weight', N + 1, 0.5, 1.5), F.array('goal', N + 1, -1.0, 1.0)

    def figure(k, p, q, t):
        vals = [p[i][j] for i, n in enumerate(bins) for j in range(n)] + [q[i] for i in range(Q)]
        x = jnp.real(jnp.stack(vals + [vals[0] * vals[-1]]))
        return {"FoM": jnp.sum(weight * (x - goal) ** 2)}
    conf = settings(pulses, times, pars, direction=direction, super_iteration_number=SI, random_number_generator={"seed_number": 3})
    m, rounds = F.mod(AD), []

    def search(fun, x0):
        k = len(rounds)
        rounds.append(1)
        jac = m.optimize.calls[-1][1]['jac']
        F.ensure('length of the start vector', len(x0) == N)
        for e in range(2):
            x = F.array('x%d_%d' % (k, e), N, -1.0, 1.0)
            fun(F.array('w%d_%d' % (k, e), N, -1.0, 1.0))
            g, h = np.asarray(jac(x), dtype=float), 0.05
            at = lambda v: float(fun(v))
            n = np.array([(at(x + h * d) - at(x - h * d)) / (2 * h) for d in np.eye(N)])
            F.ensure('gradient in super-iteration %d' % k, g.shape == (N,) and bool(np.abs(g - n).max() <= 0.02 * (1.0 + np.abs(n).max())))
    alg, c, d, he = autodiff(F, Client(figure), conf, search)
    alg.begin()
    alg.run()
    F.ensure('one search per super-iteration', len(rounds) == SI)
