from pyvc.api import contract
from ._common import *
from ._alg import *
from .c06_controls import par_settings
from .c12_record import FN, KINDS

ASS = ['two consecutive evaluation requests from an arbitrary count of evaluations made before and an arbitrary record']
DSM = ['dcrab', 'direct']
REASONS = dict(budget="Maximum number of total function evaluations reached", goal="Goal FoM reached", time="Maximum optimization runtime reached",
               user="User stopped the optimization")


class Clock:
    """stand-in for the clocks of the standard library: minutes are whatever the contract says"""
    def __init__(self):
        self.minutes = 0.0

    def now(self, *a): return Instant(self.minutes)
    today = utcnow = now

    def seconds(self): return self.minutes * 60.0

    def install(self, F, module):
        """the given module reads this clock, through whichever way of reading a clock it imports"""
        import types, datetime as real, time as rt
        m = F.mod(module)
        here = types.SimpleNamespace(**{k: getattr(rt, k) for k in dir(rt) if not k.startswith('_')})
        here.time = here.monotonic = here.perf_counter = self.seconds
        day = types.SimpleNamespace(datetime=self, timedelta=span, timezone=real.timezone, date=real.date)
        stand_in = {real: day, real.datetime: self, real.timedelta: span, rt: here, rt.time: self.seconds, rt.monotonic: self.seconds, rt.perf_counter: self.seconds}
        for name, v in list(vars(m).items()):
            for r, new in stand_in.items():
                if v is r:
                    F.patch(m, name, new)
        return self


class Instant:
    """a point in time"""
    def __init__(self, m): self.m = m

    def __sub__(self, o):
        if isinstance(o, Instant):
            return Span((self.m - o.m) * 60.0)
        return Instant(self.m - o.total_seconds() / 60.0)

    def __add__(self, o): return Instant(self.m + o.total_seconds() / 60.0)
    __radd__ = __add__

    def timestamp(self): return self.m * 60.0
    def strftime(self, *a): return 'now'
    def isoformat(self, *a): return 'now'
    def __lt__(self, o): return self.m < o.m
    def __le__(self, o): return self.m <= o.m
    def __gt__(self, o): return self.m > o.m
    def __ge__(self, o): return self.m >= o.m


def span(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    return Span(seconds + 60.0 * minutes + 3600.0 * hours + 86400.0 * (days + 7 * weeks) + 1e-3 * milliseconds + 1e-6 * microseconds)


class Span:
    """a duration, with the parts a timedelta has"""
    def __init__(self, s): self.s = s
    def total_seconds(self): return self.s
    def __truediv__(self, o): return self.s / o.s if isinstance(o, Span) else Span(self.s / o)
    def __mul__(self, k): return Span(self.s * k)
    __rmul__ = __mul__
    def __add__(self, o): return o + self if isinstance(o, Instant) else Span(self.s + o.s)
    def __sub__(self, o): return Span(self.s - o.s)
    def __lt__(self, o): return self.s < o.s
    def __le__(self, o): return self.s <= o.s
    def __gt__(self, o): return self.s > o.s
    def __ge__(self, o): return self.s >= o.s

    @property
    def days(self): return self.s // 86400

    @property
    def seconds(self): return self.s // 1 - 86400 * (self.s // 86400)

    @property
    def microseconds(self): return (self.s - self.s // 1) * 1000000 // 1


def setup(F, kind, answer, search, **alg):
    clock = Clock().install(F, OA)
    alg.setdefault('again', F.case('settings used before'))
    a, client, dump, he, N = any_algorithm(F, kind, answer, search, [par_settings(F, 'q')], **alg)
    said = []
    a.comm_obj.end_communication = lambda d: said.append(dict(d))
    return a, client, dump, he, N, clock, said


def stopped(F, alg, he, kind):
    """the optimisation is stopped, and the direct search is told so"""
    F.ensure('the optimisation is stopped', not alg.is_optimization_running())
    F.ensure('the stop is visible to the caller', not he.is_user_running)
    if kind in DSM:
        F.ensure('the direct search is told to end', alg.dsm_obj.sc_obj.is_converged)


@contract('C14', functions=FN, assumes=ASS, paths=400)
def evaluation_budget(F):
    """never more evaluations than the configured total; hitting it stops the search and is given as the reason"""
    kind = F.choice('algorithm', KINDS)
    M = F.int('max_eval_total', 0)
    F.assume(M <= 10 ** 9)
    done = F.int('done', 0)
    F.assume(done <= 10 ** 9)
    st = {}

    def search(func, x0):
        had = 0
        if hasattr(alg, 'iteration_number'):
            alg.iteration_number = done
            had = done
        for k in range(2):
            before = len(client.seen)
            func(F.array('x%d' % k, N))
            made = len(client.seen) - before
            if had + k < M:
                F.ensure('evaluation made below the budget', made == 1)
            else:
                F.ensure('no evaluation beyond the budget', made == 0)
                stopped(F, alg, he, kind)
                st['hit'] = True
    alg, client, dump, he, N, clock, said = setup(F, kind, lambda k, p, q, t: {"FoM": F.real('f%d' % k, -1e9, 1e9)}, search, max_eval_total=M)
    alg.begin()
    alg.run()
    alg.end()
    if st.get('hit'):
        F.ensure('reason: budget', said[-1].get("Termination Reason") == REASONS['budget'])
    else:
        F.ensure('no higher-order reason', "Termination Reason" not in said[-1])


@contract('C14', functions=FN, assumes=ASS, paths=400)
def goal_reached(F):
    """no evaluation once the best value has reached the goal (in the direction of the optimisation)"""
    kind = F.choice('algorithm', KINDS)
    direction = F.choice('direction', ['minimization', 'maximization'])
    g = F.real('goal', -1e9, 1e9)
    foms = [F.real('f%d' % k, -1e9, 1e9) for k in range(3)]
    st = {}

    def search(func, x0):
        reached = False
        for k in range(3):
            before = len(client.seen)
            func(F.array('x%d' % k, N))
            made = len(client.seen) - before
            if reached:
                F.ensure('no evaluation after the goal', made == 0)
                stopped(F, alg, he, kind)
                st['hit'] = True
            else:
                F.ensure('evaluation made while the goal is not reached', made == 1)
                reached = foms[k] <= g if direction == 'minimization' else foms[k] >= g
                if reached:
                    reached = True
    alg, client, dump, he, N, clock, said = setup(F, kind, lambda k, p, q, t: {"FoM": foms[k]}, search, FoM_goal=g, direction=direction)
    alg.begin()
    alg.run()
    alg.end()
    if st.get('hit'):
        F.ensure('reason: goal', said[-1].get("Termination Reason") == REASONS['goal'])
    else:
        F.ensure('no higher-order reason', "Termination Reason" not in said[-1])


@contract('C14', functions=FN + [OA + ':OptimizationAlgorithm.begin'], assumes=ASS + ['datetime: any clock'], paths=400)
def time_limit(F):
    """no evaluation once the total run time is used up, for any clock"""
    kind = F.choice('algorithm', KINDS)
    L = F.real('total_time_lim', 0)
    F.assume(L < 10 ** 10)
    start = F.real('start', 0)
    days = F.choice('days', [0], more=[1440.0, 20000.0])     # sampled limits of minutes, of days and of weeks
    L = L + days
    ts = [F.real('t%d' % k, 0) + days * F.choice('long', [1], more=[0, 2]) for k in range(2)]
    if not F.sym:                       # the sampled run stays away from rounding at the limit itself
        F.assume(all(abs(t - start - L) > 1e-9 for t in ts))
    st = {}

    def search(func, x0):
        for k in range(2):
            clock.minutes = ts[k]
            before = len(client.seen)
            func(F.array('x%d' % k, N))
            made = len(client.seen) - before
            if st.get('hit') or ts[k] - start >= L:
                F.ensure('no evaluation after the time limit', made == 0)
                stopped(F, alg, he, kind)
                st['hit'] = True
            else:
                F.ensure('evaluation made in time', made == 1)
    alg, client, dump, he, N, clock, said = setup(F, kind, lambda k, p, q, t: {"FoM": F.real('f%d' % k, -1e9, 1e9)}, search, total_time_lim=L)
    clock.minutes = start
    alg.begin()
    alg.run()
    alg.end()
    if st.get('hit'):
        F.ensure('reason: time', said[-1].get("Termination Reason") == REASONS['time'])
    else:
        F.ensure('no higher-order reason', "Termination Reason" not in said[-1])


class Signal:
    def __init__(self, f): self.emit = f


@contract('C14', functions=FN + [OA + ':OptimizationAlgorithm.handle_user_cancellation', OA + ':OptimizationAlgorithm.stop_optimization',
                                 'quocslib.handleexit.HandleExit:HandleExit'], bound='a stop before, inside or after any one of three evaluation requests', paths=400)
def user_or_client_stop(F):
    """once the user (ctrl-C), the interface or the client stopped the optimisation no further evaluation is made"""
    kind = F.choice('algorithm', KINDS)
    how = F.choice('how', ['ctrl-c', 'interface', 'controls shown', 'evaluation'])
    at = F.choice('at', [0, 1, 2])
    st = dict(off=False)

    def stop():
        st['off'] = True
        if how == 'ctrl-c':
            alg.handle_user_cancellation(2, None)
            if kind in DSM:
                F.ensure('the direct search is told to end', alg.dsm_obj.sc_obj.is_converged)
        else:
            he.set_is_user_running(False)

    def answer(k, p, q, t):
        if how == 'evaluation' and st['k'] == at:
            stop()
        return {"FoM": F.real('f%d' % k, -1e9, 1e9)}

    def search(func, x0):
        for k in range(3):
            st['k'] = k
            if how in ('ctrl-c', 'interface') and k == at:
                stop()
            before = len(client.seen)
            off = st['off']
            func(F.array('x%d' % k, N))
            made = len(client.seen) - before
            if off or (how == 'controls shown' and k == at):
                F.ensure('no evaluation after the stop', made == 0)
                F.ensure('still stopped', not alg.is_optimization_running())
            else:
                F.ensure('evaluation made before the stop', made == 1)
    alg, client, dump, he, N, clock, said = setup(F, kind, answer, search)
    if how == 'controls shown':
        alg.comm_obj.controls_update_signal = Signal(lambda *a: stop() if st['k'] == at else None)
    alg.begin()
    alg.run()
    alg.end()
    if how == 'ctrl-c':
        F.ensure('reason: user', said[-1].get("Termination Reason") == REASONS['user'])
    else:
        F.ensure('no other limit is named', "Termination Reason" not in said[-1])


@contract('C14', functions=[DC + ':dCRABAlgorithm.run', DC + ':dCRABAlgorithm._update_base_pulses'], bound='up to three super-iterations; stop inside any of them', paths=400)
def stop_between_super_iterations(F):
    """a stop inside a super-iteration: its best vector still enters the base controls, and no further super-iteration is started"""
    SI = F.choice('SI', [1, 2, 3], more=[5])
    at = F.choice('stop_in', [0, 1, 2], more=[3, 4])
    F.assume(at < SI)
    runs, foms = [], []
    pars = [par_settings(F, 'q')]

    def search(func, x0):
        runs.append(1)
        func(F.array('x%d' % len(foms), N))
        if len(runs) - 1 == at:
            he.set_is_user_running(False)
            func(F.array('late', N))

    def answer(k, p, q, t):
        foms.append(F.real('f%d' % k, -1e9, 1e9))
        return {"FoM": foms[-1]}
    alg, client, dump, he, N = any_algorithm(F, 'dcrab', answer, search, pars, super_iteration_number=SI)
    alg.begin()
    alg.run()
    F.ensure('no super-iteration after the stop', len(runs) == at + 1)
    F.ensure('no evaluation after the stop', len(client.seen) == at + 1)
    b = 0
    for k in range(1, len(foms)):
        if foms[k] < foms[b]:
            b = k
    out = alg.get_best_controls()
    F.ensure('best controls', F.eq(out['parameters'][0], client.seen[b][1][0]))


@contract('C14', functions=FN + [DC + ':dCRABAlgorithm._update_FoM'], bound='two vectors, one or two re-evaluation thresholds, two super-iterations with drift compensation', paths=600)
def budget_counts_every_evaluation(F):
    """re-evaluations and drift measurements count: the total is never exceeded, and the last allowed evaluation is made when it is asked for"""
    kind = F.choice('algorithm', ['dcrab', 'direct'])
    mode = F.choice('mode', ['re-evaluation', 'drift'] if kind == 'dcrab' else ['re-evaluation'])
    M = F.choice('max_eval_total', [0, 1, 2, 3, 4], more=[6, 9])
    alg_conf = dict(max_eval_total=M)
    if mode == 'drift':
        alg_conf.update(compensate_drift={"compensate_after_SI": True, "num_average": 2}, super_iteration_number=2)
    else:
        alg_conf.update(re_evaluation={"re_evaluation_steps": [F.real('p0', 0, 1), F.real('p1', 0, 1)]})

    def search(func, x0):
        for k in range(2):
            func(F.array('x%d' % k, N))
    alg, client, dump, he, N, clock, said = setup(F, kind, lambda k, p, q, t: {"FoM": F.real('f%d' % k, -1e9, 1e9), "std": 0.1}, search, **alg_conf)
    alg.begin()
    alg.run()
    alg.end()
    F.ensure('total never exceeded', len(client.seen) <= M)
    if mode == 'drift':
        F.ensure('drift measurements and searches use the budget', len(client.seen) == min(M, 6))
        F.ensure('reported number of evaluations', said[-1]["total number of function evaluations"] == min(M, 6))
    if said[-1].get("Termination Reason") is not None:
        F.ensure('the budget is the reason only when it is used up', F.and_(said[-1]["Termination Reason"] == REASONS['budget'], len(client.seen) == M))
