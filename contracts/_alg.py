"""shared by the contracts on the optimisation algorithms: the real algorithm objects around an arbitrary client,
an arbitrary direct search and a recording dump (all of them contract text: the assumed behaviour of those partners)"""
import itertools

COM = 'quocslib.communication.AllInOneCommunication'
OA = 'quocslib.optimizationalgorithms.OptimizationAlgorithm'
DC = 'quocslib.optimizationalgorithms.dCRABAlgorithm'
DSA = 'quocslib.optimizationalgorithms.DirectSearchAlgorithm'
_ctr = itertools.count()


class Dump:
    """recording stand-in for the result files"""
    def __init__(self, *a, **k):
        self.controls, self.dicts = [], []

    def dump_controls(self, **k):
        self.controls.append(dict(k))

    def dump_dict(self, name, d):
        self.dicts.append((name, dict(d)))

    def other_dump(self, *a, **k):
        pass


class Client:
    """the user's figure of merit: answer(k, pulses, parameters, timegrids) gives the dictionary of the k-th evaluation"""
    def __init__(self, answer):
        self.answer, self.seen = answer, []

    def get_FoM(self, pulses=None, parameters=None, timegrids=None):
        k = len(self.seen)
        self.seen.append((pulses, parameters, timegrids))
        return self.answer(k, pulses, parameters, timegrids)


def comm(F, client, direction='minimization', dump=None, user=None):
    m = F.mod(COM)
    F.patch(m, 'writejsonfile', lambda *a, **k: None)
    he = user if user is not None else F.mod('quocslib.handleexit.HandleExit').HandleExit()
    d = dump if dump is not None else Dump()
    c = m.AllInOneCommunication(interface_job_name='vc%d' % next(_ctr), FoM_obj=client, handle_exit_obj=he, dump_attribute=lambda *a, **k: d,
                                create_logfile=False, console_info=False, optimization_direction=direction, use_microsecond_name=True)
    return c, d, he


class Criteria:
    """stopping-criteria object of the stand-in direct search"""
    def __init__(self):
        self.is_converged, self.terminate_reason, self.track = False, '', []

    def add_to_FoM_track(self, f): self.track.append(f)
    def check_advanced_stopping_criteria(self): pass
    def reset_direct_search_start_time(self): pass
    def reset_curr_FoM_track_for_new_SI(self): self.track = []


class Search:
    """an arbitrary direct search: script(func, x0, kwargs) evaluates whatever it likes"""
    def __init__(self, script):
        self.script, self.sc_obj, self.calls = script, Criteria(), []

    def run_dsm(self, func, x0, args=(), **kw):
        self.calls.append((x0, kw))
        r = self.script(len(self.calls) - 1, func, x0, kw) or {}
        out = {"F_min_val": 0.0, "X_opti_vec": x0, "NfunevalsUsed": 0, "terminate_reason": "script", "initial_simplex": None}
        if isinstance(r, dict):
            out.update(r)
        return out


def settings(pulses, times, parameters, direction='minimization', **alg):
    a = dict(optimization_direction=direction, super_iteration_number=1,
             dsm_settings={"general_settings": {"dsm_algorithm_name": "NelderMead"}, "stopping_criteria": {}})
    a.update(alg)
    return dict(algorithm_settings=a, pulses=pulses, times=times, parameters=parameters)


def dcrab(F, client, conf, script=None, dump=None, user=None):
    direction = conf['algorithm_settings']['optimization_direction']
    c, d, he = comm(F, client, direction, dump, user)
    alg = F.mod(DC).dCRABAlgorithm(optimization_dict=conf, communication_obj=c)
    if script is not None:
        alg.dsm_obj = Search(script)
    return alg, c, d, he


def direct(F, client, conf, script=None, dump=None, user=None):
    direction = conf['algorithm_settings']['optimization_direction']
    c, d, he = comm(F, client, direction, dump, user)
    alg = F.mod(DSA).DirectSearchAlgorithm(optimization_dict=conf, communication_obj=c)
    if script is not None:
        alg.dsm_obj = Search(script)
    return alg, c, d, he


GR = 'quocslib.optimizationalgorithms.GRAPEAlgorithm'


class Minimizer:
    """stand-in for scipy.optimize.minimize: an arbitrary search; script(fun, x0) evaluates whatever it likes"""
    def __init__(self, script):
        self.script, self.optimize, self.calls = script, self, []

    def minimize(self, fun, x0=None, **kw):
        self.calls.append((x0, kw))
        return self.script(fun, x0)


class Quantum(Client):
    """client of the gradient algorithm: also knows the system"""
    def __init__(self, F, answer):
        super().__init__(answer)
        self.F = F

    def get_propagator(self, **k): return []
    def get_initial_state(self): return self.F.np.zeros((2, 2))
    def get_target_state(self): return self.F.np.zeros((2, 2))
    def get_drift_Hamiltonian(self): return self.F.np.zeros((2, 2))
    def get_control_Hamiltonians(self): return self.F.np.zeros((2, 2))


def grape(F, client, conf, script, dump=None, user=None):
    """the gradient algorithm around an arbitrary minimizer; its gradient has its own contract (C22)"""
    direction = conf['algorithm_settings']['optimization_direction']
    c, d, he = comm(F, client, direction, dump, user)
    m = F.mod(GR)
    F.patch(m, 'scipy', Minimizer(script))
    alg = m.GRAPEAlgorithm(optimization_dict=conf, communication_obj=c, FoM_object=client)
    alg.get_gradient = lambda optimized_control_parameters: None
    return alg, c, d, he


AD = 'quocslib.optimizationalgorithms.ADAlgorithm'


def autodiff(F, client, conf, script, dump=None, user=None):
    direction = conf['algorithm_settings']['optimization_direction']
    c, d, he = comm(F, client, direction, dump, user)
    m = F.mod(AD)
    F.patch(m, 'optimize', Minimizer(script))
    return (m.ADAlgorithm(optimization_dict=conf, communication_obj=c, FoM_object=client), c, d, he)


def any_algorithm(F, kind, answer, search, pars, dump=None, user=None, **alg):
    """an algorithm of the given kind optimising the given parameters (and, for GRAPE, a pulse of one bin); `search(func, x0)` is the
    arbitrary search, func(x) one evaluation; `again`: another optimisation was made from the same settings dictionary before.
    Returns the algorithm, client, dump, user handle and the vector length"""
    again = alg.pop('again', False)

    def build(make):
        if again:
            first = make(None)[0]
            first.begin()
        return make(dump)
    direction = alg.pop('direction', 'minimization')
    if kind == 'ad':
        alg.setdefault('random_number_generator', {"seed_number": 7})
        conf = settings([], [], [dict(d) for d in pars], direction=direction, **alg)
        client = Client(answer)
        a, c, d, he = build(lambda dump: autodiff(F, client, conf, search, dump, user))
        return a, client, d, he, len(pars)
    if kind == 'grape':
        pulses = [dict(pulse_name='u', bins_number=1, time_name='t', lower_limit=-1.0, upper_limit=1.0, amplitude_variation=0.1, basis={"basis_name": "PiecewiseBasis", "bins_number": 1})]
        conf = settings(pulses, [dict(time_name='t', initial_value=1.0)], [dict(d) for d in pars], direction=direction, **alg)
        client = Quantum(F, answer)
        a, c, d, he = build(lambda dump: grape(F, client, conf, lambda fun, x0: search(lambda x: fun(x)[0], x0), dump, user))
        return a, client, d, he, len(pars) + 1
    conf = settings([], [], [dict(d) for d in pars], direction=direction, **alg)
    client = Client(answer)
    make, mod = (dcrab, DC) if kind == 'dcrab' else (direct, DSA)
    F.patch(F.mod(mod), 'simplex_creation', lambda *x, **k: None)
    a, c, d, he = build(lambda dump: make(F, client, conf, lambda si, func, x0, kw: search(lambda x: func(x, 1), x0), dump, user))
    return a, client, d, he, len(pars)


class Age:
    """makes the run arbitrarily long: whatever counters the algorithm advanced by one in one evaluation now hold an arbitrary larger
    value, and the lists that grew by one entry have got as many entries, as after many further evaluations that changed nothing else
    (found by observing the attributes, not by name)"""

    def __init__(self, F, alg):
        self.F, self.alg = F, alg
        self.before, self.short = self.counters(), {k: len(v) for k, v in self.lists().items()}

    def owners(self):
        return self.alg, self.alg.comm_obj

    def counters(self):
        return {(k, n): v for k, o in enumerate(self.owners()) for n, v in vars(o).items() if isinstance(v, int) and not isinstance(v, bool)}

    def lists(self):
        return {(k, n): v for k, o in enumerate(self.owners()) for n, v in vars(o).items() if hasattr(v, 'append')}

    def grow(self, made=1):
        """after `made` evaluations; returns the number of evaluations made so far"""
        n = self.F.int('evaluations so far', made, made + (10 ** 9 if self.F.sym else 2000))
        old = {k: v for k, v in self.lists().items() if len(v) == self.short.get(k, len(v)) + made and made > 0}
        for (k, a), v in self.counters().items():
            if v == self.before.get((k, a), v) + made:
                setattr(self.owners()[k], a, v - made + n)
        for (k, a), v in old.items():
            setattr(self.owners()[k], a, self.longer(v, self.short[(k, a)], n - made))
        return n

    def longer(self, v, at, more):
        """the list `v` with `more` entries put in at place `at`: numbering goes on, anything else is said again"""
        if all(isinstance(e, int) and e == i + 1 for i, e in enumerate(v)):
            return self.F.list_of(more + len(v), lambda i: i + 1)
        if not all(self.number(e) for e in v):
            return v
        head, tail = list(v[:at]), list(v[at:])
        marked = list(enumerate(head)) + [(at + more + 1 + j, e) for j, e in enumerate(tail[1:])]

        def entry(i):
            r = tail[0]
            for j, e in marked:
                r = self.F.ite(self.F.exact_eq(i, j), e, r)
            return r
        return self.F.list_of(more + len(v), entry)

    def number(self, e):
        try:
            e + 0.0
        except TypeError:
            return False
        return not hasattr(e, 'shape') or e.shape == ()


def representative_rounds(F, module):
    """a loop whose number of rounds is arbitrary is run for its first round and for an arbitrary later one (the rounds between them are
    represented by the state the caller generalises, cf. Age); loops with a fixed number of rounds stay as they are"""
    m = F.mod(module)
    usual = m.__dict__.get('range', range)

    def rounds(*a):
        if all(isinstance(v, int) for v in a) or len(a) > 2:
            return usual(*a)
        lo, hi = (0, a[0]) if len(a) == 1 else a
        late = F.int('later round', None)
        F.assume(lo < late)
        F.assume(late < hi)
        return [lo, late]
    F.patch(m, 'range', rounds)


def as_user_keeps_it(F, value):
    """the value the user returns: a number, or (sampled runs) the same array of his every time, which he goes on using"""
    if F.sym or not F.case('values in one array'):
        return lambda k: value(k)
    hold = F.np.zeros(())

    def answer(k):
        hold[...] = value(k)
        return hold
    return answer


class Reuse:
    """a search that works in place: every request comes in the same array, which goes on changing afterwards"""

    def __init__(self, F, func):
        self.F, self.func, self.hold = F, func, None

    def __call__(self, x):
        if self.hold is None:
            self.hold = x.copy()
        else:
            self.hold[:] = x
        return self.func(self.hold)

    def end(self):
        if self.hold is not None:
            self.hold[:] = self.F.array('x_after', self.hold.shape[0])
