DC, DS, OA, AI = ('optimizationalgorithms/dCRABAlgorithm.py', 'optimizationalgorithms/DirectSearchAlgorithm.py', 'optimizationalgorithms/OptimizationAlgorithm.py',
                  'communication/AllInOneCommunication.py')
NM, CM, SC, NSC = 'gradientfreemethods/NelderMead.py', 'gradientfreemethods/CMAES.py', 'stoppingcriteria/StoppingCriteria.py', 'stoppingcriteria/NelderMeadStoppingCriteria.py'
PRE = '''
import sys, os, io, contextlib, numpy as np
from quocslib.Optimizer import Optimizer
from quocslib.utils.AbstractFoM import AbstractFoM
class Prob(AbstractFoM):
    """answers by a python function of (evaluation number, parameters, pulses); keeps what it was sent"""
    def __init__(self, f): self.f, self.sent = f, []
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        self.sent.append((np.array([float(p) for p in parameters]), [np.array(p, dtype=float) for p in pulses]))
        r = self.f(len(self.sent), self.sent[-1][0], self.sent[-1][1])
        return r if isinstance(r, dict) else {"FoM": float(r)}
def par(name, v=0.3, lo=-5.0, hi=5.0): return dict(parameter_name=name, lower_limit=lo, upper_limit=hi, initial_value=v, amplitude_variation=0.5)
def direct(f, method="NelderMead", n=2, stop=None, dsm=None, **alg):
    d = {"optimization_client_name": "demo", "create_logfile": False, "console_info": False, "use_microsecond_name": True,
         "algorithm_settings": dict({"algorithm_name": "DirectSearch", "dsm_settings": {"general_settings": dict({"dsm_algorithm_name": method}, **(dsm or {})),
            "stopping_criteria": dict({"max_eval": 60}, **(stop or {}))}}, **alg),
         "pulses": [], "parameters": [par("p%d" % k) for k in range(n)], "times": []}
    return start(d, f)
def dcrab(f, method="NelderMead", si=2, stop=None, dsm=None, pars=1, **alg):
    d = {"optimization_client_name": "demo", "create_logfile": False, "console_info": False, "use_microsecond_name": True,
         "algorithm_settings": dict({"algorithm_name": "dCRAB", "super_iteration_number": si, "dsm_settings": {"general_settings": dict({"dsm_algorithm_name": method}, **(dsm or {})),
            "stopping_criteria": dict({"max_eval": 60}, **(stop or {}))}}, **alg),
         "pulses": [dict(pulse_name="P", time_name="T", bins_number=5, lower_limit=-9.0, upper_limit=9.0, amplitude_variation=0.5,
             basis={"basis_name": "Fourier", "basis_vector_number": 1, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 3.0}})],
         "parameters": [par("p%d" % k) for k in range(pars)], "times": [{"time_name": "T", "initial_value": 1.0, "is_optimization": False}]}
    return start(d, f)
def start(d, f):
    p = Prob(f)
    with contextlib.redirect_stdout(io.StringIO()):
        o = Optimizer(d, p)
        o.execute()
    return o.get_optimization_algorithm(), p
'''
BUGS = [
    dict(id='c12-alias-record', property='C12', needs='CMA-ES, whose candidate columns are overwritten in the next generation',
         what='the record keeps a view of the evaluated vector, so the best vector changes silently afterwards',
         edits=[(DC, "                self.best_FoM = FoM\n                self.best_xx = self.xx.copy()\n                self.is_record = True\n        response_dict",
                 "                self.best_FoM = FoM\n                self.best_xx = np.asarray(self.xx)\n                self.is_record = True\n        response_dict")],
         demo=PRE + '''
np.random.seed(4)
seen = {}
def f(k, x, p):
    v = float(np.sum((x - 1.0) ** 2) + np.sum(p[0] ** 2)); seen[v] = x.copy(); return v
a, p = dcrab(f, "CMAES", si=1, stop={"max_eval": 40}, random_number_generator={"seed_number": 7})
best = seen[min(seen)]
print(a.best_xx, best); sys.exit(0 if np.allclose(a.best_xx[-1:], best) else 1)
'''),
    dict(id='c12-tie-takes-later', property='C12', needs='two successful evaluations with exactly the same value',
         what='a tie replaces the record by the later vector',
         edits=[(OA, "        if FoM < self.best_FoM:\n            return True\n", "        if FoM <= self.best_FoM:\n            return True\n")],
         demo=PRE + '''
a, p = direct(lambda k, x, q: 1.0 if k < 3 else 2.0, stop={"max_eval": 5})
print(a.best_xx, p.sent[0][0], p.sent[1][0]); sys.exit(0 if np.allclose(a.best_xx, p.sent[0][0]) else 1)
'''),
    dict(id='c13-goal-sign', property='C13', needs='maximisation with a negative goal',
         what='the converted goal loses its sign, so a negative goal of a maximisation is never met the way the negated minimisation meets it',
         edits=[(OA, "            self.FoM_goal = self.FoM_goal * self.FoM_factor\n", "            self.FoM_goal = abs(self.FoM_goal) * self.FoM_factor if self.FoM_factor < 0 else self.FoM_goal\n")],
         demo=PRE + '''
np.random.seed(1); a, p = direct(lambda k, x, q: -5.0 + 0.5 * k, FoM_goal=-3.0, optimization_direction="maximization")
np.random.seed(1); b, q = direct(lambda k, x, q: 5.0 - 0.5 * k, FoM_goal=3.0)
print(len(p.sent), len(q.sent)); sys.exit(0 if len(p.sent) == len(q.sent) else 1)
'''),
    dict(id='c14-goal-strict', property='C14', needs='a figure of merit that meets the goal exactly',
         what='a goal met exactly does not end the evaluations',
         edits=[(OA, "            if self.best_FoM <= self.FoM_goal:\n", "            if self.best_FoM < self.FoM_goal:\n")],
         demo=PRE + '''
a, p = direct(lambda k, x, q: max(2.0, 5.0 - k), FoM_goal=2.0)
print(len(p.sent)); sys.exit(0 if len(p.sent) == 3 else 1)
'''),
    dict(id='c14-budget-per-search', property='C14', needs='a total budget that ends inside the second super-iteration, drift compensation after super-iterations',
         what='the total budget is only compared inside the direct search, so the re-measurement between super-iterations overdraws it',
         edits=[(OA, "        if self.iteration_number >= self.max_eval_total:\n", "        if self.iteration_number >= self.max_eval_total and iterations > 0:\n")],
         demo=PRE + '''
a, p = dcrab(lambda k, x, q: float(np.sum(x ** 2)) + 1.0, si=3, stop={"max_eval": 10}, max_eval_total=10, compensate_drift={"compensate_after_SI": True, "num_average": 3})
print(len(p.sent)); sys.exit(0 if len(p.sent) <= 10 else 1)
'''),
    dict(id='c15-negative-status', property='C15', needs='a failing evaluation with a negative status code',
         what='only positive status codes stop the optimization',
         edits=[(AI, "        if status_code != 0:\n            self.he_obj.is_user_running = False\n        return {", "        if status_code > 0:\n            self.he_obj.is_user_running = False\n        return {"),
                (AI, "        if status_code != 0:\n            self.logger.info(\"The optimization was", "        if status_code > 0:\n            self.logger.info(\"The optimization was")],
         demo=PRE + """
a, p = direct(lambda k, x, q: {"FoM": 0.1, "status_code": -3} if k == 4 else 1.0 + k, stop={"max_eval": 9})
print(len(p.sent), a.best_FoM); sys.exit(0 if len(p.sent) == 4 and a.best_FoM == 2.0 else 1)
"""),
    dict(id='c16-stale-deviation', property='C16', needs='re-evaluations whose reported deviations differ',
         what='the deviations of the repetitions are taken from the first one, so the acceptance probability is wrong',
         edits=[(DS, "                    self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault(\"std\", 1.0))\n", "                    self.sigma_test[ii + 1] = float(self.sigma_test[0])\n")],
         demo=PRE + '''
def f(k, x, q): return {"FoM": 5.0, "std": 0.1} if k <= 2 else {"FoM": 4.0, "std": 0.1 if k % 2 else 1.9}
a, p = direct(f, stop={"max_eval": 4}, re_evaluation={"re_evaluation_steps": [0.3, 0.5]})
print(a.best_FoM, a.best_sigma); sys.exit(0 if abs(a.best_sigma - (0.1 + 1.9 + 0.1) / 3) < 1e-9 or abs(a.best_sigma - (1.9 + 0.1 + 1.9) / 3) < 1e-9 else 1)
'''),
    dict(id='c17-drift-vector', property='C17', needs='drift compensation after a super-iteration that improved the pulse',
         what='the re-measurement evaluates the best vector on top of the already updated base pulse instead of the best controls',
         edits=[(DC, "        # Get the current best control optimization vector\n        x0 = self.controls.get_mean_value()\n", "        # Get the current best control optimization vector\n        x0 = np.asarray(self.best_xx, dtype=float)\n")],
         demo=PRE + """
def f(k, x, q): return float(np.sum((q[0] - 1.0) ** 2))
a, p = dcrab(f, si=2, stop={"max_eval": 10}, random_number_generator={"seed_number": 3}, compensate_drift={"compensate_after_SI": True, "num_average": 1})
V = [s[1][0] for s in p.sent]
# the best pulse is sent twice in a row: for the drift measurement and as the start of the next super-iteration
ok = any(np.allclose(V[k], V[k + 1]) and np.allclose(V[k], min(V[:k], key=lambda v: f(0, 0, [v]))) for k in range(1, len(V) - 1))
print(ok); sys.exit(0 if ok else 1)
"""),
    dict(id='c17-keeps-lower', property='C17', needs='periodic drift compensation while the true value drifts upwards',
         what='the re-measured mean is only adopted when it is better than the old reference',
         edits=[(NM, "                    func(sim[0], iterations, fsim[0])\n", "                    func(sim[0], iterations, min(fsim[0], prev_FoM))\n")],
         demo=PRE + """
a, p = dcrab(lambda k, x, q: 1.0 * k, si=1, stop={"max_eval": 8}, compensate_drift={"compensate_after_minutes": 1e-9, "num_average": 2})
print(a.best_FoM, len(p.sent)); sys.exit(0 if a.best_FoM > 4.0 else 1)
"""),
    dict(id='c18-shrink-values', property='C18', needs='a shrink step followed by a vertex that got worse',
         what='after a shrink a vertex keeps its old value when the new one is worse, so value and vertex no longer belong together',
         edits=[(NM, "                            fsim[j] = func(sim[j], iterations)\n", "                            fsim[j] = min(fsim[j], func(sim[j], iterations))\n")],
         demo=PRE + '''
from quocslib.gradientfreemethods.NelderMead import NelderMead
table = {}
def f(x, it, *a):
    k = len(table); v = [1.0, 2.0, 3.0, 5.0, 6.0, 2.5, 9.0, 8.0, 7.5, 7.9, 7.95, 7.97][k] if k < 12 else 10.0 + k
    table[tuple(np.round(x, 12))] = v; return v
n = NelderMead({}, {"max_eval": 9})
S = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]])
import quocslib.stoppingcriteria.NelderMeadStoppingCriteria as C
held = []
o = n.sc_obj.check_stopping_criteria
def chk(sim, fsim, k): held.append((np.array(sim), np.array(fsim))); return o(sim, fsim, k)
n.sc_obj.check_stopping_criteria = chk
n.run_dsm(f, S[0], initial_simplex=S)
bad = [(s, v) for sim, fs in held for s, v in zip(sim, fs) if abs(table[tuple(np.round(s, 12))] - v) > 1e-9]
print(bad); sys.exit(1 if bad else 0)
'''),
    dict(id='c19-fatol-first', property='C19', needs='a simplex whose worst value is far away from all others',
         what='the worst vertex is left out when the spread of the values is measured',
         edits=[(SC, "        if np.std(fsim) <= self.fatol:\n", "        if np.std(fsim[:max(2, len(fsim) - 1)]) <= self.fatol:\n")],
         demo=PRE + """
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria
s = NelderMeadStoppingCriteria({"fatol": 1e-3, "xatol": 1e-9})
s.check_stopping_criteria(np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]), np.array([1.0, 1.0, 9.0]), 3)
print(s.is_converged, s.terminate_reason); sys.exit(1 if s.is_converged else 0)
"""),
    dict(id='c19-trend-window', property='C19', needs='change-based stopping with a history longer than the configured number of evaluations',
         what='the trend is fitted over the first instead of the last evaluations',
         edits=[(SC, "            last_foms = np.asarray(self.curr_FoM_track[-cbs_funct_evals:], dtype=np.float64)\n", "            last_foms = np.asarray(self.curr_FoM_track[:cbs_funct_evals], dtype=np.float64)\n")],
         demo=PRE + """
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria
s = NelderMeadStoppingCriteria({"change_based_stop": {"cbs_funct_evals": 3, "cbs_change": 0.1}})
for v in (9.0, 5.0, 2.0, 2.0, 2.0):
    s.add_to_FoM_track(v); s.check_advanced_stopping_criteria()
print(s.is_converged); sys.exit(0 if s.is_converged else 1)
"""),
    dict(id='c20-parents', property='C20', needs='a configured population of 7, 11, ... candidates',
         what='the number of parents is rounded instead of floored, so more than the best half enter the mean',
         edits=[(CM, "        mu = int(np.floor(l_pop / 2))\n", "        mu = int(np.round(l_pop / 2))\n")],
         demo=PRE + """
from quocslib.gradientfreemethods.CMAES import CMAES
xs = []
def f(x, it, *a): xs.append(np.array(x)); return float(np.sum((x - 2.0) ** 2))
c = CMAES({"population": 7}, {"max_eval": 14})
r = np.random.default_rng(2); n = [0]
class R:
    def get_random_normal_numbers(self, k): n[0] += 1; return r.standard_normal(k) if n[0] <= 7 else np.zeros(k)
c.rng = R()
with contextlib.redirect_stdout(io.StringIO()): c.run_dsm(f, np.zeros(3))
w = np.log(3.5) - np.log(np.arange(1, 4)); w /= w.sum()
best = sorted(xs[:7], key=lambda x: float(np.sum((x - 2.0) ** 2)))[:3]
m = sum(a * b for a, b in zip(w, best))
print(xs[7], m); sys.exit(0 if np.allclose(xs[7], m) else 1)
"""),
    dict(id='c20-value-order', property='C20', needs='a generation in which the best candidate was not evaluated first',
         what='the search returns the first candidate of the last generation with the best value',
         edits=[(CM, "        x = arx[:, ind[0]]\n", "        x = arx[:, np.argmin(fsim)]\n")],
         demo=PRE + """
from quocslib.gradientfreemethods.CMAES import CMAES
seen = {}
def f(x, it, *a): v = float(np.sum((x - 2.0) ** 2)); seen[v] = np.array(x); return v
np.random.seed(5)
with contextlib.redirect_stdout(io.StringIO()): r = CMAES({"population": 6}, {"max_eval": 18}).run_dsm(f, np.zeros(2))
print(r["X_opti_vec"], seen[r["F_min_val"]]); sys.exit(0 if np.allclose(r["X_opti_vec"], seen[r["F_min_val"]]) else 1)
"""),
    dict(id='c10-global-first', property='C10', needs='a seeded dCRAB run started with different states of the global generator',
         what='the first super-parameters of each pulse are drawn from the global generator',
         edits=[('pulses/superparameter/Uniform.py', "        if self.rng is None:\n", "        if self.rng is None or k == 1:\n")],
         demo=PRE + """
out = []
for g in (1, 2):
    np.random.seed(g)
    a, p = dcrab(lambda k, x, q: float(np.sum(q[0] ** 2)), si=1, stop={"max_eval": 6}, random_number_generator={"seed_number": 11})
    out.append(p.sent)
same = all(np.allclose(a[1][0], b[1][0]) for a, b in zip(*out))
print(same); sys.exit(0 if same else 1)
"""),
]
