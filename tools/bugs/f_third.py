import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c_search, b_controls, d_misc
S, B, D = c_search.PRE, b_controls.PRE, d_misc.PRE
BP, CO, SC, OA, DC, NM, CM, DM, SI, AD, FU = (
    'pulses/BasePulse.py', 'Controls.py', 'stoppingcriteria/StoppingCriteria.py', 'optimizationalgorithms/OptimizationAlgorithm.py', 'optimizationalgorithms/dCRABAlgorithm.py',
    'gradientfreemethods/NelderMead.py', 'gradientfreemethods/CMAES.py', 'gradientfreemethods/DirectSearchMethod.py', 'pulses/basis/SigmoidAllParas.py',
    'optimizationalgorithms/ADAlgorithm.py', 'utils/FilesUpdateFom.py')
BUGS = [
    dict(id='c02-stale-max', property='C02', needs='a pulse that exceeds both limits, shrinking selected',
         what='the second half of the shrinking still uses the maximum from before the first half',
         edits=[(BP, "                ui = (ui - temp_min) * correction + np.full(len(ui), temp_min)\n\n            temp_max = np.amax(ui)\n            temp_min = np.amin(ui)\n",
                 "                ui = (ui - temp_min) * correction + np.full(len(ui), temp_min)\n\n            temp_min = np.amin(ui)\n")],
         demo=B + '''
c = Controls([pulse("p", 4, lower_limit=-1.0, upper_limit=1.0, shrink_ampl_lim=True)], [time("t1", 1.0)], [])
v = np.asarray(c.get_controls_lists(np.array([-3.0, 0.0, 1.0, 5.0]))[0][0])
w = np.array([-1.0, -0.25, 0.0, 1.0])
print(v); sys.exit(0 if np.allclose(v, w) else 1)
'''),
    dict(id='c07-kept-grid', property='C07', needs='a figure of merit that changes the time grid it was given',
         what='the time grid is only rebuilt when the final time changes, so all evaluations share one array with the user',
         edits=[(BP, "        self.final_time = final_time\n        self.time_grid = np.linspace(0, final_time, self.bins_number)\n",
                 "        if self.is_AD or getattr(self, \"final_time\", None) != final_time:\n            self.time_grid = np.linspace(0, final_time, self.bins_number)\n        self.final_time = final_time\n")],
         demo=B + '''
c = Controls([pulse("p", 3)], [time("t1", 2.0)], [])
g = c.get_controls_lists(np.zeros(3))[1][0]
g *= 1e9
h = c.get_controls_lists(np.zeros(3))[1][0]
print(h); sys.exit(0 if np.allclose(h, [0.0, 1.0, 2.0]) else 1)
'''),
    dict(id='c16-first-of-each', property='C16', needs='a second super-iteration with re-evaluation configured',
         what='the first evaluation of every super-iteration, not only of the whole optimization, skips the configured thresholds',
         edits=[(DC, "                if self.iteration_number == 1:\n", "                if iterations <= 1 and self.alg_iteration_number <= 1:\n")],
         demo=S + '''
a, p = dcrab(lambda k, x, q: {"FoM": 1.0 - 0.01 * k, "std": 1.0}, si=2, stop={"max_eval": 3}, re_evaluation={"re_evaluation_steps": [0.01, 0.01, 0.01]})
n = 0
b, q = dcrab(lambda k, x, q: {"FoM": 1.0 - 0.01 * k, "std": 1.0}, si=1, stop={"max_eval": 3}, re_evaluation={"re_evaluation_steps": [0.01, 0.01, 0.01]})
print(len(p.sent), len(q.sent)); sys.exit(0 if len(p.sent) == 2 * len(q.sent) + 2 else 1)
'''),
    dict(id='c20-stale-inverse', property='C20', needs='the third generation of CMA-ES (in two or more dimensions)',
         what='the step-size path uses the inverse root of the covariance of one generation before',
         edits=[(CM, "                    (lv, B) = linalg.eigh(C)\n                    D = np.sqrt(lv)\n                    invsqrtC = B.dot(np.diag(1 / D).dot(B.T))\n",
                 "                    invsqrtC = B.dot(np.diag(1 / D).dot(B.T))\n                    (lv, B) = linalg.eigh(C)\n                    D = np.sqrt(lv)\n")],
         demo=S + '''
import scipy.linalg
from quocslib.gradientfreemethods.CMAES import CMAES
np.random.seed(3)
N, L = 2, 6
xs = []
def f(x, it):
    xs.append(np.array(x)); return float((x[0] - 1) ** 2 + 4 * (x[1] + 2) ** 2)
np_randn = np.random.randn
zs = []
np.random.randn = lambda n: zs.append(np_randn(n)) or zs[-1]
s = CMAES({"population": L}, {"max_eval": 4 * L})
with contextlib.redirect_stdout(io.StringIO()):
    s.run_dsm(f, np.zeros(N), sigma_v=np.array([0.5, 0.8]))
# textbook iteration with the same random numbers
mu = L // 2; w = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1)); w /= w.sum(); me = 1 / (w ** 2).sum()
cc = (4 + me / N) / (N + 4 + 2 * me / N); cs = (me + 2) / (N + me + 5); c1 = 2 / ((N + 1.3) ** 2 + me)
cm = min(1 - c1, 2 * (me - 2 + 1 / me) / ((N + 2) ** 2 + me)); d = 1 + 2 * max(0, np.sqrt((me - 1) / (N + 1)) - 1) + cs
chi = N ** 0.5 * (1 - 1 / (4 * N) + 1 / (21 * N ** 2))
m, sg, pc, ps, Bm, Dm = np.zeros(N), 1.0, np.zeros(N), np.zeros(N), np.eye(N), np.array([0.5, 0.8])
C = np.diag(Dm ** 2); ok = True
for g in range(4):
    X = np.array([m + sg * Bm.dot(Dm * zs[g * L + k]) for k in range(L)])
    if g == 0: X[0] = m
    ok = ok and np.allclose(X, xs[g * L:(g + 1) * L])
    ind = np.argsort([float((x[0] - 1) ** 2 + 4 * (x[1] + 2) ** 2) for x in X])
    old, m = m, w.dot(X[ind[:mu]])
    y = m - old
    ps = (1 - cs) * ps + np.sqrt(cs * (2 - cs) * me) * (Bm / Dm).dot(Bm.T).dot(y) / sg
    hs = np.linalg.norm(ps) / np.sqrt(1 - (1 - cs) ** (2 * (g + 1))) / chi < 1.4 + 2 / (N + 1)
    pc = (1 - cc) * pc + hs * np.sqrt(cc * (2 - cc) * me) * y / sg
    A = (X[ind[:mu]] - old).T / sg
    C = (1 - c1 - cm) * C + c1 * (np.outer(pc, pc) + (1 - hs) * cc * (2 - cc) * C) + cm * A.dot(np.diag(w)).dot(A.T)
    sg *= np.exp(cs / d * (np.linalg.norm(ps) / chi - 1))
    C = np.triu(C) + np.triu(C, 1).T
    lv, Bm = scipy.linalg.eigh(C); Dm = np.sqrt(lv)
print(ok); sys.exit(0 if ok else 1)
'''),
    dict(id='c26-shared-counter', property='C26', needs='a second direct search in the same process',
         what='the call counter belongs to the class, so a later search starts with the calls of an earlier one',
         edits=[(DM, "        self.args = args\n        self.calls_number = [0]\n", "        self.args = args\n"),
                (DM, "class Wrap:\n", "class Wrap:\n    calls_number = [0]\n\n")],
         demo=S + '''
from quocslib.gradientfreemethods.NelderMead import NelderMead
r = [NelderMead({}, {"max_eval": 20}).run_dsm(lambda x, it: float(np.sum(x ** 2)), np.ones(2), initial_simplex=np.array([[1.0, 1.0], [2.0, 1.0], [1.0, 2.0]]))["NfunevalsUsed"] for k in range(2)]
print(r); sys.exit(0 if r[0] == r[1] else 1)
'''),
    dict(id='c06-kept-scales', property='C06', needs='two super-iterations with user bases whose scales change with the draw',
         what='the variation vector is assembled once and reused while the number of control parameters stays the same',
         edits=[(CO, "    def get_sigma_variation(self) -> np.array:\n", "    def get_sigma_variation(self) -> np.array:\n        kept = getattr(self, \"_sigma\", None)\n        if kept is None or len(kept) != self.get_control_parameters_number():\n            self._sigma = self._assemble_sigma_variation()\n        return self._sigma.copy()\n\n    def _assemble_sigma_variation(self) -> np.array:\n")],
         demo=B + '''
from quocslib.pulses.basis.ChoppedBasis import ChoppedBasis
class Own(ChoppedBasis):
    super_parameter_number = 1
    def __init__(self, map_index, pulse_dictionary, rng=None, is_AD=False):
        self.control_parameters_number = 2; self.k = 0
        super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
        self.scale_coefficients, self.offset_coefficients = np.ones(2), np.zeros(2)
    def _get_shaped_pulse(self): return np.zeros(self.bins_number)
    def update_chopped_basis(self): self.k += 1; self.scale_coefficients = self.k * np.ones(2)
c = Controls([pulse("p", 3, basis={"basis_attribute": Own, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 3.0}})], [time("t1", 1.0)], [])
v = []
for k in range(3):
    c.select_basis(); v.append(list(c.get_sigma_variation()))
print(v); sys.exit(0 if v == [[1.0, 1.0], [2.0, 2.0], [3.0, 3.0]] else 1)
'''),
    dict(id='c14-clock-from-init', property='C14', needs='time passing between the set-up and the start of the optimization',
         what='the run time is counted from the creation of the algorithm instead of its start',
         edits=[(OA, "        self.optimization_start_time = None\n", "        self.optimization_start_time = datetime.now()\n"),
                (OA, "        # set start time of optimization\n        self.optimization_start_time = datetime.now()\n", "")],
         demo=S + '''
import datetime, quocslib.optimizationalgorithms.OptimizationAlgorithm as M
now = [datetime.datetime(2024, 1, 1)]
class Clock(datetime.datetime):
    @classmethod
    def now(cls, tz=None): return now[0]
M.datetime = Clock
p = Prob(lambda k, x, q: float(np.sum(x ** 2)))
d = {"optimization_client_name": "demo", "create_logfile": False, "console_info": False, "use_microsecond_name": True,
     "algorithm_settings": {"algorithm_name": "DirectSearch", "total_time_lim": 10.0, "dsm_settings": {"general_settings": {"dsm_algorithm_name": "NelderMead"}, "stopping_criteria": {"max_eval": 20}}},
     "pulses": [], "parameters": [par("p0"), par("p1")], "times": []}
with contextlib.redirect_stdout(io.StringIO()):
    o = Optimizer(d, p)
    init = M.OptimizationAlgorithm.begin
    def late(self):
        now[0] += datetime.timedelta(minutes=60); return init(self)
    M.OptimizationAlgorithm.begin = late
    o.execute()
print(len(p.sent)); sys.exit(0 if len(p.sent) > 5 else 1)
'''),
    dict(id='c20-mean-in-place', property='C20', needs='the second generation of CMA-ES',
         what='the mean is updated in place, which also changes the start vector of the caller and the old mean it is compared with',
         edits=[(CM, "                xmean = arx[:, ind[0:mu]].dot(weights)\n", "                xmean = np.asarray(xmean, dtype=float)\n                xmean[:] = arx[:, ind[0:mu]].dot(weights)\n"),
                (CM, "                xold = xmean\n", "                xold = np.array(xmean)\n")],
         demo=S + '''
from quocslib.gradientfreemethods.CMAES import CMAES
np.random.seed(1)
x0 = np.array([1.0, -2.0])
with contextlib.redirect_stdout(io.StringIO()):
    CMAES({}, {"max_eval": 30}).run_dsm(lambda x, it: float(np.sum(x ** 2)), x0, sigma_v=np.array([0.3, 0.3]))
print(x0); sys.exit(0 if list(x0) == [1.0, -2.0] else 1)
'''),
    dict(id='c04-shared-offset', property='C04', needs='a step centre moved beyond the pulse with more than one step',
         what='the range of the moved step centres is not extended to the upper end of the pulse',
         edits=[(SI, "                if sorted_tau[-1] < final_time - self.offset:\n", "                if sorted_tau[-1] < final_time - 2 * self.offset:\n")],
         demo=B + '''
from quocslib.pulses.basis.SigmoidAllParas import SigmoidAllParas
from scipy.special import erf
class W:
    def __init__(self, n, s, rng=None): self.w = np.array([1.0, 7.0])
    def set_random_super_parameter(self): pass
p = SigmoidAllParas(-1, dict(pulse_name="p", time_name="t", bins_number=9, lower_limit=-9.0, upper_limit=9.0, amplitude_variation=1.0,
    basis={"basis_vector_number": 2, "sigma": 0.5, "offset": 2.0, "tau_variation": 1.0, "random_super_parameter_distribution": {"distribution_attribute": W}}))
T = 10.0; v = p.get_bare_pulse(np.array([0.3, 1.0, -0.5, -3.0, 0.0]), T)
taus = np.array([-2.0, 7.0]); lo, hi = -2.0, 8.0
taus = T / 2 + (taus - (hi - lo) / 2 - lo) * 2 * (T / 2 - 2.0) / (hi - lo)
t = np.linspace(0, T, 9); w = sum(a / 2 * (erf((t - c) / (np.sqrt(2) * 0.5)) + 1) for a, c in zip((0.3, 1.0, -0.5, -0.8), (2.0, *taus, T - 2.0)))
print(v, w); sys.exit(0 if np.allclose(v, w) else 1)
'''),
    dict(id='c24-leading-line', property='C24', needs='a figure of merit of several digits in a file without a line end',
         what='the last character of the line is cut off as if it were the line end',
         edits=[(FU, "FoM = float(str(FoM_file.readline()).strip())", "FoM = float(str(FoM_file.readline())[:-1].strip() or \"0\")")],
         demo=D + '''
import tempfile, threading, time
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
with tempfile.TemporaryDirectory() as t:
    f = FilesUpdateFoM(controls_folder=t, FoM_folder=t, max_time=20)
    def answer():
        time.sleep(0.7)
        open(os.path.join(t, "tmp"), "w").write("0.25"); os.rename(os.path.join(t, "tmp"), os.path.join(t, "FoM.txt"))
    threading.Thread(target=answer).start()
    with contextlib.redirect_stdout(io.StringIO()):
        r = f.get_FoM([np.zeros(2)], [np.arange(2.0)], [0.1])
print(r); sys.exit(0 if r["FoM"] == 0.25 else 1)
'''),
]
