import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c_search, b_controls, d_misc
S, B, D = c_search.PRE, b_controls.PRE, d_misc.PRE
BP, CO, UN, FO, DI, SC, OA, DC, NM, BD, AD, GR, SI = (
    'pulses/BasePulse.py', 'Controls.py', 'pulses/superparameter/Uniform.py', 'pulses/basis/Fourier.py', 'utils/dynamicimport.py', 'stoppingcriteria/StoppingCriteria.py',
    'optimizationalgorithms/OptimizationAlgorithm.py', 'optimizationalgorithms/dCRABAlgorithm.py', 'gradientfreemethods/NelderMead.py', 'utils/BestDump.py',
    'optimizationalgorithms/ADAlgorithm.py', 'optimizationalgorithms/GRAPEAlgorithm.py', 'pulses/basis/Sinc.py')
BUGS = [
    dict(id='c01-symmetric-shortcut', property='C01', needs='limits that are not symmetric around zero and a pulse below the lower one',
         what='a pulse whose magnitude does not exceed the upper limit skips the limiting step',
         edits=[(BP, "        return self._get_limited_pulse(pulse)\n", "        if not self.is_AD and np.max(np.abs(pulse)) <= self.amplitude_upper:\n            return pulse\n        return self._get_limited_pulse(pulse)\n")],
         demo=B + '''
c = Controls([pulse("p", 4, lower_limit=-0.5, upper_limit=2.0)], [time("t1", 1.0)], [])
v = np.asarray(c.get_controls_lists(np.array([-1.5, 0.2, 1.0, -0.1]))[0][0])
print(v); sys.exit(0 if v.min() >= -0.5 else 1)
'''),
    dict(id='c08-base-in-place', property='C08', needs='a chain that adds the base pulse to the zero pulse first and the update right after it',
         what='the base pulse itself is handed on when there is nothing to add it to, and the update is added in place: every evaluation accumulates in the base pulse (two sites)',
         edits=[(BP, "        return pulse + self.base_pulse\n", "        return pulse + self.base_pulse if np.any(pulse) else self.base_pulse\n"),
                (BP, "        return pulse + self._get_shaped_pulse()\n", "        pulse += self._get_shaped_pulse()\n        return pulse\n")],
         demo=B + '''
c = Controls([pulse("p", 3, shaping_options=["add_base_pulse", "add_new_update_pulse", "limit_pulse"])], [time("t1", 1.0)], [])
c.update_base_controls(np.array([1.0, 2.0, 3.0]))
a = np.array(c.get_controls_lists(np.array([0.5, 0.5, 0.5]))[0][0])
b = np.array(c.get_controls_lists(np.zeros(3))[0][0])
print(a, b); sys.exit(0 if np.allclose(b, [1, 2, 3]) else 1)
'''),
    dict(id='c08-report-alias', property='C08', needs='a second super-iteration',
         what='the recorded super-parameters are the live array, so all recorded draws turn into the latest one',
         edits=[(CO, "list(pulse.super_parameter_distribution_obj.w)", "pulse.super_parameter_distribution_obj.w")],
         demo=S + '''
a, p = dcrab(lambda k, x, q: float(np.sum(q[0] ** 2)), si=2, stop={"max_eval": 5}, random_number_generator={"seed_number": 5})
w = [np.array(l[0], dtype=float) for l in a.dcrab_super_parameter_list]
print(w); sys.exit(0 if len(w) == 2 and not np.allclose(w[0], w[1]) else 1)
'''),
    dict(id='c10-hash-order', property='C10', needs='two pulses with different time names and two runs in processes with different string hashing',
         what='the draws of the pulses are made time by time in the order of a set of strings',
         edits=[(CO, "        for pulse in self.pulse_objs_list:\n            if isinstance(pulse, ChoppedBasis):\n                pulse.super_parameter_distribution_obj.set_random_super_parameter()\n",
                 "        for pulse in [p for name in {p.time_name for p in self.pulse_objs_list} for p in self.pulse_objs_list if p.time_name == name]:\n            if isinstance(pulse, ChoppedBasis):\n                pulse.super_parameter_distribution_obj.set_random_super_parameter()\n")],
         demo=B + '''
import subprocess
if len(sys.argv) == 1:
    out = {subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(k)), capture_output=True, text=True).stdout for k in range(6)}
    print(out); sys.exit(0 if len(out) == 1 else 1)
from quocslib.tools.randomgenerator import RandomNumberGenerator
c = Controls([fourier("p", 3, 1, "ta"), fourier("q", 3, 1, "tb"), fourier("r", 3, 1, "tc")], [time("ta", 1.0), time("tb", 2.0), time("tc", 3.0)], [], rng=RandomNumberGenerator(3))
c.select_basis()
print([[float(x) for x in l] for l in c.get_random_super_parameter()])
'''),
    dict(id='c27-class-cache', property='C27', needs='two modules that define a class of the same name',
         what='imported classes are remembered by their class name alone',
         edits=[(DI, "def dynamic_import(attribute=None,", "_known_classes = {}\n\n\ndef dynamic_import(attribute=None,"),
                (DI, "            attribute = getattr(importlib.import_module(module_name), class_name)\n            return attribute\n        # TODO Substitute the Exception with a proper Error\n        except Exception as ex:\n            print(",
                 "            if class_name not in _known_classes:\n                _known_classes[class_name] = getattr(importlib.import_module(module_name), class_name)\n            return _known_classes[class_name]\n        # TODO Substitute the Exception with a proper Error\n        except Exception as ex:\n            print(")],
         demo=D + '''
import types
from quocslib.utils.dynamicimport import dynamic_import
for n in ("my_first", "my_second"):
    m = types.ModuleType(n); m.Basis = type("Basis", (), {"home": n}); sys.modules[n] = m
a, b = [dynamic_import(module_name=n, class_name="Basis") for n in ("my_first", "my_second")]
print(a.home, b.home); sys.exit(0 if (a.home, b.home) == ("my_first", "my_second") else 1)
'''),
    dict(id='c19-shared-track', property='C19', needs='a second optimization in the same process, with a change-based criterion',
         what='the track of values lives in the class, so a new search starts with the values of an earlier one',
         edits=[(SC, "    def __init__(self, stopping_criteria: dict = None):\n", "    curr_FoM_track: list = []\n\n    def __init__(self, stopping_criteria: dict = None):\n"),
                (SC, "        self.curr_FoM_track: list = []\n\n    @abs", "\n    @abs"),
                (SC, "        self.curr_FoM_track = []\n", "        self.curr_FoM_track.clear()\n")],
         demo=S + '''
n = []
for r in range(2):
    a, p = direct(lambda k, x, q: 1.0 + 1e-9 * k, stop={"max_eval": 40, "xatol": 1e-30, "fatol": 1e-30, "change_based_stop": {"cbs_funct_evals": 10, "cbs_change": 1e-3}})
    n.append(len(p.sent))
print(n); sys.exit(0 if n[0] == n[1] else 1)
'''),
    dict(id='c14-seconds-wrap', property='C14', needs='a total time limit of more than a day',
         what='the elapsed run time forgets whole days',
         edits=[(OA, "            time_passed = (curr_time - self.optimization_start_time).total_seconds() / 60.0\n", "            time_passed = (curr_time - self.optimization_start_time).seconds / 60.0\n")],
         demo=S + '''
import datetime, quocslib.optimizationalgorithms.OptimizationAlgorithm as M
class Clock(datetime.datetime):
    n = 0
    @classmethod
    def now(cls, tz=None):
        cls.n += 1
        return datetime.datetime(2024, 1, 1) + datetime.timedelta(hours=cls.n)
M.datetime = Clock
a, p = direct(lambda k, x, q: 10.0 - k, total_time_lim=1500.0, stop={"max_eval": 60, "xatol": 1e-30, "fatol": 1e-30})
print(len(p.sent)); sys.exit(0 if len(p.sent) <= 26 else 1)
'''),
    dict(id='c13-settings-sign', property='C13', needs='maximisation with a goal, the same settings dictionary used for two optimizations',
         what='the converted goal is written back to the settings, so every second optimization with them uses the wrong sign',
         edits=[(OA, "            self.FoM_goal = self.FoM_goal * self.FoM_factor\n", "            self.FoM_goal = alg_parameters[\"FoM_goal\"] = self.FoM_goal * self.FoM_factor\n")],
         demo=S.replace('def start(d, f):', 'def start(d, f, again=None):') + '''
d = {"optimization_client_name": "demo", "create_logfile": False, "console_info": False, "use_microsecond_name": True,
     "algorithm_settings": {"algorithm_name": "DirectSearch", "FoM_goal": 3.0, "optimization_direction": "maximization",
        "dsm_settings": {"general_settings": {"dsm_algorithm_name": "NelderMead"}, "stopping_criteria": {"max_eval": 30}}},
     "pulses": [], "parameters": [par("p0"), par("p1")], "times": []}
n = []
for r in range(2):
    a, p = start(d, lambda k, x, q: 0.5 * k)
    n.append(len(p.sent))
print(n); sys.exit(0 if n == [6, 6] else 1)
'''),
    dict(id='c12-tolerance', property='C12', needs='an improvement that is tiny compared with the value',
         what='improvements below a relative tolerance are not taken as record',
         edits=[(OA, "        if FoM < self.best_FoM:\n            return True\n", "        if self.best_FoM - FoM > 1e-12 * max(1.0, abs(self.best_FoM)):\n            return True\n")],
         demo=S + '''
a, p = direct(lambda k, x, q: 1e-13 * (5 - k) if k < 5 else 1.0, stop={"max_eval": 6})
print(a.best_FoM); sys.exit(0 if a.best_FoM == 1e-13 else 1)
'''),
    dict(id='c18-lazy-sort', property='C18', needs='two or more dimensions and a step accepted in the middle of the simplex',
         what='the simplex is only sorted again after a shrink or a new best vertex, so a later step may replace a vertex that is not the worst',
         edits=[(NM, "            # Sort the array by the lowest function value since we are performing a minimization\n            ind = np.argsort(fsim)\n            [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]\n            # do drift",
                 "            # Sort the array by the lowest function value since we are performing a minimization\n            if doshrink or fsim[-1] < fsim[0]:\n                ind = np.argsort(fsim)\n                [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]\n            # do drift")],
         demo=S + '''
from quocslib.gradientfreemethods.NelderMead import NelderMead
def f(x, it, *a):
    log.append((x.copy(), float((x[0] - 1.0) ** 2 + 3.0 * (x[1] + 0.4) ** 2))); return log[-1][1]
log = []
r = NelderMead({}, {"max_eval": 40}).run_dsm(f, np.zeros(2), initial_simplex=np.array([[0.0, 0.0], [0.5, 0.0], [0.0, 0.5]]))
V = sorted(log[:3], key=lambda e: e[1]); ok = True; k = 3
while k < len(log) - 3 and ok:
    xb = (V[0][0] + V[1][0]) / 2; w = V[2]
    ok = np.allclose(log[k][0], 2 * xb - w[0]); xr = log[k]; k += 1
    if xr[1] < V[0][1]:
        xe = log[k]; k += 1; V[2] = xe if xe[1] < xr[1] else xr
    elif xr[1] < V[1][1]: V[2] = xr
    else:
        c = log[k]; k += 1
        if c[1] < w[1] or (xr[1] < w[1] and c[1] <= xr[1]): V[2] = c
        else: break
    V = sorted(V, key=lambda e: e[1])
print(ok); sys.exit(0 if ok else 1)
'''),
    dict(id='c04-stale-table', property='C04', needs='a second draw of the frequencies for the same pulse object',
         what='the sine and cosine tables are kept until the grid changes, although the frequencies are redrawn in place',
         edits=[(FO, "        for ii in range(self.super_parameter_number):\n            pulse += xx[2 * ii] * np.sin(2 * np.pi * w[ii] * t / final_time) + xx[2 * ii + 1] * np.cos(\n                2 * np.pi * w[ii] * t / final_time)\n        return pulse\n",
                 "        key = (final_time, self.bins_number)\n        if self.is_AD or getattr(self, \"_table_key\", None) != key or self._table_w is not w:\n            self._table_key, self._table_w = key, w\n            self._table = [(np.sin(2 * np.pi * w[ii] * t / final_time), np.cos(2 * np.pi * w[ii] * t / final_time))\n                           for ii in range(self.super_parameter_number)]\n        for ii in range(self.super_parameter_number):\n            pulse += xx[2 * ii] * self._table[ii][0] + xx[2 * ii + 1] * self._table[ii][1]\n        return pulse\n")],
         demo=B + '''
np.random.seed(1)
c = Controls([fourier("p", 5, 1)], [time("t1", 2.0)], [])
x = np.array([0.7, -0.4]); ok = True
for k in range(2):
    c.select_basis()
    w = c.get_random_super_parameter()[0][0]; t = np.linspace(0, 2.0, 5)
    v = np.asarray(c.get_bare_controls_lists(x)[0])
    ok = ok and np.allclose(v, 0.7 * np.sin(2 * np.pi * w * t / 2.0) - 0.4 * np.cos(2 * np.pi * w * t / 2.0))
print(ok); sys.exit(0 if ok else 1)
'''),
    dict(id='c28-stale-trace', property='C28', needs='a second super-iteration of the automatic-differentiation algorithm',
         what='the compiled gradient is kept across super-iterations and with it the base controls of the first one',
         edits=[(AD, "            return np.array(jax.jit(jax.grad(self.get_gradient))(x))\n",
                 "            if getattr(self, \"_grad\", None) is None:\n                self._grad = jax.jit(jax.grad(self.get_gradient))\n            return np.array(self._grad(x))\n")],
         demo=D + '''
import jax.numpy as jnp
from scipy import optimize
from quocslib.Optimizer import Optimizer
from quocslib.utils.AbstractFoM import AbstractFoM
class P(AbstractFoM):
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        return {"FoM": jnp.sum(jnp.real(pulses[0] - 1.0) ** 4)}
bad, keep = [], optimize.minimize
def check(fun, x0, jac=None, **k):
    x = np.asarray(x0, dtype=float); g = np.asarray(jac(x), dtype=float)
    h = 1e-2; n = np.array([(float(fun(x + h * e)) - float(fun(x - h * e))) / (2 * h) for e in np.eye(len(x))])
    bad.append(not np.allclose(g, n, rtol=5e-2, atol=5e-2))
    return optimize.OptimizeResult(x=x, fun=0.0, success=True)
optimize.minimize = check
d = {"optimization_client_name": "demo", "create_logfile": False, "console_info": False, "use_microsecond_name": True,
     "algorithm_settings": {"algorithm_name": "AD", "super_iteration_number": 2, "random_number_generator": {"seed_number": 3}},
     "pulses": [dict(pulse_name="P", time_name="T", bins_number=3, lower_limit=-9.0, upper_limit=9.0, amplitude_variation=0.8, basis={"basis_name": "PiecewiseBasis", "bins_number": 3})],
     "parameters": [], "times": [{"time_name": "T", "initial_value": 1.0, "is_optimization": False}]}
with contextlib.redirect_stdout(io.StringIO()):
    o = Optimizer(d, P()); o.execute()
print(bad); sys.exit(0 if bad == [False, False] else 1)
'''),
    dict(id='c23-names-stay', property='C23', needs='a second record of the same optimization',
         what='the dictionary of names survives a record, so the next record is saved under changed names next to the old values',
         edits=[(BD, "        self.dump_format = dump_format\n", "        self.dump_format = dump_format\n        self._controls_dict = {}\n"),
                (BD, "        controls_dict = {}\n", "        controls_dict = self._controls_dict\n")],
         demo=D + '''
import tempfile
from quocslib.utils.BestDump import BestDump
with tempfile.TemporaryDirectory() as t:
    b = BestDump(t, "D", "npz")
    for v in (1.0, 2.0):
        b.dump_controls(pulses=[np.full(3, v)], timegrids=[np.arange(3.0)], parameters=[v], is_record=True, pulse_names=["a"], parameter_names=["q"], FoM=v)
    z = np.load(os.path.join(t, "D_best_controls.npz"))
    ok = np.allclose(z["a"], 2.0) and np.allclose(z["q"], 2.0)
print(ok); sys.exit(0 if ok else 1)
'''),
    dict(id='c22-close-cache', property='C22', needs='two gradient requests at points that differ by very little',
         what='the propagators of the previous request are used again when the controls hardly changed',
         edits=[(GR, "        U_store = self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)\n",
                 "        last = getattr(self, \"_last_request\", None)\n        if last is None or not np.allclose(last[0], optimized_control_parameters):\n            last = self._last_request = (np.array(optimized_control_parameters),\n                                         self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters))\n        U_store = last[1]\n")],
         demo=D + '''
from scipy.linalg import expm
from quocslib.optimizationalgorithms.GRAPEAlgorithm import GRAPEAlgorithm
X, Z = np.array([[0, 1], [1, 0]], complex), np.diag([1.0, -1.0]).astype(complex)
n, T = 3, 2.0; dt = T / n
def make():
    g = GRAPEAlgorithm.__new__(GRAPEAlgorithm)
    class C:
        def get_controls_lists(self, x): return [x], [np.linspace(0, T, n)], []
    r0, rt = np.diag([1.0, 0]).astype(complex), np.array([[0.5, 0.5j], [-0.5j, 0.5]])
    g.controls, g.n_slices, g.sys_type, g.control_Hamiltonians = C(), n, "StateTransfer", X
    g.propagator_func = lambda pulses_list, **k: [expm(-1j * dt * (Z + a * X)) for a in pulses_list[0]]
    g.rho_storage, g.corho_storage = np.zeros((n + 1, 2, 2), complex), np.zeros((n + 1, 2, 2), complex)
    g.rho_storage[0], g.corho_storage[-1] = r0, rt
    return g
u = np.array([0.3, -0.8, 1.1]); v = u + 2e-6
g = make(); g.get_gradient(u); a = g.get_gradient(v); b = make().get_gradient(v)
print(np.abs(a - b).max()); sys.exit(0 if np.abs(a - b).max() < 1e-9 else 1)
'''),
    dict(id='c09-first-draw', property='C09', needs='a declared range that does not start at zero, or a second draw',
         what='the draw only redraws sub-intervals after the first one once a draw has been made',
         edits=[(UN, "        for i in range(k):\n", "        for i in range(1 if k > 1 and self.w[0] > a else 0, k):\n")],
         demo=B + '''
np.random.seed(2)
c = Controls([fourier("p", 3, 3)], [time("t1", 1.0)], [])
c.select_basis(); a = c.get_random_super_parameter()[0][0]
c.select_basis(); b = c.get_random_super_parameter()[0][0]
print(a, b); sys.exit(0 if a != b else 1)
'''),
]
