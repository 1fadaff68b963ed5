GR, PW, PA, BD, FU, OU, WR, DI = ('optimizationalgorithms/GRAPEAlgorithm.py', 'timeevolution/piecewise_integrator.py', 'timeevolution/piecewise_integrator_AD.py', 'utils/BestDump.py',
                          'utils/FilesUpdateFom.py', 'noiseprocesses/ornsteinuhlenbeckprocess.py', 'gradientfreemethods/DirectSearchMethod.py', 'utils/dynamicimport.py')
PRE = '''
import sys, os, io, json, contextlib, numpy as np
'''
BUGS = [
    dict(id='c21-cached-slice', property='C21', needs='two neighbouring slices with equal amplitude of the first control and different amplitudes of the second',
         what='the exponential of a slice is re-used when the first control amplitude did not change',
         edits=[(PW, "        U_store[i] = expm(-1j * dt * H)\n", "        if i > 0 and drive[0, i] == drive[0, i - 1]:\n            U_store[i] = U_store[i - 1]\n            continue\n        U_store[i] = expm(-1j * dt * H)\n")],
         demo=PRE + '''
from scipy.linalg import expm
from quocslib.timeevolution.piecewise_integrator import pw_evolution
X, Z = np.array([[0, 1], [1, 0]], complex), np.diag([1.0, -1.0]).astype(complex)
d = np.array([[0.5, 0.5, 0.1], [0.2, -0.7, 0.3]])
U = pw_evolution([np.zeros((2, 2), complex)] * 3, d, 0.3 * Z, [X, Z], 3, 0.4)
ok = all(np.allclose(U[i], expm(-0.4j * (0.3 * Z + d[0, i] * X + d[1, i] * Z))) for i in range(3))
print(ok); sys.exit(0 if ok else 1)
'''),
    dict(id='c21-order', property='C21', needs='slices whose Hamiltonians do not commute and a non-trivial initial propagator',
         what='the initial propagator is multiplied from the left at the end instead of being the first factor on the right',
         edits=[(PW, "    U = U0\n    for i in range(n_slices):\n", "    U = np.eye(len(U0), dtype=complex)\n    for i in range(n_slices):\n"),
                (PW, "        U = expm(-1j * dt * H) @ U\n    return U\n", "        U = expm(-1j * dt * H) @ U\n    return U0 @ U\n")],
         demo=PRE + '''
from scipy.linalg import expm
from quocslib.timeevolution.piecewise_integrator import pw_final_evolution
X, Z = np.array([[0, 1], [1, 0]], complex), np.diag([1.0, -1.0]).astype(complex)
d = np.array([[0.5, 1.5]])
U = pw_final_evolution(d, 0.3 * Z, [X], 2, 0.4, Z)
W = expm(-0.4j * (0.3 * Z + 1.5 * X)) @ expm(-0.4j * (0.3 * Z + 0.5 * X)) @ Z
print(np.abs(U - W).max()); sys.exit(0 if np.allclose(U, W) else 1)
'''),
    dict(id='c22-costate-slice', property='C22', needs='at least two slices with different amplitudes',
         what='the co-state is propagated backwards with the propagator of the previous slice',
         edits=[(GR, "        for t in reversed(range(n_slices)):\n            U = U_store[t]\n", "        for t in reversed(range(n_slices)):\n            U = U_store[max(t, 1) - 1] if t < n_slices - 1 else U_store[t]\n")],
         demo=PRE + '''
from scipy.linalg import expm
from quocslib.optimizationalgorithms.GRAPEAlgorithm import GRAPEAlgorithm
X, Z = np.array([[0, 1], [1, 0]], complex), np.diag([1.0, -1.0]).astype(complex)
g = GRAPEAlgorithm.__new__(GRAPEAlgorithm)
n, T = 4, 2.0
u = np.array([0.3, -0.8, 1.1, 0.4]); dt = T / n
Us = [expm(-1j * dt * (Z + a * X)) for a in u]
class C:
    def get_controls_lists(self, x): return [x], [np.linspace(0, T, n)], []
r0, rt = np.diag([1.0, 0]).astype(complex), np.array([[0.5, 0.5j], [-0.5j, 0.5]])
g.controls, g.propagator_func, g.n_slices, g.sys_type, g.control_Hamiltonians = C(), (lambda **k: Us), n, "StateTransfer", X
g.rho_storage, g.corho_storage = np.zeros((n + 1, 2, 2), complex), np.zeros((n + 1, 2, 2), complex)
g.rho_storage[0], g.corho_storage[-1] = r0, rt
got = g.get_gradient(u)
rho, want = r0, []
F = [r0]
for U in Us: F.append(U @ F[-1] @ U.conj().T)
B = [rt]
for U in reversed(Us): B.append(U.conj().T @ B[-1] @ U)
B = B[::-1]
want = [np.real(np.trace(1j * dt * B[t].conj().T @ (X @ F[t] - F[t] @ X))) for t in range(n)]
print(got, want); sys.exit(0 if np.allclose(got, want) else 1)
'''),
    dict(id='c23-grid-of-name', property='C23', needs='two pulses with the same configured name and different time grids',
         what='the time grid of a renamed pulse is saved under the original name and overwrites the first one',
         edits=[(BD, "            time_name = \"time_grid_for_\" + pulse_name\n", "            time_name = \"time_grid_for_\" + pulse_names[pulse_index]\n")],
         demo=PRE + '''
from quocslib.utils.BestDump import BestDump
d = BestDump(results_path=os.getcwd(), date_time="x")
d.dump_controls(pulses=[np.array([1.0]), np.array([2.0])], timegrids=[np.array([3.0]), np.array([4.0])], parameters=[], is_record=True, pulse_names=["P", "P"], FoM=1.0)
f = np.load("x_best_controls.npz"); v = sorted(float(f[k].ravel()[0]) for k in f.files if k.startswith(("P", "time")))
print(v); sys.exit(0 if v == [1.0, 2.0, 3.0, 4.0] else 1)
'''),
    dict(id='c23-only-better', property='C23', needs='a record with a larger figure of merit than the one saved before (drift compensation, re-evaluation)',
         what='a reported record is saved only if its figure of merit is not above the last saved one, so after a drift compensation the file holds old data',
         edits=[(BD, "        if not is_record:\n            return\n", "        if not is_record or kwargs.get(\"FoM\", 0.0) > self.saved_FoM:\n            return\n        self.saved_FoM = kwargs.get(\"FoM\", 0.0)\n"),
                (BD, "        self.dump_format = dump_format\n", "        self.dump_format = dump_format\n        self.saved_FoM = np.inf\n")],
         demo=PRE + '''
from quocslib.utils.BestDump import BestDump
d = BestDump(results_path=os.getcwd(), date_time="x", dump_format="json")
for k in (1.0, 2.0):
    d.dump_controls(pulses=[np.ones(3) * k], timegrids=[np.ones(3)], parameters=[], is_record=True, FoM=k)
ok = json.load(open("x_best_controls.json"))["FoM"] == 2.0
print(ok); sys.exit(0 if ok else 1)
'''),
    dict(id='c24-remove-after', property='C24', needs='a left-over figure-of-merit file and a partner that answers while the controls are still being written',
         what='the left-over file is removed only after the controls have been published, so a quick answer is deleted',
         edits=[(FU, "        # If FoM.txt file exists remove it\n        if os.path.exists(self.FoM_path):\n            os.remove(self.FoM_path)\n", ""),
                (FU, "        self.put_controls_into_user_path(pulses, timegrids, parameters)\n", "        self.put_controls_into_user_path(pulses, timegrids, parameters)\n        # If FoM.txt file exists remove it\n        if os.path.exists(self.FoM_path):\n            os.remove(self.FoM_path)\n")],
         demo=PRE + '''
import quocslib.utils.FilesUpdateFom as M
o = M.FilesUpdateFoM(controls_folder=".", FoM_folder=".", max_time=1)
open("FoM.txt", "w").write("9.0\\n")
w = M.writejsonfile
def quick(*a):
    w(*a); open("FoM.txt", "w").write("2.5\\n")
M.writejsonfile = quick
with contextlib.redirect_stdout(io.StringIO()): r = o.get_FoM([np.zeros(2)], [np.zeros(2)], [])
print(r); sys.exit(0 if r.get("FoM") == 2.5 else 1)
'''),
    dict(id='c24-last-value', property='C24', needs='an unreadable answer after a successful one',
         what='an unreadable answer yields the previous value without a status',
         edits=[(FU, "            return {\"FoM\": FoM, \"status_code\": -3}\n        return {\"FoM\": FoM}\n",
                 "            last = getattr(self, \"last_FoM\", None)\n            return {\"FoM\": FoM, \"status_code\": -3} if last is None else {\"FoM\": last}\n        self.last_FoM = FoM\n        return {\"FoM\": FoM}\n")],
         demo=PRE + '''
import quocslib.utils.FilesUpdateFom as M
o = M.FilesUpdateFoM(controls_folder=".", FoM_folder=".", max_time=1)
ans = iter(["1.5\\n", "oops\\n"])
w = M.writejsonfile
def quick(*a):
    w(*a); open("FoM.txt", "w").write(next(ans))
M.writejsonfile = quick
with contextlib.redirect_stdout(io.StringIO()): r = [o.get_FoM([np.zeros(2)], [np.zeros(2)], []) for _ in range(2)]
print(r); sys.exit(0 if r[1].get("status_code", 0) != 0 else 1)
'''),
    dict(id='c25-restart', property='C25', needs='an ensemble of two or more traces',
         what='later traces of an ensemble continue from the end of the previous trace',
         edits=[(OU, "            output[i, :] = self.get_noise_realization(T)\n", "            output[i, :] = self.get_noise_realization(T)\n            self.x0 = output[i, -1] if n_traj > 1 else self.x0\n")],
         demo=PRE + '''
import inspect
import quocslib.noiseprocesses.ornsteinuhlenbeckprocess as M
C = [v for k, v in vars(M).items() if inspect.isclass(v) and hasattr(v, "get_ensemble_noise_realization")][0]
o = C(tau=1.0, c=2.0, x0=0.7, dt=0.1)
out = o.get_ensemble_noise_realization(1.0, 3)
print(out[:, 0]); sys.exit(0 if np.allclose(out[:, 0], 0.7) else 1)
'''),
    dict(id='c26-swallow-repeat', property='C26', needs='the same vector proposed twice in a row to an objective that changes with time',
         what='a repeated proposal is answered from memory without calling the objective',
         edits=[(WR, "        self.calls_number[0] += 1\n        if len(self.args) == 0:\n            return self.function(*wrapper_args)\n",
                 "        self.calls_number[0] += 1\n        if len(self.args) == 0:\n            last = getattr(self, \"last\", None)\n            if last is not None and len(wrapper_args) == 2 and np.array_equal(last[0], wrapper_args[0]):\n                return last[1]\n            value = self.function(*wrapper_args)\n            self.last = (np.array(wrapper_args[0]), value)\n            return value\n")],
         demo=PRE + '''
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
n = []
def f(x, it): n.append(it); return float(len(n))
c, w = DirectSearchMethod._get_wrapper((), f)
r = [w(np.array([1.0, 2.0]), 1), w(np.array([1.0, 2.0]), 2)]
print(r, n); sys.exit(0 if r == [1.0, 2.0] and n == [1, 2] else 1)
'''),
    dict(id='c27-kind-fallback', property='C27', needs='a short name that is registered for another kind of building block',
         what='a name unknown for its kind is looked up among all kinds',
         edits=[(DI, "            if name in map_dict:\n", "            if name not in map_dict:\n                map_dict = {k: v for kind in total_dict.values() for k, v in kind.items()}\n            if name in map_dict:\n")],
         demo=PRE + '''
from quocslib.utils.dynamicimport import dynamic_import
with contextlib.redirect_stdout(io.StringIO()) as s: c = dynamic_import(name="NelderMead", class_type="basis")
print(c); sys.exit(0 if c is None and s.getvalue() else 1)
'''),
]
