CO, PA, DC = 'Controls.py', 'parameters/BaseParameter.py', 'optimizationalgorithms/dCRABAlgorithm.py'
PRE = '''
import sys, os, numpy as np
from quocslib.Controls import Controls
from quocslib.pulses.basis.PiecewiseBasis import PiecewiseBasis
from quocslib.pulses.basis.Fourier import Fourier
def pulse(name, bins, time="t1", **k):
    return dict(dict(pulse_name=name, time_name=time, bins_number=bins, lower_limit=-50.0, upper_limit=50.0, amplitude_variation=0.5,
        basis={"basis_attribute": PiecewiseBasis}), **k)
def fourier(name, bins, vecs, time="t1", **k):
    return pulse(name, bins, time, basis={"basis_attribute": Fourier, "basis_vector_number": vecs,
        "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 3.0}}, **k)
def time(name, v): return {"time_name": name, "initial_value": v, "is_optimization": False}
def par(name, v=0.3, lo=-1.0, hi=1.0): return dict(parameter_name=name, lower_limit=lo, upper_limit=hi, initial_value=v, amplitude_variation=0.2)
'''
BUGS = [
    dict(id='c05-one-sided', property='C05', needs='a proposal above the upper limit while the current value already sits on the upper limit',
         what='a value clipped at the top is not re-checked the next time, so it escapes the interval',
         edits=[(PA, "        self.value = self._check_limits(parameter)\n",
                 "        parameter_on_limit = bool(self.value == self.upper_limit)\n        self.value = self._maximum(self.lower_limit, parameter) if parameter_on_limit else self._check_limits(parameter)\n")],
         demo=PRE + '''
from quocslib.parameters.BaseParameter import BaseParameter
p = BaseParameter(lower_limit=0.0, upper_limit=1.0, initial_value=0.5)
v = [float(p.get_parameter(np.array([x]))) for x in (3.0, 4.0, -2.0)]
print(v); sys.exit(0 if v == [1.0, 1.0, 0.0] else 1)
'''),
    dict(id='c06-last-index', property='C06', needs='a chopped-basis pulse in front of a parameter after the basis has been drawn',
         what='the re-assignment of the indices starts each parameter at the index after the last pulse, so several parameters share one entry',
         edits=[(CO, "            parameter_obj.set_control_parameters_list(map_index)\n            # Update the map index for the next control\n            map_index = parameter_obj.last_index\n        ###############################################\n        # Times\n        ###############################################\n        # TODO Implement the time optimization here\n        # Return the control parameters number\n\n    def get_random",
                 "            parameter_obj.set_control_parameters_list(map_index)\n        ###############################################\n        # Times\n        ###############################################\n        # TODO Implement the time optimization here\n        # Return the control parameters number\n\n    def get_random")],
         demo=PRE + '''
c = Controls([fourier("p", 5, 2)], [time("t1", 1.0)], [par("a"), par("b")])
c.select_basis()
ix = [list(o.control_parameters_list) for o in c.pulse_objs_list + c.parameter_objs_list]
print(ix); sys.exit(0 if sum(ix, []) == list(range(6)) else 1)
'''),
    dict(id='c07-bare-time', property='C07', needs='two pulses with different final times and bare controls',
         what='the bare pulses are all built with the final time of the last configured time',
         edits=[(CO, "        bare_OC_pulses_list = []\n", "        bare_OC_pulses_list = []\n        times = {name: obj.get_time() for name, obj in self.times_obj_dictionary.items()}\n        final_time = max(times.values()) if times else None\n"),
                (CO, "                pulse.get_bare_pulse(optimized_parameters_vector[pulse.control_parameters_list],\n                                     final_time=self.times_obj_dictionary[time_name].get_time()))",
                 "                pulse.get_bare_pulse(optimized_parameters_vector[pulse.control_parameters_list],\n                                     final_time=final_time))")],
         demo=PRE + '''
from quocslib.pulses.basis.Chebyshev import Chebyshev
import quocslib.pulses.basis.Sinc as S
b = {"basis_attribute": S.Sinc, "basis_vector_number": 2, "basis_max": 3.0, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 3.0}}
c = Controls([pulse("p", 5, "t1", basis=b), pulse("q", 5, "t2", basis=dict(b))], [time("t1", 1.0), time("t2", 3.0)], [])
np.random.seed(1); c.select_basis()
x = np.array([0.5, -1.0, 2.0, 0.7])
bare, full = c.get_bare_controls_lists(x), c.get_controls_lists(x)[0]
print(bare, full); sys.exit(0 if all(np.allclose(a, f) for a, f in zip(bare, full)) else 1)
'''),
    dict(id='c07-stale-parameter', property='C07', needs='two parameters with a pulse in front, the second evaluation of a vector',
         what='the parameter value of the previous evaluation is delivered',
         edits=[(CO, "            parameters_list.append(\n                parameter.get_parameter(optimized_parameters_vector[parameter.control_parameters_list]))\n\n        return pulses_list",
                 "            value = parameter.value if getattr(parameter, 'delivered', None) is optimized_parameters_vector else parameter.get_parameter(\n                optimized_parameters_vector[parameter.control_parameters_list])\n            parameter.delivered = optimized_parameters_vector\n            parameters_list.append(value)\n\n        return pulses_list")],
         demo=PRE + '''
c = Controls([pulse("p", 2)], [time("t1", 1.0)], [par("a"), par("b")])
x = np.array([1.0, 2.0, 0.1, 0.2])
a = [float(v) for v in c.get_controls_lists(x)[2]]
x[2:] = [0.7, -0.4]
b = [float(v) for v in c.get_controls_lists(x)[2]]
print(a, b); sys.exit(0 if np.allclose(a, [0.1, 0.2]) and np.allclose(b, [0.7, -0.4]) else 1)
'''),
    dict(id='c08-parameters-skipped', property='C08', needs='dCRAB with a scalar parameter and a super-iteration whose last evaluation was not its best',
         what='the base update does not set the parameters, so the next super-iteration starts from the last evaluated instead of the best values',
         edits=[(CO, "            parameter.set_parameter(optimized_parameters_vector[parameter.control_parameters_list])\n\n    def _get_controls_lists",
                 "            if not self.pulse_objs_list:\n                parameter.set_parameter(optimized_parameters_vector[parameter.control_parameters_list])\n\n    def _get_controls_lists")],
         demo=PRE + '''
c = Controls([fourier("p", 5, 1)], [time("t1", 1.0)], [par("a")])
c.select_basis()
best = np.array([0.3, 0.1, 0.5])
p, _, q = c.get_controls_lists(best)
c.get_controls_lists(np.array([0.0, 0.0, -0.9]))
c.update_base_controls(best)
p2, _, q2 = c.get_controls_lists(c.get_mean_value())
print(q, q2); sys.exit(0 if np.allclose(p, p2) and np.allclose(q, q2) else 1)
'''),
    dict(id='c09-shared-draw', property='C09', needs='two or more random super-parameters',
         what='one random number is used for all strata but the first, so the super-parameters are not independent draws',
         edits=[('pulses/superparameter/Uniform.py', "            self.w[i] = a + i * k_bins + k_bins * random_array[i]\n", "            self.w[i] = a + i * k_bins + k_bins * random_array[min(i, 1)]\n")],
         demo=PRE + '''
from quocslib.pulses.superparameter.Uniform import Uniform
class R:
    def get_random_numbers(self, n): return np.linspace(0.1, 0.9, n)
u = Uniform(4, dict(lower_limit=0.0, upper_limit=4.0), rng=R()); u.set_random_super_parameter()
print(u.w); sys.exit(0 if np.allclose(u.w, np.arange(4) + np.linspace(0.1, 0.9, 4)) else 1)
'''),
    dict(id='c11-gram-schmidt-window', property='C11', needs='a search space of four or more dimensions with unequal spreads',
         what='each column is only orthogonalised against its last two predecessors',
         edits=[('tools/linearalgebra.py', "        for k in range(j):\n", "        for k in range(max(0, j - 2), j):\n")],
         demo=PRE + '''
from quocslib.tools.linearalgebra import simplex_creation
np.random.seed(3)
s = np.array([0.5, 2.0, 1.0, 3.0, 0.1]); m = np.arange(5.0)
M = (simplex_creation(m.copy(), s.copy()) - m)[1:] / s
print(M @ M.T); sys.exit(0 if np.allclose(M @ M.T, np.eye(5)) else 1)
'''),
]
