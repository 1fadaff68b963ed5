BP = 'pulses/BasePulse.py'
PRE = '''
import sys, numpy as np
from quocslib.pulses.BasePulse import BasePulse
class B(BasePulse):
    control_parameters_number = 2
    def _get_shaped_pulse(self): return np.array(self.vals, dtype=float)
def make(vals, **k):
    p = B(map_index=-1, bins_number=len(vals), **k); p.vals = vals
    return p
'''
BUGS = [
    dict(id='c01-swap-magnitude', property='C01', needs='limits of unequal magnitude with the larger magnitude below zero',
         what='the two limits are ordered by magnitude, so an asymmetric negative interval is turned inside out',
         edits=[(BP, "        if self.amplitude_lower > self.amplitude_upper:\n", "        if abs(self.amplitude_lower) > abs(self.amplitude_upper):\n")],
         demo=PRE + """
o = make([-3.0, 0.2, 4.0], lower_limit=-2, upper_limit=1).get_pulse(np.zeros(2), 1.0)
print(o); sys.exit(0 if o.min() >= -2 and o.max() <= 1 and abs(o[1] - 0.2) < 1e-12 else 1)
"""),
    dict(id='c02-shrink-width', property='C02', needs='shrink mode, lower limit exceeded while the top stays inside',
         what='the contraction at the lower side is computed from the upper limit instead of the pulse maximum, so admissible maxima move',
         edits=[(BP, "                width_aim = abs(temp_max - lb)\n", "                width_aim = abs(min(temp_max, ub) - lb) * min(1.0, width_current / abs(ub - lb))\n")],
         demo=PRE + '''
o = make([-1.2, 0.0, 0.3], lower_limit=-1, upper_limit=1, shrink_ampl_lim=True).get_pulse(np.zeros(2), 1.0)
print(o); sys.exit(0 if abs(o.min() + 1) < 1e-9 else 1)
'''),
    dict(id='c03-guess-grid', property='C03', needs='an initial guess given as function of time and a second evaluation with another final time',
         what='the evaluated guess is cached for the first time grid, so later pulses with another duration are built from a stale guess',
         edits=[(BP, "            initial_guess_t = self.initial_guess_pulse(self.time_grid)\n",
                 "            cached = getattr(self, \"_guess_on_grid\", None)\n            if cached is None or len(cached) != len(self.time_grid):\n                cached = self._guess_on_grid = self.initial_guess_pulse(self.time_grid)\n            initial_guess_t = cached\n")],
         demo=PRE + '''
p = make([0.0, 0.0, 0.0], lower_limit=-9, upper_limit=9, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: t"})
p.get_pulse(np.zeros(2), 1.0); o = p.get_pulse(np.zeros(2), 4.0)
print(o); sys.exit(0 if np.allclose(o, [0, 2, 4]) else 1)
'''),
]
