from pyvc.api import contract
from ._common import *
from ._alg import *

FN = [GR + ':GRAPEAlgorithm.__init__', GR + ':GRAPEAlgorithm.get_gradient', GR + ':GRAPEAlgorithm.inner_routine_call',
      'quocslib.tools.linearalgebra:commutator']
ASS = ['square matrices of one size (ring axioms, complex conjugation, cyclic trace); state transfer with one control Hamiltonian; '
       'complex states and Hamiltonians; the first-order adjoint expression as documented: Re tr(i dt chi_t^+ [B, rho_t])']


class System:
    """the user's quantum system: arbitrary propagators for each evaluation"""
    def __init__(self, F, n, stores, answer):
        self.F, self.stores, self.answer = F, stores, answer
        self.asked, self.seen = [], []
        self.rho0, self.target, self.A, self.B = F.mat('rho0'), F.mat('target'), F.mat('A'), F.mat('B')

    def get_propagator(self, pulses_list=None, time_grids_list=None, parameters_list=None):
        k = len(self.asked)
        self.asked.append((pulses_list, parameters_list, time_grids_list))
        return self.stores[k]

    def get_FoM(self, pulses=None, parameters=None, timegrids=None):
        self.seen.append((pulses, parameters, timegrids))
        return {"FoM": self.answer}

    def get_initial_state(self): return self.rho0
    def get_target_state(self): return self.target
    def get_drift_Hamiltonian(self): return self.A
    def get_control_Hamiltonians(self): return self.B


def dag(m):
    return m.T.conj()


def make(F, n, stores, pars=0, script=None):
    T = F.real('T', 0.1, 5.0)
    pulse = dict(pulse_name='u', bins_number=n, time_name='t', lower_limit=-2.0, upper_limit=2.0, amplitude_variation=0.1,
                 basis={"basis_name": "PiecewiseBasis", "bins_number": n})
    par = [dict(parameter_name='p', lower_limit=-5.0, upper_limit=5.0, initial_value=0.5, amplitude_variation=0.1)][:pars]
    conf = settings([pulse], [dict(time_name='t', initial_value=T)], par)
    s = System(F, n, stores, F.real('f', -10.0, 10.0))
    c, d, he = comm(F, s)
    m = F.mod(GR)
    F.patch(m, 'scipy', Minimizer(script))
    return m.GRAPEAlgorithm(optimization_dict=conf, communication_obj=c, FoM_object=s), s, T


def expression(F, s, T, n, rho, chi):
    """T: the last entry of the delivered time grid"""
    g = (1j * (T / n)) * (dag(chi) @ (s.B @ rho - rho @ s.B))
    return F.re(g.trace())


@contract('C22', functions=FN, assumes=ASS, bound='up to three slices', paths=200)
def gradient_of_few_slices(F):
    """every entry is the adjoint expression of its slice, also when propagated again with other propagators; cost and gradient see the same controls"""
    n = F.choice('slices', [1, 2, 3], more=[5, 9])
    pars = 0
    stores = [F.mats('U%d' % k, n) for k in range(2)]
    alg, s, T = make(F, n, stores, pars)
    for k in range(2):
        x = F.array('x%d' % k, n, -3.0, 3.0)
        if k and F.choice('request', ['any'], more=['close to the last one']) != 'any':
            x = keep + 1e-6 * x
        keep = x.copy()
        f, g = alg.inner_routine_call(x)
        F.ensure('cost is the evaluated figure of merit', F.eq(f, s.answer))
        F.ensure('one evaluation per request', len(s.seen) == k + 1 and len(s.asked) == k + 1)
        (p1, q1, t1), (p2, q2, t2) = s.asked[k], s.seen[k]
        F.ensure('one pulse, one time grid, no parameter', len(p1) == len(p2) == len(t1) == len(t2) == 1 and len(q1) == len(q2) == 0)
        F.vec_eq('same pulse', p1[0], p2[0])
        F.vec_eq('same time grid', t1[0], t2[0])
        F.vec_eq('the controls asked for', p1[0], F.np.maximum(F.np.minimum(keep, 2.0), -2.0))
        U = stores[k]
        rho, chi = [s.rho0], [s.target]
        for t in range(n):
            rho.append(U[t] @ rho[t] @ dag(U[t]))
            chi.append(dag(U[n - 1 - t]) @ chi[t] @ U[n - 1 - t])
        chi = chi[::-1]
        F.ensure('one entry per slice', F.eq(F.length(g), n))
        for t in range(n):
            F.ensure('gradient entry', F.eq(g[t], expression(F, s, t1[0][n - 1], n, rho[t], chi[t])))
        F.vec_eq('request untouched', x, keep)


@contract('C22', functions=FN[:2] + FN[3:], assumes=ASS + ['loops 1 and 2 of get_gradient by the stated invariants'], paths=200)
def gradient_of_any_number_of_slices(F):
    """forward and backward propagation by loop invariants, for every number of slices"""
    if not F.sym:
        return gradient_of_few_slices(F)
    n = F.int('n', 1)
    stores = [F.mat_store('U%d' % k, n) for k in range(2)]
    alg, s, T = make(F, n, stores)
    U = stores[0]
    rho, chi, junk = F.matfn('rho'), F.matfn('chi'), F.matfn('junk', 2)
    F.assume(F.mat_eq(rho(0), s.rho0))
    F.assume(F.mat_eq(chi(n), s.target))

    def forward(mode, loc, i):
        if mode == 'prove':
            F.forall('states so far', i + 1, lambda j: F.mat_eq(loc.rho_store[j], rho(j)))
            F.ensure('target in place', F.mat_eq(loc.corho_store[n], s.target))
            F.ensure('storages keep their size', F.and_(F.eq(F.length(loc.rho_store), n + 1), F.eq(F.length(loc.corho_store), n + 1)))
        elif mode == 'havoc':
            F.havoc(loc.rho_store, lambda j: F.ite(F.le(j, i), rho(j), junk(0, j)))
        elif not F.known(F.eq(i, n)):
            F.assume(F.mat_eq(rho(i + 1), stores[0][i] @ rho(i) @ dag(stores[0][i])))
    forward.dead = ('U', 't')

    def backward(mode, loc, i):
        if mode == 'prove':
            F.forall('co-states so far', i + 1, lambda j: F.mat_eq(loc.corho_store[n - j], chi(n - j)))
            F.forall('states stay', n + 1, lambda j: F.mat_eq(loc.rho_store[j], rho(j)))
            F.ensure('storages keep their size', F.and_(F.eq(F.length(loc.rho_store), n + 1), F.eq(F.length(loc.corho_store), n + 1)))
        elif mode == 'havoc':
            F.havoc(loc.corho_store, lambda j: F.ite(F.le(n - i, j), chi(j), junk(1, j)))
        elif not F.known(F.eq(i, n)):
            t = n - 1 - i
            F.assume(F.mat_eq(chi(t), dag(U[t]) @ chi(t + 1) @ U[t]))
    backward.dead = ('U', 't')
    F.loop_manual('get_gradient#1', forward)
    F.loop_manual('get_gradient#2', backward)
    g = alg.get_gradient(F.array('x', n))
    F.ensure('one entry per slice', F.eq(F.length(g), n))
    F.forall('gradient entry', n, lambda t: F.eq(g[t], expression(F, s, s.asked[0][2][0][n - 1], n, rho(t), chi(t))))
