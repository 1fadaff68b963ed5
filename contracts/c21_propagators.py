from pyvc.api import contract
from ._common import *

PW, PA = 'quocslib.timeevolution.piecewise_integrator', 'quocslib.timeevolution.piecewise_integrator_AD'
ASS = ['expm: the matrix exponential (scipy / jax)', 'matrices: any square matrices; associativity, distributivity and linearity over the complex numbers']


def system(F, K, n):
    A = F.mat('A')
    B = F.mats('B', K)
    drive = F.array('drive', (K, n), None, None) if F.sym or (K and n) else F.np.zeros((K, n))
    dt = F.real('dt', 0.0, 2.0)
    return A, B, drive, dt


def slice_exp(F, A, B, drive, dt, i, K):
    H = A
    for k in range(K):
        H = H + drive[k, i] * B[k]
    return F.expm(-1j * dt * H)


@contract('C21', functions=[PW + ':pw_evolution'], assumes=ASS, bound='up to three control Hamiltonians (any number of slices)', paths=200)
def stored_propagators(F):
    """each stored propagator is the exponential of its own slice, for every slice; nothing else is touched"""
    K, n = F.choice('controls', [1, 2, 3], more=[4, 6]), F.int('n', 1, 6)
    A, B, drive, dt = system(F, K, n)
    if not F.sym:
        drive = drive / (1 + abs(drive))
    more = F.int('spare', 0, 2)
    U = F.mat_store('U', n + more)
    old = U.copy()
    r = F.mod(PW).pw_evolution(U, drive, A, B, n, dt)
    F.ensure('storage size kept', F.eq(F.length(r), n + more))
    F.forall('slice exponential', n, lambda i: F.mat_eq(r[i], slice_exp(F, A, B, drive, dt, i, K)))
    F.forall('rest untouched', n + more, lambda i: F.implies(F.le(n, i), F.mat_eq(r[i], old[i])))
    F.forall('the storage itself is filled', n, lambda i: F.mat_eq(U[i], r[i]))


def final(F, ad, drive, A, B, n, dt, U0):
    if ad:
        if not F.sym:
            import jax
            jax.config.update('jax_enable_x64', True)
        return F.mod(PA).pw_final_evolution_AD(drive, A, B, n, dt, U0)
    return F.mod(PW).pw_final_evolution(drive, A, B, n, dt, U0)


def final_product(F, ad, loop):
    """loop invariant: after i slices the propagator is the product of the first i slice exponentials, later ones on the left"""
    K = F.choice('controls', [1, 2, 3], more=[4, 6])
    if not F.sym:
        return short_product(F, ad, K, F.int('n', 1, 6))
    n = F.int('n', 1)
    A, B, drive, dt = system(F, K, n)
    U0 = F.mat('U0')
    S = F.matfn('S')
    F.assume(F.mat_eq(S(0), U0))

    def hook(mode, loc, i):
        u = loc.val if ad else loc.U
        if mode == 'prove':
            F.ensure('product of the slices so far', F.mat_eq(u, S(i)))
        elif mode == 'havoc':
            return dict(val=S(i)) if ad else dict(U=S(i))
        elif not F.known(F.eq(i, n)):
            F.assume(F.mat_eq(S(i + 1), slice_exp(F, A, B, drive, dt, i, K) @ S(i)))
    hook.dead = ('H',)
    F.loop_manual(loop, hook)
    r = final(F, ad, drive, A, B, n, dt, U0)
    F.ensure('ordered product of all slices', F.mat_eq(r, S(n)))


def short_product(F, ad, K, n):
    if ad:
        F.assume(n > 0)  # the differentiable version indexes the pulses with a traced slice number: it needs at least one slice
    A, B, drive, dt = system(F, K, n)
    if not F.sym:
        drive = drive / (1 + abs(drive)) if drive.size else drive
    U0 = F.mat('U0')
    r = final(F, ad, drive, A, B, n, dt, U0)
    want = U0
    for i in range(n):
        want = slice_exp(F, A, B, drive, dt, i, K) @ want
    F.ensure('ordered product', F.mat_eq(r, want))
    if n:
        one = final(F, ad, drive, A, B, 1, dt, U0)
        F.ensure('leading slices only', F.mat_eq(one, slice_exp(F, A, B, drive, dt, 0, K) @ U0))


@contract('C21', functions=[PW + ':pw_final_evolution'], assumes=ASS, bound='up to three control Hamiltonians (any number of slices)', paths=200)
def final_propagator(F):
    final_product(F, False, 'pw_final_evolution#1')


@contract('C21', functions=[PA + ':pw_final_evolution_AD'], assumes=ASS + ['at least one slice', 'jit changes nothing; fori_loop iterates its body over the range (jax)'], bound='up to three control Hamiltonians (any number of slices)', paths=200)
def final_propagator_ad(F):
    final_product(F, True, 'fori_loop#1')


@contract('C21', functions=[PW + ':pw_final_evolution', PA + ':pw_final_evolution_AD'], assumes=ASS + ['at least one slice'], bound='up to three controls and four slices', supplement=True, paths=200)
def short_products(F):
    """the same for every concrete number of slices up to four, whatever the shape of the loop"""
    short_product(F, F.case('ad'), F.choice('controls', [1, 2, 3], more=[4, 6]), F.choice('n', [1, 2, 3, 4], more=[7, 12]))


class At:
    def __init__(self, s): self.s = s
    def __getitem__(self, i): return Place(self.s, i)


class Place:
    def __init__(self, s, i): self.s, self.i = s, i

    def set(self, m):
        s = self.s.copy()
        s[self.i] = m
        return s


class Immutable(list):
    """jax storage: .at[i].set(m) gives a new storage"""
    @property
    def at(self): return At(self)
    def copy(self): return Immutable(self)
    @property
    def shape(self): return (len(self),)


@contract('C21', functions=[PA + ':pw_evolution_AD'], assumes=ASS + ['at least one slice'], bound='up to three controls and four slices', supplement=True, paths=200)
def stored_propagators_ad(F):
    K, n = F.choice('controls', [1, 2, 3], more=[4, 6]), F.choice('n', [1, 2, 3, 4], more=[7, 12])
    A, B, drive, dt = system(F, K, n)
    if not F.sym:
        drive = drive / (1 + abs(drive)) if drive.size else drive
    more = F.choice('spare', [0, 1])
    U = [F.mat('U%d' % k) for k in range(n + more)]
    if F.sym:
        store = Immutable(U)
    else:
        import jax
        jax.config.update('jax_enable_x64', True)
        F.assume(len(U) > 0)
        store = jax.numpy.array(F.np.array(U))
    r = F.mod(PA).pw_evolution_AD(store, drive, A, B, n, dt)
    F.ensure('storage size kept', len(r) == n + more)
    for i in range(n + more):
        F.ensure('slice exponential', F.mat_eq(r[i], slice_exp(F, A, B, drive, dt, i, K) if i < n else U[i]))
