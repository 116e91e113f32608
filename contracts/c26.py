"""C26: forces and force constants of the displaced-atom driver are derivatives of the free energy."""
import contextlib
import inspect
import types
import numpy as np
import elphmod
from engine.contract import contract, bounded
from elphmod import diagrams, el, elph, md, occupations as oc, ph
from . import gen
from .common import occupations, prod, pick

SMEARINGS = [oc.fermi_dirac, oc.gauss, oc.marzari_vanderbilt, oc.methfessel_paxton, oc.double_fermi_dirac, oc.lorentz]


def system(rng, dim, real=True, nat=None, no=None, w=1.0, neutral=True):
    """localised model of electrons, lattice, and consistent coupling: <0 a|dV(l)|R b>* = <0 b|dV(l - R)|-R a>"""
    nat = int(rng.integers(1, 3)) if nat is None else nat
    box = lambda n: np.array([x + (0,) * (3 - dim) for x in np.ndindex(*[2 * n + 1] * dim)]) - np.array([n] * dim + [0] * (3 - dim))
    R1, R2 = box(1), box(2)
    e = gen.electrons(rng, no=no, R=R1.copy(), rydberg=True)
    p = gen.phonons(rng, nat=nat, R=R1.copy(), divide_mass=False)
    o = {tuple(x): i for i, x in enumerate(R1)}[0, 0, 0]
    p.data[o] += np.eye(p.size) * 6
    D = np.zeros((len(R2), p.size, len(R1), e.size, e.size), dtype=complex)
    ix = {tuple(x): i for i, x in enumerate(R2)}
    iy = {tuple(x): i for i, x in enumerate(R1)}
    for l in R2:
        for R in R1:
            if abs(l).max() <= 1 and tuple(l - R) in ix:
                d = rng.normal(size=(p.size, e.size, e.size)) * 0.5 ** (abs(l).sum() + abs(R).sum())
                if not real:
                    d = d + 1j * rng.normal(size=d.shape) * 0.3
                D[ix[tuple(l)], :, iy[tuple(R)]] += d
                D[ix[tuple(l - R)], :, iy[tuple(-R)]] += d.conj().swapaxes(1, 2)
    D *= w
    if real:
        e.data = e.data.real.copy()
    m = gen.coupling(rng, e, p, R2.copy(), R1.copy())
    m.data[...] = D
    m.divide_mass = False
    return m


def mesh(rng, dim, hi=4):
    return tuple(int(x) for x in rng.integers(1, hi if dim == 1 else 3, size=dim))


def direction(rng, m):
    """displacement that keeps the centre of mass"""
    u = rng.normal(size=(m.ph.nat, 3))
    return (u - u.mean(axis=0)).ravel() if m.ph.nat > 1 else np.zeros(3)


def derivative(f, h):
    """two central differences, extrapolated, with an estimate of the error"""
    a, b, c = ((f(x) - f(-x)) / (2 * x) for x in (h, h / 2, h / 4))
    x, y = (4 * b - a) / 3, (4 * c - b) / 3
    return y, abs(x - y)


SMEARINGS = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton', 'double_fermi_dirac']


@contextlib.contextmanager
def settings():
    """converge the Fermi level tightly; double smearing with overlapping steps (only those converge reliably)"""
    f, d = oc.find_Fermi_level, oc.double_fermi_dirac.d
    keep = f.__defaults__
    names = [p.name for p in inspect.signature(f).parameters.values() if p.default is not inspect.Parameter.empty and p.kind is p.POSITIONAL_OR_KEYWORD]
    f.__defaults__ = tuple(1e-10 if n == 'tol' else x for n, x in zip(names, keep))
    oc.double_fermi_dirac.d = 1.0
    try:
        with gen.quiet():
            yield
    finally:
        f.__defaults__, oc.double_fermi_dirac.d = keep, d


def tolerance(base, *drivers):
    """forces are only as accurate as the number of electrons"""
    return base + 100 * max(abs(d.density().sum() - d.n) for d in drivers)


def driver(V, dim, f, real=True, unscreen=None, **kw):
    rng = V.rng
    m = system(rng, dim, real, nat=int(rng.choice([2, 2, 3])) if dim == 1 else 2)
    nk = mesh(rng, dim)
    nq = nk if rng.random() < 0.5 else tuple(int(rng.choice([d for d in range(1, n + 1) if n % d == 0])) for n in nk)
    kT = float(rng.uniform(0.2, 0.6))
    n = float(rng.uniform(0.2, 1.8) * m.el.size)
    unscreen = bool(rng.integers(2)) if unscreen is None else unscreen
    d = V.call(md.Driver, m, kT, f if callable(f) else getattr(oc, f), n, nk=nk, nq=nq, unscreen=unscreen, **kw)
    return m, d, n, kT


def energy(V, d, u):
    """free energy of displacements u"""
    return float(V.call(d.free_energy, u.copy(), show=False))


def force(V, d, u):
    energy(V, d, u)
    return np.array(V.call(d.jacobian, show=False))


CASES = [dict(f=f, dim=d) for f, d in zip(SMEARINGS, (1, 2, 1, 1, 1))] + [dict(f='fermi_dirac', dim=3)]


@bounded('C26', cases=CASES, trials=10, budget=120)
@settings()
def forces(V, f, dim):
    """any direction that keeps the centre of mass, at fixed number of electrons"""
    m, d, n, kT = driver(V, dim, f, real=bool(V.rng.integers(2)))
    u, v = 0.1 * direction(V.rng, m), direction(V.rng, m)
    x, err = derivative(lambda t: energy(V, d, u + t * v), 0.004)
    V.require(err < 1e-5)
    V.eq('force', force(V, d, u).dot(v), x, tol=tolerance(1e-6 + 10 * err, d))
    V.eq('number of electrons', V.call(d.density).sum(), n, tol=2e-5)
    V.holds('densities', np.shape(d.density()) == (m.el.size,))


@bounded('C26', cases=CASES, trials=10, budget=120)
@settings()
def force_constants(V, f, dim):
    m, d, n, kT = driver(V, dim, f, real=bool(V.rng.integers(2)))
    u, v, w = 0.1 * direction(V.rng, m), direction(V.rng, m), direction(V.rng, m)
    x, err = derivative(lambda t: force(V, d, u + t * v).dot(w), 0.004)
    V.require(err < 1e-5)
    energy(V, d, u)
    C = V.call(d.hessian)
    V.eq('symmetric', C, C.T, tol=1e-9)
    V.eq('derivative of the force', w.dot(C).dot(v), x, tol=tolerance(1e-5 + 10 * err, d))
    V.eq('only zone centre', V.call(d.hessian, gamma_only=False)[0].real, C, tol=1e-8)


@bounded('C26', cases=CASES, trials=10, budget=120)
@settings()
def unscreening(V, f, dim):
    """original force constants at all q points, stationary point without displacements"""
    m, d, n, kT = driver(V, dim, f, unscreen=True)
    D = np.array([m.ph.D(*q) for q in d.q])
    u = np.zeros(m.ph.size)
    V.eq('stationary', force(V, d, u), u, tol=tolerance(1e-8, d))
    V.eq('force constants', V.call(d.hessian, gamma_only=False), D, tol=tolerance(1e-7, d))
    V.eq('force constants at zone centre', V.call(d.hessian), D[0].real, tol=tolerance(1e-7, d))


@bounded('C26', trials=20)
@settings()
def centre_of_mass(V):
    rng = V.rng
    m, d, n, kT = driver(V, 1, 'fermi_dirac')
    u = rng.normal(size=m.ph.size)
    d.u = u.copy()
    V.call(d.center_mass)
    x, y = u.reshape((-1, 3)), d.u.reshape((-1, 3))
    V.eq('centre of mass', y.mean(axis=0), np.zeros(3), tol=1e-12)
    V.eq('relative displacements', y - y[0], x - x[0], tol=1e-12)
    V.call(d.random_displacements, amplitude=0.05)
    V.eq('centre of mass of random displacements', d.u.reshape((-1, 3)).mean(axis=0), np.zeros(3), tol=1e-12)
    V.holds('amplitude', np.any(d.u) and np.all(abs(d.u) <= 0.1))
    V.eq('energy independent of the centre of mass', energy(V, d, u), energy(V, d, u + np.tile(rng.normal(size=3), m.ph.nat)), tol=tolerance(1e-9, d))


@bounded('C26', cases=[dict(f=f) for f in SMEARINGS], trials=4, budget=120)
@settings()
def sparse_supercell(V, f):
    """sparse and dense supercell, and the primitive cell with a mesh of k points"""
    rng = V.rng
    dim = int(rng.integers(1, 3))
    m = system(rng, dim, nat=2)
    N = (int(rng.integers(2, 4)),) if dim == 1 else (2, int(rng.integers(1, 3)))
    kT, n = float(rng.uniform(0.2, 0.6)), float(rng.uniform(0.2, 1.8) * m.el.size)
    cells = int(np.prod(N))
    dense = V.call(md.Driver, V.call(m.supercell, *N), kT, getattr(oc, f), n * cells, unscreen=False)
    sparse = V.call(md.Driver, V.call(m.supercell, *N, sparse=True), kT, getattr(oc, f), n * cells, unscreen=False)
    prim = V.call(md.Driver, m, kT, getattr(oc, f), n, nk=N, unscreen=False)
    u = 0.1 * rng.normal(size=dense.elph.ph.size)
    u -= np.tile(u.reshape((-1, 3)).mean(axis=0), dense.elph.ph.nat)
    V.eq('free energy', energy(V, sparse, u), energy(V, dense, u), tol=tolerance(1e-8, dense, sparse))
    V.eq('force', force(V, sparse, u), force(V, dense, u), tol=tolerance(1e-7, dense, sparse))
    V.eq('density', V.call(sparse.density), V.call(dense.density), tol=tolerance(1e-7, dense, sparse))
    V.eq('number of electrons', V.call(sparse.density).sum(), n * cells, tol=2e-5 * cells)
    V.eq('Hessian', V.call(sparse.hessian), V.call(dense.hessian), tol=tolerance(1e-7, dense, sparse))
    # equal displacements in all cells
    v = 0.1 * direction(rng, m)
    w = np.tile(v, cells)
    V.eq('energy per cell', energy(V, sparse, w) / cells, energy(V, prim, v), tol=tolerance(1e-8, sparse, prim))
    V.eq('force per cell', force(V, sparse, w), np.tile(force(V, prim, v), cells), tol=tolerance(1e-7, sparse, prim))


@bounded('C26', trials=10, budget=120)
@settings()
def supercell_option(V):
    """unscreening on the primitive cell followed by a sparse simulation on the supercell"""
    rng = V.rng
    m = system(rng, 1, nat=2)
    N = int(rng.integers(2, 4))
    kT, n = float(rng.uniform(0.2, 0.6)), float(rng.uniform(0.2, 1.8) * m.el.size)
    f = getattr(oc, SMEARINGS[rng.integers(len(SMEARINGS))])
    d = V.call(md.Driver, m, kT, f, n, nk=(N,), nq=(N,), supercell=(N, 1, 1))
    u = np.zeros(d.elph.ph.size)
    V.eq('stationary', force(V, d, u), u, tol=tolerance(1e-8, d))
    D = m.ph.supercell(N, 1, 1).D()
    V.eq('original force constants', V.call(d.hessian), D.real, tol=tolerance(1e-7, d))
    V.eq('number of electrons', V.call(d.density).sum(), n * N, tol=2e-5 * N)


@bounded('C26', trials=10, budget=120)
@settings()
def photoexcitation(V):
    """two Fermi levels: fixed numbers of excited and of all electrons"""
    rng = V.rng
    m = system(rng, 1, nat=2, no=int(rng.integers(2, 4)), w=0.3)
    gap = np.diag(np.where(np.arange(m.el.size) < 1, -6.0, 6.0))
    m.el.data[[tuple(R) for R in m.el.R].index((0, 0, 0))] += gap
    nx = float(rng.uniform(0.1, 0.5))
    d = V.call(md.Driver, m, float(rng.uniform(0.2, 0.5)), oc.two_fermi_dirac, 2.0, nx=nx, nk=(int(rng.integers(1, 5)),), unscreen=False)
    u, v = 0.1 * direction(rng, m), direction(rng, m)
    V.eq('number of electrons', V.call(d.density).sum(), 2, tol=2e-5)
    x, err = derivative(lambda t: energy(V, d, u + t * v), 0.004)
    V.require(err < 1e-5)
    V.eq('force', force(V, d, u).dot(v), x, tol=tolerance(1e-6 + 10 * err, d))
    w = direction(rng, m)
    x, err = derivative(lambda t: force(V, d, u + t * v).dot(w), 0.004)
    V.require(err < 1e-5)
    energy(V, d, u)
    C = V.call(d.hessian)
    V.eq('symmetric', C, C.T, tol=1e-9)
    V.eq('derivative of the force', w.dot(C).dot(v), x, tol=tolerance(1e-5 + 10 * err, d))


@bounded('C26', trials=5, budget=120)
@settings()
def sparse_photoexcitation(V):
    rng = V.rng
    m = system(rng, 1, nat=2, no=2, w=0.3)
    m.el.data[[tuple(R) for R in m.el.R].index((0, 0, 0))] += np.diag([-6.0, 6.0])
    nx, kT, N = float(rng.uniform(0.1, 0.5)), float(rng.uniform(0.2, 0.5)), 3
    dense = V.call(md.Driver, V.call(m.supercell, N), kT, oc.two_fermi_dirac, 2.0 * N, nx=nx * N, unscreen=False)
    sparse = V.call(md.Driver, V.call(m.supercell, N, sparse=True), kT, oc.two_fermi_dirac, 2.0 * N, nx=nx * N, unscreen=False)
    u = 0.1 * direction(rng, dense.elph)
    V.eq('free energy', energy(V, sparse, u), energy(V, dense, u), tol=tolerance(1e-8, dense, sparse))
    V.eq('force', force(V, sparse, u), force(V, dense, u), tol=tolerance(1e-7, dense, sparse))
    V.eq('density', V.call(sparse.density), V.call(dense.density), tol=tolerance(1e-7, dense, sparse))
    V.eq('Hessian', V.call(sparse.hessian), V.call(dense.hessian), tol=tolerance(1e-7, dense, sparse))


@bounded('C26', cases=[dict(f=f) for f in SMEARINGS[:2]], trials=5, budget=120)
@settings()
def surface_average(V, f):
    """normalised sum over pairs of states of coupling products and broadened delta functions; derived quantities"""
    rng = V.rng
    m = system(rng, 1, nat=2)
    N = int(rng.integers(1, 4))
    kT, n = float(rng.uniform(0.2, 0.6)), float(rng.uniform(0.2, 1.8) * m.el.size)
    g = getattr(oc, f)
    d = V.call(md.Driver, V.call(m.supercell, N, sparse=True), kT, g, n * N, unscreen=False)
    dense = V.call(md.Driver, V.call(m.supercell, N), kT, g, n * N, unscreen=False)
    u = 0.1 * rng.normal(size=d.elph.ph.size)
    u -= np.tile(u.reshape((-1, 3)).mean(axis=0), d.elph.ph.nat)
    energy(V, dense, u)
    energy(V, d, u)
    e, U = dense.e[0, 0, 0], dense.U[0, 0, 0]
    D = np.einsum('am,xab,bn->xmn', U.conj(), dense.d0[0][:, 0, 0, 0], U)
    for T in (kT, float(rng.uniform(0.2, 1.0))):
        C, A = V.call(d.hessian, kT=T)
        V.eq('force constants', C, V.call(d.hessian), tol=1e-9)
        w = g.delta(e / T)
        w = np.outer(w, w)
        ref = np.einsum('xmn,ymn,mn->xy', D.conj(), D, w).real / w.sum()
        V.eq('average', A[0], ref, tol=tolerance(1e-6 * max(1, abs(ref).max()), d))
    x = V.call(dense.superconductivity, kT=T)
    for name, x, y in zip(('coupling', 'logarithmic average', 'second moment', 'smallest frequency'), V.call(d.superconductivity, kT=T), x):
        V.eq(name, x, y, tol=tolerance(1e-5 * max(1, abs(y)), d, dense))


def state(V, nq=1):
    """driver of an arbitrary system after construction"""
    nat, no = V.dim('nat', small=(1, 3)), V.dim('norb', small=(1, 3))
    nk = [V.dim('nk%d' % (i + 1), small=(1, 3 - i // 2)) for i in range(3)]
    size = 3 * nat
    d = object.__new__(md.Driver)
    d.sparse, d.interactive = False, False
    d.elph = types.SimpleNamespace(el=types.SimpleNamespace(size=no), ph=types.SimpleNamespace(nat=nat, size=size))
    d.kT = V.real('kT', pos=True, values=[0.2, 0.5])
    d.f = occupations(V, options=('fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton'))
    d.n, d.nx, d.mu = V.real('n', values=[0.3, 0.6, 0.8]), 0.0, None
    d.nk = np.array(nk) if not V.symbolic else V.build([3], lambda i: nk[int(i)], 'i')
    d.H0 = V.array('H0', [*nk, no, no], 'c')
    d.d0 = V.array('d0', [nq, size, *nk, no, no], 'c')
    d.C0 = V.array('C0', [nq, size, size], 'c')
    d.F0 = V.array('F0', [size])
    u = V.array('u', [size], mutable=True)
    return d, nk, no, nat, u


@contract('C26', trials=10)
def energy_and_force(V):
    """sums over states of the displaced system, and their dependence on the displacements"""
    d, nk, no, nat, u = state(V)
    mu = V.real('mu')
    if V.symbolic:
        V.stub('elphmod.occupations.find_Fermi_level', lambda n, e, kT, f, mu0: mu, 'chemical potential from find_Fermi_level (C13)')
    E = V.call(d.free_energy, u, show=False)
    u, e, f = V.getattr(d, 'u'), V.getattr(d, 'e'), d.f
    mu = V.getattr(d, 'mu')
    V.eq('free energy', E, 2 * V.sum([*nk, no], lambda *x: e[x] * V.call(f, e[x] / d.kT) - d.kT * V.call(f.entropy, e[x] / d.kT)) / prod(nk)
        + mu * d.n + V.sum(3 * nat, lambda x: d.F0[x] * u[x]) + V.sum([3 * nat, 3 * nat], lambda x, y: u[x] * V.re(d.C0[0, x, y]) * u[y]) / 2)
    F = V.call(d.jacobian, show=False)
    U = V.getattr(d, 'U')
    V.forall('force', [3 * nat], lambda x: (F[x], V.re(2 * V.sum([*nk, no, no, no], lambda i, j, k, m, a, b:
        V.call(f, e[i, j, k, m] / d.kT) * V.conj(U[i, j, k, a, m]) * d.d0[0, x, i, j, k, a, b] * U[i, j, k, b, m]) / prod(nk))
        + V.sum(3 * nat, lambda y: V.re(d.C0[0, x, y]) * u[y]) + d.F0[x]))
    V.forall('centre of mass is kept', [3], lambda x: (V.sum(nat, lambda a: u[3 * a + x]), 0))
    if V.symbolic:
        H = V.build([*nk, no, no], lambda i, j, k, a, b: d.H0[i, j, k, a, b] + V.sum(3 * nat, lambda x: d.d0[0, x, i, j, k, a, b] * u[x]), 'c')
        e0, U0 = V.np(np.linalg.eigh, H)
        V.forall('energies', [*nk, no], lambda *x: (e[x] + mu, e0[x]))
        V.forall('states', [*nk, no, no], lambda *x: (U[x], U0[x]))


@contract('C26', trials=10)
def density(V):
    d, nk, no, nat, u = state(V)
    d.e, d.U = V.array('e', [*nk, no]), V.array('U', [*nk, no, no], 'c')
    e, U = d.e, d.U
    f = lambda *x: V.call(d.f, e[x] / d.kT)
    rho = V.call(d.density)
    V.forall('density', [no], lambda a: (rho[a], 2 * V.sum([*nk, no], lambda i, j, k, m: f(i, j, k, m) * V.re(U[i, j, k, a, m] * V.conj(U[i, j, k, a, m]))) / prod(nk)))


@contract('C26', trials=10)
def collective_motion(V):
    d, nk, no, nat, u = state(V)
    old = u.copy()
    d.u = u
    V.call(d.center_mass)
    u = V.getattr(d, 'u')
    V.forall('no collective displacement', [3], lambda x: (V.sum(nat, lambda a: u[3 * a + x]), 0))
    V.forall('same relative displacements', [nat, nat, 3], lambda a, b, x: (u[3 * a + x] - u[3 * b + x], old[3 * a + x] - old[3 * b + x]))


@contract('C26', cases=[dict(gamma=g, rule=r) for g, r in ((True, False), (False, False), (False, True))], trials=10)
def hessian(V, gamma, rule):
    """bare force constants + self-energy from the perturbed states + response of the Fermi level"""
    nq = 1 if gamma else V.dim('nq', small=(1, 3))
    d, nk, no, nat, u = state(V, nq)
    size = 3 * nat
    e = V.array('e', [*nk, no])
    U = V.array('U', [*nk, no, no], 'c')
    d.e, d.U = e, U
    points = V.array('Q', [nq, 3], 'i') if V.symbolic else V.array('Q', [nq, 3], 'i', lo=-4, hi=4)
    Q = V.build([nq, 3], lambda i, j: V.ite(V.eqv(i, 0), 0, lambda: points[i, j]), 'i')
    q = V.build([nq, 3], lambda i, j: 2 * V.pi * V.num(Q[i, j]) / pick(nk, j))
    d.q = q
    d.node, d.images, d.d = V.call(elphmod.MPI.shared_array, (nq, size, *nk, no, no), dtype=complex)

    def g(iq, x, i, j, k, m, n):
        kq = [(K + Q[iq, c]) % nk[c] for c, K in enumerate((i, j, k))]
        return V.sum([no, no], lambda a, b: V.conj(U[(*kq, a, m)]) * d.d0[iq, x, i, j, k, a, b] * U[i, j, k, b, n])

    if V.symbolic:
        P = V.array('P', [nq, size, size], 'c')
        S = V.array('S', [size, size], 'c')

        def self_energy(q_, e_, g=None, kT=None, occupations=None, eps=None):
            V.holds('same system', e_ is e and kT is d.kT and occupations is d.f)
            V.forall('q points', [nq, 3], lambda i, j: (q_[i, j], q[i, j]))
            V.forall('coupling', g_shape, lambda *x: (g[x], G(*x)))
            return P.copy()

        def shift(e_, g, kT=None, occupations=None):
            V.holds('same system', e_ is e and kT is d.kT and occupations is d.f)
            V.forall('coupling at q = 0', g_shape[1:], lambda *x: (g[x], G(0, *x)))
            return S.copy()
        G, g_shape = g, [nq, size, *nk, no, no]
        V.stub('elphmod.diagrams.phonon_self_energy', self_energy, 'phonon self-energy (C14)')
        V.stub('elphmod.diagrams.phonon_self_energy_fermi_shift', shift, 'phonon self-energy (C14)')
        C = V.call(d.hessian, gamma_only=gamma, apply_asr_simple=rule)
    else:
        C = V.call(d.hessian, gamma_only=gamma, apply_asr_simple=rule)
        G = V.build([nq, size, *nk, no, no], g, 'c')
        P = diagrams.phonon_self_energy(q, e, g=G, kT=d.kT, occupations=d.f)
        S = diagrams.phonon_self_energy_fermi_shift(e, G[0], kT=d.kT, occupations=d.f)
    full = lambda i, x, y: d.C0[i, x, y] + P[i, x, y] + V.ite(V.eqv(i, 0), lambda: S[x, y], 0)
    if gamma:
        V.forall('force constants', [size, size], lambda x, y: (C[x, y], V.re(full(0, x, y))))
    elif rule:
        V.forall('simple sum rule', [nq, nat, 3, nat, 3], lambda i, a, x, b, y: (C[i, 3 * a + x, 3 * b + y],
            full(i, 3 * a + x, 3 * b + y) - V.ite(V.eqv(a, b), lambda: V.sum(nat, lambda c: full(i, 3 * a + x, 3 * c + y)), 0)))
    else:
        V.forall('force constants', [nq, size, size], lambda *x: (C[x], full(*x)))


@contract('C26', cases=[dict(f=f) for f in [*SMEARINGS, 'two_fermi_dirac']], trials=15)
def force_is_derivative(V, f):
    """along any path, the energy of a level of energy y kT at the chemical potential y m changes as the forces on it (energy
    and force are sums over levels according to energy_and_force; the term with m vanishes for the right number of electrons)"""
    kT = V.real('kT', pos=True, values=[0.2, 0.5])
    x = V.real('x', values=[-7.5, -3.0, -1.0, -0.5, -0.1, 0.1, 0.5, 1.0, 2.25, 3.0, 7.5])
    V.require(V.and_(x < 600, -x < 600))
    if f == 'two_fermi_dirac':
        V.require(V.ne(x, 0))
    n, m = V.real('n'), V.real('m')
    u0, v, F0 = [V.array(s, [3]) for s in ('u0', 'v', 'F0')]
    A = V.array('A', [3, 3])
    C0 = V.build([1, 3, 3], lambda _, i, j: A[i, j] + A[j, i], 'c')
    occ = getattr(elphmod.occupations, f)
    if V.symbolic:
        V.stub('elphmod.md.Driver.diagonalize', lambda self: None, 'eigenvalues as a function of the displacement (Hellmann-Feynman theorem)')

    def energy(y):
        d = object.__new__(md.Driver)
        d.interactive, d.sparse = False, False
        d.kT, d.f, d.n, d.nx, d.C0, d.F0 = kT, occ, n, 0.0, C0, F0
        d.nk = np.ones(3, dtype=int)
        d.u = V.build([3], lambda i: u0[i] + y * v[i])
        d.e, d.mu = V.build([1, 1, 1, 1], lambda *i: y * kT), y * m
        if not V.symbolic:
            d.diagonalize = lambda: None
        return V.call(d.free_energy, show=False)
    h = kT + m
    N = 2 * V.call(occ, x)
    V.deriv('force', energy, x, N * h + m * (n - N) + sum(v[i] * (F0[i] + sum(V.re(C0[0, i, j]) * (u0[j] + x * v[j]) for j in range(3))) for i in range(3)))

class Sampled:
    """model of the coupling that has been sampled already"""
    engine_ok = True

    def __init__(self, V, d0):
        self.V, self.d0 = V, d0

    def __call__(self, *args, **kwargs):
        return self.V.mutable('d0', self.d0)


@contract('C26', cases=[dict(unscreen=u) for u in (True, False)], trials=8)
def undistorted(V, unscreen):
    """at the structure the driver has been set up for, forces vanish and force constants are those of the model"""
    nat, no = V.dim('nat', small=(1, 2)), V.dim('norb', small=(1, 2))
    nk = [V.dim('nk%d' % (i + 1), small=(1, 2)) for i in range(3)]
    nq = V.dim('nq1', small=(1, 1))
    size = 3 * nat
    kT = V.real('kT', pos=True, values=[0.2, 0.5])
    f = occupations(V, options=('fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton'))
    n = V.real('n', values=[0.3, 0.6, 0.8])
    A = V.array('A', [*nk, no, no], 'c')
    H0 = V.build([*nk, no, no], lambda i, j, k, a, b: A[i, j, k, a, b] + V.conj(A[i, j, k, b, a]), 'c')
    C0 = V.array('C0', [nq, size, size], 'c')
    d0 = V.array('d0', [nq, size, *nk, no, no], 'c')
    at = lambda k, n: tuple(int(round(x * m / 2 / np.pi)) % m for x, m in zip([*k, 0, 0, 0], n))
    el = types.SimpleNamespace(size=no, rydberg=True, H=lambda *k: H0[at(k, nk)])
    ph = types.SimpleNamespace(size=size, nat=nat, divide_mass=False, D=lambda *q: C0[at(q, (nq,))])
    model = types.SimpleNamespace(el=el, ph=ph, divide_mass=False, sample=Sampled(V, d0))
    if V.symbolic:
        P, S, mu = V.array('P', [nq, size, size], 'c'), V.array('S', [size, size], 'c'), V.real('mu')
        V.stub('elphmod.occupations.find_Fermi_level', lambda *a: mu, 'chemical potential from find_Fermi_level (C13)')
        V.stub('elphmod.dispersion.sample', lambda g, k: V.mutable('H', H0) if g is el.H else V.mutable('C', C0), 'sampled matrices (C10, C02)')
        V.stub('elphmod.diagrams.phonon_self_energy', lambda *a, **k: P.copy(), 'phonon self-energy (C14)')
        V.stub('elphmod.diagrams.phonon_self_energy_fermi_shift', lambda *a, **k: S.copy(), 'phonon self-energy (C14)')
    d = V.call(md.Driver, model, kT, f, n, nk=tuple(nk), nq=(nq,), unscreen=unscreen)
    F = V.call(d.jacobian, show=False)
    V.forall('forces', [size], lambda x: (F[x], 0))
    C = V.call(d.hessian, gamma_only=False)
    if not V.symbolic:
        e, U = np.linalg.eigh(H0)
        e -= d.mu
        g = np.zeros((nq, size, *nk, no, no), dtype=complex)
        for iq in range(nq):
            g[iq] = np.roll(U.conj().swapaxes(-2, -1), -iq * nk[0] // nq, axis=0) @ d0[iq] @ U
        P = diagrams.phonon_self_energy(d.q, e, g=g, kT=kT, occupations=f)
        S = diagrams.phonon_self_energy_fermi_shift(e, g[0], kT=kT, occupations=f)
    V.forall('force constants', [nq, size, size], lambda i, x, y: (C[i, x, y],
        C0[i, x, y] + (0 if unscreen else P[i, x, y] + V.ite(V.eqv(i, 0), lambda: S[x, y], 0))))
