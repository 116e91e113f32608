"""C16: grand potential, first-order diagram, triangle and related sums equal their definitions."""
import numpy as np
from engine.contract import contract, bounded
from .common import occupations, mesh, qpoints, fold, prod, energies
from .c15 import qpoint, shift
import elphmod
from elphmod import diagrams
from elphmod import occupations as smearings


@contract('C16', cases=[dict(dim=d) for d in (1, 2, 3)], trials=10)
def grand_potential(V, dim):
    nk, nb = mesh(V, dim), V.dim('nbnd', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.025, 0.1, 0.3])
    e = energies(V, nk, nb)
    occ = occupations(V, options=('gauss', 'marzari_vanderbilt', 'methfessel_paxton', 'two_fermi_dirac'))
    O = V.call(diagrams.grand_potential, e, kT=kT, occupations=occ)
    V.eq('U - T S', O, 2 * V.sum([*nk, nb], lambda *x: e[x] * V.call(occ, e[x] / kT) - kT * V.call(occ.entropy, e[x] / kT)) / prod(nk))


SMEARINGS = ('fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton', 'double_fermi_dirac', 'two_fermi_dirac')


def single(V, E, kT, occ):
    """grand potential of a single state"""
    return V.call(diagrams.grand_potential, V.build([1, 1], lambda i, j: E), kT=kT, occupations=occ)


@contract('C16', cases=[dict(f=f, dim=d) for f, d in zip(SMEARINGS, (1, 2, 3, 1, 2, 3))], trials=10)
def additivity(V, f, dim):
    """the grand potential is the average over k of the sum of the grand potentials of all states"""
    occ = getattr(smearings, f)
    nk, nb = mesh(V, dim), V.dim('nbnd', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.025, 0.1, 0.3])
    e = energies(V, nk, nb)
    V.eq('sum over states', V.call(diagrams.grand_potential, e, kT=kT, occupations=occ),
         V.sum([*nk, nb], lambda *x: single(V, e[x], kT, occ)) / prod(nk))


@contract('C16', cases=[dict(f=f) for f in SMEARINGS], trials=20)
def number_of_electrons(V, f):
    """the derivative of each contribution with respect to the energy is the number of electrons (two spins)"""
    occ = getattr(smearings, f)
    kT = V.real('kT', pos=True, values=[0.2, 0.5])
    x = V.real('x', values=[-7.5, -3.0, -1.0, -0.5, -0.1, 0.1, 0.5, 1.0, 2.25, 3.0, 7.5])
    V.require(V.and_(x < 600, -x < 600))
    if f == 'two_fermi_dirac':
        V.require(V.ne(x, 0))
    V.deriv('d Omega / d energy = N', lambda y: single(V, y * kT, kT, occ) / kT, x, 2 * V.call(occ, x))


@contract('C16', cases=[dict(dim=d, orbital=o) for d in (1, 2, 3) for o in (False, True)], trials=10)
def first_order(V, dim, orbital):
    nk, nb, nm = mesh(V, dim), V.dim('nbnd', small=(1, 2)), V.dim('nmodes', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.025, 0.1, 0.3])
    e = energies(V, nk, nb)
    occ = occupations(V)
    if orbital:
        no = V.dim('norb', small=(1, 3))
        U = V.array('U', [*nk, no, nb], 'c')
        g = V.array('g', [nm, *nk, no, no], 'c')
        F = V.call(diagrams.first_order, e, g, kT=kT, U=U, occupations=occ)
        V.forall('trace', [nm], lambda v: (F[v], 2 * V.sum([*nk, nb, no, no], lambda *x: (
            V.call(occ, e[x[:dim + 1]] / kT) * V.conj(U[(*x[:dim], x[-2], x[dim])]) * g[(v, *x[:dim], x[-2], x[-1])]
            * U[(*x[:dim], x[-1], x[dim])])) / prod(nk)))
    else:
        g = V.array('g', [nm, *nk, nb, nb], 'c')
        F = V.call(diagrams.first_order, e, g, kT=kT, occupations=occ)
        V.forall('trace', [nm], lambda v: (F[v], 2 * V.sum([*nk, nb], lambda *x: (
            V.call(occ, e[x] / kT) * g[(v, *x, x[-1])])) / prod(nk)))


@contract('C16', cases=[dict(dim=d) for d in (1, 2, 3)], trials=15, budget=240)
def triangle(V, dim):
    nk, nb = mesh(V, dim), V.dim('nbnd', small=(1, 2))
    kT = V.real('kT', pos=True, values=[0.1, 0.3])
    eps = V.real('eps', pos=True, values=[1e-10, 1e-10, 0.15])
    e = energies(V, nk, nb)
    occ = occupations(V)
    Q1, q1 = qpoint(V, nk, 'q')
    Q2, q2 = qpoint(V, nk, 'Q')
    gq, gQ, gqQ = [V.array(x, [*nk, nb, nb], 'c') for x in ('gq', 'gQ', 'gqQ')]
    chi, chi_k = V.call(diagrams.triangle, q1, q2, e, gq, gQ, gqQ, kT=kT, eps=eps, occupations=occ, fluctuations=True)

    def loop(x, y, z):
        """second divided difference of the occupation function, with all its limits"""
        ea, eb, ec = e[x], e[y], e[z]
        f = lambda E: V.call(occ, E / kT)
        d = lambda E: V.call(occ.delta, E / kT) / kT
        p = lambda E: V.call(occ.delta_prime, E / kT) / kT ** 2
        la, lb, lc = V.abs(eb - ec) > eps, V.abs(ec - ea) > eps, V.abs(ea - eb) > eps
        one = lambda c1, c2: (d(c1) - (f(c1) - f(c2)) / (c2 - c1)) / (c2 - c1)
        return V.ite(la, lambda: V.ite(lb, lambda: V.ite(
            lc, lambda: (ea * (f(eb) - f(ec)) + eb * (f(ec) - f(ea)) + ec * (f(ea) - f(eb))) / ((eb - ec) * (ec - ea) * (ea - eb)),
            lambda: one(ea, ec)),
            lambda: V.ite(lc, lambda: one(ec, eb), lambda: -p(ea) / 2)),
            lambda: V.ite(V.and_(lb, lc), lambda: one(eb, ea), lambda: -p(ea) / 2))

    def term(k, a, b, c):
        kq, kQ = shift(Q1, k, nk), shift(Q2, k, nk)
        return (4 * loop((*k, a), (*kq, b), (*kQ, c)) * V.conj(gq[(*k, b, a)]) * gQ[(*k, c, a)] * gqQ[(*kQ, b, c)])
    V.forall('k-resolved', [*nk, nb, nb, nb], lambda *x: (chi_k[x], term(x[:dim], *x[dim:])))
    V.eq('total', chi, V.sum([*nk, nb, nb, nb], lambda *x: term(x[:dim], *x[dim:])) / prod(nk))
    V.eq('same without fluctuations', V.call(diagrams.triangle, q1, q2, e, gq, gQ, gqQ, kT=kT, eps=eps, occupations=occ), chi)


@contract('C16', cases=[dict(dim=d, coupling=c) for d, c in [(1, True), (2, True), (3, True), (2, False)]], trials=10)
def double_fermi_surface_average(V, dim, coupling):
    nk, nb = mesh(V, dim), V.dim('nbnd', small=(1, 2))
    nm, nQ = V.dim('nmodes', small=(1, 2)), V.dim('nQ', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.1, 0.3])
    e = energies(V, nk, nb)
    occ = occupations(V)
    Q, q = qpoints(V, nQ, nk)
    g2 = V.array('g2', [nQ, nm, *nk, nb, nb]) if coupling else None
    num, den = V.call(diagrams.double_fermi_surface_average, q, e, g2, kT=kT, occupations=occ)

    def d2(i, x):
        k = x[:dim]
        return V.call(occ.delta, e[(*k, x[-1])] / kT) * V.call(occ.delta, e[(*fold(Q, i, k, nk), x[-2])] / kT) / kT ** 2
    V.forall('denominator', [nQ], lambda i: (den[i], V.sum([*nk, nb, nb], lambda *x: d2(i, x))))
    if coupling:
        V.forall('enumerator', [nQ, nm], lambda i, v: (
            num[i, v], V.sum([*nk, nb, nb], lambda *x: g2[(i, v, *x)] * d2(i, x))))
    else:
        V.forall('enumerator', [nQ], lambda i: (num[i, 0], V.sum([*nk, nb, nb], lambda *x: d2(i, x))))


@contract('C16', cases=[dict(dim=d) for d in (1, 2, 3)], trials=10)
def fan_migdal(V, dim):
    nq, nb, nm = mesh(V, dim), V.dim('nbnd', small=(1, 2)), V.dim('nmodes', small=(1, 2))
    nK, nw = V.dim('nK', small=(1, 3)), V.dim('nomega', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.1, 0.3])
    e = energies(V, nq, nb)
    w = V.array('w', [*nq, nm], pos=True) if V.symbolic else V.array('w', [*nq, nm], values=[0.1, 0.3, 0.17])
    omega = V.array('omega', [nw], 'c') if V.symbolic else V.array('omega', [nw], 'c', values=[0.3 + 0.1j, -0.2 + 0.2j, 0.4j])
    g2 = V.array('g2', [*nq, nm, nK, nb, nb])
    occ = occupations(V)
    K, k = qpoints(V, nK, nq)
    S = V.call(diagrams.fan_migdal_self_energy, k, e, w, g2, omega, kT=kT, occupations=occ)

    def term(i, n, o, x):
        q, v, m = x[:dim], x[-2], x[-1]
        E, W = e[(*fold(K, i, q, nq), m)], w[(*q, v)]
        f, N = V.call(occ, E / kT), V.call(smearings.bose_einstein, W / kT)
        return g2[(*q, v, i, m, n)] * ((f + N) / (omega[o] - E + W) + (1 - f + N) / (omega[o] - E - W))
    V.forall('self-energy', [nK, nb, nw], lambda i, n, o: (
        S[i, n, o], V.sum([*nq, nm, nb], lambda *x: term(i, n, o, x)) / prod(nq)))


@contract('C16', cases=[dict(dim=1), dict(dim=2)], trials=10)
def dc_conductivity(V, dim):
    nk, nb, nw, nd = mesh(V, dim), V.dim('nbnd', small=(1, 2)), V.dim('nomega', small=(2, 4)), V.dim('ndim', small=(1, 2))
    kT = V.real('kT', pos=True, values=[0.1, 0.3])
    v = V.array('v', [*nk, nb, nd])
    A = V.array('A', [*nk, nb, nw])
    omega = V.array('omega', [nw])
    occ = occupations(V)
    s = V.call(diagrams.green_kubo_conductivity, v, A, omega, kT=kT, occupations=occ, dc_only=True)
    dw = V.call(elphmod.misc.differential, omega)
    V.forall('sum', [nd, nd], lambda i, j: (s[i, j], 4 * V.pi * V.sum([*nk, nb, nw], lambda *x: (
        dw[x[-1]] * V.call(occ.delta, omega[x[-1]] / kT) / kT * v[(*x[:dim], x[dim], i)] * v[(*x[:dim], x[dim], j)]
        * A[x] ** 2)) / prod(nk)))


@bounded('C16', trials=25)
def optical_conductivity(V):
    rng = V.rng
    nk, nb, nd = tuple(rng.integers(1, 4, size=rng.integers(1, 3))), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    n, z = int(rng.integers(2, 8)), 0
    z = int(rng.integers(0, n))
    h, kT = float(rng.choice([0.1, 0.3])), float(rng.choice([0.1, 0.5]))
    omega = (np.arange(n) - z) * h
    v = rng.normal(size=(*nk, nb, nd))
    A = rng.random(size=(*nk, nb, n))
    occ = V.choice('occ', ['fd', 'gauss', 'mv'])
    f = smearings.smearing(occ)
    s = diagrams.green_kubo_conductivity(v.copy(), A.copy(), omega.copy(), kT=kT, occupations=occ)
    V.eq('shape', s.shape, (n, nd, nd))
    N = int(np.prod(nk))
    vs, As = v.reshape(-1, nd), A.reshape(-1, n)
    for i in range(n):
        m = i - z
        t = np.zeros((nd, nd))
        for j in range(n):
            if not 0 <= j + m < n:
                continue
            if m:
                a = (f(omega[j] / kT) - f((omega[j] + m * h) / kT)) / (m * h)
            else:
                a = f.delta(omega[j] / kT) / kT
            t += a * np.einsum('xa,xb,x,x->ab', vs, vs, As[:, j], As[:, j + m])
        V.eq('sigma(omega)', s[i], 4 * np.pi * h * t / N)
