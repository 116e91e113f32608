"""C14: the phonon self-energy equals its defining sum over all transitions."""
import numpy as np
from engine.contract import contract, bounded
from .common import occupations, mesh, qpoints, fold, prod, energies
import elphmod
from elphmod import diagrams


def difference_quotient(V, occ, e, kT, eps, a, b):
    """(f(e_a) - f(e_b)) / (e_a - e_b) or its limit"""
    ea, eb = e[tuple(a)], e[tuple(b)]
    fa, fb = V.call(occ, ea / kT), V.call(occ, eb / kT)
    return V.ite(V.abs(ea - eb) > eps, lambda: (fa - fb) / (ea - eb), lambda: -V.call(occ.delta, ea / kT) / kT)


def setup(V, dim):
    nk = mesh(V, dim)
    nb, nm, nQ = V.dim('nbnd', small=(1, 2)), V.dim('nmodes', small=(1, 2)), V.dim('nQ', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.025, 0.1, 0.3])
    eps = V.real('eps', pos=True, values=[1e-10, 1e-10, 0.15])
    occ = occupations(V)
    e = energies(V, nk, nb)
    Q, q = qpoints(V, nQ, nk)
    return nk, nb, nm, nQ, kT, eps, occ, e, Q, q


@contract('C14', cases=[dict(dim=d) for d in (1, 2, 3)], trials=12)
def static_squared_couplings(V, dim):
    nk, nb, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    g2 = V.array('g2', [nQ, nm, *nk, nb, nb])
    Pi, Pi_k = V.call(diagrams.phonon_self_energy, q, e, g2=g2, kT=kT, eps=eps, occupations=occ, fluctuations=True)

    def term(i, v, k, m, n):
        return 2 * g2[(i, v, *k, m, n)] * difference_quotient(V, occ, e, kT, eps, (*k, n), (*fold(Q, i, k, nk), m))
    V.forall('total', [nQ, nm], lambda i, v: (
        Pi[i, v], V.sum([*nk, nb, nb], lambda *x: term(i, v, x[:dim], x[-2], x[-1])) / prod(nk)))
    V.forall('k-resolved', [nQ, nm, *nk, nb, nb], lambda i, v, *x: (
        Pi_k[(i, v, *x)], term(i, v, x[:dim], x[-2], x[-1])))


@contract('C14', cases=[dict(dim=d) for d in (1, 2)], trials=8)
def static_without_couplings(V, dim):
    nk, nb, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    Pi = V.call(diagrams.phonon_self_energy, q, e, kT=kT, eps=eps, occupations=occ)
    V.eq('one constant coupling', V.shape(Pi)[1], 1)
    V.forall('total', [nQ], lambda i: (
        Pi[i, 0], V.sum([*nk, nb, nb], lambda *x: 2 * difference_quotient(
            V, occ, e, kT, eps, (*x[:dim], x[-1]), (*fold(Q, i, x[:dim], nk), x[-2]))) / prod(nk)))


@contract('C14', cases=[dict(dim=d, G=G, symmetrize=s, diagonal=dg) for d, G, s, dg in [
        (2, False, True, False), (1, False, True, True), (2, True, True, False), (3, True, False, False), (1, True, True, True)]], trials=8)
def static_pair_couplings(V, dim, G, symmetrize, diagonal):
    nk, nb, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    g = V.array('g', [nQ, nm, *nk, nb, nb], 'c')
    G_ = V.array('G', [nQ, nm, *nk, nb, nb], 'c') if G else None
    Pi, Pi_k = V.call(diagrams.phonon_self_energy, q, e, g=g, G=G_, symmetrize=symmetrize, diagonal=diagonal,
                      kT=kT, eps=eps, occupations=occ, fluctuations=True)
    h = G_ if G else g

    def term(i, u, v, k, m, n):
        x, y = (i, u, *k, m, n), (i, v, *k, m, n)
        c = V.conj(g[x]) * h[y]
        if G and symmetrize:
            c = (c + V.conj(h[x]) * g[y]) / 2
        t = 2 * c * difference_quotient(V, occ, e, kT, eps, (*k, n), (*fold(Q, i, k, nk), m))
        return V.ite(V.eqv(u, v), t, 0) if diagonal else t
    V.forall('total', [nQ, nm, nm], lambda i, u, v: (
        Pi[i, u, v], V.sum([*nk, nb, nb], lambda *x: term(i, u, v, x[:dim], x[-2], x[-1])) / prod(nk)))
    V.forall('k-resolved', [nQ, nm, nm, *nk, nb, nb], lambda i, u, v, *x: (
        Pi_k[(i, u, v, *x)], term(i, u, v, x[:dim], x[-2], x[-1])))


def frequencies(V, shape):
    if V.symbolic:
        return V.array('omega', shape, 'c')
    return V.array('omega', shape, 'c', values=[0.31 + 0.02j, -0.1 + 0.5j, 1j, 2.3 + 0.01j])


@contract('C14', cases=[dict(dim=d, array=a, fl=f) for d, a, f in [(2, False, True), (1, True, True), (3, True, False), (2, True, False)]], trials=8)
def dynamic(V, dim, array, fl):
    nk, nb, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    g2 = V.array('g2', [nQ, nm, *nk, nb, nb])
    if array:
        nw = V.dim('nomega', small=(1, 2))
        omega = frequencies(V, [nw])
        V.require(V.not_(V.quant([nw], lambda w: V.eqv(omega[w], 0))))
    else:
        omega = V.complex('omega') if V.symbolic else V.choice('omega', [0.3 + 0.1j, 1.7 - 0.5j])
        V.require(V.ne(omega, 0))
    out = V.call(diagrams.phonon_self_energy, q, e, g2=g2, kT=kT, eps=eps, occupations=occ, omega=omega, fluctuations=fl)
    Pi, Pi_k = out if fl else (out, None)

    def term(i, v, w, k, m, n):
        a, b = (*k, n), tuple([*fold(Q, i, k, nk), m])
        return 2 * g2[(i, v, *k, m, n)] * (V.call(occ, e[a] / kT) - V.call(occ, e[b] / kT)) / (e[a] - e[b] + w)
    if array:
        V.forall('total', [nQ, nm, nw], lambda i, v, w: (
            Pi[i, v, w], V.sum([*nk, nb, nb], lambda *x: term(i, v, omega[w], x[:dim], x[-2], x[-1])) / prod(nk)))
        if fl:
            V.forall('k-resolved', [nQ, nm, nw, *nk, nb, nb], lambda i, v, w, *x: (
                Pi_k[(i, v, w, *x)], term(i, v, omega[w], x[:dim], x[-2], x[-1])))
    else:
        V.forall('total', [nQ, nm], lambda i, v: (
            Pi[i, v], V.sum([*nk, nb, nb], lambda *x: term(i, v, omega, x[:dim], x[-2], x[-1])) / prod(nk)))
        V.forall('k-resolved', [nQ, nm, *nk, nb, nb], lambda i, v, *x: (
            Pi_k[(i, v, *x)], term(i, v, omega, x[:dim], x[-2], x[-1])))


@contract('C14', cases=[dict(dim=1), dict(dim=2)], trials=8)
def dynamic_pair_couplings(V, dim):
    nk, nb, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    g = V.array('g', [nQ, nm, *nk, nb, nb], 'c')
    nw = V.dim('nomega', small=(1, 2))
    omega = frequencies(V, [nw])
    V.require(V.not_(V.quant([nw], lambda w: V.eqv(omega[w], 0))))
    Pi = V.call(diagrams.phonon_self_energy, q, e, g=g, kT=kT, eps=eps, occupations=occ, omega=omega)

    def term(i, u, v, w, k, m, n):
        a, b = (*k, n), tuple([*fold(Q, i, k, nk), m])
        return 2 * V.conj(g[(i, u, *k, m, n)]) * g[(i, v, *k, m, n)] * (
            V.call(occ, e[a] / kT) - V.call(occ, e[b] / kT)) / (e[a] - e[b] + w)
    V.forall('total', [nQ, nm, nm, nw], lambda i, u, v, w: (
        Pi[i, u, v, w], V.sum([*nk, nb, nb], lambda *x: term(i, u, v, omega[w], x[:dim], x[-2], x[-1])) / prod(nk)))


@contract('C14', cases=[dict(dim=2, diff=False), dict(dim=1, diff=True), dict(dim=3, diff=True)], trials=8)
def excluded_window(V, dim, diff):
    """window function Theta = 2 - f((e - D)/T) - f((-e - D)/T) on both states, or the D derivative of the product"""
    nk, nb, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    g2 = V.array('g2', [nQ, nm, *nk, nb, nb])
    D = V.real('Delta', nonneg=True, values=[0.0, 0.1, 0.3])
    T = V.real('Delta_kT', pos=True, values=[0.02, 0.1])
    win = occupations(V, 'win', ('gauss', 'fermi_dirac', 'marzari_vanderbilt'))
    Pi, Pi_k = V.call(diagrams.phonon_self_energy, q, e, g2=g2, kT=kT, eps=eps, occupations=occ, Delta=D, Delta_diff=diff,
                      Delta_occupations=win, Delta_kT=T, fluctuations=True)

    def Theta(x):
        return 2 - V.call(win, (x - D) / T) - V.call(win, (-x - D) / T)

    def dTheta(x):
        return -(V.call(win.delta, (x - D) / T) + V.call(win.delta, (-x - D) / T)) / T

    def term(i, v, k, m, n):
        a, b = (*k, n), tuple([*fold(Q, i, k, nk), m])
        w = Theta(e[a]) * dTheta(e[b]) + dTheta(e[a]) * Theta(e[b]) if diff else Theta(e[a]) * Theta(e[b])
        return 2 * g2[(i, v, *k, m, n)] * w * difference_quotient(V, occ, e, kT, eps, a, b)
    V.forall('total', [nQ, nm], lambda i, v: (
        Pi[i, v], V.sum([*nk, nb, nb], lambda *x: term(i, v, x[:dim], x[-2], x[-1])) / prod(nk)))
    V.forall('k-resolved', [nQ, nm, *nk, nb, nb], lambda i, v, *x: (
        Pi_k[(i, v, *x)], term(i, v, x[:dim], x[-2], x[-1])))


@contract('C14', cases=[dict(dim=1, nb=1, G=False), dict(dim=2, nb=2, G=False), dict(dim=1, nb=2, G=True)], trials=8)
def contact_interaction(V, dim, nb, G):
    """bubble plus ladder (RPA-like) correction with a contact interaction U[m, n]"""
    nk, _, nm, nQ, kT, eps, occ, e, Q, q = setup(V, dim)
    e = V.array('E', [*nk, nb], values=None if V.symbolic else [-0.3, 0.0, 0.2, 0.5])
    g = V.array('g', [nQ, nm, *nk, nb, nb], 'c')
    G_ = V.array('G', [nQ, nm, *nk, nb, nb], 'c') if G else None
    h = G_ if G else g
    U = V.array('U', [nb, nb], values=None if V.symbolic else [0.0, 0.11, 0.23, -0.37])
    Pi = V.call(diagrams.phonon_self_energy, q, e, g=g, G=G_, U=U, kT=kT, eps=eps, occupations=occ, symmetrize=False)

    def dfde(i, k, m, n):
        return difference_quotient(V, occ, e, kT, eps, (*k, n), (*fold(Q, i, k, nk), m))

    def expected(i, u, v):
        t = 0
        N = prod(nk)
        for m in range(nb):
            for n in range(nb):
                chi = 2 * V.sum(nk, lambda *k: dfde(i, k, m, n)) / N
                L = 2 * V.sum(nk, lambda *k: V.conj(g[(i, u, *k, m, n)]) * dfde(i, k, m, n)) / N
                R = 2 * V.sum(nk, lambda *k: h[(i, v, *k, m, n)] * dfde(i, k, m, n)) / N
                b = 2 * V.sum(nk, lambda *k: V.conj(g[(i, u, *k, m, n)]) * h[(i, v, *k, m, n)] * dfde(i, k, m, n)) / N
                t = t + b + L * R * U[m, n] / (1 - chi * U[m, n])
        return t
    V.forall('total', [nQ, nm, nm], lambda i, u, v: (Pi[i, u, v], expected(i, u, v)))


@contract('C14', cases=[dict(dim=d) for d in (1, 2, 3)], trials=8)
def fermi_shift(V, dim):
    nk = mesh(V, dim)
    nb, nm = V.dim('nbnd', small=(1, 3)), V.dim('nmodes', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.1, 0.3])
    occ = occupations(V)
    e = energies(V, nk, nb)
    g = V.array('g', [nm, *nk, nb, nb])
    P = V.call(diagrams.phonon_self_energy_fermi_shift, e, g, kT=kT, occupations=occ)
    dos = V.sum([*nk, nb], lambda *x: V.call(occ.delta, e[x] / kT) / kT)
    avg = lambda v: V.sum([*nk, nb], lambda *x: V.call(occ.delta, e[x] / kT) / kT * g[(v, *x, x[-1])])
    V.forall('2/N dos <g><g>', [nm, nm], lambda u, v: (P[u, v] * dos, 2 * avg(u) * avg(v) / prod(nk)))


@contract('C14', trials=8)
def green_function_bubble(V):
    """phonon_self_energy2: Matsubara sum of Green functions with the asymptotic tail"""
    n = V.dim('nk', small=(1, 3))
    nm, nQ, nmats = V.dim('nmodes', small=(1, 2)), V.dim('nQ', small=(1, 3)), V.dim('nmats', small=(1, 4))
    kT = V.real('kT', pos=True, values=[0.025, 0.3])
    w, h = V.real('width', pos=True, values=[1.0, 0.5]), V.real('height', values=[0.0, 0.4])
    e = V.array('e', [n, n], values=None if V.symbolic else [-0.3, 0.0, 0.2, 0.5])
    g2 = V.array('g2', [nQ, nm, n, n])
    Q, q = qpoints(V, nQ, [n, n])
    if V.symbolic:
        # the memory guard raises beyond the documented limit
        V.require(64 * V.processes * nmats * n * n <= 64000000000)
    Pi = V.call(diagrams.phonon_self_energy2, q, e, g2, kT=kT, nmats=nmats, hyb_width=w, hyb_height=h, GB=64.0)

    def G(j, x):
        nu = (2 * j + 1) * V.pi * kT
        return 1 / (V.i * nu - x + 2 * V.i * h * V.np(np.arctan, 2 * w / nu))

    def chi(i, k1, k2):
        a, b = fold(Q, i, (k1, k2), (n, n))
        p = V.sum(nmats, lambda j: V.re(G(j, e[k1, k2]) * G(j, e[a, b])))
        t = V.sum(nmats, lambda j: 1 / ((2 * j + 1) * V.pi * kT) ** 2)
        return 4 * kT * (p + t) / n ** 2 - 1 / (2 * kT * n ** 2)
    V.forall('bubble', [nQ, nm], lambda i, v: (Pi[i, v], V.sum([n, n], lambda a, b: g2[i, v, a, b] * chi(i, a, b))))
