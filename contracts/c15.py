"""C15: RPA polarization, susceptibility and renormalized coupling are the documented sums over transitions."""
import numpy as np
from engine.contract import contract, bounded
from .common import occupations, mesh, qpoints, fold, prod, energies
from .c14 import difference_quotient
import elphmod
from elphmod import diagrams


def qpoint(V, nk, name='Q'):
    Q = [V.int('%s%d' % (name, d), lo=-5, hi=5) for d in range(len(nk))]
    return Q, [2 * V.pi * V.num(Q[d]) / nk[d] for d in range(len(nk))]


def shift(Q, k, nk):
    return [(k[d] + Q[d]) % nk[d] for d in range(len(nk))]


@contract('C15', trials=12)
def susceptibility(V):
    n = V.dim('nk', small=(1, 4))
    kT, eta = V.real('kT', pos=True, values=[0.025, 0.3]), V.real('eta', pos=True, values=[1e-10, 0.1])
    e = V.array('e', [n, n], values=None if V.symbolic else [-0.3, 0.0, 0.2, 0.5])
    occ = occupations(V)
    chi = V.call(diagrams.susceptibility, e, kT=kT, eta=eta, occupations=occ)
    Q, q = qpoint(V, [n, n])

    def term(k, p):
        de = e[tuple(p)] - e[tuple(k)]
        df = V.call(occ, e[tuple(p)] / kT) - V.call(occ, e[tuple(k)] / kT)
        return df * de / (de * de + eta ** 2)
    zero = V.and_(V.eqv(Q[0] % n, 0), V.eqv(Q[1] % n, 0))
    V.eq('chi(q)', V.call(chi, *q), V.ite(
        zero, lambda: -2 * V.sum([n, n], lambda *k: V.call(occ.delta, e[k] / kT)) / kT / n ** 2,
        lambda: 2 * V.sum([n, n], lambda *k: term(k, shift(Q, k, [n, n]))) / n ** 2))


@contract('C15', trials=10)
def susceptibility_green(V):
    n, nmats = V.dim('nk', small=(1, 3)), V.dim('nmats', small=(1, 4))
    kT = V.real('kT', pos=True, values=[0.025, 0.3])
    w, h = V.real('width', pos=True, values=[1.0, 0.5]), V.real('height', values=[0.0, 0.4])
    e = V.array('e', [n, n], values=None if V.symbolic else [-0.3, 0.0, 0.2, 0.5])
    chi = V.call(diagrams.susceptibility2, e, kT=kT, nmats=nmats, hyb_width=w, hyb_height=h)
    Q, q = qpoint(V, [n, n])

    def G(j, x):
        nu = (2 * j + 1) * V.pi * kT
        return 1 / (V.i * nu - x + 2 * V.i * h * V.np(np.arctan, 2 * w / nu))
    bubble = V.sum([nmats, n, n], lambda j, *k: G(j, e[k]) * G(j, e[tuple(shift(Q, k, [n, n]))]))
    tail = V.sum(nmats, lambda j: 1 / ((2 * j + 1) * V.pi * kT) ** 2)
    V.eq('chi(q)', V.call(chi, *q), 4 * kT * (bubble / n ** 2 + tail) - 1 / (2 * kT))


def electronic(V, dim):
    nk = mesh(V, dim)
    nb, no = V.dim('nbnd', small=(1, 2)), V.dim('norb', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.025, 0.1, 0.3])
    eps = V.real('eps', pos=True, values=[1e-10, 1e-10, 0.15])
    e = energies(V, nk, nb)
    U = V.array('U', [*nk, no, nb], 'c')
    return nk, nb, no, kT, eps, occupations(V), e, U


@contract('C15', cases=[dict(dim=d, crpa=c) for d, c in [(1, False), (2, False), (3, False), (1, True), (2, True), (3, True)]], trials=10)
def polarization(V, dim, crpa):
    nk, nb, no, kT, eps, occ, e, U = electronic(V, dim)
    sub = V.array('subspace', [*nk, nb], 'b') if crpa else None
    Pi = V.call(diagrams.polarization, e, U, kT=kT, eps=eps, subspace=sub, occupations=occ)
    Q, q = qpoint(V, nk)
    P = V.call(Pi, *q)

    def term(a, b, k, m, n):
        p = shift(Q, k, nk)
        x, y = (*p, m), (*k, n)
        t = (U[(*p, a, m)] * V.conj(U[(*k, a, n)]) * V.conj(U[(*p, b, m)]) * U[(*k, b, n)]
             * difference_quotient(V, occ, e, kT, eps, y, x))
        return V.ite(V.and_(sub[x], sub[y]), 0, t) if crpa else t
    V.forall('Pi(q)', [no, no], lambda a, b: (
        P[a, b], 2 * V.sum([*nk, nb, nb], lambda *x: term(a, b, x[:dim], x[-2], x[-1])) / prod(nk)))


@contract('C15', cases=[dict(dim=d, dd=dd) for d in (1, 2, 3) for dd in (True, False)], trials=8)
def coupling_times_bubble(V, dim, dd):
    nk, nb, no, kT, eps, occ, e, U = electronic(V, dim)
    nm, nQ = V.dim('nmodes', small=(1, 2)), V.dim('nQ', small=(1, 3))
    Q, q = qpoints(V, nQ, nk)
    g = V.array('g', [nQ, nm, *nk, no, no], 'c')
    P = V.call(diagrams.Pi_g, q, e, g, U, kT=kT, eps=eps, occupations=occ, dd=dd, status=False)
    V.forall('Pi g', [nQ, nm, no] + [no] * (not dd), lambda i, v, c, d=None: (
        P[i, v, c] if dd else P[i, v, c, d],
        bubble(V, nk, nb, no, kT, eps, occ, e, U, Q, g, i, v, c, c if dd else d)))


def bubble(V, nk, nb, no, kT, eps, occ, e, U, Q, g, i, v, c, d):
    dim = len(nk)

    def term(k, m, n, a, b):
        p = fold(Q, i, k, nk)
        return (U[(*p, c, m)] * V.conj(U[(*k, d, n)]) * difference_quotient(V, occ, e, kT, eps, (*k, n), (*p, m))
                * V.conj(U[(*p, a, m)]) * U[(*k, b, n)] * g[(i, v, *k, a, b)])
    return 2 * V.sum([*nk, nb, nb, no, no], lambda *x: term(x[:dim], *x[dim:])) / prod(nk)


@contract('C15', cases=[dict(dim=d, dd=dd) for d in (1, 2, 3) for dd in (True, False)], trials=8)
def renormalized_in_orbital_basis(V, dim, dd):
    nk, nb, no, kT, eps, occ, e, U = electronic(V, dim)
    nm, nQ = V.dim('nmodes', small=(1, 2)), V.dim('nQ', small=(1, 3))
    Q, q = qpoints(V, nQ, nk)
    g = V.array('g', [nQ, nm, *nk, no, no], 'c')
    W = V.array('W', [nQ] + [no] * (2 if dd else 4), 'c')
    G = V.call(diagrams.renormalize_coupling_orbital, q, e, g, W, U, kT=kT, eps=eps, occupations=occ, status=False)

    def expected(i, v, k, a, b):
        P = lambda c, d: bubble(V, nk, nb, no, kT, eps, occ, e, U, Q, g, i, v, c, d)
        if dd:
            dg = V.ite(V.eqv(a, b), lambda: V.sum(no, lambda c: W[i, a, c] * P(c, c)), 0)
        else:
            dg = V.sum([no, no], lambda c, d: W[i, a, b, c, d] * P(c, d))
        return g[(i, v, *k, a, b)] + dg
    V.forall('dressed', [nQ, nm, *nk, no, no], lambda i, v, *x: (
        G[(i, v, *x)], expected(i, v, x[:dim], x[-2], x[-1])))


@contract('C15', cases=[dict(dim=d, dd=dd, sub=s) for d, dd, s in [
        (1, True, True), (2, True, False), (3, True, False), (1, False, False), (2, False, True), (3, False, False)]], trials=8)
def renormalized_in_band_basis(V, dim, dd, sub):
    nk, nb, no, kT, eps, occ, e, U = electronic(V, dim)
    nm, nQ = V.dim('nmodes', small=(1, 2)), V.dim('nQ', small=(1, 3))
    Q, q = qpoints(V, nQ, nk)
    g = V.array('g', [nQ, nm, *nk, nb, nb], 'c')
    W = V.array('W', [nQ] + [no] * (2 if dd else 4), 'c')
    ns = nb
    if sub:
        ns = V.dim('nbnd_sub', small=(1, 2))
        V.require(ns <= nb)
    G = V.call(diagrams.renormalize_coupling_band, q, e, g, W, U, kT=kT, eps=eps, occupations=occ,
               nbnd_sub=ns if sub else None, status=False)

    def P(i, v, c, d):
        def term(k, m, n):
            p = fold(Q, i, k, nk)
            return (U[(*p, c, m)] * V.conj(U[(*k, d, n)]) * difference_quotient(V, occ, e, kT, eps, (*k, n), (*p, m))
                    * g[(i, v, *k, m, n)])
        return 2 * V.sum([*nk, ns, ns], lambda *x: term(x[:dim], *x[dim:])) / prod(nk)

    def expected(i, v, k, m, n):
        p = fold(Q, i, k, nk)
        if dd:
            t = V.sum([no, no], lambda a, c: V.conj(U[(*p, a, m)]) * U[(*k, a, n)] * W[i, a, c] * P(i, v, c, c))
        else:
            t = V.sum([no] * 4, lambda a, b, c, d: V.conj(U[(*p, a, m)]) * U[(*k, b, n)] * W[i, a, b, c, d] * P(i, v, c, d))
        return g[(i, v, *k, m, n)] + t
    V.forall('dressed', [nQ, nm, *nk, nb, nb], lambda i, v, *x: (
        G[(i, v, *x)], expected(i, v, x[:dim], x[-2], x[-1])))
