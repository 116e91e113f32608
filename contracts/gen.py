"""Random concrete models for the bounded contracts (never used in proofs)."""
import io
import contextlib
import numpy as np
import elphmod
from elphmod import bravais, el, elel, ph, elph, misc

elphmod.misc.verbosity = 0

SPECIES = ['C', 'H', 'Si', 'Mo', 'S', 'Ta']


def cell(rng, kind=None):
    """lattice vectors: general, cubic, hexagonal, left-handed"""
    kind = rng.integers(5) if kind is None else kind
    if kind == 0:
        return np.eye(3) * rng.uniform(2, 5)
    if kind == 1:
        a = np.zeros((3, 3))
        a[:2, :2] = np.array(bravais.translations(120)) * rng.uniform(3, 6)
        a[2, 2] = rng.uniform(8, 20)
        return a
    if kind == 2:
        a = np.zeros((3, 3))
        a[:2, :2] = np.array(bravais.translations(60)) * rng.uniform(3, 6)
        a[2, 2] = rng.uniform(8, 20)
        return a
    while True:
        a = rng.normal(size=(3, 3)) * 3
        d = np.linalg.det(a)
        if abs(d) > 10 and np.linalg.cond(a) < 6:
            if (d < 0) != (kind == 4):
                a[[0, 1]] = a[[1, 0]]
            return a


def lattice_vectors(rng, n, span=2, inversion=True, origin=True, dims=3):
    """about n distinct lattice vectors"""
    S = {(0, 0, 0)} if origin else set()
    while len(S) < n:
        R = [0, 0, 0]
        R[:dims] = rng.integers(-span, span + 1, size=dims)
        S.add(tuple(int(x) for x in R))
        if inversion:
            S.add(tuple(int(-x) for x in R))
    R = np.array(sorted(S), dtype=int).reshape((-1, 3))
    return R[rng.permutation(len(R))]


def cnormal(rng, shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def hermitian_data(R, data):
    """data(-R) = data(R)^+"""
    ix = {tuple(r): i for i, r in enumerate(R)}
    out = data.copy()
    for i, r in enumerate(R):
        j = ix[tuple(-r)]
        out[i] = (data[i] + data[j].T.conj()) / 2
    return out


def electrons(rng, no=None, R=None, hermitian=True, n=5, **kw):
    m = el.Model(**kw)
    m.size = int(rng.integers(1, 4)) if no is None else no
    m.R = lattice_vectors(rng, n) if R is None else R
    m.data = cnormal(rng, (len(m.R), m.size, m.size))
    if hermitian:
        m.data = hermitian_data(m.R, m.data)
    return m


def coulomb(rng, no=None, R=None, n=5):
    m = elel.Model()
    m.size = int(rng.integers(1, 4)) if no is None else no
    m.R = lattice_vectors(rng, n) if R is None else R
    m.data = hermitian_data(m.R, cnormal(rng, (len(m.R), m.size, m.size)))
    return m


def phonons(rng, nat=None, R=None, n=5, a=None, lr=False, lr2d=False, Q=False, L=None, perp=True, divide_mass=True, divide_ndegen=True, asr=False, a_kind=None):
    nat = int(rng.integers(1, 4)) if nat is None else nat
    a = cell(rng, a_kind) if a is None else a
    kw = {}
    if lr:
        e = rng.normal(size=(3, 3)) * 0.4
        kw['epsil'] = np.eye(3) * rng.uniform(2, 5) + e + e.T
        if lr2d:
            kw['epsil'][2, :2] = kw['epsil'][:2, 2] = 0
            kw['epsil'][2, 2] = rng.uniform(1.05, 1.3)
        kw['zeu'] = rng.normal(size=(nat, 3, 3))
        if Q:
            q = rng.normal(size=(nat, 3, 3, 3))
            kw['Q'] = q + q.swapaxes(2, 3)
        kw['L'] = L
        kw['perp'] = perp
        kw['alph'] = 1.0
    M = rng.uniform(1, 9, size=nat)
    species = [SPECIES[i] for i in rng.integers(len(SPECIES), size=nat)]
    masses = {}
    for i, s in enumerate(species):
        M[i] = masses.setdefault(s, M[i])
    r = rng.uniform(0, 1, size=(nat, 3)).dot(a)
    m = ph.Model(amass=M, at=a, tau=r, atom_order=species, divide_mass=divide_mass, divide_ndegen=divide_ndegen,
                 lr2d=lr2d if lr else None, **kw)
    m.R = lattice_vectors(rng, n) if R is None else R
    d = hermitian_data(m.R, rng.normal(size=(len(m.R), 3 * nat, 3 * nat)))
    if divide_mass:
        ph.divide_by_mass(d, M)
    m.data = d
    return m


def coupling(rng, e=None, p=None, Rg=None, Rk=None, n=4, **kw):
    e = electrons(rng, **kw) if e is None else e
    p = phonons(rng, nat=int(rng.integers(1, 3))) if p is None else p
    Rg = lattice_vectors(rng, n) if Rg is None else Rg
    Rk = lattice_vectors(rng, n) if Rk is None else Rk
    m = elph.Model(el=e, ph=p, Rk=Rk, dk=np.ones((1, 1, len(Rk)), dtype=int), Rg=Rg, dg=np.ones((1, 1, 1, len(Rg)), dtype=int),
                   divide_mass=p.divide_mass)
    m.data[...] = cnormal(rng, m.data.shape)
    ready(m)
    return m


def ready(m):
    """what reading from files sets up as well"""
    m.q = None
    m.gq = np.empty((m.ph.size, len(m.Rk), m.el.size, m.el.size), dtype=complex)
    m.Rk0 = misc.vector_index(m.Rk, (0, 0, 0))


def kpoint(rng, n=None):
    return rng.uniform(-7, 7, size=3 if n is None else (n, 3))


def bloch(R, data, k, sign=1):
    return np.einsum('Rab,R->ab', data, np.exp(sign * 1j * np.dot(R, k)))


def gsum(m, q, k):
    return np.einsum('RxSab,R,S->xab', m.data, np.exp(1j * m.Rg.dot(q)), np.exp(1j * m.Rk.dot(k)))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
