"""Shared ingredients of the contracts."""
import numpy as np
import elphmod
from elphmod import occupations as occ
from engine.contract import UF


class SymOcc:
    """an arbitrary smearing function: only f, delta, ... as uninterpreted functions"""
    engine_ok = True

    def __init__(self, name='occ'):
        self.f = UF(name + '_f')
        self.delta = UF(name + '_d')
        self.delta_prime = UF(name + '_dp')
        self.entropy = UF(name + '_s')

    def __call__(self, x):
        return self.f(x)


def occupations(V, name='occ', options=('fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton', 'lorentz')):
    if V.symbolic:
        return SymOcc(name)
    return getattr(occ, V.choice(name, options))


def mesh(V, dim, small=(1, 3)):
    return [V.dim('nk%d' % (i + 1), small=small) for i in range(dim)]


def qpoints(V, nQ, nk, name='Q'):
    """q points of the mesh as (integers, radians)"""
    dim = len(nk)
    Q = V.array(name, [nQ, dim], 'i', lo=-5, hi=5) if not V.symbolic else V.array(name, [nQ, dim], 'i')
    q = V.build([nQ, dim], lambda i, d: 2 * V.pi * V.num(Q[i, d]) / pick(nk, d))
    return Q, q


def pick(seq, d):
    """seq[d] for a concrete or constant-term index"""
    return seq[int(d)]


def fold(Q, iq, k, nk):
    return [(k[d] + Q[iq, d]) % nk[d] for d in range(len(nk))]


def prod(xs):
    p = 1
    for x in xs:
        p = p * x
    return p


def energies(V, nk, nbnd, name='e'):
    return V.array(name, [*nk, nbnd], values=None if V.symbolic else ENERGIES[V.style % 3])


ENERGIES = [[-0.3, 0.0, 0.2, 0.5], [0.0, 0.1], list(np.round(np.random.default_rng(5).normal(size=12) * 0.4, 3))]
