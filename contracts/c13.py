"""C13: a returned Fermi level yields the requested number of electrons."""
import numpy as np
from engine.contract import contract, bounded
from .common import occupations, mesh, energies, prod
import elphmod
from elphmod import occupations as occ

OPTIONS = ('fermi_dirac', 'gauss', 'lorentz')


@contract('C13', cases=[dict(dim=d, guess=g, search=s) for d, g, s in [
        (1, True, 'fixed_point'), (2, True, 'fixed_point'), (3, False, 'fixed_point'), (0, True, 'fixed_point'),
        (1, True, 'simple'), (2, False, 'simple'), (3, True, 'simple')]], trials=15)
def number_of_electrons(V, dim, guess, search):
    """partial correctness: whatever iteration the search returns from"""
    V.havoc()
    nk, nb = mesh(V, dim, (1, 3)), V.dim('nbnd', small=(1, 3))
    e = V.array('e', [*nk, nb], values=None if V.symbolic else [-0.31, 0.02, 0.2, 0.53, 0.7])
    kT = V.real('kT', pos=True, values=[0.1, 0.3, 0.5])
    tol = V.real('tol', pos=True, values=[1e-5, 1e-3])
    f = occupations(V, options=OPTIONS if search == 'fixed_point' else OPTIONS[:1])
    if V.symbolic:
        n = V.real('n')
        mu = V.real('mu') if guess else None
    else:
        n = V.choice('filling', [0.3, 0.5, 0.71]) * 2 * nb
        mu = V.choice('mu', [0.0, 0.2, -0.1]) if guess else None
    if search == 'fixed_point':
        level = V.call(occ.find_Fermi_level, n, e, kT=kT, f=f, mu=mu, tol=tol)
    else:
        level = V.call(occ.find_Fermi_level_simple, n, e, kT=kT, f=f, mu=mu, tol=tol, **({} if V.symbolic else dict(damp=0.3)))
    N = V.sum([*nk, nb], lambda *x: V.call(f, (e[x] - level) / kT))
    V.holds('electrons', V.abs(2 * N / prod(nk) - n) <= (tol if V.symbolic else tol * (1 + 1e-6)))


@bounded('C13', trials=40)
def shifts_and_arguments(V):
    """rigid shift with the energies; arguments unmodified; string names; integer and low-dimensional arrays"""
    rng = V.rng
    nk = tuple(int(x) for x in rng.integers(1, 5, size=rng.integers(0, 4)))
    nb = int(rng.integers(1, 4))
    style = V.choice('style', ['float', 'int', 'degenerate'])
    e = rng.normal(size=(*nk, nb))
    if style == 'int':
        e = rng.integers(-2, 3, size=(*nk, nb))
    if style == 'degenerate':
        e = np.round(e * 2) / 2
    n = float(rng.uniform(0.2, 0.8)) * 2 * nb
    kT = float(rng.choice([0.1, 0.3, 1.0]))
    name = V.choice('smearing', ['fd', 'gauss', 'f-d'])
    mu = V.choice('mu', [None, 0.0, 0.2])
    tol = V.choice('tol', [1e-5, 1e-8])
    keep = e.copy()
    m = occ.find_Fermi_level(n, e, kT=kT, f=name, mu=mu, tol=tol)
    V.holds('energies unmodified', np.array_equal(e, keep))
    f = occ.smearing(name)
    N = 2 * f((e - m) / kT).sum() / max(1, int(np.prod(nk)))
    V.holds('electrons', abs(N - n) <= tol * (1 + 1e-6))
    s = V.choice('shift', [1, -3, 0.5])
    m2 = occ.find_Fermi_level(n, e + s, kT=kT, f=name, mu=None if mu is None else mu + s, tol=tol)
    V.eq('rigid shift', m2 - s, m, tol=1e-7)
    ms = occ.find_Fermi_level_simple(n, e, kT=kT, f=name, mu=mu, tol=1e-4, damp=0.3 * kT)
    V.holds('energies unmodified (simple)', np.array_equal(e, keep))
    N = 2 * f((e - ms) / kT).sum() / max(1, int(np.prod(nk)))
    V.holds('electrons (simple)', abs(N - n) <= 1e-4 * (1 + 1e-6))
