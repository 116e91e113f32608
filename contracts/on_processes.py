"""Results of the distributed routines on every process: on_processes.py SEED OUT TRIALS (run with mpirun)."""
import os
import sys

os.environ['OMP_NUM_THREADS'] = '1'
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), os.path.dirname(here)]

import contextlib
import io
import traceback
import types
import numpy as np
import elphmod
from elphmod import bravais, diagrams, dispersion, dos, el, elel, elph, md, misc, occupations, ph

pkg = types.ModuleType('contracts')     # (without the registration of contracts)
pkg.__path__ = [here]
sys.modules['contracts'] = pkg
from contracts import gen

comm = elphmod.MPI.comm
ITEMS = []


def item(f):
    ITEMS.append(f)
    return f


class H:
    def __init__(self, rng, n, dim=3):
        self.h = rng.normal(size=(4, n, n)) + 1j * rng.normal(size=(4, n, n))

    def __call__(self, k1=0, k2=0, k3=0, **kw):
        r = self.h[0] + np.exp(1j * k1) * self.h[1] + np.exp(1j * k2) * self.h[2] + np.exp(1j * k3) * self.h[3]
        return r + r.conj().T


def count(rng):
    return int(rng.choice([1, 1, 2, 3, 4, 5, 7]))


@item
def sample(rng):
    f = H(rng, int(rng.integers(1, 4)))
    yield dispersion.sample(f, rng.normal(size=(count(rng), 2)))
    yield dispersion.sample(f, rng.normal(size=(2, 3, 3)))


@item
def spectra(rng):
    f = H(rng, int(rng.integers(1, 4)))
    for _ in range(4):
        k = rng.normal(size=(count(rng), 2)) if rng.random() < 0.7 else rng.normal(size=(2, 3, 2))
        kw = dict(vectors=bool(rng.integers(2)), order=bool(rng.integers(2)), gauge=bool(rng.integers(2)))
        broadcast = bool(rng.random() < 0.7)
        r = dispersion.dispersion(f, k, broadcast=broadcast, shared_memory=bool(rng.integers(2)), **kw)
        if broadcast or comm.rank == 0:
            yield from r if isinstance(r, tuple) else [r]
        else:
            yield from [None] * (1 + kw['vectors'] + kw['order'])
    yield dispersion.dispersion(H(rng, 2), rng.normal(size=(count(rng), 1)), hermitian=False)


@item
def meshes(rng):
    h = rng.normal(size=(2, 2))

    def f(k1=0, k2=0, **kw):
        return (h + h.T) * (np.cos(k1) + np.cos(k2) + np.cos(k1 + k2))
    for kw in dict(), dict(vectors=True), dict(order=True), dict(vectors=True, order=True, shared_memory=True):
        r = dispersion.dispersion_full(f, int(rng.integers(1, 6)), **kw)
        yield from r if isinstance(r, tuple) else [r]
    r = dispersion.dispersion_full_nosym(f, int(rng.integers(1, 6)), vectors=True, order=True)
    yield from r


@item
def unfolding(rng):
    nk, n0, nR = count(rng), 2, 2
    yield dispersion.unfolding_weights(rng.normal(size=(nk, 2)), rng.normal(size=(nR, 2)),
        gen.cnormal(rng, (nk, n0, n0)), gen.cnormal(rng, (nk, n0 * nR, 3)))


@item
def bubbles(rng):
    nk, nb, nm, nq = 3, 2, 2, count(rng)
    q = 2 * np.pi / nk * rng.integers(nk, size=(nq, 2))
    e = rng.normal(size=(nk, nk, nb)) * 0.2
    g = gen.cnormal(rng, (nq, nm, nk, nk, nb, nb))
    for kw in dict(), dict(omega=0.3 + 0.1j), dict(occupations=occupations.gauss, kT=0.1, omega=np.array([0.1j, 0.2])):
        yield diagrams.phonon_self_energy(q, e, abs(g) ** 2, **kw)
    yield diagrams.phonon_self_energy(q, e, g=g, G=g)
    yield from diagrams.phonon_self_energy(q, e, abs(g) ** 2, fluctuations=True)
    yield diagrams.phonon_self_energy2(q, e[:, :, 0], abs(g[..., 0, 0]) ** 2, nmats=50)
    yield diagrams.double_fermi_surface_average(q, e, abs(g) ** 2)
    yield diagrams.double_fermi_surface_average(q, e)
    yield diagrams.phonon_self_energy_fermi_shift(e, g[0])
    U = gen.cnormal(rng, (nk, nk, 2, nb))
    W = np.array([dispersion.sample(H(rng, 2), q)[i] for i in range(nq)])
    yield diagrams.renormalize_coupling_band(q, e, g, W, U)
    yield diagrams.renormalize_coupling_orbital(q, e, gen.cnormal(rng, (nq, nm, nk, nk, 2, 2)), W, U)
    yield diagrams.Pi_g(q, e, g, U)
    W = gen.cnormal(rng, (nq, 4, 4))
    yield diagrams.Pi_g(q, e, g, U, dd=False)
    k = 2 * np.pi / nk * rng.integers(nk, size=(count(rng), 2))
    w = rng.uniform(0.1, 0.3, size=(nk, nk, nm))
    yield diagrams.fan_migdal_self_energy(k, e, w, rng.uniform(size=(len(k), nm, nk, nk, nb, nb)), np.array([0.1 + 0.1j, 0.2j]))
    v = gen.cnormal(rng, (nk, nk, 2, nb, nb))
    v = v + v.swapaxes(-1, -2).conj()
    omega = np.linspace(-1, 1, 5)
    A = rng.uniform(size=(nk, nk, nb, len(omega)))
    yield diagrams.green_kubo_conductivity(v, A, omega)


@item
def grids(rng):
    data = rng.normal(size=(3, 4, 2))
    yield bravais.resize(data, shape=(int(rng.integers(1, 5)), int(rng.integers(1, 5))))
    yield bravais.resize(data, shape=(2, 3), angle=90)
    at = gen.cell(rng)
    tau = rng.uniform(size=(2, 3)).dot(at)
    n = [int(x) for x in rng.integers(1, 4, size=3)]
    R, N, L = bravais.wigner(*n, at, tau)
    sort = np.lexsort(R.T)      # (the order of lattice vectors is not specified)
    yield R[sort], N[sort], L[sort]
    e = rng.normal(size=(4, 4))
    D = dos.hexDOS(e)
    yield np.array([float(D(x)) for x in np.linspace(-1, 1, 5)])
    D = dos.hexa2F(e, rng.normal(size=(4, 4)))
    yield np.array([float(D(x)) for x in np.linspace(-1, 1, 5)])
    dd = dos.double_delta(rng.normal(size=(4, 4)), rng.normal(size=(4, 4)))
    r = dd(0.0)
    keys = sorted(r)
    yield np.array(keys, dtype=float).reshape(-1, 2)
    yield np.array([r[x] for x in keys], dtype=float)
    I = dos.isoline(e)(0.1)
    yield np.array(sorted(len(c) for c in I))


@item
def couplings(rng):
    m = gen.coupling(rng, no=2)
    q, k = gen.kpoint(rng), gen.kpoint(rng)
    m.data[...] = comm.bcast(m.data)
    for q1 in q, q, q * (1, 1, 0.5):
        yield m.g(*q1, *k, broadcast=True, comm=comm)
    yield m.g(*q, *k, broadcast=True, comm=comm, elbnd=True, phbnd=True)
    nk = [(2, 2), (3,), (2, 1, 2)][rng.integers(3)]
    qs = 2 * np.pi * rng.integers(0, 2, size=(count(rng), len(nk))) / np.array(nk)
    yield m.sample(qs, nk, shared_memory=bool(rng.integers(2)))
    U = dispersion.dispersion_full_nosym(m.el.H, 2, vectors=True)[1]
    u = dispersion.dispersion(m.ph.D, np.array([[0, np.pi], [np.pi, np.pi]]), vectors=True)[1]
    yield elph.sample(m.g, np.array([[0, np.pi], [np.pi, np.pi]]), (2, 2), U=U, u=u, squared=True)
    s = m.supercell(2, 1, 1)
    q, k = gen.kpoint(rng), gen.kpoint(rng)
    yield s.g(*q, *k, broadcast=True, comm=comm)
    m.standardize()
    yield m.g(*q, *k, broadcast=True, comm=comm)
    x, y = gen.electrons(rng), gen.phonons(rng)
    s = x.supercell(2, 1, 2)
    yield s.H(*k)
    s = y.supercell(1, 2, 1)
    yield s.D(*k)
    y.standardize(eps=1e-12)
    yield y.D(*k)
    x.symmetrize()
    yield x.H(*k)


def flat(x):
    for y in x:
        if isinstance(y, (tuple, list)):
            yield from flat(y)
        else:
            yield y


def main():
    seed, out, trials = int(sys.argv[1]), sys.argv[2], int(sys.argv[3])
    res = {}
    for trial in range(trials):
        for n, f in enumerate(ITEMS):
            rng = np.random.default_rng([seed, trial, n])
            open('%s.%d.progress' % (out, comm.rank), 'w').close()
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    for i, x in enumerate(flat(f(rng))):
                        res['%s %d %d' % (f.__name__, trial, i)] = np.zeros(0) if x is None else np.asarray(x)
            except BaseException:
                with open('%s.%d.error' % (out, comm.rank), 'w') as g:
                    g.write('%s: %s' % (f.__name__, traceback.format_exc()))
                if comm.size > 1:
                    comm.Abort(1)
                sys.exit(1)
    np.savez('%s.%d.npz' % (out, comm.rank), **res)


main()
