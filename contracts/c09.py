"""C09: real-space models reproduce the mesh data they were made from.

Proved for any mesh, any data and whatever lattice vectors and degeneracies bravais.wigner returns: the real-space data
are the inverse Fourier transform at the lattice vector modulo the mesh, per degeneracy, in the units of the model. That
the shares of one location add up to one (so that the Fourier transform back gives the mesh data) is the bounded part."""
import numpy as np
from engine.contract import contract, bounded
from . import gen
import elphmod
from elphmod import bravais, el, elel, ph, elph, misc


def mesh(V, limit=3):
    dim = V.choice('dim', [1, 2, 3])
    return tuple(int(V.choice('n%d' % i, list(range(1, limit + 2 if dim < 3 else limit + 1)))) for i in range(dim))


def points(nk):
    for i in np.ndindex(*nk):
        yield i, np.array([2 * np.pi * x / n for x, n in zip(i, nk)] + [0] * (3 - len(nk)))


def basis(rng, a, n):
    """positions inside the cell, at special positions, outside the cell"""
    kind = rng.integers(3)
    if kind == 0:
        r = rng.uniform(0, 1, size=(n, 3))
    elif kind == 1:
        r = rng.integers(0, 2, size=(n, 3)) / 2
    else:
        r = rng.uniform(-1, 1, size=(n, 3))
    return r.dot(a)


@bounded('C09', trials=24)
def electrons(V):
    rng = V.rng
    nk = mesh(V)
    no = V.choice('no', [1, 2, 3])
    a = gen.cell(rng)
    r = basis(rng, a, no)
    H = gen.cnormal(rng, (*nk, no, no))
    if V.choice('hermitian', [True, False]):
        H = H + H.conj().swapaxes(-1, -2)
    keep = H.copy()
    fft = V.choice('fft', [True, True, False])
    unit = V.choice('rydberg', [None, False, True])
    model = el.Model(rydberg=V.choice('model rydberg', [False, True]))
    kw = {} if unit is None else dict(rydberg=unit)
    data = H if fft else np.array([np.fft.ifftn(H.conj(), axes=range(len(nk))).conj()])[0]
    el.k2r(model, data, a, r, fft=fft, **kw)
    V.eq('input kept', H, keep)
    scale = misc.Ry ** (bool(unit) - model.rydberg)
    V.eq('size', model.size, no)
    for i, k in points(nk):
        V.eq('H', model.H(*k), H[i] * scale)
    V.holds('distinct lattice vectors', len({tuple(x) for x in model.R}) == len(model.R))


@bounded('C09', trials=16)
def interaction(V):
    rng = V.rng
    nk = mesh(V)
    no = V.choice('no', [1, 2, 3])
    a = gen.cell(rng)
    r = basis(rng, a, no)
    W = gen.cnormal(rng, (*nk, no, no))
    keep = W.copy()
    fft = V.choice('fft', [True, True, False])
    model = elel.Model()
    elel.q2r(model, W if fft else np.fft.ifftn(W.conj(), axes=range(len(nk))).conj(), a, r, fft=fft)
    V.eq('input kept', W, keep)
    for i, k in points(nk):
        V.eq('W', model.W(*k), W[i])
    V.holds('distinct lattice vectors', len({tuple(x) for x in model.R}) == len(model.R))


def dynamical(rng, nq, size, hermitian):
    D = gen.cnormal(rng, (*nq, size, size))
    if hermitian:
        D = D + D.conj().swapaxes(-1, -2)
    R = D.copy()
    for i in np.ndindex(*nq):
        R[i] = (D[i] + D[tuple(-x % n for x, n in zip(i, nq))].conj()) / 2
    return R


@bounded('C09', trials=24)
def phonons(V):
    rng = V.rng
    nq = mesh(V)
    m = gen.phonons(rng, nat=V.choice('nat', [1, 2]), divide_mass=V.choice('divide_mass', [True, False]))
    m.r = basis(rng, m.a, m.nat)
    D = dynamical(rng, nq, m.size, V.choice('hermitian', [True, False]))
    given = V.choice('given', [True, False])
    keep = D.copy()
    M, r, a = np.copy(m.M), m.r.copy(), m.a.copy()
    ph.q2r(m, D_full=D, divide_mass=given)
    V.eq('input kept', D, keep)
    for x, y in (('M', M), ('r', r), ('a', a)):
        V.eq(x + ' kept', getattr(m, x), y)
    w = np.repeat(np.sqrt(M), 3)
    ref = D
    if given and not m.divide_mass:
        ref = D * w[:, None] * w
    if not given and m.divide_mass:
        ref = D / w[:, None] / w
    for i, q in points(nq):
        V.eq('D', m.D(*q), ref[i])
    V.holds('mesh', tuple(int(x) for x in m.nq) == tuple(nq) + (1,) * (3 - len(nq)))
    V.holds('real force constants', not np.iscomplexobj(m.data))


@bounded('C09', trials=16)
def couplings(V):
    rng = V.rng
    nq, nk = mesh(V, 2), mesh(V, 2)
    divide_mass = V.choice('divide_mass', [True, False])
    given = V.choice('given', [True, False])
    p = gen.phonons(rng, nat=V.choice('nat', [1, 2]), divide_mass=divide_mass)
    p.r = basis(rng, p.a, p.nat)
    e = gen.electrons(rng)
    r = basis(rng, p.a, e.size)
    m = elph.Model(el=e, ph=p, divide_mass=divide_mass)
    g = gen.cnormal(rng, (*nq, p.size, *nk, e.size, e.size))
    keep = g.copy()
    elph.q2r(m, nq, nk, g, r, divide_mass=given)
    V.eq('input kept', g, keep)
    w = np.repeat(np.sqrt(p.M), 3)[:, None, None] ** (given - divide_mass if given != divide_mass else 0)
    for _ in range(6):
        i = tuple(int(rng.integers(n)) for n in nq)
        j = tuple(int(rng.integers(n)) for n in nk)
        q = [2 * np.pi * x / n for x, n in zip(i, nq)] + [0] * (3 - len(nq))
        k = [2 * np.pi * x / n for x, n in zip(j, nk)] + [0] * (3 - len(nk))
        V.eq('g', m.g(*q, *k), g[i][(slice(None), *j)] * w)
    # again with the lattice vectors of the model, new data
    if V.choice('again', [True, False]):
        g = gen.cnormal(rng, g.shape)
        elph.q2r(m, nq, nk, g, divide_mass=given)
        for _ in range(3):
            i = tuple(int(rng.integers(n)) for n in nq)
            j = tuple(int(rng.integers(n)) for n in nk)
            q = [2 * np.pi * x / n for x, n in zip(i, nq)] + [0] * (3 - len(nq))
            k = [2 * np.pi * x / n for x, n in zip(j, nk)] + [0] * (3 - len(nk))
            V.eq('g', m.g(*q, *k), g[i][(slice(None), *j)] * w)


@bounded('C09', trials=16)
def short_range(V):
    """every mesh point is represented with total weight one for each pair of sites"""
    rng = V.rng
    nr = tuple(int(x) for x in rng.integers(1, 4, size=3))
    nb, nc = V.choice('nb', [1, 2]), V.choice('nc', [1, 3])
    sgn = V.choice('sgn', [1, -1])
    at = gen.cell(rng)
    tau = basis(rng, at, nb)
    data = rng.normal(size=(nb, nb, *nr, nc, nc))
    keep = data.copy()
    R, const, l = bravais.short_range_model(data, at, tau, sgn=sgn)
    V.eq('input kept', data, keep)
    V.holds('distinct lattice vectors', len({tuple(x) for x in R}) == len(R))
    total = np.zeros_like(data)
    for n in range(len(R)):
        m = tuple(int(x) for x in sgn * R[n] % nr)
        for i in range(nb):
            for j in range(nb):
                total[(i, j, *m)] += const[n, i * nc:(i + 1) * nc, j * nc:(j + 1) * nc]
                if np.any(const[n, i * nc:(i + 1) * nc, j * nc:(j + 1) * nc] != 0):
                    V.eq('distance', l[n, i, j], np.linalg.norm(R[n].dot(at) + tau[j] - tau[i]))
    V.eq('total', total, data)


def shares(nr, at, tau, tau2, sgn=1):
    """{(i, j): {lattice vector: share}} of nearest periodic images, or None if ambiguous or out of range"""
    from .c08 import expected
    data, gap, far = expected(nr, at, tau, tau2, sgn, 1e-7)
    if far > 1 or gap < 1e-5:
        return None
    w = {(i, j): {} for i in range(len(tau)) for j in range(len(tau2))}
    for R, (n, l) in data.items():
        for i, j in w:
            if n[i, j]:
                w[i, j][R] = 1 / n[i, j]
    return w


def sites(rng, a, n):
    return (rng.integers(0, 4, size=(n, 3)) / 4 if rng.random() < 0.5 else rng.uniform(size=(n, 3))).dot(a)


def entry(R, data, r):
    n = [i for i, x in enumerate(R) if tuple(int(y) for y in x) == tuple(r)]
    assert len(n) < 2
    return data[n[0]] if n else np.zeros_like(data[0])


@bounded('C09', cases=[dict(kind=k) for k in ('el', 'elel', 'ph')], trials=12, budget=120)
def nearest_images(V, kind):
    """each mesh element is assigned to the nearest periodic images of its pair of sites, in equal shares"""
    rng = V.rng
    nk = mesh(V)
    nr = nk + (1,) * (3 - len(nk))
    n = int(rng.integers(1, 4))
    if kind == 'ph':
        m = gen.phonons(rng, nat=n, divide_mass=False)
        a = m.a
        m.r = r = sites(rng, a, n)
    else:
        a = gen.cell(rng)
        r = sites(rng, a, n)
    w = shares(nr, a, r, r, -1 if kind == 'ph' else 1)
    V.require(w is not None)
    if kind == 'ph':
        D = dynamical(rng, nk, m.size, True)
        ph.q2r(m, D_full=D, divide_mass=False)
        t = np.fft.ifftn(D, axes=range(len(nk))).real
        c, sgn = 3, -1
    else:
        H = gen.cnormal(rng, (*nk, n, n))
        if kind == 'el':
            m = el.Model()
            el.k2r(m, H, a, r)
        else:
            m = elel.Model()
            elel.q2r(m, H, a, r)
        t = np.fft.ifftn(H.conj(), axes=range(len(nk))).conj()
        c, sgn = 1, 1
    t = t.reshape((*nr, n * c, n * c))
    V.holds('distinct lattice vectors', len({tuple(x) for x in m.R}) == len(m.R))
    for R in {tuple(int(y) for y in x) for x in m.R} | {R for x in w.values() for R in x}:
        T = t[tuple(sgn * np.array(R) % nr)]
        got = entry(m.R, m.data, R)
        for (i, j), s in w.items():
            x = slice(i * c, i * c + c), slice(j * c, j * c + c)
            V.eq('share', got[x], T[x] * s.get(R, 0), tol=1e-9)


@bounded('C09', trials=12, budget=120)
def nearest_images_coupling(V):
    """the displaced atom and the initial orbital are nearest images as seen from the final orbital"""
    rng = V.rng
    nq, nk = mesh(V, 2), mesh(V, 2)
    p = gen.phonons(rng, nat=V.choice('nat', [1, 2]), divide_mass=True)
    p.r = sites(rng, p.a, p.nat)
    e = gen.electrons(rng)
    r = sites(rng, p.a, e.size)
    one = lambda n: n + (1,) * (3 - len(n))
    wg, wk = shares(one(nq), p.a, r, p.r), shares(one(nk), p.a, r, r)
    V.require(wg is not None and wk is not None)
    m = elph.Model(el=e, ph=p, divide_mass=True)
    g = gen.cnormal(rng, (*nq, p.size, *nk, e.size, e.size))
    elph.q2r(m, nq, nk, g, r)
    g = np.moveaxis(g.reshape((*one(nq), p.size, *one(nk), e.size, e.size)), 3, 6)
    t = np.fft.ifftn(g.conj(), axes=range(6)).conj()
    for Rg in {tuple(int(y) for y in x) for x in m.Rg} | {R for x in wg.values() for R in x}:
        for Rk in {tuple(int(y) for y in x) for x in m.Rk} | {R for x in wk.values() for R in x}:
            T = t[(*(np.array(Rg) % one(nq)), *(np.array(Rk) % one(nk)))]
            f = np.array([[[wg[i, x // 3].get(Rg, 0) * wk[i, j].get(Rk, 0) for j in range(e.size)] for i in range(e.size)] for x in range(p.size)])
            if [R for R in m.Rg if tuple(R) == Rg]:
                got = entry(m.Rk, np.moveaxis(entry(m.Rg, m.data, Rg), 1, 0), Rk)
            else:
                got = np.zeros_like(T)
            V.eq('share', got, T * f, tol=1e-9)


def hexagonal(rng, angle):
    """springs between atoms on threefold axes: invariant under threefold rotations and x -> -x"""
    a = np.eye(3)
    a[:2, :2] = bravais.translations(180 - angle)
    a[2, 2] = rng.uniform(3, 5)
    a[:2] *= rng.uniform(2, 4)
    nat = int(rng.integers(1, 4))
    third = rng.integers(0, 3, size=nat) / 3
    frac = np.array([third, (2 if angle == 60 else 1) * third + rng.integers(0, 2, size=nat), rng.uniform(0, 0.4, size=nat)]).T
    frac[:, 2] += np.arange(nat) * 0.2
    m = gen.phonons(rng, nat=nat, divide_mass=False)
    m.a, m.r = a, frac.dot(a)
    R = np.array([(i, j, 0) for i in range(-5, 6) for j in range(-5, 6)])
    C = np.zeros((len(R), nat, 3, nat, 3))
    zero = np.where(~R.any(axis=1))[0][0]
    kind = rng.uniform(1, 2, size=(nat, nat))
    kind += kind.T
    for n, x in enumerate(R.dot(a)):
        for i in range(nat):
            for j in range(nat):
                d = x + m.r[j] - m.r[i]
                l = np.linalg.norm(d)
                if l < 1e-9 or l > 1.7 * a[0, 0]:
                    continue
                u = d / l
                k = kind[i, j] * np.exp(-l / 3) * (np.outer(u, u) + 0.2 * np.cos(l) * np.eye(3))
                C[n, i, :, j] -= k
                C[zero, i, :, i] += k
    return m, R, C.reshape((len(R), 3 * nat, 3 * nat))


@bounded('C09', cases=[dict(angle=a) for a in (60, 120)], trials=10, budget=120)
def irreducible_wedge(V, angle):
    """dynamical matrices at irreducible points of a symmetric crystal are enough"""
    rng = V.rng
    m, R, C = hexagonal(rng, angle)
    n = int(rng.integers(1, 6))
    m.M = rng.uniform(1, 5, size=m.nat)
    m.divide_mass = bool(rng.integers(2))
    given = bool(rng.integers(2))
    w = np.repeat(np.sqrt(m.M), 3)

    def D(q1, q2):
        # lattice vectors shift the first atom
        return np.einsum('n,nij->ij', np.exp(1j * (R[:, 0] * q1 + R[:, 1] * q2)), C)

    k = sorted(bravais.irreducibles(n, angle=angle))
    q = 2 * np.pi * np.array(k, dtype=float).reshape((-1, 2)) / n
    irr = np.array([D(*x) for x in q])
    if given:
        irr = irr / w[:, None] / w
    ph.q2r(m, irr, q, n, angle=angle, divide_mass=given, **V.choice('simple', [{}, dict(apply_asr_simple=True)]))
    V.holds('mesh', tuple(int(x) for x in m.nq) == (n, n, 1))
    for i in range(n):
        for j in range(n):
            ref = D(2 * np.pi * i / n, 2 * np.pi * j / n)
            if m.divide_mass:
                ref = ref / w[:, None] / w
            V.eq('D', m.D(2 * np.pi * i / n, 2 * np.pi * j / n), ref, tol=1e-8)


WIGNER = 'bravais.wigner by its contract (C08, C09): any lattice vectors and degeneracies'


class Cell:
    """lattice vectors R and degeneracies found for mesh sizes n, orbitals or atoms t (seen from s): real ones, symbolically any"""

    def __init__(self, V, nb):
        self.V, self.nb = V, nb
        self.a = V.array('a', [3, 3], 'r') if V.symbolic else gen.cell(V.rng)
        self.t = V.array('t', [nb, 3], 'r') if V.symbolic else basis(V.rng, self.a, nb)
        self.used = []
        if V.symbolic:
            self.N = V.dim('N')
            self.R = V.array('R', [self.N, 3], 'i')
            self.deg = V.array('deg', [self.N, nb, nb], 'i', lo=0)
            V.stub('elphmod.bravais.wigner', self.wigner, WIGNER)

    def wigner(self, *args, **kw):
        self.used.append((args, kw))
        return self.R, self.deg, None

    def check(self, n, sgn):
        V = self.V
        n = list(n) + [1] * (3 - len(n))
        if V.symbolic:
            (args, kw), = self.used
            V.holds('cell and sites', args[3] is self.a and args[4] is self.t and args[5:] == () and kw == dict(sgn=sgn))
            for x in range(3):
                V.eq('mesh %d' % x, args[x], n[x])
        else:
            self.R, self.deg, _ = bravais.wigner(*n, self.a, self.t, sgn=sgn)
            self.N = len(self.R)


def inverse(V, nq, n, R, sgn, f):
    """1/N sum_q f(q) exp(-sgn 2 pi i q . m / N) with m = sgn R mod N"""
    def go(q):
        if len(q) < len(nq):
            return V.sum(nq[len(q)], lambda x: go(q + (x,)))
        return f(q) * V.exp(-sgn * 2 * V.pi * V.i * sum(q[x] * (sgn * R[n, x] % nq[x]) / nq[x] for x in range(len(nq))))
    v = go(())
    for x in nq:
        v = v / x
    return v


def share(V, v, *deg):
    """divided by the degeneracies, nothing outside of the Wigner-Seitz cells"""
    for d in deg:
        if not V.symbolic and not d > 0:
            return 0
        v = V.ite(d > 0, v / d, 0) if V.symbolic else v / d
    return v


@contract('C09', cases=[dict(divide=d, sgn=s, nc=n) for d in (True, False) for s in (1, -1) for n in (1, 3)], trials=6)
def short_range_values(V, divide, sgn, nc):
    """data of the Wigner-Seitz model: data at sgn R modulo the mesh, per degeneracy"""
    nb = V.dim('nb', hi=2 if not V.symbolic else None)
    c = Cell(V, nb)
    nr = [V.dim('nr%d' % x, hi=None if V.symbolic else 3) for x in range(3)]
    data = V.array('data', [nb, nb, *nr, nc, nc], 'c')
    R, values, l = V.call(bravais.short_range_model, data, c.a, c.t, sgn=sgn, divide_ndegen=divide)
    c.check(nr, sgn)
    V.forall('vectors', [c.N, 3], lambda n, x: (R[n, x], c.R[n, x]))
    def expected(n, i, j, x, y):
        v = data[i, j, sgn * R[n, 0] % nr[0], sgn * R[n, 1] % nr[1], sgn * R[n, 2] % nr[2], x, y]
        return share(V, v, c.deg[n, i, j]) if divide else v
    V.forall('values', [c.N, nb, nb, nc, nc], lambda n, i, j, x, y: (values[n, i * nc + x, j * nc + y], expected(n, i, j, x, y)))


@contract('C09', cases=[dict(fft=f, divide=d, given=g, stored=s, dim=n) for f in (True, False) for d in (True, False)
                        for g, s in ((False, False), (True, False), (False, True), (True, True)) for n in (1, 2, 3) if n == 3 or f], trials=3)
def k2r(V, fft, divide, given, stored, dim):
    """hoppings: inverse Fourier transform of the Hamiltonians, per degeneracy, in the unit of the model"""
    no = V.dim('no', hi=None if V.symbolic else 2)
    nk = [V.dim('nk%d' % x, hi=None if V.symbolic else 3) for x in range(dim)]
    H = V.array('H', [*nk, no, no], 'c')
    c = Cell(V, no)
    m = el.Model()
    m.divide_ndegen, m.rydberg = divide, stored
    V.call(el.k2r, m, H, c.a, c.t, fft=fft, rydberg=given)
    c.check(nk, 1)
    V.eq('size', m.size, no)
    for x in range(3):
        V.eq('mesh of the model %d' % x, m.nk[x], nk[x] if x < dim else 1)
    V.forall('vectors', [c.N, 3], lambda n, x: (m.R[n, x], c.R[n, x]))

    def value(n, i, j):
        if fft:
            v = inverse(V, nk, n, c.R, 1, lambda q: H[(*q, i, j)])
        else:
            v = H[(*[c.R[n, x] % nk[x] for x in range(dim)], i, j)]
        if given and not stored:
            v = v * misc.Ry
        if stored and not given:
            v = v / misc.Ry
        return share(V, v, c.deg[n, i, j]) if divide else v
    V.forall('hoppings', [c.N, no, no], lambda n, i, j: (m.data[n, i, j], value(n, i, j)))


@contract('C09', cases=[dict(fft=f, dim=n) for f in (True, False) for n in (1, 2, 3) if n == 3 or f], trials=6)
def coulomb(V, fft, dim):
    """interaction: inverse Fourier transform, per degeneracy"""
    no = V.dim('no', hi=None if V.symbolic else 2)
    nq = [V.dim('nq%d' % x, hi=None if V.symbolic else 3) for x in range(dim)]
    W = V.array('W', [*nq, no, no], 'c')
    c = Cell(V, no)
    m = elel.Model()
    V.call(elel.q2r, m, W, c.a, c.t, fft=fft)
    c.check(nq, 1)
    V.eq('size', m.size, no)
    V.forall('vectors', [c.N, 3], lambda n, x: (m.R[n, x], c.R[n, x]))

    def value(n, i, j):
        v = inverse(V, nq, n, c.R, 1, lambda q: W[(*q, i, j)]) if fft else W[(*[c.R[n, x] % nq[x] for x in range(dim)], i, j)]
        return share(V, v, c.deg[n, i, j])
    V.forall('interaction', [c.N, no, no], lambda n, i, j: (m.data[n, i, j], value(n, i, j)))


@contract('C09', cases=[dict(given=d, stored=e, degen=g, dim=n) for d in (True, False) for e in (True, False) for g in (True, False) for n in (1, 2, 3)], trials=3)
def force_constants(V, given, stored, degen, dim):
    """force constants: real part of the inverse Fourier transform of the dynamical matrices, with the masses
    of both atoms divided out or not as the model wants, per degeneracy"""
    nat = V.dim('nat', hi=None if V.symbolic else 2)
    nq = [V.dim('nq%d' % x, hi=None if V.symbolic else 3) for x in range(dim)]
    D = V.array('D', [*nq, 3 * nat, 3 * nat], 'c')
    c = Cell(V, nat)
    m = ph.Model()
    m.M = M = V.array('M', [nat], 'r', pos=True)
    m.a, m.r = c.a, c.t
    m.L = None
    m.divide_mass, m.divide_ndegen = stored, degen
    if V.symbolic:
        V.stub('elphmod.ph.sum_rule_correction', lambda m, asr=True, rsr=True, **k: V.holds('no correction unless requested', not asr and not rsr), 'recorded')
    V.call(ph.q2r, m, D_full=D, divide_mass=given)
    c.check(nq, -1)
    V.eq('size', m.size, 3 * nat)
    V.eq('atoms', m.nat, nat)
    for x in range(3):
        V.eq('mesh of the model %d' % x, m.nq[x], nq[x] if x < dim else 1)
    V.forall('vectors', [c.N, 3], lambda n, x: (m.R[n, x], c.R[n, x]))

    def value(n, a, b, x, y):
        v = V.re(inverse(V, nq, n, c.R, -1, lambda q: D[(*q, 3 * a + x, 3 * b + y)]))
        if given and not stored:
            v = v * V.sqrt(M[a]) * V.sqrt(M[b])
        if stored and not given:
            v = v / V.sqrt(M[a]) / V.sqrt(M[b])
        return share(V, v, c.deg[n, a, b]) if degen else v
    for x in range(3):
        for y in range(3):
            V.forall('force constants %d%d' % (x, y), [c.N, nat, nat], lambda n, a, b: (m.data[n, 3 * a + x, 3 * b + y], value(n, a, b, x, y)))


SINGLE = [(1, 1), (1, 2), (2, 1), (2, 2)]
MASSES = [(True, True), (False, False), (True, False), (False, True)]


@contract('C09', cases=[dict(one=z, dq=n, dk=n, degen=True, given=d, stored=e) for z in SINGLE for n in (2, 3) for d, e in MASSES if z == (2, 2) or d != e]
          + [dict(one=(2, 2), dq=n, dk=l, degen=False, given=d, stored=e) for n, l in ((1, 1), (2, 2), (3, 3), (2, 3)) for d, e in MASSES], trials=2)
def coupling_values(V, one, dq, dk, degen, given, stored):
    """coupling: inverse Fourier transform with respect to q and k, per degeneracies of both lattice vectors,
    with the mass of the displaced atom divided out or not as the model wants"""
    hi = None if V.symbolic else 2
    nat = 1 if one[0] == 1 else V.dim('nat', 2, hi)
    no = 1 if one[1] == 1 else V.dim('no', 2, hi)
    nq = tuple(V.dim('nq%d' % x, hi=hi) for x in range(dq))
    nk = tuple(V.dim('nk%d' % x, hi=hi) for x in range(dk))
    g = V.array('g', [*nq, 3 * nat, *nk, no, no], 'c')
    m = elph.Model()
    m.el, m.ph = el.Model(), ph.Model()
    m.ph.size, m.ph.nat, m.el.size = 3 * nat, nat, no
    m.ph.M = M = V.array('M', [nat], 'r', pos=True)
    m.divide_ndegen, m.divide_mass = degen, stored
    full = [list(n) + [1] * (3 - len(n)) for n in (nq, nk)]
    if V.symbolic:
        m.ph.a, m.ph.r, r = V.array('a', [3, 3], 'r'), V.array('atoms', [nat, 3], 'r'), V.array('r', [no, 3], 'r')
        Ng, Nk = V.dim('Ng'), V.dim('Nk')
        Rg, Rk = V.array('Rg', [Ng, 3], 'i'), V.array('Rk', [Nk, 3], 'i')
        degg, degk = V.array('degg', [Ng, no, nat], 'i', lo=0), V.array('degk', [Nk, no, no], 'i', lo=0)

        def wigner(*args):
            n, args = args[:3], args[3:]
            two = len(args) == 3
            V.holds('cell and sites', args[0] is m.ph.a and args[1] is r and (not two or args[2] is m.ph.r))
            for x in range(3):
                V.eq('mesh %d' % x, n[x], full[0 if two else 1][x])
            return (Rg, degg, None) if two else (Rk, degk, None)
        V.stub('elphmod.bravais.wigner', wigner, WIGNER)
        V.stub('elphmod.misc.vector_index', lambda vectors, vector: 'origin' if vectors is Rk and vector == (0, 0, 0) else None, 'recorded')
    else:
        m.ph.a = gen.cell(V.rng)
        m.ph.r, r = basis(V.rng, m.ph.a, nat), basis(V.rng, m.ph.a, no)
        Rg, degg, _ = bravais.wigner(*full[0], m.ph.a, r, m.ph.r)
        Rk, degk, _ = bravais.wigner(*full[1], m.ph.a, r)
        Ng, Nk = len(Rg), len(Rk)
    V.call(elph.q2r, m, nq, nk, g, r, divide_mass=given)
    V.forall('vectors of q', [Ng, 3], lambda n, x: (m.Rg[n, x], Rg[n, x]))
    V.forall('vectors of k', [Nk, 3], lambda n, x: (m.Rk[n, x], Rk[n, x]))
    V.holds('origin', m.Rk0 == 'origin' if V.symbolic else not np.any(Rk[m.Rk0]))
    V.holds('nothing cached', m.q is None)

    def value(n, l, i, x, a, b):
        def go(p):
            if len(p) < dq + dk:
                return V.sum((nq + nk)[len(p)], lambda y: go(p + (y,)))
            R = [Rg[n, y] for y in range(dq)] + [Rk[l, y] for y in range(dk)]
            return g[(*p[:dq], 3 * i + x, *p[dq:], a, b)] * V.exp(-2 * V.pi * V.i * sum(y * (z % w) / w for y, z, w in zip(p, R, nq + nk)))
        v = go(())
        for z in nq + nk:
            v = v / z
        if degen:
            v = share(V, v, degg[n, a, i], degk[l, a, b])
        if given and not stored:
            v = v * V.sqrt(M[i])
        if stored and not given:
            v = v / V.sqrt(M[i])
        return v
    for x in range(3):
        V.forall('coupling %d' % x, [Ng, Nk, nat, no, no], lambda n, l, i, a, b: (m.data[n, 3 * i + x, l, a, b], value(n, l, i, x, a, b)))
