"""C10: Bloch matrices are the exact lattice Fourier sums."""
import numpy as np
from engine.contract import contract, bounded
from .common import prod
from . import gen
import elphmod
from elphmod import el, elel, ph, elph, misc


def lattice(V, name, n, dim=3):
    """n lattice vectors (not necessarily distinct)"""
    return V.array(name, [n, dim], 'i', lo=None if V.symbolic else -2, hi=None if V.symbolic else 2)


def phase(V, R, n, k, dim=3):
    return V.exp(V.i * sum((k[x] * R[n, x] for x in range(1, dim)), k[0] * R[n, 0]))


def wavevector(V, name='k'):
    return [V.real('%s%d' % (name, i + 1)) for i in range(3)]


def make(V, cls, nR, no, sort='c', name='data'):
    m = cls()
    m.size = no
    m.R = lattice(V, 'R', nR)
    m.data = V.array(name, [nR, no, no], sort)
    return m


KINDS = dict(el=(el.Model, 'H', 'c', +1), elel=(elel.Model, 'W', 'c', +1), ph=(ph.Model, 'D', 'r', +1))


@contract('C10', cases=[dict(kind=k) for k in KINDS], trials=15)
def bloch_sum(V, kind):
    cls, name, sort, sgn = KINDS[kind]
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, cls, nR, no, sort)
    if kind == 'ph':
        m.lr = False
    k = wavevector(V)
    H = V.call(getattr(m, name), *k)
    V.eq('shape', V.shape(H)[0], no)
    V.forall('sum', [no, no], lambda a, b: (H[a, b], V.sum(nR, lambda n: m.data[n, a, b] * phase(V, m.R, n, k))))


@contract('C10', cases=[dict(kind=k) for k in KINDS], trials=15)
def periodic(V, kind):
    cls, name, sort, sgn = KINDS[kind]
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, cls, nR, no, sort)
    if kind == 'ph':
        m.lr = False
    k = wavevector(V)
    G = [V.int('G%d' % i) for i in range(3)]
    H = V.call(getattr(m, name), *k)
    HG = V.call(getattr(m, name), *[k[i] + 2 * V.pi * G[i] for i in range(3)])
    V.forall('H(k + G) = H(k)', [no, no], lambda a, b: (HG[a, b], H[a, b]))


@contract('C10', cases=[dict(kind=k) for k in KINDS], trials=15)
def hermitian(V, kind):
    """pairs of lattice vectors: R[n + N] = -R[n] and data[n + N] = data[n]^+"""
    cls, name, sort, sgn = KINDS[kind]
    N, no = V.dim('nR'), V.dim('no')
    m = cls()
    m.size = no
    R0 = lattice(V, 'R', N)
    d0 = V.array('data', [N, no, no], sort)
    m.R = V.build([2 * N, 3], lambda n, x: V.ite(n < N, lambda: R0[n, x], lambda: -R0[n - N, x]), 'i')
    m.data = V.build([2 * N, no, no], lambda n, a, b: V.ite(n < N, lambda: d0[n, a, b], lambda: V.conj(d0[n - N, b, a])), sort)
    if kind == 'ph':
        m.lr = False
    k = wavevector(V)
    H = V.call(getattr(m, name), *k)
    V.forall('H = H^+', [no, no], lambda a, b: (H[a, b], V.conj(H[b, a])))


@contract('C10', trials=15)
def velocity(V):
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, el.Model, nR, no)
    k = wavevector(V)
    v = V.call(m.v, *k)
    V.eq('directions', V.shape(v)[0], 3)
    V.forall('sum', [3, no, no], lambda x, a, b: (
        v[x, a, b], V.sum(nR, lambda n: V.i * m.R[n, x] * m.data[n, a, b] * phase(V, m.R, n, k))))
    if V.symbolic:
        for x in range(3):
            for part, f in ('re', V.re), ('im', V.im):
                a, b = V.index('a', 0, no), V.index('b', 0, no)
                V.deriv('d %s H/dk%d' % (part, x + 1), lambda t: f(V.call(m.H, *k[:x], t, *k[x + 1:])[a, b]), k[x], f(v[x, a, b]))
    else:
        h = 1e-5
        for x in range(3):
            d = [0] * 3
            d[x] = h
            num = (m.H(*np.add(k, d)) - m.H(*np.subtract(k, d))) / (2 * h)
            V.eq('dH/dk%d' % (x + 1), v[x], num, tol=1e-5)


@contract('C10', cases=[dict(kind=k) for k in KINDS], trials=20)
def lookup(V, kind):
    cls, name, sort, sgn = KINDS[kind]
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, cls, nR, no, sort)
    n0 = V.int('n0', 0, None if V.symbolic else nR - 1)
    V.require(n0 < nR)
    # distinct lattice vectors
    if V.symbolic:
        V.forall_fact([nR], lambda n: V.or_(V.eqv(n, n0), *[V.ne(m.R[n, x], m.R[n0, x]) for x in range(3)]))
    else:
        V.require(len(set(map(tuple, m.R))) == nR)
    t = V.call(getattr(m, dict(el='t', elel='WR', ph='C')[kind]), *[m.R[n0, x] for x in range(3)])
    V.forall('stored', [no, no], lambda a, b: (t[a, b], m.data[n0, a, b]))


@contract('C10', cases=[dict(kind=k) for k in KINDS], trials=15)
def lookup_missing(V, kind):
    cls, name, sort, sgn = KINDS[kind]
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, cls, nR, no, sort)
    T = [V.int('T%d' % x) for x in range(3)]
    V.forall_fact([nR], lambda n: V.or_(*[V.ne(m.R[n, x], T[x]) for x in range(3)]))
    t = V.call(getattr(m, dict(el='t', elel='WR', ph='C')[kind]), *T)
    V.forall('zero', [no, no], lambda a, b: (t[a, b], 0))


@contract('C10', trials=20)
def vector_index(V):
    n, d = V.dim('n'), V.choice('d', [1, 2, 3]) if not V.symbolic else 3
    v = V.array('v', [n, d], 'i', lo=None if V.symbolic else -1, hi=None if V.symbolic else 1)
    x = [V.int('x%d' % i, small=(-1, 1)) for i in range(d)]
    i = V.call(misc.vector_index, v, tuple(x))
    if i is None:
        V.holds('no match', V.quant([n], lambda k: V.or_(*[V.ne(v[k, c], x[c]) for c in range(d)])))
    else:
        V.holds('range', V.and_(0 <= i, i < n))
        for c in range(d):
            V.eq('match %d' % c, v[i, c], x[c])


# -- electron-phonon coupling -----------------------------------------------------------

def coupling(V, lr=False):
    """an elph.Model with symbolic data"""
    nRq, nph, nRk, nel = V.dim('nRq'), V.dim('nph'), V.dim('nRk'), V.dim('nel')
    e = el.Model()
    e.size = nel
    p = ph.Model()
    p.size = nph
    p.lr = lr
    m = elph.Model(el=e, ph=p)
    m.Rg = lattice(V, 'Rg', nRq)
    m.Rk = lattice(V, 'Rk', nRk)
    m.data = V.array('g', [nRq, nph, nRk, nel, nel], 'c')
    m.gq = V.np(np.empty, (nph, nRk, nel, nel), complex)
    m.Rk0 = 0
    return m, nRq, nph, nRk, nel


class Returns:
    engine_ok = True

    def __init__(self, value):
        self.value = value

    def __call__(self, *args, **kwargs):
        return self.value


def coupling_sum(V, m, q, k, nRq, nRk):
    return lambda x, a, b: V.sum([nRq, nRk], lambda n, l: m.data[n, x, l, a, b] * phase(V, m.Rg, n, q) * phase(V, m.Rk, l, k))


@contract('C10', trials=15)
def coupling_bloch_sum(V):
    m, nRq, nph, nRk, nel = coupling(V)
    q, k = wavevector(V, 'q'), wavevector(V, 'k')
    g = V.call(m.g, *q, *k)
    s = coupling_sum(V, m, q, k, nRq, nRk)
    V.forall('sum', [nph, nel, nel], lambda x, a, b: (g[x, a, b], s(x, a, b)))


@contract('C10', cases=[dict(same=s) for s in ('nothing', 'q', 'one component')], trials=15)
def coupling_history(V, same):
    """two more evaluations beforehand, at any (also the same) q points"""
    m, nRq, nph, nRk, nel = coupling(V)
    q, k, k1, k2 = (wavevector(V, x) for x in ('q', 'k', 'l', 'm'))
    p = dict(nothing=lambda: wavevector(V, 'p'), q=lambda: q).get(same, lambda: [V.real('p1'), *q[1:]])()
    V.call(m.g, *q, *k1)
    V.call(m.g, *p, *k2)
    g = V.call(m.g, *q, *k)
    s = coupling_sum(V, m, q, k, nRq, nRk)
    V.forall('sum', [nph, nel, nel], lambda x, a, b: (g[x, a, b], s(x, a, b)))


@contract('C10', trials=15)
def coupling_periodic(V):
    m, nRq, nph, nRk, nel = coupling(V)
    q, k = wavevector(V, 'q'), wavevector(V, 'k')
    G = [V.int('G%d' % i) for i in range(3)]
    K = [V.int('K%d' % i) for i in range(3)]
    g = V.call(m.g, *q, *k)
    h = V.call(m.g, *[q[i] + 2 * V.pi * G[i] for i in range(3)], *[k[i] + 2 * V.pi * K[i] for i in range(3)])
    V.forall('periodic', [nph, nel, nel], lambda x, a, b: (g[x, a, b], h[x, a, b]))


@contract('C10', trials=15)
def coupling_long_range(V):
    """the long-range part is added on the orbital diagonal of the cell at the origin"""
    m, nRq, nph, nRk, nel = coupling(V, lr=True)
    m.Rk0 = V.int('Rk0', 0, None if V.symbolic else nRk - 1)
    V.require(m.Rk0 < nRk)
    q, k, p = wavevector(V, 'q'), wavevector(V, 'k'), wavevector(V, 'p')
    nG = V.dim('nG')
    F = V.array('factor', [nG])
    W = V.array('vector', [nG, nph], 'c')
    m.ph.generate_long_range = Returns((F, W))
    V.call(m.g, *p, *k)
    g = V.call(m.g, *q, *k)
    s = coupling_sum(V, m, q, k, nRq, nRk)
    V.forall('sum', [nph, nel, nel], lambda x, a, b: (
        g[x, a, b], s(x, a, b) + V.ite(V.eqv(a, b), lambda: V.sum(nG, lambda n: F[n] * W[n, x]) * phase(V, m.Rk, m.Rk0, k), 0)))


@contract('C10', cases=[dict(stored=s) for s in (True, False)], trials=20)
def coupling_lookup(V, stored):
    m, nRq, nph, nRk, nel = coupling(V)
    n0, l0 = V.int('n0', 0, None if V.symbolic else nRq - 1), V.int('l0', 0, None if V.symbolic else nRk - 1)
    V.require(n0 < nRq)
    V.require(l0 < nRk)
    if V.symbolic:
        V.forall_fact([nRk], lambda n: V.or_(V.eqv(n, l0), *[V.ne(m.Rk[n, x], m.Rk[l0, x]) for x in range(3)]))
    else:
        V.require(len(set(map(tuple, m.Rk))) == nRk)
    if stored:
        if V.symbolic:
            V.forall_fact([nRq], lambda n: V.or_(V.eqv(n, n0), *[V.ne(m.Rg[n, x], m.Rg[n0, x]) for x in range(3)]))
        else:
            V.require(len(set(map(tuple, m.Rg))) == nRq)
        t = V.call(m.gR, *[m.Rg[n0, x] for x in range(3)], *[m.Rk[l0, x] for x in range(3)])
        V.forall('stored', [nph, nel, nel], lambda x, a, b: (t[x, a, b], m.data[n0, x, l0, a, b]))
    else:
        T = [V.int('T%d' % x) for x in range(3)]
        V.forall_fact([nRq], lambda n: V.or_(*[V.ne(m.Rg[n, x], T[x]) for x in range(3)]))
        t = V.call(m.gR, *T, *[m.Rk[l0, x] for x in range(3)])
        V.forall('zero', [nph, nel, nel], lambda x, a, b: (t[x, a, b], 0))


@bounded('C10', cases=[dict(change=c) for c in ('asr', 'q2r', 'standardize', 'symmetrize', 'clear', 'lattice')], trials=6)
def coupling_after_change(V, change):
    """operations on the model do not leave results of earlier evaluations behind"""
    rng = V.rng
    m = gen.coupling(rng)
    q, k = gen.kpoint(rng), gen.kpoint(rng)
    p = gen.kpoint(rng)
    if change == 'q2r':
        q = 2 * np.pi * rng.integers(2, size=3) / 2
    m.g(*q, *k)
    if change == 'asr':
        m.asr(report=False)
    elif change == 'standardize':
        m.data[0] *= 2
        m.standardize()
    elif change == 'symmetrize':
        m.symmetrize()
    elif change == 'clear':
        m.clear()
    elif change == 'q2r':
        g = gen.cnormal(rng, (2, 2, 2, m.ph.size, 2, 2, 2, m.el.size, m.el.size))
        k = 2 * np.pi * rng.integers(2, size=3) / 2
        elph.q2r(m, (2, 2, 2), (2, 2, 2), g, m.ph.r[np.arange(m.el.size) % m.ph.nat])
    elif change == 'lattice':
        g = m.g(*p, *k)
        h = gen.gsum(m, p, k)
        V.eq('other q point', g, h)
    V.eq('g', m.g(*q, *k), gen.gsum(m, q, k))


@bounded('C10', trials=20)
def coupling_band_basis(V):
    """band basis: unitary transforms of the orbital-basis coupling at k and k + q"""
    rng = V.rng
    m = gen.coupling(rng, no=int(rng.integers(1, 4)))
    q, k = gen.kpoint(rng), gen.kpoint(rng)
    m.ph.data *= 1e6
    g = m.g(*q, *k)
    for elbnd in False, True:
        for phbnd in False, True:
            h = m.g(*q, *k, elbnd=elbnd, phbnd=phbnd)
            r = g
            if elbnd:
                r = np.einsum('am,xab,bn->xmn', np.linalg.eigh(m.el.H(*(k + q)))[1].conj(), r, np.linalg.eigh(m.el.H(*k))[1])
            if phbnd:
                r = np.einsum('xab,xu->uab', r, np.linalg.eigh(m.ph.D(*q))[1])
            V.eq('elbnd=%s, phbnd=%s' % (elbnd, phbnd), abs(h), abs(r))


@bounded('C10', trials=8)
def defaults(V):
    """components left out are zero: the zone centre, the home cell"""
    rng = V.rng
    models = [(gen.electrons(rng), ['H', 'v', 't']), (gen.coulomb(rng), ['W', 'WR']), (gen.phonons(rng), ['D', 'C'])]
    c = gen.coupling(rng)
    models.append((c, ['g', 'gR']))
    for m, names in models:
        for name in names:
            f = getattr(m, name)
            n = 6 if m is c else 3
            x = gen.kpoint(rng) if n == 3 else np.concatenate([gen.kpoint(rng), gen.kpoint(rng)])
            if name in ('t', 'WR', 'C', 'gR'):
                x = m.R[rng.integers(len(m.R))] if n == 3 else np.concatenate([m.Rg[rng.integers(len(m.Rg))], m.Rk[rng.integers(len(m.Rk))]])
            for k in range(n):
                y = np.where(np.arange(n) < k, x, 0)
                V.eq('%s with %d components' % (name, k), f(*y[:k]).copy(), f(*y).copy())
