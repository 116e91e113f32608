"""C20: long-range terms."""
import numpy as np
from engine.contract import contract, bounded
from elphmod import bravais, misc, elph, ph
from contracts import gen


def model(V, lr2d=False, Q=False, L=False, perp=True):
    nG, nat = V.dim('nG', small=(1, 4)), V.dim('nat', small=(1, 2))
    m = ph.Model()
    # reciprocal vectors are given relative to the wave vector (any values are possible)
    q = [V.real('q%d' % x) for x in range(3)]
    K = V.array('K', [nG, 3])
    m.b = V.array('b', [3, 3])
    m.G = V.build([nG, 3], lambda g, x: K[g, x] - sum(q[y] * m.b[y, x] for y in range(3)))
    m.r = V.array('r', [nat, 3])
    m.z = V.array('z', [nat, 3, 3])
    m.q = V.array('q', [nat, 3, 3, 3]) if Q else None
    m.Q = m.q
    m.Z = m.z
    m.nat = nat
    m.size = 3 * nat
    m.lr, m.lr2d, m.perp = True, lr2d, perp
    m.L = V.real('L', values=[1.0, 2.5]) if L else None
    m.prefactor = V.real('prefactor')
    m.scale = V.real('scale', values=[0.5, 2.0])
    m.eps = V.array('eps', [3, 3])
    m.r_eff = V.array('r_eff', [3, 3])
    m.D0_lr = V.array('D0', [3 * nat, 3 * nat], 'c')
    return m, nG, nat, q, K


def terms(V, m, K_, perp):
    """lists of factors and vectors as functions of the number of the reciprocal vector"""
    K = lambda g: [K_[g, x] for x in range(3)]
    if m.lr2d:
        KeK = lambda g: sum(x * x for x in K(g))
    else:
        KeK = lambda g: sum(K(g)[x] * m.eps[x, y] * K(g)[y] for x in range(3) for y in range(3))
    KrK = lambda g: sum(K(g)[x] * m.r_eff[x, y] * K(g)[y] for x in range(2) for y in range(2))
    norm = lambda g: V.sqrt(KeK(g))
    site = lambda g, i: V.exp(-V.i * sum(K(g)[x] * m.r[i, x] for x in range(3)))
    if m.lr2d and m.L is not None:
        f = lambda g: 1 - V.np(np.tanh, norm(g) * m.L / 2)
        factor = lambda g: m.prefactor * f(g) / norm(g) / (1 + f(g) / norm(g) * KrK(g))
        other = lambda g: -m.prefactor * f(g) / norm(g) / (1 - f(g) * norm(g) * m.r_eff[2, 2])
    else:
        divisor = (lambda g: norm(g) + KrK(g)) if m.lr2d else KeK
        factor = lambda g: m.prefactor * V.exp(-KeK(g) / m.scale) / divisor(g)
        other = None

    def vector(g, i, u):
        d = V.i * sum(K(g)[e] * m.z[i, e, u] for e in range(3))
        if m.Q is not None:
            d = d + sum(K(g)[x] * m.q[i, u, x, y] * K(g)[y] for x in range(3) for y in range(3)) / 2
            if other:
                d = d - KeK(g) * m.q[i, u, 2, 2] / 2
        return d * site(g, i)

    def vector2(g, i, u):
        d = V.i * norm(g) * m.z[i, 2, u]
        if m.Q is not None:
            d = d + norm(g) * sum(m.q[i, u, 2, y] * K(g)[y] for y in range(2))
        return d * site(g, i)
    return KeK, [(factor, vector)] + ([(other, vector2)] if other and perp else [])


KINDS = [dict(lr2d=False, L=False, Q=False), dict(lr2d=False, L=False, Q=True), dict(lr2d=True, L=False, Q=False),
         dict(lr2d=True, L=False, Q=True), dict(lr2d=True, L=True, Q=False), dict(lr2d=True, L=True, Q=True)]


@contract('C20', cases=[dict(k, perp=p) for k in KINDS for p in (True, False)], trials=8)
def long_range_terms(V, lr2d, L, Q, perp):
    """the list of pairs (factor, vector), up to order: any function summed over the list"""
    m, nG, nat, q, K = model(V, lr2d, Q, L, perp)
    eps = V.real('tolerance', pos=True)
    factor, vector = V.call(m.generate_long_range, *q, eps=eps)
    KeK, parts = terms(V, m, K, perp)
    i, u = V.index('i', 0, nat), V.index('u', 0, 3)
    h = V.uf('h', conc=lambda f, v: f * v ** 2 + np.cos(f), sort='c')
    V.eq('sum over reciprocal vectors', V.sum([V.shape(factor)[0]], lambda g: h(factor[g], vector[g, 3 * i + u])),
         V.sum([nG], lambda g: V.ite(KeK(g) > eps, lambda: sum(h(f(g), w(g, i, u)) for f, w in parts), 0)))
    V.eq('lengths', V.shape(factor)[0], V.shape(vector)[0])
    V.eq('components', V.shape(vector)[1], 3 * nat)


class Terms:
    """any list of factors and vectors that depend on the wave vector and on whether out-of-plane terms are requested"""
    engine_ok = True

    def __init__(self, V, n, size):
        self.V, self.n, self.size = V, n, size
        self.f = V.uf('factor', conc=lambda g, *q: np.cos(1 + g + np.dot(q, range(1, 5))), sort='r')
        self.v = V.uf('vector', conc=lambda g, i, *q: np.exp(1j * (1 + g * i + np.dot(q, range(1, 5)))), sort='c')

    def factor(self, g, q, perp=2):
        return self.f(g, *q, perp)

    def vector(self, g, i, q, perp=2):
        return self.v(g, i, *q, perp)

    def __call__(self, q1=0, q2=0, q3=0, perp=None):
        q, perp = [self.V.num(x) for x in (q1, q2, q3)], 2 if perp is None else int(perp)
        return (self.V.build([self.n], lambda g: self.factor(g, q, perp)),
                self.V.build([self.n, self.size], lambda g, i: self.vector(g, i, q, perp), 'c'))


def modular(V):
    n, size = V.dim('n', small=(0, 3)), V.dim('size', small=(1, 4))
    m = ph.Model()
    m.generate_long_range = t = Terms(V, n, size)
    m.D0_lr = V.array('D0', [size, size], 'c')
    q = [V.real('q%d' % x) for x in range(3)]
    return n, size, m, t, q, V.index('i', 0, size), V.index('j', 0, size)


@contract('C20', trials=20)
def dynamical_matrix(V):
    n, size, m, t, q, i, j = modular(V)
    D = V.call(m.D_lr, *q)
    V.eq('sum over terms', D[i, j], m.D0_lr[i, j] + V.sum([n], lambda g: t.factor(g, q) * V.conj(t.vector(g, i, q)) * t.vector(g, j, q)))
    V.eq('Hermitian part', D[i, j] - m.D0_lr[i, j], V.conj(D[j, i] - m.D0_lr[j, i]))


@contract('C20', trials=20)
def coupling(V):
    n, size, m, t, q, i, j = modular(V)
    c = elph.Model(el=None, ph=m)
    g = V.call(c.g_lr, *q)
    V.eq('sum over terms', g[i], V.sum([n], lambda k: t.factor(k, q, 0) * t.vector(k, i, q, 0)))


class Returns:
    engine_ok = True

    def __init__(self, value):
        self.value = value

    def __call__(self, *args, **kwargs):
        return self.value


@contract('C20', cases=[dict(divide=d, Q=Q) for d in (True, False) for Q in (True, False)], trials=20)
def sum_rule(V, divide, Q):
    """on-site term for any matrix at the zone centre, scaled charges"""
    nat = V.dim('nat', small=(1, 4))
    m = ph.Model()
    m.nat, m.size = nat, 3 * nat
    m.a = np.eye(3)
    m.lr2d, m.alpha, m.eps = True, 0.01, np.eye(3)
    m.Z = V.array('Z', [nat, 3, 3])
    m.Q = V.array('Q', [nat, 3, 3, 3]) if Q else None
    m.M = V.array('M', [nat], pos=True)
    m.divide_mass = divide
    X = V.array('X', [3 * nat, 3 * nat], 'c')
    m.D_lr = Returns(X)
    V.call(m.prepare_long_range)
    M = (lambda i: m.M[i]) if divide else (lambda i: 1)
    i, j, u, v = V.index('i', 0, nat), V.index('j', 0, nat), V.index('u', 0, 3), V.index('v', 0, 3)
    V.eq('scaled charges', m.z[i, u, v] * V.sqrt(M(i)), m.Z[i, u, v])
    if Q:
        for x in range(3):
            V.eq('scaled quadrupoles %d' % x, m.q[i, u, v, x] * V.sqrt(M(i)), m.Q[i, u, v, x])
    # the vectors are linear in the charges, so that the matrix is X divided by the masses plus the on-site term
    D = lambda j: m.D0_lr[3 * i + u, 3 * j + v] + X[3 * i + u, 3 * j + v] / V.sqrt(M(i)) / V.sqrt(M(j))
    V.eq('sum rule', V.sum([nat], lambda j: D(j) * V.sqrt(M(j))), 0)
    V.eq('on-site only', V.ite(V.eqv(i, j), 0, lambda: m.D0_lr[3 * i + u, 3 * j + v]), 0)


@bounded('C20', trials=30)
def full_model(V):
    """whole models: long-range matrix from its definition, symmetries and sum rule"""
    kind = V.choice('kind', KINDS)
    lr2d, Q, L = kind['lr2d'], kind['Q'], 3.0 if kind['L'] else None
    perp = V.choice('perp', [True, False])
    divide = V.choice('divide_mass', [True, False])
    rng = V.rng
    a_kind = V.choice('cell', [1, 2, 1, 2] if lr2d else [0, 1, 2, 3, 4])
    m = gen.phonons(rng, nat=V.choice('nat', [1, 2, 3]), lr=True, lr2d=lr2d, Q=Q, L=L, perp=perp, divide_mass=divide, a_kind=a_kind)
    m.alpha = rng.uniform(0.5, 1.2)   # (no reciprocal vectors right at the cutoff)
    V.require(np.linalg.eigvalsh(m.eps)[0] > 1)
    with gen.quiet():
        m.prepare_long_range()
    q = gen.kpoint(rng) * (1, 1, 0 if lr2d else 1)
    a, Z, M, nat = np.array(m.a), m.Z, m.M, m.nat
    b = 2 * np.pi * np.linalg.inv(a).T
    scale = 4 * m.alpha * (2 * np.pi / np.linalg.norm(a[0])) ** 2
    # all reciprocal vectors within the cutoff
    nr = [0 if lr2d and x == 2 else int(np.sqrt(28 * scale / min(1 if lr2d else np.inf, np.linalg.eigvalsh(m.eps)[0])) * np.linalg.norm(a[x]) / (2 * np.pi)) + 2
          for x in range(3)]
    G = np.array([(i, j, k) for i in range(-nr[0], nr[0] + 1) for j in range(-nr[1], nr[1] + 1) for k in range(-nr[2], nr[2] + 1)]).dot(b)
    metric = np.eye(3) if lr2d else m.eps
    G = G[np.einsum('gx,xy,gy->g', G, metric, G) < 28 * scale]
    V.eq('number of reciprocal vectors', len(m.G), len(G))
    area = np.linalg.norm(np.cross(a[0], a[1]))
    pre = 4 * np.pi / area if lr2d else 8 * np.pi / abs(np.linalg.det(a))
    r_eff = (m.eps - np.eye(3)) * a[2, 2] / 2
    w = np.sqrt(M) if divide else np.ones(nat)

    def sums(q, perp):
        """factor and vectors (atoms, directions) per reciprocal vector"""
        for g in G:
            K = g + q
            K2 = K.dot(metric).dot(K)
            if K2 < 1e-10:
                continue
            n = np.sqrt(K2)
            inplane = K[:2].dot(r_eff[:2, :2]).dot(K[:2])
            phase = np.exp(-1j * m.r.dot(K))[:, None] / w[:, None]
            v = 1j * np.einsum('e,neu->nu', K, Z)
            if Q:
                v = v + np.einsum('x,nuxy,y->nu', K, m.Q, K) / 2
            if L is not None:
                f = 1 - np.tanh(n * L / 2)
                if Q:
                    v = v - K2 * m.Q[:, :, 2, 2] / 2
                yield pre * f / (n + f * inplane), v * phase
                if perp:
                    v = 1j * n * Z[:, 2]
                    if Q:
                        v = v + n * np.einsum('nuy,y->nu', m.Q[:, :, 2, :2], K[:2])
                    yield -pre * f / n / (1 - f * n * r_eff[2, 2]), v * phase
            elif lr2d:
                yield pre * np.exp(-K2 / scale) / (n + inplane), v * phase
            else:
                yield pre * np.exp(-K2 / scale) / K2, v * phase

    def matrix(q):
        return sum((f * np.outer(v.conj(), v) for f, v in sums(q, perp)), np.zeros((3 * nat, 3 * nat), dtype=complex))
    qc = q.dot(b) / (2 * np.pi)
    size = abs(m.D_lr(*q)).max()
    V.require(np.isfinite(size) and size < 1e3)
    D, E, O = m.D_lr(*q), matrix(qc), matrix(np.zeros(3))
    onsite = np.zeros((nat, 3, nat, 3), dtype=complex)
    for i in range(nat):
        for j in range(nat):
            onsite[i, :, i] -= O.reshape((nat, 3, nat, 3))[i, :, j] * w[j] / w[i]
    onsite = onsite.reshape(O.shape)
    V.eq('long-range matrix', D / size, (E + onsite) / size, tol=1e-7)
    V.eq('opposite wave vector', m.D_lr(*-q) / size, D.conj() / size)
    V.eq('Hermitian up to on-site term', (D - onsite) / size, (D - onsite).conj().T / size, tol=1e-7)
    zero = m.D_lr().reshape((nat, 3, nat, 3))
    V.eq('sum rule', abs(np.einsum('xiyj,y->xij', zero, w)).max() / size, 0, tol=1e-7)
    # same potential in the coupling
    c = gen.coupling(rng, p=m)
    expected = sum((f * v.ravel() for f, v in sums(qc, False)), np.zeros(3 * nat, dtype=complex))
    V.eq('coupling', c.g_lr(*q) / (1 + abs(expected).max()), expected / (1 + abs(expected).max()), tol=1e-7)
    # components left out are zero
    for k in range(3):
        p = np.where(np.arange(3) < k, q, 0)
        for f in m.D_lr, c.g_lr:
            V.eq('default', f(*p[:k]) / (1 + abs(f(*p)).max()), f(*p) / (1 + abs(f(*p)).max()))


@bounded('C20', trials=12)
def range_separation(V):
    """short- plus long-range part reproduce the dynamical matrices on the mesh, whatever the charges"""
    kind = V.choice('kind', KINDS)
    lr2d, Q, L = kind['lr2d'], kind['Q'], 3.0 if kind['L'] else None
    divide = V.choice('divide_mass', [True, False])
    m = gen.phonons(V.rng, nat=V.choice('nat', [1, 2]), lr=True, lr2d=lr2d, Q=Q, L=L, divide_mass=divide, a_kind=V.choice('cell', [1, 2]))
    nq = V.choice('nq', [(2, 2, 1), (3, 2, 1), (1, 1, 1)])
    with gen.quiet():
        m.prepare_long_range()
        q = bravais.mesh(*nq, flat=True)
        D = np.array([m.D(*x) for x in q])
        D = (D + D.swapaxes(1, 2).conj()) / 2
        i = [int(np.ravel_multi_index(tuple(-np.array(x)[:len(nq)] % nq), nq)) for x in np.ndindex(*nq)]
        D = (D + D[i].conj()) / 2
        m.D0, m.q0, m.nq = D.reshape((*nq, m.size, m.size)), bravais.mesh(*nq), nq
        m.Z = m.Z * 1.7
        m.update_short_range()
        x = V.rng.integers(len(q))
        V.require(abs(m.D_lr(*q[x])).max() < 1e3)
        V.eq('matrices on the mesh', m.D(*q[x]), D[x], tol=1e-7)
