"""C23: dispersions are faithful eigenvalues, band sorting only permutes, unfolding weights."""
import numpy as np
import elphmod
from engine.contract import contract, bounded
from elphmod import dispersion


class Hermitian:
    """any Hermitian-matrix-valued function of k"""
    engine_ok = True

    def __init__(self, V, n):
        self.V, self.n = V, n
        g = lambda *x: np.cos(np.dot(x, [1, 2, 3, 1.5, 0.7]) + 1) + 1j * np.sin(np.dot(x, [2, 1, 1, 0.3, 2.5]))
        self.f = V.uf('f', conc=lambda *x: g(*x) + np.conj(g(*x[:-2], x[-1], x[-2])), sort='c')

    def __call__(self, *k):
        k = list(map(self.V.num, k)) + [self.V.num(0)] * (3 - len(k))
        return self.V.build([self.n, self.n], lambda *i: self.f(*k, *i), 'c')




def compare(V, name, lead, n, A, e, U=None, gauge=False):
    """e, U are the eigenvalues in ascending order and eigenvectors of A(*i) for all i in range(*lead)"""
    if V.symbolic:
        at = lambda i: V.np(np.linalg.eigh, A(*i))
        V.forall(name + 'eigenvalues', [*lead, n], lambda *i: (e[i], at(i[:-1])[0][i[-1]]))
        if U is not None:
            if not gauge:
                V.forall(name + 'eigenvectors', [*lead, n, n], lambda *i: (U[i], at(i[:-2])[1][i[-2:]]))
            else:
                V.forall(name + 'eigenvectors up to a phase', [*lead, n, n, n], lambda *i: (
                    U[i[:-1]] * V.conj(U[(*i[:-3], i[-1], i[-2])]), at(i[:-3])[1][i[-3:-1]] * V.conj(at(i[:-3])[1][i[-1], i[-2]])))
        return
    for i in np.ndindex(*lead):
        a = A(*i)
        V.eq(name + 'eigenvalues', e[i], np.linalg.eigvalsh(a), tol=1e-9)
        if U is not None:
            V.eq(name + 'eigenvectors', a.dot(U[i]), U[i] * e[i], tol=1e-9)
            V.eq(name + 'orthonormal', U[i].conj().T.dot(U[i]), np.eye(n), tol=1e-9)


CASES = [dict(mesh=m, dim=d, vectors=v, n=n) for m, d, v, n in [
    (1, 3, True, None), (1, 3, False, None), (2, 2, True, None), (3, 3, False, None), (1, 1, True, None), (1, 2, True, 1), (2, 2, False, 1)]]


@contract('C23', cases=CASES, trials=8)
def eigenvalues(V, mesh, dim, vectors, n):
    nk = [V.dim('nk%d' % x, small=(1, 4)) for x in range(mesh)]
    if n is None:
        n = V.dim('n', 2, small=(2, 4))
    k = V.array('k', [*nk, dim])
    A = Hermitian(V, n)
    r = V.call(dispersion.dispersion, A, k, vectors=vectors)
    e, U = r if vectors else (r, None)
    V.eq('shape', V.shape(e), (*nk, n))
    at = lambda *i: A(*[k[(*i, x)] for x in range(dim)])
    if isinstance(n, int) and n == 1:
        V.forall('eigenvalues', nk, lambda *i: (e[(*i, 0)], V.re(at(*i)[0, 0])))
        if vectors:
            V.forall('eigenvectors', nk, lambda *i: (U[(*i, 0, 0)], 1))
    else:
        compare(V, '', nk, n, at, e, U)


@contract('C23', cases=[dict(n=2), dict(n=3)], trials=8)
def gauge(V, n):
    """the gauge only changes phases and makes the largest element real"""
    nk = V.dim('nk', small=(1, 4))
    k = V.array('k', [nk, 2])
    A = Hermitian(V, n)
    e, U = V.call(dispersion.dispersion, A, k, vectors=True, gauge=True)
    compare(V, '', [nk], n, lambda i: A(k[i, 0], k[i, 1]), e, U, gauge=True)


@contract('C23', cases=[dict(vectors=True), dict(vectors=False)], trials=8)
def full_mesh(V, vectors):
    nk = V.dim('nk', small=(1, 5))
    n = V.dim('n', 2, small=(2, 4))
    A = Hermitian(V, n)
    r = V.call(dispersion.dispersion_full_nosym, A, nk, vectors=vectors)
    e, U = r if vectors else (r, None)
    V.eq('shape', V.shape(e), (nk, nk, n))
    compare(V, '', [nk, nk], n, lambda i, j: A(2 * V.pi * i / nk, 2 * V.pi * j / nk), e, U)


@contract('C23', cases=[dict(sgn=-1), dict(sgn=1)], trials=8)
def unfolding(V, sgn):
    """sum over bands of squared overlaps with Bloch states of the unit cell"""
    nk, nR, n0, m0, m = (V.dim(x, small=(1, 3)) for x in ('nk', 'nR', 'n0', 'm0', 'm'))
    k, R = V.array('k', [nk, 3]), V.array('R', [nR, 3])
    U0 = V.array('U0', [nk, n0, m0], 'c')
    U = V.array('U', [nk, nR * n0, m], 'c')
    w = V.call(dispersion.unfolding_weights, k, R, U0, U, sgn=sgn)
    V.eq('shape', V.shape(w), (nk, m))

    def overlap(q, a, b):
        return V.sum([nR, n0], lambda r, x: V.exp(sgn * 1j * V.sum(3, lambda c: k[q, c] * R[r, c])) * V.conj(U0[q, x, a]) * U[q, r * n0 + x, b])
    V.forall('weights', [nk, m], lambda q, b: (w[q, b], V.sum(m0, lambda a: V.re(overlap(q, a, b) * V.conj(overlap(q, a, b)))) * m0 / m))


@bounded('C23', trials=30)
def unfolding_blocks(V):
    """blocks of orbitals in any order, weights of complete sets of states add up to the number of states"""
    rng = V.rng
    nk, nR, n0 = (int(rng.integers(1, 4)) for _ in range(3))
    unitary = lambda *n: np.linalg.qr(rng.normal(size=n) + 1j * rng.normal(size=n))[0]
    k, R = rng.normal(size=(nk, 3)), rng.normal(size=(nR, 3))
    U0, U = unitary(nk, n0, n0), unitary(nk, nR * n0, nR * n0)
    order0 = [rng.permutation(n0) for _ in range(nR)]
    all_ = rng.permutation(nR * n0)
    order = [all_[n0 * r:n0 * (r + 1)] for r in range(nR)]
    for sgn in 1, -1:
        w = dispersion.unfolding_weights(k, R, U0, U, order0, order, sgn)
        V.holds('nonnegative', np.all(w >= 0))
        for q in range(nk):
            ref = np.zeros(nR * n0)
            for m in range(n0):
                s = np.zeros(nR * n0, dtype=complex)
                for r in range(nR):
                    for x, y in zip(order0[r], order[r]):
                        s[y] = np.exp(-sgn * 1j * k[q].dot(R[r])) * U0[q, x, m]
                ref += abs(s.conj().dot(U[q])) ** 2 / nR
            V.eq('weights', w[q], ref, tol=1e-10)
            V.eq('completeness', w[q].sum(), n0, tol=1e-10)
        perm = rng.permutation(nk)
        V.eq('order of points', dispersion.unfolding_weights(k[perm], R, U0[perm], U[perm], order0, order, sgn), w[perm], tol=1e-12)


class Model:
    """random Bloch Hamiltonian in two dimensions"""
    def __init__(self, rng, n, hermitian=True, angle=None):
        self.n, self.hermitian = n, hermitian
        self.h = [rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) for _ in range(4)]

    def __call__(self, k1=0, k2=0, k3=0):
        r = self.h[0] + np.exp(1j * k1) * self.h[1] + np.exp(1j * k2) * self.h[2] + 0.3 * np.exp(1j * k3) * self.h[3]
        return r + r.conj().T if self.hermitian else r


def points(rng, dim=2):
    kind = rng.integers(4)
    shape = {0: (int(rng.integers(1, 6)),), 1: (int(rng.integers(1, 4)), int(rng.integers(1, 4))),
             2: (2, 1, 3), 3: (1, 1)}[int(kind)]
    return rng.uniform(-4, 7, size=(*shape, dim)), shape


@bounded('C23', trials=60)
def options(V):
    """all combinations of options: eigenvalue equation, ordering by consistent permutations, unchanged arguments"""
    rng = V.rng
    n = int(rng.integers(1, 5))
    vectors, gauge, order, hermitian = (bool(rng.integers(2)) for _ in range(4))
    dim = int(rng.integers(1, 4))
    k, shape = points(rng, dim)
    if rng.random() < 0.15:
        k, shape, dim = k.ravel(), (k.size,), 1
    A = Model(rng, n, hermitian)
    by_mean = bool(rng.integers(2))
    copy = k.copy()
    arg = k.tolist() if rng.random() < 0.3 else k
    r = dispersion.dispersion(A, arg, vectors=vectors, gauge=gauge, order=order, hermitian=hermitian, shared_memory=bool(rng.integers(2)),
                              **dict(by_mean=by_mean) if order else {})
    V.eq('k unchanged', k, copy, tol=0)
    r = list(r) if vectors or order else [r]
    e = r.pop(0)
    U = r.pop(0) if vectors else None
    o = r.pop(0) if order else None
    V.eq('shape of eigenvalues', e.shape, (*shape, n))
    if vectors:
        V.eq('shape of eigenvectors', U.shape, (*shape, n, n))
    for i in np.ndindex(*shape):
        a = A(*np.atleast_1d(k[i]))
        ref = np.linalg.eigvalsh(a) if hermitian else np.sort(np.linalg.eigvals(a))
        if order:
            V.holds('permutation', sorted(o[i]) == list(range(n)))
            V.eq('ordered eigenvalues', e[i], ref[o[i]], tol=1e-8)
        else:
            V.eq('eigenvalues', e[i], ref, tol=1e-8)
        if vectors:
            V.eq('eigenvectors', a.dot(U[i]), U[i] * e[i], tol=1e-8)
            V.eq('normalised', (abs(U[i]) ** 2).sum(axis=0), np.ones(n), tol=1e-9)
            if hermitian:
                V.eq('orthonormal', U[i].conj().T.dot(U[i]), np.eye(n), tol=1e-9)
            if gauge:
                big = np.array([max(U[i][:, b], key=abs) for b in range(n)])
                V.eq('largest element real', big, abs(big), tol=1e-9)


def crossing(rng, n, points):
    """bands with distinct orbital characters that cross along a path"""
    slope, off = rng.normal(size=n), rng.normal(size=n)
    W = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    energy = lambda t: slope * t + off
    return energy, W, lambda t=0.0, *_: (W * energy(t)).dot(W.conj().T)


@bounded('C23', trials=40)
def disentangle(V):
    """band ordering gives permutations, follows the character of crossing bands, and sorts them by average energy"""
    rng = V.rng
    n, N = int(rng.integers(1, 5)), int(rng.integers(1, 12))
    energy, W, A = crossing(rng, n, N)
    t = np.sort(rng.uniform(-2, 2, size=N))
    V.require(all(np.diff(np.sort(energy(x))).min(initial=1) > 1e-3 for x in t))
    e, U, o = dispersion.dispersion(A, t.reshape(N, 1), vectors=True, order=True)
    ref = np.array([energy(x) for x in t])
    mean = np.argsort(ref.sum(axis=0), kind='stable')
    V.eq('bands of the same character', e, ref[:, mean], tol=1e-8)
    for i in range(N):
        V.eq('characters', abs(W[:, mean].conj().T.dot(U[i])), np.eye(n), tol=1e-6)
    v = np.array([np.linalg.eigh(A(x))[0] for x in t])
    Q = np.array([np.linalg.eigh(A(x))[1] for x in t])
    b = dispersion.band_order(v, Q, by_mean=False, status=False)
    for i in range(N):
        V.holds('permutation', sorted(b[i]) == list(range(n)))
        V.eq('bands of the first point', v[i, b[i]], energy(t[i])[np.argsort(energy(t[0]))], tol=1e-8)


@bounded('C23', trials=60)
def exact_crossings(V):
    """bands are followed through points where any number of them are degenerate, with arbitrary eigenvectors"""
    rng = V.rng
    n, N = int(rng.integers(2, 6)), int(rng.integers(3, 9))
    W = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    mean = rng.permutation(n)
    e = np.empty((N, n))        # energies of bands of fixed character
    v, Q = np.empty((N, n)), np.empty((N, n, n), dtype=complex)
    for i in range(N):
        e[i] = rng.permutation(n) + rng.uniform(0.1, 0.4)
        X = W * np.exp(1j * rng.uniform(0, 6, size=n))
        if i and rng.random() < 0.5:
            same = rng.permutation(n)[:rng.integers(2, n + 1)]
            e[i, same] = e[i, same[0]]
            mix = np.linalg.qr(rng.normal(size=(len(same),) * 2) + 1j * rng.normal(size=(len(same),) * 2))[0]
            X[:, same] = X[:, same].dot(mix)
        order = np.argsort(e[i], kind='stable')
        v[i], Q[i] = e[i, order], X[:, order]
    first = np.argsort(e[0])
    o = dispersion.band_order(v, Q, by_mean=False, status=False)
    for i in range(N):
        V.holds('permutation', sorted(o[i]) == list(range(n)))
        if all(np.diff(v[i]) > 1e-6):
            V.eq('bands of the first point', v[i, o[i]], e[i, first])
            V.eq('characters', abs(np.sum(W[:, first].conj() * Q[i][:, o[i]], axis=0)), np.ones(n), tol=1e-9)


@bounded('C23', trials=30)
def any_order(V):
    """ordering of arbitrary eigenvectors only permutes; degenerate points, windows"""
    rng = V.rng
    n, N = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    v = np.sort(rng.integers(0, 4, size=(N, n)).astype(float) if rng.random() < 0.5 else rng.normal(size=(N, n)), axis=1)
    Q = np.linalg.qr(rng.normal(size=(N, n, n)) + 1j * rng.normal(size=(N, n, n)))[0]
    v0, Q0 = v.copy(), Q.copy()
    for by_mean in True, False:
        o = dispersion.band_order(v, Q, by_mean=by_mean, dv=float(rng.choice([0.5, np.inf])), status=False)
        V.eq('shape', o.shape, (N, n))
        for i in range(N):
            V.holds('permutation', sorted(o[i]) == list(range(n)))
        if by_mean:
            V.holds('sorted by mean', np.all(np.diff([v[range(N), o[:, b]].sum() for b in range(n)]) > -1e-9))
        else:
            V.eq('first point', o[0], np.arange(n))
    V.eq('arguments unchanged', [np.sum(v - v0), np.sum(abs(Q - Q0))], [0, 0], tol=0)
    lead = [(N,), (), (N, 1)][rng.integers(3)]
    X = np.linalg.qr(rng.normal(size=(*lead, n, n)) + 1j * rng.normal(size=(*lead, n, n)))[0]
    perm = np.array([rng.permutation(n) for _ in range(int(np.prod(lead)))], dtype=int).reshape(*lead, n)
    Y = np.empty_like(X)
    for i in np.ndindex(*lead):
        Y[i][:, perm[i]] = X[i] * np.exp(1j * rng.uniform(0, 6, size=n)) + 1e-3 * rng.normal(size=(n, n))
    m = dispersion.map_dispersions(X, Y)
    V.eq('shape of map', m.shape, (*lead, n))
    V.eq('map', m, perm)


@bounded('C23', cases=[dict(angle=a) for a in (60, 90, 120)], trials=12)
def symmetric(V, angle):
    """full mesh from the irreducible wedge equals direct evaluation for symmetric dispersions"""
    rng = V.rng
    n, size = int(rng.integers(1, 4)), int(rng.integers(1, 9))
    W = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))[0]
    a, b = rng.normal(size=(2, n))

    def energy(k1, k2):
        third = {60: k1 - k2, 90: None, 120: k1 + k2}[angle]
        # stars of the dual lattice: nearest neighbours of the lattice with angle 180 - angle
        x = np.cos(k1) + np.cos(k2) + (0 if third is None else np.cos({60: k1 + k2, 120: k1 - k2}[angle]))
        return a + b * x
    A = lambda k1=0, k2=0: (W * energy(k1, k2)).dot(W.conj().T)
    vectors = bool(rng.integers(2))
    r = dispersion.dispersion_full(A, size, angle=angle, vectors=vectors)
    e, U = r if vectors else (r, None)
    V.eq('shape', e.shape, (size, size, n))
    for i in np.ndindex(size, size):
        h = A(*(2 * np.pi * np.array(i) / size))
        V.eq('eigenvalues', e[i], np.linalg.eigvalsh(h), tol=1e-8)
        if vectors:
            V.eq('eigenvectors', h.dot(U[i]), U[i] * e[i], tol=1e-8)
    e, o = dispersion.dispersion_full(A, size, angle=angle, order=True)
    f, Q, p = dispersion.dispersion_full_nosym(A, size, angle=angle, vectors=True, order=True)
    for i in np.ndindex(size, size):
        h = A(*(2 * np.pi * np.array(i) / size))
        ref = np.linalg.eigvalsh(h)
        V.holds('permutation', sorted(o[i]) == list(range(n)))
        V.eq('ordered eigenvalues', e[i], ref[o[i]], tol=1e-8)
        V.eq('ordered eigenvalues (no symmetry)', f[i], ref[p[i]], tol=1e-8)
        V.eq('ordered eigenvectors (no symmetry)', h.dot(Q[i]), Q[i] * f[i], tol=1e-8)


@bounded('C23', trials=20)
def rotated(V):
    """aligning phonon eigenvectors with the wave vector keeps them orthonormal and leaves the eigenvalues alone"""
    rng = V.rng
    n = 3 * int(rng.integers(1, 3))
    A = Model(rng, n)
    k = rng.uniform(0, 2 * np.pi, size=(int(rng.integers(1, 5)), 2))
    e, U = dispersion.dispersion(A, k, vectors=True, rotate=True, angle=int(rng.choice([60, 90, 120])))
    for i in range(len(k)):
        V.eq('eigenvalues', e[i], np.linalg.eigvalsh(A(*k[i])), tol=1e-8)
        V.eq('orthonormal', U[i].conj().T.dot(U[i]), np.eye(n), tol=1e-9)
        out = np.linalg.eigh(A(*k[i]))[1][2 * n // 3:]
        V.eq('out-of-plane components', abs(U[i][2 * n // 3:]), abs(out), tol=1e-9)
