"""C08: minimal images are complete and carry total weight one."""
import numpy as np
from engine.contract import contract, bounded
from elphmod import bravais
from . import gen

FORM = {60: 1, 90: 0, 120: -1}
ANGLES = [dict(angle=a) for a in FORM]


def square(x, y, angle):
    return x * x + y * y + FORM[angle] * x * y


def nearest(k1, k2, nk, angle, dk1=0, dk2=0, eps=0):
    """all periodic images with minimal distance to the reference point (brute force)"""
    o1, o2 = (int(np.floor(d / nk)) for d in (dk1, dk2))
    ims = [(k1 % nk + (o1 + a) * nk, k2 % nk + (o2 + b) * nk) for a in range(-3, 4) for b in range(-3, 4)]
    d = [square(x - dk1, y - dk2, angle) for x, y in ims]
    return {i for i, x in zip(ims, d) if x - min(d) <= eps}, sorted(d)


@contract('C08', cases=ANGLES, trials=30)
def voronoi(V, angle):
    """any point of any mesh, any shift of the cell, any tolerance: the images returned are equivalent to the point, none
    is farther away than any other image plus the tolerance, and no image as close as all of them is missing. Stated for
    the four images around the reference point, one of which is closer than any fifth."""
    nk = V.dim('nk')
    k = V.int('k1'), V.int('k2')
    m = V.int('m1'), V.int('m2')
    x = V.real('x1'), V.real('x2')
    e = V.real('e', nonneg=True)
    V.require(V.and_(0 <= x[0], x[0] < 1, 0 <= x[1], x[1] < 1))
    # any real number is k - n (x + m) for one integer m and one x within [0, 1)
    dk = [k[i] - nk * (x[i] + m[i]) for i in range(2)]
    eps = e * nk ** 2
    tol = 0 if V.symbolic else 1e-9 * (nk ** 2 + dk[0] ** 2 + dk[1] ** 2)
    image = lambda *a: [k[i] - nk * (m[i] + a[i]) for i in range(2)]
    d = lambda p: square(p[0] - dk[0], p[1] - dk[1], angle)
    corners = [image(a, b) for a in (0, 1) for b in (0, 1)]
    # real numbers include the integers
    a = V.real('a'), V.real('b')
    p = image(*a)
    outside = V.or_(a[0] <= -1, a[0] >= 2, a[1] <= -1, a[1] >= 2)
    V.holds('four images suffice', V.implies(outside, V.or_(*[d(c) < d(p) + tol for c in corners])))
    S = list(V.call(bravais.to_Voronoi, *k, nk, angle=angle, dk1=dk[0], dk2=dk[1], epsilon=eps))
    for s in S:
        V.holds('equivalent', V.and_((s[0] - k[0]) % nk == 0, (s[1] - k[1]) % nk == 0))
    for p in corners:
        for s in S:
            V.holds('near', d(s) <= d(p) + (eps + tol))
        V.holds('complete', V.or_(*[d(s) < d(p) + tol for s in S], *[V.and_(s[0] == p[0], s[1] == p[1]) for s in S]))


@bounded('C08', cases=ANGLES, trials=1, budget=120)
def cell(V, angle):
    """every point of every mesh of up to 16 points per dimension, exact integer arithmetic"""
    for nk in range(1, 17):
        for k1 in range(nk):
            for k2 in range(nk):
                S = V.call(bravais.to_Voronoi, k1, k2, nk, angle=angle)
                V.holds('minimal images', set(S) == nearest(k1, k2, nk, angle)[0], (k1, k2, nk))
                V.holds('distinct', len(set(S)) == len(S))


@bounded('C08', cases=ANGLES, trials=60)
def any_point(V, angle):
    """points outside the mesh, shifted cells, any tolerance"""
    rng = V.rng
    nk = int(rng.integers(1, 9))
    k1, k2 = map(int, rng.integers(-3 * nk, 3 * nk + 1, size=2))
    dk = rng.uniform(-1, 1, size=2) * rng.choice([1, 1, nk])
    if rng.random() < 0.5:
        dk = np.round(2 * dk) / 2
    elif rng.random() < 0.3:
        dk = np.round(3 * dk) / 3
    dk1, dk2 = map(float, dk)
    eps = 1e-8
    E, d = nearest(k1, k2, nk, angle, dk1, dk2, eps)
    V.require(not np.any((np.array(d) - d[0] > eps / 10) & (np.array(d) - d[0] < eps * 10)))
    S = V.call(bravais.to_Voronoi, k1, k2, nk, angle=angle, dk1=dk1, dk2=dk2, epsilon=eps)
    V.holds('minimal images', set(S) == E, (k1, k2, nk, dk1, dk2, sorted(S), sorted(E)))
    V.eq('squared distance', V.call(bravais.squared_distance, k1, k2, angle=angle), square(k1, k2, angle))


@bounded('C08', cases=ANGLES, trials=25)
def two_dimensional_lists(V, angle):
    rng = V.rng
    nk = int(rng.integers(1, 9))
    dk = rng.choice([0, 0, 1]) * np.round(rng.uniform(-1, 1, size=2) * 6) / 6
    dk1, dk2 = map(float, dk)
    eps = 1e-8
    R, N, L = V.call(bravais.wigner_2d, nk, angle=angle, dk1=dk1, dk2=dk2, epsilon=eps)
    R = [tuple(map(int, r)) for r in R]
    V.holds('distinct', len(set(R)) == len(R))
    V.holds('sorted', R == sorted(R))
    for k1 in range(nk):
        for k2 in range(nk):
            E, d = nearest(k1, k2, nk, angle, dk1, dk2, eps)
            n = [i for i, r in enumerate(R) if (r[0] - k1) % nk == 0 == (r[1] - k2) % nk]
            V.holds('images', {R[i] for i in n} == E, (nk, k1, k2, dk1, dk2))
            V.eq('total weight', sum(1 / N[i] for i in n), 1, tol=1e-12)
            for i in n:
                V.eq('length', L[i], np.sqrt(square(*R[i], angle)), tol=1e-12)


def expected(nr, at, tau, tau2, sgn, eps):
    """{lattice vector: (degeneracies, lengths)}, smallest gap between an accepted and a rejected image, range"""
    data, gap, far = {}, np.inf, 0
    span = np.array([(a, b, c) for a in range(-4, 5) for b in range(-4, 5) for c in range(-4, 5)])
    for m in np.ndindex(*nr):
        C = sgn * (np.array(m) + span * nr)
        T = C.dot(at)
        for i in range(len(tau)):
            for j in range(len(tau2)):
                d = np.linalg.norm(T + tau2[j] - tau[i], axis=1)
                close = d - d.min() < eps
                if not close.all():
                    gap = min(gap, d[~close].min() - d.min())
                if close.sum() > 1:
                    gap = min(gap, eps / max(d[close].max() - d.min(), 1e-30) * eps)
                for n in np.where(close)[0]:
                    far = max(far, *(x if x >= 0 else -1 - x for x in span[n]))
                    R = tuple(int(x) for x in C[n])
                    if R not in data:
                        data[R] = np.zeros((len(tau), len(tau2)), dtype=int), np.zeros((len(tau), len(tau2)))
                    data[R][0][i, j] = close.sum()
                    data[R][1][i, j] = d[n]
    return data, gap, far


@bounded('C08', cases=[dict(kind=k) for k in range(6)], trials=10, budget=120)
def lists(V, kind):
    """any lattice vectors and sites for which the minimal images are within the search range of the routine"""
    rng = V.rng
    if kind < 5:
        at = gen.cell(rng, kind)
    else:
        at = np.array([[-1, 0, 1], [0, 1, 1], [-1, 1, 0]]) * rng.uniform(2, 4)      # fcc
    n = int(rng.integers(1, 4))
    frac = rng.uniform(size=(n, 3))
    if rng.random() < 0.6:
        frac = rng.integers(0, 6, size=(n, 3)) / 6      # equal distances
    if rng.random() < 0.3:
        frac -= rng.integers(0, 2, size=(n, 3))
    tau = frac.dot(at)
    tau2 = None
    if rng.random() < 0.4:
        tau2 = (rng.integers(0, 6, size=(int(rng.integers(1, 4)), 3)) / 6).dot(at)
    nr = [int(x) for x in rng.integers(1, 4, size=3)]
    sgn = int(rng.choice([-1, 1]))
    eps = 1e-6
    data, gap, far = expected(nr, at, tau, tau if tau2 is None else tau2, sgn, eps)
    V.require(far <= 1 and gap > 100 * eps)
    kw = {} if tau2 is None else dict(tau2=tau2)
    R, N, L = V.call(bravais.wigner, *nr, at, tau, eps=eps, sgn=sgn, **kw)
    R = [tuple(int(x) for x in r) for r in R]
    V.holds('distinct', len(set(R)) == len(R))
    V.holds('minimal images', set(R) == set(data), (sorted(set(R) ^ set(data))))
    for r, n, l in zip(R, N, L):
        V.holds('degeneracies', np.array_equal(n, data[r][0]), (r, n, data[r][0]))
        V.eq('lengths', l, data[r][1], tol=1e-9)
    W = {}
    for r, n in zip(R, N):
        m = tuple(int(x) for x in np.array(r) * sgn % nr)
        W[m] = W.get(m, 0) + np.divide(1, n, where=n > 0, out=np.zeros(n.shape))
    V.holds('every mesh vector', len(W) == np.prod(nr))
    for m, w in W.items():
        V.eq('total weight', w, np.ones(w.shape), tol=1e-12)


@bounded('C08', cases=[dict(displacements=d) for d in (False, True)], trials=12, budget=120)
def folded_data(V, displacements):
    """mapping data onto the Wigner-Seitz cell: total weight of each mesh entry, only at minimal images"""
    rng = V.rng
    at = gen.cell(rng)
    n = int(rng.integers(1, 3))
    tau = (rng.integers(0, 6, size=(n, 3)) / 6).dot(at) if rng.random() < 0.5 else rng.uniform(size=(n, 3)).dot(at)
    nr = [int(x) for x in rng.integers(1, 4, size=3)]
    sgn = int(rng.choice([-1, 1]))
    expect, gap, far = expected(nr, at, tau, tau, sgn, 1e-7)
    V.require(far <= 1 and gap > 1e-5)
    shape = (n, n, *nr) + ((3, 3) if displacements else ())
    A = rng.normal(size=shape) if displacements else gen.cnormal(rng, shape)
    div = bool(rng.integers(2))
    r = V.call(bravais.short_range_model, A.copy(), at, tau, sgn=sgn, divide_ndegen=div)
    R, D, L = r
    R = [tuple(int(x) for x in x) for x in R]
    V.holds('distinct', len(set(R)) == len(R))
    bl = 3 if displacements else 1
    got = {x: d.reshape((n, bl, n, bl)) for x, d in zip(R, D)}
    full = {x: (e[0], np.array([[A[(i, j, *(sgn * np.array(x) % nr))] for j in range(n)] for i in range(n)])) for x, e in expect.items()}
    for x, (deg, val) in full.items():
        val = val.reshape((n, n, bl, bl)).transpose(0, 2, 1, 3)
        w = (deg > 0) / (np.maximum(deg, 1) if div else 1)
        e = val * w[:, None, :, None]
        g = got.get(x, np.zeros(e.shape))
        if not div:
            g = g * (deg > 0)[:, None, :, None]
        V.eq('entries', g, e, tol=1e-9)
    V.holds('only minimal images', set(R) <= set(full) | {(0, 0, 0)}, sorted(set(R) - set(full)))


@bounded('C08', trials=12)
def defaults(V):
    """without further arguments: no shift, axes at 60 (points) and 120 degrees (list)"""
    nk = int(V.rng.integers(1, 8))
    k1, k2 = (int(x) for x in V.rng.integers(-20, 20, size=2))
    V.eq('distance', V.call(bravais.squared_distance, k1, k2), square(k1, k2, 60))
    V.holds('images', V.call(bravais.to_Voronoi, k1, k2, nk) == nearest(k1, k2, nk, 60, 0, 0, 0)[0], (k1, k2, nk))
    for x, y in zip(V.call(bravais.wigner_2d, nk), V.call(bravais.wigner_2d, nk, angle=120, dk1=0.0, dk2=0.0)):
        V.eq('list', np.array(x), np.array(y))
