"""C17: linear interpolation is exact on the mesh, convex and periodic; resize and stack."""
import numpy as np
from engine.contract import contract, bounded
import elphmod
from elphmod import bravais


def coordinate(V, name):
    """integer and fractional part"""
    i = V.int(name, lo=-7, hi=8)
    t = V.real(name + '_frac', values=[0.0, 0.25, 0.5, 0.9, 0.125])
    V.require(V.and_(0 <= t, t < 1))
    return i, t


def spec(V, get, N, angle, i, t, j=None, u=None):
    """convex combination of the surrounding mesh values"""
    if j is None:
        return (1 - t) * get(i % N[0]) + t * get((i + 1) % N[0])
    A, B, C, D = get(i % N[0], j % N[1]), get((i + 1) % N[0], j % N[1]), get((i + 1) % N[0], (j + 1) % N[1]), get(i % N[0], (j + 1) % N[1])
    if angle == 90:
        return (1 - t) * (1 - u) * A + t * (1 - u) * B + t * u * C + (1 - t) * u * D
    if angle == 60:
        return V.ite(t + u > 1, lambda: (1 - u) * B + (1 - t) * D + (t + u - 1) * C, lambda: t * B + u * D + (1 - t - u) * A)
    return V.ite(t > u, lambda: (1 - t) * A + u * C + (t - u) * B, lambda: (1 - u) * A + t * C + (u - t) * D)


CASES = [dict(angle=a, extra=x, axes=s) for a, x, s in [
    (None, 0, (0,)), (None, 1, (1,)), (60, 0, (0, 1)), (90, 0, (0, 1)), (120, 0, (0, 1)), (60, 1, (1, 2)), (90, 2, (0, 2)), (120, 1, (2, 0)),
    (60, 0, (1, 0)), (120, 0, (1, 0))]]


def mesh_data(V, dim, extra, axes, sort='r'):
    N = [V.dim('N%d' % d, small=(1, 4)) for d in range(dim)]
    X = [V.dim('X%d' % d, small=(1, 3)) for d in range(extra)]
    shape = [None] * (dim + extra)
    for a, n in zip(axes, N):
        shape[a] = n
    others = [k for k in range(dim + extra) if k not in axes]
    for k, n in zip(others, X):
        shape[k] = n
    data = V.array('data', shape, sort)

    def get(x, *p):
        k = [None] * (dim + extra)
        for a, n in zip(axes, p):
            k[a] = n
        for o, n in zip(others, x):
            k[o] = n
        return data[tuple(k)]
    return N, X, data, get


@contract('C17', cases=CASES, trials=15)
def interpolation(V, angle, extra, axes):
    dim = len(axes)
    N, X, data, get = mesh_data(V, dim, extra, axes)
    f = V.call(bravais.linear_interpolation, data, angle=angle, axes=axes if dim > 1 else axes[0])
    i, t = coordinate(V, 'n')
    p = (i, t)
    if dim > 1:
        p += coordinate(V, 'm')
    value = V.call(f, *[p[d] + p[d + 1] for d in range(0, 2 * dim, 2)])
    if extra:
        V.forall('convex combination of neighbours', X, lambda *x: (value[x], spec(V, lambda *q: get(x, *q), N, angle, *p)))
    else:
        V.eq('convex combination of neighbours', value, spec(V, lambda *q: get((), *q), N, angle, *p))


@contract('C17', cases=[dict(angle=a, extra=x) for a, x in [(None, 0), (60, 0), (90, 1), (120, 0)]], trials=15)
def periodic_and_exact(V, angle, extra):
    dim = 1 if angle is None else 2
    axes = tuple(range(dim))
    N, X, data, get = mesh_data(V, dim, extra, axes)
    f = V.call(bravais.linear_interpolation, data, angle=angle, axes=axes)
    i, t = coordinate(V, 'n')
    p = [i + t]
    k = [i]
    if dim > 1:
        j, u = coordinate(V, 'm')
        p.append(j + u)
        k.append(j)
    at = lambda y, x: y[x] if extra else y
    value, moved, mesh = V.call(f, *p), V.call(f, *[a + n for a, n in zip(p, N)]), V.call(f, *k)
    V.forall('periodic', X, lambda *x: (at(moved, x), at(value, x)))
    V.forall('exact on the mesh', X, lambda *x: (at(mesh, x), get(x, *[a % n for a, n in zip(k, N)])))


@contract('C17', cases=[dict(angle=a) for a in (None, 60, 90, 120)], trials=5)
def combination_lemmas(V, angle):
    """the combination is continuous across cell boundaries and exact for linear functions, its weights are nonnegative"""
    i, t = coordinate(V, 'n')
    c = [V.real('c%d' % k) for k in range(3)]
    big = V.dim('N', small=(20, 40))
    if angle is None:
        N = [big]
        g = V.uf('g', 'i') if V.symbolic else (lambda x: np.sin(1.0 + x))
        V.eq('continuous', spec(V, g, N, angle, i, 1), spec(V, g, N, angle, i + 1, 0))
        V.require(V.and_(0 <= i, i + 1 < big))
        V.eq('linear', spec(V, lambda x: c[0] + c[1] * x, N, angle, i, t), c[0] + c[1] * (i + t))
    else:
        N = [big, big]
        j, u = coordinate(V, 'm')
        g = V.uf('g', 'ii') if V.symbolic else (lambda x, y: np.sin(1.0 + x + 3 * y))
        V.eq('continuous in n', spec(V, g, N, angle, i, 1, j, u), spec(V, g, N, angle, i + 1, 0, j, u))
        V.eq('continuous in m', spec(V, g, N, angle, i, t, j, 1), spec(V, g, N, angle, i, t, j + 1, 0))
        V.require(V.and_(0 <= i, i + 1 < big, 0 <= j, j + 1 < big))
        V.eq('linear', spec(V, lambda x, y: c[0] + c[1] * x + c[2] * y, N, angle, i, t, j, u), c[0] + c[1] * (i + t) + c[2] * (j + u))
        if angle == 60:
            V.eq('continuous across the diagonal', (1 - u) * c[0] + (1 - t) * c[1] + (t + u - 1) * c[2],
                 V.ite(V.eqv(t + u, 1), lambda: t * c[0] + u * c[1], lambda: (1 - u) * c[0] + (1 - t) * c[1] + (t + u - 1) * c[2]))


RESIZE = [dict(angle=None, extra=0, axes=(0,), periodic=True), dict(angle=None, extra=1, axes=(1,), periodic=False),
          dict(angle=60, extra=0, axes=(0, 1), periodic=True), dict(angle=90, extra=1, axes=(2, 0), periodic=True),
          dict(angle=120, extra=1, axes=(1, 2), periodic=False)]


@contract('C17', cases=RESIZE, trials=15)
def resize(V, angle, extra, axes, periodic):
    dim = len(axes)
    N, X, data, get = mesh_data(V, dim, extra, axes)
    S = [V.dim('S%d' % d, small=(1 if periodic else 2, 5)) for d in range(dim)]
    if not periodic:
        for s, n in zip(S, N):
            V.require(V.and_(s > 1, n > 1))
    new = V.call(bravais.resize, data, tuple(S) if dim > 1 else S[0], angle=angle, axes=axes if dim > 1 else axes[0], periodic=periodic)
    f = V.call(bravais.linear_interpolation, data, angle=angle, axes=axes if dim > 1 else axes[0])
    others = [k for k in range(dim + extra) if k not in axes]

    def pair(*p):
        k, x = p[:dim], p[dim:]
        full = [None] * (dim + extra)
        for a, n in zip(axes, k):
            full[a] = n
        for o, n in zip(others, x):
            full[o] = n
        y = V.call(f, *[k[d] * ((N[d] / S[d]) if periodic else (N[d] - 1) / (S[d] - 1)) for d in range(dim)])
        return new[tuple(full)], (y[x] if extra else y)
    V.forall('interpolation at the new mesh points', [*S, *X], pair)
    V.eq('axes', tuple(V.shape(new)), tuple(S[axes.index(k)] if k in axes else X[others.index(k)] for k in range(dim + extra)))


@bounded('C17', trials=30)
def stacking(V):
    """values change only by multiples of the period and come to lie as close together as possible"""
    rng = V.rng
    n = int(rng.integers(1, 5))
    shape = tuple(int(x) for x in rng.integers(1, 4, size=rng.integers(0, 3)))
    period = float(rng.choice([1.0, 2 * np.pi, 10.0]))
    pts = [rng.uniform(-2, 2, size=shape) * period for _ in range(n)]
    keep = [p.copy() for p in pts]
    out = bravais.stack(*pts, period=period)
    V.holds('arguments unmodified', all(np.array_equal(a, b) for a, b in zip(pts, keep)))
    V.eq('shape', np.shape(out), (n, *shape))
    shifts = (np.array(out) - np.array(pts)) / period
    V.eq('multiples of the period', shifts, np.round(shifts), tol=1e-8)
    flat = np.reshape(np.array(pts), (n, -1))
    got = np.reshape(np.array(out), (n, -1))
    for c in range(flat.shape[1]):
        x = np.sort(flat[:, c] % period)
        best = min(np.std(np.concatenate([x[k:], x[:k] + period])) for k in range(n))
        V.holds('most localized', np.std(got[:, c]) <= best + 1e-8 * period)


@bounded('C17', trials=30)
def angular_data(V):
    """interpolation across the shortest distance on the periodic axis; polar interpolation of complex data"""
    rng = V.rng
    angle = V.choice('angle', [None, 60, 90, 120])
    dim = 1 if angle is None else 2
    N = tuple(int(x) for x in rng.integers(2, 5, size=dim))
    axes = tuple(range(dim))
    kw = dict(angle=angle, axes=axes if dim > 1 else 0)
    base = rng.uniform(0, 10)
    smooth = base + rng.uniform(-0.2, 0.2, size=N)      # neighbouring values are close together up to periods
    period = float(rng.choice([1.0, 2 * np.pi]))
    noisy = smooth + period * rng.integers(-2, 3, size=N)
    f, g = bravais.linear_interpolation(smooth, **kw), bravais.linear_interpolation(noisy, period=period, **kw)
    p = list(rng.uniform(-5, 5, size=dim))
    d = (g(*p) - f(*p)) / period
    V.eq('periodic axis', d, np.round(d), tol=1e-7)
    r = rng.uniform(0.5, 2, size=N)
    z = r * np.exp(1j * smooth)
    h = bravais.linear_interpolation(z, polar=True, **kw)
    V.eq('polar', h(*p), bravais.linear_interpolation(r, **kw)(*p) * np.exp(1j * f(*p)), tol=1e-7)
    k = [int(x) for x in rng.integers(-5, 6, size=dim)]
    V.eq('polar at mesh points', h(*k), z[tuple(a % n for a, n in zip(k, N))], tol=1e-8)
    S = tuple(int(x) for x in rng.integers(1, 7, size=dim))
    new = bravais.resize(z, S if dim > 1 else S[0], polar=True, **kw)
    V.eq('resized', new, np.array([h(*[q * n / s for q, n, s in zip(Q, N, S)]) for Q in np.ndindex(*S)]).reshape(S), tol=1e-8)


@bounded('C17', trials=20)
def many_axes(V):
    """arrays of coordinates, any position of the interpolated axes, any number of other axes, integer data"""
    rng = V.rng
    angle = V.choice('angle', [None, 60, 90, 120])
    dim = 1 if angle is None else 2
    extra = int(rng.integers(0, 3))
    shape = tuple(int(x) for x in rng.integers(1, 5, size=dim + extra))
    axes = tuple(int(x) for x in rng.permutation(dim + extra)[:dim])
    data = rng.normal(size=shape)
    if V.choice('integer', [False, False, True]):
        data = rng.integers(-9, 9, size=shape)
    keep = data.copy()
    kw = dict(angle=angle, axes=axes if dim > 1 else axes[0])
    f = bravais.linear_interpolation(data, **kw)
    moved = np.moveaxis(data, axes, range(dim))
    N = moved.shape[:dim]
    pts = rng.uniform(-6, 6, size=(dim, 3))
    got = f(*pts)
    V.eq('shape', np.shape(got), (3, *moved.shape[dim:]))

    def reference(p):
        k = [int(np.floor(x)) for x in p]
        return spec(V, lambda *q: moved[tuple(q)], N, angle, *[x for a, b in zip(k, p) for x in (a, b - a)])
    for j in range(3):
        V.eq('arrays of coordinates', got[j], reference(pts[:, j]))
    S = tuple(int(x) for x in rng.integers(1, 6, size=dim))
    new = bravais.resize(data, S if dim > 1 else S[0], **kw)
    V.holds('data unmodified', np.array_equal(keep, data))
    new = np.moveaxis(new, axes, range(dim))
    V.eq('resized shape', new.shape, (*S, *moved.shape[dim:]))
    for Q in np.ndindex(*S):
        V.eq('resized', new[Q], reference([q * n / s for q, n, s in zip(Q, N, S)]))


@bounded('C17', trials=12)
def defaults(V):
    """without further arguments: the first two axes, lattice vectors at 60 degrees, complex data interpolated linearly"""
    rng = V.rng
    N = tuple(int(x) for x in rng.integers(1, 5, size=2))
    data = rng.normal(size=N) + 1j * rng.normal(size=N)
    p = rng.uniform(-6, 6, size=2)
    k = [int(np.floor(x)) for x in p]
    value = spec(V, lambda *q: data[tuple(q)], N, 60, *[x for a, b in zip(k, p) for x in (a, b - a)])
    V.eq('complex data', bravais.linear_interpolation(data)(*p), value)
    V.eq('real data', bravais.linear_interpolation(data.real, polar=True)(*p), np.real(value))
    S = tuple(int(x) for x in rng.integers(1, 6, size=2))
    V.eq('resized', bravais.resize(data, S), bravais.resize(data, S, angle=60, axes=(0, 1), polar=False))
