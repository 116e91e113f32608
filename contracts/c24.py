"""C24: paths and meshes of k points."""
import itertools
import numpy as np
from engine.contract import contract, bounded
from . import gen
import elphmod
from elphmod import bravais, misc


@contract('C24', cases=[dict(dim=d, flat=f) for d in (1, 2, 3) for f in (False, True)], trials=10)
def mesh(V, dim, flat):
    n = [V.dim('n%d' % d, small=(1, 4)) for d in range(dim)]
    k = V.call(bravais.mesh, *n, flat=flat)
    if flat:
        N = 1
        for x in n:
            N = N * x
        V.eq('points', V.shape(k)[0], N)

        def at(i, c):
            j = 0
            for d in range(dim):
                j = j * n[d] + i[d]
            return k[j, c]
    else:
        at = lambda i, c: k[(*i, c)]
    V.eq('dimensions', V.shape(k)[-1], dim)
    for c in range(dim):
        V.forall('coordinate %d' % c, n, lambda *i: (at(i, c), 2 * V.pi * V.num(i[c]) / n[c]))


@contract('C24', cases=[dict(dim=d) for d in (2, 3)], trials=15)
def path_segment(V, dim):
    """two corners: equally spaced points from one to the other, abscissa equal to the distance"""
    p = V.array('p', [2, dim])
    b = V.array('b', [dim, dim])
    N = V.real('N', pos=True)
    pts = [V.build([dim], lambda c: p[0, c]), V.build([dim], lambda c: p[1, c])]
    k, x, corners = V.call(bravais.path, pts, N=N, recvec=b)
    n = V.shape(k)[0] - 1
    V.eq('first corner', corners[0], 0)
    V.eq('last corner', corners[1], n)
    V.holds('points', n >= 1)
    d2 = 0
    for c in range(dim):
        t = sum(((p[1, e] - p[0, e]) * b[e, c] for e in range(1, dim)), (p[1, 0] - p[0, 0]) * b[0, c])
        d2 = d2 + t * t
    for c in range(dim):
        V.forall('k %d' % c, [n + 1], lambda j: (k[j, c], 2 * V.pi * (p[0, c] + (p[1, c] - p[0, c]) * j / n)))
    V.forall('x', [n + 1], lambda j: (x[j], V.sqrt(d2) * j / n))


@bounded('C24', trials=60)
def paths(V):
    rng = V.rng
    m = int(rng.integers(1, 7))
    dim = V.choice('dim', [2, 3])
    p = [rng.choice([-0.5, 0, 0.25, 1 / 3, 0.5, 1.0], size=dim) for _ in range(m)]
    if V.choice('repeat', [False, True]) and m > 1:
        p[-1] = p[-2].copy()
    N = V.choice('N', [1, 7, 30.5, 100])
    if dim == 2:
        rec = np.array(bravais.reciprocals(*np.array(bravais.translations(V.choice('angle', [60, 90, 120])))))
        kw = dict(recvec=rec)
    elif V.choice('rec', [False, True]):
        rec = rng.normal(size=(3, 3))
        kw = dict(recvec=rec)
    else:
        kw = dict(ibrav=V.choice('ibrav', [1, 2, 4, 8, 14]), a=2.0, b=2.5, c=3.0, cosab=0.1)
        rec = np.array(bravais.reciprocals(*bravais.primitives(**kw)))
    q = [x.copy() for x in p]
    k, x, corners = bravais.path(p, N=N, **kw)
    V.eq('arguments', np.array(p), np.array(q))
    V.eq('number of corners', len(corners), m)
    if m == 1:
        return
    V.eq('lengths', len(k), len(x))
    V.eq('first', corners[0], 0)
    V.eq('last', corners[-1], len(k) - 1)
    X = 0.0
    for i in range(m):
        V.eq('corner %d' % i, k[corners[i]], 2 * np.pi * p[i])
        V.eq('abscissa %d' % i, x[corners[i]], X)
        if i + 1 < m:
            V.holds('order %d' % i, corners[i] < corners[i + 1])
            n = corners[i + 1] - corners[i]
            L = np.linalg.norm((p[i + 1] - p[i]).dot(rec))
            V.eq('spacing', k[corners[i]:corners[i + 1] + 1], np.linspace(2 * np.pi * p[i], 2 * np.pi * p[i + 1], n + 1))
            V.eq('abscissas', x[corners[i]:corners[i + 1] + 1], X + np.linspace(0, L, n + 1))
            V.holds('density', abs(n - N * L) <= 0.5 + 1e-6 or n == 1)
            X += L
    V.holds('non-decreasing', bool(np.all(np.diff(x) >= -1e-12)))


# high-symmetry points in crystal coordinates (definitions of https://lampx.tugraz.at/~hadley/ss1/bzones/)
h, q, e = 1 / 2, 1 / 4, 1 / 8
TABLE = {
    1: dict(M=(0, h, h), R=(h, h, h), X=(0, 0, h)),
    2: dict(X=(0, h, h), L=(h, h, h), W=(q, 3 * q, h), U=(q, 5 * e, 5 * e), K=(3 * e, 3 * q, 3 * e)),
    3: dict(H=(h, h, h), P=(3 * q, q, -q), N=(h, h, 0)),
    -3: dict(H=(h, h, -h), P=(q, q, q), N=(h, 0, 0)),
    4: dict(A=(0, 0, h), M=(0, h, 0), L=(0, h, h), K=(1 / 3, 1 / 3, 0), H=(1 / 3, 1 / 3, h)),
    6: dict(X=(h, 0, 0), M=(h, h, 0), Z=(0, 0, h), R=(h, 0, h), A=(h, h, h)),
    7: dict(X=(q, q, -q), M=(0, h, -h), Z=(q, q, q), R=(h, h, 0), A=(q, 3 * q, -q)),
    8: dict(X=(h, 0, 0), Y=(0, h, 0), Z=(0, 0, h), S=(h, h, 0), T=(0, h, h), U=(h, 0, h), R=(h, h, h)),
    9: dict(Y=(h, -h, 0), y=(h, h, 0), Z=(0, 0, h), T=(h, -h, h), t=(h, h, h), S=(h, 0, 0), R=(h, 0, h)),
    -9: dict(Y=(h, h, 0), y=(-h, h, 0), Z=(0, 0, h), T=(h, h, h), t=(-h, h, h), S=(0, h, 0), R=(0, h, h)),
    12: dict(B=(-h, 0, 0), Y=(0, h, 0), Z=(0, 0, h), D=(-h, h, 0), C=(0, h, h), A=(-h, 0, h), E=(-h, h, h)),
    -12: dict(B=(-h, 0, 0), Y=(0, h, 0), Z=(0, 0, h), D=(-h, h, 0), C=(0, h, h), A=(-h, 0, h), E=(-h, h, h)),
}


@bounded('C24', cases=[dict(ibrav=i) for i in (1, 2, 3, -3, 4, 6, 7, 8, 9, -9, 12, -12)], trials=4)
def labels(V, ibrav):
    """labelled corners: the same as their coordinates; G is the zone center; all half of a reciprocal vector or high-symmetry"""
    names = {1: 'MRX', 2: 'XLWUK', 3: 'HPN', -3: 'HPN', 4: 'AMLKH', 6: 'XMZRA', 7: 'XMZRA', 8: 'XYZSTUR', 9: 'YyZTtSR', -9: 'YyZTtSR', 12: 'BYZDCAE', -12: 'BYZDCAE'}[ibrav]
    kw = dict(ibrav=ibrav, a=2.0, b=2.3, c=3.1, cosab=0.1, cosac=0.1)
    seq = 'G' + ''.join(V.rng.permutation(list(names))) + 'G'
    k, x, c = bravais.path(seq, N=20, **kw)
    V.eq('starts at G', k[0], np.zeros(3))
    V.eq('ends at G', k[-1], np.zeros(3))
    pts = k[c] / (2 * np.pi)
    l, y, d = bravais.path(list(pts), N=20, **kw)
    V.eq('same path', l, k)
    V.eq('same abscissa', y, x)
    V.eq('same corners', d, c)
    V.eq('points', pts, np.array([TABLE[ibrav].get(s, (0, 0, 0)) for s in seq]))


@bounded('C24', trials=40)
def moved(V):
    """Gamma replaced by the closest points along the path, scaled; everything else unchanged"""
    rng = V.rng
    m = int(rng.integers(2, 6))
    p = [np.zeros(3) if rng.random() < 0.4 or i == int(m / 2) else rng.uniform(-1, 1, size=3) for i in range(m)]
    p = [x for i, x in enumerate(p) if i == 0 or np.any(x) or np.any(p[i - 1])]
    V.require(len(p) > 1)
    rec, f = rng.normal(size=(3, 3)), float(rng.choice([0.1, 1e-3]))
    k, x, c = bravais.path(p, N=20, recvec=rec)
    K, X, C = V.call(bravais.path, p, N=20, recvec=rec, moveG=f)
    want, path, corners = [], [], []
    for i in range(len(k)):
        if i in c and not np.any(p[list(c).index(i)]):
            corners.append(len(want))
            if i > 0:
                want.append(f * k[i - 1])
                path.append(x[i])
            if i < len(k) - 1:
                want.append(f * k[i + 1])
                path.append(x[i])
        else:
            if i in c:
                corners.append(len(want))
            want.append(k[i])
            path.append(x[i])
    V.eq('points', np.array(K), np.array(want))
    V.eq('abscissa', np.array(X), np.array(path))
    V.eq('corners', list(C), corners)


@bounded('C24', trials=20)
def input_format(V):
    """corners and numbers of points for band-structure calculations"""
    rng = V.rng
    p = rng.uniform(-1, 1, size=(int(rng.integers(2, 6)), 3))
    kw = dict(ibrav=8, a=2.0, b=2.5, c=3.0)
    k, x, c = bravais.path(p, N=20, **kw)
    K, X, C, pw = V.call(bravais.path, p, N=20, qe=True, **kw)
    V.eq('points', K, k)
    V.eq('abscissa', X, x)
    V.eq('corners', list(C), list(c))
    V.holds('format', pw['ktyp'] == 'crystal_b' and pw['nks'] == len(p) and all(pw[key] == kw[key] for key in kw))
    V.eq('coordinates', pw['k_points'][:, :3], p)
    V.eq('numbers', pw['k_points'][:, 3], np.append(np.diff(c), 0))


@bounded('C24', trials=40)
def GMKG(V):
    N = V.choice('N', [6, 7, 12, 30, 31, 60, 100, 599])
    angle = V.choice('angle', [60, 120])
    mesh = V.choice('mesh', [False, True])
    straight = V.choice('straight', [True, False])
    lift = V.choice('lift', [True, False])
    q, x, c = bravais.GMKG(N, corner_indices=True, mesh=mesh, angle=angle, straight=straight, lift_degen=lift)
    V.eq('lengths', len(q), len(x))
    a1, a2 = bravais.translations(180 - angle)
    b1, b2 = bravais.reciprocals(a1, a2)
    cart = (q[:, :1] * b1 + q[:, 1:] * b2) / (2 * np.pi)
    G, M, K, H = (cart[i] for i in c)
    V.eq('G', G, 0 * G)
    V.eq('G again', H, 0 * H)
    m = np.array([q[c[1]] * 2 / (2 * np.pi)])
    V.eq('M', m, np.round(m))
    kk = q[c[2]] * 3 / (2 * np.pi)
    V.eq('K', kk, np.round(kk), tol=1e-8)
    shift = 1 - np.linalg.norm(kk) / np.linalg.norm(np.round(kk))
    V.holds('shift toward G only if requested', 1e-13 < shift < 1e-8 if lift else abs(shift) < 1e-14)
    V.holds('M is not G', abs(q[c[1]]).max() > 1)
    V.holds('K is not G', abs(q[c[2]]).max() > 1)
    L = [np.linalg.norm(M), np.linalg.norm(M) / np.sqrt(3), np.linalg.norm(K)]
    for i in range(3):
        V.eq('abscissa %d' % i, x[c[i + 1]] - x[c[i]], L[i], tol=1e-8)
        n = c[i + 1] - c[i]
        V.eq('equal steps %d' % i, np.diff(x[c[i]:c[i + 1] + 1]), np.full(n, L[i] / n), tol=1e-8)
    for i in (0, 2):
        V.eq('equal spacing %d' % i, cart[c[i]:c[i + 1] + 1], np.linspace(cart[c[i]], cart[c[i + 1]], c[i + 1] - c[i] + 1), tol=1e-8)
    for i in range(c[1], c[2]):
        # between M and K on the zone edge, modulo reciprocal lattice vectors and symmetry: length follows
        t = (x[i] - x[c[1]]) / L[1]
        V.eq('M-K %d' % i, np.linalg.norm(cart[i]), np.hypot(L[0], t * L[1]), tol=1e-8)
    if mesh and N % 6 == 0:
        j = q[:-1] * N / (2 * np.pi)
        V.eq('mesh points', j, np.round(j), tol=1e-6)
    V.eq('starts at zero', x[0], 0)
    V.eq('q without corners', bravais.GMKG(N, mesh=mesh, angle=angle, straight=straight, lift_degen=lift)[0], q)


@bounded('C24', trials=40)
def differential(V):
    """weights reproduce the trapezoidal rule, also for unsorted abscissas"""
    rng = V.rng
    n = int(rng.integers(2, 12))
    x = rng.normal(size=n) * 3
    x = np.sort(x)
    if V.choice('reverse', [False, True]):
        x = x[::-1].copy()
    z = x.copy()
    dx = misc.differential(x)
    V.eq('argument', x, z)
    y = rng.normal(size=n)
    V.eq('trapezoidal rule', np.sum(dx * y), np.trapezoid(y, x) if hasattr(np, 'trapezoid') else np.trapz(y, x))


@contract('C24', trials=15)
def trapezoidal(V):
    n = V.dim('n', small=(2, 6))
    V.require(n >= 2)
    x = V.array('x', [n])
    y = V.array('y', [n])
    dx = V.call(misc.differential, x)
    # sum of dx y = sum of (y[i] + y[i + 1]) (x[i + 1] - x[i]) / 2 for every y
    V.eq('first', dx[0], (x[1] - x[0]) / 2)
    V.eq('last', dx[n - 1], (x[n - 1] - x[n - 2]) / 2)
    V.forall('between', [n - 2], lambda i: (dx[i + 1], (x[i + 2] - x[i]) / 2))
    V.eq('length', V.shape(dx)[0], n)
    if not V.symbolic:
        V.eq('trapezoidal rule', V.sum(n, lambda i: dx[i] * y[i]), V.sum(n - 1, lambda i: (y[i] + y[i + 1]) * (x[i + 1] - x[i]) / 2))


@bounded('C24', trials=10)
def kpoints(V):
    """printed list: every grid point once in row-major order, with equal weights"""
    import io, contextlib
    n = [int(V.rng.integers(1, 4)) for _ in range(3)]
    w = V.choice('weights', [False, True])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        bravais.kpoints(*n, weights=w)
    lines = out.getvalue().split('\n')
    V.eq('number', int(lines[0]), int(np.prod(n)))
    data = np.array([list(map(float, l.split())) for l in lines[1:] if l])
    ref = np.array(list(itertools.product(*[np.arange(m) / m for m in n])))
    V.eq('points', data[:, :3], ref)
    if w:
        V.eq('weights', data[:, 3], np.full(len(ref), 1 / len(ref)))
    V.eq('columns', data.shape[1], 4 if w else 3)
