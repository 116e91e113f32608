"""C18: densities of states on triangular meshes are those of the linearly interpolated energy."""
import numpy as np
from engine.contract import contract, bounded
import elphmod
from elphmod import dos


def density(V, E, p, q, r, weighted):
    """half the derivative of the area with lower energy times the average weight on the isoline, averaged at jumps"""
    (A, a), (B, b), (C, c) = p, q, r
    w = (lambda x: x()) if weighted else (lambda x: 1)
    along = lambda X, Y, x, y: x + (y - x) * (E - X) / (Y - X)
    rise = lambda: (E - A) / ((B - A) * (C - A)) * w(lambda: (along(A, B, a, b) + along(A, C, a, c)) / 2)
    fall = lambda: (C - E) / ((C - A) * (C - B)) * w(lambda: (along(C, A, c, a) + along(C, B, c, b)) / 2)
    top = lambda: 0.5 / (E - A) * w(lambda: (b + c) / 2)
    bottom = lambda: 0.5 / (C - E) * w(lambda: (a + b) / 2)
    flat = lambda: V.ite(V.and_(V.eqv(E, A), V.eqv(A, B), V.eqv(B, C)), V.inf, 0)
    return V.ite(V.and_(A < E, E <= B), lambda: V.ite(V.and_(V.eqv(E, B), V.eqv(B, C)), top, rise),
                 lambda: V.ite(V.and_(B <= E, E < C), lambda: V.ite(V.and_(V.eqv(E, A), V.eqv(A, B)), bottom, fall), flat))


def setup(V):
    V.opaque_sort()
    N = V.dim('N', small=(1, 4))
    e = V.array('energies', [N, N], values=None if V.symbolic else [[-0.3, 0.1, 0.2, 0.5], [0.0, 0.25], [-1.0, -0.7, 0.3, 0.6, 2.0]][V.style % 3])
    E = V.real('E', values=[0.0, 0.1, 0.2, 0.25, -0.3, 0.15, 0.4, -0.5, 1.0])
    return N, e, E


def total(V, N, e, E, g=None):
    def triangle(i, j, k):
        x = [((i + k) % N, (j + k) % N), ((i + 1) % N, j), (i, (j + 1) % N)]
        if g is None:
            return density(V, E, *[(A, 0) for A in V.call(sorted, [e[v] for v in x])], False)
        return density(V, E, *[(e[v], g[v]) for v in V.call(sorted, x, key=lambda v: e[v])], True)
    return V.sum([N, N], lambda i, j: triangle(i, j, 0) + triangle(i, j, 1)) / N ** 2


def bounds(V, E, which):
    m = V.real('minimum', values=[-0.3, 0.0, 0.1, -0.5]) if which % 2 else None
    M = V.real('maximum', values=[0.3, 0.2, 0.6, 0.5]) if which > 1 else None
    if m is not None:
        V.require(m <= E)
    if M is not None:
        V.require(E <= M)
    return m, M


@contract('C18', cases=[dict(which=n) for n in range(4)], trials=20)
def density_of_states(V, which):
    N, e, E = setup(V)
    D = V.call(dos.hexDOS, e, *bounds(V, E, which))
    V.eq('sum over triangles', V.call(D, E), total(V, N, e, E))


@contract('C18', cases=[dict(which=n) for n in range(4)], trials=20)
def weighted(V, which):
    N, e, E = setup(V)
    g = V.array('couplings', [N, N])
    D = V.call(dos.hexa2F, e, g, *bounds(V, E, which))
    V.eq('sum over triangles', V.call(D, E), total(V, N, e, E, g))


@contract('C18', cases=[dict(part=n) for n in ('below', 'above', 'joint')], trials=100)
def triangle(V, part):
    """the density of a triangle is half the derivative of the weight integrated over the part with lower energy"""
    A, B, C, E = [V.real(x) for x in 'ABCE']
    a, b, c = [V.real(x) for x in 'abc']
    along = lambda E, X, Y, x, y: x + (y - x) * (E - X) / (Y - X)
    # integrals over the triangles cut off at the lowest and highest corner, relative to the area of the whole triangle
    low = lambda E: (E - A) ** 2 / ((B - A) * (C - A)) * (a + along(E, A, B, a, b) + along(E, A, C, a, c)) / 3
    high = lambda E: (C - E) ** 2 / ((C - A) * (C - B)) * (c + along(E, C, A, c, a) + along(E, C, B, c, b)) / 3
    whole = (a + b + c) / 3
    if part == 'joint':
        V.require(V.and_(A < B, B < C))
        V.eq('both parts make up the triangle', low(B) + high(B), whole)
        return
    if part == 'below':
        V.require(V.and_(A < E, E < B, B <= C))
    else:
        V.require(V.and_(A <= B, B < E, E < C))
    plain, D = [density(V, E, (A, a), (B, b), (C, c), w) for w in (False, True)]
    if part == 'below':
        V.deriv('half the derivative', low, E, 2 * D)
    else:
        V.deriv('half the derivative', lambda E: -high(E), E, 2 * D)
    V.holds('not negative', plain >= 0)
    V.holds('zero for zero weight', V.implies(V.and_(V.eqv(a, 0), V.eqv(b, 0), V.eqv(c, 0)), V.eqv(D, 0)))
    V.holds('density for unit weight', V.implies(V.and_(V.eqv(a, 1), V.eqv(b, 1), V.eqv(c, 1)), V.eqv(D, plain)))


@bounded('C18', trials=12)
def integrals(V):
    """exact integrals (the densities are piecewise linear and quadratic functions of the energy)"""
    N = V.choice('N', [2, 3, 4, 6])
    kind = V.choice('kind', ['random', 'integers', 'cosine'])
    if kind == 'random':
        e = V.rng.normal(size=(N, N))
    elif kind == 'integers':
        e = V.rng.integers(-2, 3, size=(N, N)).astype(float)
    else:
        k = 2 * np.pi * np.arange(N) / N
        e = np.cos(k)[:, None] + np.cos(k) + np.cos(k[:, None] + k)
    i, j = np.indices((N, N))
    for k in range(2):
        flat = [e[(i + k) % N, (j + k) % N], e[(i + 1) % N, j], e[i, (j + 1) % N]]
        V.require(not np.any((flat[0] == flat[1]) & (flat[1] == flat[2])))
    g = V.rng.normal(size=(N, N))
    D, F = dos.hexDOS(e), dos.hexa2F(e, g)
    x, w = np.polynomial.legendre.leggauss(3)
    v = np.unique(e)
    # values that differ by rounding errors only are one value
    v = v[np.append(True, np.diff(v) > 1e-9)]
    E = ((v[1:] - v[:-1])[:, None] * x + (v[1:] + v[:-1])[:, None]) / 2
    W = (v[1:] - v[:-1])[:, None] / 2 * w
    V.eq('density integrates to one', np.sum(D(E) * W), 1, tol=1e-6)
    V.eq('weighted density integrates to the mean weight', np.sum(F(E) * W), g.mean(), tol=1e-6)
    V.holds('not negative', bool(np.all(D(E) >= 0)))
    V.eq('unit weight', dos.hexa2F(e, np.ones((N, N)))(E), D(E))
    h = V.rng.normal(size=(N, N))
    V.eq('linear', dos.hexa2F(e, 2 * g - h)(E), 2 * F(E) - dos.hexa2F(e, h)(E))
    a, b = v[len(v) // 4], v[-1 - len(v) // 4]
    inside = E[(E >= a) & (E <= b)]
    if inside.size:
        V.eq('window', dos.hexDOS(e, a, b)(inside), D(inside))
        V.eq('window of weighted density', dos.hexa2F(e, g, a, b)(inside), F(inside))
