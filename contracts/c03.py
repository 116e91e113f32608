"""C03: direct and reciprocal lattices are dual; conversions are inverse."""
import numpy as np
from engine.contract import contract, bounded
import elphmod
from elphmod import bravais


def vectors(V, dim):
    """linearly independent lattice vectors"""
    names = ['a1', 'a2', 'a3'][:dim]
    a = [V.array(n, [dim]) for n in names]
    if dim == 3:
        d = (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) + a[0][1] * (a[1][2] * a[2][0] - a[1][0] * a[2][2])
             + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    else:
        d = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    V.require(V.ne(d, 0) if V.symbolic else abs(d) > 1e-2)
    return a, d


def dot(x, y, n):
    return sum((x[i] * y[i] for i in range(1, n)), x[0] * y[0])


@contract('C03', cases=[dict(dim=d) for d in (2, 3)], trials=25, tol=1e-9)
def reciprocal_basis(V, dim):
    a, d = vectors(V, dim)
    b = V.call(bravais.reciprocals, *a)
    V.eq('number', len(b), dim)
    for i in range(dim):
        for j in range(dim):
            V.eq('a%d.b%d' % (i + 1, j + 1), dot(a[i], b[j], dim), 1 if i == j else 0)


@contract('C03', cases=[dict(dim=d) for d in (2, 3)], trials=25, tol=1e-9)
def twice_reciprocal(V, dim):
    a, d = vectors(V, dim)
    b = V.call(bravais.reciprocals, *a)
    c = V.call(bravais.reciprocals, *b)
    for i in range(dim):
        for x in range(dim):
            V.eq('a%d,%d' % (i + 1, x), c[i][x], a[i][x])


@contract('C03', cases=[dict(dim=d) for d in (2, 3)], trials=25, tol=1e-9)
def cell_volume(V, dim):
    a, d = vectors(V, dim)
    V.eq('|det|', V.call(bravais.volume, *a), V.abs(d))


@contract('C03', cases=[dict(dim=d) for d in (2, 3)], trials=20, tol=1e-9)
def to_cartesian(V, dim):
    a, d = vectors(V, dim)
    n = V.dim('n')
    x = V.array('x', [n, dim])
    c = V.call(bravais.crystal_to_cartesian, x, *a)
    V.forall('linear combination', [n, dim], lambda i, k: (c[i, k], sum((x[i, j] * a[j][k] for j in range(1, dim)), x[i, 0] * a[0][k])))


@contract('C03', trials=20, tol=1e-9)
def there_and_back(V):
    a, d = vectors(V, 3)
    n = V.dim('n')
    x = V.array('x', [n, 3])
    y = V.call(bravais.cartesian_to_crystal, V.call(bravais.crystal_to_cartesian, x, *a), *a)
    z = V.call(bravais.crystal_to_cartesian, V.call(bravais.cartesian_to_crystal, x, *a), *a)
    for k in range(3):
        V.forall('crystal %d' % k, [n], lambda i: (y[i, k], x[i, k]))
        V.forall('Cartesian %d' % k, [n], lambda i: (z[i, k], x[i, k]))


@contract('C03', cases=[dict(dim=d) for d in (2, 3)], trials=25, tol=1e-9)
def rotations(V, dim):
    x = V.array('x', [dim])
    s, t = V.real('s'), V.real('t')
    two = dim == 2
    r = V.call(bravais.rotate, x, s, two)
    V.eq('length', dot(r, r, dim), dot(x, x, dim))
    u = V.call(bravais.rotate, r, t, two)
    w = V.call(bravais.rotate, x, s + t, two)
    for i in range(dim):
        V.eq('composition %d' % i, u[i], w[i])
    V.eq('x', r[0], V.cos(s) * x[0] - V.sin(s) * x[1])
    V.eq('y', r[1], V.sin(s) * x[0] + V.cos(s) * x[1])
    if dim == 3:
        V.eq('z', r[2], x[2])


@contract('C03', cases=[dict(dim=d) for d in (2, 3)], trials=25, tol=1e-9)
def unit_vectors(V, dim):
    """translations: unit vectors at the given angles (degrees)"""
    s, t = V.real('angle'), V.real('angle0')
    a = V.call(bravais.translations, s, t, dim == 2)
    deg = V.pi / 180
    V.eq('a1 x', a[0][0], V.cos(t * deg))
    V.eq('a1 y', a[0][1], V.sin(t * deg))
    V.eq('a2 x', a[1][0], V.cos((s + t) * deg))
    V.eq('a2 y', a[1][1], V.sin((s + t) * deg))
    if dim == 3:
        V.eq('a1 z', a[0][2], 0)
        V.eq('a2 z', a[1][2], 0)


@bounded('C03', trials=40)
def arguments_kept(V):
    """lists, integer and float arrays as arguments; none of them is modified"""
    rng = V.rng
    dim = V.choice('dim', [2, 3])
    kind = V.choice('kind', ['list', 'int', 'float'])
    while True:
        a = rng.integers(-3, 4, size=(dim, dim)) if kind == 'int' else rng.normal(size=(dim, dim))
        if abs(np.linalg.det(a)) > 0.3:
            break
    arg = [list(map(float, v)) for v in a] if kind == 'list' else [v.copy() for v in a]
    b = bravais.reciprocals(*arg)
    V.eq('dual', np.array(b) @ np.array(a).T, np.eye(dim), tol=1e-9)
    V.eq('volume', bravais.volume(*arg), abs(np.linalg.det(a)), tol=1e-9)
    V.eq('kept', np.array(arg), a)
    arg = [v.copy() for v in a]
    x = rng.integers(-3, 4, size=(4, dim)) if kind == 'int' else rng.normal(size=(4, dim))
    y = x.copy()
    c = bravais.crystal_to_cartesian(x, *arg)
    V.eq('Cartesian', c, x @ a, tol=1e-9)
    if dim == 3:
        V.eq('crystal', bravais.cartesian_to_crystal(c, *arg), x, tol=1e-9)
    V.eq('positions kept', x, y)
    V.eq('lattice kept', np.array(arg), a)
    r = bravais.rotate(x[0], 0.3, dim == 2)
    V.eq('vector kept', x, y)
