"""C07: symmetry stars partition the k mesh.

Proved for every mesh and every (also unfolded) point: the images of a point are its orbit under the point group of the
lattice, folded to the mesh (contract star). As orbits of a group partition what it acts on, equal stars for all members
of a star follow. Bounded: irreducibles picks one member per star on the meshes below."""
import numpy as np
from engine.contract import contract, bounded
from elphmod import bravais

MESHES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 18]
LARGE = [20, 21, 24, 25, 27, 30, 36]
FORM = {60: 1, 90: 0, 120: -1}      # twice the cosine of the angle between mesh axes


def distance(k1, k2, nk, angle):
    """squared distance to the nearest reciprocal-lattice point"""
    return min(x * x + y * y + FORM[angle] * x * y for x in (k1 % nk - m * nk for m in (-1, 0, 1, 2)) for y in (k2 % nk - m * nk for m in (-1, 0, 1, 2)))


def operations(angle):
    """integer matrices that map the lattice onto itself and preserve its metric (brute force)"""
    G = np.array([[2, FORM[angle]], [FORM[angle], 2]])
    r = range(-1, 2)
    ops = [np.array([[a, b], [c, d]]) for a in r for b in r for c in r for d in r]
    return [A for A in ops if np.array_equal(A.T.dot(G).dot(A), G)]


def stars(V, nk, angle):
    seen = {}
    ops = operations(angle)
    for k1 in range(nk):
        for k2 in range(nk):
            S = V.call(bravais.images, k1, k2, nk, angle=angle)
            S = {tuple(map(int, k)) for k in S}
            seen[k1, k2] = S
            V.holds('point is one of its images', (k1, k2) in S, (k1, k2, nk))
            V.holds('images on the mesh', all(0 <= x < nk for k in S for x in k), (k1, k2, nk))
            V.holds('equal distance', len({distance(*k, nk, angle) for k in S}) == 1, (k1, k2, nk))
            # the star is the orbit under the full point group of the lattice
            orbit = {tuple(int(x) for x in A.dot([k1, k2]) % nk) for A in ops}
            V.holds('orbit of the point group', S == orbit, (k1, k2, nk))
    for k, S in seen.items():
        V.holds('same star for every member', all(seen[m] == S for m in S), (k, nk))
    # any representative outside the first period is equivalent to the one within
    for _ in range(5):
        k1, k2 = map(int, V.rng.integers(-3 * nk, 3 * nk, size=2))
        V.holds('periodic', set(V.call(bravais.images, k1, k2, nk, angle=angle)) == seen[k1 % nk, k2 % nk], (k1, k2, nk))
    I = [tuple(map(int, k)) for k in V.call(bravais.irreducibles, nk, angle=angle)]
    V.holds('distinct', len(set(I)) == len(I), nk)
    cover = {}
    for k in I:
        for m in seen[k]:
            cover[m] = cover.get(m, 0) + 1
    V.holds('cover every mesh point exactly once', len(cover) == nk * nk and set(cover.values()) == {1}, nk)
    V.holds('sizes add up', sum(len(seen[k]) for k in I) == nk * nk, nk)
    for k in I:
        V.holds('first point of its star', k == min(seen[k]), (k, nk))


# rotation by the smallest angle that maps the lattice onto itself, in lattice coordinates
TURN = {60: lambda x, y: (-y, x + y), 90: lambda x, y: (-y, x), 120: lambda x, y: (x - y, x)}


def group(k, angle):
    """k after all rotations, with and without the reflection that exchanges the axes"""
    k, out = tuple(k), []
    for _ in range(4 if angle == 90 else 6):
        out += [k, k[::-1]]
        k = TURN[angle](*k)
    return out


@contract('C07', cases=[dict(angle=a) for a in (60, 90, 120)], trials=20)
def star(V, angle):
    nk = V.dim('nk')
    k = V.int('k1'), V.int('k2')
    S = list(V.call(bravais.images, *k, nk, angle=angle))
    orbit = group(k, angle)
    same = lambda a, b: V.and_((a[0] - b[0]) % nk == 0, (a[1] - b[1]) % nk == 0)
    for a in S:
        V.holds('on the mesh', V.and_(0 <= a[0], a[0] < nk, 0 <= a[1], a[1] < nk))
        V.holds('image', V.or_(*[same(a, b) for b in orbit]))
    for b in orbit:
        V.holds('complete', V.or_(*[same(a, b) for a in S]))


@bounded('C07', cases=[dict(angle=a) for a in (60, 90, 120)], trials=1, budget=300)
def meshes(V, angle):
    for nk in MESHES:
        stars(V, nk, angle)


@bounded('C07', cases=[dict(angle=a, nk=n) for a in (60, 90, 120) for n in LARGE], trials=1, budget=300, thorough_only=True)
def large_meshes(V, angle, nk):
    stars(V, nk, angle)


@bounded('C07', cases=[dict(angle=a) for a in (60, 90, 120)], trials=12)
def default_angle(V, angle):
    """the default angle and positional arguments mean the same; mesh points as NumPy integers"""
    nk = int(V.rng.integers(1, 14))
    k = V.rng.integers(0, nk, size=2)
    S = {tuple(map(int, x)) for x in V.call(bravais.images, int(k[0]), int(k[1]), nk, angle)}
    T = {tuple(map(int, x)) for x in V.call(bravais.images, k[0], k[1], nk, angle=angle)}
    V.holds('number types', S == T, (tuple(k), nk))
    V.holds('default', V.call(bravais.images, int(k[0]), int(k[1]), nk) == V.call(bravais.images, int(k[0]), int(k[1]), nk, 60))
    V.holds('default of irreducibles', V.call(bravais.irreducibles, nk) == V.call(bravais.irreducibles, nk, 60))
