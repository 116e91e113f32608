"""C05: supercell decomposition of lattice vectors is exact and unique."""
import itertools
import numpy as np
from engine.contract import contract, bounded
import elphmod
from elphmod import bravais


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


class Index:
    engine_ok = True

    def __init__(self, found):
        self.asked = []
        self.found = found

    def __call__(self, r):
        self.asked.append(r)
        return self.found


class Cells:
    """the list of cells: `index` is only defined for the cells of the supercell (recorded and checked by the caller)"""

    def __init__(self, found):
        self.index = Index(found)


@contract('C05', cases=[dict(handed=s) for s in (1, -1)], trials=60)
def to_supercell(V, handed):
    """any three linearly independent integer vectors, any lattice vector"""
    N = [[V.int('N%d%d' % (i, x), lo=None if V.symbolic else -3, hi=None if V.symbolic else 3) for x in range(3)] for i in range(3)]
    R = [V.int('R%d' % x, lo=None if V.symbolic else -9, hi=None if V.symbolic else 9) for x in range(3)]
    volume = handed * dot(N[0], cross(N[1], N[2]))
    V.require(0 < volume)
    B = [[handed * y for y in cross(N[(i + 1) % 3], N[(i + 2) % 3])] for i in range(3)]
    arr = lambda x: V.np(np.array, x)
    found = V.int('found')
    cells = Cells(found)
    info = volume, [arr(n) for n in N], [arr(b) for b in B], cells
    S, c = V.call(bravais.to_supercell, tuple(R), info)
    V.eq('cell', c, found)
    r = cells.index.asked[0]
    for x in range(3):
        V.eq('reconstructed %d' % x, sum((S[i] * N[i][x] for i in (1, 2)), S[0] * N[0][x]) + r[x], R[x])
    for i in range(3):
        t = dot(r, B[i])
        V.holds('inside %d' % i, V.and_(0 <= t, t < volume))


@contract('C05', cases=[dict(handed=s) for s in (1, -1)], trials=60)
def unique(V, handed):
    """lemma: a vector that is a lattice vector of the supercell plus a cell inside has exactly one such decomposition"""
    N = [[V.int('N%d%d' % (i, x), lo=None if V.symbolic else -2, hi=None if V.symbolic else 2) for x in range(3)] for i in range(3)]
    S = [V.int('S%d' % x, lo=None if V.symbolic else -3, hi=None if V.symbolic else 3) for x in range(3)]
    r = [V.int('r%d' % x, lo=None if V.symbolic else -2, hi=None if V.symbolic else 2) for x in range(3)]
    volume = handed * dot(N[0], cross(N[1], N[2]))
    V.require(0 < volume)
    B = [[handed * y for y in cross(N[(i + 1) % 3], N[(i + 2) % 3])] for i in range(3)]
    for i in range(3):
        V.require(0 <= dot(r, B[i]))
        V.require(dot(r, B[i]) < volume)
    found = V.int('found')
    cells = Cells(found)
    arr = lambda x: V.np(np.array, x)
    R = tuple(sum((S[i] * N[i][x] for i in (1, 2)), S[0] * N[0][x]) + r[x] for x in range(3))
    S2, c = V.call(bravais.to_supercell, R, (volume, [arr(n) for n in N], [arr(b) for b in B], cells))
    for i in range(3):
        V.eq('supercell vector %d' % i, S2[i], S[i])
    for x in range(3):
        V.eq('cell %d' % x, cells.index.asked[0][x], r[x])


def check(V, N1, N2, N3, span=4):
    vec = [np.array(N if hasattr(N, '__len__') else np.eye(3, dtype=int)[i] * N) for i, N in enumerate((N1, N2, N3))]
    A = np.array(vec)
    det = int(round(np.linalg.det(A)))
    info = bravais.supercell(N1, N2, N3)
    N, vectors, recip, cells = info
    V.eq('number of cells', N, abs(det))
    V.eq('vectors', np.array(vectors), A)
    V.eq('dual basis', np.array(recip).dot(A.T), abs(det) * np.eye(3, dtype=int))
    V.holds('distinct cells', len(cells) == len(set(map(tuple, cells))) == abs(det))
    V.holds('origin listed', (0, 0, 0) in [tuple(c) for c in cells])
    inv = np.linalg.inv(A)
    frac = np.array(cells).dot(inv)
    V.holds('cells inside', np.all(frac > -1e-9) and np.all(frac < 1 - 1e-9))
    ref = [tuple(c) for c in cells]
    seen = {}
    for R in itertools.product(range(-span, span + 1), repeat=3):
        S, c = bravais.to_supercell(R, info)
        V.holds('index of a cell', 0 <= c < len(ref))
        V.holds('reconstruction', tuple(int(x) for x in np.dot(S, A) + ref[c]) == R)
    S, c = bravais.to_supercell((1000, -777, 123), info)
    V.holds('far vector', tuple(int(x) for x in np.dot(S, A) + ref[c]) == (1000, -777, 123))


@bounded('C05', trials=1)
def multiples(V):
    for N in itertools.product((1, 2, 3), repeat=3):
        check(V, *N, span=3)
    for N in ((-2, 1, 3), (-1, -1, -1), (2, -3, 1), (-2, -2, 2)):
        check(V, *N, span=3)
    info = bravais.supercell()
    V.holds('default', info[0] == 1 and [tuple(c) for c in info[3]] == [(0, 0, 0)])


@bounded('C05', trials=50)
def general(V):
    rng = V.rng
    span = V.choice('span', [1, 2, 3, 5])
    while True:
        A = rng.integers(-span, span + 1, size=(3, 3))
        d = abs(round(np.linalg.det(A)))
        if 0 < d <= 120:
            break
    N = [tuple(int(y) for y in x) for x in A]
    # scalars mixed with vectors
    for i in range(3):
        if all(N[i][j] == 0 for j in range(3) if j != i) and V.choice('scalar%d' % i, [True, False]):
            N[i] = N[i][i]
    check(V, *N, span=3)


@bounded('C05', trials=1)
def planar(V):
    """all two-dimensional supercells with entries up to 2"""
    for a, b, c, d in itertools.product(range(-2, 3), repeat=4):
        if a * d - b * c:
            for h in (1, -1) if (a, b) == (1, 0) else (1,):
                check(V, (a, b, 0), (c, d, 0), h, span=2)
