"""C04: primitive vectors realise the requested Bravais lattice."""
import numpy as np
from engine.contract import contract, bounded
import elphmod
from elphmod import bravais, misc

# primitive vectors in terms of the conventional ones (INPUT_PW of Quantum ESPRESSO)
h = 0.5
P = {
    1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    2: [[-h, 0, h], [0, h, h], [-h, h, 0]],
    3: [[h, h, h], [-h, h, h], [-h, -h, h]],
    -3: [[-h, h, h], [h, -h, h], [h, h, -h]],
    4: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    6: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    7: [[h, -h, h], [h, h, h], [-h, -h, h]],
    8: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    9: [[h, h, 0], [-h, h, 0], [0, 0, 1]],
    -9: [[h, -h, 0], [h, h, 0], [0, 0, 1]],
    91: [[1, 0, 0], [0, h, -h], [0, h, h]],
    10: [[h, 0, h], [h, h, 0], [0, h, h]],
    11: [[h, h, h], [-h, h, h], [-h, -h, h]],
    12: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    -12: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    13: [[h, 0, -h], [0, 1, 0], [h, 0, h]],
    -13: [[h, h, 0], [-h, h, 0], [0, 0, 1]],
    14: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
}
CUBIC, TETRA = {1, 2, 3, -3}, {4, 6, 7}
ALL = sorted(set(P) | {5, -5})


def parameters(V, ibrav):
    """lengths and cosines that the lattice type uses: a, b, c, cos(bc), cos(ac), cos(ab)"""
    a = V.real('a', pos=True, lo=0.5, hi=9) if not V.symbolic else V.real('a', pos=True)
    b = a if ibrav in CUBIC | TETRA | {5, -5} else V.real('b', pos=True)
    c = a if ibrav in CUBIC | {5, -5} else V.real('c', pos=True)
    bc = ac = ab = 0
    if ibrav in (5, -5):
        bc = ac = ab = V.real('cos', lo=-0.49, hi=0.99)
    elif ibrav == 4:
        ab = -V.num(1) / 2
    elif ibrav in (12, 13):
        ab = V.real('cosab', lo=-0.99, hi=0.99)
    elif ibrav in (-12, -13):
        ac = V.real('cosac', lo=-0.99, hi=0.99)
    elif ibrav == 14:
        bc, ac, ab = (V.real(x, lo=-0.99, hi=0.99) for x in ('cosbc', 'cosac', 'cosab'))
        V.require(1 + 2 * bc * ac * ab - bc * bc - ac * ac - ab * ab > (0 if V.symbolic else 1e-3))
    return a, b, c, bc, ac, ab


def metric(ibrav, a, b, c, bc, ac, ab):
    """scalar products of the primitive vectors"""
    C = [[a * a, a * b * ab, a * c * ac], [a * b * ab, b * b, b * c * bc], [a * c * ac, b * c * bc, c * c]]
    if ibrav in (5, -5):
        return C
    p = P[ibrav]
    return [[sum((p[i][k] * p[j][l] * C[k][l] for k in range(3) for l in range(3)), 0) for j in range(3)] for i in range(3)]


def volume2(ibrav, a, b, c, bc, ac, ab):
    v = a * b * c * a * b * c * (1 + 2 * bc * ac * ab - bc * bc - ac * ac - ab * ab)
    if ibrav in (5, -5):
        return v
    d = np.linalg.det(np.array(P[ibrav]))
    n = int(round(1 / abs(d)))
    return v / (n * n)


def check(V, A, ibrav, par):
    G = metric(ibrav, *par)
    for i in range(3):
        for j in range(i + 1):
            V.eq('a%d.a%d' % (i + 1, j + 1), sum((A[i, x] * A[j, x] for x in (1, 2)), A[i, 0] * A[j, 0]), G[i][j])
    det = (A[0, 0] * (A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]) + A[0, 1] * (A[1, 2] * A[2, 0] - A[1, 0] * A[2, 2])
           + A[0, 2] * (A[1, 0] * A[2, 1] - A[1, 1] * A[2, 0]))
    V.eq('squared volume', det * det, volume2(ibrav, *par))
    # orientation of the conventional cell: a along x, b in the xy plane (5: threefold axis along z, -5: along 111)
    if ibrav in P:
        inv = np.linalg.inv(np.array(P[ibrav])).round(12)
        conv = [[sum((float(inv[i, k]) * A[k, x] for k in range(3)), 0) for x in range(3)] for i in range(3)]
        V.eq('a along x', conv[0][0], par[0])
        if ibrav not in (14,):
            for x in (0, 1):
                if (ibrav in (-12, -13)) and x == 0:
                    continue
                V.eq('c along z %d' % x, conv[2][x], 0)
    elif ibrav == 5:
        V.eq('axis x', A[0, 0] + A[1, 0] + A[2, 0], 0)
        V.eq('axis y', A[0, 1] + A[1, 1] + A[2, 1], 0)
        V.eq('a2 in yz plane', A[1, 0], 0)
    else:
        for i in range(3):
            for x in range(3):
                V.eq('cyclic %d %d' % (i, x), A[(i + 1) % 3, (x + 1) % 3], A[i, x])


@contract('C04', cases=[dict(ibrav=i) for i in ALL], trials=12, tol=1e-9)
def from_lengths(V, ibrav):
    """lattice parameters as lengths and cosines (angstrom), vectors in angstrom"""
    par = parameters(V, ibrav)
    a, b, c, bc, ac, ab = par
    if ibrav == 4:
        ab = 0
    A = V.call(bravais.primitives, ibrav=ibrav, a=a, b=b, c=c, cosbc=bc, cosac=ac, cosab=ab)
    check(V, A, ibrav, par)


@contract('C04', cases=[dict(ibrav=i) for i in ALL], trials=12, tol=1e-9)
def from_celldm(V, ibrav):
    """dimensionless parameters, lattice constant in bohr, vectors in bohr"""
    par = parameters(V, ibrav)
    a, b, c, bc, ac, ab = par
    cos = {14: (bc, ac, ab), -12: (0, ac, 0), -13: (0, ac, 0), 12: (ab, 0, 0), 13: (ab, 0, 0), 5: (ab, 0, 0), -5: (ab, 0, 0)}.get(ibrav, (0, 0, 0))
    celldm = V.build([6], lambda i: [a, b / a, c / a, *cos][int(i)])
    A = V.call(bravais.primitives, ibrav=ibrav, celldm=celldm, bohr=True)
    check(V, A, ibrav, par)


@contract('C04', cases=[dict(ibrav=i, celldm=c) for i in ALL for c in (False, True)], trials=8, tol=1e-9)
def bohr(V, ibrav, celldm):
    """vectors in bohr are those in angstrom over the Bohr radius; parameters are kept"""
    a, b, c, bc, ac, ab = parameters(V, ibrav)
    if celldm:
        cos = {14: (bc, ac, ab), -12: (0, ac, 0), -13: (0, ac, 0), 12: (ab, 0, 0), 13: (ab, 0, 0), 5: (ab, 0, 0), -5: (ab, 0, 0)}.get(ibrav, (0, 0, 0))
        kw = dict(celldm=V.freeze('celldm', V.build([6], lambda i: [a, b / a, c / a, *cos][int(i)])))
    else:
        kw = dict(a=a, b=b, c=c, cosbc=bc, cosac=ac, cosab=ab)
    A = V.call(bravais.primitives, ibrav=ibrav, **kw)
    B = V.call(bravais.primitives, ibrav=ibrav, bohr=True, **kw)
    C = V.call(bravais.primitives, ibrav=ibrav, **kw)
    for i in range(3):
        for x in range(3):
            V.eq('ratio %d %d' % (i, x), A[i, x], B[i, x] * misc.a0)
            V.eq('repeated %d %d' % (i, x), A[i, x], C[i, x])


@contract('C04', cases=[dict(units=u, bohr=b) for u in ('alat', 'ALAT', 'bohr', 'angstrom', 'Angstrom') for b in (False, True)], trials=8, tol=1e-9)
def explicit_vectors(V, units, bohr):
    A = V.freeze('r_cell', V.array('r_cell', [3, 3]))
    a = V.real('a', pos=True)
    B = V.call(bravais.primitives, ibrav=0, a=a, r_cell=A, cell_units=units, bohr=bohr)
    s = dict(alat=a, bohr=misc.a0, angstrom=1)[units.lower()]
    for i in range(3):
        for x in range(3):
            V.eq('%d %d' % (i, x), B[i, x] * (misc.a0 if bohr else 1), A[i, x] * s)


@bounded('C04', trials=80)
def arguments_kept(V):
    """lists, tuples or arrays as arguments (also integers): same vectors on repetition, nothing modified"""
    rng = V.rng
    ibrav = V.choice('ibrav', ALL + [0])
    kind = V.choice('kind', ['list', 'array', 'integers'])
    cos = rng.uniform(-0.3, 0.3, size=3)
    celldm = [rng.uniform(1, 8), rng.uniform(0.5, 2), rng.uniform(0.5, 2), *cos]
    cell = np.array([[1, 0, 0], [1, 2, 0], [0, -1, 3]])
    if kind == 'array':
        celldm = np.array(celldm)
    elif kind == 'integers':
        celldm = [3, 2, 1, 0, 0, 0]
    kw = dict(ibrav=ibrav, celldm=celldm)
    if ibrav == 0:
        kw['r_cell'] = cell.tolist() if kind == 'list' else cell if kind == 'integers' else cell * 1.0
        kw['cell_units'] = V.choice('units', ['alat', 'bohr', 'angstrom'])
    kw['bohr'] = V.choice('bohr', [False, True])
    ref = np.array(celldm, dtype=float)
    x = bravais.primitives(**kw)
    y = bravais.primitives(**kw)
    V.eq('repeated', x, y)
    V.eq('parameters', np.array(celldm, dtype=float), ref)
    if ibrav == 0:
        V.eq('cell', np.array(kw['r_cell']), cell)
        s = dict(alat=ref[0], bohr=1, angstrom=1 / misc.a0)[kw['cell_units']]
        V.eq('vectors', x, cell * s * (1 if kw['bohr'] else misc.a0))
    else:
        check(V, x / (1 if kw['bohr'] else misc.a0), ibrav, expand(ibrav, ref))


def expand(ibrav, d):
    a = d[0]
    b = a if ibrav in CUBIC | TETRA | {5, -5} else a * d[1]
    c = a if ibrav in CUBIC | {5, -5} else a * d[2]
    bc = ac = ab = 0.0
    if ibrav in (5, -5):
        bc = ac = ab = d[3]
    elif ibrav == 4:
        ab = -0.5
    elif ibrav in (12, 13):
        ab = d[3]
    elif ibrav in (-12, -13):
        ac = d[4]
    elif ibrav == 14:
        bc, ac, ab = d[3:6]
    return a, b, c, bc, ac, ab
