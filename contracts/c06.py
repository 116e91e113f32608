"""C06: mapping a model onto a supercell and back loses nothing."""
import numpy as np
from engine.contract import contract, bounded
from . import gen
from .c10 import make, phase, wavevector, KINDS
import elphmod
from elphmod import bravais, el, elel, ph, elph, misc


def supercell(V, limit=12, dims=3):
    """multiples, rotated and left-handed supercells"""
    rng = V.rng
    kind = V.choice('kind', ['multiples', 'general', 'negative', 'origin not first'])
    if kind == 'multiples':
        N = [int(x) for x in rng.integers(1, 4, size=3)]
        while np.prod(N) > limit:
            N[int(rng.integers(3))] = 1
        return N
    if kind == 'origin not first':
        return [[(2, 2, 0), (-2, 4, 0), (0, 0, 1)], [(2, -1, 0), (1, 2, 0), (0, 0, 1)], [(0, 2, 0), (-1, 0, 1), (1, 0, 1)]][int(rng.integers(3))]
    while True:
        A = rng.integers(-2, 3, size=(3, 3))
        d = round(np.linalg.det(A))
        if 0 < abs(d) <= limit and (d < 0) == (kind == 'negative'):
            return [tuple(int(y) for y in x) for x in A]


def matrix(N):
    return np.array([n if hasattr(n, '__len__') else np.eye(3, dtype=int)[i] * n for i, n in enumerate(N)])


CONTRACT = 'bravais.supercell and bravais.to_supercell by their contract (C05): R = S . N + cell with the cell found in the list, unique'


def folding(V, back=False):
    """supercell vectors, number of cells, cells; symbolically any of them"""
    if not V.symbolic:
        N = supercell(V)
        A = matrix(N)
        n, _, _, cells = bravais.supercell(*N)
        return N, [[int(y) for y in x] for x in A], int(n), [tuple(int(y) for y in c) for c in cells]
    from engine import interp, terms as tm
    A = [[V.int('N%d%d' % (x, y)) for y in range(3)] for x in range(3)]
    nc = V.dim('nc')
    at = lambda j, x: tm.app('cell', (interp.lift(j), tm.num(x)), 'i')
    outer = lambda y, *R: tm.app('outer%d' % y, R, 'i')
    inner = lambda *R: tm.app('inner', R, 'i')

    class Cells(interp.SList):
        def index(self, cell):
            if cell != (0, 0, 0):
                raise interp.Unsupported('index of a cell')
            o = V.int('origin')
            V.require(V.and_(0 <= o, o < nc, *[tm.eq(at(o, x), tm.num(0)) for x in range(3)]))
            return o
    cells = Cells(nc, lambda j: tuple(at(j, x) for x in range(3)))

    def to_supercell(R, info):
        R = [interp.lift(R[x]) for x in range(3)]
        return tuple(outer(y, *R) for y in range(3)), inner(*R)

    def rest(x, *R):
        return R[x] - sum(outer(y, *R) * A[y][x] for y in range(3))

    V.stub('elphmod.bravais.supercell', lambda *a: (nc, tuple(map(interp.asarr, A)), None, cells), CONTRACT)
    V.stub('elphmod.bravais.to_supercell', to_supercell, CONTRACT)
    V.fact('inner', lambda *R: V.and_(0 <= inner(*R), inner(*R) < nc))
    for y in range(3):
        V.fact('outer%d' % y, lambda *R: V.and_(*[tm.eq(at(inner(*R), x), rest(x, *R)) for x in range(3)]))
    V.rewrite('cell', lambda j, x: rest(int(x.args[0]), *j.args[1:]) if x.op == 'num' and j.op == 'app' and j.args[0] == 'inner' else None)
    if back:
        # K . N + cell is mapped to K and the index of the cell
        def unique(R, cell):
            n, i = R.args[1], cell.args[1]
            if R.args[2] is not tm.num(0) or cell.args[2] is not tm.num(0) or i.op == 'app':
                return None
            K = [tm.app('R', (n, tm.num(x)), 'i') for x in range(3)]
            P = [sum(K[y] * A[y][x] for y in range(3)) + at(i, x) for x in range(3)]
            return V.and_(tm.eq(inner(*P), i), *[tm.eq(outer(y, *P), K[y]) for y in range(3)])
        V.pair_fact('R', 'cell', unique)
    return (1, 1, 1), A, nc, cells


def distinct(V, name, R, n):
    """no lattice vector is repeated: each one determines its index"""
    if V.symbolic:
        from engine import terms as tm
        V.fact(name, lambda i, x: tm.eq(tm.app('where' + name, tuple(tm.app(name, (i, tm.num(y)), 'i') for y in range(3)), 'i'), i))
    else:
        V.require(len({tuple(x) for x in R}) == n)


def dot(a, b):
    return sum((a[x] * b[x] for x in (1, 2)), a[0] * b[0])


@contract('C06', cases=[dict(kind=k) for k in KINDS], trials=20)
def folded(V, kind):
    """any supercell vectors, any number of cells, any distinct lattice vectors: H(k . N) of the supercell
    model at the fields exp(i k . cell) is H(k) of the original one, for all k, hence element by element"""
    N, A, nc, cells = folding(V)
    cls, name, sort, sgn = KINDS[kind]
    nR = V.dim('nR')
    if kind == 'ph':
        nat = V.dim('nat')
        no = 3 * nat
    else:
        no = V.dim('no')
    m = make(V, cls, nR, no, sort)
    R, data = m.R, m.data
    distinct(V, 'R', R, nR)
    if kind == 'el':
        m.divide_ndegen, m.rydberg = False, True
    if kind == 'ph':
        m.nat = nat
        m.M = V.array('M', [nat], 'r')
        m.a = V.array('a', [3, 3], 'r')
        m.r = V.array('r', [nat, 3], 'r')
        m.Z = V.array('Z', [nat, 3, 3], 'r')
        m.Q = V.array('Q', [nat, 3, 3, 3], 'r')
        m.atom_order = ['X'] * nat if not V.symbolic else ['X']
        m.lr, m.lr2d, m.L, m.perp, m.eps, m.alpha = False, True, 2, False, None, None
        m.divide_mass, m.divide_ndegen = True, False
    s = V.call(m.supercell, *N)
    k = wavevector(V)
    kN = [dot(k, A[x]) for x in range(3)]
    NR = V.shape(s.R)[0]
    at = lambda j: V.exp(V.i * dot(k, cells[j]))
    V.eq('size', s.size, nc * no)
    V.forall('folding', [nc, no, no], lambda i, a, b: (
        V.sum(nc, lambda j: V.sum(NR, lambda n: s.data[n, i * no + a, j * no + b] * phase(V, s.R, n, kN)) * at(j)),
        V.sum(nR, lambda n: data[n, a, b] * phase(V, R, n, k)) * at(i)))
    if kind == 'el':
        V.holds('settings', s.divide_ndegen is False and s.rydberg is True)
        for x in range(3):
            for y in range(3):
                V.eq('vector %d%d' % (x, y), s.N[x][y], A[x][y])
    if kind == 'ph':
        V.eq('atoms', s.nat, nc * nat)
        V.forall('masses', [nc, nat], lambda i, a: (s.M[i * nat + a], m.M[a]))
        V.forall('charges', [nc, nat, 3, 3], lambda i, a, x, y: (s.Z[i * nat + a, x, y], m.Z[a, x, y]))
        V.forall('quadrupoles', [nc, nat, 3, 3, 3], lambda i, a, x, y, z: (s.Q[i * nat + a, x, y, z], m.Q[a, x, y, z]))
        for x in range(3):
            for y in range(3):
                V.eq('lattice %d%d' % (x, y), s.a[x, y], sum((A[x][z] * m.a[z, y] for z in (1, 2)), A[x][0] * m.a[0, y]))
        for x in range(3):
            V.forall('positions %d' % x, [nc, nat], lambda i, a: (s.r[i * nat + a, x], sum((cells[i][y] * m.a[y, x] for y in (1, 2)), cells[i][0] * m.a[0, x]) + m.r[a, x]))
        V.holds('settings', (s.lr, s.lr2d, s.L, s.perp, s.divide_mass, s.divide_ndegen) == (False, True, 2, False, True, False))


@contract('C06', cases=[dict(kind='el'), dict(kind='ph')], trials=20)
def unfolded(V, kind):
    """unit-cell model: one row of blocks of any supercell model, each at its own lattice vector"""
    N, A, nc, cells = folding(V, back=True)
    cls, name, sort, sgn = KINDS[kind]
    nR = V.dim('nR')
    nat = V.dim('nat')
    no = 3 * nat if kind == 'ph' else V.dim('no')
    m = make(V, cls, nR, nc * no, sort)
    m.cells, m.N = cells, [tuple(x) for x in A]
    R, data = m.R, m.data
    distinct(V, 'R', R, nR)
    if kind == 'el':
        m.divide_ndegen, m.rydberg = False, True
    if kind == 'ph':
        m.nat = nat * nc
        m.M = V.array('M', [nat * nc], 'r')
        m.a = V.array('a', [3, 3], 'r')
        m.r = V.array('r', [nat * nc, 3], 'r')
        m.Z = V.array('Z', [nat * nc, 3, 3], 'r')
        m.Q = V.array('Q', [nat * nc, 3, 3, 3], 'r')
        m.atom_order = ['X'] * (1 if V.symbolic else nat * nc)
        m.lr, m.lr2d, m.L, m.perp, m.eps, m.alpha = False, True, 2, False, None, None
        m.divide_mass, m.divide_ndegen = True, False
        c = [A[1][(x + 1) % 3] * A[2][(x + 2) % 3] - A[1][(x + 2) % 3] * A[2][(x + 1) % 3] for x in range(3)]
        V.require(dot(A[0], c) != 0)
    u = V.call(m.unit_cell)
    o = cells.index((0, 0, 0))
    k = wavevector(V)
    NR = V.shape(u.R)[0]
    V.eq('size', u.size, no)
    V.forall('Bloch sum', [no, no], lambda a, b: (
        V.sum(NR, lambda n: u.data[n, a, b] * phase(V, u.R, n, k)),
        V.sum(nR, lambda n: V.sum(nc, lambda j: data[n, o * no + a, j * no + b] * V.exp(
            V.i * sum(k[x] * (sum(R[n, y] * A[y][x] for y in range(3)) + cells[j][x]) for x in range(3)))))))
    if kind == 'el':
        V.holds('settings', u.divide_ndegen is False and u.rydberg is True)
    if kind == 'ph':
        V.eq('atoms', u.nat, nat)
        V.forall('masses', [nat], lambda a: (u.M[a], m.M[a]))
        V.forall('charges', [nat, 3, 3], lambda a, x, y: (u.Z[a, x, y], m.Z[a, x, y]))
        V.forall('quadrupoles', [nat, 3, 3, 3], lambda a, x, y, z: (u.Q[a, x, y, z], m.Q[a, x, y, z]))
        V.forall('positions', [nat, 3], lambda a, x: (u.r[a, x], m.r[o * nat + a, x]))
        for x in range(3):
            for y in range(3):
                V.eq('lattice %d%d' % (x, y), sum(A[x][z] * u.a[z, y] for z in range(3)), m.a[x, y])
        V.holds('settings', (u.lr, u.lr2d, u.L, u.perp, u.divide_mass, u.divide_ndegen) == (False, True, 2, False, True, False))


def zero_padded(V, R, data, Rs, size):
    """original elements at any lattice vector"""
    ix = {tuple(int(y) for y in r): d for r, d in zip(R, data)}
    return lambda R: ix.get(tuple(int(y) for y in R), np.zeros((size, size)))


def compare(V, A, cells, old, new_R, new_data, size):
    """every element of the supercell model, and no element lost"""
    cells = [tuple(int(y) for y in c) for c in cells]
    R0, d0 = old
    get = zero_padded(V, R0, d0, None, size)
    seen = np.zeros(len(R0), dtype=int)
    ix = {tuple(int(y) for y in r): n for n, r in enumerate(R0)}
    V.eq('shape', np.array(new_data.shape), np.array((len(new_R), size * len(cells), size * len(cells))))
    V.holds('distinct lattice vectors', len({tuple(r) for r in new_R}) == len(new_R))
    for n, R in enumerate(new_R):
        for i, ci in enumerate(cells):
            for j, cj in enumerate(cells):
                r = R.dot(A) + cj - np.array(ci)
                V.eq('element', new_data[n, i * size:(i + 1) * size, j * size:(j + 1) * size], get(r))
                if tuple(r) in ix:
                    seen[ix[tuple(r)]] += 1
    V.holds('all elements mapped once per cell', np.all(seen == len(cells)))


@bounded('C06', trials=24)
def electrons(V):
    rng = V.rng
    N = supercell(V)
    A = matrix(N)
    hermitian = V.choice('hermitian', [True, False])
    m = gen.electrons(rng, hermitian=hermitian, n=V.choice('n', [1, 5, 9]), divide_ndegen=V.choice('ndegen', [True, False]), rydberg=V.choice('rydberg', [False, True]))
    R, data = m.R.copy(), m.data.copy()
    s = m.supercell(*N)
    V.eq('original kept', m.data, data)
    V.eq('original lattice kept', m.R, R)
    V.eq('size', s.size, m.size * abs(round(np.linalg.det(A))))
    V.holds('cells', len({tuple(c) for c in s.cells}) == len(s.cells) == abs(round(np.linalg.det(A))))
    V.eq('vectors', np.array(s.N), A)
    V.holds('settings', s.divide_ndegen == m.divide_ndegen and s.rydberg == m.rydberg)
    compare(V, A, s.cells, (R, data), s.R, s.data, m.size)
    u = s.unit_cell()
    same(V, u, R, data)
    V.eq('size of unit cell', u.size, m.size)
    V.holds('settings of unit cell', u.divide_ndegen == m.divide_ndegen and u.rydberg == m.rydberg)


def same(V, u, R, data):
    V.holds('lattice vectors recovered', {tuple(r) for r in u.R} == {tuple(r) for r in R} and len(u.R) == len(R))
    ix = {tuple(r): n for n, r in enumerate(R)}
    for n, r in enumerate(u.R):
        V.eq('elements recovered', u.data[n], data[ix[tuple(r)]])


@bounded('C06', trials=10)
def interaction(V):
    rng = V.rng
    N = supercell(V)
    A = matrix(N)
    m = gen.coulomb(rng, n=V.choice('n', [1, 5]))
    R, data = m.R.copy(), m.data.copy()
    s = m.supercell(*N)
    V.eq('size', s.size, m.size * abs(round(np.linalg.det(A))))
    compare(V, A, s.cells, (R, data), s.R, s.data, m.size)


@bounded('C06', trials=24)
def phonons(V):
    rng = V.rng
    N = supercell(V)
    A = matrix(N)
    lr = V.choice('lr', [False, False, True])
    m = gen.phonons(rng, nat=V.choice('nat', [1, 2]), n=V.choice('n', [1, 5, 7]), lr=lr, Q=lr and V.choice('Q', [True, False]),
                    divide_mass=V.choice('divide_mass', [True, False]), divide_ndegen=V.choice('divide_ndegen', [True, False]))
    keep = {x: np.copy(getattr(m, x)) for x in ('R', 'data', 'M', 'r', 'a', 'Z', 'Q', 'eps', 'alpha')if getattr(m, x) is not None}
    s = m.supercell(*N)
    for x, y in keep.items():
        V.eq('original %s kept' % x, getattr(m, x), y)
    cells = np.array(s.cells)
    n = len(cells)
    V.holds('cells', n == abs(round(np.linalg.det(A))) == len({tuple(c) for c in cells}))
    V.eq('sizes', np.array((s.nat, s.size)), np.array((m.nat * n, m.size * n)))
    compare(V, A, cells, (keep['R'], keep['data']), s.R, s.data, m.size)
    V.eq('lattice', s.a, A.dot(m.a))
    V.eq('masses', s.M, np.array([m.M[a] for c in cells for a in range(m.nat)]))
    V.holds('species', list(s.atom_order) == [m.atom_order[a] for c in cells for a in range(m.nat)])
    V.eq('positions', s.r, np.array([c.dot(m.a) + m.r[a] for c in cells for a in range(m.nat)]))
    for x in ('Z', 'Q'):
        if getattr(m, x) is None:
            V.holds('no ' + x, getattr(s, x) is None)
        else:
            V.eq(x, getattr(s, x), np.array([getattr(m, x)[a] for c in cells for a in range(m.nat)]))
    V.holds('settings', all(getattr(s, x) == getattr(m, x) for x in ('divide_mass', 'divide_ndegen', 'lr', 'lr2d', 'L', 'perp')))
    u = s.unit_cell()
    same(V, u, keep['R'], keep['data'])
    V.eq('sizes of unit cell', np.array((u.nat, u.size)), np.array((m.nat, m.size)))
    V.eq('lattice recovered', u.a, m.a)
    V.eq('masses recovered', np.array(u.M), np.array(m.M))
    V.holds('species recovered', list(u.atom_order) == list(m.atom_order))
    V.eq('positions recovered', np.array(u.r), np.array(m.r))
    for x in ('Z', 'Q', 'eps', 'alpha'):
        if getattr(m, x) is None:
            V.holds('still no ' + x, getattr(u, x) is None)
        else:
            V.eq(x + ' recovered', getattr(u, x), getattr(m, x))
    V.holds('settings recovered', all(getattr(u, x) == getattr(m, x) for x in ('divide_mass', 'divide_ndegen', 'lr', 'lr2d', 'L', 'perp')))
    if m.lr:
        q = gen.kpoint(rng)
        V.eq('long-range part recovered', u.D_lr(*q), m.D_lr(*q), tol=1e-6)


@bounded('C06', trials=8)
def long_range(V):
    """dynamical matrix of the supercell at Q from those at the q points that fold onto Q, including the long-range part"""
    rng = V.rng
    N = supercell(V, limit=6)
    A = matrix(N)
    m = gen.phonons(rng, nat=V.choice('nat', [1, 2]), lr=True, Q=V.choice('Q', [True, False]), a_kind=V.choice('a', [0, 1, 3]), n=5)
    s = m.supercell(*N)
    cells = np.array(s.cells)
    n = len(cells)
    Q = rng.uniform(-np.pi, np.pi, size=3)
    inv = np.linalg.inv(A)
    # q with A q = Q + 2 pi integers
    G = {tuple(np.round(np.mod(np.linalg.solve(A, g), 1), 9) % 1): g for g in np.ndindex(n, n, n)}
    qs = [np.linalg.solve(A, Q + 2 * np.pi * np.array(g)) for g in G.values()]
    qs = [q - 2 * np.pi * np.round(q / (2 * np.pi)) for q in qs]
    V.require(len(qs) == n)
    ref = np.zeros((s.size, s.size), dtype=complex)
    for q in qs:
        p = np.repeat(np.exp(1j * cells.dot(q)), m.size)
        # phase convention of the long-range part and of the Bloch sum: D_super(i, j) = sum_q e^{i q (R_i - R_j)} D(q) / n
        ref += p[:, None] * np.tile(m.D(*q), (n, n)) * p.conj() / n
    V.eq('folded', s.D(*Q), ref, tol=1e-6)


@bounded('C06', trials=16)
def couplings(V):
    rng = V.rng
    N = supercell(V, limit=6)
    A = matrix(N)
    m = gen.coupling(rng, n=V.choice('n', [1, 3]), no=V.choice('no', [1, 2]))
    s = m.supercell(*N)
    cells = np.array(s.cells)
    nc = len(cells)
    ne, nx = m.el.size, m.ph.size
    V.eq('shape', np.array(s.data.shape), np.array((len(s.Rg), nx * nc, len(s.Rk), ne * nc, ne * nc)))
    V.holds('sizes', s.el.size == ne * nc and s.ph.size == nx * nc)
    get = {(tuple(int(y) for y in g), tuple(int(y) for y in k)): m.data[a, :, b] for a, g in enumerate(m.Rg) for b, k in enumerate(m.Rk)}
    found = 0
    zero = np.zeros((nx, ne, ne))
    for a, g in enumerate(s.Rg):
        for b, k in enumerate(s.Rk):
            for i, c1 in enumerate(cells):
                for j, c2 in enumerate(cells):
                    K = tuple(int(y) for y in k.dot(A) + c2 - c1)
                    for l, c3 in enumerate(cells):
                        G = tuple(int(y) for y in g.dot(A) + c3 - c1)
                        found += (G, K) in get
                        V.eq('element', s.data[a, l * nx:(l + 1) * nx, b, i * ne:(i + 1) * ne, j * ne:(j + 1) * ne], get.get((G, K), zero))
    V.eq('all elements mapped once per cell', found, nc * len(m.Rg) * len(m.Rk))
    V.holds('settings', s.divide_mass == m.divide_mass and s.divide_ndegen == m.divide_ndegen)
    V.eq('electrons', s.el.data, m.el.supercell(*N).data)
    V.eq('phonons', s.ph.data, m.ph.supercell(*N).data)
    q, k = gen.kpoint(rng), gen.kpoint(rng)
    V.eq('usable', s.g(*q, *k), np.einsum('RxSab,R,S->xab', s.data, np.exp(1j * s.Rg.dot(q)), np.exp(1j * s.Rk.dot(k))))


@bounded('C06', trials=8)
def sparse(V):
    """sparse matrices of the supercell are the sums over its lattice vectors (real models)"""
    rng = V.rng
    N = supercell(V, limit=6)
    p = gen.phonons(rng, nat=V.choice('nat', [1, 2]))
    e = gen.electrons(rng, no=2)
    e.data = e.data.real + 0j
    m = gen.coupling(rng, e=e, p=p)
    m.data[...] = m.data.real
    s, d = m.supercell(*N, sparse=True), m.supercell(*N)
    V.eq('H', s.el.Hs.toarray(), d.el.data.sum(axis=0).real)
    V.eq('D', s.ph.Ds.toarray(), d.ph.data.sum(axis=0).real)
    for x in range(s.ph.size):
        V.eq('g', s.gs[x].toarray(), d.data[:, x].sum(axis=(0, 1)).real)
