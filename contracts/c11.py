"""C11: normalising or reordering a model preserves its physics."""
import numpy as np
from engine.contract import contract, bounded
from . import gen
from .c10 import make, phase, wavevector, KINDS
import elphmod
from elphmod import el, elel, ph, elph, misc


class Nothing:
    """stands for a method whose own contract is that it does not change Bloch sums"""
    engine_ok = True

    def __call__(self, *args, **kwargs):
        return None


def total(V, m, R, data, nR, k, a, b):
    return V.sum(nR, lambda n: data[n, a, b] * phase(V, R, n, k))


@contract('C11', cases=[dict(where=w) for w in ('inside', 'all', 'left', 'right')], trials=20)
def shift_orbitals(V, where):
    """any number of selected orbitals, any shift; Bloch sums before merging equal lattice vectors"""
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, el.Model, nR, no)
    R, data = m.R, m.data
    lo = 0 if where in ('all', 'left') else V.int('lo', lo=0, hi=2)
    hi = no if where in ('all', 'right') else V.int('hi', lo=0, hi=4)
    V.require(0 <= lo)
    V.require(lo <= hi)
    V.require(hi <= no)
    S = [V.int('S%d' % x) for x in range(3)]
    k = wavevector(V)
    m.standardize = Nothing()
    V.call(m.shift_orbitals, slice(lo, hi), tuple(S))
    N = V.shape(m.R)[0]
    kS = sum((k[x] * S[x] for x in (1, 2)), k[0] * S[0])
    sel = lambda a: V.and_(lo <= a, a < hi)
    V.forall('phase', [no, no], lambda a, b: (
        total(V, m, m.R, m.data, N, k, a, b),
        total(V, m, R, data, nR, k, a, b) * V.ite(sel(a), V.exp(V.i * kS), 1) * V.ite(sel(b), V.exp(-V.i * kS), 1)))


def duplicated(rng, R, shape, cplx=True, hermitian=False):
    """repeated lattice vectors in random order, some zero matrices"""
    n = len(R)
    R = np.concatenate((R, R[rng.integers(n, size=rng.integers(0, n + 1))]))
    data = gen.cnormal(rng, (len(R), *shape)) if cplx else rng.normal(size=(len(R), *shape))
    data[rng.random(len(R)) < 0.25] = 0
    # cancellation of two contributions is allowed, too
    if len(R) > n and rng.random() < 0.3:
        data[n] = -data[[tuple(x) for x in R].index(tuple(R[n]))]
    data[rng.random(data.shape) < 0.2] = 0
    p = rng.permutation(len(R))
    return R[p], data[p]


def lattice_ok(V, R, dim=3):
    rows = [tuple(int(y) for y in x) for x in np.asarray(R).reshape((-1, dim))]
    V.holds('sorted and distinct', rows == sorted(set(rows)))


@contract('C11', cases=[dict(kind=k, symm=s) for k, s in (('el', False), ('elel', False), ('ph', False), ('el', True), ('ph', True))], trials=20)
def standardize_sums(V, kind, symm):
    """any number of lattice vectors in any order, with any repetitions and zeros: Bloch
    sums are kept, or replaced by their Hermitian part"""
    cls, name, sort, sgn = KINDS[kind]
    nR, no = V.dim('nR'), V.dim('no')
    m = make(V, cls, nR, no, sort)
    R, data = m.R, m.data
    if not V.symbolic:
        R, data = R.copy(), data.copy()
        if nR > 1 and V.rng.random() < 0.5:
            R[-1] = R[0]
        m.R, m.data = R.copy(), data.copy()
    k = wavevector(V)
    V.call(m.standardize, **(dict(symmetrize=True) if symm else {}))
    N = V.shape(m.R)[0]
    V.forall('Bloch sum', [no, no], lambda a, b: (
        total(V, m, m.R, m.data, N, k, a, b),
        (total(V, m, R, data, nR, k, a, b) + V.conj(total(V, m, R, data, nR, k, b, a))) / 2
        if symm else total(V, m, R, data, nR, k, a, b)))


@bounded('C11', trials=60)
def standardize(V):
    rng = V.rng
    kind = V.choice('kind', list(KINDS))
    symm = V.choice('symm', [False, True]) if kind != 'elel' else False
    cls, name, sort, _ = KINDS[kind]
    no = V.choice('no', [1, 2, 3])
    if kind == 'ph':
        m = gen.phonons(rng, nat=no)
        m.R, m.data = duplicated(rng, m.R, (m.size, m.size), cplx=False)
    else:
        m = cls()
        m.size = no
        m.R, m.data = duplicated(rng, gen.lattice_vectors(rng, V.choice('n', [1, 3, 6])), (no, no))
    if V.choice('zero', [False] * 7 + [True]):
        m.data[...] = 0
    R, data = m.R.copy(), m.data.copy()
    zero = {tuple(r) for r in R} - {tuple(r) for r, d in zip(R, data) if np.any(d != 0)}
    m.symmetrize() if symm else m.standardize()
    lattice_ok(V, m.R)
    V.holds('no vector with vanishing contributions only', not zero & {tuple(r) for r in m.R} or symm)
    V.eq('shape', np.array(m.data.shape), np.array((len(m.R), m.size, m.size)))
    for _ in range(3):
        k = gen.kpoint(rng)
        ref = gen.bloch(R, data, k)
        if symm:
            ref = (ref + ref.T.conj()) / 2
        V.eq('Bloch matrix', getattr(m, name)(*k), ref)


@bounded('C11', trials=20)
def threshold(V):
    """a relative threshold removes exactly the smaller matrix elements"""
    rng = V.rng
    kind = V.choice('kind', [*KINDS, 'elph'])
    eps = V.choice('eps', [0.05, 0.3, 1.0])
    if kind == 'elph':
        m = gen.coupling(rng)
        keep = m.data.copy()
        keep[abs(keep) < eps * abs(keep).max()] = 0
        Rg, Rk = m.Rg.copy(), m.Rk.copy()
        m.standardize(eps=eps)
        q, k = gen.kpoint(rng), gen.kpoint(rng)
        ref = np.einsum('RxSab,R,S->xab', keep, np.exp(1j * Rg.dot(q)), np.exp(1j * Rk.dot(k)))
        V.eq('coupling', m.g(*q, *k), ref)
        return
    cls, name, sort, _ = KINDS[kind]
    if kind == 'ph':
        m = gen.phonons(rng)
    else:
        m = cls()
        m.size = 2
        m.R = gen.lattice_vectors(rng, 5)
        m.data = gen.cnormal(rng, (len(m.R), 2, 2))
    keep = m.data.copy()
    keep[abs(keep) < eps * abs(keep).max()] = 0
    R = m.R.copy()
    m.standardize(eps=eps)
    lattice_ok(V, m.R)
    V.holds('only vectors with remaining elements', {tuple(r) for r in m.R} == {tuple(r) for r, d in zip(R, keep) if np.any(d != 0)})
    k = gen.kpoint(rng)
    V.eq('Bloch matrix', getattr(m, name)(*k), gen.bloch(R, keep, k))


@bounded('C11', trials=40)
def standardize_coupling(V):
    rng = V.rng
    symm = V.choice('symm', [False, True])
    m = gen.coupling(rng, Rg=gen.lattice_vectors(rng, V.choice('ng', [1, 2, 4])), Rk=gen.lattice_vectors(rng, V.choice('nk', [1, 3, 4])))
    # duplicates in both lattices
    Rg = m.Rg[rng.integers(len(m.Rg), size=len(m.Rg) + V.choice('dg', [0, 2]))]
    Rk = m.Rk[rng.integers(len(m.Rk), size=len(m.Rk) + V.choice('dk', [0, 1, 2]))]
    m = elph.Model(el=m.el, ph=m.ph, Rk=Rk, dk=np.ones((1, 1, len(Rk)), dtype=int), Rg=Rg, dg=np.ones((1, 1, 1, len(Rg)), dtype=int), divide_mass=m.divide_mass)
    m.data[...] = gen.cnormal(rng, m.data.shape)
    m.data[rng.random(m.data.shape) < 0.3] = 0
    m.data[rng.random(len(Rg)) < 0.2] = 0
    gen.ready(m)
    data, Rg, Rk = m.data.copy(), Rg.copy(), Rk.copy()
    if V.choice('cached', [True, False]):
        m.g(*gen.kpoint(rng), *gen.kpoint(rng))
        q0 = gen.kpoint(rng)
        m.g(*q0)
    else:
        q0 = gen.kpoint(rng)
    old = lambda q, k: np.einsum('RxSab,R,S->xab', data, np.exp(1j * Rg.dot(q)), np.exp(1j * Rk.dot(k)))
    m.symmetrize() if symm else m.standardize()
    lattice_ok(V, m.Rg)
    lattice_ok(V, m.Rk)
    V.eq('shape', np.array(m.data.shape), np.array((len(m.Rg), m.ph.size, len(m.Rk), m.el.size, m.el.size)))
    for q in (q0, gen.kpoint(rng)):
        for k in (gen.kpoint(rng), np.zeros(3)):
            ref = old(q, k)
            if symm:
                ref = (ref + old(-q, k + q).swapaxes(1, 2).conj()) / 2
            V.eq('coupling', m.g(*q, *k), ref)
    # in the localised basis for the electrons
    V.eq('one k lattice vector', m.gR(*m.Rg[0], *m.Rk[-1]), m.data[0, :, -1])


@bounded('C11', trials=20)
def order_orbitals(V):
    rng = V.rng
    no = V.choice('no', [1, 2, 3, 4])
    m = gen.electrons(rng, no=no, hermitian=V.choice('hermitian', [True, False]))
    order = [int(x) for x in rng.permutation(no)]
    R, data = m.R.copy(), m.data.copy()
    m.order_orbitals(*order)
    k = gen.kpoint(rng)
    V.eq('permuted', m.H(*k), gen.bloch(R, data, k)[np.ix_(order, order)])
    for n in range(len(R)):
        for i in range(no):
            for j in range(no):
                V.eq('element', m.t(*R[n])[i, j], data[n, order[i], order[j]])


@bounded('C11', trials=30)
def shift_orbitals_merged(V):
    rng = V.rng
    no = V.choice('no', [1, 2, 3, 4])
    m = gen.electrons(rng, no=no, hermitian=V.choice('hermitian', [True, False]))
    lo, hi = sorted(int(x) for x in rng.integers(0, no + 1, size=2))
    S = rng.integers(-2, 3, size=3)
    R, data = m.R.copy(), m.data.copy()
    m.shift_orbitals(slice(lo, hi), tuple(int(x) for x in S))
    lattice_ok(V, m.R)
    k = gen.kpoint(rng)
    p = np.where((np.arange(no) >= lo) & (np.arange(no) < hi), np.exp(1j * k.dot(S)), 1)
    V.eq('phase', m.H(*k), p[:, None] * gen.bloch(R, data, k) * p.conj())


def phonons(V):
    rng = V.rng
    lr = V.choice('lr', [False, False, True])
    return gen.phonons(rng, nat=V.choice('nat', [1, 2, 3]), lr=lr, Q=lr and V.choice('Q', [False, True]), n=V.choice('n', [1, 4, 6]),
                       divide_mass=V.choice('divide_mass', [True, False]))


@bounded('C11', trials=24)
def order_atoms(V):
    rng = V.rng
    m = phonons(V)
    q = gen.kpoint(rng)
    D = m.D(*q)
    lr = m.lr and m.D_lr(*q)
    old = dict(M=np.array(m.M), r=m.r.copy(), atom_order=list(m.atom_order), Z=None if m.Z is None else m.Z.copy(), Q=None if m.Q is None else m.Q.copy())
    order = [int(x) for x in rng.permutation(m.nat)]
    ix = [3 * a + x for a in order for x in range(3)]
    m.order_atoms(*order)
    V.eq('permuted', m.D(*q), D[np.ix_(ix, ix)])
    if m.lr:
        V.eq('long range permuted', m.D_lr(*q), lr[np.ix_(ix, ix)])
    V.holds('species', list(m.atom_order) == [old['atom_order'][a] for a in order])
    for name in ('M', 'r', 'Z', 'Q'):
        if old[name] is not None:
            V.eq(name, getattr(m, name), old[name][order])


@bounded('C11', trials=30)
def shift_atoms(V):
    rng = V.rng
    m = phonons(V)
    lo, hi = sorted(int(x) for x in rng.integers(0, m.nat + 1, size=2))
    S = rng.integers(-2, 3, size=3)
    q = gen.kpoint(rng)
    R, data, r, a = m.R.copy(), m.data.copy(), m.r.copy(), m.a.copy()
    D = m.D(*q)
    sel = (np.arange(m.nat) >= lo) & (np.arange(m.nat) < hi)
    m.shift_atoms(slice(lo, hi), tuple(int(x) for x in S))
    lattice_ok(V, m.R)
    p = np.repeat(np.where(sel, np.exp(1j * q.dot(S)), 1), 3)
    V.eq('phase', gen.bloch(m.R, m.data, q), p[:, None] * gen.bloch(R, data, q) * p.conj())
    V.eq('total', m.D(*q), p[:, None] * D * p.conj())
    V.eq('positions', m.r, r + sel[:, None] * S.dot(a))
    V.eq('lattice', m.a, a)
