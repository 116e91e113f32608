"""C19: corrections enforce the acoustic sum rules."""
import os
import tempfile
import numpy as np
from engine.contract import contract, bounded
from elphmod import bravais, misc, elph, ph
from contracts import gen

LEVEL_NOTE = ('proved: elphmod.ph.asr, elphmod.ph.zasr, elphmod.elph.Model.asr for all inputs and sizes; bounded: '
              'elphmod.ph.sum_rule_correction (Gram-Schmidt orthogonalization) and the corrections applied on reading a model')


@contract('C19', trials=20)
def force_constants(V):
    nat = V.dim('nat', small=(1, 3))
    nr = [V.dim('nr%d' % x, small=(1, 3)) for x in range(3)]
    shape = [nat, nat] + nr + [3, 3]
    old = V.array('old', shape)
    new = V.array('old', shape, mutable=True) if V.symbolic else old.copy()
    V.call(ph.asr, new)
    V.forall('sum rule', [nat, 3, 3], lambda i, x, y: (
        V.sum([nat] + nr, lambda j, a, b, c: new[i, j, a, b, c, x, y]), 0), tol=1e-7)
    V.forall('only on-site blocks', shape, lambda i, j, a, b, c, x, y: (
        new[i, j, a, b, c, x, y], V.ite(V.and_(V.eqv(i, j), V.eqv(a, 0), V.eqv(b, 0), V.eqv(c, 0)),
                                        lambda: new[i, j, a, b, c, x, y], lambda: old[i, j, a, b, c, x, y])))


@contract('C19', trials=20)
def charges(V):
    nat = V.dim('nat', small=(1, 4))
    old = V.array('old', [nat, 3, 3])
    new = V.array('old', [nat, 3, 3], mutable=True) if V.symbolic else old.copy()
    V.call(ph.zasr, new)
    V.forall('sum rule', [3, 3], lambda x, y: (V.sum([nat], lambda i: new[i, x, y]), 0), tol=1e-7)
    V.forall('differences', [nat, nat, 3, 3], lambda i, j, x, y: (new[i, x, y] - new[j, x, y], old[i, x, y] - old[j, x, y]))


class Communicator:
    engine_ok = True
    rank, size = 0, 1

    def Bcast(self, *args, **kwargs):
        pass

    def Barrier(self):
        pass


@contract('C19', cases=[dict(zeros=z) for z in (False, True)], trials=20)
def coupling(V, zeros):
    """zeros: where all entries of a column vanish, nothing changes"""
    nR, nat, nk, no = V.dim('nR', small=(1, 3)), V.dim('nat', small=(1, 3)), V.dim('nk', small=(1, 2)), V.dim('no', small=(1, 2))
    m = elph.Model(el=None, ph=ph.Model())
    m.ph.nat = nat
    m.Rg = V.array('Rg', [nR, 3], 'i')
    m.node = m.images = Communicator()
    m.q = None
    shape = [nR, 3 * nat, nk, no, no]
    x, k, a, b = V.index('x', 0, 3), V.index('k', 0, nk), V.index('a', 0, no), V.index('b', 0, no)
    old = V.array('g', shape, 'c')
    if zeros:
        g = old
        old = V.build(shape, lambda n, y, l, c, d: V.ite(V.and_(V.eqv(y % 3, x), V.eqv(l, k), V.eqv(c, a), V.eqv(d, b)), 0, lambda: g[n, y, l, c, d]), 'c')
    else:
        V.require(V.sum([nR, nat], lambda n, i: V.abs(old[n, 3 * i + x, k, a, b])) > 0)
    m.data = V.mutable('g', old)
    V.call(m.asr, report=False)
    V.eq('sum rule', V.sum([nR, nat], lambda n, i: m.data[n, 3 * i + x, k, a, b]), 0)


@bounded('C19', trials=24)
def combined(V):
    zero = lambda name, x, tol=1e-7: V.eq(name, abs(np.asarray(x)).max(), 0, tol=tol)
    divide = V.choice('divide_mass', [True, False])
    rotate = V.choice('rsr', [True, False])
    translate = V.choice('asr', [True, True, not rotate])
    n = V.choice('n', [2, 4])
    m = gen.phonons(V.rng, n=n, divide_mass=divide)
    old = m.data.copy()
    with gen.quiet():
        ph.sum_rule_correction(m, asr=translate, rsr=rotate, report=False)
    w = np.sqrt(np.repeat(m.M, 3)) if divide else np.ones(m.size)
    C = (m.data * w * w[:, None]).reshape((len(m.R), m.nat, 3, m.nat, 3))
    x = np.dot(m.R, m.a)[:, None] + m.r
    # Hermitian model stays Hermitian
    k = gen.kpoint(V.rng)
    D = m.D(*k)
    V.eq('Hermitian', D, D.conj().T)
    if translate:
        zero('translations', np.einsum('nkxly->kxy', C), tol=1e-7)
        for y in range(3):
            zero('annihilates translation', m.D().dot(np.tile(np.eye(3)[y], m.nat) * (w if divide else 1)), tol=1e-7)
    if rotate:
        T = np.einsum('nkxly,nlz->kxyz', C, x)
        # (translating the origin changes the sums by the acoustic sums)
        zero('rotations', np.einsum('kxyz->kxzy', T) - np.einsum('kxyz->kzxy', T), tol=1e-6)
    # the correction is the smallest possible one: a projection
    before = (old * w * w[:, None]).reshape(C.shape)
    V.eq('projection', np.vdot(before - C, C) / np.vdot(before, before), 0, tol=1e-7)
    # fulfilled sum rules: nothing to correct
    once = m.data.copy()
    with gen.quiet():
        ph.sum_rule_correction(m, asr=translate, rsr=rotate, report=False)
    V.eq('idempotent', m.data, once, tol=1e-6)
    if not translate and not rotate:
        V.eq('unchanged', m.data, old)


@bounded('C19', trials=10)
def interpolation(V):
    """corrections applied while force constants are obtained from dynamical matrices"""
    zero = lambda name, x, tol=1e-7: V.eq(name, abs(np.asarray(x)).max(), 0, tol=tol)
    divide = V.choice('divide_mass', [True, False])
    how = V.choice('how', ['simple', 'asr', 'rsr', 'both', 'none'])
    m = gen.phonons(V.rng, nat=V.choice('nat', [1, 2]), divide_mass=divide)
    nq = V.choice('nq', [(2, 2, 1), (3, 1, 2), (1, 1, 1), (2, 3, 1)])
    q = bravais.mesh(*nq, flat=True)
    D = np.array([m.D(*x) for x in q])
    with gen.quiet():
        ph.q2r(m, D_full=D, nq=nq, apply_asr_simple=how == 'simple', apply_asr=how in ('asr', 'both'), apply_rsr=how in ('rsr', 'both'),
               divide_mass=divide)
    w = np.sqrt(np.repeat(m.M, 3)) if divide else np.ones(m.size)
    if how == 'none':
        for x, d in zip(q, D):
            V.eq('samples', m.D(*x), d)
    elif how != 'rsr':
        for y in range(3):
            zero('annihilates translation', m.D().dot(np.tile(np.eye(3)[y], m.nat) * w), tol=1e-7)
    if how == 'simple':
        # only the on-site blocks have changed
        for x, d in zip(q, D):
            d = m.D(*x) - d
            for i in range(m.nat):
                for j in range(m.nat):
                    if i != j:
                        zero('blocks of different atoms', d[3 * i:3 * i + 3, 3 * j:3 * j + 3])
                    else:
                        V.eq('on-site block', d[3 * i:3 * i + 3, 3 * j:3 * j + 3], (m.D(*q[0]) - D[0])[3 * i:3 * i + 3, 3 * j:3 * j + 3])


@bounded('C19', trials=8)
def requested_rules_only(V):
    """force constants which fulfil the requested sum rule stay as they are, even if they violate the other one"""
    m = gen.phonons(V.rng, n=int(V.rng.choice([2, 4])), divide_mass=False)
    C = m.data.reshape((len(m.R), m.nat, 3, m.nat, 3))
    C += C.transpose(0, 1, 4, 3, 2).copy()
    home = int(np.flatnonzero((m.R == 0).all(axis=1))[0])
    for i in range(m.nat):
        C[home, i, :, i, :] -= C[:, i].sum(axis=(0, 2))
    m.data = C.reshape(m.data.shape)
    old = m.data.copy()
    with gen.quiet():
        ph.sum_rule_correction(m, asr=True, rsr=False, report=False)
    V.eq('unchanged', m.data, old, tol=1e-9)


@bounded('C19', trials=12, budget=60)
def rules_on_request(V):
    """the corrections requested along with an interpolation or a file are those of the same correction applied afterwards"""
    rng = V.rng
    translate, rotate = V.choice('asr', [True, False]), V.choice('rsr', [True, False])
    nat = V.choice('nat', [1, 2])
    nq = V.choice('nq', [(2, 2, 1), (3, 1, 2), (2, 1, 1)])
    seed = int(rng.integers(1 << 30))
    m, n = (gen.phonons(np.random.default_rng(seed), nat=nat) for _ in range(2))
    D = np.array([m.D(*x) for x in bravais.mesh(*nq, flat=True)])
    D += D.conj().swapaxes(1, 2)
    with gen.quiet():
        ph.q2r(m, D_full=D, nq=nq, apply_asr=translate, apply_rsr=rotate)
        ph.q2r(n, D_full=D, nq=nq)
        if translate or rotate:
            ph.sum_rule_correction(n, asr=translate, rsr=rotate)
    V.eq('interpolation', m.data, n.data, tol=1e-7)
    phid = rng.normal(size=(nat, nat, *nq, 3, 3))
    crystal = [rng.uniform(1e3, 1e5, size=nat), m.a, rng.uniform(0, 1, size=(nat, 3)).dot(m.a), ['A', 'B'][:nat]]
    with tempfile.TemporaryDirectory() as d, gen.quiet():
        f = os.path.join(d, 'ifc')
        ph.write_flfrc(f, phid, *crystal, None, None, None)
        m = ph.Model(f, apply_asr=translate, apply_rsr=rotate, divide_mass=False)
        n = ph.Model(f, divide_mass=False)
        if translate or rotate:
            ph.sum_rule_correction(n, asr=translate, rsr=rotate)
    V.eq('file', m.data, n.data, tol=1e-7)
