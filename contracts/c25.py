"""C25: superconductivity estimates follow the McMillan and Allen-Dynes formulas."""
import numpy as np
from engine.contract import contract, bounded
from .common import occupations, prod
from . import gen
import elphmod
from elphmod import bravais, diagrams, dos, eliashberg, misc, occupations as occ_


def mcmillan(V, lamda, wlog, mustar):
    return wlog / (V.num(12) / 10 * misc.kB) * V.exp(-V.num(104) / 100 * (1 + lamda) / V.max(V.num(1) / 1000, lamda - mustar * (1 + V.num(62) / 100 * lamda)))


@contract('C25', cases=[dict(correct=c, w2nd=w) for c, w in ((False, False), (False, True), (True, False), (True, True))], trials=30)
def critical_temperature(V, correct, w2nd):
    lamda = V.real('lamda', pos=True, lo=0.01, hi=4) if not V.symbolic else V.real('lamda', pos=True)
    wlog = V.real('wlog', pos=True, lo=1e-3, hi=0.1) if not V.symbolic else V.real('wlog', pos=True)
    mustar = V.real('mustar', nonneg=True, lo=0, hi=0.3) if not V.symbolic else V.real('mustar', nonneg=True)
    w2 = (V.real('w2nd', pos=True, lo=1e-3, hi=0.1) if not V.symbolic else V.real('w2nd', pos=True)) if w2nd else None
    T = V.call(eliashberg.Tc, lamda, wlog, mustar, w2, correct)
    R = mcmillan(V, lamda, wlog, mustar)
    if correct:
        L1 = V.num(246) / 100 * (1 + V.num(38) / 10 * mustar)
        x = 1 + (lamda / L1) * V.sqrt(lamda / L1)
        R = R * V.np(np.cbrt, x)
        if w2nd:
            L2 = V.num(182) / 100 * (1 + V.num(63) / 10 * mustar) * w2 / wlog
            R = R * (1 + (w2 / wlog - 1) * lamda * lamda / (lamda * lamda + L2 * L2))
    V.eq('Tc', T, R)
    # the remaining defaults
    if not correct and not w2nd:
        V.eq('default', V.call(eliashberg.Tc, lamda, wlog), mcmillan(V, lamda, wlog, V.num(1) / 10))


# irreducible q points of the hexagonal mesh (60 degrees) and the sizes of their stars, by hand
STARS = {1: [((0, 0), 1)], 2: [((0, 0), 1), ((0, 1), 3)], 3: [((0, 0), 1), ((0, 1), 6), ((1, 1), 2)]}


@contract('C25', cases=[dict(nq=n, correct=c) for n, c in ((1, True), (2, False), (3, True))], trials=8, budget=200)
def averages(V, nq, correct):
    """symbolic energies, couplings, frequencies; any k mesh that is a multiple of the q mesh"""
    M = V.dim('M', small=(1, 3))
    nk = nq * M
    nel, nph = V.dim('nel', small=(1, 2)), V.dim('nph', small=(1, 3))
    kT = V.real('kT', pos=True, values=[0.1, 0.3])
    eps = V.real('eps', pos=True, values=[1e-10, 1e-2])
    occ = occupations(V, options=('fermi_dirac', 'gauss', 'lorentz'))
    stars = STARS[nq]
    nQ = len(stars)
    e = V.array('e', [nk, nk, nel])
    w2 = V.array('w2', [nQ, nph], values=None if V.symbolic else [-0.1, 0.0, 5e-3, 0.3, 1.0, 2.0])
    g2 = V.array('g2', [nQ, nph, nk, nk, nel, nel], pos=True)
    r = V.call(eliashberg.McMillan, nq, e, w2, g2, eps=eps, kT=kT, f=occ, correct=correct)

    d = lambda k1, k2, n: V.call(occ.delta, e[k1, k2, n] / kT) / kT
    N0 = V.sum([nk, nk, nel], d) / (nk * nk)

    def pairs(i, v=None):
        (q1, q2), w = stars[i]
        return w * V.sum([nk, nk, nel, nel], lambda k1, k2, m, n: (1 if v is None else g2[i, v, k1, k2, m, n])
                         * d((k1 + q1 * M) % nk, (k2 + q2 * M) % nk, m) * d(k1, k2, n))
    dd = sum((pairs(i) for i in range(1, nQ)), pairs(0))
    safe = lambda i, v: V.not_(w2[i, v] < eps)
    V_ = lambda i, v: V.ite(safe(i, v), lambda: pairs(i, v) / w2[i, v], 0)
    total = lambda f: sum((V.sum(nph, lambda v: f(i, v)) for i in range(1, nQ)), V.sum(nph, lambda v: f(0, v)))
    S = total(V_)
    if not V.symbolic:
        V.require(abs(dd) > 1e-12 and abs(S) > 1e-12)
    V.eq('lambda', r[0], N0 * S / dd)
    V.eq('wlog', r[1], V.exp(total(lambda i, v: V.ite(safe(i, v), lambda: V_(i, v) * V.log(w2[i, v]) / 2, 0)) / S))
    if correct:
        w2nd = V.sqrt(total(lambda i, v: V.ite(safe(i, v), lambda: pairs(i, v), 0)) / S)
        V.eq('w2nd', r[3], w2nd)
        V.eq('Tc', r[2], V.call(eliashberg.Tc, r[0], r[1], 0.0, r[3], correct=True))
    else:
        V.eq('Tc', r[2], V.call(eliashberg.Tc, r[0], r[1], 0.0))


def star(k1, k2, n):
    """rotations by 60 degrees and mirror images, basis vectors at 60 degrees"""
    S = set()
    for m in (0, 1):
        a, b = (k2, k1) if m else (k1, k2)
        for _ in range(6):
            a, b = -b, a + b
            S.add((a % n, b % n))
    return S


@bounded('C25', trials=16)
def full_mesh(V):
    """irreducible q points weighted by their stars equal the average over all q points (symmetric data)"""
    rng = V.rng
    nq = V.choice('nq', [1, 2, 3, 4, 5, 6])
    nk = nq * V.choice('M', [1, 2, 3] if nq < 5 else [1])
    nel, nph = V.choice('nel', [1, 2]), V.choice('nph', [1, 3])
    kT = V.choice('kT', [0.2, 0.5])
    eps = V.choice('eps', [1e-10, 0.05])
    mustar = V.choice('mustar', [0.0, 0.12])
    f = V.choice('f', ['fd', 'gauss', 'lorentz'])
    t = rng.normal(size=(nel, 3))
    k = bravais.mesh(nk, nk)
    e = np.zeros((nk, nk, nel))
    shells = [[(1, 0), (0, 1), (1, -1)], [(1, 1), (2, -1), (-1, 2)], [(2, 0), (0, 2), (2, -2)]]
    # invariance in the basis of star(): k1 b1 + k2 b2 with b at 60 degrees
    for i, j in np.ndindex(nk, nk):
        for n in range(nel):
            e[i, j, n] = rng.normal() * 0 + t[n, 0] + sum(t[n, 1 + s] * sum(np.cos(2 * np.pi * (x * i + y * j) / nk) for x, y in [(1, 0), (0, 1), (1, -1)]) if s == 0 else t[n, 2] * sum(np.cos(2 * np.pi * (x * i + y * j) / nk) for x, y in [(1, 1), (2, -1), (1, -2)]) for s in range(2))
    done, irr, stars = set(), [], []
    for q in sorted((a, b) for a in range(nq) for b in range(nq)):
        if q not in done:
            S = star(*q, nq)
            done |= S
            irr.append(q)
            stars.append(sorted(S))
    for i, j in np.ndindex(nk, nk):
        for a, b in star(i, j, nk):
            V.require(np.allclose(e[i, j], e[a, b]))
    w2 = rng.uniform(-0.1, 1, size=(len(irr), nph))
    c = rng.uniform(0.1, 1, size=(len(irr), nph))
    g2 = np.broadcast_to(c[:, :, None, None, None, None], (len(irr), nph, nk, nk, nel, nel)).copy()
    keep = [x.copy() for x in (e, w2, g2)]
    lamda, wlog, T, w2nd = eliashberg.McMillan(nq, e, w2, g2, eps=eps, mustar=mustar, kT=kT, f=f, correct=True)
    for x, y, n in zip((e, w2, g2), keep, ('e', 'w2', 'g2')):
        V.eq('kept ' + n, x, y)
    delta = occ_.smearing(f).delta
    d = delta(e / kT) / kT
    N0 = d.sum() / nk ** 2
    num = {p: 0.0 for p in ('V', 'log', 'w2')}
    deno = 0.0
    for i, S in enumerate(stars):
        for q1, q2 in S:
            D = np.roll(d, (-q1 * nk // nq, -q2 * nk // nq), axis=(0, 1))
            dd = np.einsum('ijm,ijn->', D, d)
            deno += dd
            for v in range(nph):
                if w2[i, v] < eps:
                    continue
                x = c[i, v] * dd / w2[i, v]
                num['V'] += x
                num['log'] += x * np.log(w2[i, v]) / 2
                num['w2'] += x * w2[i, v]
    V.require(num['V'] > 1e-8 and deno > 1e-8)
    V.eq('lambda', lamda, N0 * num['V'] / deno)
    V.eq('wlog', wlog, np.exp(num['log'] / num['V']))
    V.eq('w2nd', w2nd, np.sqrt(num['w2'] / num['V']))
    V.eq('Tc', T, eliashberg.Tc(lamda, wlog, mustar, w2nd, correct=True))


@bounded('C25', trials=6)
def tetrahedra(V):
    """2D tetrahedron method: sums over the Fermi-surface intersections; couplings [.., m (k + q), n (k)]"""
    rng = V.rng
    nq, M = V.choice('nq', [1, 2, 3]), V.choice('M', [2, 3])
    nk = nq * M
    nel, nph = V.choice('nel', [1, 2]), V.choice('nph', [1, 2])
    irr, weight = zip(*STARS[nq])
    e = rng.normal(size=(nk, nk, nel))
    w2 = rng.uniform(-0.1, 1, size=(len(irr), nph))
    g2 = rng.uniform(0.1, 1, size=(len(irr), nph, nk, nk, nel, nel))
    eps = V.choice('eps', [1e-10, 0.1])
    keep = [x.copy() for x in (e, w2, g2)]
    lamda, wlog, T = eliashberg.McMillan(nq, e, w2, g2, eps=eps, tetra=True)
    for x, y, n in zip((e, w2, g2), keep, ('e', 'w2', 'g2')):
        V.eq('kept ' + n, x, y)
    num = np.zeros((len(irr), nph))
    deno = 0.0
    for i, (q1, q2) in enumerate(irr):
        for m in range(nel):
            for n in range(nel):
                shifted = np.roll(e[:, :, m], (-q1 * M, -q2 * M), axis=(0, 1))
                for (k1, k2), w in dos.double_delta(e[:, :, n], shifted)(0).items():
                    deno += w * weight[i]
                    for v in range(nph):
                        num[i, v] += w * weight[i] * bravais.linear_interpolation(g2[i, v, :, :, m, n])(k1, k2)
    N0 = sum(dos.hexDOS(e[:, :, n])(0) for n in range(nel))
    x = np.where(w2 < eps, 0, num / np.where(w2 < eps, 1, w2))
    V.require(deno > 1e-6 and x.sum() > 1e-6)
    V.eq('lambda', lamda, N0 * x.sum() / deno)
    V.eq('wlog', wlog, np.exp((x * np.log(np.where(w2 < eps, 1, w2)) / 2).sum() / x.sum()))
    V.eq('Tc', T, eliashberg.Tc(lamda, wlog, 0.0))
