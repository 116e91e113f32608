"""C21: files written by the package are read back unchanged, up to the printed digits."""
import contextlib
import os
import tempfile
import numpy as np
from engine.contract import bounded
from contracts import gen
from elphmod import bravais, el, elel, elph, md, misc, occupations, ph

LABELS = ['C', 'H', 'Ta', 'S', 'Nb', 'He', 'Fe1', 'Fe2', 'H_a', 'X']


@contextlib.contextmanager
def scratch():
    """write files to a new directory, which is removed afterwards"""
    with tempfile.TemporaryDirectory() as d, gen.quiet():
        yield lambda *names: os.path.join(d, *names)


def close(V, name, got, want, digit):
    """equal up to the last printed digit"""
    got, want = np.asarray(got), np.asarray(want)
    V.holds(name + ' (shape)', got.shape == want.shape, lambda: '%s instead of %s' % (got.shape, want.shape))
    V.holds(name, bool(np.all(abs(got.real - want.real) <= digit) and np.all(abs(got.imag - want.imag) <= digit)), lambda: '%s instead of %s' % (got, want))


def numbers(rng, shape, top=999.0, kind=complex):
    """signs and magnitudes that fit the columns"""
    def part():
        x = rng.normal(size=shape) * 10.0 ** rng.uniform(-8, np.log10(top) - 0.7, size=shape)
        x = np.clip(x, -top, top)
        return np.where(rng.random(shape) < 0.2, rng.choice([0.0, top, -top, 1.0, -0.5], size=shape), x)
    return part() + 1j * part() if kind is complex else part()


def vectors(rng, n, low=-999, high=9999):
    """unsorted, distinct lattice vectors"""
    span = int(rng.choice([1, 2, 12, 9999]))
    R = set()
    while len(R) < n:
        R.add(tuple(int(np.clip(x, low, high)) for x in rng.integers(-span, span + 1, size=3)))
    R = np.array(sorted(R))
    return R[rng.permutation(len(R))]


def lookup(V, name, R, data, R0, data0, digit):
    """same matrix for the same vector"""
    V.holds(name + ' (vectors)', sorted(map(tuple, np.array(R).tolist())) == sorted(map(tuple, np.array(R0).tolist())), lambda: '%s instead of %s' % (R, R0))
    table = {tuple(x): d for x, d in zip(np.array(R).tolist(), data)}
    close(V, name, np.array([table[tuple(x)] for x in np.array(R0).tolist()]), data0, digit)


@bounded('C21', trials=40, budget=60)
def hamiltonian(V):
    rng = V.rng
    n, no = int(rng.choice([1, 2, 14, 15, 16, int(rng.integers(3, 27))])), int(rng.choice([1, 2, 3, 11]))
    R, H = vectors(rng, n), numbers(rng, (n, no, no), 999.0)
    ndegen = None if rng.random() < 0.4 else rng.integers(1, 13, size=n)
    dims = int(rng.choice([3, 3, 2, 1]))
    if dims < 3:
        R = np.array([list(r[:dims]) + [0] * (3 - dims) for r in R])
        R, i = np.unique(R, axis=0, return_index=True)
        H, ndegen = H[i], None if ndegen is None else ndegen[i]
    with scratch() as f:
        V.call(el.write_hrdat, f('x'), R[:, :dims], H.copy(), **({} if ndegen is None else dict(ndegen=list(ndegen))))
        lookup(V, 'as written', *V.call(el.read_hrdat, f('x'), divide_ndegen=False), R, H, 0.51e-6)
        w = np.ones(len(R)) if ndegen is None else ndegen
        lookup(V, 'divided', *V.call(el.read_hrdat, f('x')), R, H / w[:, None, None], 0.51e-6)


@bounded('C21', cases=[dict(rydberg=False), dict(rydberg=True)], trials=20, budget=60)
def electronic_model(V, rydberg):
    rng = V.rng
    m = gen.electrons(rng, rydberg=rydberg)
    with scratch() as f:
        V.call(m.to_hrdat, f('x'))
        M = V.call(el.Model, f('x'), rydberg=rydberg)
        V.holds('orbitals', M.size == m.size)
        lookup(V, 'model', M.R, M.data, m.R, m.data, 0.51e-6)
        k = rng.uniform(-7, 7, size=3)
        close(V, 'Bloch sum', V.call(M.H, *k), V.call(m.H, *k), 1e-6 * len(m.R))


@bounded('C21', trials=30, budget=60)
def interaction(V):
    rng = V.rng
    m = gen.coulomb(rng, no=int(rng.choice([1, 2, 3, 4, 11])))
    m.R = vectors(rng, len(m.R))
    m.data = numbers(rng, m.data.shape, 99999.0)
    with scratch() as f:
        V.call(m.to_Wmat, f('x'))
        R, W = V.call(misc.read_dat_mat, f('x'))
        V.holds('vectors', np.array_equal(R, m.R))
        close(V, 'matrices', W, m.data, 1e-10)


@bounded('C21', cases=[dict(binary=False), dict(binary=True)], trials=5, budget=60)
def band_interaction(V, binary):
    rng = V.rng
    nQ, nk = (int(n) for n in rng.integers(1, 4, size=2))
    U = numbers(rng, (nQ, nk, nk, nk, nk), 999.0)
    with scratch() as f:
        V.call(elel.write_band_Coulomb_interaction, f('x'), U, binary=binary)
        for share in False, True:
            close(V, 'interaction', V.call(elel.read_band_Coulomb_interaction, f('x'), nQ, nk, binary=binary, share=share), U, 0 if binary else 0.51e-9)


@bounded('C21', trials=40, budget=60)
def bands(V):
    rng = V.rng
    nk, nb = int(rng.choice([1, 2, int(rng.integers(3, 40))])), int(rng.choice([1, 9, 10, 11, 20, 21, int(rng.integers(1, 35))]))
    k, e = numbers(rng, (nk, 3), 99.0, float), numbers(rng, (nb, nk), 999999.0, float)
    kw = [{}, dict(cols=int(rng.integers(1, 12))), dict(fmt='%12.6f')][rng.integers(3)]
    with scratch() as f:
        V.call(el.write_bands, f('x'), k, e, **kw)
        K, x, E = V.call(el.read_bands, f('x'))
        close(V, 'k points', K, k, 0.51e-6)
        close(V, 'energies', E, e, 0.51e-6 if 'fmt' in kw else 0.51e-3)
        close(V, 'path', x, np.append(0, np.cumsum(np.linalg.norm(np.diff(K, axis=0), axis=1))), 1e-9 * nk)


def crystal(rng):
    """masses, lattice vectors, positions, labels"""
    nat = int(rng.integers(1, 5))
    a = gen.cell(rng) * rng.uniform(1, 20)
    tau = numbers(rng, (nat, 3), 3.0, float).dot(a)
    labels = [str(rng.choice(LABELS)) for _ in range(nat)]
    masses = {x: rng.uniform(900, 200000) for x in LABELS}
    return np.array([masses[x] for x in labels]), a, tau, labels


def dielectric(rng, nat):
    return numbers(rng, (3, 3), 999.0, float), numbers(rng, (nat, 3, 3), 999.0, float)


def same_crystal(V, got, want):
    M, a, tau, labels = got
    V.holds('species', list(labels) == list(want[3]), lambda: '%s instead of %s' % (labels, want[3]))
    close(V, 'masses', M, want[0], 1e-10 * 10)
    close(V, 'lattice vectors', a, want[1], 5e-6)
    close(V, 'positions', tau, want[2], 5e-6)


@bounded('C21', trials=40, budget=60)
def force_constants(V):
    rng = V.rng
    c = crystal(rng)
    nat = len(c[0])
    phid = numbers(rng, (nat, nat, *(int(n) for n in rng.integers(1, 5, size=3)), 3, 3), 1e3, float)
    eps, Z = dielectric(rng, nat) if rng.random() < 0.6 else (None, None)
    alph = float(rng.choice([1.0, 0.25, 2.5])) if eps is not None and rng.random() < 0.5 else None
    with scratch() as f:
        V.call(ph.write_flfrc, f('x'), phid.copy(), *c, alph, eps, Z)
        p, M, a, tau, labels, al, e, z = V.call(ph.read_flfrc, f('x'))
        same_crystal(V, (M, a, tau, labels), c)
        close(V, 'force constants', p / np.maximum(abs(phid), 1e-99), phid / np.maximum(abs(phid), 1e-99), 1e-10)
        V.holds('Ewald parameter', al == alph)
        V.holds('dielectric data', (e is None, z is None) == (eps is None, Z is None))
        if eps is not None:
            close(V, 'dielectric tensor', e, eps, 1e-11)
            close(V, 'Born charges', z, Z, 0.51e-7)


@bounded('C21', trials=40, budget=60)
def dynamical_matrices(V):
    rng = V.rng
    c = crystal(rng)
    nat, nq = len(c[0]), int(rng.integers(1, 4))
    q, D = numbers(rng, (nq, 3), 2.0, float), numbers(rng, (nq, 3 * nat, 3 * nat), 9.0)
    eps, Z = dielectric(rng, nat) if rng.random() < 0.6 else (None, None)
    with scratch() as f:
        V.call(ph.write_flfrc, f('x'), (q.copy(), D.copy()), *c, None, eps, Z)
        (Q, d), M, a, tau, labels, al, e, z = V.call(ph.read_flfrc, f('x'))
        same_crystal(V, (M, a, tau, labels), c)
        close(V, 'q points', Q, q, 1e-6)
        close(V, 'dynamical matrices', d, D, 0.51e-8)
        V.holds('dielectric data', (e is None, z is None) == (eps is None, Z is None))
        if eps is not None:
            close(V, 'dielectric tensor', e, eps, 1e-11)
            close(V, 'Born charges', z, Z, 0.51e-7)


@bounded('C21', trials=30, budget=60)
def phonon_model(V):
    """force-constants file of a model that lives on a finite mesh"""
    rng = V.rng
    lr = bool(rng.integers(2))
    mass = bool(rng.integers(2))
    m = gen.phonons(rng, nat=int(rng.integers(1, 4)), lr=lr, divide_mass=mass)
    nq = tuple(int(n) for n in 2 * rng.integers(0, 3, size=3) + 1)
    b = [int(n) // 2 for n in nq]
    m.R = np.array([(i, j, k) for i in range(-b[0], b[0] + 1) for j in range(-b[1], b[1] + 1) for k in range(-b[2], b[2] + 1)])
    m.data = gen.hermitian_data(m.R, rng.normal(size=(len(m.R), m.size, m.size)))
    if rng.integers(2):
        m.nq = nq
        args = ()
    else:
        args = nq
    with scratch() as f:
        V.call(m.to_flfrc, f('x'), *args)
        M = V.call(ph.Model, f('x'), divide_mass=mass, L=m.L, lr2d=m.lr2d)
        V.holds('atoms', M.nat == m.nat and list(M.atom_order) == list(m.atom_order))
        V.holds('mesh', tuple(M.nq) == nq)
        for q in [2 * np.pi * np.array([rng.integers(n) for n in nq]) / nq for _ in range(3)]:
            V.eq('dynamical matrix', V.call(M.D, *q), V.call(m.D, *q), tol=1e-5 * max(1, abs(V.call(m.D, *q)).max()) if lr else 1e-7)


@bounded('C21', trials=20, budget=60)
def q_points(V):
    rng = V.rng
    n, nq = int(rng.integers(1, 30)), int(rng.choice([1, 2, 12, 144, 999]))
    q = numbers(rng, (n, 2), 9.0, float)
    with scratch() as f:
        V.call(ph.write_q, f('x'), [tuple(x) for x in q] if rng.integers(2) else q, nq)
        mesh, Q = V.call(ph.read_q, f('x'))
        V.holds('mesh', tuple(mesh) == (nq, nq, 1))
        close(V, 'q points', Q, np.hstack([q, np.zeros((n, 1))]), 1e-14)


@bounded('C21', trials=20, budget=60)
def quadrupoles(V):
    rng = V.rng
    Q = numbers(rng, (int(rng.integers(1, 12)), 3, 3, 3), 99.0, float)
    Q = (Q + Q.swapaxes(2, 3)) / 2
    with scratch() as f:
        V.call(ph.write_quadrupole_fmt, f('x'), Q)
        close(V, 'quadrupoles', V.call(ph.read_quadrupole_fmt, f('x')), Q, 0.51e-10)


@bounded('C21', trials=40, budget=60)
def volumetric_data(V):
    rng = V.rng
    n, nat = tuple(int(n) for n in rng.integers(1, 6, size=3)), int(rng.integers(1, 5))
    r0, a, tau = (numbers(rng, s, 99.0, float) for s in (3, (3, 3), (nat, 3)))
    X = [str(rng.choice(LABELS + ['12', '6'])) for _ in range(nat)]
    data = numbers(rng, n, 9e9, float)
    if rng.integers(2):
        data = np.asfortranarray(data)
    with scratch() as f:
        V.call(misc.write_xsf, f('x'), r0, a, X, tau, data)
        for header in True, False:
            R0, A, x, T, d = V.call(misc.read_xsf, f('x'), only_header=header)
            close(V, 'origin', R0, r0, 0.51e-6)
            close(V, 'spanning vectors', A, a, 0.51e-7)
            V.holds('species', list(x) == X)
            close(V, 'positions', T, tau, 0.51e-7)
            if header:
                V.holds('grid', tuple(d) == n)
            else:
                V.holds('shape', d.shape == n, lambda: '%s instead of %s' % (d.shape, n))
                V.holds('data', np.all(abs(d - data) <= 0.51e-5 * abs(data)), lambda: '%s instead of %s' % (d, data))
        V.call(misc.write_xsf, f('h'), r0, a, X, tau, n, only_header=True)
        R0, A, x, T, d = V.call(misc.read_xsf, f('h'), only_header=True)
        close(V, 'origin (header)', R0, r0, 0.51e-6)
        close(V, 'spanning vectors (header)', A, a, 0.51e-7)
        V.holds('grid (header)', tuple(d) == n and list(x) == X)
        close(V, 'positions (header)', T, tau, 0.51e-7)


@bounded('C21', trials=40, budget=60)
def arrays(V):
    rng = V.rng
    shape = tuple(int(n) for n in rng.choice([1, 2, 3, 11], size=int(rng.integers(1, 5))))
    data = numbers(rng, shape, 1e90, [complex, float][rng.integers(2)])
    if rng.integers(2):
        data = data.T
    with scratch() as f:
        V.call(elph.write_data, f('x'), data)
        d = V.call(elph.read_data, f('x'))
        V.holds('type', np.iscomplexobj(d) == np.iscomplexobj(data) and d.shape == data.shape)
        for x, y in (d.real, data.real), (d.imag, data.imag):
            V.holds('values', np.all(abs(x - y) <= 0.51e-9 * abs(y)), lambda: '%s instead of %s' % (x, y))


@bounded('C21', trials=20, budget=60)
def xml_coupling(V):
    rng = V.rng
    nq, nrep, nk, nb = (int(n) for n in rng.integers(1, 4, size=4))
    data = numbers(rng, (nq, nrep, nk, nk, nb, nb), 1e90)
    kw = dict(angle=float(rng.choice([120, 60, 90])), angle0=float(rng.choice([0, 30, -30])))
    with scratch() as f:
        one = nb == 1 and rng.integers(2)
        V.call(elph.write_xml_files, f('x%d.%d.xml'), data[..., 0, 0] if one else data, **kw)
        read = lambda q, rep, bands, **k: V.call(elph.read_xml_files, f('x%d.%d.xml'), q, rep, bands, nb, nk, status=False, old=True, **kw, **k)
        def check(name, d, want):
            V.holds(name + ' (shape)', d.shape == want.shape, lambda: '%s instead of %s' % (d.shape, want.shape))
            V.eq(name, d / np.maximum(abs(want), 1e-99), want / np.maximum(abs(want), 1e-99), tol=1e-14)
        check('all', read(nq, nrep, range(nb), squeeze=False), data)
        q, rep, b = ([int(x) for x in rng.permutation(n)[:rng.integers(1, n + 1)]] for n in (nq, nrep, nb))
        check('selection', read(q, rep, b, squeeze=False), data[np.ix_(q, rep, range(nk), range(nk), b, b)])
        check('one band', read(q, rep, b[0]), data[np.ix_(q, rep, range(nk), range(nk))][..., b[0], b[0]])


@bounded('C21', cases=[dict(mass=m, degen=d) for m in (False, True) for d in (False, True)], trials=15, budget=60)
def coupling_model(V, mass, degen):
    rng = V.rng
    e = gen.electrons(rng)
    p = gen.phonons(rng, nat=int(rng.integers(1, 4)), divide_mass=mass)
    Rk, Rg = gen.lattice_vectors(rng, 4), gen.lattice_vectors(rng, 4)
    full = not degen and rng.integers(2)
    dims, dims2 = (e.size, p.nat) if full else (1, 1)
    m = elph.Model(el=e, ph=p, Rk=Rk, dk=rng.integers(1, 5, size=(dims, dims, len(Rk))), Rg=Rg, dg=rng.integers(1, 5, size=(1, dims, dims2, len(Rg))), divide_mass=mass, divide_ndegen=degen)
    m.data[...] = gen.cnormal(rng, m.data.shape)
    with scratch() as f:
        V.call(m.to_epmatwp, f('x'))
        M = V.call(elph.Model, f('x.epmatwp'), f('x.wigner'), e, p, divide_mass=mass, divide_ndegen=degen)
        V.holds('vectors', np.array_equal(M.Rk, Rk) and np.array_equal(M.Rg, Rg))
        V.eq('coupling', M.data, m.data, tol=1e-14)
        if not degen:
            V.holds('degeneracies', np.array_equal(M.dk, m.dk) and np.array_equal(M.dg, m.dg))


TEXTS = ['graphene', './tmp/', 'a b', 'work/dir/x', 'x = 3', 'smearing', 'a, b', 'T', '12', '! no comment', '']


def text(rng):
    return str(rng.choice(TEXTS))


def real(rng):
    x = float(numbers(rng, (), 999.0, float)) * float(rng.choice([1.0, 1e-12, 1e12]))
    return np.float64(x) if rng.random() < 0.2 else x


def integer(rng):
    n = int(rng.integers(1, 100))
    return np.int64(n) if rng.random() < 0.2 else n


def boolean(rng):
    return bool(rng.integers(2))


def some(rng, **kinds):
    """values for some keys"""
    return {k: f(rng) for k, f in kinds.items() if rng.random() < 0.6}


def same(V, got, want, keys=None):
    for key in want if keys is None else keys:
        V.holds('key ' + key, key in got, lambda: 'missing')
        x, y = got[key], want[key]
        V.holds(key, type(x) is type(y) and x == y if isinstance(y, (bool, str)) else x == y, lambda: '%r instead of %r' % (x, y))


def structure(rng, nat):
    a = numbers(rng, (3, 3), 99.0, float)
    return a, numbers(rng, (nat, 3), 99.0, float), [str(rng.choice(LABELS)) for _ in range(nat)]


@bounded('C21', trials=60, budget=60)
def pw_input(V):
    rng = V.rng
    pw = some(rng, title=text, prefix=text, outdir=text, pseudo_dir=text, tprnfor=boolean, tstress=boolean, nstep=integer, forc_conv_thr=real,
              a=real, b=real, c=real, cosbc=real, cosac=real, cosab=real, ecutwfc=real, ecutrho=real, nbnd=integer, occupations=text, smearing=text,
              degauss=real, nosym=boolean, noinv=boolean, tot_charge=real, assume_isolated=text, nspin=integer, noncolin=boolean, lspinorb=boolean,
              tot_magnetization=real, space_group=integer, uniqueb=boolean, origin_choice=integer, rhombohedral=boolean, electron_maxstep=integer,
              conv_thr=real, diagonalization=text, diago_full_acc=boolean, mixing_beta=real, startingpot=text, startingwfc=text, scf_must_converge=boolean)
    pw['calculation'] = str(rng.choice(['scf', 'nscf', 'relax', 'md', 'vc-relax', 'vc-md']))
    ions, cell = pw['calculation'] not in ('scf', 'nscf'), pw['calculation'].startswith('vc')
    if ions:
        pw.update(some(rng, ion_dynamics=text, upscale=real))
    if cell:
        pw.update(some(rng, cell_dynamics=text, cell_dofree=text, press=real, press_conv_thr=real))
    nat = pw['nat'] = int(rng.integers(1, 6))
    pw['ntyp'] = n = int(rng.integers(1, 4))
    pw['ibrav'] = int(rng.choice([0, 1, 4, -12]))
    if rng.random() < 0.7:
        c = [abs(real(rng)) + 0.1 for _ in range(int(rng.integers(1, 7)))]
        pw['celldm'] = [x if i in (0, len(c) - 1) or rng.random() < 0.5 else None for i, x in enumerate(c)]
    if n > 1 and rng.random() < 0.3:
        pw['starting_magnetization'] = [float(x) for x in numbers(rng, n, 1.0, float)]
    pw['at_species'] = [str(x) for x in rng.permutation(LABELS)[:n]]
    pw['mass'] = [float('%.9g' % rng.uniform(1, 250)) for _ in range(n)]
    pw['pp'] = ['%s.upf' % x for x in pw['at_species']]
    pw['r_cell'], pw['r'], pw['at'] = structure(rng, nat)
    pw['coords'] = str(rng.choice(['alat', 'crystal', 'bohr', 'angstrom', 'crystal_sg']))
    if pw['coords'] == 'crystal_sg':
        pw['r'] = [str(x) for x in rng.choice(['1a', '2c', '6i'], size=nat)]
    pw['cell_units'] = str(rng.choice(['bohr', 'angstrom', 'alat']))
    if rng.random() < 0.3:
        del pw['r_cell'], pw['cell_units']
    if rng.random() < 0.8:
        pw['ktyp'] = str(rng.choice(['gamma', 'automatic', 'crystal', 'tpiba', 'tpiba_b']))
        if pw['ktyp'] == 'automatic':
            pw['k_points'] = [int(x) for x in rng.integers(1, 30, size=3)] + [int(x) for x in rng.integers(0, 2, size=3)]
        elif pw['ktyp'] != 'gamma':
            pw['nks'] = int(rng.integers(1, 6))
            pw['k_points'] = numbers(rng, (pw['nks'], 4), 99.0, float)
            pw['k_points'][:, 3] = rng.choice([1.0, 2.0, 0.25, 1.0 / 9], size=pw['nks'])
    with scratch() as f:
        V.call(bravais.write_pwi, f('x'), pw)
        got = V.call(bravais.read_pwi, f('x'))
        tables = {'r', 'r_cell'} | ({'k_points'} if 'nks' in pw else set()) - ({'r'} if 'sg' in pw['coords'] else set())
        same(V, got, pw, [k for k in pw if k not in tables or k == 'r' and 'sg' in pw['coords']])
        V.holds('nothing else', set(got) == set(pw), lambda: str(set(got) ^ set(pw)))
        for k in tables & set(pw):
            if not (k == 'r' and 'sg' in pw['coords']):
                close(V, k, got[k], pw[k], 0.51e-9)


@bounded('C21', trials=40, budget=60)
def wannier_input(V):
    rng = V.rng
    w = some(rng, num_bands=integer, num_wann=integer, dis_win_min=real, dis_win_max=real, dis_froz_min=real, dis_froz_max=real, write_hr=boolean,
             bands_plot=boolean, wannier_plot=boolean, dis_num_iter=integer, num_iter=integer, search_shells=integer)
    if rng.random() < 0.7:
        w['proj'] = {k: str(rng.choice(['s', 'pz', 'dz2, dxy', 'l=2,mr=1,4'])) for k in LABELS[:int(rng.integers(1, 4))]}
    if rng.random() < 0.7:
        w['kpoint_path'] = ['G %.2f 0 0 M 0.5 0 0' % x for x in rng.random(int(rng.integers(1, 4)))]
    nat = int(rng.integers(1, 6))
    w['unit_cell'], w['atoms'], w['at'] = structure(rng, nat)
    w['atoms_coords'] = str(rng.choice(['frac', 'cart']))
    if rng.random() < 0.7:
        w['mp_grid'] = rng.integers(1, 4, size=3)
        w['kpoints'] = numbers(rng, (int(np.prod(w['mp_grid'])), 4), 99.0, float)
    with scratch() as f:
        V.call(bravais.write_win, f('x'), w)
        got = V.call(bravais.read_win, f('x'))
        tables = {'unit_cell', 'atoms', 'kpoints', 'mp_grid'}
        same(V, got, w, [k for k in w if k not in tables])
        V.holds('nothing else', set(got) == set(w), lambda: str(set(got) ^ set(w)))
        for k in tables & set(w):
            close(V, k, got[k], w[k], 0.51e-9)


INPUTS = dict(
    ph=dict(prefix=text, outdir=text, fildyn=text, fildvscf=text, ldisp=boolean, nq1=integer, nq2=integer, nq3=integer, tr2_ph=real, alpha_mix=real, cdfpt=boolean, subspace=text, cdfpt_bnd=integer, cdfpt_orb=integer),
    q2r=dict(fildyn=text, flfrc=text, zasr=text),
    matdyn=dict(flfrc=text, flfrq=text, fldos=text, fleig=text, flvec=text, asr=text, loto_2d=boolean, q_in_band_form=boolean, q_in_cryst_coord=boolean),
    epw=dict(prefix=text, outdir=text, dvscf_dir=text, wannierize=boolean, elph=boolean, epbwrite=boolean, epwwrite=boolean, epbread=boolean, epwread=boolean, use_ws=boolean,
             nbndsub=integer, bands_skipped=text, dis_win_min=real, dis_win_max=real, dis_froz_min=real, dis_froz_max=real, num_iter=integer, nk1=integer, nk2=integer,
             nk3=integer, nq1=integer, nq2=integer, nq3=integer, nkf1=integer, nkf2=integer, nkf3=integer, nqf1=integer, nqf2=integer, nqf3=integer),
)


@bounded('C21', cases=[dict(program=p) for p in sorted(INPUTS)], trials=25, budget=60)
def namelist_input(V, program):
    rng = V.rng
    data = some(rng, **INPUTS[program])
    if program == 'epw':
        for key in 'proj', 'wdata':
            if rng.random() < 0.6:
                data[key] = [str(x) for x in rng.choice(['random', 'Ta:dz2', 'bands_plot = .true.', 'begin kpoint_path', 'G 0 0 0 M 0.5 0 0', 'guiding_centres=T, x'], size=int(rng.integers(1, 5)))]
    if program == 'matdyn':
        data['nq'] = int(rng.integers(1, 6))
        data['q'] = numbers(rng, (data['nq'], 4), 99.0, float)
    with scratch() as f:
        V.call(getattr(bravais, 'write_' + program), f('x'), data)
        got = V.call(getattr(bravais, 'read_' + program), f('x'))
        same(V, got, data, [k for k in data if k != 'q'])
        V.holds('nothing else', set(got) == set(data), lambda: str(set(got) ^ set(data)))
        if 'q' in data:
            close(V, 'q points', got['q'], data['q'], 0.51e-9)


@bounded('C21', trials=20, budget=60)
def model_input(V):
    """structure of a phonon model as input file"""
    rng = V.rng
    m = gen.phonons(rng, nat=int(rng.integers(1, 5)), a=gen.cell(rng) * rng.uniform(1, 10))
    with scratch() as f:
        V.call(m.to_pwi, f('x'), calculation='scf', ecutwfc=40.0)
        pw = V.call(bravais.read_pwi, f('x'))
        V.holds('atoms', list(pw['at']) == list(m.atom_order) and pw['nat'] == m.nat and pw['ntyp'] == len(set(m.atom_order)))
        V.holds('options', pw['calculation'] == 'scf' and pw['ecutwfc'] == 40.0)
        close(V, 'lattice constant', pw['celldm'][0], np.linalg.norm(m.a[0]), 1e-9)
        close(V, 'cell', pw['r_cell'] * pw['celldm'][0], m.a, 1e-6)
        close(V, 'positions', pw['r'].dot(m.a), m.r, 1e-6)
        table = dict(zip(pw['at_species'], pw['mass']))
        V.eq('masses', [table[x] * misc.uRy for x in m.atom_order], m.M, tol=1e-9)


@bounded('C21', trials=10, budget=60)
def driver_files(V):
    """positions of a simulation"""
    from contracts import c26
    rng = V.rng
    m = c26.system(rng, 1, nat=2)
    d = V.call(md.Driver, m, 0.3, occupations.fermi_dirac, 0.7 * m.el.size, nk=(2,), unscreen=False)
    steps = [c26.direction(rng, m) for _ in range(int(rng.integers(1, 4)))]
    with scratch() as f:
        for i, u in enumerate(steps):
            d.u = u.copy()
            V.call(d.to_xyz, f('x'), append=i > 0)
        d.u = np.zeros_like(u)
        V.call(d.from_xyz, f('x'))
        close(V, 'displacements', d.u, u, 1.1e-9)
        V.call(d.to_pwi, f('p'))
        pw = V.call(bravais.read_pwi, f('p'))
        close(V, 'positions', pw['r'].dot(m.ph.a), m.ph.r + d.u.reshape((-1, 3)), 1e-6)
        V.holds('k points', pw['ktyp'] == 'automatic' and list(pw['k_points']) == [2, 1, 1, 0, 0, 0])
        want = V.call(d.free_energy, d.u.copy(), show=False)
        V.call(d.save, f('s'))
        D = V.call(md.Driver.load, f('s'))
        close(V, 'restored displacements', D.u, d.u, 0)
        V.eq('restored energy', V.call(D.free_energy, d.u.copy(), show=False), want, tol=1e-12)
        V.eq('energy kept', V.call(d.free_energy, d.u.copy(), show=False), want, tol=1e-12)
