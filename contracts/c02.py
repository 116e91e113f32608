"""C02: every process gets the complete, ordered result of the serial calculation, however the work is distributed.

The postconditions that the serial results are proved to fulfil (C10, C14-C18, C23) are proved here for any process
of a communicator of any size (engine/mpi.py)."""
import os
import shutil
import signal
import subprocess
import tempfile
import time
import numpy as np
import elphmod
from engine.contract import contract, bounded
from elphmod import bravais, diagrams, dispersion, dos, elph, misc
from contracts import c01, c10, c14, c15, c16, c17, c18, c23


def parallel(fn, cases=None, trials=3, **extra):
    contract('C02', cases=cases, trials=trials, parallel=True, **extra)(fn)


class Matrix:
    """any function of k that returns arrays of a fixed shape"""
    engine_ok = True

    def __init__(self, V, shape):
        self.V, self.shape = V, shape
        self.f = V.uf('f', conc=lambda *x: np.exp(1j * (1 + np.dot(x, range(1, len(x) + 1)))), sort='c')

    def __call__(self, *k):
        k = list(map(self.V.num, k)) + [self.V.num(0)] * (3 - len(k))
        return self.V.build(list(self.shape), lambda *i: self.f(*k, *i), 'c')


@contract('C02', cases=[dict(mesh=m, ndim=n, dim=d) for m, n, d in [(1, 2, 3), (1, 0, 1), (2, 1, 2), (3, 2, 3)]], trials=10, parallel=True)
def sample(V, mesh, ndim, dim):
    nk = [V.dim('nk%d' % x, small=(1, 4)) for x in range(mesh)]
    shape = [V.dim('n%d' % x, small=(1, 3)) for x in range(ndim)]
    k = V.array('k', [*nk, dim])
    f = Matrix(V, shape)
    r = V.call(dispersion.sample, f, k)
    V.forall('values', [*nk, *shape], lambda *i: (r[i], f.f(*[k[(*i[:mesh], x)] if x < dim else 0 for x in range(3)], *i[mesh:])))


parallel(c14.static_squared_couplings, [dict(dim=2)])
parallel(c14.green_function_bubble)
parallel(c14.dynamic, [dict(dim=2, array=True, fl=True)])
parallel(c16.fan_migdal, [dict(dim=2)])
parallel(c16.double_fermi_surface_average, [dict(dim=2, coupling=True), dict(dim=2, coupling=False)])
parallel(c15.coupling_times_bubble, [dict(dim=2, dd=True), dict(dim=2, dd=False)])
parallel(c15.renormalized_in_band_basis, [dict(dim=2, dd=True, sub=False)])
parallel(c10.coupling_bloch_sum)
parallel(c16.dc_conductivity, [dict(dim=2)])
parallel(c10.coupling_history, [dict(same=s) for s in ('nothing', 'q', 'one component')])
parallel(c17.resize, c17.RESIZE)
parallel(c18.density_of_states, [dict(which=n) for n in range(4)])
parallel(c18.weighted, [dict(which=n) for n in range(4)])
parallel(c23.eigenvalues, [dict(mesh=1, dim=2, vectors=True, n=3), dict(mesh=2, dim=2, vectors=False, n=None), dict(mesh=1, dim=3, vectors=True, n=2)])
parallel(c23.gauge, [dict(n=2)])
parallel(c23.full_mesh, [dict(vectors=True), dict(vectors=False)])
parallel(c23.unfolding, [dict(sgn=-1)])
parallel(c15.renormalized_in_orbital_basis, [dict(dim=2, dd=False)])
parallel(c14.static_pair_couplings, [dict(dim=2, G=True, symmetrize=False, diagonal=False)])
contract('C02', trials=10, parallel='inline')(c01.distribute_bounds)
contract('C02', trials=10, parallel='inline')(c01.distribute_sizes)


PYTHON = '/opt/venv/bin/python'
SCRIPT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'on_processes.py')


def launch(n, seed, out, trials, stuck=90, limit=300):
    """run on n processes; exit code, 'stuck' if no process makes progress for a long time, None after the time limit"""
    cmd = ([] if n == 1 else ['mpirun', '--allow-run-as-root', '--oversubscribe', '--mca', 'mpi_yield_when_idle', '1', '-n', str(n)])
    cmd += [PYTHON, '-W', 'ignore', SCRIPT, str(seed), out, str(trials)]
    p = subprocess.Popen(cmd, cwd=os.path.dirname(out), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    start = time.time()
    while True:
        try:
            return p.wait(1)
        except subprocess.TimeoutExpired:
            marks = [os.path.getmtime(f) for f in ('%s.%d.progress' % (out, r) for r in range(n)) if os.path.exists(f)]
            now = time.time()
            if now - max(marks + [start]) < stuck and now - start < limit:
                continue
            for sig in signal.SIGTERM, signal.SIGKILL:
                os.killpg(p.pid, sig)
                try:
                    p.wait(10)
                    break
                except subprocess.TimeoutExpired:
                    pass
            return 'stuck' if len(marks) == n and now - max(marks) >= stuck else None


def errors(out, n):
    return ' '.join(open('%s.%d.error' % (out, r)).read()[-600:] for r in range(n) if os.path.exists('%s.%d.error' % (out, r)))


@bounded('C02', cases=[dict(processes=n) for n in (2, 3, 5)], trials=1, budget=600)
def real_processes(V, processes):
    """the distributed routines executed with MPI return on every process what a single process returns"""
    V.require(os.path.exists(PYTHON) and shutil.which('mpirun'))
    seed, trials = int(V.rng.integers(10**6)), 12 if processes < 5 else 4
    scratch = tempfile.mkdtemp()
    try:
        one, many = os.path.join(scratch, 'one'), os.path.join(scratch, 'many')
        code = launch(1, seed, one, trials)
        V.require(code is not None)
        V.holds('serial run', code == 0, errors(one, 1))
        code = launch(processes, seed, many, trials)
        V.require(code is not None)
        V.holds('no deadlock', code != 'stuck')
        msg = errors(many, processes)
        if code and not msg:
            V.require(False)        # (processes could not be started)
        V.holds('parallel run', code == 0, msg)
        ref = np.load(one + '.0.npz')
        for r in range(processes):
            res = np.load('%s.%d.npz' % (many, r))
            V.holds('same results', sorted(res) == sorted(ref))
            for x in ref:
                if res[x].size == 0 and r:
                    continue        # (result only requested on the first process)
                V.eq('%s on process %d' % (x.split()[0], r), res[x], ref[x], tol=1e-7)
    finally:
        shutil.rmtree(scratch)
