"""C12: smearing functions are thermodynamically consistent."""
import math
import numpy as np
from engine.contract import contract, bounded
import elphmod
from elphmod import occupations as occ

ALL = ['fermi_dirac', 'gauss', 'marzari_vanderbilt', 'methfessel_paxton', 'double_fermi_dirac', 'two_fermi_dirac', 'lorentz']
SYMMETRIC = ['fermi_dirac', 'gauss', 'methfessel_paxton', 'double_fermi_dirac', 'lorentz', 'heaviside']
XMAX = 600
SMOOTH = [dict(f=f) for f in ALL]
POINTS = [-40.0, -7.5, -3.0, -1.0, -0.5, -0.1, 0.0, 0.1, 0.5, 1.0, 2.25, 3.0, 7.5, 40.0, 300.0, -300.0]


def domain(V, f):
    """interior of the unclipped region"""
    x = V.real('x', values=POINTS)
    V.require(V.and_(x < XMAX, -x < XMAX))
    if f == 'two_fermi_dirac':
        V.require(V.ne(x, 0))
        if not V.symbolic and abs(x) < 1e-2:
            x = 0.5
    return x


@contract('C12', cases=SMOOTH, trials=25)
def delta_is_minus_derivative(V, f):
    g = getattr(occ, f)
    x = domain(V, f)
    V.deriv('-df/dx = delta', lambda y: -V.call(g, y), x, V.call(g.delta, x))


@contract('C12', cases=SMOOTH, trials=25)
def delta_prime_is_derivative(V, f):
    g = getattr(occ, f)
    x = domain(V, f)
    V.deriv('d delta/dx = delta_prime', lambda y: V.call(g.delta, y), x, V.call(g.delta_prime, x))


@contract('C12', cases=[dict(f=f) for f in ALL if f != 'lorentz'], trials=25)
def entropy_derivative(V, f):
    g = getattr(occ, f)
    x = domain(V, f)
    V.deriv('dS/dx = x df/dx', lambda y: V.call(g.entropy, y), x, -x * V.call(g.delta, x))


@contract('C12', cases=[dict(f=f) for f in SYMMETRIC], trials=25)
def particle_hole_symmetry(V, f):
    g = getattr(occ, f)
    x = domain(V, f)
    V.eq('f(x) + f(-x) = 1', V.call(g, x) + V.call(g, -x), 1)
    if f != 'heaviside':
        V.eq('delta is even', V.call(g.delta, x), V.call(g.delta, -x))
        V.eq('delta_prime is odd', V.call(g.delta_prime, x), -V.call(g.delta_prime, -x))


@contract('C12', cases=[dict(order=n, part=p) for n in (1, 2, 3, 4) for p in (0, 1)], trials=10)
def methfessel_paxton_orders(V, order, part):
    x = domain(V, 'methfessel_paxton')
    old = occ.methfessel_paxton.order
    try:
        occ.methfessel_paxton.order = order
        g = occ.methfessel_paxton
        if part == 0:
            V.deriv('-df/dx = delta', lambda y: -V.call(g, y), x, V.call(g.delta, x))
        else:
            V.deriv('d delta/dx = delta_prime', lambda y: V.call(g.delta, y), x, V.call(g.delta_prime, x))
    finally:
        occ.methfessel_paxton.order = old


@contract('C12', cases=[dict(f=f, part=p) for f in ('double_fermi_dirac', 'two_fermi_dirac') for p in (0, 1, 2)], trials=25)
def two_level_parameter(V, f, part):
    """any level distance d"""
    g = getattr(occ, f)
    x = domain(V, f)
    d = V.real('d', values=[0.0, 0.3, 1.0, 5.0, 8.0])
    V.require(V.and_(d < 50, 0 <= d))
    old = g.d
    try:
        g.d = d
        if part == 0:
            V.deriv('-df/dx = delta', lambda y: -V.call(g, y), x, V.call(g.delta, x))
        elif part == 1:
            V.deriv('d delta/dx = delta_prime', lambda y: V.call(g.delta, y), x, V.call(g.delta_prime, x))
        else:
            V.deriv('dS/dx = x df/dx', lambda y: V.call(g.entropy, y), x, -x * V.call(g.delta, x))
    finally:
        g.d = old


@contract('C12', trials=25)
def matsubara(V):
    """any number of frequencies; the sum converges to the Fermi function"""
    g = occ.fermi_dirac_matsubara
    x = domain(V, 'fermi_dirac')
    n = V.dim('nmats', small=(1, 40))
    V.deriv('-df/dx = delta', lambda y: -V.call(g, y, nmats=n), x, V.call(g.delta, x, nmats=n))
    V.deriv('d delta/dx = delta_prime', lambda y: V.call(g.delta, y, nmats=n), x, V.call(g.delta_prime, x, nmats=n))


@contract('C12', trials=25)
def heaviside_step(V):
    x = V.array('x', [V.dim('n')], values=[-2.0, -1.0, 0.0, 1.0, 3.5])
    f, d, p = V.call(occ.heaviside, x), V.call(occ.heaviside.delta, x), V.call(occ.heaviside.delta_prime, x)
    s = V.call(occ.heaviside.entropy, x)
    n = V.shape(x)[0]
    V.forall('step', [n], lambda i: (f[i], V.ite(x[i] < 0, 1, V.ite(x[i] > 0, 0, V.num(1) / 2))))
    V.forall('delta vanishes off zero', [n], lambda i: V.implies(V.ne(x[i], 0), V.and_(V.eqv(d[i], 0), V.eqv(p[i], 0))))
    V.forall('no entropy', [n], lambda i: (s[i], 0))


@contract('C12', cases=[dict(f=f) for f in ALL + ['heaviside']], trials=25)
def arrays_elementwise(V, f):
    """arrays of any length: applied element by element, argument untouched"""
    g = getattr(occ, f)
    n = V.dim('n')
    x = V.array('x', [n], values=POINTS)
    y = V.call(g, x)
    d = V.call(g.delta, x)
    V.forall('f elementwise', [n], lambda i: (y[i], V.call(g, x[i])))
    if f != 'heaviside':
        V.forall('delta elementwise', [n], lambda i: (d[i], V.call(g.delta, x[i])))
        p = V.call(g.delta_prime, x)
        V.forall('delta_prime elementwise', [n], lambda i: (p[i], V.call(g.delta_prime, x[i])))
    if hasattr(g, 'entropy'):
        s = V.call(g.entropy, x)
        if f != 'heaviside':
            V.forall('entropy elementwise', [n], lambda i: (s[i], V.call(g.entropy, x[i])))


NAMES = {
    'gaussian': 'gauss', 'gauss': 'gauss', 'methfessel-paxton': 'methfessel_paxton', 'm-p': 'methfessel_paxton',
    'mp': 'methfessel_paxton', 'marzari-vanderbilt': 'marzari_vanderbilt', 'cold': 'marzari_vanderbilt',
    'm-v': 'marzari_vanderbilt', 'mv': 'marzari_vanderbilt', 'fermi-dirac': 'fermi_dirac', 'f-d': 'fermi_dirac',
    'fd': 'fermi_dirac', 'lorentzian': 'lorentz', 'lorentz': 'lorentz', 'heaviside': 'heaviside',
}


@contract('C12', trials=3)
def names(V):
    """finite domain, checked exhaustively"""
    for s, g in NAMES.items():
        for t in (s, s.upper(), s.title()):
            V.holds('smearing(%r)' % t, V.call(occ.smearing, t) is getattr(occ, g))
    for f in ALL:
        V.holds('functions are returned as they are', V.call(occ.smearing, getattr(occ, f)) is getattr(occ, f))
    V.holds('default', V.call(occ.smearing) is occ.gauss)


@bounded('C12', cases=[dict(f=f) for f in ALL + ['heaviside']], trials=6)
def limits(V, f):
    """tails, overflow and limits (floating point, hence bounded)"""
    g = getattr(occ, f)
    tol = 2e-3 if f == 'lorentz' else 1e-9
    for x in [1e3, 1e4, 1e6, 1e10, 1e300, float(V.rng.uniform(800, 1e5))]:
        if f == 'lorentz' and x < 1e4:
            continue
        with np.errstate(over='raise', invalid='raise'):
            for h in [lambda z: z, lambda z: np.array([z, 1.0])]:
                try:
                    a, b = np.ravel(g(h(x)))[0], np.ravel(g(h(-x)))[0]
                except FloatingPointError as e:
                    if f not in ('gauss', 'marzari_vanderbilt', 'methfessel_paxton') or x < 1e100:
                        V.fail('no overflow', '%s at %s' % (e, x))
                    continue
                V.holds('f(inf) = 0', abs(a) < tol, (x, a))
                V.holds('f(-inf) = 1', abs(b - 1) < tol, (x, b))
        if x > 1e100 or f == 'heaviside':
            continue
        with np.errstate(over='raise', invalid='raise'):
            for name in ('delta', 'delta_prime', 'entropy'):
                if hasattr(g, name):
                    for z in (x, -x):
                        try:
                            v = getattr(g, name)(z)
                        except FloatingPointError as e:
                            V.fail('no overflow in ' + name, '%s at %s' % (e, z))
                        V.holds(name + ' finite at large arguments', np.isfinite(v), (z, v))
                        V.holds(name + ' vanishes', abs(v) < (1e-6 if f == 'lorentz' else 1e-100) or f == 'two_fermi_dirac' or name != 'delta', (z, v))
    x = np.array([0.3, -2.0, 800.0, -900.0, 0.0])
    V.freeze('x', x)
    for h in [g] + [getattr(g, n) for n in ('delta', 'delta_prime', 'entropy') if hasattr(g, n)]:
        V.call(h, x)
    if f == 'fermi_dirac':
        z = np.array([0.3 + 1j, 800 + 2j])
        V.freeze('z', z)
        V.call(g, z)


@bounded('C12', cases=[dict(f=f) for f in ALL], trials=3)
def normalised(V, f):
    """integral of delta and entropy at zero"""
    g = getattr(occ, f)
    L = 60.0
    x = np.linspace(-L, L, 240001)
    if f == 'two_fermi_dirac':
        # the occupation jumps at zero by 1 - 2 f(d): documented two-level variant
        V.holds('integral of delta', abs(np.trapezoid(g.delta(x), x) - 2 + 2 * occ.fermi_dirac(g.d)) < 2e-3)
        return
    V.holds('integral of delta', abs(np.trapezoid(g.delta(x), x) - (g(-L) - g(L))) < 1e-6)
    V.holds('delta_prime integrates to zero', abs(np.trapezoid(g.delta_prime(x), x) - (g.delta(L) - g.delta(-L))) < 1e-4 or f == 'two_fermi_dirac')


@bounded('C12', trials=10)
def matsubara_converges(V):
    x = V.real('x', values=[-3.0, -1.0, 0.0, 0.5, 2.0])
    V.holds('converges to the Fermi function', abs(occ.fermi_dirac_matsubara(x, nmats=20000) - occ.fermi_dirac(x)) < 1e-4)
    V.holds('converges to the Fermi function (delta)', abs(occ.fermi_dirac_matsubara.delta(x, nmats=20000) - occ.fermi_dirac.delta(x)) < 1e-4)


@bounded('C12', trials=10)
def heaviside_jump(V):
    """the derivative of the jump is infinite at zero and vanishes elsewhere,
    with the sign of the second derivative given by the side of zero"""
    rng = V.rng
    shape = tuple(int(n) for n in rng.integers(1, 4, size=rng.integers(1, 4)))
    x = np.where(rng.random(shape) < 0.5, rng.choice([0.0, -0.0], size=shape), rng.normal(size=shape))
    keep = x.copy()
    delta = V.call(occ.heaviside.delta, x)
    prime = V.call(occ.heaviside.delta_prime, x)
    step = V.call(occ.heaviside, x)
    V.holds('argument unchanged', np.array_equal(x, keep) and np.array_equal(np.signbit(x), np.signbit(keep)), x)
    V.holds('shapes', delta.shape == prime.shape == step.shape == shape, (delta.shape, prime.shape, step.shape))
    for i in np.ndindex(shape):
        if x[i] == 0:
            V.holds('delta(0) = inf', np.isposinf(delta[i]), delta[i])
            V.holds('delta_prime(+-0) = -+inf', prime[i] == (np.inf if np.signbit(x[i]) else -np.inf), (x[i], prime[i]))
            V.holds('f(0) = 1/2', step[i] == 0.5, step[i])
        else:
            V.holds('delta and delta_prime vanish elsewhere', delta[i] == 0 and prime[i] == 0, (x[i], delta[i], prime[i]))
            V.holds('f is 0 or 1 elsewhere', step[i] == (x[i] < 0), (x[i], step[i]))
