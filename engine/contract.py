"""Contracts on the real functions, read in two modes.

A contract is a Python function of one argument V: it introduces the inputs
(V.dim, V.real, V.array, ...), states the precondition (V.require), calls the
real function (V.call) and states the postcondition (V.eq, V.holds, V.forall).

SymV (deductive mode): inputs are symbols, the *source of the function in
/repo* is interpreted symbolically on this run, and every postcondition becomes
an obligation that the prover (normal forms + z3) has to discharge for all
inputs, sizes and iterations, on every path.

ConcV (bounded mode): inputs are drawn at random (small sizes, degenerate
values included), the real function is executed by CPython, and the same
postconditions are evaluated.  Used for (a) the counterexample search and the
replay of failed obligations, (b) the cross-check of the engine against
CPython, and (c) as the labelled bounded stand-in where no proof is in reach.
"""
import collections
import contextlib
import copy
import fractions
import itertools
import math
import signal
import time
import traceback

import numpy as np

from . import arrays as ar
from . import evalt, interp, mpi, norm, npmod
from . import terms as tm
from .arrays import SArr
from .terms import T, Unsupported, Undecided, lift

REG = collections.OrderedDict()


class Contract:
    def __init__(self, prop, name, fn, proof, cases, trials, budget, large, note, extra):
        self.prop, self.name, self.fn = prop, name, fn
        self.proof, self.cases = proof, cases or [{}]
        self.trials, self.budget, self.large = trials, budget, large
        self.note = note
        self.extra = extra

    def id(self, i):
        if len(self.cases) == 1 and not self.cases[0]:
            return self.name
        return self.name + '[' + ','.join('%s=%s' % (k, getattr(v, '__name__', v)) for k, v in self.cases[i].items()) + ']'


def contract(prop, proof=True, cases=None, trials=12, budget=120, large=3, note=None, **extra):
    def deco(fn):
        c = Contract(prop, fn.__name__, fn, proof, cases, trials, budget, large, note, extra)
        REG.setdefault(prop, []).append(c)
        return fn
    return deco


def bounded(prop, cases=None, trials=20, budget=60, large=3, note=None, **extra):
    return contract(prop, False, cases, trials, budget, large, note, **extra)


class Reject(Exception):
    """precondition not met by the generated input"""


class Fail(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail


class UF:
    """uninterpreted function applied elementwise (symbolic mode)"""
    engine_ok = True

    def __init__(self, name, sort='r'):
        self.name, self.sort = name, sort

    def __call__(self, *x):
        if all(ar.scalar(a) for a in x):
            return tm.app(self.name, tuple(lift(a) for a in x), self.sort)
        return ar.elementwise(lambda *t: tm.app(self.name, t, self.sort), *x, sort=self.sort)


class Base:
    pi = None

    def shape(self, a):
        return a.shape


# ---------------------------------------------------------------------------
class SymV(Base):
    symbolic = True

    def __init__(self, contract, case):
        self.contract, self.case = contract, case
        self.obls = []          # of the current path
        self.inputs = {}
        self.assumed = set()
        self.pre = []
        self.covered = False
        self.depth = 0

    def begin(self):
        self.obls = []
        self.inputs = {}

    @property
    def pi(self):
        return tm.PI

    i = tm.I
    inf = tm.INF

    @property
    def processes(self):
        """size of the communicator"""
        return mpi.ACTIVE[0].size if mpi.ACTIVE[0] is not None else lift(1)

    # inputs
    def dim(self, name, lo=1, hi=None, small=None):
        return self.int(name, lo, hi)

    def int(self, name, lo=None, hi=None, small=None, values=None):
        s = tm.sym(name, 'i')
        if lo is not None or hi is not None:
            if lo is not None:
                norm.RANGES[s.key] = (s, lift(lo), None if hi is None else lift(hi) + 1)
            else:
                self.require(tm.le(s, lift(hi)))
        self.inputs[name] = s
        return s

    def real(self, name, pos=False, nonneg=False, nonzero=False, lo=None, hi=None, values=None):
        s = tm.sym(name, 'r')
        if pos:
            self.require(tm.lt(tm.num(0), s))
        if nonneg:
            self.require(tm.le(tm.num(0), s))
        if nonzero:
            self.require(tm.not_(tm.eq(s, tm.num(0))))
        self.inputs[name] = s
        return s

    def complex(self, name):
        s = tm.sym(name, 'c')
        self.inputs[name] = s
        return s

    def bool(self, name):
        s = tm.sym(name, 'b')
        self.inputs[name] = s
        return s

    def array(self, name, shape, sort='r', mutable=False, values=None, pos=False, lo=None, hi=None):
        a = SArr.symbol(name, shape, sort, readonly=not mutable)
        self.inputs[name] = a
        if pos or lo is not None or hi is not None:
            def facts(t):
                out = []
                if pos:
                    out.append(tm.lt(tm.num(0), t))
                if lo is not None:
                    out.append(tm.le(lift(lo), t))
                if hi is not None:
                    out.append(tm.le(t, lift(hi)))
                return out
            norm.APPRANGE.setdefault(name, []).append(lambda t: tm.and_(*facts(t)))
        return a

    def choice(self, name, options):
        raise Unsupported('choice in symbolic mode')

    def uf(self, name, conc=None, sort='r'):
        return UF(name, sort)

    def build(self, shape, fn, sort='r'):
        return SArr.build(shape, lambda s: lift(fn(*s)), sort)

    def freeze(self, name, a):
        a.store.readonly = True
        return a

    def mutable(self, name, a):
        """contiguous copy that may be modified"""
        a = a.copy()
        a.store.tag = name
        return a

    def havoc(self):
        """while loops: any number of iterations"""
        interp.HAVOC_WHILE[0] = True

    def opaque_sort(self):
        """sorted values as uninterpreted functions of the values"""
        npmod.OPAQUE_SORT[0] = True

    def require(self, c):
        if isinstance(c, T):
            c = ar.State.ctx.ccond(tm.cast(c, 'b'))
            if c is tm.FALSE:
                raise interp.PathEnd
            ar.State.ctx = ar.State.ctx.extend(c)
        elif not c:
            raise interp.PathEnd

    def assume(self, c, why):
        self.assumed.add(why)
        self.require(c)

    def stub(self, name, fn, why):
        """callee by its contract"""
        interp.CONTRACTS[name] = fn
        self.assumed.add(why)

    def fact(self, name, fn):
        """known about every application of an uninterpreted function"""
        norm.APPRANGE.setdefault(name, []).append(lambda t: fn(*t.args[1:]))

    def pair_fact(self, name, other, fn):
        norm.PAIRRANGE[name, other] = fn

    def rewrite(self, name, fn):
        norm.APPHOOK[name] = lambda c, idx: fn(*idx)

    def forall_fact(self, dims, fn):
        """precondition quantified over indices"""
        self.require(self.quant(dims, fn))

    def quant(self, dims, fn):
        vs = [norm.index('q', 0, d) for d in dims]
        b = lift(fn(*vs))
        for v, d in list(zip(vs, dims))[::-1]:
            b = tm.forall(v, 0, d, b)
        return b

    # calls
    def call(self, f, /, *args, **kwargs):
        return interp.call(f, args, kwargs)

    def getattr(self, o, name):
        return interp.get_attr(o, name)

    # spec language
    def sum(self, dims, fn):
        if not isinstance(dims, (list, tuple)):
            dims = [dims]
        return dual_sum(list(dims), fn)

    def ite(self, c, a, b):
        c = lift(c)
        k = ar.State.ctx.ccond(c)
        if k is tm.TRUE:
            return lift(a() if callable(a) and not isinstance(a, T) else a)
        if k is tm.FALSE:
            return lift(b() if callable(b) and not isinstance(b, T) else b)

        def branch(x, c):
            if not callable(x) or isinstance(x, T):
                return lift(x)
            old = ar.State.ctx
            ar.State.ctx = old.extend(ar.State.ctx.ccond(c))
            try:
                return lift(x())
            finally:
                ar.State.ctx = old
        return tm.ite(c, branch(a, c), branch(b, tm.not_(c)))

    def np(self, f, *a):
        return interp.call(f, a, {})

    def exp(self, x): return self.np(np.exp, lift(x))
    def cos(self, x): return self.np(np.cos, lift(x))
    def sin(self, x): return self.np(np.sin, lift(x))
    def sqrt(self, x): return tm.sqrt(lift(x))
    def log(self, x): return self.np(np.log, lift(x))
    def erf(self, x): return tm.fn('erf', lift(x))
    def abs(self, x): return tm.absolute(lift(x))
    def conj(self, x): return tm.conj(lift(x))
    def re(self, x): return tm.re(lift(x))
    def im(self, x): return tm.im(lift(x))
    def round(self, x): return tm.roundint(lift(x))
    def floor(self, x): return tm.floorint(lift(x))
    def eqv(self, a, b): return tm.eq(lift(a), lift(b))
    def ne(self, a, b): return tm.not_(tm.eq(lift(a), lift(b)))
    def and_(self, *c): return tm.and_(*map(lift, c))
    def or_(self, *c): return tm.or_(*map(lift, c))
    def not_(self, c): return tm.not_(lift(c))
    def implies(self, a, b): return tm.or_(tm.not_(lift(a)), lift(b))
    def min(self, a, b): return self.ite(lift(a) <= lift(b), a, b)
    def max(self, a, b): return self.ite(lift(a) <= lift(b), b, a)
    def num(self, x): return lift(x)

    def deriv(self, name, f, x, expected, tol=None):
        """d f(x)/dx == expected, x one of the real symbols (interior of every branch)"""
        from .diff import diff
        try:
            fx = lift(unarr(f(x)))
            ex = lift(unarr(expected))
            d = diff(fx, x)
            # kinks of the implementation (abs, sign) are isolated points of a continuous function
            kinks = tm.subterms(fx, lambda t: t.op == 'fn' and t.args[0] in ('abs', 'sign') and x.key in tm.free(t))
            old = ar.State.ctx
            if kinks:
                self.assumed.add('derivative identities are proved off the isolated points where a branch (abs, sign, minimum) of the implementation changes and extend to them by continuity')
                ar.State.ctx = old.extend(*[tm.not_(tm.eq(t.args[1], tm.num(0))) for t in kinks])
        except (Unsupported, Undecided) as e:
            self.obls.append(dict(name=name, ctx=ar.State.ctx, goal=None, status='undecided', time=0.0,
                                  why='%s: %s' % (type(e).__name__, e)))
            return
        self.prove(name, ('eq', d, ex))
        ar.State.ctx = old

    # postconditions
    def prove(self, name, goal):
        """goal: ('eq', l, r) or a boolean term"""
        norm.DEADLINE[0] = self.deadline(name)
        t0 = time.time()
        ctx = ar.State.ctx
        rec = {'name': name, 'ctx': ctx, 'goal': goal}
        try:
            if isinstance(goal, tuple):
                l, r = lift(goal[1]), lift(goal[2])
                ok, res = ctx.equal(l, r)
            elif isinstance(goal, T):
                ok, res = ctx.holds(goal)
            else:
                ok, res = bool(goal), None
                if not ok:
                    rec['definite'] = True
            rec['status'] = 'proved' if ok else 'failed'
            rec['residual'] = res
        except (norm.Budget, Unsupported, Undecided, RecursionError) as e:
            rec['status'] = 'undecided'
            rec['why'] = '%s: %s' % (type(e).__name__, e)
        rec['time'] = time.time() - t0
        self.obls.append(rec)
        norm.DEADLINE[0] = self.total

    def deadline(self, name):
        return min(self.total, time.time() + self.contract.extra.get('per_obligation', 60))

    def holds(self, name, c):
        self.prove(name, c)

    def eq(self, name, l, r, tol=None):
        l, r = unwrap(l), unwrap(r)
        ls, rs = getshape(l), getshape(r)
        if len(ls) != len(rs):
            self.prove(name + '.ndim', False)
            return
        for k, (m, n) in enumerate(zip(ls, rs)):
            if not (isinstance(m, int) and isinstance(n, int) and m == n):
                self.prove('%s.shape[%d]' % (name, k), ('eq', m, n))
        if not ls:
            self.prove(name, ('eq', l, r))
            return
        l, r = ar.asarr(l), ar.asarr(r)
        self.forall(name, ls, lambda *i: (at(l, i), at(r, i)))

    def forall(self, name, dims, fn, tol=None, enum=6):
        dims = [d if isinstance(d, (int, T)) else d for d in dims]
        dims = [int(ar.conc(lift(d))) if ar.conc(lift(d)) is not None else d for d in dims]
        rng = [range(d) if isinstance(d, int) and d <= enum else None for d in dims]
        base = ar.State.ctx
        free = [norm.index('j%d' % k, 0, d) if g is None else None for k, (d, g) in enumerate(zip(dims, rng))]
        for p in itertools.product(*[g if g is not None else [None] for g in rng]):
            idx = [lift(a) if a is not None else f for a, f in zip(p, free)]
            label = name + (str([a for a in p if a is not None]) if any(a is not None for a in p) else '')
            try:
                g = fn(*idx)
            except (norm.Budget, Unsupported, Undecided) as e:
                self.obls.append(dict(name=label, ctx=base, goal=None, status='undecided', time=0.0,
                                      why='%s: %s' % (type(e).__name__, e)))
                continue
            self.prove(label, ('eq',) + tuple(g) if isinstance(g, tuple) else g)

    def index(self, name, lo, hi):
        return norm.index(name, lo, hi)

    def raises(self, name, exc, f, *a, **k):
        try:
            self.call(f, *a, **k)
        except interp.Raised as e:
            self.prove(name, isinstance(e.exc, exc))
            return
        self.prove(name, False)


def unwrap(a):
    if isinstance(a, (list, tuple)):
        return ar.asarr(a)
    return a


def unarr(a):
    if isinstance(a, SArr):
        return a[()]
    return a


def getshape(a):
    if isinstance(a, T) or ar.scalar(a):
        return ()
    return tuple(a.shape)


def at(a, i):
    return a[tuple(i)] if len(i) else a


def dual_sum(dims, fn):
    dims = [tm.lift(d) for d in dims]
    names = []

    def go(k, idx):
        if k == len(dims):
            return lift(fn(*idx))
        c = ar.conc(dims[k])
        if c is not None and c <= 6:
            return tm.add(*[go(k + 1, idx + [tm.num(j)]) for j in range(c)]) if c else tm.num(0)
        v = norm.index('s', 0, dims[k])
        return tm.Sum(v, 0, dims[k], go(k + 1, idx + [v]))
    return go(0, [])


# ---------------------------------------------------------------------------
@contextlib.contextmanager
def terminates(f, limit=40.0):
    """calls with the small arguments of the concrete trials need far less than this processor time"""
    def stop(*a):
        raise Fail('termination', 'call of %s does not terminate' % getattr(f, '__name__', f))
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class ConcV(Base):
    symbolic = False
    pi = math.pi
    i = 1j
    inf = math.inf
    MAXIDX = 300
    processes = 1

    def __init__(self, contract, case, seed, overrides=None, large=3):
        self.contract, self.case, self.seed = contract, case, seed
        self.rng = np.random.default_rng(seed)
        self.overrides = overrides or {}
        self.inputs = collections.OrderedDict()
        self.frozen = []
        self.evaluated = 0
        self.large = large
        self.style = int(self.rng.integers(4))
        self.assumed = set()
        self.fails = []

    def pick(self, name, gen):
        v = gen()
        if name in self.overrides:
            v = self.overrides[name]
        self.inputs[name] = v
        return v

    def dim(self, name, lo=1, hi=None, small=None):
        h = max(lo, self.large)
        if hi is not None and not isinstance(hi, T):
            h = min(h, hi)
        a, b = small or (lo, h)
        return self.pick(name, lambda: int(self.rng.integers(a, b + 1)))

    def int(self, name, lo=None, hi=None, small=None, values=None):
        if values is not None:
            return self.pick(name, lambda: int(values[int(self.rng.integers(len(values)))]))
        a, b = small or (-4 if lo is None else lo, 4 if hi is None else hi)
        if small is None and lo is not None and hi is None:
            b = lo + 6
        if small is None and lo is None and hi is not None:
            a = hi - 6
        return self.pick(name, lambda: int(self.rng.integers(a, b + 1)))

    def _real(self):
        s = self.style
        if s == 0:
            return float(self.rng.choice([-1.0, 0.0, 0.5, 1.0]))
        if s == 1:
            return float(self.rng.integers(-3, 4))
        return float(self.rng.normal())

    def real(self, name, pos=False, nonneg=False, nonzero=False, lo=None, hi=None, values=None):
        def gen():
            if values is not None:
                return float(values[int(self.rng.integers(len(values)))])
            if lo is not None and hi is not None:
                return float(self.rng.uniform(lo, hi))
            x = self._real()
            if pos:
                x = abs(x) + (0.1 if self.style > 1 else 0.5)
            if nonneg:
                x = abs(x)
            if nonzero and x == 0:
                x = 1.0
            if lo is not None:
                x = lo + abs(x)
            if hi is not None:
                x = hi - abs(x)
            return x
        return float(self.pick(name, gen))

    def complex(self, name):
        return self.pick(name, lambda: complex(self._real(), self._real()))

    def bool(self, name):
        return self.pick(name, lambda: bool(self.rng.integers(2)))

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, lambda: int(self.rng.integers(len(options))))]

    def array(self, name, shape, sort='r', mutable=False, values=None, pos=False, lo=None, hi=None):
        def one():
            if values is not None:
                return values[int(self.rng.integers(len(values)))]
            if sort == 'i':
                return int(self.rng.integers(-3 if lo is None else lo, (3 if hi is None else hi) + 1))
            if sort == 'b':
                return bool(self.rng.integers(2))
            if lo is not None and hi is not None:
                return float(self.rng.uniform(lo, hi))
            x = self._real()
            if pos:
                x = abs(x) + 0.25
            if lo is not None:
                x = lo + abs(x)
            if sort == 'c':
                x = complex(x, self._real())
            return x
        dt = {'r': float, 'c': complex, 'i': int, 'b': bool}[sort]
        a = np.empty(tuple(int(n) for n in shape), dtype=dt)
        for p in np.ndindex(*a.shape):
            a[p] = one()
        if name in self.overrides:
            for p, v in self.overrides[name].items():
                if len(p) == a.ndim and all(0 <= x < n for x, n in zip(p, a.shape)):
                    a[p] = v
        self.inputs[name] = a
        if not mutable:
            self.frozen.append((name, a, a.copy()))
        return a

    def freeze(self, name, a):
        self.frozen.append((name, a, copy.deepcopy(a)))
        return a

    def uf(self, name, conc=None, sort='r'):
        return conc

    def build(self, shape, fn, sort='r'):
        a = np.empty(shape, dtype={'r': float, 'c': complex, 'i': int, 'b': bool}[sort])
        for p in np.ndindex(*a.shape):
            a[p] = fn(*p)
        return a

    def mutable(self, name, a):
        return np.array(a, order='C')

    def index(self, name, lo, hi):
        return int(self.rng.integers(lo, hi))

    def opaque_sort(self):
        pass

    def havoc(self):
        pass

    def require(self, c):
        if not c:
            raise Reject

    def assume(self, c, why):
        self.require(c)

    def quant(self, dims, fn):
        return all(fn(*p) for p in itertools.product(*map(range, dims)))

    def forall_fact(self, dims, fn):
        self.require(self.quant(dims, fn))

    def call(self, f, /, *args, **kwargs):
        try:
            with terminates(f):
                r = f(*args, **kwargs)
        except (Reject, Fail):
            raise
        except Exception as e:
            raise Fail('no-exception', 'call of %s raised %s: %s' % (getattr(f, '__name__', f), type(e).__name__, e)) from e
        self.check_frozen()
        return r

    def check_frozen(self):
        for name, a, b in self.frozen:
            if isinstance(a, np.ndarray):
                same = a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
            else:
                same = a == b
            if not same:
                raise Fail('frame', 'argument %s was modified' % name)

    def getattr(self, o, name):
        return getattr(o, name)

    def sum(self, dims, fn):
        if not isinstance(dims, (list, tuple)):
            dims = [dims]
        t = 0
        for p in itertools.product(*[range(int(d)) for d in dims]):
            t = t + fn(*p)
        return t

    def ite(self, c, a, b):
        v = a if c else b
        return v() if callable(v) else v

    def np(self, f, *a):
        return f(*a)

    def exp(self, x):
        with np.errstate(all='ignore'):
            return np.exp(x)

    def cos(self, x): return np.cos(x)
    def sin(self, x): return np.sin(x)
    def sqrt(self, x): return np.sqrt(x)
    def log(self, x): return np.log(x)
    def erf(self, x): return math.erf(x)
    def abs(self, x): return abs(x)
    def conj(self, x): return np.conj(x)
    def re(self, x): return np.real(x)
    def im(self, x): return np.imag(x)
    def round(self, x): return int(np.round(x))
    def floor(self, x): return int(np.floor(x))
    def eqv(self, a, b): return a == b
    def ne(self, a, b): return a != b
    def and_(self, *c): return all(c)
    def or_(self, *c): return any(c)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or b
    def min(self, a, b): return min(a, b)
    def max(self, a, b): return max(a, b)
    def num(self, x): return x

    def close(self, l, r, tol):
        tol = tol or self.contract.extra.get('tol', 1e-8)
        l, r = np.asarray(l), np.asarray(r)
        if l.dtype == object or r.dtype == object:
            return bool(np.all(l == r))
        if l.dtype.kind in 'biuSU' and r.dtype.kind in 'biuSU':
            return bool(np.all(l == r))
        with np.errstate(all='ignore'):
            d = np.abs(l - r)
            s = np.maximum(np.abs(l), np.abs(r))
            ok = (d <= tol * (1 + s)) | (l == r) | (np.isnan(l) & np.isnan(r) & False)
        return bool(np.all(ok))

    def fail(self, name, detail):
        raise Fail(name, detail)

    def holds(self, name, c, detail=''):
        self.evaluated += 1
        if not c:
            self.fail(name, str(detail() if callable(detail) else detail) or 'condition is false')

    def check(self, name, c, detail=''):
        self.holds(name, bool(np.all(c)), detail)

    def eq(self, name, l, r, tol=None):
        self.evaluated += 1
        l, r = np.asarray(l), np.asarray(r)
        if l.shape != r.shape:
            self.fail(name, 'shape %s != %s' % (l.shape, r.shape))
        if not self.close(l, r, tol):
            i = ()
            if l.shape:
                with np.errstate(all='ignore'):
                    try:
                        d = np.abs(l - r)
                        d = np.where(np.isnan(d), np.inf, d)
                        i = np.unravel_index(int(np.argmax(d)), l.shape)
                    except TypeError:
                        i = (0,) * l.ndim
            self.fail(name, 'at %s: got %r, expected %r' % (tuple(map(int, i)), l[i] if l.shape else l.item(), r[i] if r.shape else r.item()))

    def forall(self, name, dims, fn, tol=None, enum=None):
        dims = [int(d) for d in dims]
        n = 1
        for d in dims:
            n *= d
        if n <= self.MAXIDX:
            it = itertools.product(*map(range, dims))
        else:
            it = [tuple(int(self.rng.integers(d)) for d in dims) for _ in range(self.MAXIDX)]
        for p in it:
            g = fn(*p)
            self.evaluated += 1
            if isinstance(g, tuple):
                if not self.close(g[0], g[1], tol):
                    self.fail(name, 'at %s: got %r, expected %r' % (p, g[0], g[1]))
            elif not g:
                self.fail(name, 'false at %s' % (p,))

    def deriv(self, name, f, x, expected, tol=1e-6):
        self.evaluated += 1
        with np.errstate(all='ignore'):
            ests = []
            for h in (1e-3, 3e-4, 1e-4):
                c1 = (f(x + h) - f(x - h)) / (2 * h)
                c2 = (f(x + 2 * h) - f(x - 2 * h)) / (4 * h)
                ests.append((4 * c1 - c2) / 3)
            ex = np.asarray(expected)
            for d in ests:
                if np.all(np.abs(d - ex) <= tol * (1 + np.abs(ex))):
                    return
        self.fail(name, 'derivative at %r: got %r, expected (finite differences) %r' % (x, expected, ests[1]))

    def raises(self, name, exc, f, *a, **k):
        self.evaluated += 1
        try:
            f(*a, **k)
        except exc:
            return
        except Exception as e:
            self.fail(name, 'raised %s instead of %s' % (type(e).__name__, exc))
        self.fail(name, 'did not raise')


def describe(v):
    if isinstance(v, np.ndarray):
        s = np.array2string(v, threshold=60, precision=17, separator=', ')
        return 'array(shape=%s, %s)' % (v.shape, ' '.join(s.split()))
    return repr(v)


# ---------------------------------------------------------------------------
def run_symbolic(c, k, total):
    """discharge all obligations of case k; returns a result dict"""
    t0 = time.time()
    v = SymV(c, c.cases[k])
    v.total = t0 + total
    norm.DEADLINE[0] = v.total
    out = dict(contract=c.id(k), obligations=[], status='ok', why=None)
    interp.INTERPRETED.clear()
    done = []
    state = dict(paths=0, covered=0)

    def thunk():
        norm.RANGES.clear() if False else None
        v.begin()
        ar.BOUNDS.clear()
        try:
            with mpi.parallel(v) if c.extra.get('parallel') else contextlib.nullcontext():
                c.fn(v, **c.cases[k])
        except ar.Mutation as e:
            v.obls.append(dict(name='frame: argument %s is not modified' % e, ctx=ar.State.ctx, goal=None,
                               status='failed', time=0.0, definite=True))
        except interp.Raised as e:
            v.obls.append(dict(name='no-exception (%s: %s)' % (type(e.exc).__name__, e.exc), ctx=ar.State.ctx, goal=None,
                               status='failed', time=0.0, definite=True))
        obls = list(v.obls)
        for what, cond, ctx in ar.BOUNDS:
            t1 = time.time()
            try:
                ok, res = ctx.holds(cond)
                st = 'proved' if ok else 'failed'
            except (norm.Budget, Unsupported, Undecided, RecursionError) as e:
                st = 'undecided'
            obls.append(dict(name=what, ctx=ctx, goal=cond, status=st, time=time.time() - t1, safety=True))
        state['paths'] += 1
        inc = ar.State.ctx.inconsistent()
        if inc:
            return None      # infeasible path: nothing to prove (does not count)
        state['covered'] += 1
        done.extend((state['paths'], o) for o in obls)
        return None

    try:
        interp.HAVOC_WHILE[0] = False; npmod.OPAQUE_SORT[0] = False; interp.paths(thunk, norm.Ctx())
    except (Unsupported, Undecided, norm.Budget, RecursionError) as e:
        out['status'] = 'undecided'
        out['why'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    except Exception as e:
        out['status'] = 'undecided'
        out['why'] = 'engine error %s: %s' % (type(e).__name__, str(e)[:300])
        out['trace'] = traceback.format_exc()[-1500:]
    if out['status'] == 'ok' and not state['covered']:
        out['status'] = 'undecided'
        out['why'] = 'vacuous: no feasible path through the contract'
    for p, o in done:
        rec = dict(name=o['name'], path=p, status=o['status'], time=round(o['time'], 3))
        if o['status'] == 'failed':
            # an unprovable safety condition alone is not a violation
            rec['residual'] = tm.show(o["residual"], 14)[:2500] if isinstance(o.get('residual'), T) else None
            rec['facts'] = [tm.show(f, 6)[:200] for f in o['ctx'].facts][:12]
            rec['overrides'], rec['refuted'] = refute(v, o)
        if o.get('why'):
            rec['why'] = o['why'][:300]
        out['obligations'].append(rec)
    out['paths'] = state['paths']
    out['covered'] = state['covered']
    out['interpreted'] = dict(interp.INTERPRETED)
    out['assumed'] = sorted(interp.ASSUMED)
    out['numpy'] = sorted(npmod.USED)
    out['notes'] = sorted(v.assumed)
    out['stats'] = dict(norm.STATS)
    out['wall'] = round(time.time() - t0, 2)
    return out


def refute(v, o):
    """values for scalar inputs on the failing path, from z3; (overrides, definite)"""
    over = {}
    try:
        over = norm.Z3.model(o['ctx'], o['goal'] if isinstance(o.get('goal'), T) else None)
    except Exception:
        over = {}
    names = {n for n, a in v.inputs.items() if isinstance(a, T)}
    res = {}
    for n, x in over.items():
        if n in names:
            res[n] = x
    return res, bool(o.get('definite'))


def run_concrete(c, k, seeds, overrides=None, limit=60.0, stop=True):
    t0 = time.time()
    out = dict(contract=c.id(k), trials=0, rejected=0, evaluated=0, failures=[], samples=[], errors=[])
    distinct = set()
    for n, s in enumerate(seeds):
        if time.time() - t0 > limit:
            break
        large = c.large if n % 3 else max(2, c.large - 1)
        if n % 7 == 6:
            large = c.large + c.extra.get('grow', 2)
        v = ConcV(c, c.cases[k], s, overrides, large)
        try:
            np.seterr(all='ignore')
            c.fn(v, **c.cases[k])
            v.check_frozen()
            out['trials'] += 1
        except Reject:
            out['rejected'] += 1
            continue
        except Fail as e:
            out['trials'] += 1
            out['failures'].append(dict(seed=s, large=large, obligation=e.name, detail=e.detail[:600],
                                        overrides={a: (b if not isinstance(b, dict) else None) for a, b in (overrides or {}).items()},
                                        inputs={a: describe(b)[:800] for a, b in v.inputs.items()},
                                        cause=cause(e)))
            if stop:
                break
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any('/repo/' in f.filename or '/elphmod/' in f.filename for f in tb)
            rec = dict(seed=s, large=large, obligation='no-exception', detail='%s: %s' % (type(e).__name__, str(e)[:400]),
                       overrides={}, inputs={a: describe(b)[:800] for a, b in v.inputs.items()},
                       cause=traceback.format_exc()[-1500:])
            if inrepo:
                out['failures'].append(rec)
                if stop:
                    break
            else:
                out['errors'].append(rec)
                if len(out['errors']) > 3:
                    break
                same = [x for x in out['errors'] if x['detail'].split(':')[0] == type(e).__name__]
                if len(same) > 1 and not isinstance(e, (MemoryError, OSError)):
                    # results that the contract cannot even evaluate (wrong type or shape), repeatedly
                    out['failures'].append(same[0])
                    if stop:
                        break
        out['evaluated'] += v.evaluated
        desc = {a: describe(b)[:160] for a, b in v.inputs.items()}
        distinct.add(str(desc))
        if len(out['samples']) < 1:
            out['samples'].append(desc)
    out['distinct'] = len(distinct)
    out['wall'] = round(time.time() - t0, 2)
    return out


def cause(e):
    if e.__cause__ is None:
        return None
    return ''.join(traceback.format_exception(type(e.__cause__), e.__cause__, e.__cause__.__traceback__))[-1500:]
