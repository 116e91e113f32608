"""Interpreter of the real function source (Python AST) over symbolic values.

The source of every interpreted function is read from /repo on each run (inspect/ast on the
imported module); nothing is dropped except docstrings.  Calls to other functions of the package
are interpreted as well unless a callee contract is registered; calls outside go through the
tables of NumPy and builtin contracts, or run natively if no argument is symbolic.
"""
import ast
import builtins
import inspect
import itertools
import sys
import threading
import types
from fractions import Fraction

import numpy as np

from . import terms as tm
from . import norm
from . import arrays as ar
from . import npmod
from . import mpi
from .terms import T, num, lift, Unsupported
from .arrays import SArr, Masked, State, WhereIdx, asarr, dim, conc, ctx

tm.UFUNC = lambda u, m, i, k: npmod.ufunc(u, m, i, dict(k))
tm.AFUNC = npmod.afunc
tm.ASTYPE = npmod.astype

CONTRACTS = {}      # qualified name -> python callable (callee contract)
INTERPRETED = {}    # qualified name -> source sha (functions under contract by inlining)
ASSUMED = set()     # contracts used at call sites
MAXLOOP = 4000


class PathEnd(Exception):
    """this path is infeasible or ends without returning"""


class Raised(Exception):
    """the interpreted code raises"""

    def __init__(self, exc):
        self.exc = exc


class MergeFail(Unsupported):
    pass


class Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Poison:
    def __init__(self, name, c=None, a=None, b=None):
        self.name = name
        self.c, self.a, self.b = c, a, b       # different values depending on a condition

    def known(self):
        """values that are only known to the root process can still be broadcast"""
        if self.c is None or mpi.ACTIVE[0] is None or isinstance(self.a, Poison) or isinstance(self.b, Poison):
            return self
        return mpi.ACTIVE[0].on_root(self.c, self.a, self.b) or self


UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class Mode:
    merge = 0          # > 0: inside a loop body or branch that is merged
    decisions = None   # list of [value, remaining alternatives]
    pos = 0
    forks = 0
    loops = []         # stack of loop records (appends)
    depth = 0
    maxforks = 96


def branch(c):
    c = ctx().ccond(c)
    if c is tm.TRUE:
        return True
    if c is tm.FALSE:
        return False
    if Mode.merge or Mode.decisions is None:
        raise Unsupported('branch on symbolic condition inside a merged region: %s' % c)
    if Mode.pos < len(Mode.decisions):
        v = Mode.decisions[Mode.pos][0]
    else:
        v = True
        Mode.decisions.append([True, False])
    Mode.pos += 1
    State.ctx = ctx().extend(c if v else tm.not_(c))
    if State.ctx.inconsistent():
        raise PathEnd
    return v


tm.BRANCH = branch
tm.T.__bool__.__globals__['BRANCH'] = branch


def paths(thunk, pre):
    """run thunk() on every path; yields (ctx, outcome, value)"""
    Mode.decisions = []
    out = []
    n = 0
    while True:
        Mode.pos = 0
        Mode.merge = 0
        Mode.loops = []
        Mode.depth = 0
        State.trail = None
        State.ctx = pre.extend()
        n += 1
        if n > Mode.maxforks:
            raise Unsupported('too many paths')
        try:
            r = thunk()
            out.append((State.ctx, 'return', r))
        except PathEnd:
            pass
        except Raised as e:
            out.append((State.ctx, 'raise', e.exc))
        d = Mode.decisions
        while d and d[-1][1] is None:
            d.pop()
        if not d:
            break
        d[-1] = [d[-1][1], None]
    Mode.decisions = None
    return out


class Scope:
    __slots__ = ('vars', 'parent', 'globals', 'globalnames', 'nonlocals')

    def __init__(self, parent, globals_):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.globalnames = set()
        self.nonlocals = set()


class Func:
    """interpreted function"""

    def __init__(self, node, parent, globals_, name, defaults, kwdefaults, qual):
        self.node = node
        self.parent = parent
        self.globals = globals_
        self.__name__ = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.isgen = not isinstance(node, ast.Lambda) and has_yield(node)

    def __call__(self, *args, **kwargs):
        return call_func(self, args, kwargs)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)


def has_yield(node):
    for x in ast.iter_child_nodes(node):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)) or has_yield(x):
            return True
    return False


_src = {}


def module_tree(mod):
    r = _src.get(mod.__name__)
    if r is None:
        with open(inspect.getsourcefile(mod)) as f:
            text = f.read()
        tree = ast.parse(text)
        index = {}

        def walk(node, prefix):
            for x in ast.iter_child_nodes(node):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    q = prefix + x.name
                    if isinstance(x, ast.FunctionDef):
                        first = min([x.lineno] + [d.lineno for d in x.decorator_list])
                        index[(q, first)] = x
                        index[q] = x
                        walk(x, q + '.<locals>.')
                    else:
                        walk(x, q + '.')
                elif not isinstance(x, (ast.expr,)):
                    walk(x, prefix)
        walk(tree, '')
        r = _src[mod.__name__] = (index, text)
    return r


_funcs = {}


def func_of(f):
    """interpreted version of a real function object of the package"""
    r = _funcs.get(f)
    if r is None:
        mod = sys.modules[f.__module__]
        index, text = module_tree(mod)
        node = index.get((f.__qualname__, f.__code__.co_firstlineno)) or index.get(f.__qualname__)
        if node is None:
            raise Unsupported('no source for ' + f.__qualname__)
        d = list(f.__defaults__ or ())
        # float defaults are exact decimals in the source
        args = node.args
        dn = args.defaults
        d = [const_default(n, v) for n, v in zip(dn, d)]
        kd = dict(f.__kwdefaults__ or {})
        parent = None
        if f.__closure__:
            parent = Scope(None, f.__globals__)
            for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    parent.vars[name] = cell.cell_contents
                except ValueError:
                    pass
        r = Func(node, parent, f.__globals__, f.__name__, d, kd, f.__module__ + '.' + f.__qualname__)
        import hashlib
        seg = ast.get_source_segment(text, node) or ''
        INTERPRETED[r.qual] = hashlib.sha256(seg.encode()).hexdigest()[:12]
        _funcs[f] = r
    return r


def const_default(node, value):
    if isinstance(node, ast.Constant) and isinstance(node.value, float):
        return num(Fraction(repr(node.value)), 'r')
    return value


def qualname(f):
    return getattr(f, '__module__', '') + '.' + getattr(f, '__qualname__', '') if isinstance(f, types.FunctionType) else getattr(f, 'qual', None)


# -- symbolic iterables ---------------------------------------------------------------------

class SymIter:
    """finite iterable with symbolic length: item(i) for 0 <= i < n"""

    def __init__(self, n, item):
        self.n = n
        self.item = item

    def __iter__(self):
        c = conc(self.n) if not isinstance(self.n, int) else self.n
        if c is None:
            raise Unsupported('native iteration over a symbolic range')
        return iter([self.item(num(i)) for i in range(c)])

    def symlist(self):
        v = norm.index('l', 0, self.n)
        e = self.item(v)
        if isinstance(e, (tuple, list)):
            e = asarr(e)
        if isinstance(e, SArr):
            sh, s = e.shape, e.sort
            return SArr.build((self.n,) + tuple(sh), lambda w: lift(asarr(self.item(lift(w[0]))).at(*w[1:])), s)
        e = lift(e)
        return SArr.build((self.n,), lambda w: lift(self.item(lift(w[0]))), e.sort)


class SymNd:
    def __init__(self, dims):
        self.dims = dims


class SList(SymIter):
    """list with symbolic length"""

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step = ar.slice_bounds(i, self.n)
            return SList(ar.slice_len(start, stop, step), lambda k: self.item(ctx().canon(tm.add(lift(start), tm.mul(num(step), k)))))
        if isinstance(i, (SArr,)) and i.ndim == 0:
            i = i.item()
        return self.item(lift(ar.check_index(i, self.n)))


class FList(SList):
    """list of the items of a list with symbolic length that meet a condition"""

    def __init__(self, n, item, cond):
        self.base = n, item, cond
        i = norm.index('f', 0, n)
        m, sel = norm.filtered(dim(n) if not isinstance(n, int) else num(n), i, cond(i))
        SList.__init__(self, m, lambda k: item(sel(lift(k))))


class SDict(dict):
    """dictionary; becomes symbolic with the first symbolic key

    Symbolic state: the set of keys (a Boolean store over all integer tuples of the width of the keys)
    and the values (a store over keys and value indices), which vanish where there is no key.  All
    values are arrays of one shape, every write location is a key, and keys are never removed.
    """
    engine_ok = True
    sym = None

    def _start(self, key):
        if dict.__len__(self):
            raise Unsupported('symbolic key in a native dictionary')
        if not isinstance(key, tuple) or not key or any(not ar.scalar(x) or lift(x).sort != 'i' for x in key):
            raise Unsupported('dictionary with keys of this type')
        self.width = len(key)
        self.present = ar.Store((norm.UNBOUNDED,) * self.width, lambda s: tm.FALSE, 'b')
        self.present.tag = 'present!'
        self.values_ = None
        self.borrowed = self.lent = False
        self.sym = True
        self.listed = None

    def wants(self, key):
        return self.sym is not None or not dict.__len__(self) and issym(key)

    def key(self, key):
        if self.sym is None:
            self._start(key)
        if not isinstance(key, tuple) or len(key) != self.width or any(not ar.scalar(x) for x in key):
            raise Unsupported('dictionary with keys of different types')
        key = tuple(lift(x) for x in key)
        if any(x.sort != 'i' for x in key):
            raise Unsupported('dictionary with non-integer keys')
        return key

    def has(self, key):
        key = self.key(key)
        return ctx().ccond(self.present.get(key))

    def view(self, key):
        w = self.width
        st = self.values_
        return SArr(st, [('fix', ctx().canon(x)) for x in key] + [('aff', num(0), 1)] * (len(st.shape) - w), list(range(w, len(st.shape))), st.shape[w:])

    def take(self, key):
        key = self.key(key)
        if self.listed is not None and self.values_ is not None and not Mode.loops:
            user = norm.listed_keys(self.listed[0], key)
            if user is not None:
                return self.content(lambda k: tuple(tm.app('dict' + user, x.args[1:], 'i') for x in key))(None)
        if self.values_ is None or not sure(self.present.get(key)):
            raise Unsupported('dictionary lookup of a key that may be missing' + (': ' + tm.show(self.present.get(key), 8) if __import__('os').environ.get('VERIF_SHOW') else ''))
        if Mode.loops:
            if self.borrowed:
                raise Unsupported('dictionary of arrays that are also used elsewhere')
            self.lent = True
            return self.view(key)
        return self.view(key).copy()

    def put(self, key, value):
        key = self.key(key)
        value = asarr(value)
        if self.values_ is None:
            self.values_ = ar.Store((norm.UNBOUNDED,) * self.width + tuple(value.shape), lambda s, so=value.sort: tm.cast(num(0), so), value.sort)
        st = self.values_
        if value.store is st:
            old = self.view(key)
            if value.maps == old.maps and value.axes == old.axes:
                return
            value = value.copy()
        if len(value.shape) + self.width != len(st.shape) or not all(ar.same(x, y) for x, y in zip(value.shape, st.shape[self.width:])) or value.sort != st.sort:
            raise Unsupported('dictionary of values of different shapes')
        if value.store.tag is not None or value.store.readonly or not isinstance(value.store.fn, types.FunctionType) and value.store.data is None or len(value.store.shape) != len(value.shape):
            self.borrowed = True
            if self.lent:
                raise Unsupported('dictionary of arrays that are also used elsewhere')
        g = value.getter()
        has = self.present.get(key)
        absent = sure(tm.not_(has))
        at = lambda s: tm.and_(*[tm.eq(x, y) for x, y in zip(s, key)])
        w = self.width
        if absent:
            # no key: the old value vanishes
            old = st.getter()
            st.write(at, lambda s: self.first(old, g, s, key))
        else:
            st.write(at, lambda s: g(s[w:]))
        self.present.write(at, lambda s: tm.TRUE)
        self.listed = None

    def first(self, old, g, s, key):
        """first value for a key, where the old one vanishes"""
        x = g(s[self.width:])
        if ctx().canon(x) is num(0):
            return old(tuple(s))
        return tm.add(old(key + tuple(s[self.width:])), x)

    def listing(self):
        if Mode.loops:
            raise Unsupported('keys of a dictionary inside a symbolic loop')
        if Mode.merge:
            raise Unsupported('keys of a dictionary in a merged region')
        if self.listed is None:
            self.listed = norm.keyset(self.width)
        return self.listed

    def user(self, name):
        return lambda k: tuple(tm.app(name, (lift(k), num(x)), 'i') for x in range(self.width))

    # -- dictionary interface
    def keys(self):
        if self.sym is None:
            return dict.keys(self)
        n, name = self.listing()
        return SList(n, self.user(name))

    def values(self):
        if self.sym is None:
            return dict.values(self)
        n, name = self.listing()
        return SList(n, self.content(self.user('dict' + name)))

    def content(self, key):
        g, w = self.values_.getter(), self.width
        shape, sort = self.values_.shape[w:], self.values_.sort

        def item(k):
            k = key(k)
            return SArr.build(shape, lambda v: g(k + tuple(map(lift, v))), sort)
        return item

    def items(self):
        if self.sym is None:
            return dict.items(self)
        a, b = self.keys(), self.values()
        return SList(a.n, lambda k: (a.item(k), b.item(k)))

    def setdefault(self, key, default=None):
        if not self.wants(key):
            if Mode.merge and not owned(self):
                raise Unsupported('mutation of a container in a merged region')
            return dict.setdefault(self, key, default)
        key = self.key(key)
        c = self.has(key)
        if c is not tm.TRUE:
            if not sure(tm.not_(c)):
                default = asarr(default)
                if self.values_ is None:
                    self.put(key, default)
                    return self.take(key)
                st, w, g = self.values_, self.width, default.getter()
                if not all(ar.same(x, y) for x, y in zip(default.shape, st.shape[w:])) or default.sort != st.sort:
                    raise Unsupported('dictionary of values of different shapes')
                old = st.getter()
                at = lambda s: tm.and_(tm.not_(c), *[tm.eq(x, y) for x, y in zip(s, key)])
                st.write(at, lambda s: self.first(old, g, s, key))
                self.present.write(at, lambda s: tm.TRUE)
                self.listed = None
            else:
                self.put(key, default)
        return self.take(key)

    def get(self, key, default=None):
        if not self.wants(key):
            return dict.get(self, key, default)
        c = self.has(key)
        if c is tm.FALSE:
            return default
        if self.values_ is not None and sure(c):
            return self.take(key)
        raise Unsupported('dict.get of a symbolic key')

    def clear(self):
        if self.sym is None:
            return dict.clear(self)
        if Mode.loops or Mode.merge:
            raise Unsupported('mutation of a container in a merged region')
        self.sym = None

    def _native(name):
        f = getattr(dict, name)

        def g(self, *args, **kwargs):
            if self.sym is not None:
                raise Unsupported('%s of a symbolic dictionary' % name)
            if name in MUTATORS and Mode.merge and not owned(self):
                raise Unsupported('mutation of a container in a merged region')
            return f(self, *args, **kwargs)
        return g
    pop, popitem, update, copy, __iter__, __eq__ = map(_native, ['pop', 'popitem', 'update', 'copy', '__iter__', '__eq__'])
    del _native


def sure(c):
    C = ctx()
    return C.entails(c) or C.decide(C.ccond(c)) is True


def b_dict(*args, **kwargs):
    r = SDict(*([as_iter(args[0])] if args else []), **kwargs)
    if OWNED:
        OWNED[-1].add(id(r))
        KEEP.append(r)
    return r


def deep_subst(x, m):
    if isinstance(x, FList):
        n, item, cond = x.base
        return FList(deep_subst(n, m) if isinstance(n, T) else n, lambda i: deep_subst(item(i), m), lambda i: tm.subst(cond(i), m))
    if isinstance(x, T):
        return tm.subst(x, m)
    if isinstance(x, SArr):
        g = x.getter()
        return SArr.build([deep_subst(n, m) if isinstance(n, T) else n for n in x.shape], lambda v: tm.subst(g(v), m), x.sort)
    if isinstance(x, tuple):
        return tuple(deep_subst(y, m) for y in x)
    if isinstance(x, list):
        return [deep_subst(y, m) for y in x]
    if isinstance(x, slice):
        return slice(*[deep_subst(y, m) for y in (x.start, x.stop, x.step)])
    if isinstance(x, SList):
        return SList(deep_subst(x.n, m), lambda i: deep_subst(x.item(i), m))
    if isinstance(x, Masked):
        return Masked(deep_subst(x.arr, m), deep_subst(x.mask, m))
    if x is None or isinstance(x, (int, float, complex, str, bool, np.dtype, type, types.FunctionType, types.ModuleType, Func)):
        return x
    if x is Ellipsis:
        return x
    raise Unsupported('substitution in %r' % type(x))


def as_iter(x):
    """Python iterable (concrete length) or SymIter"""
    if isinstance(x, SymIter):
        c = x.n if isinstance(x.n, int) else conc(ctx().canon(x.n))
        if c is not None:
            return [x.item(num(i)) for i in range(c)]
        return x
    if isinstance(x, SArr):
        n = x.shape[0] if x.ndim else None
        if n is None:
            raise TypeError('iteration over 0-d array')
        if isinstance(n, int):
            return [x[i] for i in range(n)]
        return SList(n, lambda i: x[i])
    if isinstance(x, SymNd):
        return x
    if isinstance(x, SDict) and x.sym is not None:
        return x.keys()
    return x


def sym_range(*a):
    a = [x.item() if isinstance(x, (SArr,)) else x for x in a]
    if all(conc(x) is not None for x in a if isinstance(x, (int, T, np.integer))):
        return range(*[int(x) for x in a])
    a = [lift(x) for x in a]
    for x in a:
        if x.sort != 'i':
            raise TypeError('range of non-integer')
    if len(a) == 1:
        lo, hi, st = num(0), a[0], 1
    else:
        lo, hi = a[:2]
        st = conc(a[2]) if len(a) > 2 else 1
    if st is None or st == 0:
        raise Unsupported('range step')
    d = tm.add(hi, tm.neg(lo)) if st > 0 else tm.add(lo, tm.neg(hi))
    if abs(st) != 1:
        d = tm.idiv(tm.add(d, num(abs(st) - 1)), num(abs(st)))
    d = ctx().canon(d)
    if not ctx().entails(tm.le(num(0), d)):
        if ctx().entails(tm.le(d, num(0))):
            return range(0)
        d = tm.ite(tm.lt(d, num(0)), num(0), d)
    r = SymIter(dim(d), lambda i: ctx().canon(tm.add(lo, tm.mul(num(st), i))))
    return r


def sym_len(x):
    if isinstance(x, SymIter):
        return x.n
    if isinstance(x, SArr):
        if not x.ndim:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, Masked):
        return x.shape[0]
    if isinstance(x, SDict) and x.sym is not None:
        return x.listing()[0]
    if isinstance(x, (set, frozenset)) and issym(x):
        # terms that look different may have the same value
        x = list(x)
        for i, a in enumerate(x):
            for b in x[:i]:
                c = cond(ev_compare(ast.Eq(), a, b))
                if c is True or c is not False and not ctx().extend(c).inconsistent():
                    raise Unsupported('size of a set of symbolic values')
    return len(x)


def sym_enumerate(x, start=0):
    x = as_iter(x)
    if isinstance(x, SymIter):
        return SymIter(x.n, lambda i: (i if start == 0 else i + start, x.item(i)))
    return enumerate(x, start)


def sym_zip(*xs, strict=False):
    xs = [as_iter(x) for x in xs]
    s = [x for x in xs if isinstance(x, SymIter)]
    if not s:
        return zip(*xs)
    n = s[0].n
    for x in xs:
        m = x.n if isinstance(x, SymIter) else len(list(x))
        if not ar.same(m, n):
            raise Unsupported('zip of different lengths')
    return SymIter(n, lambda i: tuple(x.item(i) for x in xs))


def issym(x, depth=4):
    if isinstance(x, (T, SArr, Masked, SymIter, WhereIdx, SymNd)):
        return True
    if isinstance(x, SDict) and x.sym is not None:
        return True
    if isinstance(x, slice):
        return any(isinstance(y, (T, SArr)) for y in (x.start, x.stop, x.step))
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(issym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(issym(y, depth - 1) for y in x.values()) or any(issym(y, depth - 1) for y in x.keys())
    return False


def b_int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, T):
        return tm.truncint(x)
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, T):
        return tm.cast(x, 'r')
    if isinstance(x, str):
        if x.strip().lower() in ('inf', '+inf', 'infinity'):
            return tm.INF
        return float(x)
    return lift(float(x)) if not isinstance(x, int) else num(x, 'r')


def b_complex(a=0, b=0):
    if issym(a) or issym(b):
        return tm.cast(tm.add(lift(a), tm.mul(lift(b), tm.I)), 'c')
    return complex(a, b)


def b_round(x, n=None):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, T):
        if n is not None:
            raise Unsupported('round with digits')
        return tm.roundint(x)
    return round(x) if n is None else round(x, n)


def b_abs(x):
    if isinstance(x, np.ndarray):
        return abs(x)
    return abs(x)


def _fold(u, name):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            a = list(as_iter(a[0])) if not isinstance(as_iter(a[0]), SymIter) else None
            if a is None:
                raise Unsupported(name + ' over symbolic range')
        if key is not None and all(isinstance(x, (T, SArr)) and not x.shape for x in a):
            a = [lift(x.item() if isinstance(x, SArr) else x) for x in a]
            ks = [call(key, (x,), {}) for x in a]
            if issym(ks):
                r, k = a[0], lift(ks[0])
                for x, l in zip(a[1:], map(lift, ks[1:])):
                    c = tm.lt(l, k) if name == 'min' else tm.lt(k, l)
                    r, k = tm.ite(c, x, r), tm.ite(c, l, k)
                return r
        if key is not None or not issym(list(a)):
            kw = {} if key is None else {'key': key}
            return getattr(builtins, name)(a, **kw)
        r = None
        for x in a:
            x = x.item() if isinstance(x, SArr) else x
            x = lift(x)
            r = x if r is None else u(r, x)
        return r
    return f


def b_sum(x, start=0):
    x = as_iter(x)
    if isinstance(x, SymIter):
        v = norm.index('s', 0, x.n)
        e = x.item(v)
        if isinstance(e, SArr):
            r = asarr(x) if not isinstance(x, SList) else x.symlist()
            return ev_binop(ast.Add(), start, npmod.red_sum(r, 0))
        return ev_binop(ast.Add(), start, tm.Sum(v, num(0), lift(x.n), lift(e)))
    r = start
    for y in x:
        r = ev_binop(ast.Add(), r, y)
    return r


def b_sorted(x, key=None, reverse=False):
    x = as_iter(x)
    if isinstance(x, SymIter):
        if key is None and not reverse:
            i = tm.fresh('k', 'i')
            k = x.item(i)
            name = norm.listed_keys(x.n, k) if isinstance(x.n, T) and isinstance(k, tuple) and all(isinstance(c, T) for c in k) else None
            if name is not None and k[0].args[1] is i:
                name, width = norm.reorder(x.n, 'sorted'), len(k)
                return SList(x.n, lambda k: tuple(tm.app(name, (lift(k), num(c)), 'i') for c in range(width)))
        raise Unsupported('sorted of symbolic length')
    x = list(x)
    if any(isinstance(y, T) for y in x) and key is None and not reverse and len(x) <= 4:
        return npmod.sortnet([lift(y) for y in x])
    if npmod.OPAQUE_SORT[0] and key is not None and not reverse and 1 < len(x) <= 4 and all(isinstance(y, tuple) and len(y) == len(x[0]) for y in x):
        own = isinstance(key, types.FunctionType) and key.__module__.startswith('contracts')
        keys = [lift(key(y) if own else call(key, (y,), {})) for y in x]
        if any(k.op != 'num' for k in keys):
            parts = [npmod.opaque_sorted(keys, [lift(y[c]) for y in x]) for c in range(len(x[0]))]
            return [tuple(ys) for ys in zip(*parts)]
    if key is not None and not reverse and len(x) <= 4:
        keys = [call(key, (y,), {}) for y in x]
        if any(isinstance(k, T) for k in keys):
            # stable insertion by compare-exchange of neighbours
            pairs = list(zip(keys, x))
            for n in range(len(pairs) - 1, 0, -1):
                for m in range(n):
                    (k, y), (l, z) = pairs[m], pairs[m + 1]
                    c = ctx().ccond(tm.lt(lift(l), lift(k)))
                    if c is tm.FALSE:
                        continue
                    if c is tm.TRUE:
                        pairs[m:m + 2] = [(l, z), (k, y)]
                        continue
                    pairs[m:m + 2] = [(tm.ite(c, lift(l), lift(k)), merge_value(c, z, y)), (tm.ite(c, lift(k), lift(l)), merge_value(c, y, z))]
            return [y for _, y in pairs]
        return [y for _, y in sorted(zip(keys, x), key=lambda p: p[0])]
    return sorted(x, key=key, reverse=reverse)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, T):
        for y in ts:
            if y is int and x.sort == 'i' or y is float and x.sort == 'r' or y is complex and x.sort == 'c' or y is bool and x.sort == 'b':
                return True
        return False
    if isinstance(x, SArr):
        return any(y is np.ndarray or y is object for y in ts)
    if isinstance(x, SList):
        return any(y is list for y in ts)
    if isinstance(x, Func):
        return any(y is types.FunctionType for y in ts)
    return isinstance(x, t)


def b_list(x=()):
    x = as_iter(x)
    if isinstance(x, SymIter):
        return SList(x.n, x.item)
    return list(x)


def b_tuple(x=()):
    x = as_iter(x)
    if isinstance(x, SymIter):
        return SList(x.n, x.item)
    return tuple(x)


def b_any(x):
    x = as_iter(x)
    if isinstance(x, SymIter):
        v = norm.index('x', 0, x.n)
        return tm.exists(v, num(0), lift(x.n), tm.cast(lift(x.item(v)), 'b'))
    r = tm.FALSE
    for y in x:
        if isinstance(y, T):
            r = tm.or_(r, y)
        elif y:
            return True
    return r if r is not tm.FALSE else False


def b_all(x):
    x = as_iter(x)
    if isinstance(x, SymIter):
        v = norm.index('x', 0, x.n)
        return tm.forall(v, num(0), lift(x.n), tm.cast(lift(x.item(v)), 'b'))
    r = tm.TRUE
    for y in x:
        if isinstance(y, T):
            r = tm.and_(r, y)
        elif not y:
            return False
    return r if r is not tm.TRUE else True


def b_map(f, *xs):
    xs = [as_iter(x) for x in xs]
    if any(isinstance(x, SymIter) for x in xs):
        z = sym_zip(*xs)
        return SList(z.n, lambda i: call(f, z.item(i), {}))
    return [call(f, a, {}) for a in zip(*xs)]


def b_bool(x=False):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, T):
        return tm.cast(x, 'b')
    return bool(x)


def b_reversed(x):
    x = as_iter(x)
    if isinstance(x, SymIter):
        return SList(x.n, lambda i: x.item(ctx().canon(lift(x.n) - 1 - i)))
    return list(x)[::-1]


def b_print(*a, **k):
    return None


def b_divmod(a, b):
    return ev_binop(ast.FloorDiv(), a, b), ev_binop(ast.Mod(), a, b)


def b_pow(a, b, *m):
    if m:
        raise Unsupported('pow mod')
    return ev_binop(ast.Pow(), a, b)


def b_filter(f, x):
    return [y for y in as_iter(x) if truth(call(f, (y,), {}) if f is not None else y)]


def b_type(x):
    if isinstance(x, T):
        return {'i': int, 'r': float, 'c': complex, 'b': bool}[x.sort]
    return type(x)


def b_set(x=()):
    return set(as_iter(x))


def b_ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    shape = [dim(x) for x in shape]
    if all(isinstance(n, int) for n in shape):
        return np.ndindex(*shape)
    return SymNd(shape)


def b_product(*xs, repeat=1):
    xs = [as_iter(x) for x in xs] * repeat
    if any(isinstance(x, SymIter) for x in xs):
        its = [x if isinstance(x, SymIter) else list(x) for x in xs]
        nd = SymNd([x.n if isinstance(x, SymIter) else len(x) for x in its])
        nd.items = its
        return nd
    return itertools.product(*[list(x) for x in xs])


BUILTINS = {
    len: sym_len, range: sym_range, int: b_int, float: b_float, complex: b_complex, round: b_round,
    abs: b_abs, min: _fold(npmod.u_min, 'min'), max: _fold(npmod.u_max, 'max'), sum: b_sum,
    sorted: b_sorted, enumerate: sym_enumerate, zip: sym_zip, isinstance: b_isinstance,
    list: b_list, tuple: b_tuple, any: b_any, all: b_all, map: b_map, bool: b_bool,
    reversed: b_reversed, print: b_print, divmod: b_divmod, pow: b_pow, filter: b_filter, type: b_type,
    set: b_set, dict: b_dict, np.ndindex: b_ndindex, itertools.product: b_product,
}
NOMAP = {type}

NATIVE_METHODS = (list, dict, set, tuple, str, frozenset)


def truth(x):
    if isinstance(x, T):
        return branch(x if x.sort == 'b' else tm.not_(tm.eq(x, num(0))))
    if isinstance(x, SArr):
        if x.ndim == 0 or all(ar.isone(n) for n in x.shape):
            return truth(x.item())
        raise ValueError('truth value of an array is ambiguous')
    if isinstance(x, SymIter):
        n = x.n
        return truth(tm.not_(tm.eq(lift(n), num(0))))
    return bool(x)


def cond(x):
    """truth value as bool or T"""
    if isinstance(x, SArr):
        if x.ndim == 0 or all(ar.isone(n) for n in x.shape):
            x = x.item()
        else:
            raise ValueError('truth value of an array is ambiguous')
    if isinstance(x, T):
        c = ctx().ccond(x if x.sort == 'b' else tm.not_(tm.eq(x, num(0))))
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        return c
    if isinstance(x, SymIter):
        return cond(tm.not_(tm.eq(lift(x.n), num(0))))
    return bool(x)


# -- calls ------------------------------------------------------------------------------------

def instance_call(f):
    return getattr(type(f), '__call__', None)


def call(f, args, kwargs):
    if mpi.ACTIVE[0] is not None:
        g = mpi.ACTIVE[0].contract(f, kwargs)
        if g is not None:
            ASSUMED.add('%s.%s (parallel)' % (f.__module__, f.__qualname__))
            return g(*args, **kwargs)
    if isinstance(f, Func):
        q = f.qual
        if q in CONTRACTS:
            ASSUMED.add(q)
            return CONTRACTS[q](*args, **kwargs)
        return call_func(f, args, kwargs)
    if isinstance(f, types.MethodType):
        if isinstance(f.__func__, Func):
            return call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if getattr(f.__func__, '__module__', '').startswith('elphmod'):
            return call(f.__func__, (f.__self__,) + tuple(args), kwargs)
    if isinstance(f, types.FunctionType):
        q = f.__module__ + '.' + f.__qualname__
        if q in CONTRACTS:
            ASSUMED.add(q)
            return CONTRACTS[q](*args, **kwargs)
        if f.__module__ and f.__module__.split('.')[0] == 'elphmod':
            return call_func(func_of(f), args, kwargs)
    if isinstance(f, np.vectorize):
        if f.signature is not None:
            raise Unsupported('vectorize with signature')
        arrs = [asarr(a) if not ar.scalar(a) else a for a in args]
        return vectorized(f.pyfunc, arrs)
    if isinstance(f, VFunc):
        return vectorized(f.f, args, f.signature)
    try:
        g = BUILTINS.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*args, **kwargs)
    if isinstance(f, np.ufunc):
        if f in npmod.UFUNCS:
            return npmod.ufunc(f, '__call__', args, dict(kwargs))
    try:
        g = npmod.NPF.get(f)
    except TypeError:
        g = None
    if g is not None:
        npmod.USED.add('numpy.' + getattr(f, '__name__', str(f)))
        return g(*args, **kwargs)
    if f is np.vectorize:
        return VFunc(args[0], **kwargs)
    self_ = getattr(f, '__self__', None)
    if isinstance(self_, np.ufunc):
        return npmod.ufunc(self_, f.__name__, args, dict(kwargs))
    if isinstance(self_, list) and f.__name__ == 'append' and Mode.loops:
        rec = Mode.loops[-1]
        if id(self_) in rec['lists']:
            rec['appends'].setdefault(id(self_), []).append((args[0], rec['guard'][:]))
            return None
    if isinstance(self_, NATIVE_METHODS):
        if isinstance(self_, (list, dict, set)) and f.__name__ in MUTATORS and Mode.merge and not owned(self_):
            raise Unsupported('mutation of a container in a merged region')
        return f(*args, **kwargs)
    if isinstance(self_, (SArr, Masked, T)) or callable(f) and getattr(f, '__module__', '').startswith('engine'):
        return f(*args, **kwargs)
    if isinstance(f, type) and f.__module__.split('.')[0] == 'elphmod':
        return instantiate(f, args, kwargs)
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*[str(a) if issym(a) else a for a in args])
    if f is slice:
        return slice(*args)
    if f in (hasattr, id, callable, iter, next, str, repr, dict, frozenset, getattr, setattr, ord, chr, vars):
        if f is getattr:
            try:
                return get_attr(args[0], args[1])
            except AttributeError:
                if len(args) > 2:
                    return args[2]
                raise
        if f is iter:
            return iter(as_iter(args[0]))
        if f is dict and args:
            return dict(as_iter(args[0]), **kwargs)
        return f(*args, **kwargs)
    if getattr(f, 'engine_ok', False) or getattr(getattr(f, '__self__', None), 'engine_ok', False):
        return f(*args, **kwargs)
    if isinstance(f, type) and f.__name__ == 'dtype':
        return f(*args, **kwargs)
    if not any(issym(a) for a in args) and not any(issym(a) for a in kwargs.values()):
        return f(*args, **kwargs)
    # fully concrete symbolic arrays can be passed natively
    if isinstance(f, types.BuiltinFunctionType) or getattr(f, '__module__', '') and str(getattr(f, '__module__', '')).startswith('numpy'):
        raise Unsupported('no contract for %s' % getattr(f, '__name__', f))
    c = instance_call(f)
    if isinstance(c, types.FunctionType) and c.__module__.split('.')[0] == 'elphmod':
        return call(c, (f,) + tuple(args), kwargs)
    raise Unsupported('no contract for %s' % getattr(f, '__qualname__', f))


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'add', 'discard', 'update', 'setdefault', 'sort', 'reverse', 'popitem'}


def owned(obj):
    return id(obj) in OWNED[-1] if OWNED else True


OWNED = []


def unsupported(msg):
    raise Unsupported(msg)


class VFunc:
    def __init__(self, f, signature=None, otypes=None):
        self.f = f
        if otypes is not None or signature is not None and signature.partition('->')[0].replace(',', '') != '()' * signature.partition('->')[0].count('('):
            raise Unsupported('vectorize keywords')
        self.signature = signature

    def __call__(self, *args):
        return vectorized(self.f, args, self.signature)


def vectorized(f, args, signature=None):
    if all(ar.scalar(a) or isinstance(a, SArr) and a.ndim == 0 for a in args):
        r = call(f, tuple(a.item() if isinstance(a, SArr) else a for a in args), {})
        return r
    arrs = [asarr(a) for a in args]
    shape = ar.broadcast_shapes(*[a.shape for a in arrs])
    gs = [ar.broadcast_getter(a, shape) for a in arrs]
    v = tuple(norm.index('v', 0, n) for n in shape)
    Mode.merge += 1
    try:
        r = call(f, tuple(g(v) for g in gs), {})
    finally:
        Mode.merge -= 1
    if signature is not None:
        r = asarr(r)
        get, k = r.getter(), len(shape)
        return SArr.build((*shape, *r.shape), lambda w: tm.subst(get(tuple(w[k:])), {a: lift(b) for a, b in zip(v, w)}), r.sort)
    r = lift(r)
    return SArr.build(shape, lambda w: tm.subst(r, {a: lift(b) for a, b in zip(v, w)}), r.sort)


def instantiate(cls, args, kwargs):
    q = cls.__module__ + '.' + cls.__qualname__
    if q in CONTRACTS:
        ASSUMED.add(q)
        return CONTRACTS[q](*args, **kwargs)
    obj = object.__new__(cls)
    init = cls.__init__
    if isinstance(init, types.FunctionType):
        call(init, (obj,) + tuple(args), kwargs)
    return obj


def bind(f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    args = list(args)
    kwargs = dict(kwargs)
    for n, v in zip(names, args):
        out[n] = v
    rest = args[len(names):]
    if a.vararg:
        out[a.vararg.arg] = tuple(rest)
    elif rest:
        raise TypeError('%s: too many arguments' % f.__name__)
    for n in names[len(args):]:
        if n in kwargs:
            out[n] = kwargs.pop(n)
    for n in list(kwargs):
        if n in names and n in out:
            raise TypeError('%s: multiple values for %s' % (f.__name__, n))
    d = f.defaults
    for n, v in zip(names[len(names) - len(d):], d):
        if n not in out:
            out[n] = v
    for x in a.kwonlyargs:
        n = x.arg
        if n in kwargs:
            out[n] = kwargs.pop(n)
        elif n in f.kwdefaults:
            out[n] = f.kwdefaults[n]
        else:
            raise TypeError('missing keyword ' + n)
    if a.kwarg:
        out[a.kwarg.arg] = kwargs
    elif kwargs:
        raise TypeError('%s: unexpected keyword %s' % (f.__name__, list(kwargs)))
    for n in names:
        if n not in out:
            raise TypeError('%s: missing argument %s' % (f.__name__, n))
    return out


def call_func(f, args, kwargs):
    scope = Scope(f.parent, f.globals)
    scope.vars.update(bind(f, args, kwargs))
    Mode.depth += 1
    if Mode.depth > 60:
        raise Unsupported('recursion')
    try:
        if isinstance(f.node, ast.Lambda):
            return ev(f.node.body, scope)
        if f.isgen:
            return GenVal(f, scope)
        sig = exec_block(f.node.body, scope)
        if sig is not None and sig[0] == 'return':
            return sig[1]
        return None
    finally:
        Mode.depth -= 1


class GenVal:
    """generator executed in a helper thread, strictly alternating"""

    def __init__(self, f, scope):
        self.f, self.scope = f, scope
        self.go = threading.Semaphore(0)
        self.ready = threading.Semaphore(0)
        self.thread = None
        self.item = None
        self.done = False

    def __iter__(self):
        return self

    def _run(self):
        self.go.acquire()
        GEN.current = self
        try:
            exec_block(self.f.node.body, self.scope)
            self.item = ('stop', None)
        except BaseException as e:
            self.item = ('raise', e)
        self.done = True
        self.ready.release()

    def emit(self, v):
        self.item = ('yield', v)
        self.ready.release()
        self.go.acquire()

    def __next__(self):
        if self.done:
            raise StopIteration
        if self.thread is None:
            threading.stack_size(64 * 1024 * 1024)
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        self.go.release()
        self.ready.acquire()
        kind, v = self.item
        if kind == 'yield':
            return v
        if kind == 'raise':
            raise v
        raise StopIteration


GEN = threading.local()


# -- statements ------------------------------------------------------------------------------

def exec_block(stmts, sc):
    """None, or ('return', value), ('break',), ('continue',)"""
    i = 0
    while i < len(stmts):
        s = stmts[i]
        if isinstance(s, ast.If):
            c = cond(ev(s.test, sc))
            if c is True or c is False:
                r = exec_block(s.body if c else s.orelse, sc)
                if r is not None:
                    return r
            elif not Mode.merge and not (mpi.ACTIVE[0] is not None and mpi.ACTIVE[0].merges(c)):
                r = exec_block(s.body if branch(c) else s.orelse, sc)
                if r is not None:
                    return r
            else:
                r = merged_if(c, s, stmts[i + 1:], sc)
                if r is not NORMAL:
                    return r
        else:
            r = exec_stmt(s, sc)
            if r is not None:
                return r
        i += 1
    return None


NORMAL = object()


def snapshot(sc):
    out = []
    x = sc
    while x is not None:
        out.append((x, dict(x.vars)))
        x = x.parent
    return out


def restore(snap):
    for x, v in snap:
        x.vars.clear()
        x.vars.update(v)


def run_logged(f):
    """run f with the array writes logged; returns (result, {store: (old fn, old data)})"""
    outer = State.trail
    State.trail = []
    try:
        r = f()
    finally:
        tr = State.trail
        State.trail = outer
    first = {}
    for st, fn, data in tr:
        if id(st) not in first:
            first[id(st)] = (st, fn, data)
    if outer is not None:
        outer.extend(tr)
    return r, first


def undo(first):
    new = {}
    for k, (st, fn, data) in first.items():
        new[k] = (st, st.fn, st.data)
        st.fn, st.data = fn, data
    return new


def merged_if(c, s, rest, sc):
    snap = snapshot(sc)
    saved = State.ctx
    results = []
    for val in (True, False):
        body = s.body if val else s.orelse
        State.ctx = saved.extend(c if val else tm.not_(c))
        Mode.merge += 1
        OWNED.append(set())
        if Mode.loops:
            Mode.loops[-1]['guard'].append((c, val))
        dead = False
        try:
            if State.ctx.inconsistent():
                r, first, dead = None, {}, True
            else:
                try:
                    r, first = run_logged(lambda: exec_block(body, sc))
                except Raised as e:
                    raise Unsupported('exception under a merged condition: %s' % e.exc)
        finally:
            Mode.merge -= 1
            OWNED.pop()
            State.ctx = saved
            if Mode.loops:
                Mode.loops[-1]['guard'].pop()
        vars_ = [dict(x.vars) for x, _ in snap]
        new = undo(first)
        restore(snap)
        results.append((r, vars_, new, dead))
    if any(r[0] is not None for r in results):
        # abnormal exits: continue each branch to the end of the block
        cont = []
        for (r, vars_, new, dead), val in zip(results, (True, False)):
            for (x, _), v in zip(snap, vars_):
                x.vars.clear()
                x.vars.update(v)
            old = {k: (st, st.fn, st.data) for k, (st, _, _) in new.items()}
            for k, (st, fn, data) in new.items():
                st.fn, st.data = fn, data
            if r is None and not dead:
                State.ctx = saved.extend(c if val else tm.not_(c))
                Mode.merge += 1
                if Mode.loops:
                    Mode.loops[-1]['guard'].append((c, val))
                try:
                    r, first = run_logged(lambda: exec_block(rest, sc))
                finally:
                    Mode.merge -= 1
                    State.ctx = saved
                    if Mode.loops:
                        Mode.loops[-1]['guard'].pop()
                for k, e in first.items():
                    old.setdefault(k, e)
            vars2 = [dict(x.vars) for x, _ in snap]
            new2 = undo(old)
            restore(snap)
            cont.append((r, vars2, new2, dead))
        merge_state(c, snap, cont)
        ra, rb = cont[0][0], cont[1][0]
        if cont[0][3]:
            return rb
        if cont[1][3]:
            return ra
        if ra is None and rb is None:
            return None
        ka = ra[0] if ra else None
        kb = rb[0] if rb else None
        if ka == kb == 'return':
            return ('return', merge_value(c, ra[1], rb[1]))
        if {ka, kb} <= {None, 'continue'}:
            return ('continue',)
        raise MergeFail('different exits of a merged branch')
    merge_state(c, snap, results)
    return NORMAL


def merge_state(c, snap, results):
    (ra, va, na, da), (rb, vb, nb, db) = results
    if da or db:
        vs, new = (vb, nb) if da else (va, na)
        for (x, _), v in zip(snap, vs):
            x.vars.clear()
            x.vars.update(v)
        for k, (st, fn, data) in new.items():
            st.log()
            st.fn, st.data = fn, data
        return
    # stores first
    for k in set(na) | set(nb):
        st = (na.get(k) or nb.get(k))[0]
        fa, dA = (na[k][1:] if k in na else (st.fn, st.data))
        fb, dB = (nb[k][1:] if k in nb else (st.fn, st.data))
        st.log()
        if st.tag == 'present!':
            # a key added on one branch only where it is known to exist on the other
            g = tuple(tm.fresh('g', 'i') for _ in st.shape)
            for val, f, o in ((c, fb, fa), (tm.not_(c), fa, fb)):
                C = ctx().extend(val)
                x, y = f(g), o(g)
                if x is y or C.decide(C.ccond(tm.or_(tm.and_(x, y), tm.and_(tm.not_(x), tm.not_(y))))):
                    st.fn = f
                    break
            else:
                st.fn = ar.memoise(lambda s, fa=fa, fb=fb: ar.lite(c, lambda: fa(s), lambda: fb(s)))
            continue
        if st.data is not None:
            new = st.data.copy()
            for p in np.ndindex(*new.shape):
                new[p] = dA[p] if dA[p] is dB[p] else tm.ite(c, dA[p], dB[p])
            st.data = new
        else:
            st.fn = ar.memoise(lambda s, fa=fa, fb=fb: ar.lite(c, lambda: fa(s), lambda: fb(s)))
    for (x, old), a, b in zip(snap, va, vb):
        for n in set(a) | set(b):
            p, q = a.get(n, UNDEF), b.get(n, UNDEF)
            if p is q:
                x.vars[n] = p
            elif p is UNDEF or q is UNDEF:
                x.vars[n] = Poison(n, c, p, q)
            else:
                try:
                    x.vars[n] = merge_value(c, p, q)
                except MergeFail:
                    x.vars[n] = Poison(n, c, p, q)


def merge_value(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise MergeFail('undefined on one branch')
    if ar.scalar(a) and ar.scalar(b) and not isinstance(a, str):
        return tm.ite(c, lift(a), lift(b))
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.store is b.store and a.maps == b.maps and a.axes == b.axes:
            return a
        if len(a.shape) == len(b.shape) and all(ar.same(x, y) for x, y in zip(a.shape, b.shape)):
            ga, gb = a.getter(), b.getter()
            s = max(a.sort, b.sort, key=tm.RANK.get)
            return SArr.build(a.shape, lambda v: ar.lite(c, lambda: ga(v), lambda: gb(v)), s)
        raise MergeFail('shapes')
    if isinstance(a, SArr) and a.ndim == 0 and ar.scalar(b) or isinstance(b, SArr) and b.ndim == 0 and ar.scalar(a):
        return tm.ite(c, lift(a.item() if isinstance(a, SArr) else a), lift(b.item() if isinstance(b, SArr) else b))
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        return type(a)(merge_value(c, x, y) for x, y in zip(a, b))
    if isinstance(a, slice) and isinstance(b, slice):
        return slice(*[x if x is y else merge_value(c, x, y) for x, y in zip((a.start, a.stop, a.step), (b.start, b.stop, b.step))])
    if isinstance(a, Masked) and isinstance(b, Masked) and a.samemask(b.mask):
        return Masked(merge_value(c, a.arr, b.arr), a.mask)
    try:
        if not issym(a) and not issym(b) and a == b:
            return a
    except Exception:
        pass
    raise MergeFail('cannot merge %r and %r' % (type(a), type(b)))


def exec_stmt(s, sc):
    t = type(s)
    if t is ast.Expr:
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, ast.Yield):
            GEN.current.emit(ev(s.value.value, sc) if s.value.value else None)
            return None
        ev(s.value, sc)
        return None
    if t is ast.Assign:
        v = ev(s.value, sc)
        for target in s.targets:
            assign(target, v, sc)
        return None
    if t is ast.AugAssign:
        aug_assign(s, sc)
        return None
    if t is ast.AnnAssign:
        if s.value is not None:
            assign(s.target, ev(s.value, sc), sc)
        return None
    if t is ast.Return:
        return ('return', ev(s.value, sc) if s.value is not None else None)
    if t is ast.For:
        return exec_for(s, sc)
    if t is ast.While:
        return exec_while(s, sc)
    if t is ast.Pass:
        return None
    if t is ast.Break:
        return ('break',)
    if t is ast.Continue:
        return ('continue',)
    if t is ast.FunctionDef:
        d = [ev(x, sc) for x in s.args.defaults]
        kd = {a.arg: ev(x, sc) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        f = Func(s, sc, sc.globals, s.name, d, kd, None)
        for dec in reversed(s.decorator_list):
            f = call(ev(dec, sc), (f,), {})
        setvar(sc, s.name, f)
        return None
    if t is ast.Raise:
        e = ev(s.exc, sc) if s.exc is not None else None
        if isinstance(e, type):
            e = e()
        raise Raised(e)
    if t is ast.Assert:
        if not truth(ev(s.test, sc)):
            raise Raised(AssertionError())
        return None
    if t is ast.Global:
        sc.globalnames.update(s.names)
        return None
    if t is ast.Nonlocal:
        sc.nonlocals.update(s.names)
        return None
    if t is ast.Import:
        for a in s.names:
            m = __import__(a.name)
            setvar(sc, a.asname or a.name.split('.')[0], sys.modules[a.name] if a.asname else m)
        return None
    if t is ast.ImportFrom:
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            setvar(sc, a.asname or a.name, getattr(m, a.name))
        return None
    if t is ast.Try:
        return exec_try(s, sc)
    if t is ast.With:
        mgrs = []
        for item in s.items:
            m = ev(item.context_expr, sc)
            v = m.__enter__()
            if item.optional_vars is not None:
                assign(item.optional_vars, v, sc)
            mgrs.append(m)
        try:
            return exec_block(s.body, sc)
        finally:
            for m in reversed(mgrs):
                m.__exit__(None, None, None)
    if t is ast.Delete:
        for x in s.targets:
            if isinstance(x, ast.Name):
                sc.vars.pop(x.id, None)
            elif isinstance(x, ast.Subscript):
                o = ev(x.value, sc)
                if issym(o):
                    raise Unsupported('del')
                del o[ev(x.slice, sc)]
        return None
    raise Unsupported('statement ' + t.__name__)


def exec_try(s, sc):
    try:
        r = exec_block(s.body, sc)
    except (Unsupported, PathEnd, norm.Budget, ar.Mutation, tm.Undecided):
        raise
    except BaseException as e:
        exc = e.exc if isinstance(e, Raised) else e
        for h in s.handlers:
            if h.type is None:
                ok = True
            else:
                ht = ev(h.type, sc)
                ok = isinstance(exc, ht)
            if ok:
                if h.name:
                    setvar(sc, h.name, exc)
                r = exec_block(h.body, sc)
                break
        else:
            if s.finalbody:
                exec_block(s.finalbody, sc)
            raise
    else:
        if r is None and s.orelse:
            r = exec_block(s.orelse, sc)
    if s.finalbody:
        q = exec_block(s.finalbody, sc)
        if q is not None:
            return q
    return r


def setvar(sc, name, v):
    if name in sc.globalnames:
        raise Unsupported('assignment to a global')
    if name in sc.nonlocals:
        x = sc.parent
        while x is not None and name not in x.vars:
            x = x.parent
        x.vars[name] = v
        return
    sc.vars[name] = v


def getvar(sc, name):
    x = sc
    while x is not None:
        if name in x.vars:
            v = x.vars[name]
            if isinstance(v, Poison):
                v = v.known()
                if isinstance(v, Poison):
                    raise Unsupported('value of %s is not determined here' % v.name)
            if isinstance(v, mpi.OnRoot):
                return v.here()
            return v
        x = x.parent
    g = sc.globals
    if name in g:
        return globalval(g[name])
    if hasattr(builtins, name):
        return getattr(builtins, name)
    raise NameError(name)


def globalval(v):
    if type(v) is float:
        return lift(v)
    return v


def assign(target, v, sc):
    if isinstance(target, ast.Name):
        setvar(sc, target.id, v)
    elif isinstance(target, (ast.Tuple, ast.List)):
        vs = as_iter(v)
        if isinstance(vs, SymIter):
            raise Unsupported('unpacking a symbolic length')
        vs = list(vs)
        star = [k for k, x in enumerate(target.elts) if isinstance(x, ast.Starred)]
        if star:
            k = star[0]
            m = len(vs) - len(target.elts) + 1
            vs = vs[:k] + [vs[k:k + m]] + vs[k + m:]
        if len(vs) != len(target.elts):
            raise ValueError('unpack: expected %d, got %d' % (len(target.elts), len(vs)))
        for x, y in zip(target.elts, vs):
            assign(x.value if isinstance(x, ast.Starred) else x, y, sc)
    elif isinstance(target, ast.Subscript):
        o = ev(target.value, sc)
        k = ev(target.slice, sc)
        set_item(o, k, v)
    elif isinstance(target, ast.Attribute):
        o = ev(target.value, sc)
        set_attr(o, target.attr, v)
    else:
        raise Unsupported('assignment target')


def set_item(o, k, v):
    if isinstance(o, SArr):
        o[k] = v
        return
    if isinstance(o, np.ndarray):
        raise Unsupported('write into a native array')
    if isinstance(o, SList):
        raise Unsupported('write into a symbolic list')
    if isinstance(o, SDict) and o.wants(k):
        o.put(k, v)
        return
    if isinstance(k, T):
        k = k.__index__()
    if Mode.merge and not owned(o):
        if isinstance(o, list):
            raise Unsupported('list item assignment in a merged region')
        raise Unsupported('item assignment in a merged region')
    o[k] = v


def set_attr(o, name, v):
    if isinstance(o, SArr) and name in ('real', 'imag'):
        setattr(o, name, v)
        return
    if isinstance(o, SArr) and name == 'shape':
        raise Unsupported('shape assignment')
    if Mode.merge:
        raise Unsupported('attribute assignment in a merged region')
    setattr(o, name, v)


def aug_assign(s, sc):
    t = s.target
    if isinstance(t, ast.Name):
        old = getvar(sc, t.id)
        new = ev_augop(s.op, old, ev(s.value, sc))
        setvar(sc, t.id, new)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, sc)
        k = ev(t.slice, sc)
        old = get_item(o, k)
        v = ev(s.value, sc)
        if isinstance(old, SArr) and isinstance(o, SArr) and old.store is o.store and not isinstance(old, Masked):
            new = ev_augop(s.op, old, v)
            if new is not old:
                set_item(o, k, new)
        else:
            if isinstance(o, SArr) and isinstance(old, T):
                r = ev_binop(s.op, old, v)
                rr = r.item() if isinstance(r, SArr) else r
                if isinstance(rr, T) and tm.RANK[rr.sort] > tm.RANK[o.sort] and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) and False:
                    raise TypeError('cast')
                set_item(o, k, r)
            else:
                set_item(o, k, ev_augop(s.op, old, v))
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, sc)
        old = get_attr(o, t.attr)
        new = ev_augop(s.op, old, ev(s.value, sc))
        set_attr(o, t.attr, new)


def ev_augop(op, a, b):
    if isinstance(a, SArr):
        if isinstance(b, (list, tuple)):
            b = asarr(b)
        if isinstance(op, ast.Add):
            a += b
        elif isinstance(op, ast.Sub):
            a -= b
        elif isinstance(op, ast.Mult):
            a *= b
        elif isinstance(op, ast.Div):
            a /= b
        elif isinstance(op, ast.FloorDiv):
            a //= b
        elif isinstance(op, ast.Mod):
            a %= b
        elif isinstance(op, ast.Pow):
            a **= b
        elif isinstance(op, ast.BitAnd):
            a &= b
        elif isinstance(op, ast.BitOr):
            a |= b
        else:
            raise Unsupported('augmented operator')
        return a
    if isinstance(a, np.ndarray):
        raise Unsupported('in-place operation on a native array')
    if isinstance(a, list) and isinstance(op, ast.Add):
        if Mode.merge and not owned(a):
            raise Unsupported('list extension in a merged region')
        a += list(as_iter(b))
        return a
    return ev_binop(op, a, b)


def exec_while(s, sc):
    n = 0
    while True:
        c = cond(ev(s.test, sc))
        if c is not True and c is not False:
            return havoc_while(s, sc)
        if c is False:
            return exec_block(s.orelse, sc) if s.orelse else None
        if isinstance(s.test, ast.Constant) and n == 0:
            # unbounded loop: if the body decides on symbolic conditions, use the havoc rule
            if symbolic_exit(s):
                return havoc_while(s, sc)
        r = exec_block(s.body, sc)
        if r is not None:
            if r[0] == 'break':
                return None
            if r[0] == 'return':
                return r
        n += 1
        if n > MAXLOOP:
            raise Unsupported('loop bound')


def symbolic_exit(s):
    return HAVOC_WHILE[0]


HAVOC_WHILE = [False]


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def havoc_while(s, sc):
    """partial correctness: no iteration at all, or the last one from an arbitrary state"""
    if Mode.merge:
        raise Unsupported('while loop in a merged region')
    if not isinstance(s.test, ast.Constant) and branch(tm.fresh('iterated', 'b')) is False:
        if truth(ev(s.test, sc)):
            raise PathEnd
        return exec_block(s.orelse, sc) if s.orelse else None
    snap = snapshot(sc)
    names = assigned_names(s.body)
    for n in names:
        if n in sc.vars:
            v = sc.vars[n]
            if isinstance(v, T) or isinstance(v, (int, float)) and not isinstance(v, bool):
                t = lift(v)
                sc.vars[n] = tm.fresh('hv_' + n, 'r' if t.sort == 'i' else t.sort)
            elif isinstance(v, SArr):
                sc.vars[n] = SArr.symbol('hv_%s!%d' % (n, len(_hv)), v.shape, v.sort)
                _hv.append(n)
            else:
                sc.vars[n] = Poison(n)
    if not truth(ev(s.test, sc)):
        raise PathEnd
    (r, first) = run_logged(lambda: exec_block(s.body, sc))
    # writes to arrays that existed before the loop would have to be havocked as well
    if r is None or r[0] == 'continue':
        # last iteration
        if truth(ev(s.test, sc)):
            raise PathEnd
        r = exec_block(s.orelse, sc) if s.orelse else None
    if first:
        existing = set()
        for x, vs in snap:
            for v in vs.values():
                if isinstance(v, SArr):
                    existing.add(id(v.store))
        if set(first) & existing:
            raise Unsupported('array written in a while loop')
    if r is not None and r[0] == 'break':
        return None
    return r


_hv = []


# -- for loops ---------------------------------------------------------------------------------

def exec_for(s, sc):
    it = as_iter(ev(s.iter, sc))
    if isinstance(it, SymNd):
        return for_nd(s, sc, it)
    if isinstance(it, SymIter):
        r = summarize(it.n, lambda i: assign(s.target, it.item(i), sc), lambda: exec_block(s.body, sc), sc, s)
        if s.orelse:
            return exec_block(s.orelse, sc)
        return r
    n = 0
    broke = False
    for v in it:
        n += 1
        if n > MAXLOOP:
            raise Unsupported('loop bound')
        assign(s.target, v, sc)
        r = exec_block(s.body, sc)
        if r is not None:
            if r[0] == 'break':
                broke = True
                break
            if r[0] == 'return':
                return r
    if s.orelse and not broke:
        return exec_block(s.orelse, sc)
    return None


def for_nd(s, sc, nd):
    dims = nd.dims
    items = getattr(nd, 'items', None)
    idx = [None] * len(dims)

    def val(k):
        if items is None:
            return idx[k]
        return items[k].item(lift(idx[k])) if isinstance(items[k], SymIter) else items[k][int(idx[k])]

    def go(k):
        if k == len(dims):
            assign(s.target, tuple(val(j) for j in range(len(dims))), sc)
            return exec_block(s.body, sc)
        if isinstance(dims[k], int):
            for i in range(dims[k]):
                idx[k] = i
                r = go(k + 1)
                if r is not None and r[0] != 'continue':
                    raise Unsupported('exit from a multi-index loop')
            return None

        def setidx(i):
            idx[k] = i
        return summarize(dims[k], setidx, lambda: go(k + 1), sc, s)
    return go(0)


def reachable_arrays(snap):
    out = {}
    seen = set()

    def visit(v, d):
        if isinstance(v, SArr):
            out[id(v.store)] = v.store
        elif isinstance(v, SDict) and v.sym is not None:
            out[id(v.present)] = v.present
            if v.values_ is not None:
                out[id(v.values_)] = v.values_
        elif d and isinstance(v, (list, tuple)):
            for x in v:
                visit(x, d - 1)
        elif d and isinstance(v, dict):
            for x in v.values():
                visit(x, d - 1)
        elif d and hasattr(v, '__dict__') and type(v).__module__.startswith('elphmod') and id(v) not in seen:
            seen.add(id(v))
            for x in vars(v).values():
                visit(x, d - 1)
    for x, vs in snap:
        for v in vs.values():
            visit(v, 3)
    return out


class Item:
    """loop-carried location: a store or a scalar variable"""

    def __init__(self, kind, ref, shape, sort, name):
        self.kind, self.ref, self.shape, self.sort = kind, ref, shape, sort
        self.name = name
        self.pre = None
        self.state = None


_loopid = [0]


def summarize(n, set_target, body, sc, node):
    """for i in range(n): set_target(i); body()   with symbolic n"""
    if Mode.depth > 50:
        raise Unsupported('loop depth')
    _loopid[0] += 1
    lid = _loopid[0]
    i = norm.index('i', 0, n)
    snap = snapshot(sc)
    pre_stores = None
    lists = {}
    for x, vs in snap:
        for name, v in vs.items():
            if isinstance(v, list):
                lists[id(v)] = (x, name, v)
    # iterate to the set of carried locations
    carried_vars = {}
    carried_stores = {}
    saved_ctx = State.ctx
    for attempt in range(6):
        # havoc
        hv = {}
        items = []
        for key, (x, name, v) in carried_vars.items():
            nm = 'hv%d.%d.%s' % (lid, attempt, name)
            if isinstance(v, SArr):
                it = Item('arr', (x, name), v.shape, v.sort, nm)
                x.vars[name] = SArr(ar.Store(v.shape, lambda s, nm=nm, so=v.sort: tm.app(nm, tuple(map(lift, s)), so), v.sort)) if not v.dense else SArr.symbol(nm, v.shape, v.sort)
            else:
                t = lift(v)
                so = carried_sorts.get(key, t.sort)
                it = Item('var', (x, name), (), so, nm)
                x.vars[name] = tm.app(nm, (), so)
            it.pre = v
            items.append(it)
        outer = State.trail
        State.trail = []
        saved = []
        for k, st in carried_stores.items():
            nm = 'hv%d.%d.s%d' % (lid, attempt, len(items))
            if st.tag == 'present!':
                nm = 'present!' + nm
            it = Item('store', st, st.shape, st.sort, nm)
            it.pre = (st.fn, st.data)
            saved.append((st, st.fn, st.data))
            items.append(it)
            if st.data is not None:
                d = np.empty(st.shape, dtype=object)
                for p in np.ndindex(*st.shape):
                    d[p] = tm.app(nm, tuple(map(num, p)), st.sort)
                st.data = d
            else:
                st.fn = lambda s, nm=nm, so=st.sort: tm.app(nm, tuple(map(lift, s)), so)
        havoc_state = {id(st): (st, st.fn, st.data) for st in carried_stores.values()}
        rec = {'lists': lists, 'appends': {}, 'guard': []}
        Mode.loops.append(rec)
        Mode.merge += 1
        OWNED.append(set())
        try:
            set_target(i)
            r = body()
            if r is not None and r[0] != 'continue':
                raise Unsupported('%s inside a loop over a symbolic range' % r[0])
        finally:
            Mode.loops.pop()
            Mode.merge -= 1
            OWNED.pop()
            tr = State.trail
            State.trail = outer
            State.ctx = saved_ctx
        touched = {}
        for st, fn, data in tr:
            touched.setdefault(id(st), st)
        if pre_stores is None:
            pre_stores = reachable_arrays(snap)
        # collect final state
        final_stores = {k: (st, st.fn, st.data) for k, st in touched.items()}
        end_vars = [(x, dict(x.vars)) for x, _ in snap]
        # new carried?
        grown = False
        first_old = {}
        for st, fn, data in tr:
            first_old.setdefault(id(st), (st, fn, data))
        carried_sorts = locals().get('carried_sorts', {})
        for k, st in touched.items():
            if k in pre_stores or k in _allpre(outer):
                if k not in carried_stores:
                    carried_stores[k] = st
                    grown = True
            elif k not in carried_stores and is_old_store(st, snap):
                carried_stores[k] = st
                grown = True
        for (x, old), (_, new) in zip(snap, end_vars):
            for name, v in old.items():
                w = new.get(name, UNDEF)
                key = (id(x), name)
                hvv = None
                if key in carried_vars:
                    so = lift(w).sort if ar.scalar(w) else None
                    if so and key in carried_vars and tm.RANK[so] > tm.RANK[carried_sorts.get(key, lift(v).sort)]:
                        carried_sorts[key] = so
                        grown = True
                    continue
                if w is v:
                    continue
                if ar.scalar(v) and not isinstance(v, str):
                    carried_vars[key] = (x, name, v)
                    if ar.scalar(w):
                        carried_sorts[key] = max(lift(v).sort, lift(w).sort, key=tm.RANK.get)
                    grown = True
                elif isinstance(v, SArr) and isinstance(w, SArr) and len(v.shape) == len(w.shape) and v.ndim >= 0 and all(ar.same(p, q) for p, q in zip(v.shape, w.shape)):
                    carried_vars[key] = (x, name, v)
                    grown = True
                elif isinstance(v, Poison):
                    continue
                else:
                    # overwritten by something else: only allowed if not read before (checked by poisoning)
                    carried_poison = True
                    if not isinstance(x.vars.get(name), Poison):
                        x.vars[name] = v
                    POISONED.setdefault(lid, set()).add(key)
        # restore the state before the loop
        for k, (st, fn, data) in first_old.items():
            st.fn, st.data = fn, data
        for st, fn, data in saved:
            st.fn, st.data = fn, data
        restore(snap)
        if not grown:
            break
    else:
        raise Unsupported('loop summary does not stabilise')
    lo, hi = num(0), lift(n)
    # terms at the end of one iteration
    byname = {it.name: it for it in items}
    solved = {}
    for it in items:
        if it.kind == 'store':
            k = id(it.ref)
            if k in final_stores:
                it.new = final_stores[k]
            else:
                it.new = havoc_state[k]
            st = it.ref
            it.newfn = store_fn(it.new[1], it.new[2], st.shape)
            prefn, predata = it.pre
            it.prefn = store_fn(prefn, predata, st.shape)
        else:
            x, name = it.ref
            w = dict((id(y), vs) for y, vs in end_vars)[id(x)].get(name)
            if it.kind == 'var':
                if not ar.scalar(w):
                    if isinstance(w, SArr) and w.ndim == 0:
                        w = w.item()
                    else:
                        raise Unsupported('loop variable %s changes its type' % name)
                it.newfn = lambda s, w=w: lift(w)
                pre = it.pre
                it.prefn = lambda s, pre=pre, so=it.sort: tm.cast(lift(pre), so)
            else:
                it.newfn = w.getter()
                it.prefn = it.pre.getter()
    solver = Summary(items, byname, i, lo, hi)
    results = []
    for it in items:
        results.append((it, solver.final(it)))
    for it, fn in results:
        if it.kind == 'store':
            st = it.ref
            st.log()
            if st.readonly:
                raise ar.Mutation(st.tag)
            if st.data is not None:
                d = np.empty(st.shape, dtype=object)
                for p in np.ndindex(*st.shape):
                    d[p] = ar.storecast(fn(tuple(map(num, p))), st.sort)
                st.data = d
            else:
                st.fn = ar.memoise(fn)
        else:
            x, name = it.ref
            if it.kind == 'var':
                x.vars[name] = ctx().canon(fn(()))
            else:
                x.vars[name] = SArr.build(it.shape, fn, it.sort)
    # variables defined in the body: not determined afterwards unless independent of the loop
    hvnames = set(byname)
    for (x, old), (_, new) in zip(snap, end_vars):
        for name, w in new.items():
            if (id(x), name) in carried_vars:
                continue
            if name in old and old[name] is w:
                continue
            x.vars[name] = last_value(w, i, hi, hvnames, name)
    for key in POISONED.get(lid, ()):
        for x, old in snap:
            for name in old:
                if (id(x), name) == key and isinstance(x.vars.get(name), Poison) is False:
                    pass
    # lists
    for lidk, apps in rec['appends'].items():
        x, name, lst = lists[lidk]
        if len(apps) != 1 or apps[0][1]:
            raise Unsupported('conditional append in a symbolic loop')
        if lst:
            raise Unsupported('append to a non-empty list in a symbolic loop')
        val = apps[0][0]
        if mentions(val, hvnames):
            raise Unsupported('appended value depends on loop-carried state')
        x.vars[name] = SList(n, lambda k, val=val: deep_subst(val, {i: lift(k)}))
    return None


carried_sorts = {}
POISONED = {}


def _allpre(trail):
    return ()


def is_old_store(st, snap):
    """a store created before the loop but not found by reachability is detected by its age"""
    return False


def store_fn(fn, data, shape):
    if data is not None:
        return lambda s: ar.dense_get(data, shape, s)
    return fn


def mentions(v, names):
    if isinstance(v, T):
        return bool(tm.appnames(v) & names)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, names) for x in v)
    if isinstance(v, SArr):
        idx = tuple(norm.index('m', 0, n) for n in v.shape)
        if v.dense and v.store.data is not None:
            return any(mentions(v.at(*map(num, p)), names) for p in np.ndindex(*v.shape))
        return mentions(v.at(*idx), names)
    return False


def last_value(w, i, hi, hvnames, name):
    try:
        if isinstance(w, T):
            if i.key not in tm.free(w) and not mentions(w, hvnames):
                return w
            return Poison(name)
        if isinstance(w, (int, float, complex, str, bool, types.FunctionType, types.ModuleType)) or w is None:
            return w
    except Unsupported:
        pass
    return Poison(name)


class Summary:
    """closed forms of the loop-carried state"""

    def __init__(self, items, byname, i, lo, hi):
        self.items, self.byname = items, byname
        self.i, self.lo, self.hi = i, lo, hi
        self.forms = {}
        self.busy = set()

    def generic(self, it):
        """per-store closed form: function (s, m) -> state of location s at the start of iteration m"""
        if it.name in self.forms:
            return self.forms[it.name]
        if it.name in self.busy:
            raise Unsupported('mutually dependent loop state')
        if it.name.startswith('present!'):
            # nothing but the havocked state is known about the keys after the loop
            _loopid[0] += 1
            name = 'present!%d' % _loopid[0]
            f = self.forms[it.name] = lambda v, m: tm.app(name, tuple(map(lift, v)) + (lift(m),), 'b')
            return f
        self.busy.add(it.name)
        dense = it.shape and all(isinstance(n, int) for n in it.shape) and (it.kind == 'arr' or it.ref.data is not None)
        if not it.shape or not dense:
            s = tuple(tm.fresh('g', 'i') if n is norm.UNBOUNDED else norm.index('g', 0, n) for n in it.shape)
            form = self.solve(it, s)
            f = lambda v, m: form(m, {a: lift(b) for a, b in zip(s, v)})
        else:
            forms = {}

            def f(v, m):
                cs = [conc(ctx().canon(lift(x))) for x in v]
                if any(c is None for c in cs):
                    data = np.empty(it.shape, dtype=object)
                    for p in np.ndindex(*it.shape):
                        data[p] = f(tuple(map(num, p)), m)
                    return ar.dense_get(data, it.shape, v)
                k = tuple(cs)
                if k not in forms:
                    forms[k] = self.solve(it, tuple(map(num, k)))
                return forms[k](m, {})
        self.busy.discard(it.name)
        self.forms[it.name] = f
        return f

    def final(self, it):
        f = self.generic(it)
        return lambda s: f(s, self.hi)

    def leaves(self, t, path):
        """decision tree of conditional terms"""
        t0 = t
        if t.op == 'cast':
            t = t.args[0]
        if t.op == 'ite':
            c, a, b = t.args
            yield from self.leaves(a, path + [c])
            yield from self.leaves(b, path + [tm.not_(c)])
        else:
            yield path, t0

    def foreign(self, t, it):
        """replace other carried locations by their closed form at the start of iteration i"""
        names = tm.appnames(t) & set(self.byname)
        for n in names:
            if n == it.name:
                continue
            g = self.generic(self.byname[n])
            t = tm.replace_apps(t, n, lambda idx, g=g: g(idx, self.i))
        return t

    def solve(self, it, s):
        i, lo, hi = self.i, self.lo, self.hi
        C = ctx()
        t = it.newfn(s)
        t = C.canon(t) if t.sort != 'b' else C.ccond(t)
        h = tm.app(it.name, tuple(map(lift, s)), it.sort)
        hc = C.canon(h) if h.sort != 'b' else h
        pre = lambda m: tm.subst(it.prefn(tuple(tm.subst(lift(x), m) for x in s)), m) if False else it.prefn(tuple(tm.subst(lift(x), m) for x in s))
        if t is hc:
            return lambda m, sub: pre(sub)
        if any(n.startswith('present!') for n in tm.appnames(t)):
            raise Unsupported('outcome depends on the order in which keys are added' + (': ' + tm.show(t, int(__import__('os').environ.get('VERIF_SHOW'))) if __import__('os').environ.get('VERIF_SHOW') else ''))
        t = self.foreign(t, it)
        selfref = it.name in tm.appnames(t)
        if not selfref:
            # overwritten in every iteration
            def f(m, sub):
                last = tm.subst(t, {**sub, i: tm.add(lift(m), num(-1))})
                return ar.lite(tm.lt(lo, lift(m)), lambda: last, lambda: pre(sub))
            return f
        lv = []
        for path, leaf in self.leaves(t, []):
            c = C.ccond(tm.and_(tm.TRUE, *path))
            if c is tm.FALSE:
                continue
            if it.name in tm.appnames(leaf) and len(path) > 1 and C.extend(*path).inconsistent():
                continue
            lv.append((c, leaf))
        if lv and not any(it.name in tm.appnames(x) for cl in lv for x in cl):
            # overwritten in every iteration (the leaves that keep the old value are infeasible)
            w = lv[-1][1]
            for c, leaf in reversed(lv[:-1]):
                w = tm.ite(c, leaf, w)

            def f(m, sub):
                last = tm.subst(w, {**sub, i: tm.add(lift(m), num(-1))})
                return ar.lite(tm.lt(lo, lift(m)), lambda: last, lambda: pre(sub))
            return f
        # classify
        acc, over = [], []

        def classify(c, leaf, depth, acc, over):
            """split by conditions inside the leaf only where this separates additions from other updates"""
            if it.name in tm.appnames(c):
                raise Unsupported('loop condition depends on the carried state of %s' % it.name)
            if leaf.sort != 'b':
                d = C.canon(tm.add(leaf, tm.neg(h)))
                if it.name in tm.appnames(d) and c is not tm.TRUE:
                    d = C.extend(c).canon(tm.add(leaf, tm.neg(h)))
                if it.name in tm.appnames(d) and depth < 4:
                    k = C.find_cond(C.extend(c).norm(tm.add(leaf, tm.neg(h))))
                    if k is not None and it.name not in tm.appnames(k):
                        a, o, idle = [], [], False
                        for e, val in (k, True), (tm.not_(k), False):
                            ce = C.ccond(tm.and_(c, e))
                            if ce is not tm.FALSE and not C.extend(ce).inconsistent():
                                n = len(a) + len(o)
                                classify(ce, norm.assume_cond(leaf, k, val), depth + 1, a, o)
                                idle |= n == len(a) + len(o)
                        if a or idle or depth or any(it.name not in tm.appnames(x) for _, x in o):
                            acc += a
                            over += o
                            return
                if it.name not in tm.appnames(d):
                    if not (d.op == 'num' and d.args[0] == 0):
                        acc.append((c, d))
                    return
            elif leaf is hc:
                return
            over.append((c, leaf))

        for c, leaf in lv:
            classify(c, leaf, 0, acc, over)
        if not over:
            body = tm.add(*[tm.ite(c, d, num(0)) for c, d in acc])

            def f(m, sub):
                v = norm.index('s', lo, m)
                return tm.add(pre(sub), tm.Sum(v, lo, lift(m), tm.subst(body, {**sub, i: v})))
            return f
        # each location written in at most one iteration
        star = None
        ok = True
        for c, leaf in over + acc:
            sol = self.solve_index(c)
            if sol is None or star is not None and C.canon(sol) is not C.canon(star):
                ok = False
                break
            star = sol
        if not ok:
            # alternative solutions of the same conditions
            for cand in {s_.key: s_ for c, leaf in over + acc for s_ in self.index_solutions(c)}.values():
                if all(any(C.canon(s_) is C.canon(cand) for s_ in self.index_solutions(c))
                       or C.extend(c).equal(i, cand)[0] for c, leaf in over + acc):
                    star, ok = cand, True
                    break
        if ok:
            st = C.canon(star)
            # recurrence: value refers to another location of the same store
            refs = set()
            for c, leaf in over:
                for x in tm.subterms(leaf, lambda x: x.op == 'app' and x.args[0] == it.name):
                    if x is not h and x is not hc:
                        refs.add(x)
            if refs and all(self.unwritten(x, c, s, st) for c, leaf in over
                            for x in tm.subterms(leaf, lambda x: x.op == 'app' and x.args[0] == it.name) if x is not h and x is not hc):
                # values read at locations that no earlier iteration has written
                def f(m, sub):
                    ms = C.canon(tm.subst(star, sub))
                    val = tm.subst(t, {**sub, i: ms})
                    val = tm.replace_apps(val, it.name, it.prefn)
                    return ar.lite(tm.and_(tm.le(lo, ms), tm.lt(ms, lift(m))), lambda: val, lambda: pre(sub))
                return f
            if refs:
                return self.recurrence(it, s, t, star, refs, over, acc, pre)
            def f(m, sub):
                ms = C.canon(tm.subst(star, sub)) if True else None
                val = tm.subst(t, {**sub, i: ms})
                val = tm.replace_apps(val, it.name, lambda idx: pre(sub))
                return ar.lite(tm.and_(tm.le(lo, ms), tm.lt(ms, lift(m))), lambda: val, lambda: pre(sub))
            return f
        # overwritten with values independent of the carried state where the condition does not
        # depend on the iteration: the last iteration counts
        if not acc and all(i.key not in tm.free(c) for c, _ in over) and all(it.name not in tm.appnames(l) for _, l in over):
            def f(m, sub):
                val = tm.subst(t, {**sub, i: tm.add(lift(m), num(-1))})
                val = tm.replace_apps(val, it.name, lambda idx: pre(sub))
                return ar.lite(tm.lt(lo, lift(m)), lambda: val, lambda: pre(sub))
            return f
        if self.exclusive(it, h, hc, acc, over):
            # no location is written twice
            def f(m, sub):
                old = pre(sub)
                v = norm.index('s', lo, m)
                put = lambda x: tm.subst(tm.replace_apps(x, it.name, lambda idx: old), {**sub, i: v})
                return tm.add(old, *[tm.Sum(v, lo, lift(m), tm.ite(tm.subst(c, {**sub, i: v}), tm.add(put(leaf), tm.neg(old)), num(0))) for c, leaf in over])
            return f
        f = self.twice(it, s, t, over + acc, pre)
        if f is not None:
            return f
        # general recurrences: out of reach
        raise Unsupported('loop effect on %s not in closed form: %s' % (it.name, tm.show(t, int(__import__('os').environ.get('VERIF_SHOW', 6)))[:20000]))

    def twice(self, it, s, t, parts, pre):
        """each location is updated, from its own value, in at most two iterations (a row and a column, say)"""
        C = ctx()
        i, lo = self.i, self.lo
        points = []
        for c, leaf in parts:
            p = self.solve_index(c)
            if p is None:
                return None
            p = C.canon(p)
            if not any(p is q for q in points):
                points.append(p)
        if len(points) != 2 or it.sort == 'b' or not self.own(it, s, t, []):
            return None
        x = tm.fresh('x', it.sort)

        def F(p, old, sub):
            return tm.replace_apps(tm.subst(t, {**sub, i: p}), it.name, lambda idx: old)
        p, q = points
        order = C.extend(tm.not_(tm.eq(p, q)))
        free = order.canon(F(p, F(q, x, {}), {})) is order.canon(F(q, F(p, x, {}), {}))

        def f(m, sub):
            p, q = [C.canon(tm.subst(r, sub)) for r in points]
            inp, inq = [tm.and_(tm.le(lo, r), tm.lt(r, lift(m))) for r in (p, q)]

            def go(a, ina, b, inb):
                first = ar.lite(ina, lambda: F(a, pre(sub), sub), lambda: pre(sub))
                return ar.lite(tm.and_(inb, tm.not_(tm.eq(a, b))), lambda: F(b, first, sub), lambda: first)
            if free:
                return go(p, inp, q, inq)
            return ar.lite(tm.le(p, q), lambda: go(p, inp, q, inq), lambda: go(q, inq, p, inp))
        return f

    def own(self, it, s, t, path):
        """does t use no location of the store except s?"""
        if it.name not in tm.appnames(t):
            return True
        if t.op == 'ite':
            c, a, b = t.args
            if not self.own(it, s, c, path):
                return False
            for e, x in (c, a), (tm.not_(c), b):
                if it.name in tm.appnames(x) and not ctx().extend(*path, e).inconsistent() and not self.own(it, s, x, path + [e]):
                    return False
            return True
        if t.op == 'app' and t.args[0] == it.name:
            C = ctx().extend(*path) if path else ctx()
            return all(a is lift(b) or C.equal(a, lift(b))[0] for a, b in zip(t.args[1:], s))
        return all(self.own(it, s, x, path) for x in t.args if isinstance(x, T))

    def exclusive(self, it, h, hc, acc, over):
        """is each location written in at most one iteration?"""
        if acc or it.sort == 'b':
            return False
        for c, leaf in over:
            if any(x is not h and x is not hc for x in tm.subterms(leaf, lambda x: x.op == 'app' and x.args[0] == it.name)):
                return False
        C = ctx()
        conds = []
        for c, leaf in over:
            got = self.supports(C.extend(c).norm(tm.add(leaf, tm.neg(h))), 3)
            conds += [(c, [])] if got is None else [(C.ccond(tm.and_(c, e)), vs) for e, vs in got]
        conds = [(self.blocks(c), vs) for c, vs in conds]
        j = norm.index('w', self.lo, self.hi)
        for n, (a, _) in enumerate(conds):
            for b, vs in conds[:n + 1]:
                # independent copies of inner indices
                sub = {self.i: j}
                for v, lo, hi in vs:
                    sub[v] = norm.index('w', tm.subst(lo, sub), tm.subst(hi, sub))
                for e in tm.lt(self.i, j), tm.lt(j, self.i):
                    if not C.extend(e, a, tm.subst(b, sub)).inconsistent():
                        return False
        return True

    def supports(self, p, depth):
        """conditions (with inner indices) one of which is fulfilled where the polynomial does not vanish"""
        out = []
        for m in p:
            best = None
            for k, e in m:
                a = norm.ATOM[k]
                got = None
                if a.op == 'ite':
                    c, x, y = a.args
                    if y.op == 'num' and y.args[0] == 0:
                        got = [(c, [])]
                    elif x.op == 'num' and x.args[0] == 0:
                        got = [(tm.not_(c), [])]
                elif a.op == 'sum' and depth:
                    v, lo, hi, body = a.args
                    w = norm.index('w', lo, hi)
                    got = self.supports(ctx().norm(tm.subst(body, {v: w})), depth - 1)
                    if got is not None:
                        got = [(c, [(w, lo, hi)] + vs) for c, vs in got]
                if got is not None and (best is None or len(got) < len(best)):
                    best = got
            if best is None:
                return None
            for c, vs in best:
                if not any(c is d for d, _ in out):
                    out.append((c, vs))
        return out

    def blocks(self, c):
        """add x = s // b to 0 <= s - x * b < b for opaque integers x that depend on the iteration"""
        C = ctx()
        out = [c]
        for x in tm.subterms(c, lambda x: x.op == 'app' and x.sort == 'i' and self.i.key in tm.free(x)):
            w = tm.fresh('w', 'i')
            r = self.solve_index(tm.replace_apps(c, x.args[0], lambda a, x=x, w=w: w if all(p is q for p, q in zip(a, x.args[1:])) else tm.app(x.args[0], a, 'i')), w)
            if r is not None:
                out.append(tm.eq(x, r))
        return tm.and_(*out)

    def unwritten(self, x, c, s, star):
        """is the location x, read in this iteration, written in this iteration or later only?"""
        if not all(a.op == 'sym' for a in s):
            return False
        other = tm.subst(star, dict(zip(s, x.args[1:])))
        return ctx().extend(c).entails(tm.le(self.i, other))

    def index_solutions(self, c):
        C = ctx()
        r = [norm.solve_eq(C, e, self.i) for e in (c.args if c.op == 'and' else [c])]
        return [x for x in r if x is not None]

    def solve_index(self, c, i=None):
        i = self.i if i is None else i
        C = ctx()
        conj = list(c.args) if c.op == 'and' else [c]
        for e in conj:
            r = norm.solve_eq(C, e, i)
            if r is not None:
                return r
        return norm.solve_block(C, conj, i)

    def recurrence(self, it, s, t, star, refs, over, acc, pre):
        """a[k+1] = a[k] + t(k)"""
        C = ctx()
        i, lo, hi = self.i, self.lo, self.hi
        if len(s) != 1 or len(refs) != 1 or acc or len(over) != 1:
            raise Unsupported('recurrence')
        ref = refs.pop()
        cnd, leaf = over[0]
        # location written in iteration i: s = i + d ; location read: r(i)
        d = C.canon(tm.add(s[0], tm.neg(star)))
        if i.key in tm.free(d) or tm.free(s[0]) & tm.free(d) and conc(d) is None:
            raise Unsupported('recurrence offset')
        inc = C.canon(tm.add(leaf, tm.neg(ref)))
        if it.name in tm.appnames(inc):
            raise Unsupported('non-additive recurrence')
        # express at iteration i: written location
        wloc = C.canon(tm.add(i, d))
        rloc = C.canon(tm.subst(ref.args[1], {s[0]: wloc}) if s[0].op == 'sym' else ref.args[1])
        if C.canon(tm.add(wloc, num(-1))) is not rloc:
            raise Unsupported('recurrence of this shape')
        incs = tm.subst(inc, {s[0]: wloc}) if s[0].op == 'sym' else inc
        if s[0].op == 'sym' and s[0].key in tm.free(incs):
            raise Unsupported('recurrence increment')

        def f(m, sub):
            loc = tm.subst(s[0], sub)
            ms = C.canon(tm.subst(star, sub))
            base = it.prefn((C.canon(tm.add(d, lo, num(-1))),))
            v = norm.index('s', lo, tm.add(ms, num(1)))
            val = tm.add(base, tm.Sum(v, lo, tm.add(ms, num(1)), tm.subst(incs, {i: v})))
            return ar.lite(tm.and_(tm.le(lo, ms), tm.lt(ms, lift(m))), lambda: val, lambda: pre(sub))
        return f


# -- expressions --------------------------------------------------------------------------------

def ev(e, sc):
    return EV[type(e)](e, sc)


def ev_const(e, sc):
    v = e.value
    if isinstance(v, float):
        return num(Fraction(repr(v)), 'r')
    if isinstance(v, complex):
        return tm.mul(num(Fraction(repr(v.imag))) if v.imag != 1 else num(1), tm.I) if v.real == 0 else lift(v)
    return v


def ev_name(e, sc):
    return getvar(sc, e.id)


_OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.BitXor: lambda a, b: a ^ b, ast.MatMult: lambda a, b: a @ b, ast.LShift: lambda a, b: a << b,
    ast.RShift: lambda a, b: a >> b,
}


def plain_number(x):
    return isinstance(x, (int, float, complex, np.number)) and not isinstance(x, np.bool_)


def ev_binop(op, a, b):
    t = type(op)
    if plain_number(a) and plain_number(b):
        ints = isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))
        if not (ints and t not in (ast.Div, ast.Pow) or ints and t is ast.Pow and b >= 0):
            a, b = lift(a), lift(b)
            if t is ast.Div and b.op == 'num' and b.args[0] == 0:
                raise ZeroDivisionError
    if isinstance(a, SList) and isinstance(b, SArr):
        a = a.symlist()
    if isinstance(b, SList) and isinstance(a, (SArr, T)):
        b = b.symlist()
    if isinstance(a, np.ndarray) and (plain_number(b) or isinstance(b, (T, SArr))) or isinstance(b, np.ndarray) and (plain_number(a) or isinstance(a, (T, SArr))) or isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        a = asarr(a) if isinstance(a, np.ndarray) else a
        b = asarr(b) if isinstance(b, np.ndarray) else b
    if t is ast.Mult and (isinstance(a, (list, tuple, str)) and isinstance(b, T) or isinstance(b, (list, tuple, str)) and isinstance(a, T)):
        x, n = (b, a) if isinstance(a, T) else (a, b)
        c = conc(ctx().canon(n))
        if c is None and isinstance(x, list) and len(x) == 1:
            return SList(dim(npmod.u_max(ctx().canon(n), num(0))), lambda i: x[0])
        a, b = x, c
        if c is None:
            raise Unsupported('list repetition with a symbolic count')
    if t is ast.Mod and isinstance(a, str):
        return 'formatted' if issym(b) else a % b
    if isinstance(a, (set, frozenset)) and t is not ast.BitOr and (issym(a) or issym(b)):
        raise Unsupported('operation on a set of symbolic values')
    if isinstance(a, SList) and t is ast.Add:
        raise Unsupported('list concatenation with symbolic length')
    r = _OPS[t](a, b)
    return r


def ev_BinOp(e, sc):
    return ev_binop(e.op, ev(e.left, sc), ev(e.right, sc))


def ev_UnaryOp(e, sc):
    v = ev(e.operand, sc)
    if isinstance(e.op, ast.Not):
        c = cond(v)
        return (not c) if isinstance(c, bool) else tm.not_(c)
    if isinstance(v, np.ndarray):
        v = asarr(v)
    if isinstance(e.op, ast.USub):
        if isinstance(v, bool):
            v = int(v)
        return -v
    if isinstance(e.op, ast.Invert):
        return ~v
    return v


def ev_BoolOp(e, sc):
    isand = isinstance(e.op, ast.And)
    acc = None
    last = None
    for k, x in enumerate(e.values):
        if acc is not None:
            # later operands are evaluated under the earlier ones
            saved = State.ctx
            g = acc if isand else tm.not_(acc)
            State.ctx = saved.extend(g)
            try:
                if State.ctx.inconsistent():
                    break
                v = ev(x, sc)
                c = cond(v)
            finally:
                State.ctx = saved
        else:
            v = ev(x, sc)
            c = None
            if k == len(e.values) - 1:
                return v
            c = cond(v)
        if isinstance(c, bool):
            if acc is None:
                if c is not isand:
                    return v
                last = v
                continue
            if c is not isand:
                return tm.FALSE if isand else tm.TRUE
            continue
        acc = c if acc is None else (tm.and_(acc, c) if isand else tm.or_(acc, c))
    if acc is None:
        return last
    return acc


def ev_compare(op, a, b):
    t = type(op)
    if t is ast.Is:
        return a is b or (isinstance(a, Func) and isinstance(b, Func) and a.qual is not None and a.qual == b.qual)
    if t is ast.IsNot:
        return not ev_compare(ast.Is(), a, b)
    if t in (ast.In, ast.NotIn):
        r = contains(b, a)
        if t is ast.NotIn:
            return (not r) if isinstance(r, bool) else tm.not_(r)
        return r
    if isinstance(a, np.ndarray) and issym(b):
        a = asarr(a)
    if isinstance(b, np.ndarray) and issym(a):
        b = asarr(b)
    if isinstance(a, SArr) and isinstance(b, (list, tuple)):
        b = asarr(b)
    if isinstance(b, SArr) and isinstance(a, (list, tuple)):
        a = asarr(a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (issym(a) or issym(b)):
        if t in (ast.Eq, ast.NotEq):
            r = tuple_eq(a, b)
            return r if t is ast.Eq else ((not r) if isinstance(r, bool) else tm.not_(r))
        return lex(t, list(a), list(b))
    if isinstance(a, (set, frozenset)) and (issym(a) or issym(b)):
        raise Unsupported('comparison of sets of symbolic values')
    if t is ast.Eq:
        if isinstance(a, (T, SArr)) and (b is None or isinstance(b, str)):
            return False
        return a == b
    if t is ast.NotEq:
        if isinstance(a, (T, SArr)) and (b is None or isinstance(b, str)):
            return True
        return a != b
    if t is ast.Lt:
        return a < b
    if t is ast.LtE:
        return a <= b
    if t is ast.Gt:
        return a > b
    if t is ast.GtE:
        return a >= b
    raise Unsupported('comparison')


def tuple_eq(a, b):
    if len(a) != len(b) or type(a) is not type(b):
        return False
    r = tm.TRUE
    for x, y in zip(a, b):
        c = ev_compare(ast.Eq(), x, y)
        c = cond(c) if not isinstance(c, bool) else c
        if c is False:
            return False
        if c is not True:
            r = tm.and_(r, c)
    return True if r is tm.TRUE else r


def lex(t, a, b):
    if not a or not b:
        return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[t]
    strict = ast.Lt if t in (ast.Lt, ast.LtE) else ast.Gt
    c1 = cond(ev_compare(strict(), a[0], b[0]))
    if c1 is True:
        return True
    c2 = cond(ev_compare(ast.Eq(), a[0], b[0]))
    if c2 is False:
        return c1
    r = lex(t, a[1:], b[1:])
    return tm.or_(lift(c1), tm.and_(lift(c2), lift(r)))


def contains(b, a):
    if isinstance(b, SDict) and b.wants(a):
        return b.has(a)
    if isinstance(b, (list, tuple)) and (issym(a) or issym(b)):
        r = tm.FALSE
        for x in b:
            c = cond(ev_compare(ast.Eq(), x, a))
            if c is True:
                return True
            if c is not False:
                r = tm.or_(r, c)
        return False if r is tm.FALSE else r
    if isinstance(b, (set, frozenset)) and (issym(a) or issym(b)):
        if a in b:
            return True
        r = []
        for x in sorted(b, key=str):
            c = cond(ev_compare(ast.Eq(), x, a))
            if c is True:
                return True
            if c is not False:
                r.append(c)
        if not Mode.merge and len(r) > 1:
            # one path per element
            return any(branch(c) for c in r)
        return tm.or_(*r) if r else False
    if isinstance(b, SymIter):
        v = norm.index('x', 0, b.n)
        c = cond(ev_compare(ast.Eq(), b.item(v), a))
        return tm.exists(v, num(0), lift(b.n), lift(c))
    if isinstance(b, SArr):
        return npmod.red_any(b == a)
    return a in b


def ev_Compare(e, sc):
    a = ev(e.left, sc)
    r = None
    for op, x in zip(e.ops, e.comparators):
        b = ev(x, sc)
        c = ev_compare(op, a, b)
        if len(e.ops) == 1:
            return c
        c = cond(c)
        if c is False:
            return False
        if c is not True:
            r = c if r is None else tm.and_(r, c)
        a = b
    return True if r is None else r


def ev_IfExp(e, sc):
    c = cond(ev(e.test, sc))
    if isinstance(c, bool):
        return ev(e.body if c else e.orelse, sc)
    if not Mode.merge:
        # try to merge, otherwise fork
        try:
            return _ifexp_merge(c, e, sc)
        except MergeFail:
            return ev(e.body if branch(c) else e.orelse, sc)
    return _ifexp_merge(c, e, sc)


def _ifexp_merge(c, e, sc):
    saved = State.ctx
    Mode.merge += 1
    try:
        State.ctx = saved.extend(c)
        a = None if State.ctx.inconsistent() else ev(e.body, sc)
        da = State.ctx.inconsistent()
        State.ctx = saved.extend(tm.not_(c))
        db = State.ctx.inconsistent()
        b = None if db else ev(e.orelse, sc)
    finally:
        State.ctx = saved
        Mode.merge -= 1
    if da:
        return b
    if db:
        return a
    return merge_value(c, a, b)


def ev_Call(e, sc):
    f = ev(e.func, sc)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = as_iter(ev(a.value, sc))
            if isinstance(v, SymIter):
                raise Unsupported('star argument of symbolic length')
            args.extend(v)
        else:
            args.append(ev(a, sc))
    kwargs = {}
    for k in e.keywords:
        v = ev(k.value, sc)
        if k.arg is None:
            kwargs.update(v)
        else:
            kwargs[k.arg] = v
    if f is super or (isinstance(e.func, ast.Name) and e.func.id == 'super'):
        raise Unsupported('super')
    return call(f, tuple(args), kwargs)


def ev_Attribute(e, sc):
    o = ev(e.value, sc)
    return get_attr(o, e.attr)


def get_attr(o, name):
    if o is np or isinstance(o, types.ModuleType) and o.__name__ == 'math':
        if name == 'pi':
            return tm.PI
        if name == 'inf':
            return tm.INF
    if isinstance(o, types.ModuleType):
        return globalval(getattr(o, name))
    if mpi.ACTIVE[0] is not None and o is mpi.WORLD[0]:
        o = mpi.ACTIVE[0]
    if isinstance(o, np.ndarray) and name not in ('shape', 'ndim', 'size', 'dtype', 'T'):
        return getattr(asarr(o), name)
    if isinstance(o, SymIter) and not isinstance(o, SList):
        raise Unsupported('attribute of a symbolic iterable')
    if isinstance(o, list) and name == 'append' and Mode.loops and id(o) in Mode.loops[-1]['lists']:
        return o.append
    v = getattr(o, name)
    if type(v) is float:
        return lift(v)
    return v


def get_item(o, k):
    if isinstance(o, (list, tuple, str)):
        if isinstance(k, SArr) and k.ndim == 0:
            k = k.item()
        if isinstance(k, slice):
            k = slice(*[conc(ctx().canon(x)) if isinstance(x, T) else x for x in (k.start, k.stop, k.step)])
            return o[k]
        if isinstance(k, T):
            c = conc(ctx().canon(k))
            if c is None:
                r = None
                for j, x in enumerate(o):
                    r = x if r is None else merge_value(tm.eq(k, num(j)), x, r)
                return r
            k = c
        return o[k]
    if isinstance(o, SDict) and o.wants(k):
        return o.take(k)
    if isinstance(o, dict):
        if isinstance(k, T) and k.op == 'num':
            k = int(k)
        return o[k]
    if isinstance(o, np.ndarray):
        if issym(k):
            return asarr(o)[k]
        r = o[k]
        return r
    if isinstance(o, T):
        raise IndexError('scalar indexed')
    if o is np.mgrid and issym(k):
        return meshgrid(k)
    return o[k]


def meshgrid(k):
    """np.mgrid for slices with step 1"""
    k = k if isinstance(k, tuple) else (k,)
    lows = [lift(0 if x.start is None else x.start) for x in k]
    if len(k) < 2 or any(x.step is not None for x in k) or any(lift(y).sort != 'i' for x in k for y in (x.stop, x.start or 0)):
        raise Unsupported('np.mgrid with these slices')
    shape = [dim(npmod.u_max(ctx().canon(tm.add(lift(x.stop), tm.neg(lo))), num(0))) for x, lo in zip(k, lows)]

    def fn(v):
        j = conc(ctx().canon(lift(v[0])))
        vals = [tm.add(lo, lift(x)) for lo, x in zip(lows, v[1:])]
        if j is not None:
            return vals[j]
        r = vals[-1]
        for n in range(len(vals) - 2, -1, -1):
            r = tm.ite(tm.eq(lift(v[0]), num(n)), vals[n], r)
        return r
    return SArr.build((len(k), *shape), fn, 'i')


def ev_Subscript(e, sc):
    return get_item(ev(e.value, sc), ev(e.slice, sc))


def ev_Slice(e, sc):
    f = lambda x: None if x is None else ev(x, sc)
    r = [f(e.lower), f(e.upper), f(e.step)]
    r = [x.item() if isinstance(x, SArr) else x for x in r]
    return slice(*r)


def _elts(elts, sc):
    out = []
    for x in elts:
        if isinstance(x, ast.Starred):
            v = as_iter(ev(x.value, sc))
            if isinstance(v, SymIter):
                raise Unsupported('star of symbolic length')
            out.extend(v)
        else:
            out.append(ev(x, sc))
    return out


def ev_Tuple(e, sc):
    return tuple(_elts(e.elts, sc))


def ev_List(e, sc):
    r = _elts(e.elts, sc)
    if OWNED:
        OWNED[-1].add(id(r))
        KEEP.append(r)
    return r


KEEP = []


def ev_Set(e, sc):
    return set(_elts(e.elts, sc))


def ev_Dict(e, sc):
    out = SDict()
    for k, v in zip(e.keys, e.values):
        if k is None:
            out.update(ev(v, sc))
        else:
            out[ev(k, sc)] = ev(v, sc)
    if OWNED:
        OWNED[-1].add(id(out))
        KEEP.append(out)
    return out


def comp(e, sc, elt):
    inner = Scope(sc, sc.globals)

    def go(k):
        """list, or SList"""
        if k == len(e.generators):
            return [elt(inner)]
        g = e.generators[k]
        it = as_iter(ev(g.iter, inner))
        if isinstance(it, SymNd):
            raise Unsupported('comprehension over symbolic ndindex')
        if isinstance(it, SymIter):
            i = norm.index('c', 0, it.n)
            Mode.merge += 1
            OWNED.append(set())
            keep = tm.TRUE
            saved = State.ctx
            try:
                assign(g.target, it.item(i), inner)
                for c in g.ifs:
                    v = cond(ev(c, inner))
                    if v is False:
                        keep = tm.FALSE
                        break
                    if v is not True:
                        keep = tm.and_(keep, v)
                        State.ctx = State.ctx.extend(v)
                if keep is tm.FALSE:
                    return []
                sub = go(k + 1)
            finally:
                State.ctx = saved
                Mode.merge -= 1
                OWNED.pop()
            n = it.n
            position = lift
            if keep is not tm.TRUE and isinstance(sub, list):
                n, position = norm.filtered(n, i, keep)
            if isinstance(sub, list):
                m = len(sub)
                if m == 0:
                    return []
                if m == 1:
                    if keep is not tm.TRUE:
                        return FList(it.n, lambda j, v=sub[0]: deep_subst(v, {i: lift(j)}), lambda j: tm.subst(keep, {i: lift(j)}))
                    return SList(it.n, lambda j, v=sub[0]: deep_subst(v, {i: lift(j)}))
                m = num(m)

                def item(j, sub=sub):
                    q = ctx().canon(tm.idiv(lift(j), m))
                    r = ctx().canon(tm.mod(lift(j), m))
                    vs = [deep_subst(v, {i: position(q)}) for v in sub]
                    if conc(r) is not None:
                        return vs[conc(r)]
                    x = vs[-1]
                    for z in range(len(sub) - 2, -1, -1):
                        x = merge_value(tm.eq(r, num(z)), vs[z], x)
                    return x
                return SList(dim(lift(n) * len(sub)), item)
            if isinstance(sub, FList):
                m, one, only = sub.base
            else:
                m, one, only = sub.n, sub.item, None
            if isinstance(m, T) and i.key in tm.free(m):
                raise Unsupported('ragged comprehension')

            def split(j):
                return ctx().canon(tm.idiv(lift(j), lift(m))), ctx().canon(tm.mod(lift(j), lift(m)))

            def item2(j):
                q, r = split(j)
                return deep_subst(one(r), {i: q})

            def cond2(j):
                q, r = split(j)
                c = keep if only is None else tm.and_(keep, only(r))
                return tm.subst(c, {i: q})
            if keep is tm.TRUE and only is None:
                return SList(dim(it.n * m), item2)
            return FList(dim(it.n * m), item2, cond2)
        out = []
        symb = None
        for v in it:
            assign(g.target, v, inner)
            ok = True
            for c in g.ifs:
                if not truth(ev(c, inner)):
                    ok = False
                    break
            if ok:
                r = go(k + 1)
                if not isinstance(r, list):
                    raise Unsupported('nested symbolic comprehension')
                out.extend(r)
        return out
    return go(0)


def ev_ListComp(e, sc):
    r = comp(e, sc, lambda s: ev(e.elt, s))
    if OWNED and isinstance(r, list):
        OWNED[-1].add(id(r))
        KEEP.append(r)
    return r


def ev_GeneratorExp(e, sc):
    return comp(e, sc, lambda s: ev(e.elt, s))


def ev_SetComp(e, sc):
    r = comp(e, sc, lambda s: ev(e.elt, s))
    if not isinstance(r, list):
        raise Unsupported('symbolic set')
    return set(r)


def ev_DictComp(e, sc):
    r = comp(e, sc, lambda s: (ev(e.key, s), ev(e.value, s)))
    if not isinstance(r, list):
        raise Unsupported('symbolic dict')
    return dict(r)


def ev_Lambda(e, sc):
    return Func(e, sc, sc.globals, '<lambda>', [ev(x, sc) for x in e.args.defaults], {}, None)


def ev_JoinedStr(e, sc):
    return 'formatted'


def ev_Starred(e, sc):
    raise Unsupported('starred expression')


def ev_NamedExpr(e, sc):
    v = ev(e.value, sc)
    assign(e.target, v, sc)
    return v


EV = {
    ast.Constant: ev_const, ast.Name: ev_name, ast.BinOp: ev_BinOp, ast.UnaryOp: ev_UnaryOp,
    ast.BoolOp: ev_BoolOp, ast.Compare: ev_Compare, ast.IfExp: ev_IfExp, ast.Call: ev_Call,
    ast.Attribute: ev_Attribute, ast.Subscript: ev_Subscript, ast.Slice: ev_Slice, ast.Tuple: ev_Tuple,
    ast.List: ev_List, ast.Set: ev_Set, ast.Dict: ev_Dict, ast.ListComp: ev_ListComp,
    ast.GeneratorExp: ev_GeneratorExp, ast.SetComp: ev_SetComp, ast.DictComp: ev_DictComp,
    ast.Lambda: ev_Lambda, ast.JoinedStr: ev_JoinedStr, ast.Starred: ev_Starred, ast.NamedExpr: ev_NamedExpr,
}


# -- contracts of callees that are the same everywhere ----------------------------------------------

class Dummy:
    def __init__(self, *a, **k):
        pass

    def update(self, *a):
        pass

    update.engine_ok = True


def _info(message, error=False, comm=None):
    if error is True or error is not False and truth(error):
        raise Raised(SystemExit(message if isinstance(message, str) else 'error'))


CONTRACTS['elphmod.MPI.info'] = _info
CONTRACTS['elphmod.misc.StatusBar'] = Dummy
