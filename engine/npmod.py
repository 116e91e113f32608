"""NumPy functions on symbolic arrays (assumed contracts of NumPy, listed in the evidence)."""
from itertools import permutations
import types

import numpy as np

from . import terms as tm
from . import arrays, norm
from .terms import T, num, lift, Unsupported
from .arrays import (State, SArr, Store, Masked, WhereIdx, METHODS, asarr, elementwise, broadcast_shapes,
                     broadcast_getter, dim, dt2sort, same, isone, ctx, conc, storecast, reshape,
                     scalar, DIV, ADD, SUB, MUL, POW, MOD, FLOORDIV, AND, OR)

NPF = {}
USED = set()


def np_(*fs):
    def deco(g):
        for f in fs:
            NPF[f] = g
        return g
    return deco


def method(*names):
    def deco(g):
        for n in names:
            METHODS[n] = g
        return g
    return deco


def out0(a):
    return a.at() if isinstance(a, SArr) and a.ndim == 0 else a


# -- ufuncs ------------------------------------------------------------------------------

def fnu(name, csort=None):
    def f(x):
        x = tm.b2i(x)
        if name == 'exp' and x.op == 'num' and x.args[0] == 0:
            return num(1, 'r')
        return tm.fn(name, x, sort='c' if x.sort == 'c' else 'r')
    return f


def u_sign(x):
    x = tm.b2i(x)
    if x.sort == 'c':
        raise Unsupported('sign of complex')
    return tm.ite(tm.lt(num(0), x), num(1, x.sort), tm.ite(tm.lt(x, num(0)), num(-1, x.sort), num(0, x.sort)))


def u_min(a, b):
    if a is b:
        return a
    return tm.ite(tm.le(a, b), a, b)


def u_max(a, b):
    if a is b:
        return a
    return tm.ite(tm.le(b, a), a, b)


def u_angle(z):
    return tm.fn('arctan2', tm.im(z), tm.re(z))


UFUNCS = {
    np.add: ADD, np.subtract: SUB, np.multiply: MUL, np.divide: DIV, np.true_divide: DIV,
    np.power: POW, np.mod: MOD, np.remainder: MOD, np.floor_divide: FLOORDIV,
    np.negative: tm.neg, np.positive: lambda x: x, np.absolute: tm.absolute, np.conjugate: tm.conj,
    np.sqrt: tm.sqrt, np.exp: fnu('exp'), np.log: fnu('log'), np.sin: fnu('sin'), np.cos: fnu('cos'),
    np.tan: fnu('tan'), np.arctan: fnu('arctan'), np.arccos: fnu('arccos'), np.arcsin: fnu('arcsin'),
    np.sinh: fnu('sinh'), np.cosh: fnu('cosh'), np.tanh: fnu('tanh'), np.cbrt: fnu('cbrt'),
    np.arctan2: lambda a, b: tm.fn('arctan2', a, b), np.square: lambda x: tm.mul(x, x),
    np.sign: u_sign, np.minimum: u_min, np.maximum: u_max, np.rint: lambda x: tm.cast(tm.roundreal(x), 'r'),
    np.floor: lambda x: tm.cast(tm.floorint(x), 'r'),
    np.less: tm.lt, np.less_equal: tm.le, np.greater: lambda a, b: tm.lt(b, a),
    np.greater_equal: lambda a, b: tm.le(b, a), np.equal: tm.eq,
    np.not_equal: lambda a, b: tm.not_(tm.eq(a, b)),
    np.logical_and: lambda a, b: tm.and_(a, b), np.logical_or: lambda a, b: tm.or_(a, b),
    np.logical_not: tm.not_, np.invert: lambda x: tm.not_(x) if x.sort == 'b' else tm.add(tm.neg(x), num(-1)),
    np.bitwise_and: AND, np.bitwise_or: OR, np.isnan: lambda x: tm.FALSE,
    np.copysign: lambda a, b: tm.ite(tm.lt(b, num(0)), tm.neg(tm.absolute(a)), tm.absolute(a)),
    np.divmod: None, np.reciprocal: lambda x: tm.inv(x), np.float_power: POW,
}
try:
    import scipy.special
    UFUNCS[scipy.special.erf] = fnu('erf')
except ImportError:
    pass


def ufunc(u, method_, inputs, kwargs):
    f = UFUNCS.get(u)
    if f is None:
        raise Unsupported('ufunc ' + u.__name__)
    USED.add('numpy.' + u.__name__)
    out = kwargs.pop('out', None)
    kwargs.pop('dtype', None)
    if kwargs and method_ == '__call__':
        raise Unsupported('ufunc keywords')
    if any(isinstance(x, Masked) for x in inputs):
        m = [x for x in inputs if isinstance(x, Masked)][0]
        return m.__array_ufunc__(u, method_, *inputs)
    if method_ == '__call__':
        r = elementwise(f, *inputs)
        if out is not None:
            out[0].assign(r)
            return out[0]
        return r
    if method_ == 'outer':
        a, b = map(asarr, inputs)
        ga, gb = a.getter(), b.getter()
        n = a.ndim
        s = f(probe(a), probe(b)).sort
        return out0(SArr.build(a.shape + b.shape, lambda v: f(ga(v[:n]), gb(v[n:])), s))
    if method_ == 'reduce' and u is np.add:
        return red_sum(inputs[0], kwargs.get('axis', 0))
    raise Unsupported('ufunc method ' + method_)


def probe(a):
    from .arrays import probe_term
    return probe_term(a.sort)


def afunc(func, args, kwargs):
    g = NPF.get(func)
    if g is None:
        raise Unsupported('NumPy function ' + getattr(func, '__name__', str(func)))
    USED.add('numpy.' + getattr(func, '__name__', str(func)))
    return g(*args, **kwargs)


def astype(t, dtype):
    return storecast(t, dt2sort(dtype))


tm.UFUNC = lambda u, m, i, k: ufunc(u, m, i, dict(k))
tm.AFUNC = afunc
tm.ASTYPE = astype


def _install():
    import engine.terms as t
    t.UFUNC, t.AFUNC, t.ASTYPE = tm.UFUNC, tm.AFUNC, tm.ASTYPE


# -- creation -----------------------------------------------------------------------------

def _shape(s):
    if isinstance(s, (SArr, np.ndarray)) and s.ndim:
        s = list(s)
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    if isinstance(s, (SArr, np.ndarray)):
        s = s.item()
    return (dim(s),)


@np_(np.empty)
def empty(shape, dtype=float, order='C'):
    return SArr.uninit(_shape(shape), dt2sort(dtype))


@np_(np.zeros)
def zeros(shape, dtype=float, order='C'):
    s = dt2sort(dtype)
    z = storecast(num(0), s)
    return SArr.build(_shape(shape), lambda v: z, s)


@np_(np.ones)
def ones(shape, dtype=float, order='C'):
    s = dt2sort(dtype)
    z = storecast(num(1), s)
    return SArr.build(_shape(shape), lambda v: z, s)


@np_(np.full)
def full(shape, val, dtype=None):
    val = lift(val)
    s = val.sort if dtype is None else dt2sort(dtype)
    z = storecast(val, s)
    return SArr.build(_shape(shape), lambda v: z, s)


@np_(np.zeros_like)
def zeros_like(a, dtype=None):
    a = asarr(a)
    return zeros(a.shape, dtype=a.dtype if dtype is None else dtype)


@np_(np.ones_like)
def ones_like(a, dtype=None):
    a = asarr(a)
    return ones(a.shape, dtype=a.dtype if dtype is None else dtype)


@np_(np.empty_like)
def empty_like(a, dtype=None):
    a = asarr(a)
    return empty(a.shape, dtype=a.dtype if dtype is None else dtype)


@np_(np.array)
def array(x, dtype=None, copy=True):
    a = asarr(x)
    s = a.sort if dtype is None else dt2sort(dtype)
    g = a.getter()
    return SArr.build(a.shape, g, s)


@np_(np.asarray)
def asarray(x, dtype=None):
    if isinstance(x, SArr) and (dtype is None or dt2sort(dtype) == x.sort):
        return x
    return array(x, dtype)


@np_(np.copy)
def copy(x):
    if x is None:
        return NoneArray()
    return array(x)


class NoneArray:
    """np.array(None)"""


@np_(np.arange)
def arange(*a, dtype=None):
    a = [lift(x) for x in a]
    start, stop, step = (num(0), a[0], num(1)) if len(a) == 1 else (a[0], a[1], num(1)) if len(a) == 2 else a
    if any(x.sort != 'i' for x in (start, stop, step)):
        if not all(x.op == 'num' for x in (start, stop, step)):
            raise Unsupported('arange with symbolic reals')
        n = max(0, -int((start.args[0] - stop.args[0]) // step.args[0]))
    else:
        st = conc(step)
        if st is None:
            raise Unsupported('arange step')
        d = tm.add(stop, tm.neg(start))
        if st != 1:
            d = tm.idiv(tm.add(d, num(st - 1 if st > 0 else st + 1)), num(st))
        n = dim(d)
        if isinstance(n, int):
            n = max(0, n)
        elif not ctx().entails(tm.le(num(0), lift(n))):
            n = dim(tm.ite(tm.lt(lift(n), num(0)), num(0), lift(n)))
    s = 'r' if any(x.sort == 'r' for x in (start, stop, step)) else 'i'
    if dtype is not None:
        s = dt2sort(dtype)
    return SArr.build((n,), lambda v: tm.add(start, tm.mul(step, lift(v[0]))), s)


@np_(np.linspace)
def linspace(a, b, n=50, endpoint=True):
    a, b = lift(a), lift(b)
    n = dim(n)
    d = n - 1 if endpoint else n
    return SArr.build((n,), lambda v: tm.add(a, tm.mul(tm.div(tm.add(b, tm.neg(a)), lift(d)), tm.cast(lift(v[0]), 'r'))) if not (isinstance(n, int) and n == 1) else a, 'r')


@np_(np.eye, np.identity)
def eye(n, dtype=float):
    s = dt2sort(dtype)
    return SArr.build((dim(n), dim(n)), lambda v: tm.ite(tm.eq(lift(v[0]), lift(v[1])), num(1, s), num(0, s)), s)


@np_(np.diag)
def diag(a, k=0):
    a = asarr(a)
    if k:
        raise Unsupported('diag k')
    g = a.getter()
    if a.ndim == 1:
        z = storecast(num(0), a.sort)
        return SArr.build(a.shape * 2, lambda v: tm.ite(tm.eq(lift(v[0]), lift(v[1])), g(v[:1]), z), a.sort)
    return SArr.build(a.shape[:1], lambda v: g((v[0], v[0])), a.sort)


@np_(np.diagonal)
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    g = a.getter()
    n = a.ndim
    axis1 %= n
    axis2 %= n
    rest = [k for k in range(n) if k not in (axis1, axis2)]

    def fn(v):
        s = [None] * n
        for k, x in zip(rest, v):
            s[k] = x
        s[axis1] = s[axis2] = v[-1]
        return g(tuple(s))
    return SArr.build(tuple(a.shape[k] for k in rest) + (a.shape[axis1],), fn, a.sort)


METHODS['diagonal'] = diagonal


# -- shapes -------------------------------------------------------------------------------

@np_(np.reshape)
def np_reshape(a, shape, order='C'):
    return reshape(asarr(a), shape)


@method('ravel', 'flatten')
@np_(np.ravel)
def ravel(a):
    a = asarr(a)
    r = reshape(a, (-1,))
    if r.alias is not None:
        r = r.copy()
    return r


@np_(np.transpose)
def transpose(a, axes=None):
    return asarr(a).transpose(*([] if axes is None else [axes]))


@np_(np.swapaxes)
@method('swapaxes')
def swapaxes(a, i, j):
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return a.transpose(o)


@np_(np.moveaxis)
def moveaxis(a, s, d):
    a = asarr(a)
    s = [s] if isinstance(s, int) else list(s)
    d = [d] if isinstance(d, int) else list(d)
    s = [x % a.ndim for x in s]
    d = [x % a.ndim for x in d]
    order = [k for k in range(a.ndim) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return a.transpose(order)


@np_(np.expand_dims)
def expand_dims(a, axis):
    a = asarr(a)
    k = [slice(None)] * (a.ndim + 1)
    k[axis] = None
    return a[tuple(k)]


@np_(np.squeeze)
@method('squeeze')
def squeeze(a, axis=None):
    return a[tuple(0 if isone(n) else slice(None) for n in a.shape)]


@np_(np.broadcast_to)
def broadcast_to(a, shape):
    a = asarr(a)
    return SArr.build(_shape(shape), broadcast_getter(a, _shape(shape)), a.sort)


@np_(np.ndim)
def ndim(a):
    return asarr(a).ndim


@np_(np.shape)
def shape(a):
    return asarr(a).shape


@np_(np.size)
def size(a):
    return asarr(a).size


@np_(np.tile)
def tile(a, reps):
    a = asarr(a)
    reps = [reps] if scalar(reps) else list(reps)
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    sh = (1,) * (len(reps) - a.ndim) + tuple(a.shape)
    g = broadcast_getter(a, sh) if len(sh) != a.ndim else a.getter()
    off = len(sh) - a.ndim
    reps = [dim(r) for r in reps]

    def fn(v):
        w = []
        for k, (x, n, r) in enumerate(zip(v, sh, reps)):
            w.append(x if isone(r) else num(0) if isone(n) else tm.mod(lift(x), lift(n)))
        return g(tuple(w))
    return SArr.build(tuple(dim(n * r) for n, r in zip(sh, reps)), fn, a.sort)


@np_(np.repeat)
@method('repeat')
def repeat(a, r, axis=None):
    a = asarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    g = a.getter()
    r = dim(r)
    sh = list(a.shape)
    axis %= a.ndim
    sh[axis] = dim(sh[axis] * r)
    return SArr.build(sh, lambda v: g(v[:axis] + (tm.idiv(lift(v[axis]), lift(r)),) + v[axis + 1:]), a.sort)


@np_(np.roll)
def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll without axis')
        axis = 0
    if isinstance(axis, (tuple, list)):
        for s, x in zip(shift if not scalar(shift) else [shift] * len(axis), axis):
            a = roll(a, s, x)
        return a
    shift = lift(shift.item() if isinstance(shift, SArr) else shift)
    g = a.getter()
    axis = int(axis) % a.ndim
    n = lift(a.shape[axis])
    return SArr.build(a.shape, lambda v: g(v[:axis] + (ctx().canon(tm.mod(tm.add(lift(v[axis]), tm.neg(shift)), n)),) + v[axis + 1:]), a.sort)


@np_(np.concatenate)
def concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    axis %= arrs[0].ndim
    gs = [a.getter() for a in arrs]
    offs = [0]
    for a in arrs:
        offs.append(dim(offs[-1] + a.shape[axis]))
    s = max((a.sort for a in arrs), key=tm.RANK.get)
    sh = list(arrs[0].shape)
    sh[axis] = offs[-1]

    def fn(v):
        from .arrays import lite

        def go(j):
            w = lambda: gs[j](v[:axis] + (tm.add(lift(v[axis]), tm.neg(lift(offs[j]))),) + v[axis + 1:])
            if j == len(arrs) - 1:
                return w()
            return lite(tm.lt(lift(v[axis]), lift(offs[j + 1])), w, lambda: go(j + 1))
        return go(0)
    return SArr.build(sh, fn, s)


@np_(np.stack)
def stack(arrs, axis=0):
    a = asarr(list(arrs))
    return moveaxis(a, 0, axis)


@np_(np.append)
def append(a, b, axis=None):
    if axis is None:
        a, b = ravel(asarr(a)), ravel(asarr(b))
        axis = 0
    return concatenate([a, b], axis)


@np_(np.flip)
def flip(a, axis=None):
    a = asarr(a)
    ax = range(a.ndim) if axis is None else [axis] if isinstance(axis, int) else axis
    k = [slice(None)] * a.ndim
    for x in ax:
        k[x] = slice(None, None, -1)
    return a[tuple(k)]


@np_(np.meshgrid)
def meshgrid(*xs, indexing='xy'):
    xs = [asarr(x) for x in xs]
    sh = [x.shape[0] for x in xs]
    if indexing == 'xy' and len(xs) > 1:
        order = [1, 0] + list(range(2, len(xs)))
    else:
        order = list(range(len(xs)))
    out = []
    for k, x in enumerate(xs):
        g = x.getter()
        p = order.index(k)
        out.append(SArr.build([sh[o] for o in order], lambda v, g=g, p=p: g((v[p],)), x.sort))
    return out


# -- reductions -----------------------------------------------------------------------------

def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list, range)):
        return [int(x) % a.ndim for x in axis]
    axis = int(axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    return [axis % a.ndim]


def _reduce(a, axis, f, sort, keepdims=False):
    """f(list of (lo, hi) ranges, body function of reduced indices) -> term"""
    a = asarr(a)
    ax = _axes(a, axis)
    rest = [k for k in range(a.ndim) if k not in ax]
    g = a.getter()
    n = a.ndim

    def fn(v):
        if keepdims:
            v = [v[k] for k in rest]

        def body(idx):
            s = [None] * n
            for k, x in zip(rest, v):
                s[k] = x
            for k, x in zip(ax, idx):
                s[k] = x
            return g(tuple(s))
        return f([a.shape[k] for k in ax], body)
    sh = tuple(1 if k in ax else a.shape[k] for k in range(n)) if keepdims else tuple(a.shape[k] for k in rest)
    return out0(SArr.build(sh, fn, sort))


def sumterm(dims, body):
    """nested Sum"""
    vs = []
    conc_axes = []
    for n in dims:
        if isinstance(n, int):
            conc_axes.append(range(n))
        else:
            conc_axes.append(None)
    idx = [None] * len(dims)

    def go(k):
        if k == len(dims):
            return tm.b2i(body(tuple(idx)))
        if conc_axes[k] is not None:
            out = []
            for i in conc_axes[k]:
                idx[k] = num(i)
                out.append(go(k + 1))
            return tm.add(*out) if out else num(0)
        v = norm.index('s', 0, dims[k])
        idx[k] = v
        return tm.Sum(v, num(0), lift(dims[k]), go(k + 1))
    return go(0)


@np_(np.sum)
@method('sum')
def red_sum(a, axis=None, dtype=None, keepdims=False, out=None):
    if isinstance(a, Masked):
        return a.sum()
    if isinstance(a, types.GeneratorType):
        a = list(a)
    a = asarr(a)
    return _reduce(a, axis, sumterm, 'i' if a.sort == 'b' else a.sort, keepdims)


@np_(np.mean, np.average)
@method('mean')
def mean(a, axis=None, weights=None):
    a = asarr(a)
    if weights is not None:
        w = asarr(weights)
        if w.ndim != a.ndim:
            ax, = _axes(a, axis)
            w = w[tuple(slice(None) if k == ax else None for k in range(a.ndim))]
        return red_sum(a * w, axis) / red_sum(elementwise(lambda x, y: y, a, w), axis)
    n = 1
    for k in _axes(a, axis):
        n = n * a.shape[k]
    return red_sum(a, axis) / n


@np_(np.prod)
@method('prod')
def prod(a, axis=None, dtype=None):
    a = asarr(a)

    def f(dims, body):
        if not all(isinstance(n, int) for n in dims):
            raise Unsupported('product over a symbolic dimension')
        r = num(1)
        for p in np.ndindex(*dims):
            r = tm.mul(r, body(tuple(map(num, p))))
        return r
    if a.ndim == 0:
        return a.at()
    if a.size == 0 if isinstance(a.size, int) else False:
        return num(1)
    s = a.sort if dtype is None else dt2sort(dtype)
    return _reduce(a, axis, f, 'i' if s == 'b' else s)


@np_(np.any)
@method('any')
def red_any(a, axis=None):
    a = asarr(a)
    if a.ndim == 0:
        return tm.cast(a.at(), 'b')

    def f(dims, body):
        def go(k, idx):
            if k == len(dims):
                return tm.cast(body(tuple(idx)), 'b')
            n = dims[k]
            if isinstance(n, int):
                return tm.or_(tm.FALSE, *[go(k + 1, idx + [num(i)]) for i in range(n)])
            v = norm.index('x', 0, n)
            return tm.exists(v, num(0), lift(n), go(k + 1, idx + [v]))
        return go(0, [])
    return _reduce(a, axis, f, 'b')


def instantiate(C, v):
    """facts of the form forall x in lo..hi: P(x), at the index v"""
    for f in list(C.facts):
        if f.op == 'forall':
            w, lo, hi, b = f.args
            if C.entails(tm.le(lo, v)) and C.entails(tm.lt(v, hi)):
                g = C.ccond(tm.subst(b, {w: v}))
                if g is not tm.TRUE:
                    C = C.extend(g)
    return C


def _extremum(a, axis, less):
    a = asarr(a)
    if a.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported('argmax/argmin of more than one dimension')
    n = a.shape[0]
    from . import interp
    if interp.Mode.loops:
        raise Unsupported('argmax/argmin inside a symbolic loop')
    v = norm.index('argx', 0, n)
    C = State.ctx
    j = norm.index('x', 0, n)
    k = norm.index('x', 0, v)
    at = lambda i: a.at(i)
    if a.sort == 'b':
        hit = (lambda t: t) if less is tm.lt else tm.not_
        exists = tm.exists(j, num(0), lift(n), hit(at(j)))
        found = C.ccond(tm.or_(tm.not_(exists), hit(at(v))))
        if found is not tm.TRUE:
            C = C.extend(found)
        C = C.extend(tm.forall(k, num(0), v, tm.not_(hit(at(k)))))
    else:
        C = C.extend(tm.forall(j, num(0), lift(n), tm.not_(less(at(v), at(j)))))
        C = C.extend(tm.forall(k, num(0), v, less(at(k), at(v))))
    State.ctx = instantiate(C, v)
    return v


@np_(np.argmax)
@method('argmax')
def argmax(a, axis=None):
    return _extremum(a, axis, tm.lt)


@np_(np.argmin)
@method('argmin')
def argmin(a, axis=None):
    return _extremum(a, axis, lambda x, y: tm.lt(y, x))


@np_(np.all)
@method('all')
def red_all(a, axis=None):
    a = asarr(a)
    if a.ndim == 0:
        return tm.cast(a.at(), 'b')
    r = red_any(elementwise(lambda x: tm.not_(tm.cast(x, 'b')), a), axis)
    return tm.not_(r) if isinstance(r, T) else ~r


def bounding(name, dims, body):
    """extremum over symbolic dimensions: a new value, bounding all elements and equal to one of them"""
    from . import interp
    if interp.Mode.loops or interp.Mode.merge:
        raise Unsupported(name + ' over a symbolic dimension')
    js = [norm.index('x', 0, n) for n in dims]
    x = body(tuple(js))
    v = tm.fresh(name, x.sort)
    fact, hit = (tm.le(v, x) if name == 'min' else tm.le(x, v)), tm.eq(v, x)
    for j, n in reversed(list(zip(js, dims))):
        fact, hit = tm.forall(j, num(0), lift(n), fact), tm.exists(j, num(0), lift(n), hit)
    State.ctx = State.ctx.extend(fact, hit)
    return v


def _minmax(name, u):
    def red(a, axis=None):
        a = asarr(a)

        def f(dims, body):
            if not all(isinstance(n, int) for n in dims):
                if len(dims) < a.ndim:
                    raise Unsupported(name + ' over one of several symbolic dimensions')
                return bounding(name, dims, body)
            r = None
            for p in np.ndindex(*dims):
                x = body(tuple(map(num, p)))
                r = x if r is None else u(r, x)
            return r
        return _reduce(a, axis, f, a.sort)
    return red


METHODS['min'] = NPF[np.min] = NPF[np.amin] = _minmax('min', u_min)
METHODS['max'] = NPF[np.max] = NPF[np.amax] = _minmax('max', u_max)


@np_(np.ptp)
def ptp(a, axis=None):
    return METHODS['max'](a, axis) - METHODS['min'](a, axis)


@np_(np.cumsum)
@method('cumsum')
def cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis %= a.ndim
    g = a.getter()

    def fn(v):
        c = conc(ctx().canon(lift(v[axis])))
        if c is not None:
            return tm.add(*[g(v[:axis] + (num(i),) + v[axis + 1:]) for i in range(c + 1)])
        w = norm.index('s', 0, tm.add(lift(v[axis]), num(1)))
        return tm.Sum(w, num(0), tm.add(lift(v[axis]), num(1)), g(v[:axis] + (w,) + v[axis + 1:]))
    r = SArr.build(a.shape, fn, 'i' if a.sort == 'b' else a.sort)
    if out is not None:
        out.assign(r)
        return out
    return r


@np_(np.diff)
def diff(a, axis=-1):
    a = asarr(a)
    k1 = [slice(None)] * a.ndim
    k2 = [slice(None)] * a.ndim
    k1[axis] = slice(1, None)
    k2[axis] = slice(None, -1)
    return a[tuple(k1)] - a[tuple(k2)]


@np_(np.trace)
@method('trace')
def trace(a):
    return red_sum(diag(a))


@np_(np.round, np.around)
@method('round')
def round_(a, decimals=0):
    if decimals:
        raise Unsupported('round with decimals')
    return elementwise(lambda x: x if x.sort == 'i' else tm.cast(tm.roundreal(x), 'r'), a)


@np_(np.clip)
@method('clip')
def clip(a, lo, hi):
    return elementwise(lambda x, l, h: u_min(u_max(x, l), h), a, lo, hi)


@np_(np.result_type)
def result_type(*args):
    """element types are the mathematical sorts: booleans, integers, reals, complex numbers"""
    def one(x):
        if isinstance(x, np.dtype) or isinstance(x, type):
            return np.dtype(x)
        if isinstance(x, (SArr, T)):
            return np.dtype(arrays.SORT2DT[x.sort])
        return np.asarray(x).dtype
    return np.result_type(*[one(x) for x in args])


@np_(np.isrealobj)
def isrealobj(a):
    if a is None:
        return True
    return asarr(a).sort != 'c'


@np_(np.iscomplexobj)
def iscomplexobj(a):
    if a is None:
        return False
    return asarr(a).sort == 'c'


@np_(np.real)
def real(a):
    return elementwise(tm.re, a)


@np_(np.imag)
def imag(a):
    return elementwise(tm.im, a)


@np_(np.angle)
def angle(a):
    return elementwise(u_angle, a)


@np_(np.where)
def where(c, a=None, b=None):
    if a is None:
        return WhereIdx(asarr(c))
    return elementwise(lambda c, x, y: tm.ite(c, x, y), c, a, b)


@np_(np.sort)
def sort(a, axis=-1):
    a = asarr(a)
    n = a.shape[axis]
    if not isinstance(n, int) or n > 4:
        raise Unsupported('sort of %s values' % n)
    b = moveaxis(a, axis, -1)
    g = b.getter()

    def fn(v):
        xs = [g(v[:-1] + (num(i),)) for i in range(n)]
        xs = sortnet(xs)
        return xs[conc(lift(v[-1]))]
    if not all(isinstance(m, int) for m in b.shape):
        outs = [SArr.build(b.shape[:-1], lambda v, i=i: sortnet([g(tuple(v) + (num(j),)) for j in range(n)])[i], a.sort) for i in range(n)]
        return stack(outs, axis)
    return moveaxis(SArr.build(b.shape, fn, a.sort), -1, axis)


OPAQUE_SORT = [False]


def opaque_sorted(keys, xs):
    """payloads in the (stable) order of the keys, as uninterpreted functions with defining facts"""
    srt = max((x.sort for x in xs), key=tm.RANK.get)
    xs = [tm.cast(x, srt) for x in xs]
    return [tm.mk('fn', ('sorted%d' % k,) + tuple(tm.cast(y, 'r') for y in keys) + tuple(xs), srt) for k in range(len(xs))]


def sortnet(xs):
    xs = list(xs)
    if OPAQUE_SORT[0] and len(xs) > 1 and any(x.op != 'num' for x in xs):
        return opaque_sorted(xs, xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = u_min(a, b), u_max(a, b)
    return xs


# -- linear algebra ---------------------------------------------------------------------------

@np_(np.dot)
@method('dot')
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(MUL, a, b)
    k = -1 if b.ndim == 1 else -2
    n = a.shape[-1]
    m = b.shape[k]
    if not same(n, m):
        if isinstance(n, int) and isinstance(m, int):
            raise ValueError('shapes not aligned')
        raise Unsupported('dot: shapes')
    if isinstance(m, int):
        n = m
    ga, gb = a.getter(), b.getter()
    na = a.ndim - 1
    s = max(a.sort, b.sort, key=tm.RANK.get)

    def fn(v):
        va, vb = v[:na], v[na:]
        if b.ndim == 1:
            return sumterm([n], lambda i: tm.mul(ga(va + i), gb(i)))
        return sumterm([n], lambda i: tm.mul(ga(va + i), gb(vb[:-1] + i + vb[-1:])))
    sh = a.shape[:-1] + (b.shape[:-1] if b.ndim == 1 else b.shape[:-2] + b.shape[-1:])
    return out0(SArr.build(sh, fn, s))


@np_(np.matmul)
def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    return einsum('...ij,...jk->...ik', a, b)


@np_(np.inner)
def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    raise Unsupported('inner')


@np_(np.outer)
def outer(a, b):
    a, b = ravel(asarr(a)), ravel(asarr(b))
    return ufunc(np.multiply, 'outer', (a, b), {})


@np_(np.tensordot)
def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    ra = [k for k in range(a.ndim) if k not in aa]
    rb = [k for k in range(b.ndim) if k not in bb]
    ga, gb = a.getter(), b.getter()

    def fn(v):
        def body(i):
            sa = [None] * a.ndim
            sb = [None] * b.ndim
            for k, x in zip(ra, v):
                sa[k] = x
            for k, x in zip(rb, v[len(ra):]):
                sb[k] = x
            for k, l, x in zip(aa, bb, i):
                sa[k] = sb[l] = x
            return tm.mul(ga(tuple(sa)), gb(tuple(sb)))
        return sumterm([a.shape[k] for k in aa], body)
    return out0(SArr.build([a.shape[k] for k in ra] + [b.shape[k] for k in rb], fn, max(a.sort, b.sort, key=tm.RANK.get)))


@np_(np.cross)
def cross(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 1 or a.shape != (3,) or b.shape != (3,):
        raise Unsupported('cross')
    x, y = list(a), list(b)
    return asarr([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


@np_(np.einsum)
def einsum(spec, *ops, optimize=None):
    if not isinstance(spec, str):
        raise Unsupported('einsum format')
    arrs = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    ins, arrow, out = spec.partition('->')
    ins = ins.split(',')
    if len(ins) != len(arrs):
        raise ValueError('einsum operands')
    ne = 0
    full = []
    for lab, a in zip(ins, arrs):
        if '...' in lab:
            ne = max(ne, a.ndim - len(lab.replace('...', '')))
    for lab, a in zip(ins, arrs):
        if '...' in lab:
            n = a.ndim - len(lab.replace('...', ''))
            l, r = lab.split('...')
            lab = list(l) + ['.%d' % k for k in range(ne - n, ne)] + list(r)
        else:
            lab = list(lab)
        if len(lab) != a.ndim:
            raise ValueError('einsum: operand has %d dimensions, subscripts %s' % (a.ndim, lab))
        full.append(lab)
    if arrow:
        if '...' in out:
            l, r = out.split('...')
            out = list(l) + ['.%d' % k for k in range(ne)] + list(r)
        else:
            out = list(out)
    else:
        flat = [x for lab in full for x in lab]
        out = ['.%d' % k for k in range(ne)] + sorted(x for x in set(flat) if flat.count(x) == 1 and not x.startswith('.'))
    dims = {}
    for lab, a in zip(full, arrs):
        for x, n in zip(lab, a.shape):
            if x in dims:
                m = dims[x]
                if isone(m) and not isone(n):
                    dims[x] = n
                elif isone(n):
                    pass
                elif not same(m, n):
                    if isinstance(m, int) and isinstance(n, int):
                        raise ValueError('einsum: dimensions of %s' % x)
                    raise Unsupported('einsum: dimensions of %s: %s, %s' % (x, m, n))
                elif isinstance(n, int):
                    dims[x] = n
            else:
                dims[x] = n
    sumd = [x for x in dims if x not in out]
    gs = [(a.getter(), lab, [isone(n) and not isone(dims[x]) for x, n in zip(lab, a.shape)]) for a, lab in zip(arrs, full)]
    s = max((a.sort for a in arrs), key=tm.RANK.get)

    def fn(v):
        env = dict(zip(out, v))

        def body(i):
            e = dict(env)
            e.update(zip(sumd, i))
            r = []
            for g, lab, one in gs:
                x = g(tuple(num(0) if o else e[l] for l, o in zip(lab, one)))
                if x.op == 'num' and x.args[0] == 0:
                    return x
                r.append(x)
            return tm.mul(*r)
        return sumterm([dims[x] for x in sumd], body)
    return out0(SArr.build([dims[x] for x in out], fn, s))


def det_term(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = []
    for p in permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        r.append(tm.mul(num(s), *[m[i][p[i]] for i in range(n)]))
    return tm.add(*r)


@np_(np.linalg.det)
def det(a):
    a = asarr(a)
    n = a.shape[-1]
    if a.ndim != 2 or not isinstance(n, int) or n > 4:
        raise Unsupported('det')
    return tm.cast(det_term([[a.at(num(i), num(j)) for j in range(n)] for i in range(n)]), 'r') if a.sort != 'c' else det_term([[a.at(num(i), num(j)) for j in range(n)] for i in range(n)])


@np_(np.linalg.inv)
def inv(a):
    a = asarr(a)
    n = a.shape[-1]
    if a.ndim != 2 or not isinstance(n, int) or n > 4:
        raise Unsupported('inv')
    m = [[a.at(num(i), num(j)) for j in range(n)] for i in range(n)]
    d = det_term(m)

    def cof(i, j):
        sub = [[m[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
        return tm.mul(num((-1) ** (i + j)), det_term(sub) if sub else num(1))
    s = 'c' if a.sort == 'c' else 'r'
    return SArr.build((n, n), lambda v: tm.div(cof(conc(v[1]), conc(v[0])), d), s)


@np_(np.linalg.solve)
def solve(a, b):
    return dot(inv(a), b)


@np_(np.linalg.norm)
def norm_(a, axis=None):
    a = asarr(a)
    sq = elementwise(lambda x: tm.mul(x, x) if x.sort != 'c' else tm.re(tm.mul(x, tm.conj(x))), a)
    return elementwise(tm.sqrt, red_sum(sq, axis))


def _closed(a, what):
    """array as a function of what it contains: pattern of an element as a function of its indices and the terms in it
    that do not depend on them"""
    ix = [norm.index('x%d' % n, 0, lift(m)) for n, m in enumerate(a.shape)]
    t = State.ctx.canon(a.at(*ix))
    args = []

    def pattern(t, bound):
        if not tm.free(t) & bound.keys():
            if t.op == 'num' or not tm.children(t) and t.op != 'sym':
                return tm.show(t)
            args.append(t)
            return '$'
        if t.op == 'sym':
            return bound[t.key]
        if t.op in ('add', 'mul'):
            parts = []
            for x in t.args:
                n = len(args)
                parts.append((pattern(x, bound), x.key, args[n:]))
                del args[n:]
            parts.sort(key=lambda x: x[:2])
            for x in parts:
                args.extend(x[2])
            return '%s(%s)' % (t.op, ','.join(x[0] for x in parts))
        if t.op in ('sum', 'forall'):
            inner = {**bound, t.args[0].key: 'b%d' % len(bound)}
            return '%s(%s)' % (t.op, ','.join([pattern(t.args[1], bound), pattern(t.args[2], bound), pattern(t.args[3], inner)]))
        return '%s(%s)' % (t.op, ','.join(pattern(x, bound) if isinstance(x, T) else str(x) for x in t.args))

    name = pattern(t, {x.key: 'x%d' % n for n, x in enumerate(ix)})
    return '%s{%s}' % (what, name), tuple(map(lift, a.shape)) + tuple(args)


def _eigen(what, sort, vectors):
    """eigenvalues and vectors are functions of the matrix (the contract of LAPACK: A U = U diag(e))"""
    def f(a):
        a = asarr(a)
        n = a.shape[-1]
        if a.ndim < 2 or not arrays.same(n, a.shape[-2]):
            raise Unsupported(what)
        lead = a.shape[:-2]

        def values(v, suffix, sort, last):
            m = SArr.build((n, n), lambda s: a.at(*map(lift, v), *map(lift, s)), a.sort)
            name, args = _closed(m, what)
            return tm.app(name + suffix, args + tuple(map(lift, last)), sort)
        e = SArr.build((*lead, n), lambda s: values(s[:-1], '.e', sort, s[-1:]), sort)
        if not vectors:
            return e
        return e, SArr.build((*lead, n, n), lambda s: values(s[:-2], '.U', 'c', s[-2:]), 'c')
    return f


NPF[np.linalg.eigh] = _eigen('eigh', 'r', True)
NPF[np.linalg.eigvalsh] = _eigen('eigh', 'r', False)
NPF[np.linalg.eig] = _eigen('eig', 'c', True)
NPF[np.linalg.eigvals] = _eigen('eig', 'c', False)


@np_(np.kron)
def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        raise Unsupported('kron')
    ga, gb = a.getter(), b.getter()
    return SArr.build([dim(x * y) for x, y in zip(a.shape, b.shape)],
                      lambda v: tm.mul(ga(tuple(tm.idiv(lift(x), lift(n)) for x, n in zip(v, b.shape))),
                                       gb(tuple(tm.mod(lift(x), lift(n)) for x, n in zip(v, b.shape)))),
                      max(a.sort, b.sort, key=tm.RANK.get))


def _fft(sign, scale):
    def f(a, s=None, axes=None, axis=None):
        a = asarr(a)
        if s is not None:
            raise Unsupported('fft size')
        if axis is not None:
            axes = (axis,)
        ax = _axes(a, axes)
        g = a.getter()

        def fn(v):
            def body(i):
                w = list(v)
                ph = num(0)
                for k, x in zip(ax, i):
                    w[k] = x
                    ph = tm.add(ph, tm.div(tm.mul(lift(x), lift(v[k])), lift(a.shape[k])))
                return tm.mul(g(tuple(w)), tm.fn('exp', tm.mul(num(2 * sign), tm.I, tm.PI, ph), sort='c'))
            r = sumterm([a.shape[k] for k in ax], body)
            if scale:
                for k in ax:
                    r = tm.div(r, lift(a.shape[k]))
            return r
        return SArr.build(a.shape, fn, 'c')
    return f


NPF[np.fft.fftn] = _fft(-1, False)
NPF[np.fft.ifftn] = _fft(1, True)
NPF[np.fft.fft] = lambda a, axis=-1: _fft(-1, False)(a, axis=axis)
NPF[np.fft.ifft] = lambda a, axis=-1: _fft(1, True)(a, axis=axis)


@np_(np.allclose)
def allclose(a, b, rtol=None, atol=None):
    raise Unsupported('allclose')


@np_(np.nonzero)
def nonzero(a):
    return WhereIdx(asarr(a))


@np_(np.ix_)
def ix_(*xs):
    n = len(xs)
    return tuple(asarr(x)[tuple(slice(None) if k == j else None for k in range(n))] for j, x in enumerate(xs))


@np_(np.ndarray)
def ndarray(shape, dtype=float, buffer=None):
    if buffer is not None:
        raise Unsupported('array in given memory')
    return empty(shape, dtype)
