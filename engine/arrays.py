"""Symbolic arrays: shape with symbolic dimensions, elements given by index -> term."""
import weakref
from itertools import product as iproduct
import numbers
import numpy as np

from . import terms as tm
from . import norm
from .terms import T, num, Unsupported, lift

SORT2DT = {'b': np.dtype(bool), 'i': np.dtype(int), 'r': np.dtype(float), 'c': np.dtype(complex)}
DENSE_MAX = 4096


class State:
    ctx = norm.Ctx()
    trail = None       # list of (store, fn, data) while writes are logged


def ctx():
    return State.ctx


def dt2sort(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, str) and dtype in 'birc':
        pass
    k = np.dtype(dtype).kind
    r = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'r', 'c': 'c'}.get(k)
    if r is None:
        raise Unsupported('dtype %r' % dtype)
    return r


def dim(x):
    """canonical dimension: Python int or T"""
    if isinstance(x, T):
        x = ctx().canon(x)
        if x.op == 'num':
            return int(x.args[0])
        return x
    return int(x)


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().entails(tm.eq(lift(a), lift(b)))


def isone(a):
    return isinstance(a, int) and a == 1


def conc(i):
    if isinstance(i, T):
        return int(i.args[0]) if i.op == 'num' else None
    return int(i)


def lite(c, a, b):
    """lazy conditional: a, b are thunks"""
    c = ctx().ccond(c)
    if c is tm.TRUE:
        return a()
    if c is tm.FALSE:
        return b()
    x, y = a(), b()
    return tm.ite(c, x, y)


_uninit = [0]


class Store:
    __slots__ = ('shape', 'fn', 'sort', 'data', 'tag', 'memo', 'readonly', 'views', 'base', '__weakref__')

    def __init__(self, shape, fn=None, sort='r', data=None, tag=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.sort = sort
        self.data = data
        self.tag = tag
        self.readonly = False
        self.views = []      # weak references to the stores of reshaped views and real or imaginary parts
        self.base = None     # array of which this is such a view: (store or weak reference, maps, axes, shape)

    def log(self):
        if State.trail is not None:
            State.trail.append((self, self.fn, None if self.data is None else self.data.copy()))

    def viewed(self):
        """number of views that are still in use"""
        self.views = [v for v in self.views if v() is not None]
        return len(self.views)

    def viewof(self):
        """the array of which this is a view, unless nobody can see that array any more"""
        if self.base is None:
            return None
        store, maps, axes, shape, kind = self.base
        if isinstance(store, weakref.ref):
            store = store()
            if store is None:
                self.base = None
                return None
        return SArr(store, maps, axes, shape)

    def link(self, a, kind):
        """this is a view of the array a"""
        store = a.store
        if store.tag is None and not store.readonly and store.viewof() is None:
            store = weakref.ref(store)
        self.base = store, a.maps, a.axes, a.shape, kind
        a.store.views.append(weakref.ref(self))

    def getter(self):
        """snapshot: idx (tuple of T or int) -> T"""
        if self.data is not None:
            data = self.data.copy()
            shape = self.shape

            def get(s):
                return dense_get(data, shape, s)
            return get
        return self.fn

    def get(self, s):
        if self.data is not None:
            return dense_get(self.data, self.shape, s)
        return self.fn(s)

    def write(self, cond, val):
        """for all s with cond(s): store[s] = val(s) (val evaluated against the old state)"""
        if self.readonly:
            raise Mutation(self.tag)
        if self.viewed():
            raise Unsupported('write to an array with a reshaped view')
        base = self.viewof()
        if base is not None:
            whole = base.store.tag is not None and base.axes == list(range(base.ndim)) and all(
                m[0] == 'aff' and conc(m[1]) == 0 and m[2] == 1 and same(n, k) for m, n, k in zip(base.maps, base.shape, base.store.shape))
            if not whole or base.store.viewed() != 1 or base.store.readonly or self.base[-1] == 'part':
                if base.store.readonly:
                    raise Mutation(base.store.tag)
                raise Unsupported('write through a reshaped view')
            link, self.base = self.base, None
            views, base.store.views = base.store.views, []
            try:
                self.write(cond, val)
                me = SArr.build(self.shape, self.getter(), self.sort)
                base.assign(reshape(me, base.shape))
            finally:
                self.base = link
                base.store.views = views
            return
        if self.tag is not None and State.trail is None:
            WRITTEN.add(self.tag)
        elif self.tag is not None:
            WRITTEN.add(self.tag)
        self.log()
        sort = self.sort
        if self.data is not None:
            new = self.data.copy()
            for p in np.ndindex(*self.data.shape):
                c = ctx().ccond(cond(tuple(map(num, p))))
                if c is tm.FALSE:
                    continue
                v = storecast(val(tuple(map(num, p))), sort)
                new[p] = v if c is tm.TRUE else tm.ite(c, v, self.data[p])
            self.data = new
            return
        old = self.fn

        def fn(s):
            return lite(cond(s), lambda: storecast(val(s), sort), lambda: old(s))
        self.fn = memoise(fn)


WRITTEN = set()


class Mutation(Exception):
    """write to an array that the contract's frame does not allow"""


def memoise(fn):
    memo = {}

    def f(s):
        k = (id(State.ctx),) + tuple(x.key if isinstance(x, T) else ('#', x) for x in s)
        r = memo.get(k)
        if r is None:
            r = memo[k] = (fn(s), State.ctx)
        return r[0]
    return f


def dense_get(data, shape, s):
    cs = [conc(ctx().canon(x) if isinstance(x, T) else x) for x in s]
    if all(c is not None for c in cs):
        for c, n in zip(cs, shape):
            if not -n <= c < n:
                raise IndexError('index %s out of bounds %s' % (cs, shape))
        return data[tuple(cs)]
    # selection over the symbolic positions
    free = [k for k, c in enumerate(cs) if c is None]
    total = 1
    for k in free:
        total *= shape[k]
    if total > 256:
        raise Unsupported('symbolic index into a large dense array')
    result = None
    for combo in iproduct(*[range(shape[k]) for k in free]):
        full = list(cs)
        for k, v in zip(free, combo):
            full[k] = v
        v = data[tuple(full)]
        if result is None:
            result = v
            continue
        c = tm.and_(*[tm.eq(lift(s[k]), num(x)) for k, x in zip(free, combo)])
        result = tm.ite(ctx().ccond(c), v, result)
    if result is None:
        raise Unsupported('read of an empty array')
    return result


def storecast(v, sort):
    v = lift(v)
    if v.sort == sort:
        return v
    if v.sort == 'c' and sort in 'ir':
        # NumPy discards the imaginary part with a warning
        return tm.re(v) if sort == 'r' else tm.truncint(tm.re(v))
    return tm.cast(v, sort)


class SArr:
    __array_priority__ = 2000
    __slots__ = ('store', 'maps', 'axes', 'shape', 'alias', '__weakref__')

    def __init__(self, store, maps=None, axes=None, shape=None):
        self.store = store
        n = len(store.shape)
        self.maps = maps if maps is not None else [('aff', num(0), 1)] * n
        self.axes = axes if axes is not None else list(range(n))
        self.shape = shape if shape is not None else store.shape
        self.alias = None

    # -- basics --------------------------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for n in self.shape:
            r = r * n
        return dim(r) if isinstance(r, T) else r

    @property
    def sort(self):
        return self.store.sort

    @property
    def dtype(self):
        return SORT2DT[self.store.sort]

    @property
    def dense(self):
        return all(isinstance(n, int) for n in self.shape)

    def sidx(self, v):
        return SArr.store_index(self.maps, self.axes, v)

    @staticmethod
    def store_index(maps, axes, v):
        s = [None] * len(maps)
        pos = {a: k for k, a in enumerate(axes) if a is not None}
        for k, m in enumerate(maps):
            if m[0] == 'fix':
                s[k] = m[1]
            else:
                i = lift(v[pos[k]])
                s[k] = i if m[2] == 1 and m[1] is tm.ZERO else tm.add(m[1], tm.mul(num(m[2]), i))
        return tuple(s)

    def inv(self, s):
        """store index -> (condition, view index)"""
        cond = []
        v = [num(0)] * len(self.shape)
        pos = {a: k for k, a in enumerate(self.axes) if a is not None}
        for k, m in enumerate(self.maps):
            if m[0] == 'fix':
                cond.append(tm.eq(lift(s[k]), m[1]))
            else:
                d = pos[k]
                start, step = m[1], m[2]
                x = lift(s[k])
                if step == 1:
                    i = tm.add(x, tm.neg(start))
                elif step == -1:
                    i = tm.add(start, tm.neg(x))
                else:
                    i = tm.idiv(tm.add(x, tm.neg(start)), num(step))
                    cond.append(tm.eq(tm.mod(tm.add(x, tm.neg(start)), num(abs(step))), num(0)))
                full = start is tm.ZERO and step == 1 and self.shape[d] is self.store.shape[k]
                if not full:
                    cond.append(tm.le(num(0), i))
                    cond.append(tm.lt(i, lift(self.shape[d])))
                v[d] = i
        return tm.and_(tm.TRUE, *cond), tuple(v)

    def at(self, *v):
        return self.store.get(self.sidx(v))

    def getter(self):
        g = self.store.getter()
        maps, axes = self.maps, self.axes
        return lambda v: g(SArr.store_index(maps, axes, v))

    @staticmethod
    def build(shape, fn, sort):
        """new array from an index function"""
        shape = tuple(dim(n) for n in shape)
        if all(isinstance(n, int) for n in shape):
            tot = 1
            for n in shape:
                tot *= n
            if tot <= DENSE_MAX:
                data = np.empty(shape, dtype=object)
                for p in np.ndindex(*shape):
                    data[p] = storecast(fn(tuple(map(num, p))), sort)
                return SArr(Store(shape, None, sort, data))
        f = memoise(lambda s: storecast(fn(s), sort))
        return SArr(Store(shape, f, sort))

    @staticmethod
    def uninit(shape, sort):
        _uninit[0] += 1
        name = 'uninit!%d' % _uninit[0]
        return SArr.build(shape, lambda s: tm.app(name, s, sort), sort)

    @staticmethod
    def symbol(name, shape, sort, readonly=False):
        shape = tuple(dim(n) for n in shape)
        st = Store(shape, lambda s: tm.app(name, tuple(lift(x) for x in s), sort), sort, tag=name)
        if all(isinstance(n, int) for n in shape):
            data = np.empty(shape, dtype=object)
            for p in np.ndindex(*shape):
                data[p] = tm.app(name, tuple(map(num, p)), sort)
            st.data = data
        st.readonly = readonly
        return SArr(st)

    def copy(self, order=None):
        g = self.getter()
        return SArr.build(self.shape, g, self.sort)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, dtype=None):
        if dtype is not None and dt2sort(dtype) != self.sort:
            if self.sort != 'c' or dt2sort(dtype) != 'r' or not self.ndim:
                raise Unsupported('view with another data type')
            # real and imaginary parts in turn (for reading only)
            g = self.getter()
            r = SArr.build(self.shape[:-1] + (dim(self.shape[-1] * 2),), lambda v: lite(
                tm.eq(tm.mod(lift(v[-1]), num(2)), num(0)),
                lambda: tm.re(g(tuple(v[:-1]) + (tm.idiv(lift(v[-1]), num(2)),))),
                lambda: tm.im(g(tuple(v[:-1]) + (tm.idiv(lift(v[-1]), num(2)),)))), 'r')
            r.store.readonly = True
            return r
        return SArr(self.store, list(self.maps), list(self.axes), self.shape)

    # -- indexing ----------------------------------------------------------------------
    def _expand(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, SArr) and k.sort == 'b' or isinstance(k, np.ndarray) and k.dtype == bool:
                n += k.ndim
            else:
                n += 1
        if any(k is Ellipsis for k in key):
            j = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[j:j + 1] = [slice(None)] * (self.ndim - n)
        else:
            key += [slice(None)] * (self.ndim - n)
        if n > self.ndim:
            raise IndexError('too many indices')
        return key

    def basic(self, key):
        """view for integers, slices, None; returns None if advanced indices occur"""
        key = self._expand(key)
        maps = list(self.maps)
        axes, shape = [], []
        d = 0
        for k in key:
            if k is None:
                axes.append(None)
                shape.append(1)
                continue
            if isinstance(k, (list, tuple, SArr, np.ndarray, WhereIdx, Masked)) and not (isinstance(k, (SArr, np.ndarray)) and k.ndim == 0):
                return None
            a = self.axes[d]
            n = self.shape[d]
            if isinstance(k, slice):
                start, stop, step = slice_bounds(k, n)
                length = slice_len(start, stop, step)
                axes.append(a)
                shape.append(length)
                if a is not None:
                    m = maps[a]
                    maps[a] = ('aff', ctx().canon(tm.add(m[1], tm.mul(num(m[2]), lift(start)))), m[2] * step)
                elif not (isone(n) and conc(start) == 0):
                    pass
            else:
                if isinstance(k, (SArr, np.ndarray)):
                    k = k.item()
                if isinstance(k, bool) or isinstance(k, T) and k.sort == 'b':
                    raise Unsupported('scalar boolean index')
                i = check_index(k, n)
                if a is not None:
                    m = maps[a]
                    maps[a] = ('fix', ctx().canon(tm.add(m[1], tm.mul(num(m[2]), lift(i)))))
            d += 1
        return SArr(self.store, maps, axes, tuple(shape))

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported('field access')
        v = self.basic(key)
        if v is not None:
            if v.ndim == 0 and not (key is Ellipsis or isinstance(key, tuple) and any(k is Ellipsis for k in key)):
                return v.at()
            return v
        m = self.mask_of(key)
        if m is not None:
            return Masked(self, m)
        return self.gather(key)

    def mask_of(self, key):
        if isinstance(key, WhereIdx):
            return key.mask
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, np.ndarray) and key.dtype == bool:
            key = asarr(key)
        if isinstance(key, SArr) and key.sort == 'b':
            if key.ndim > self.ndim:
                raise IndexError('mask dimensions')
            for a, b in zip(key.shape, self.shape):
                if not same(a, b):
                    raise Unsupported('mask shape %s %s' % (key.shape, self.shape))
            return key
        return None

    def gather(self, key):
        key = self._expand(key)
        adv, where = [], []
        for j, k in enumerate(key):
            if isinstance(k, (list, tuple, SArr, np.ndarray)):
                k = asarr(list(k) if isinstance(k, tuple) else k)
                if k.sort == 'b':
                    raise Unsupported('mixed mask index')
                adv.append(k)
                where.append(j)
        # integers mixed with arrays are advanced as well
        ints = [j for j, k in enumerate(key) if k is not None and not isinstance(k, (slice, list, tuple, SArr, np.ndarray))]
        contiguous = max(where) - min(where) + 1 - len(where) == sum(1 for j in ints if min(where) < j < max(where))
        allpos = sorted(where + ints)
        contiguous = allpos == list(range(allpos[0], allpos[-1] + 1))
        bshape = broadcast_shapes(*[a.shape for a in adv])
        nb = len(bshape)
        # result dims
        dims = []     # entries: ('adv',) once, ('sl', j, start, step), ('new',)
        d = 0
        info = []
        for j, k in enumerate(key):
            if k is None:
                info.append(('new',))
                continue
            n = self.shape[d]
            if isinstance(k, slice):
                start, stop, step = slice_bounds(k, n)
                info.append(('sl', d, start, step, slice_len(start, stop, step)))
            elif j in where:
                info.append(('adv', d, adv[where.index(j)], n))
            else:
                info.append(('int', d, check_index(k, n)))
            d += 1
        first = allpos[0] if contiguous else 0
        shape = []
        placed = False
        order = []
        for j, it in enumerate(info):
            if j == first and not placed or (not contiguous and not placed):
                shape.extend(bshape)
                order.append('B')
                placed = True
            if it[0] == 'new':
                shape.append(1)
                order.append('new')
            elif it[0] == 'sl':
                shape.append(it[4])
                order.append(it)
        if not placed:
            shape.extend(bshape)
            order.append('B')
        g = self.getter()
        gs = [(it[1], broadcast_getter(it[2], bshape), it[3]) for it in info if it[0] == 'adv']
        fixed = [(it[1], it[2]) for it in info if it[0] == 'int']
        nd = self.ndim

        def fn(v):
            s = [None] * nd
            p = 0
            b = None
            for o in order:
                if o == 'B':
                    b = v[p:p + nb]
                    p += nb
                elif o == 'new':
                    p += 1
                else:
                    s[o[1]] = tm.add(lift(o[2]), tm.mul(num(o[3]), lift(v[p])))
                    p += 1
            for dd, gg, n in gs:
                s[dd] = wrap_index(gg(b), n)
            for dd, i in fixed:
                s[dd] = lift(i)
            return g(tuple(s))
        return SArr.build(shape, fn, self.sort)

    def __setitem__(self, key, value):
        v = self.basic(key)
        if v is not None:
            v.assign(value)
            return
        m = self.mask_of(key)
        if m is not None:
            self.assign_masked(m, value)
            return
        self.scatter(key, value)

    def scatter(self, key, value):
        """integer-array assignment, concrete indices only"""
        key = self._expand(key)
        adv = [j for j, k in enumerate(key) if isinstance(k, (list, SArr, np.ndarray))]
        arrs = [asarr(key[j]) for j in adv]
        bshape = broadcast_shapes(*[a.shape for a in arrs])
        if len(adv) != len([k for k in key if not (isinstance(k, slice) and k == slice(None))]):
            raise Unsupported('mixed scatter')
        if not all(isinstance(n, int) for n in bshape):
            raise Unsupported('scatter with symbolic number of indices')
        gs = [broadcast_getter(a, bshape) for a in arrs]
        value = asarr(value)
        for p in np.ndindex(*bshape):
            k = list(key)
            for j, g in zip(adv, gs):
                i = conc(ctx().canon(g(tuple(map(num, p)))))
                if i is None:
                    raise Unsupported('scatter with symbolic index')
                k[j] = i
            if value.ndim == 0:
                val = value
            elif len(bshape) == 1 and adv == [0]:
                sub = value if value.ndim < self.ndim else value[p[0] if value.shape[0] != 1 else 0]
                val = sub
            elif value.ndim == len(bshape):
                val = value[p]
            else:
                raise Unsupported('scatter value')
            self[tuple(k)] = val

    def assign(self, value):
        value = asarr(value)
        shape = self.shape
        vs = value.shape
        while len(vs) > len(shape) and isone(vs[0]):
            value = value[0]
            value = asarr(value)
            vs = value.shape
        if len(vs) > len(shape):
            raise Unsupported('cannot broadcast %s into %s' % (vs, shape))
        for a, b in zip(vs[::-1], shape[::-1]):
            if not isone(a) and not same(a, b):
                if isinstance(a, int) and isinstance(b, int):
                    raise ValueError('could not broadcast input array from shape %s into shape %s' % (vs, shape))
                raise Unsupported('cannot prove shapes equal: %s %s' % (vs, shape))
        g = broadcast_getter(value, shape)
        me = SArr(Store(self.store.shape), list(self.maps), list(self.axes), self.shape)     # (does not keep the store alive)

        def cond(s):
            return me.inv(s)[0]

        def val(s):
            return g(me.inv(s)[1])
        self.store.write(cond, val)

    def assign_masked(self, mask, value):
        mg = mask.getter()
        nm = mask.ndim
        me = SArr(Store(self.store.shape), list(self.maps), list(self.axes), self.shape)     # (does not keep the store alive)
        if isinstance(value, Masked):
            if not value.samemask(mask):
                raise Unsupported('assignment between different masks')
            vg = value.arr.getter()
            full = True
        else:
            value = asarr(value)
            if value.ndim == 0:
                v0 = value.at()
                vg = lambda v: v0
            else:
                raise Unsupported('array assigned to mask')

        def cond(s):
            c, v = me.inv(s)
            return tm.and_(c, tm.lift(mg(v[:nm])))

        def val(s):
            return vg(me.inv(s)[1])
        self.store.write(cond, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported('native iteration over a symbolic dimension')
        return iter([self[i] for i in range(n)])

    def __len__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            c = tm.CONCRETIZE(n)
            if c is None:
                raise Unsupported('len of a symbolic dimension')
            return c
        return n

    def __bool__(self):
        if self.ndim == 0 or self.size == 1:
            return bool(self.item())
        raise ValueError('truth value of an array is ambiguous')

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if self.ndim and not all(isone(n) for n in self.shape):
            raise Unsupported('item')
        return self.at(*[num(0)] * self.ndim)

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    def __array__(self, dtype=None, copy=None):
        return concrete(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return tm.UFUNC(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return tm.AFUNC(func, args, kwargs)

    def __repr__(self):
        if self.dense and self.size <= 16:
            return 'SArr%s' % ([self.at(*map(num, p)) for p in np.ndindex(*self.shape)],)
        return 'SArr%s:%s' % (self.shape, self.sort)

    # -- arithmetic -------------------------------------------------------------------
    def _bin(self, other, f):
        if isinstance(other, Masked):
            return NotImplemented
        if not isinstance(other, (SArr, T, numbers.Number, np.ndarray, np.generic, list, tuple)):
            return NotImplemented
        return elementwise(f, self, other)

    def _rbin(self, other, f):
        if not isinstance(other, (SArr, T, numbers.Number, np.ndarray, np.generic, list, tuple)):
            return NotImplemented
        return elementwise(f, other, self)

    def __add__(a, b): return a._bin(b, ADD)
    def __radd__(a, b): return a._rbin(b, ADD)
    def __sub__(a, b): return a._bin(b, SUB)
    def __rsub__(a, b): return a._rbin(b, SUB)
    def __mul__(a, b): return a._bin(b, MUL)
    def __rmul__(a, b): return a._rbin(b, MUL)
    def __truediv__(a, b): return a._bin(b, DIV)
    def __rtruediv__(a, b): return a._rbin(b, DIV)
    def __floordiv__(a, b): return a._bin(b, FLOORDIV)
    def __rfloordiv__(a, b): return a._rbin(b, FLOORDIV)
    def __mod__(a, b): return a._bin(b, MOD)
    def __rmod__(a, b): return a._rbin(b, MOD)
    def __divmod__(a, b): return a // b, a % b
    def __pow__(a, b): return a._bin(b, POW)
    def __rpow__(a, b): return a._rbin(b, POW)
    def __and__(a, b): return a._bin(b, AND)
    def __rand__(a, b): return a._rbin(b, AND)
    def __or__(a, b): return a._bin(b, OR)
    def __ror__(a, b): return a._rbin(b, OR)
    def __lt__(a, b): return a._bin(b, tm.lt)
    def __le__(a, b): return a._bin(b, tm.le)
    def __gt__(a, b): return a._bin(b, lambda x, y: tm.lt(y, x))
    def __ge__(a, b): return a._bin(b, lambda x, y: tm.le(y, x))
    def __eq__(a, b): return a._bin(b, tm.eq)
    def __ne__(a, b): return a._bin(b, lambda x, y: tm.not_(tm.eq(x, y)))
    __hash__ = object.__hash__
    def __neg__(a): return elementwise(tm.neg, a)
    def __pos__(a): return a.copy()
    def __abs__(a): return elementwise(tm.absolute, a)
    def __invert__(a): return elementwise(tm.not_ if a.sort == 'b' else (lambda x: tm.add(tm.neg(x), num(-1))), a)

    def __matmul__(a, b): return tm.AFUNC(np.matmul, (a, b), {})
    def __rmatmul__(a, b): return tm.AFUNC(np.matmul, (b, a), {})

    def _inplace(self, other, f):
        if isinstance(other, Masked):
            raise Unsupported('in-place with masked')
        if self.ndim and self.store.data is None and (scalar(other) or asarr(other).store.data is None):
            # part of a larger array: not as an array of explicit values
            h, k = broadcast_getter(self, self.shape), broadcast_getter(asarr(other), self.shape)
            sort = f(probe_term(self.sort), probe_term(asarr(other).sort)).sort
            r = SArr(Store(self.shape, memoise(lambda s: storecast(f(lift(h(s)), lift(k(s))), sort)), sort))
        else:
            r = elementwise(f, self, other)
        if isinstance(r, T):
            r = asarr(r)
        if tm.RANK[r.sort] > tm.RANK[self.sort]:
            raise TypeError('cannot cast in-place result from %s to %s' % (r.sort, self.sort))
        self.assign(r)
        return self

    def __iadd__(a, b): return a._inplace(b, ADD)
    def __isub__(a, b): return a._inplace(b, SUB)
    def __imul__(a, b): return a._inplace(b, MUL)
    def __itruediv__(a, b): return a._inplace(b, DIV)
    def __ifloordiv__(a, b): return a._inplace(b, FLOORDIV)
    def __imod__(a, b): return a._inplace(b, MOD)
    def __ipow__(a, b): return a._inplace(b, POW)
    def __iand__(a, b): return a._inplace(b, AND)
    def __ior__(a, b): return a._inplace(b, OR)

    # -- methods -----------------------------------------------------------------------
    def __getattr__(self, name):
        m = METHODS.get(name)
        if m is None:
            raise (Unsupported('array attribute ' + name) if not name.startswith('_') else AttributeError(name))
        return lambda *a, **k: m(self, *a, **k)

    @property
    def real(self):
        if self.sort != 'c':
            return self.view()
        r = elementwise(tm.re, self)
        if isinstance(r, SArr):
            r.store.link(self, 'part')
        return r

    @property
    def imag(self):
        r = elementwise(tm.im, self)
        if self.sort == 'c' and isinstance(r, SArr):
            r.store.link(self, 'part')
        return r

    @property
    def T(self):
        return self.transpose()

    def conj(self):
        return elementwise(tm.conj, self)

    conjugate = conj

    def transpose(self, *order):
        if len(order) == 1 and (order[0] is None or isinstance(order[0], (tuple, list, np.ndarray, SArr))):
            order = order[0]
        if order is None or len(order) == 0:
            order = range(self.ndim)[::-1]
        order = [int(o) % self.ndim for o in order]
        return SArr(self.store, list(self.maps), [self.axes[o] for o in order], tuple(self.shape[o] for o in order))

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and not isinstance(shape[0], (int, T, np.integer)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    @property
    def flat(self):
        raise Unsupported('flat')

    def astype(self, dtype, copy=True):
        s = dt2sort(dtype)
        return elementwise(lambda x: storecast(x, s), self, sort=s)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, SArr) else x for x in self]


METHODS = {}


class Masked:
    """array restricted to a mask: elementwise operations keep the mask"""
    __array_priority__ = 3000

    def __init__(self, arr, mask):
        self.arr = SArr.build(arr.shape, arr.getter(), arr.sort)
        self.mask = SArr.build(mask.shape, mask.getter(), 'b')

    def compress(self):
        """as an array of its own: the selected items in order"""
        if self.mask.ndim != 1:
            raise Unsupported('multi-dimensional mask')
        i = norm.index('f', 0, self.mask.shape[0])
        n, sel = norm.filtered(lift(self.mask.shape[0]), i, lift(self.mask.at(i)))
        g = self.arr.getter()
        return SArr.build((dim(ctx().canon(n)),) + tuple(self.arr.shape[1:]), lambda v: g((sel(v[0]),) + tuple(v[1:])), self.arr.sort)

    @property
    def shape(self):
        return self.compress().shape

    @property
    def ndim(self):
        return self.arr.ndim - self.mask.ndim + 1

    def __getitem__(self, key):
        k = key if isinstance(key, tuple) else (key,)
        if k and isinstance(k[0], slice) and k[0] == slice(None) and self.mask.ndim == 1 and not any(x is None for x in k[:1]):
            r = self.arr[key]
            if isinstance(r, SArr):
                return Masked(r, self.mask)
        return self.compress()[key]

    def samemask(self, m):
        if m is self.mask:
            return True
        if len(m.shape) != len(self.mask.shape) or not all(same(a, b) for a, b in zip(m.shape, self.mask.shape)):
            return False
        idx = tuple(norm.index('mk', 0, n) for n in m.shape)
        return ctx().ccond(m.at(*idx)) is ctx().ccond(self.mask.at(*idx))

    def _bin(self, other, f, swap=False):
        if isinstance(other, Masked):
            if not self.samemask(other.mask):
                raise Unsupported('operation on different masks')
            o = other.arr
        elif isinstance(other, (T, numbers.Number)):
            o = other
        elif isinstance(other, (SArr, np.ndarray)) and other.ndim == 0:
            o = other.item()
        else:
            return elementwise(f, other, self.compress()) if swap else elementwise(f, self.compress(), other)
        r = elementwise(f, o, self.arr) if swap else elementwise(f, self.arr, o)
        return Masked(r, self.mask)

    def __add__(a, b): return a._bin(b, ADD)
    def __radd__(a, b): return a._bin(b, ADD, True)
    def __sub__(a, b): return a._bin(b, SUB)
    def __rsub__(a, b): return a._bin(b, SUB, True)
    def __mul__(a, b): return a._bin(b, MUL)
    def __rmul__(a, b): return a._bin(b, MUL, True)
    def __truediv__(a, b): return a._bin(b, DIV)
    def __rtruediv__(a, b): return a._bin(b, DIV, True)
    def __pow__(a, b): return a._bin(b, POW)
    def __mod__(a, b): return a._bin(b, MOD)
    __iadd__ = __add__
    __isub__ = __sub__
    __imul__ = __mul__
    __itruediv__ = __truediv__
    def __neg__(a): return Masked(-a.arr, a.mask)
    def __abs__(a): return Masked(abs(a.arr), a.mask)

    def conj(self):
        return Masked(self.arr.conj(), self.mask)

    def copy(self):
        return Masked(self.arr, self.mask)

    def sum(self, axis=None):
        if self.mask.ndim != self.arr.ndim:
            raise Unsupported('masked sum')
        return METHODS['sum'](elementwise(lambda c, x: tm.ite(c, x, num(0)), self.mask, self.arr))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != '__call__' or kwargs:
            raise Unsupported('masked ufunc')
        mask = None
        args = []
        for x in inputs:
            if isinstance(x, Masked):
                if mask is not None and not x.samemask(mask):
                    raise Unsupported('different masks')
                mask = x.mask
                args.append(x.arr)
            else:
                args.append(x)
        return Masked(tm.UFUNC(ufunc, method, tuple(args), {}), mask)

    def __array_function__(self, func, types, args, kwargs):
        if func is np.sum and not kwargs:
            return self.sum()
        raise Unsupported('masked array function %s' % func.__name__)


class WhereIdx:
    """result of np.where(mask) / np.nonzero(mask) used as index"""

    def __init__(self, mask):
        self.mask = mask


# -- helpers ---------------------------------------------------------------------------

def check_index(k, n):
    k = lift(k)
    if k.sort == 'r':
        raise TypeError('float index')
    c = conc(ctx().canon(k))
    if c is not None and isinstance(n, int):
        if not -n <= c < n:
            raise IndexError('index %d out of bounds %d' % (c, n))
        return c % n if n else c
    if c is not None and c < 0:
        return ctx().canon(tm.add(num(c), lift(n)))
    if c is not None:
        return c
    k = ctx().canon(k)
    if not ctx().entails(tm.le(num(0), k)):
        if ctx().entails(tm.lt(k, num(0))):
            k = ctx().canon(tm.add(k, lift(n)))
        else:
            OBLIGE('index lower bound', tm.le(num(0), k))
            return k
    if not ctx().entails(tm.lt(k, lift(n))):
        OBLIGE('index upper bound', tm.lt(k, lift(n)))
    return k


BOUNDS = []


def OBLIGE(what, c):
    BOUNDS.append((what, c, State.ctx))


def wrap_index(i, n):
    i = lift(i)
    c = conc(i)
    if c is not None:
        return num(c) if c >= 0 else tm.add(i, lift(n))
    if ctx().entails(tm.le(num(0), i)):
        return i
    return tm.ite(tm.le(num(0), i), i, tm.add(i, lift(n)))


def slice_bounds(k, n):
    step = 1 if k.step is None else conc(k.step)
    if step is None or step == 0:
        raise Unsupported('symbolic slice step')

    def clip(x, lo, hi):
        """clip into [lo, hi] deciding with the facts"""
        cx = conc(x) if not isinstance(x, T) else conc(ctx().canon(x))
        if cx is not None and isinstance(n, int):
            if cx < 0:
                cx += n
            return min(max(cx, conc(lo)), conc(hi))
        x = ctx().canon(lift(x))
        if ctx().entails(tm.lt(x, num(0))):
            x = ctx().canon(tm.add(x, lift(n)))
            if not ctx().entails(tm.le(lift(lo), x)):
                if ctx().entails(tm.le(x, lift(lo))):
                    return lo
                x = tm.ite(tm.lt(x, lift(lo)), lift(lo), x)
        elif not ctx().entails(tm.le(num(0), x)):
            raise Unsupported('slice bound of unknown sign: %s' % x)
        if not ctx().entails(tm.le(x, lift(hi))):
            if ctx().entails(tm.le(lift(hi), x)):
                return hi
            x = tm.ite(tm.lt(lift(hi), x), lift(hi), x)
        return dim(x)
    if step > 0:
        start = 0 if k.start is None else clip(k.start, 0, n)
        stop = n if k.stop is None else clip(k.stop, 0, n)
    else:
        start = n - 1 if k.start is None else clip(k.start, -1, n - 1)
        stop = -1 if k.stop is None else clip(k.stop, -1, n - 1)
    return start, stop, step


def slice_len(start, stop, step):
    a, b = (start, stop) if step > 0 else (stop, start)
    s = abs(step)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return max(0, -((ca - cb) // s))
    d = tm.add(lift(b), tm.neg(lift(a)))
    if not ctx().entails(tm.le(num(0), d)):
        d = tm.ite(tm.lt(d, num(0)), num(0), d)
    if s != 1:
        d = tm.idiv(tm.add(d, num(s - 1)), num(s))
    return dim(d)


def broadcast_shapes(*shapes):
    n = max(map(len, shapes), default=0)
    out = []
    for k in range(n):
        r = 1
        for s in shapes:
            j = k - n + len(s)
            if j < 0:
                continue
            x = s[j]
            if isone(x):
                continue
            if isone(r):
                r = x
            elif r is not x and not same(r, x):
                if isinstance(r, int) and isinstance(x, int):
                    raise ValueError('operands could not be broadcast together')
                raise Unsupported('cannot prove that shapes agree: %s' % (shapes,))
            elif isinstance(x, int):
                r = x
        out.append(r)
    return tuple(out)


def broadcast_getter(a, shape):
    a = asarr(a)
    g = a.getter()
    ash = a.shape
    off = len(shape) - len(ash)
    ones = [isone(n) for n in ash]

    def get(v):
        return g(tuple(num(0) if o else v[off + k] for k, o in enumerate(ones)))
    return get


def scalar(x):
    return isinstance(x, (T, numbers.Number, np.generic))


def elementwise(f, *args, sort=None):
    if any(isinstance(a, Masked) for a in args):
        raise Unsupported('masked elementwise')
    if all(scalar(a) for a in args):
        return f(*[lift(a) for a in args])
    arrs = [asarr(a) for a in args]
    shape = broadcast_shapes(*[a.shape for a in arrs])
    gs = [broadcast_getter(a, shape) for a in arrs]
    fn = lambda v: f(*[lift(g(v)) for g in gs])
    if sort is None:
        probe = f(*[probe_term(a.sort) for a in arrs])
        sort = probe.sort
    r = SArr.build(shape, fn, sort)
    if not shape:
        return r.at()
    return r


_probe = {}


def probe_term(s):
    if s not in _probe:
        _probe[s] = tm.sym('probe_' + s, s)
    return _probe[s]


def ADD(a, b):
    if a.sort == b.sort == 'b':
        return tm.or_(a, b)
    return tm.add(a, b)


def SUB(a, b): return tm.add(a, tm.neg(b))


def MUL(a, b):
    if a.sort == b.sort == 'b':
        return tm.and_(a, b)
    return tm.mul(a, b)


def DIV(a, b): return tm.div(a, b)
def FLOORDIV(a, b): return tm.idiv(a, b)
def MOD(a, b): return tm.mod(a, b)
def POW(a, b): return tm.power(a, b)
def AND(a, b): return tm.and_(a, b)
def OR(a, b): return tm.or_(a, b)


def asarr(x, sort=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, Masked):
        return x.compress()
    if isinstance(x, np.ndarray):
        s = dt2sort(x.dtype) if x.dtype != object else None
        data = np.empty(x.shape, dtype=object)
        for p in np.ndindex(*x.shape):
            data[p] = lift(x[p] if x.dtype == object else x[p].item())
        if s is None:
            s = max((data[p].sort for p in np.ndindex(*x.shape)), key=tm.RANK.get, default='r')
            for p in np.ndindex(*x.shape):
                data[p] = storecast(data[p], s)
        else:
            for p in np.ndindex(*x.shape):
                data[p] = storecast(data[p], s)
        return SArr(Store(x.shape, None, s, data))
    if scalar(x):
        t = lift(x)
        data = np.empty((), dtype=object)
        data[()] = t
        return SArr(Store((), None, t.sort, data))
    if hasattr(x, 'symlist'):
        return x.symlist()
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not x:
            return SArr(Store((0,), None, 'r', np.empty(0, dtype=object)))
        subs = [asarr(y) for y in x]
        shape = subs[0].shape
        for y in subs[1:]:
            if len(y.shape) != len(shape):
                raise ValueError('inhomogeneous shape')
            for a, b in zip(y.shape, shape):
                if not same(a, b):
                    raise ValueError('inhomogeneous shape')
        s = max((y.sort for y in subs), key=tm.RANK.get)
        gs = [y.getter() for y in subs]

        def fn(v):
            i = conc(ctx().canon(lift(v[0])))
            if i is not None:
                return gs[i](v[1:])
            r = gs[-1](v[1:])
            for j in range(len(gs) - 1):
                r = tm.ite(tm.eq(lift(v[0]), num(j)), gs[j](v[1:]), r)
            return r
        return SArr.build((len(subs),) + shape, fn, s)
    raise Unsupported('cannot make an array of %r' % type(x))


def concrete(a):
    """real NumPy array of a fully concrete SArr"""
    if not a.dense:
        raise Unsupported('native use of a symbolic array')
    out = np.empty(a.shape, dtype=a.dtype)
    for p in np.ndindex(*a.shape):
        t = ctx().canon(a.at(*map(num, p)))
        out[p] = native(t)
    return out


def native(t):
    if t.op == 'num':
        return int(t.args[0]) if t.sort == 'i' else float(t.args[0])
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    from .evalt import evaluate
    if not tm.free(t) - {tm.PI.key} and not tm.subterms(t, lambda x: x.op == 'app'):
        return evaluate(t, {})
    raise Unsupported('symbolic value used natively: %s' % t)


def reshape(a, shape):
    shape = [shape] if isinstance(shape, (int, T, np.integer)) else list(shape)
    shape = [x.item() if isinstance(x, (SArr, np.ndarray)) else x for x in shape]
    shape = [(-1 if conc(x) == -1 else dim(x)) for x in shape]
    old = list(a.shape)
    if -1 in [x for x in shape if isinstance(x, int)]:
        j = shape.index(-1)
        # cancel equal dimensions
        rest = shape[:j] + shape[j + 1:]
        left = list(old)
        for x in rest:
            for k, y in enumerate(left):
                if x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or (
                        not (isinstance(x, int) and isinstance(y, int)) and same(x, y)):
                    del left[k]
                    break
            else:
                if isone(x):
                    continue
                n1 = 1
                for y in left:
                    n1 = n1 * y
                n2 = 1
                for y in rest:
                    n2 = n2 * y
                n = 1
                for y in old:
                    n = n * y
                if isinstance(n, int) and isinstance(n2, int):
                    if n2 == 0 or n % n2:
                        raise ValueError('cannot reshape')
                    left = [n // n2]
                    break
                q = ctx().canon(tm.idiv(lift(n), lift(n2)))
                if not ctx().entails(tm.eq(tm.mul(q, lift(n2)), lift(n))):
                    raise Unsupported('reshape %s -> %s' % (old, shape))
                left = [dim(q)]
                break
        m = 1
        for y in left:
            m = m * y
        shape[j] = dim(m) if isinstance(m, T) else m
    # trivial reshape: identical up to ones -> view
    o = [(k, n) for k, n in enumerate(old) if not isone(n)]
    s = [(k, n) for k, n in enumerate(shape) if not isone(n)]
    if len(o) == len(s) and all(x[1] is y[1] or same(x[1], y[1]) for x, y in zip(o, s)):
        axes = [None] * len(shape)
        maps = list(a.maps)
        for (k, n), (j, m) in zip(o, s):
            axes[j] = a.axes[k]
        for k, n in enumerate(old):
            if isone(n) and a.axes[k] is not None:
                mm = maps[a.axes[k]]
                maps[a.axes[k]] = ('fix', mm[1])
        r = SArr(a.store, maps, axes, tuple(shape))
        return r
    # general: group dimensions into blocks with equal products
    g = a.getter()
    blocks = []
    i = j = 0
    while i < len(old) or j < len(shape):
        i0, j0 = i, j
        p = q = 1
        if i < len(old):
            p = old[i]
            i += 1
        if j < len(shape):
            q = shape[j]
            j += 1
        guard = 0
        while not (p is q or same(p, q)):
            guard += 1
            if guard > 20:
                raise Unsupported('reshape %s -> %s' % (old, shape))
            # extend the side with fewer dimensions consumed / smaller product
            smaller_left = None
            if isinstance(p, int) and isinstance(q, int):
                smaller_left = p < q
            else:
                # prefer the side whose product divides the other
                smaller_left = divides(p, q)
            if smaller_left and i < len(old):
                p = dim(p * old[i])
                i += 1
            elif j < len(shape):
                q = dim(q * shape[j])
                j += 1
            elif i < len(old):
                p = dim(p * old[i])
                i += 1
            else:
                n1 = n2 = 1
                for y in old:
                    n1 = n1 * y
                for y in shape:
                    n2 = n2 * y
                if isinstance(n1, int) and isinstance(n2, int) and n1 != n2:
                    raise ValueError('cannot reshape %s -> %s' % (old, shape))
                raise Unsupported('reshape %s -> %s' % (old, shape))
        blocks.append((old[i0:i], shape[j0:j]))

    def fn(v):
        s = []
        p = 0
        for ob, nb in blocks:
            vi = v[p:p + len(nb)]
            p += len(nb)
            if len(ob) == len(nb) == 1:
                s.append(vi[0])
                continue
            lin = num(0)
            for n, x in zip(nb, vi):
                lin = tm.add(tm.mul(lin, lift(n)), lift(x))
            lin = ctx().canon(lin)
            sub = []
            for n in ob[:0:-1]:
                sub.append(ctx().canon(tm.mod(lin, lift(n))))
                lin = ctx().canon(tm.idiv(lin, lift(n)))
            if ob:
                sub.append(lin)
            s.extend(sub[::-1])
        return g(tuple(s))
    r = SArr.build(shape, fn, a.sort)
    r.alias = True
    r.store.link(a, 'reshape')
    return r


def _maybe_view(a):
    return True


def divides(p, q):
    """p is a divisor of q as a polynomial monomial"""
    c = ctx()
    P, Q = c.norm(lift(p)), c.norm(lift(q))
    if len(P) != 1 or len(Q) != 1:
        return len(P) <= len(Q)
    (pm, px), = P.items()
    (qm, qx), = Q.items()
    d = dict(qm)
    return all(d.get(k, 0) >= e for k, e in pm) and (qx / px).denominator == 1


def _setreal(self, value):
    if self.sort != 'c':
        self.assign(value)
    else:
        im_ = elementwise(tm.im, self)
        self.assign(elementwise(lambda a, b: tm.add(a, tm.mul(tm.I, b)), value, im_))


def _setimag(self, value):
    if self.sort != 'c':
        raise TypeError('array does not have imaginary part to set')
    re_ = elementwise(tm.re, self)
    self.assign(elementwise(lambda a, b: tm.add(a, tm.mul(tm.I, b)), re_, value))


SArr.real = SArr.real.setter(_setreal)
SArr.imag = SArr.imag.setter(_setimag)
