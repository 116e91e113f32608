"""Parallel execution: one generic process of a communicator of any size.

The code is executed for an arbitrary rank p of an arbitrary number P of processes.  MPI.distribute is replaced by its
contract (proved for C01): bounds B(0) = 0 <= ... <= B(P) = n and sizes B(i + 1) - B(i).  Collective operations get
their meaning from the values that the generic process sends: item j of process p becomes item B(p) + j of the
result, which has to be a function of B(p) + j alone, i.e., independent of how the work is distributed.  The numbers
of items sent and accounted for by the receivers are obligations.
"""
import numpy as np

from . import terms as tm, norm, arrays as ar, npmod
from .terms import T, lift, num, Unsupported
from .arrays import SArr, asarr

ACTIVE = [None]
WORLD = [None]     # the communicator of elphmod that stands for all processes


def ctx():
    return ar.State.ctx


class Serial:
    """communicator of a single process"""
    engine_ok = True
    rank, size = 0, 1

    def Barrier(self):
        pass

    def Bcast(self, data):
        pass

    def bcast(self, data):
        return data

    def Split(self, color, key=None):
        return self

    def allgather(self, x):
        return [x]

    def allreduce(self, x):
        return x

    def Allgatherv(self, send, recv):
        buf = recv[0] if isinstance(recv, (tuple, list)) else recv
        buf.assign(ar.reshape(asarr(send), buf.shape))

    Gatherv = Allgatherv

    def Allreduce(self, send, recv):
        recv.assign(asarr(send))

    Reduce = Allreduce


class OnRoot:
    """data only known to the root process (different data on other processes)"""
    engine_ok = True

    def __init__(self, comm, value, other):
        self.comm, self.value, self.other = comm, value, other

    def here(self):
        root = self.comm.root()
        return self if root is None else self.value if root else self.other

    def __getattr__(self, name):
        raise Unsupported('data are only known to the root process')


class Comm:
    engine_ok = True

    def __init__(self, v):
        self.v = v
        self.size = tm.sym('nproc', 'i')
        norm.RANGES[self.size.key] = (self.size, num(1), None)
        self.rank = tm.sym('rank', 'i')
        norm.RANGES[self.rank.key] = (self.rank, num(0), self.size)
        self.own = set()
        self.count = self.sent = 0
        self.split = False
        self.inline = False     # interpret the functions of elphmod.MPI themselves

    def contract(self, f, kwargs):
        """contracts of functions of elphmod.MPI"""
        if self.inline:
            return None
        if getattr(f, '__module__', None) == 'elphmod.MPI' and not isinstance(kwargs.get('comm'), Serial):
            return {'distribute': self.distribute, 'shared_array': self.shared_array}.get(f.__name__)

    def shared_array(self, shape, dtype=float, shared_memory=True, single_memory=False, only_info=False, comm=None):
        if only_info:
            raise Unsupported('shared_array')
        return Serial(), self, npmod.empty(shape, dtype=dtype)

    def on_root(self, c, a, b):
        """data a if c, data b otherwise, where c tells whether this is the root process"""
        zero = ctx().ccond(tm.eq(self.rank, num(0)))
        c = ctx().ccond(c)
        if c is zero:
            return OnRoot(self, a, b)
        if c is ctx().ccond(tm.not_(zero)):
            return OnRoot(self, b, a)

    # -- distribution -------------------------------------------------------------
    def bound(self, n, chunks, i):
        i = ctx().canon(lift(i))
        if i.op == 'num' and i.args[0] == 0:
            return num(0)
        if i is ctx().canon(chunks):
            return n
        return tm.app('dist', (n, chunks, i), 'i')

    def distribute(self, size, bounds=False, comm=None, chunks=None):
        n = ctx().canon(lift(size.item() if isinstance(size, SArr) else size))
        chunks = self.size if chunks is None else ctx().canon(lift(chunks))
        B = lambda i: self.bound(n, chunks, i)
        lo, hi = B(self.rank), B(tm.add(self.rank, num(1)))
        for f in (tm.le(num(0), lo), tm.le(lo, hi), tm.le(hi, n)):
            if f.key not in self.own:
                self.own.add(f.key)
            ctx().assume(f)
        sizes = SArr.build((chunks,), lambda s: tm.add(B(tm.add(lift(s[0]), num(1))), tm.neg(B(s[0]))), 'i')
        if not bounds:
            return sizes
        return sizes, SArr.build((tm.add(chunks, num(1)),), lambda s: B(s[0]), 'i')

    def check_path(self):
        for f in ctx().facts:
            if self.rank.key in tm.free(f) and f.key not in self.own:
                raise Unsupported('communication on a path that depends on the rank: %s' % tm.show(f))

    def items(self, n0):
        """number of distributed items, app B(p), if n0 is the number of items of this process"""
        n0 = ctx().canon(n0)
        for x in tm.subterms(n0, lambda x: x.op == 'app' and x.args[0] == 'dist'):
            if x.args[3] is self.rank:
                n, chunks = x.args[1:3]
                hi = self.bound(n, chunks, tm.add(self.rank, num(1)))
                if chunks is self.size and ctx().equal(n0, tm.add(hi, tm.neg(x)))[0]:
                    return n, x
        raise Unsupported('number of items is not that of a distribution: %s' % tm.show(n0))

    def globally(self, t, j, B, n):
        """value t of local item j as a function of the global index k = B(p) + j"""
        k = norm.index('k', 0, n)
        t = ctx().canon(t)
        t = tm.subst(tm.replace_apps(t, 'dist', lambda a: tm.add(k, tm.neg(j)) if a[2] is self.rank and a[0] is n else tm.app('dist', a, 'i')), {})
        t = ctx().canon(t)
        memo = {}

        def go(t):
            r = memo.get(t.key)
            if r is None:
                r = tm.rebuild(t, go) if j.key in tm.free(t) else t
                if r.op == 'add' and j.key in tm.free(r):
                    r = ctx().canon(r)
                memo[t.key] = r
            return r
        if j.key in tm.free(t):
            t = go(t)       # (sums in arguments of conditions)
        return k, t, not tm.free(t) & {self.rank.key, j.key}

    # -- collective operations ---------------------------------------------------------
    def Allgatherv(self, send, recv, root=False):
        self.check_path()
        self.count += 1
        name = 'communication %d: ' % self.count
        buf, counts = recv if isinstance(recv, (tuple, list)) else (recv, None)
        send = asarr(send)
        n, B = self.items(lift(send.shape[0]))
        rest = tuple(send.shape[1:])
        K = num(1)
        for m in rest:
            K = tm.mul(K, lift(m))
        if counts is not None:
            counts = asarr(counts)
            self.v.eq(name + 'items sent are those accounted for', counts.at(self.rank), tm.mul(lift(send.shape[0]), K))
        tot = num(1)
        for m in buf.shape:
            tot = tm.mul(tot, lift(m))
        self.v.eq(name + 'complete result', tot, tm.mul(n, K))
        if tm.RANK[send.sort] > tm.RANK[buf.sort] or send.sort != buf.sort:
            raise Unsupported('data types of buffers differ')
        j = norm.index('j', 0, send.shape[0])
        rs = [norm.index('r%d' % x, 0, lift(m)) for x, m in enumerate(rest)]
        k, t, ok = self.globally(send.at(j, *rs), j, B, n)
        self.v.holds(name + 'independent of the distribution', ok)
        full = SArr.build((n, *rest), lambda s: tm.subst(t, {k: lift(s[0]), **{r: lift(x) for r, x in zip(rs, s[1:])}}), send.sort)
        if len(buf.shape) != len(full.shape) or not all(ar.same(a, b) for a, b in zip(buf.shape, full.shape)):
            full = ar.reshape(full, buf.shape)
        full_ = full
        if root:
            old = buf.copy()
            full = SArr.build(buf.shape, lambda s: tm.ite(tm.eq(self.rank, num(0)), lift(full_.at(*s)), lift(old.at(*s))), buf.sort)
        buf.assign(full)

    def Gatherv(self, send, recv):
        self.Allgatherv(send, recv, root=True)

    def allgather(self, x):
        self.check_path()
        x = lift(x.item() if isinstance(x, SArr) else x)
        return SArr.build((self.size,), lambda s: tm.subst(x, {self.rank: lift(s[0])}), x.sort)

    def reduced(self, t):
        """sum over all processes"""
        t = ctx().canon(t)
        out = num(0)
        p = ctx().norm(t)
        for m, x in p.items():
            fs = [(norm.ATOM[k], e) for k, e in m]
            dep = [a for a, e in fs if self.rank.key in tm.free(a)]
            # the binder that runs over the items of this process
            chain, c = [], None
            if len(dep) == 1 and (dep[0], 1) in fs:
                b = dep[0]
                while b.op == 'sum':
                    chain.append(b.args[:3])
                    b = b.args[3]
                c = next((c for c in chain if self.rank.key in tm.free(c[2])), None)
            if c is None:
                r = norm.index('rank', 0, self.size)
                out = tm.add(out, tm.Sum(r, num(0), self.size, tm.subst(ctx().unpoly({m: x}), {self.rank: r})))
                continue
            n, B = self.items(tm.add(c[2], tm.neg(c[1])))
            j = norm.index('j', 0, c[2])
            k, g, ok = self.globally(tm.subst(b, {c[0]: j}), j, B, n)
            if not ok:
                raise Unsupported('sum over processes depends on the distribution: %s' % tm.show(t))
            g = tm.Sum(k, num(0), n, g)
            for d in chain[::-1]:
                if d is not c:
                    g = tm.Sum(*d, g)
            for a, e in fs:
                if a is not dep[0]:
                    g = tm.mul(g, tm.power(a, num(e)))
            out = tm.add(out, tm.mul(num(x), g))
        return out

    def Allreduce(self, send, recv):
        self.check_path()
        send = asarr(send)
        rs = [norm.index('r%d' % x, 0, lift(m)) for x, m in enumerate(send.shape)]
        t = self.reduced(send.at(*rs))
        recv.assign(SArr.build(send.shape, lambda s: tm.subst(t, dict(zip(rs, map(lift, s)))), send.sort))

    def Reduce(self, send, recv):
        buf = recv.value if isinstance(recv, OnRoot) else recv
        old = buf.copy()
        self.Allreduce(send, buf)
        new = buf.copy()
        if isinstance(recv, OnRoot):
            return
        buf.assign(SArr.build(buf.shape, lambda s: tm.ite(tm.eq(self.rank, num(0)), lift(new.at(*s)), lift(old.at(*s))), buf.sort))

    def allreduce(self, x):
        self.check_path()
        if isinstance(x, (bool, int)) and not isinstance(x, T):
            return x        # (number of processes times a truth value)
        x = lift(x.item() if isinstance(x, SArr) else x)
        if x.sort == 'b':
            if self.rank.key in tm.free(x):
                raise Unsupported('condition depends on the process')
            return x
        return self.reduced(x)

    def Barrier(self):
        pass

    # On a path of the root process, broadcast data are recorded; the path of the other processes with the same
    # conditions receives them.
    def merges(self, c):
        """execute both branches of a condition on the rank and merge the results?"""
        return not self.split and self.rank.key in tm.free(c)

    def root(self):
        """True: root process, False: another process, None: any process"""
        zero = ctx().ccond(tm.eq(self.rank, num(0)))
        return True if zero is tm.TRUE else False if zero is tm.FALSE else None

    def shared_facts(self):
        return frozenset(f.key for f in ctx().facts if self.rank.key not in tm.free(f))

    def exchange(self, value):
        self.sent += 1
        if isinstance(value, OnRoot):
            self.check_path()
            return self.of_root(value.value)
        root = self.root()
        record = self.v.__dict__.setdefault('transcript', {})
        if root is None:
            self.check_path()
            return self.of_root(value)
        if root:
            value = self.of_root(value)
            record[self.sent, self.shared_facts()] = value
            return value
        if (self.sent, self.shared_facts()) not in record:
            raise Unsupported('broadcast without a corresponding path of the root process')
        return record[self.sent, self.shared_facts()]

    def of_root(self, x):
        if isinstance(x, T):
            x = ctx().canon(tm.subst(x, {self.rank: num(0)}))
            return x
        if isinstance(x, SArr):
            rs = [norm.index('r%d' % n, 0, lift(m)) for n, m in enumerate(x.shape)]
            t = self.of_root(x.at(*rs))
            return SArr.build(x.shape, lambda s: tm.subst(t, dict(zip(rs, map(lift, s)))), x.sort)
        if isinstance(x, (tuple, list)):
            return type(x)(map(self.of_root, x))
        if x is None or isinstance(x, (str, bool, int, float)):
            return x
        if isinstance(x, np.ndarray):
            return self.of_root(asarr(x))
        raise Unsupported('broadcast of %s' % type(x).__name__)

    def Bcast(self, data):
        value = self.exchange(data)
        if self.root() is not True:
            data.assign(value)

    def bcast(self, data):
        return self.exchange(data)

    def Split(self, color, key=None):
        raise Unsupported('split communicator')

    def Scatterv(self, send, recv):
        self.check_path()
        self.count += 1
        name = 'communication %d: ' % self.count
        buf, counts = send
        buf = self.of_root(buf.value if isinstance(buf, OnRoot) else buf)
        recv_ = asarr(recv)
        n, B = self.items(lift(recv_.shape[0]))
        K = num(1)
        for m in recv_.shape[1:]:
            K = tm.mul(K, lift(m))
        self.v.eq(name + 'items received are those accounted for', asarr(counts).at(self.rank), tm.mul(lift(recv_.shape[0]), K))
        tot = num(1)
        for m in buf.shape:
            tot = tm.mul(tot, lift(m))
        self.v.eq(name + 'complete input', tot, tm.mul(n, K))
        full = asarr(buf)
        if len(full.shape) != len(recv_.shape):
            full = ar.reshape(full, (n, *recv_.shape[1:]))
        h = full.getter()
        recv_.assign(SArr.build(recv_.shape, lambda s: lift(h((tm.add(B, lift(s[0])), *s[1:]))), full.sort))


class parallel:
    """context in which elphmod runs on any number of processes"""
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        import elphmod
        self.I = elphmod.MPI.I
        WORLD[0] = elphmod.MPI.comm
        ACTIVE[0] = Comm(self.v)
        ACTIVE[0].inline = self.v.contract.extra['parallel'] == 'inline'
        ACTIVE[0].split = self.v.contract.extra['parallel'] == 'split'
        elphmod.MPI.I = Serial()
        return ACTIVE[0]

    def __exit__(self, *a):
        import elphmod
        elphmod.MPI.I = self.I
        ACTIVE[0] = None
