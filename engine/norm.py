"""Normaliser and prover for terms.

A term of sort i/r/c is normalised to a polynomial with rational coefficients over canonical
atoms.  Products of exponentials are merged, trigonometric and hyperbolic functions become
exponentials, I*I = -1, sqrt(x)**2 = x, sums are distributed and split into monomial sums with
canonically renamed binders, and indices modulo a mesh size are simplified under the facts.

Equality a = b is decided by normalising a - b and, if the result is not syntactically zero,
clearing denominators, splitting on the conditions of conditional terms and comparing sums
pointwise.  Conditions are decided by z3 (with canonical forms as a fast path).
"""
from fractions import Fraction
from itertools import permutations, product
import math
import os
import time
import z3

from . import terms as tm
from .evalt import evaluate
from .terms import T, mk, num, Unsupported

RLIMIT = 2000   # z3 resource units per nominal millisecond
STATS = {'z3_queries': 0, 'z3_time': 0.0, 'norms': 0, 'splits': 0}

RANGES = {}   # sym key -> (sym, lo or None, hi or None)


def index(name, lo, hi):
    """fresh integer symbol with lo <= s < hi (hi None: unbounded)"""
    s = tm.fresh(name, 'i')
    RANGES[s.key] = (s, tm.lift(lo), None if hi is None else tm.lift(hi))
    return s


FILTERS = {}    # name -> (parameters, length of the base list, index symbol, condition)
FILTERED = {}
FILTER_INDEX = tm.sym('fi', 'i')


def filtered(n, i, cond):
    """length and index map of [x(i) for i in range(n) if cond(i)]

    The map is an order-preserving bijection from the positions in the filtered
    list to the indices that meet the condition; only the facts below are used.
    """
    n = tm.lift(n)
    cond = tm.subst(cond, {i: FILTER_INDEX})
    name = FILTERED.get((n.key, cond.key))
    if name is None:
        name = FILTERED[n.key, cond.key] = 'flen%d' % len(FILTERED)
        params = [RANGES[k][0] for k in sorted(tm.free(n) | tm.free(cond)) if RANGES.get(k, (0, 0, None))[2] is not None and k != FILTER_INDEX.key]
        FILTERS[name] = params, n, FILTER_INDEX, cond

        def length(t, params=params, n=n):
            m = tm.subst(n, dict(zip(params, t.args[1:])))
            return tm.and_(tm.le(tm.num(0), t), tm.le(t, m))

        def position(t, params=params, n=n, cond=cond):
            m = dict(zip(params, t.args[1:-1]))
            m[FILTER_INDEX] = t
            return tm.and_(tm.le(tm.num(0), t), tm.lt(t, tm.subst(n, m)), tm.subst(cond, m))
        APPRANGE[name] = [length]
        APPRANGE['fsel' + name[4:]] = [position]
    params = tuple(FILTERS[name][0])
    return tm.app(name, params, 'i'), lambda k: tm.app('fsel' + name[4:], params + (tm.lift(k),), 'i')


UNBOUNDED = tm.sym('unbounded', 'i')

KEYSETS = {}    # symbol for the number of keys -> (width, names of the keys in different orders)


def keyset(width):
    """keys of a dictionary in some order: number of keys, name of the keys

    The dictionary itself is read with the name 'dict...'.  Every equality of such a key with a tuple
    stems from a write location of the dictionary, which is a key.  Hence exactly one key fulfils it.
    """
    n = index('nkeys', 0, None)
    name = 'key!%d' % (len(KEYSETS) + 1)
    KEYSETS[n.key] = width, [name]
    return n, name


def reorder(n, how):
    names = KEYSETS[n.key][1]
    name = names[0] + '.' + how
    if name not in names:
        names.append(name)
    return name


def listed_keys(n, key):
    """name of the keys of which this is one"""
    if n.key not in KEYSETS:
        return None
    width, names = KEYSETS[n.key]
    if len(key) != width or any(x.op != 'app' or x.args[0] not in names or len(x.args) != 3 for x in key):
        return None
    if any(x.args[0] != key[0].args[0] or x.args[1] is not key[0].args[1] or x.args[2] is not num(c) for c, x in enumerate(key)):
        return None
    return key[0].args[0]


class KeyPoint:
    """the key that equals a given tuple"""

    def __init__(self, v, name, comps):
        self.v, self.names, self.comps = v, (name, 'dict' + name), comps

    def put(self, t):
        for name in self.names:
            t = tm.replace_apps(t, name, lambda a, name=name: self.comps[int(a[1])] if a[0] is self.v and a[1].op == 'num' else tm.app(name, a, 'i'))
        return t


def at_point(v, point, t):
    return point.put(t) if isinstance(point, KeyPoint) else tm.subst(t, {v: point})


def in_range(lo, hi, point):
    return tm.TRUE if isinstance(point, KeyPoint) else tm.and_(tm.le(lo, point), tm.lt(point, hi))


_CONSTANT = {}


def constant(t):
    """value of a real term without symbols, None otherwise (evaluated in double precision; callers keep a distance
    from the values where the result would matter)"""
    if tm.free(t) - {tm.PI.key}:
        return None
    if t.key not in _CONSTANT:
        v = None
        if not any(not n.startswith('sym:') for n in tm.appnames(t)):
            try:
                v = evaluate(t, {})
                if isinstance(v, complex):
                    v = v.real if abs(v.imag) < 1e-12 else None
                if v is not None and not math.isfinite(v):
                    v = None
            except (Unsupported, ArithmeticError, ValueError):
                v = None
        _CONSTANT[t.key] = v
    return _CONSTANT[t.key]


class Budget(Exception):
    pass


DEADLINE = [None]


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Budget('time budget of the obligation exhausted')


def padd(p, q, c=1):
    if len(q) > len(p) and c == 1:
        p, q = q, p
    r = dict(p)
    for m, x in q.items():
        y = r.get(m, 0) + c * x
        if y:
            r[m] = y
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    if not c:
        return {}
    return {m: c * x for m, x in p.items()}


ATOM = {}  # key -> T


def akey(t):
    ATOM[t.key] = t
    return t.key


KI = akey(tm.I)
KPI = akey(tm.PI)


def _isexp(t):
    return t.op == 'fn' and t.args[0] == 'exp'


def _primes(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Ctx:
    """facts under which terms are normalised and conditions decided"""

    def __init__(self, facts=(), parent=None):
        self.facts = []
        self.rules = {}       # app name -> list of (vars, pattern args, value)
        self.cache = {}
        self.ccache = {}
        self.ecache = {}
        self.truths = {}
        self._z3 = None
        self.symeq = {}
        self.appeq = {}
        self.busy = set()
        self.active = {}
        for f in facts:
            self._assume(f)

    def extend(self, *facts):
        c = Ctx()
        c.facts = list(self.facts)
        c.rules = {k: list(v) for k, v in self.rules.items()}
        c.truths = dict(self.truths)
        c.symeq = dict(self.symeq)
        c.appeq = dict(self.appeq)
        for f in facts:
            c._assume(f)
        return c

    def assume(self, f):
        """in-place: invalidates caches"""
        self._assume(f)
        self.cache = {}
        self.ccache = {}
        self.ecache = {}

    def _assume(self, f):
        if f is tm.TRUE:
            return
        if f.op == 'and':
            for g in f.args:
                self._assume(g)
            return
        if f.op == 'forall':
            vs = []
            b = f
            while b.op == 'forall':
                vs.append(b.args[:3])
                b = b.args[3]
            for g in (b.args if b.op == 'and' else (b,)):
                if g.op == 'eq' and all(x.sort != 'b' for x in g.args):
                    for l, r in (g.args, g.args[::-1]):
                        if l.op == 'app' and l.key not in _subkeys(r):
                            if r.op == 'app' and l.args[0] < r.args[0]:
                                continue
                            self.rules.setdefault(l.args[0], []).append((vs, l.args[1:], r))
                            break
            self.facts.append(f)
            return
        self.facts.append(f)
        c = f
        val = True
        if c.op == 'not':
            c, val = c.args[0], False
        self.truths[c.key] = val
        if f.op == 'eq':
            a, b = f.args
            for l, r in ((a, b), (b, a)):
                if l.op == 'sym' and l is not tm.PI and l.key not in tm.free(r) and l.sort == r.sort:
                    self.symeq[l.key] = r
                    break
                if l.op == 'app' and r.op == 'num':
                    self.appeq[l.key] = r
                    break
            else:
                self.solve_linear(a, b)

    def solve_linear(self, a, b):
        """an integer equation with a symbol of coefficient +-1 eliminates that symbol"""
        if a.sort not in 'ir' or b.sort not in 'ir':
            return
        p = padd(self.norm(a), self.norm(b), -1)
        sort = self.psort(p)
        if sort not in 'ir':
            return
        best = None
        for m, x in p.items():
            if len(m) == 1 and m[0][1] == 1 and (abs(x) == 1 or sort == 'r'):
                s = ATOM[m[0][0]]
                if s.op != 'sym' or s.sort != sort or s is tm.PI:
                    continue
                rest = self.unpoly({k: -v / x for k, v in p.items() if k != m})
                if s.key in tm.free(rest):
                    continue
                rank = ('!' in str(s.args[0]), s.args[0])
                if best is None or rank > best[0]:
                    best = rank, s, rest
        if best is not None:
            self.symeq[best[1].key] = best[2]
        self.cache = {}
        self.ccache = {}
        self.ecache = {}

    # -- polynomials -------------------------------------------------------------
    def norm(self, t):
        r = self.cache.get(t.key)
        if r is None:
            STATS['norms'] += 1
            if STATS['norms'] % 256 == 0:
                tick()
            r = self._norm(t)
            self.cache[t.key] = r
        return r

    def atom(self, t):
        return {((akey(t), 1),): Fraction(1)}

    def pmul(self, p, q):
        r = {}
        if len(p) * len(q) > 4000:
            tick()
            if len(p) * len(q) > 400000:
                raise Budget('polynomial too large')
        for m, x in p.items():
            for n, y in q.items():
                for k, z in self.mmul(m, n):
                    v = r.get(k, 0) + x * y * z
                    if v:
                        r[k] = v
                    else:
                        r.pop(k, None)
        return r

    def ppow(self, p, n):
        if n < 0:
            return self.ppow(self.pinv(p), -n)
        r = {(): Fraction(1)}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def mmul(self, m, n):
        """product of monomials -> list of (monomial, coefficient)"""
        if not m:
            return ((n, 1),)
        if not n:
            return ((m, 1),)
        d = dict(m)
        special = False
        for k, e in n:
            d[k] = d.get(k, 0) + e
        c = Fraction(1)
        exps = []
        extra = None
        for k in list(d):
            e = d[k]
            if e == 0:
                del d[k]
                continue
            if k == KI:
                e %= 4
                if e >= 2:
                    c = -c
                    e -= 2
                if e:
                    d[k] = e
                else:
                    del d[k]
                continue
            t = ATOM[k]
            if t.op == 'fn':
                f = t.args[0]
                if f == 'exp':
                    exps.append((t, e))
                elif f == 'sqrt' and (e >= 2 or e < 0):
                    h = e // 2
                    if e - 2 * h:
                        d[k] = e - 2 * h
                    else:
                        del d[k]
                    q = self.ppow(self.norm(t.args[1]), h)
                    extra = q if extra is None else self.pmul(extra, q)
                elif f == 'abs' and e >= 2:
                    h = e // 2
                    if e - 2 * h:
                        d[k] = e - 2 * h
                    else:
                        del d[k]
                    q = self.ppow(self.norm(t.args[1]), 2 * h)
                    extra = q if extra is None else self.pmul(extra, q)
        if len(d) > 1:
            got = self.merge_guard(d)
            if got is not None:
                extra = got if extra is None else self.pmul(extra, got)
        if len(exps) > 1 or exps and exps[0][1] != 1:
            for t, e in exps:
                d.pop(t.key, None)
            a = {}
            for t, e in exps:
                a = padd(a, self.norm(t.args[1]), e)
            q = self.expof(a)
            extra = q if extra is None else self.pmul(extra, q)
        key = tuple(sorted(d.items()))
        if extra is None:
            return ((key, c),)
        out = self.pmul({key: c}, extra)
        return tuple(out.items())

    def merge_guard(self, d):
        """ite(c, X, 0) F = ite(c, X F', 0), where F' is F if c holds, for factors F that depend on c (removed from d)"""
        for k, e in d.items():
            t = ATOM[k]
            if t.op != 'ite' or e < 1:
                continue
            c, a, b = t.args
            if b is tm.ZERO:
                val, x = True, a
            elif a is tm.ZERO:
                val, x = False, b
            else:
                continue
            moved, fs = [], []
            for k2, e2 in d.items():
                u = ATOM[k2]
                if k2 == k or _isexp(u):
                    continue
                if c.key in subkeys(u):
                    f = assume_cond(u, c, val)
                    if f is not u:
                        moved.append(k2)
                        fs.append(tm.power(f, e2))
            if not moved:
                continue
            for k2 in moved:
                del d[k2]
            del d[k]
            f = tm.mul(tm.power(x, e), *fs)
            return self.norm(tm.ite(c, f, tm.ZERO) if val else tm.ite(c, tm.ZERO, f))
        return None

    def expof(self, a):
        """exp of a polynomial"""
        rest = {}
        c = Fraction(1)
        ipow = 0
        for m, x in a.items():
            d = dict(m)
            if d.get(KI) == 1 and d.get(KPI) == 1:
                others = [ATOM[k] for k in d if k not in (KI, KPI)]
                if all(o.sort == 'i' for o in others) and all(e > 0 for e in d.values()):
                    if (x / 2).denominator == 1:
                        continue
                    if not others:
                        x = x % 2
                        if x == 1:
                            c = -c
                            continue
                        if x == Fraction(1, 2):
                            ipow += 1
                            continue
                        if x == Fraction(3, 2):
                            ipow += 3
                            continue
                        if x > 1:
                            c = -c
                            x -= 1
                    else:
                        if x.denominator == 1 and False:
                            pass
                        x = x % 2 if all(d[k] == 1 for k in d) or True else x
                        if x > 1:
                            x -= 2
            rest[m] = x
        r = {(): c} if not rest else {((akey(mk('fn', ('exp', self.unpoly(rest)), 'c' if any(KI in dict(m) or any(ATOM[k].sort == 'c' for k, e in m) for m in rest) else 'r')), 1),): c}
        if ipow % 4:
            r = self.pmul(r, self.ppow(self.atom(tm.I), ipow % 4))
        return r

    def pinv(self, p):
        if not p:
            return self.atom(tm.sym('1/0', 'r'))
        if len(p) == 1:
            (m, x), = p.items()
            r = {(): 1 / x}
            for k, e in m:
                t = ATOM[k]
                if _isexp(t):
                    r = self.pmul(r, self.expof(pscale(self.norm(t.args[1]), -e)))
                elif k == KI:
                    r = self.pmul(r, self.ppow({((KI, 1),): Fraction(-1)}, e))
                elif t.op == 'fn' and t.args[0] == 'sqrt':
                    q = self.pinv(self.norm(t.args[1]))
                    r = self.pmul(r, self.pmul(self.ppow(self.atom(t), e), self.ppow(q, e)))
                elif t.op == 'pow' and t.args[1] == -1:
                    r = self.pmul(r, self.ppow(self.norm(t.args[0]), e))
                else:
                    r = self.pmul(r, {((k, -e),): Fraction(1)})
            return r
        # common monomial factor (only plain atoms)
        it = iter(p)
        common = dict(next(it))
        for m in it:
            d = dict(m)
            for k in list(common):
                e = min(common[k], d.get(k, 0)) if common[k] > 0 or d.get(k, 0) > 0 else max(common[k], d.get(k, 0))
                if k not in d or (common[k] > 0) != (d[k] > 0):
                    # negative exponents: pull out the most negative
                    e = 0
                if e:
                    common[k] = e
                else:
                    del common[k]
        # pull out negative powers as well
        neg = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    neg[k] = min(neg.get(k, 0), e)
        for k, e in neg.items():
            common[k] = e
        common = {k: e for k, e in common.items() if ATOM[k].op != 'fn' or ATOM[k].args[0] not in ('exp', 'sqrt', 'abs')}
        common.pop(KI, None)
        pref = {(): Fraction(1)}
        if common:
            cm = {tuple(sorted((k, -e) for k, e in common.items())): Fraction(1)}
            p = self.pmul(p, cm)
            pref = cm
            if len(p) == 1:
                return self.pmul(pref, self.pinv(p))
        lead = p[min(p, key=self._mkey)]
        p = pscale(p, 1 / lead)
        pref = pscale(pref, 1 / lead)
        t = mk('pow', (self.unpoly(p), -1), 'c' if self.psort(p) == 'c' else 'r')
        return self.pmul(pref, self.atom(t))

    def _mkey(self, m):
        return (len(m), m)

    def psort(self, p):
        s = 'i'
        for m, x in p.items():
            if x.denominator != 1 and s == 'i':
                s = 'r'
            for k, e in m:
                a = ATOM[k].sort
                if a == 'c':
                    return 'c'
                if (a == 'r' or e < 0) and s == 'i':
                    s = 'r'
        return s

    def unpoly(self, p):
        out = []
        for m in sorted(p, key=self._mkey):
            x = p[m]
            fs = []
            for k, e in m:
                t = ATOM[k]
                fs.append(t if e == 1 else mk('pow', (t, e), t.sort if e > 0 or t.sort != 'i' else 'r'))
            s = num(x) if x.denominator == 1 else num(x, 'r')
            if not fs:
                out.append(s)
            elif x == 1 and len(fs) == 1:
                out.append(fs[0])
            else:
                args = ([s] if x != 1 else []) + fs
                out.append(mk('mul', tuple(args), max((a.sort for a in args), key=tm.RANK.get)))
        if not out:
            return tm.ZERO
        if len(out) == 1:
            return out[0]
        return mk('add', tuple(out), max((a.sort for a in out), key=tm.RANK.get))

    def canon(self, t):
        r = self.ccache.get(t.key)
        if r is None:
            if t.sort == 'b':
                r = self.ccond(t)
            else:
                r = self.unpoly(self.norm(t))
            self.ccache[t.key] = r
            if t.sort != 'b':
                self.ccache.setdefault(r.key, r)
        return r

    def _norm(self, t):
        op = t.op
        if op == 'num':
            return {(): t.args[0]} if t.args[0] else {}
        if op == 'sym':
            if t.key in self.symeq:
                return self.norm(self.symeq[t.key])
            return self.atom(t)
        if op == 'I':
            return self.atom(t)
        if op == 'add':
            r = {}
            for a in t.args:
                for m, x in self.norm(a).items():
                    y = r.get(m, 0) + x
                    if y:
                        r[m] = y
                    else:
                        r.pop(m, None)
            return r
        if op == 'mul':
            r = {(): Fraction(1)}
            for a in t.args:
                r = self.pmul(r, self.norm(a))
                if not r:
                    break
            return r
        if op == 'pow':
            return self.ppow(self.norm(t.args[0]), t.args[1])
        if op == 'cast':
            return self.norm(t.args[0])
        if op == 'mod':
            return self.norm_mod(*t.args)
        if op == 'idiv':
            return self.norm_idiv(*t.args)
        if op == 'app':
            return self.norm_app(t)
        if op == 'ite':
            c = self.ccond(t.args[0])
            if c is tm.TRUE:
                return self.norm(t.args[1])
            if c is tm.FALSE:
                return self.norm(t.args[2])
            if c.op == 'not':
                c, a, b = c.args[0], t.args[2], t.args[1]
            else:
                c, a, b = c, t.args[1], t.args[2]
            # branches normalised under the same facts (conditions are used when splitting)
            pa, pb = self.norm(a), self.norm(b)
            if pa == pb:
                return pa
            if c.op == 'le' and c.args[0] is tm.ZERO and c.args[1].sort == 'r':
                # maximum or minimum: the branches agree where the condition changes
                d, q = padd(pa, pb, -1), self.norm(c.args[1])
                if d.keys() == q.keys():
                    x = next(iter(q))
                    if d == pscale(q, d[x] / q[x]):
                        c = mk('lt', c.args, 'b')
            ca, cb = self.unpoly(pa), self.unpoly(pb)
            ra, rb = assume_cond(ca, c, True), assume_cond(cb, c, False)
            if ra is not ca or rb is not cb:
                return self.norm(tm.ite(c, ra, rb))
            # pull out common part: ite(c, a, b) = b + ite(c, a-b, 0) is not canonical; keep as is
            s = max((ca.sort, cb.sort), key=tm.RANK.get)
            if s != 'i' and bool(pa) != bool(pb):
                # numeric factor outside
                q = pa or pb
                x = q[min(q, key=self._mkey)]
                if x != 1:
                    u = self.unpoly(pscale(q, 1 / x))
                    u = (c, u, cb) if pa else (c, ca, u)
                    return pscale(self.atom(mk('ite', u, s)), x)
            return self.atom(mk('ite', (c, ca, cb), s))
        if op == 'sum':
            return self.norm_sum(t)
        if op == 're':
            p = self.norm(t.args[0])
            return pscale(padd(p, self.pconj(p)), Fraction(1, 2))
        if op == 'im':
            p = self.norm(t.args[0])
            q = padd(p, self.pconj(p), -1)
            return self.pmul(q, {((KI, 1),): Fraction(-1, 2)})
        if op == 'fn':
            return self.norm_fn(t)
        if t.sort == 'b':
            return self.norm(tm.b2i(self.ccond(t)))
        raise Unsupported('normalise ' + op)

    def pconj(self, p):
        r = {}
        for m, x in p.items():
            q = {(): x}
            for k, e in m:
                a = ATOM[k]
                if a.sort != 'c':
                    q = self.pmul(q, {((k, e),): Fraction(1)})
                else:
                    q = self.pmul(q, self.ppow(self.aconj(a), e))
            r = padd(r, q)
        return r

    def aconj(self, a):
        if a.op == 'I':
            return {((KI, 1),): Fraction(-1)}
        if a.op == 'fn' and a.args[0] == 'exp':
            return self.expof(self.pconj(self.norm(a.args[1])))
        if a.op == 'fn' and a.args[0] == 'conj':
            return self.norm(a.args[1])
        if a.op == 'sum':
            return self.norm(tm.Sum(*a.args[:3], tm.conj(a.args[3])))
        if a.op == 'ite':
            return self.norm(tm.ite(a.args[0], self.unpoly(self.pconj(self.norm(a.args[1]))), self.unpoly(self.pconj(self.norm(a.args[2])))))
        if a.op == 'pow' and a.args[1] == -1:
            return self.pinv(self.pconj(self.norm(a.args[0])))
        return self.atom(mk('fn', ('conj', a), 'c'))

    def norm_fn(self, t):
        name = t.args[0]
        args = t.args[1:]
        if name == 'exp':
            return self.expof(self.norm(args[0]))
        if name in ('cos', 'sin', 'cosh', 'sinh'):
            a = self.norm(args[0])
            if name in ('cos', 'sin'):
                a = self.pmul(a, {((KI, 1),): Fraction(1)})
            p, q = self.expof(a), self.expof(pscale(a, -1))
            if name in ('cos', 'cosh'):
                return pscale(padd(p, q), Fraction(1, 2))
            r = pscale(padd(p, q, -1), Fraction(1, 2))
            if name == 'sin':
                r = self.pmul(r, {((KI, 1),): Fraction(-1)})
            return r
        if name == 'tanh':
            a = self.norm(args[0])
            e = self.expof(pscale(a, -2))
            # (1 - e^-2a) / (1 + e^-2a)
            return self.pmul(padd({(): Fraction(1)}, e, -1), self.pinv(padd({(): Fraction(1)}, e)))
        if name == 'conj':
            return self.pconj(self.norm(args[0]))
        if name == 'sqrt':
            return self.norm_sqrt(self.norm(args[0]), t.sort)
        if name == 'abs':
            p = self.norm(args[0])
            if not p:
                return {}
            if len(p) == 1 and () in p:
                return {(): abs(p[()])}
            lead = p[min(p, key=self._mkey)]
            if lead < 0:
                p = pscale(p, -1)
            # all atoms known non-negative?
            a = self.unpoly(p)
            if a.sort in 'ir' and len(p) <= 3:
                if self.entails(tm.le(num(0), a)):
                    return p
                if self.entails(tm.le(a, num(0))):
                    return pscale(p, -1)
            # pull out numeric content
            c = abs(p[min(p, key=self._mkey)])
            if c != 1:
                a = self.unpoly(pscale(p, 1 / c))
            return pscale(self.atom(mk('fn', ('abs', a), 'r')), c)
        if name in ('round', 'floor', 'rint', 'trunc'):
            p = self.norm(args[0])
            # split integer part
            ip, rp = {}, {}
            for m, x in p.items():
                if x.denominator == 1 and all(ATOM[k].sort == 'i' and e > 0 for k, e in m):
                    ip[m] = x
                else:
                    rp[m] = x
            if not rp:
                return ip
            v = constant(self.unpoly(p))
            if v is not None and abs(v) < 1e6 and abs(v * 2 - round(v * 2)) > 1e-6:
                v = int(v) if name == 'trunc' else math.floor(v) if name == 'floor' else round(v)
                return {(): Fraction(v)} if v else {}
            if name == 'trunc':
                a = self.unpoly(p)
                if len(rp) == 1 and not ip and ATOM.get(next(iter(rp))[0][0] if next(iter(rp)) else None) is not None:
                    (m, x), = rp.items()
                    if x == 1 and len(m) == 1 and m[0][1] == 1 and ATOM[m[0][0]].op == 'fn' and ATOM[m[0][0]].args[0] == 'rint':
                        return self.norm(mk('fn', ('round', ATOM[m[0][0]].args[1]), 'i'))
                return self.atom(mk('fn', (name, a), 'i'))
            if name in ('round', 'rint') and len(rp) == 1 and () in rp:
                # half-integers: banker's rounding is not translation invariant
                if (rp[()] * 2).denominator == 1:
                    return self.atom(mk('fn', ('round', self.unpoly(p)), 'i'))
            if name in ('round', 'rint') and ip and not all((x / 2).denominator == 1 for x in ip.values()):
                # banker's rounding commutes only with even integers; assume no exact ties is not sound
                return self.atom(mk('fn', ('round', self.unpoly(p)), 'i'))
            nm = 'round' if name == 'rint' else name
            if () in rp and len(rp) == 1:
                v = math.floor(rp[()]) if nm == 'floor' else round(rp[()])
                return padd(ip, {(): Fraction(v)} if v else {})
            ur = self.unpoly(rp)
            if nm == 'floor':
                for v in (0, 1, -1):
                    if self.entails(tm.le(num(v), ur)) and self.entails(tm.lt(ur, num(v + 1))):
                        return padd(ip, {(): Fraction(v)} if v else {})
            return padd(ip, self.atom(mk('fn', (nm, ur), 'i')))
        if name == 'arctan2' or True:
            a = tuple(self.canon(x) if isinstance(x, T) else x for x in args)
            if name == 'log' and a[0].op == 'num' and a[0].args[0] == 1:
                return {}
            if name == 'log':
                p = self.norm(a[0])
                if len(p) == 1:
                    (m, x), = p.items()
                    if x == 1 and len(m) == 1 and m[0][1] == 1 and _isexp(ATOM[m[0][0]]):
                        q = self.norm(ATOM[m[0][0]].args[1])
                        if self.psort(q) != 'c':
                            return q
            if name in ODD and len(a) == 1:
                p = self.norm(a[0])
                if not p:
                    return {}
                if name == 'sign' and len(p) <= 3:
                    u = self.unpoly(p)
                    if u.sort in 'ir':
                        if self.entails(tm.lt(num(0), u)):
                            return {(): Fraction(1)}
                        if self.entails(tm.lt(u, num(0))):
                            return {(): Fraction(-1)}
                        if self.entails(tm.eq(u, num(0))):
                            return {}
                if p[min(p, key=self._mkey)] < 0:
                    return pscale(self.atom(mk('fn', (name, self.unpoly(pscale(p, -1))), t.sort)), -1)
            return self.atom(mk('fn', (name,) + a, t.sort))

    def norm_sqrt(self, p, sort):
        if not p:
            return {}
        if len(p) == 1:
            (m, x), = p.items()
            if x > 0 and not m:
                n = x.numerator * x.denominator
                c = Fraction(1, x.denominator)
                mono = []
                for q, e in _primes(n).items():
                    c *= q ** (e // 2)
                    if e % 2:
                        mono.append((akey(mk('fn', ('sqrt', num(q)), 'r')), 1))
                return {tuple(sorted(mono)): c}
            if x > 0 and self.psort(p) != 'c':
                # pull out factors known to be non-negative
                r = self.norm_sqrt({(): x}, 'r') if x != 1 else {(): Fraction(1)}
                rest = []
                for k, e in m:
                    a = ATOM[k]
                    if e % 2 == 0:
                        b = self.norm(mk('fn', ('abs', a), 'r'))
                        r = self.pmul(r, self.ppow(b, e // 2))
                    elif _isexp(a):
                        r = self.pmul(r, self.expof(pscale(self.norm(a.args[1]), Fraction(e, 2))))
                    elif self.entails(tm.le(num(0), a)):
                        s = self.atom(mk('fn', ('sqrt', a), 'r'))
                        r = self.pmul(r, self.ppow(s, e))
                    else:
                        rest.append((k, e))
                if rest:
                    r = self.pmul(r, self.atom(mk('fn', ('sqrt', self.unpoly({tuple(rest): Fraction(1)})), 'r')))
                return r
        # numeric content
        lead = abs(p[min(p, key=self._mkey)])
        if lead != 1 and self.psort(p) != 'c':
            q = pscale(p, 1 / lead)
            return self.pmul(self.norm_sqrt({(): lead}, 'r'), self.atom(mk('fn', ('sqrt', self.unpoly(q)), sort)))
        return self.atom(mk('fn', ('sqrt', self.unpoly(p)), sort))

    def norm_app(self, t):
        name = t.args[0]
        idx = tuple(self.canon(a) for a in t.args[1:])
        for vs, pat, val in self.rules.get(name, ()):
            m = {}
            ok = True
            for p, a in zip(pat, idx):
                w = next((w for w in vs if w[0] is p), None)
                if w is not None:
                    if p.key in m and m[p.key] is not a:
                        ok = False
                        break
                    m[p.key] = a
                elif p is not a:
                    cp = self.canon(p)
                    if cp is not a:
                        # shifted variable
                        w = [w[0] for w in vs if w[0].key in tm.free(cp)]
                        x = solve_eq(self, mk('eq', (cp, a), 'b'), w[0]) if len(w) == 1 and a.sort == 'i' else None
                        if x is None or w[0].key in m and m[w[0].key] is not x:
                            ok = False
                            break
                        m[w[0].key] = x
            if ok and len(m) == len(vs):
                sub = {v: m[v.key] for v, _, _ in vs}
                k = (t.key, 'rule')
                if k in self.busy:
                    continue
                self.busy.add(k)
                try:
                    for v, lo, hi in vs:
                        if not (self.entails(tm.le(tm.subst(lo, sub), sub[v])) and self.entails(tm.lt(sub[v], tm.subst(hi, sub)))):
                            ok = False
                            break
                finally:
                    self.busy.discard(k)
                if ok:
                    return self.norm(tm.subst(val, sub))
        h = APPHOOK.get(name)
        if h is not None:
            r = h(self, idx)
            if r is not None:
                return self.norm(r)
        a = mk('app', (name,) + idx, t.sort)
        v = self.appeq.get(a.key)
        if v is not None:
            return self.norm(v)
        return self.atom(a)

    # -- integers ------------------------------------------------------------------
    def _multiple(self, p, n):
        """split p into n * q + r with r free of multiples of n; n a polynomial"""
        if len(n) != 1:
            return self._divide(p, n)
        (nm, nx), = n.items()
        nd = dict(nm)
        q, r = {}, {}
        for m, x in p.items():
            d = dict(m)
            if all(d.get(k, 0) >= e for k, e in nd.items()) and (x / nx).denominator == 1 and all(
                    ATOM[k].sort == 'i' for k in d):
                for k, e in nd.items():
                    d[k] -= e
                    if not d[k]:
                        del d[k]
                q[tuple(sorted(d.items()))] = x / nx
            else:
                r[m] = x
        return q, r

    def _divide(self, p, n):
        """division with remainder by a polynomial with leading coefficient +-1 (degree, then lexicographic order)"""
        order = lambda m: (sum(e for _, e in m), sorted((k for k, e in m for _ in range(e)), reverse=True))
        if any(ATOM[k].sort != 'i' or e < 0 for q in (p, n) for m in q for k, e in m) or any(x.denominator != 1 for x in p.values()):
            return None
        lead = max(n, key=order)
        nx = n[lead]
        nd = dict(lead)
        q, r = {}, {}
        p = dict(p)
        for _ in range(2000):
            if not p:
                return q, r
            m = max(p, key=order)
            x = p[m]
            d = dict(m)
            if (x / nx).denominator == 1 and all(d.get(k, 0) >= e for k, e in nd.items()):
                for k, e in nd.items():
                    d[k] -= e
                    if not d[k]:
                        del d[k]
                f = {tuple(sorted(d.items())): x / nx}
                q = padd(q, f)
                p = padd(p, self.pmul(f, n), -1)
            else:
                r[m] = p.pop(m)
        return None

    def norm_mod(self, a, n):
        p, np_ = self.norm(a), self.norm(n)
        if len(np_) > 1 and self.psort(p) == self.psort(np_) == 'i':
            # a - n (a // n)
            return padd(p, self.pmul(np_, self.norm_idiv(a, n)), -1)
        if self.psort(p) != 'i' or self.psort(np_) != 'i':
            # a - n floor(a / n)
            return padd(p, self.pmul(np_, self.norm_idiv(a, n)), -1)
        cn = self.unpoly(np_)
        # strip inner mods and idivs by the same n
        q = {}
        changed = False
        for m, x in p.items():
            if len(m) == 1 and m[0][1] == 1 and ATOM[m[0][0]].op == 'mod' and ATOM[m[0][0]].args[1] is cn:
                q = padd(q, self.norm(ATOM[m[0][0]].args[0]), x)
                changed = True
            else:
                q = padd(q, {m: x})
        s = self._multiple(q, np_)
        if s is not None:
            q = s[1]
        if () in q and cn.op == 'num':
            c = q[()] % cn.args[0]
            q = dict(q)
            if c:
                q[()] = c
            else:
                q.pop(())
        if not q:
            return {}
        if len(q) == 1 and () in q and cn.op == 'num':
            return {(): q[()] % cn.args[0]}
        ca = self.unpoly(q)
        if self.entails(tm.le(num(0), ca)) and self.entails(tm.lt(ca, cn)):
            return q
        # one period above
        if self.entails(tm.le(cn, ca)) and self.entails(tm.lt(ca, tm.mul(num(2), cn))):
            return padd(q, np_, -1)
        if self.entails(tm.lt(ca, num(0))) and self.entails(tm.le(tm.neg(cn), ca)):
            return padd(q, np_)
        got = self.common_factor(q, np_)
        if got is not None:
            f, d, e, rest = got
            return padd(e, self.pmul(f, self.norm_mod(self.unpoly(d), self.unpoly(rest))))
        return self.atom(mk('mod', (ca, cn), 'i'))

    def common_factor(self, p, n):
        """p = f d + e with 0 <= e < f and n = f rest"""
        if len(n) != 1 or len(p) < 2:
            return None
        (nm, nx), = n.items()
        options = [({(): nx}, {nm: Fraction(1)})] if nm and nx.denominator == 1 and nx > 1 else []
        if len(nm) + (nx != 1) > 1:
            for k, e in nm:
                if e == 1:
                    options.append(({((k, 1),): Fraction(1)}, {tuple(x for x in nm if x[0] != k): nx}))
        for f, rest in options:
            (fm, fx), = f.items()
            d, e = {}, {}
            for m, x in p.items():
                m_ = dict(m)
                if (x / fx).denominator == 1 and all(m_.get(k, 0) >= 1 for k, _ in fm):
                    for k, _ in fm:
                        m_[k] -= 1
                        if not m_[k]:
                            del m_[k]
                    d[tuple(sorted(m_.items()))] = x / fx
                else:
                    e[m] = x
            if not d:
                continue
            ce, cf = self.unpoly(e), self.unpoly(f)
            if self.entails(tm.le(num(0), ce)) and self.entails(tm.lt(ce, cf)):
                return f, d, e, rest
        return None

    def norm_idiv(self, a, n):
        p, np_ = self.norm(a), self.norm(n)
        cn = self.unpoly(np_)
        if self.psort(p) != 'i' or self.psort(np_) != 'i':
            # real floor division
            return self.norm(mk('fn', ('floor', tm.mul(self.unpoly(p), tm.inv(cn))), 'i'))
        s = self._multiple(p, np_)
        if s is not None:
            q, r = s
        else:
            q, r = {}, p
        if not r:
            return q
        cr = self.unpoly(r)
        if cn.op == 'num' and len(r) == 1 and () in r:
            v = math.floor(r[()] / cn.args[0])
            return padd(q, {(): Fraction(v)} if v else {})
        if self.entails(tm.le(num(0), cr)) and self.entails(tm.lt(cr, cn)):
            return q
        if self.entails(tm.le(cn, cr)) and self.entails(tm.lt(cr, tm.mul(num(2), cn))):
            return padd(q, {(): Fraction(1)})
        if self.entails(tm.lt(cr, num(0))) and self.entails(tm.le(tm.neg(cn), cr)):
            return padd(q, {(): Fraction(-1)})
        got = self.common_factor(r, np_)
        if got is not None:
            return padd(q, self.norm_idiv(self.unpoly(got[1]), self.unpoly(got[3])))
        return padd(q, self.atom(mk('idiv', (cr, cn), 'i')))

    # -- sums ------------------------------------------------------------------------
    def norm_sum(self, t):
        """linear: a sum of monomials; binders canonically renamed"""
        v, lo, hi, body = t.args
        clo, chi = self.canon(lo), self.canon(hi)
        pl = padd(self.norm(chi), self.norm(clo), -1)
        if not pl:
            return {}
        if chi.op == 'app' and chi.args[0] in FILTERS and clo.op == 'num' and clo.args[0] == 0:
            got = self.sum_filtered(v, chi, body)
            if got is not None:
                return got
        if '@' in v.args[0]:
            # canonical binder: rename, so that binders introduced below cannot capture it
            w = alternate(v, self.active.get(v.key, 0), lo, hi)
            self.active[v.key] = self.active.get(v.key, 0) + 1
            try:
                p = self.norm(tm.subst(body, {v: w}))
                r = {}
                for m, x in p.items():
                    r = padd(r, pscale(self.sum_mono(w, clo, chi, m), x))
                return r
            finally:
                self.active[v.key] -= 1
        if v.key not in RANGES:
            RANGES[v.key] = (v, lo, hi)
        p = self.norm(body)
        r = {}
        for m, x in p.items():
            r = padd(r, pscale(self.sum_mono(v, clo, chi, m), x))
        return r

    def sum_filtered(self, v, m, body):
        """sum over a filtered list: conditional sum over the list"""
        params, n, i, cond = FILTERS[m.args[0]]
        sel = 'fsel' + m.args[0][4:]
        args = tuple(map(self.canon, m.args[1:]))
        ren = dict(zip(params, args))
        n = tm.subst(n, ren)
        w = index('f', num(0), n)

        def put(t):
            if self.canon(t[-1]) is v and tuple(map(self.canon, t[:-1])) == args:
                return w
            return tm.app(sel, t, 'i')
        new = tm.replace_apps(body, sel, put)
        if v.key in tm.free(new):
            # only where the position in the list does not matter after all
            RANGES.setdefault(v.key, (v, num(0), m))
            new = tm.replace_apps(self.canon(body), sel, put)
        body = new
        if v.key in tm.free(body):
            return None
        ren[i] = w
        return self.norm(tm.Sum(w, num(0), n, tm.ite(tm.subst(cond, ren), body, num(0))))

    def sum_mono(self, v, lo, hi, m):
        inside, outside = [], []
        for k, e in m:
            (inside if v.key in tm.free(ATOM[k]) else outside).append((k, e))
        out = {tuple(outside): Fraction(1)}
        if not inside:
            n = padd(self.norm(hi), self.norm(lo), -1)
            if not self.entails(tm.le(lo, hi)):
                n = self.atom(mk('fn', ('max0', self.unpoly(n)), 'i'))
            return self.pmul(out, n)
        # split exp factors into dependent and independent parts
        ins = []
        for k, e in inside:
            a = ATOM[k]
            if _isexp(a):
                dep, ind = {}, {}
                for mm, x in self.norm(a.args[1]).items():
                    if any(v.key in tm.free(ATOM[kk]) for kk, _ in mm):
                        dep[mm] = x
                    else:
                        ind[mm] = x
                if ind:
                    out = self.pmul(out, self.expof(pscale(ind, e)))
                    for kk, ee in self.expof(pscale(dep, e)).items():
                        out = pscale(out, ee)
                        ins.extend(kk)
                    continue
            ins.append((k, e))
        inside = ins
        if not inside:
            return self.sum_mono_const(out, lo, hi)
        got = self.split_range(v, lo, hi, inside)
        if got is not None:
            return self.pmul(out, got)
        got = self.split_digits(v, lo, hi, inside)
        if got is not None:
            return self.pmul(out, got)
        # single-point support: ite(v == c, a, 0)
        for k, e in inside:
            a = ATOM[k]
            if a.op == 'ite' and e == 1:
                got = self.point_support(v, lo, hi, a)
                if got is not None:
                    point, branch = got
                    rest = tuple((kk, ee) for kk, ee in inside if kk != k)
                    body = tm.mul(self.unpoly({rest: Fraction(1)}), branch)
                    val = at_point(v, point, body)
                    cond = in_range(lo, hi, point)
                    if not isinstance(point, KeyPoint):
                        return self.pmul(out, self.norm(tm.ite(cond, val, num(0))))
                    if v.key not in tm.free(val):
                        return self.pmul(out, self.norm(val))
                    continue
                c, x, y = a.args
                if not (x.op == 'num' and x.args[0] == 0 and y.op == 'num' and y.args[0] == 0):
                    if c.op == 'not':
                        c, x, y = c.args[0], y, x
                    if c.op in ('eq', 'and') and any(solve_eq(self, f, v) is not None for f in (c.args if c.op == 'and' else (c,))):
                        # x at one point, y elsewhere
                        rest = self.unpoly({tuple((kk, ee) for kk, ee in inside if kk != k): Fraction(1)})
                        got = padd(self.norm(tm.Sum(v, lo, hi, tm.mul(rest, y))),
                                   self.norm(tm.Sum(v, lo, hi, tm.mul(rest, tm.ite(c, tm.add(x, tm.neg(y)), num(0))))))
                        return self.pmul(out, got)
                if len(inside) == 1:
                    rng = self.range_support(v, lo, hi, a)
                    if rng is not None:
                        return self.pmul(out, self.norm(rng))
        # flatten nested sum atoms that depend on v
        binders = [(v, lo, hi)]
        factors = []
        for k, e in inside:
            a = ATOM[k]
            if a.op == 'sum' and e == 1:
                b = a
                ren = {}
                while b.op == 'sum':
                    w = index('s', tm.subst(b.args[1], ren), tm.subst(b.args[2], ren))
                    binders.append((w, tm.subst(b.args[1], ren), tm.subst(b.args[2], ren)))
                    ren[b.args[0]] = w
                    b = b.args[3]
                body = tm.subst(b, ren)
                factors.extend(body.args if body.op == 'mul' else (body,))
            else:
                factors.append(a if e == 1 else mk('pow', (a, e), a.sort if e > 0 or a.sort != 'i' else 'r'))
        if len(binders) > 1:
            # the flattened body may simplify (merge exponentials)
            pb = self.norm(tm.mul(*factors))
            if len(pb) != 1:
                r = {}
                for mm, x in pb.items():
                    r = padd(r, pscale(self.multi_sum(binders, mm), x))
                return self.pmul(out, r)
            (mm, x), = pb.items()
            return self.pmul(pscale(out, x), self.multi_sum(binders, mm))
        return self.pmul(out, self.close_sum(binders, inside))

    def sum_mono_const(self, out, lo, hi):
        n = padd(self.norm(hi), self.norm(lo), -1)
        if not self.entails(tm.le(lo, hi)):
            n = self.atom(mk('fn', ('max0', self.unpoly(n)), 'i'))
        return self.pmul(out, n)

    def multi_sum(self, binders, m):
        """sum over several binders of a monomial; split into connected components"""
        for n, (v, lo, hi) in enumerate(binders):
            if any(v.key in tm.free(l) | tm.free(h) for _, l, h in binders):
                continue
            if padd(self.norm(hi), self.norm(lo), -1) == {(): 1}:
                body = tm.subst(self.unpoly({m: Fraction(1)}), {v: lo})
                for w, l, h in binders[n + 1:][::-1] + binders[:n][::-1]:
                    body = tm.Sum(w, l, h, body)
                return self.norm(body)
            for k, e in m:
                a = ATOM[k]
                if a.op != 'ite' or e != 1 or v.key not in tm.free(a.args[0]):
                    continue
                got = self.point_support(v, lo, hi, a)
                if got is not None:
                    point, branch = got
                    body = tm.mul(self.unpoly({tuple(f for f in m if f[0] != k): Fraction(1)}), branch)
                    body = tm.ite(in_range(lo, hi, point), at_point(v, point, body), num(0))
                    if v.key in tm.free(body):
                        continue
                    for w, l, h in binders[n + 1:][::-1] + binders[:n][::-1]:
                        body = tm.Sum(w, l, h, body)
                    return self.norm(body)
        outside, groups = self.components(binders, m)
        r = {tuple(outside): Fraction(1)}
        for bs, fs in groups:
            if not fs:
                for v, lo, hi in bs:
                    r = self.sum_mono_const(r, lo, hi)
            else:
                r = self.pmul(r, self.close_sum(bs, fs))
        return r

    def components(self, binders, m):
        keys = {v.key for v, _, _ in binders}
        comp = {v.key: {v.key} for v, _, _ in binders}

        def join(ks):
            ks = list(ks)
            s = set()
            for k in ks:
                s |= comp[k]
            for k in s:
                comp[k] = s
        for v, lo, hi in binders:
            join(({v.key} | (tm.free(lo) | tm.free(hi)) & keys))
        outside = []
        # split exps additively by component
        parts = []
        for k, e in m:
            f = tm.free(ATOM[k]) & keys
            if not f:
                outside.append((k, e))
            else:
                a = ATOM[k]
                if _isexp(a):
                    parts.append((k, e))
                else:
                    join(f)
                    parts.append((k, e))
        exps = []
        plain = []
        for k, e in parts:
            a = ATOM[k]
            if _isexp(a):
                for mm, x in self.norm(a.args[1]).items():
                    f = frozenset().union(*[tm.free(ATOM[kk]) for kk, _ in mm]) & keys if mm else frozenset()
                    if f:
                        join(f)
                exps.append((k, e))
            else:
                plain.append((k, e))
        groups = {}
        for v, lo, hi in binders:
            groups.setdefault(min(comp[v.key]), ([], []))[0].append((v, lo, hi))
        for k, e in plain:
            f = tm.free(ATOM[k]) & keys
            groups[min(comp[next(iter(f))])][1].append((k, e))
        extra = {(): Fraction(1)}
        for k, e in exps:
            a = ATOM[k]
            byg = {}
            for mm, x in self.norm(a.args[1]).items():
                f = frozenset().union(*[tm.free(ATOM[kk]) for kk, _ in mm]) & keys if mm else frozenset()
                g = min(comp[next(iter(f))]) if f else None
                byg.setdefault(g, {})[mm] = x * e
            for g, q in byg.items():
                ex = self.expof(q)
                (mm, x), = ex.items()
                if x != 1 or g is None:
                    extra = self.pmul(extra, ex if g is None else {(): x})
                if g is not None:
                    groups[g][1].extend(mm)
        if extra != {(): Fraction(1)}:
            (mm, x), = extra.items()
            if x != 1:
                # numeric factor: represent through a num atom
                outside.append((akey(mk('fn', ('const', num(x)), 'r')), 1)) if False else None
                self._extra_coeff = x
                raise Unsupported('numeric factor from exponential')
            outside.extend(mm)
        return outside, list(groups.values())

    def close_sum(self, binders, factors):
        """canonical atom for a connected sum"""
        fs = {}
        for k, e in factors:
            fs[k] = fs.get(k, 0) + e
        if len(binders) > 1:
            # shrink: a factor not depending on an inner binder stays with it (no further factoring)
            pass
        n = len(binders)
        keys = {v.key for v, _, _ in binders}
        dep = any((tm.free(lo) | tm.free(hi)) & keys for _, lo, hi in binders)
        groups = {}
        order = []
        if dep or n == 1:
            orders = [tuple(binders)] if n == 1 else self._dep_orders(binders)
        else:
            for b in binders:
                groups.setdefault((b[1].key, b[2].key), []).append(b)
            gs = [groups[k] for k in sorted(groups)]
            tot = 1
            for g in gs:
                tot *= math.factorial(len(g))
            if tot > 720:
                raise Budget('too many equivalent binders')
            orders = []
            for combo in product(*[list(permutations(g)) for g in gs]):
                orders.append(tuple(b for g in combo for b in g))
        best = None
        body = self.unpoly({tuple(sorted(fs.items())): Fraction(1)})
        base = binder_level(body)
        for o in orders:
            while True:
                ren = {}
                bs = []
                for i, (v, lo, hi) in enumerate(o):
                    clo, chi = tm.subst(lo, ren), tm.subst(hi, ren)
                    w = bound(base + i, clo, chi)
                    ren[v] = w
                    bs.append((w, clo, chi))
                b = self.recanon(tm.subst(body, ren))
                up = binder_level(b)
                if up <= base:
                    break
                base = up
            rank = (b.key, tuple((w.key) for w, _, _ in bs))
            sk = self.skey(b)
            if best is None or (sk, rank) < (best[0], best[1]):
                best = (sk, rank, bs, b)
        _, _, bs, b = best
        t = b
        for w, lo, hi in reversed(bs):
            t = mk('sum', (w, lo, hi, t), b.sort)
        return self.atom(t)

    def _dep_orders(self, binders):
        """topological orders of dependent ranges"""
        out = []
        n = len(binders)
        if n > 5:
            return [tuple(binders)]
        keys = {v.key for v, _, _ in binders}
        for o in permutations(binders):
            seen = set()
            ok = True
            for v, lo, hi in o:
                if ((tm.free(lo) | tm.free(hi)) & keys) - seen:
                    ok = False
                    break
                seen.add(v.key)
            if ok:
                out.append(o)
        return out

    def skey(self, t):
        return t.key

    def recanon(self, t):
        """canonical order of factors after renaming (no sum re-normalisation at the top)"""
        p = self.norm(t)
        return self.unpoly(p)

    def split_range(self, v, lo, hi, inside):
        """conditions v < c with a parameter c between lo and hi divide the range of the sum"""
        for k, e in inside:
            a = ATOM[k]
            if not any(x.op == 'ite' for x in tm.subterms(a, lambda x: x.op == 'ite')):
                continue
            for c in self._conds(a, set()):
                if c.op not in ('lt', 'le') or v.key not in tm.free(c):
                    continue
                p = padd(self.norm(c.args[1]), self.norm(c.args[0]), -1)
                kv = ((v.key, 1),)
                if kv not in p or abs(p[kv]) != 1 or self.psort(p) != 'i':
                    continue
                s = p[kv]
                q = {m: x for m, x in p.items() if m != kv}
                if any(ATOM[kk].key in RANGES and RANGES[kk][2] is not None or ATOM[kk].op != 'sym' and not (
                        ATOM[kk].op == 'app' and ATOM[kk].args[0] in FILTERS and len(ATOM[kk].args) == 1) for m in q for kk, _ in m):
                    continue
                rest = self.unpoly(q)
                # s v + rest > 0 or >= 0
                if s < 0:
                    cut = rest if c.op == 'lt' else tm.add(rest, num(1))
                else:
                    cut = tm.add(tm.neg(rest), num(1)) if c.op == 'lt' else tm.neg(rest)
                cut = self.canon(cut)
                if not (self.entails(tm.le(lo, cut)) and self.entails(tm.le(cut, hi))):
                    continue
                body = self.unpoly({tuple(sorted(inside)): Fraction(1)})
                w = index('s', num(0), tm.add(hi, tm.neg(cut)))
                first = index('s', lo, cut)
                A = tm.Sum(first, lo, cut, tm.subst(assume_cond(body, c, s < 0), {v: first}))
                B = tm.Sum(w, num(0), tm.add(hi, tm.neg(cut)), tm.subst(assume_cond(body, c, s > 0), {v: tm.add(w, cut)}))
                return padd(self.norm(A), self.norm(B))
        return None

    def split_digits(self, v, lo, hi, inside):
        """sum over v in 0..A*B with v // B or v % B in the body: nested sums over both digits"""
        if self.norm(lo):
            return None
        for k, e in inside:
            for x in tm.subterms(ATOM[k], lambda x: x.op in ('idiv', 'mod') and x.args[0] is v and v.key not in tm.free(x.args[1])):
                B = self.norm(x.args[1])
                got = self._divide(self.norm(hi), B)
                if got is None or got[1] or not got[0] or len(got[0]) == 1 and () in got[0] and got[0][()] == 1:
                    continue
                A, B = self.unpoly(got[0]), self.unpoly(B)
                if any(RANGES.get(q, (None, None, None))[2] is not None for q in tm.free(A) | tm.free(B)):
                    continue
                if not (self.entails(tm.le(num(1), B)) and self.entails(tm.le(num(0), A))):
                    continue
                i, j = index('s', num(0), A), index('s', num(0), B)
                body = self.unpoly({tuple(sorted(inside)): Fraction(1)})
                body = tm.subst(body, {v: tm.add(tm.mul(i, B), j)})
                return self.norm(tm.Sum(i, num(0), A, tm.Sum(j, num(0), B, body)))
        return None

    def point_support(self, v, lo, hi, a):
        c, x, y = a.args
        if y.op == 'num' and y.args[0] == 0:
            if hi.key in KEYSETS:
                got = self.key_point(v, hi, c.args if c.op == 'and' else (c,))
                if got is not None:
                    point, rest = got
                    return point, (tm.ite(tm.and_(tm.TRUE, *rest), x, num(0)) if rest else x)
            for e in (c.args if c.op == 'and' else (c,)):
                s = solve_eq(self, e, v)
                if s is not None:
                    rest = [f for f in (c.args if c.op == 'and' else (c,)) if f is not e]
                    return s, (tm.ite(tm.and_(tm.TRUE, *rest), x, num(0)) if rest else x)
            if c.op == 'and':
                s = solve_block(self, c.args, v)
                if s is not None:
                    return s, a
        if x.op == 'num' and x.args[0] == 0 and c.op == 'not':
            return self.point_support(v, lo, hi, mk('ite', (c.args[0], y, x), a.sort))
        return None

    def key_point(self, v, hi, conj):
        width, names = KEYSETS[hi.key]
        for name in names:
            comps, used = {}, []
            for e in conj:
                if e.op != 'eq' or e.args[0].sort != 'i' or e.args[1].sort != 'i' or v.key not in tm.free(e):
                    continue
                p = padd(self.norm(e.args[0]), self.norm(e.args[1]), -1)
                for c in range(width):
                    kk = ((tm.app('dict' + name, (v, num(c)), 'i').key, 1),)
                    if c in comps or kk not in p or abs(p[kk]) != 1:
                        continue
                    q = {m: x for m, x in p.items() if m != kk}
                    if any(v.key in tm.free(ATOM[k]) for m in q for k, _ in m):
                        continue
                    comps[c] = self.unpoly(pscale(q, -1 / p[kk]))
                    used.append(e.key)
                    break
            if len(comps) == width:
                return KeyPoint(v, name, comps), [e for e in conj if e.key not in used]
        return None

    def range_support(self, v, lo, hi, a):
        """sum of ite(v < c, x, y) with x, y independent of v"""
        c, x, y = a.args
        if v.key in tm.free(x) | tm.free(y):
            return None
        neg_ = False
        if c.op == 'not':
            c, neg_ = c.args[0], True
        if c.op not in ('lt', 'le'):
            return None
        l, r = c.args
        # normal form: l < r;  linear in v with coefficient +-1
        p = padd(self.norm(r), self.norm(l), -1)   # > 0 or >= 0
        kv = ((v.key, 1),)
        if kv not in p or abs(p[kv]) != 1 or self.psort(p) != 'i':
            return None
        s = p.pop(kv) if isinstance(p, dict) else None
        if any(v.key in tm.free(ATOM[k]) for m in p for k, _ in m):
            return None
        rest = self.unpoly(p)
        if s < 0:
            # rest - v > 0: v < rest  ; >= : v < rest + 1
            bnd = rest if c.op == 'lt' else tm.add(rest, num(1))
            first, second = (x, y) if not neg_ else (y, x)
        else:
            # rest + v > 0: v > -rest: v >= -rest + 1
            bnd = tm.add(tm.neg(rest), num(1)) if c.op == 'lt' else tm.neg(rest)
            first, second = (y, x) if not neg_ else (x, y)
        cl = tm.ite(tm.lt(bnd, lo), lo, tm.ite(tm.lt(hi, bnd), hi, bnd))
        return tm.add(tm.mul(tm.add(cl, tm.neg(lo)), first), tm.mul(tm.add(hi, tm.neg(cl)), second))

    # -- conditions -------------------------------------------------------------------
    def ccond(self, c):
        r = self.ecache.get(c.key)
        if r is None:
            r = self._ccond(c)
            self.ecache[c.key] = r
        return r

    def _ccond(self, c):
        op = c.op
        if op in ('true', 'false'):
            return c
        if op == 'not':
            return tm.not_(self.ccond(c.args[0]))
        if op == 'and':
            return self.pinch(tm.and_(tm.TRUE, *sorted((self.ccond(a) for a in c.args), key=lambda t: t.key)))
        if op == 'or':
            return tm.not_(self.ccond(tm.and_(*[tm.not_(a) for a in c.args]))) if len(c.args) < 16 else c
        if op in ('lt', 'le'):
            a, b = c.args
            if a is tm.INF or b is tm.INF:
                return c
            p = padd(self.norm(b), self.norm(a), -1)
            if not p:
                return tm.FALSE if op == 'lt' else tm.TRUE
            if len(p) == 1 and () in p:
                x = p[()]
                return tm.TRUE if (x > 0 if op == 'lt' else x >= 0) else tm.FALSE
            v = constant(self.unpoly(p))
            if v is not None and abs(v) > 1e-6:
                return tm.TRUE if v > 0 else tm.FALSE
            s = self.psort(p)
            if s == 'c':
                if a.sort == 'c' or b.sort == 'c':
                    return c
                s = 'r'     # real values in terms of complex ones, e.g. z conj(z)
            if s == 'r':
                p = drop_positive(p)
            lead = abs(p[min(p, key=self._mkey)])
            p = pscale(p, 1 / lead)
            if s == 'i':
                den = 1
                for x in p.values():
                    den = den * x.denominator // math.gcd(den, x.denominator)
                p = pscale(p, den)
                if op == 'lt':      # p > 0  <=>  p - 1 >= 0
                    p = padd(p, {(): Fraction(-1)})
                p = self.divide_blocks(p)
                # p >= 0
                t = mk('le', (tm.ZERO, self.unpoly(p)), 'b')
                n = padd(pscale(p, -1), {(): Fraction(-1)})
                t2 = mk('le', (tm.ZERO, self.unpoly(n)), 'b')
                # canonical: positive leading coefficient (non-constant)
                km = min((m for m in p if m), key=self._mkey, default=())
                if p.get(km, 0) < 0:
                    r = tm.mk('not', (t2,), 'b')
                    base, val = t2, False
                else:
                    r, base, val = t, t, True
            else:
                km = min((m for m in p if m), key=self._mkey, default=())
                # p > 0 or p >= 0 ; canonical: lt(0, p) with positive lead, else negation
                if p.get(km, 0) < 0:
                    q = self.unpoly(pscale(p, -1))
                    # -q > 0 <=> q < 0 <=> not (0 <= q);  -q >= 0 <=> not (0 < q)
                    base = mk('le' if op == 'lt' else 'lt', (tm.ZERO, q), 'b')
                    r, val = mk('not', (base,), 'b'), False
                else:
                    base = mk(op, (tm.ZERO, self.unpoly(p)), 'b')
                    r, val = base, True
            tv = self.truths.get(base.key)
            if tv is None:
                tv = self.decide(base)
            if tv is not None:
                return tm.TRUE if tv == val else tm.FALSE
            return r
        if op == 'eq':
            a, b = c.args
            if a.sort == 'b' or b.sort == 'b':
                return c
            p = padd(self.norm(a), self.norm(b), -1)
            if not p:
                return tm.TRUE
            p = self.drop_nonzero(p)
            if len(p) == 1:
                (m, x), = p.items()
                if not m:
                    return tm.FALSE
                if len(m) == 1 and m[0][1] > 0:
                    p = {((m[0][0], 1),): Fraction(1)}
            lead = p[min(p, key=self._mkey)]
            p = pscale(p, 1 / lead)
            if a.sort == 'i' and b.sort == 'i':
                p = pscale(p, math.lcm(*(x.denominator for x in p.values())))
                d = self.blocks(p) if self.psort(p) == 'i' else None
                if d is not None and d[2] // d[4] == 0:
                    return self.ccond(tm.and_(mk('eq', (tm.ZERO, self.unpoly(d[0])), 'b'), mk('eq', (tm.ZERO, self.unpoly(d[1])), 'b')))
            con = self.congruence(p)
            if con is not None:
                n, p = con
                if not p or self.congruent(n, p):
                    return tm.TRUE
                p = self.norm_mod(self.unpoly(p), n)
                if not p:
                    return tm.TRUE
                if len(p) == 1 and () in p:
                    return tm.FALSE
            base = mk('eq', (tm.ZERO, self.unpoly(p)), 'b')
            tv = self.truths.get(base.key)
            if tv is None and self.truths.get(mk('lt', (tm.ZERO, base.args[1]), 'b').key):
                tv = False
            if tv is None and self.psort(p) != 'c':
                tv = self.decide(base)
            if tv is not None:
                return tm.TRUE if tv else tm.FALSE
            return base
        if op == 'forall':
            v, lo, hi, body = c.args
            RANGES.setdefault(v.key, (v, lo, hi))
            b = self.ccond(body)
            if b is tm.TRUE:
                return b
            if self.canon(lo) is self.canon(hi):
                return tm.TRUE
            w = bound(0, self.canon(lo), self.canon(hi), 'q%d' % _depth(b))
            r = mk('forall', (w, self.canon(lo), self.canon(hi), tm.subst(b, {v: w})), 'b')
            tv = self.truths.get(r.key)
            return r if tv is None else (tm.TRUE if tv else tm.FALSE)
        if op == 'app':
            a = mk('app', (c.args[0],) + tuple(self.canon(x) for x in c.args[1:]), 'b')
            tv = self.truths.get(a.key)
            return a if tv is None else (tm.TRUE if tv else tm.FALSE)
        if op == 'sym' or op == 'fn':
            tv = self.truths.get(c.key)
            return c if tv is None else (tm.TRUE if tv else tm.FALSE)
        if op == 'ite':
            return self.ccond(tm.ite(*c.args))
        raise Unsupported('condition ' + op)

    def congruence(self, p):
        """(n, c) if p == 0 says that c is a multiple of n"""
        if not 1 <= len(p) <= 2 or any(len(m) != 1 or m[0][1] != 1 for m in p):
            return None
        atoms = [(ATOM[m[0][0]], x) for m, x in p.items()]
        n = atoms[0][0].args[1] if atoms[0][0].op == 'mod' else None
        if n is None or n.op == 'num' or any(a.op != 'mod' or a.args[1] is not n or a.sort != 'i' for a, _ in atoms):
            return None
        if len(atoms) == 2 and (atoms[0][1] != -atoms[1][1] or abs(atoms[0][1]) != 1):
            return None
        c = {}
        for a, x in atoms:
            c = padd(c, self.norm(a.args[0]), x if len(atoms) == 2 else 1)
        c = {m: x for m, x in c.items() if not any(ATOM[k] is n and e > 0 for k, e in m) or x.denominator != 1}
        if any(x.denominator != 1 for x in c.values()):
            return None
        if c and c[min(c, key=self._mkey)] < 0:
            c = pscale(c, -1)
        return n, c

    def congruent(self, n, c):
        """is c an integer combination of multiples of n among the facts?"""
        rows = []
        for f in self.facts:
            for g in f.args if f.op == 'and' else (f,):
                if g.op == 'eq' and g.args[0].sort == g.args[1].sort == 'i':
                    con = self.congruence(padd(self.norm(g.args[1]), self.norm(g.args[0]), -1)) or self.congruence(self.raw_congruence(g))
                    if con is not None and con[0] is n and con[1]:
                        rows.append({m: int(x) for m, x in con[1].items()})
        if not rows:
            return False
        c = {m: int(x) for m, x in c.items()}
        # integer row echelon form
        for m in sorted({m for r in rows for m in r} | set(c), key=self._mkey):
            while True:
                r = sorted((r for r in rows if r.get(m)), key=lambda r: abs(r[m]))
                if len(r) < 2:
                    break
                for o in r[1:]:
                    k = o[m] // r[0][m]
                    for q, x in r[0].items():
                        o[q] = o.get(q, 0) - k * x
            if r:
                if c.get(m, 0) % r[0][m]:
                    return False
                k = c.get(m, 0) // r[0][m]
                for q, x in r[0].items():
                    c[q] = c.get(q, 0) - k * x
                rows = [o for o in rows if o is not r[0]]
            if c.get(m):
                return False
        return True

    def follows(self, g):
        """is g a congruence that follows from those among the facts?"""
        if g.op != 'eq' or g.args[0].sort != 'i' or g.args[1].sort != 'i':
            return False
        con = self.congruence(padd(self.norm(g.args[1]), self.norm(g.args[0]), -1)) or self.congruence(self.raw_congruence(g))
        return con is not None and (not con[1] or self.congruent(*con))

    def raw_congruence(self, g):
        """the polynomial of an equality whose terms the facts themselves may simplify"""
        a, b = g.args
        t = b if a is tm.ZERO else a if b is tm.ZERO else None
        if t is not None and t.op == 'mod':
            return self.atom(t)
        return {}

    def divide_blocks(self, p):
        """g A + r >= 0 with g > 0, integer A and k g <= r < (k + 1) g is equivalent to A + k >= 0"""
        b = self.blocks(p)
        if b is None:
            return p
        a, r, lo, hi, g = b
        return padd(a, {(): Fraction(lo // g)} if lo // g else {})

    def blocks(self, p):
        """p = g A + r with k g <= lo <= r <= hi < (k + 1) g"""
        small = {m for m in p if not m or len(m) == 1 and m[0][1] == 1 and m[0][0] in RANGES
                 and all(x is not None and x.op == 'num' for x in RANGES[m[0][0]][1:])}
        for g in sorted({abs(x) for m, x in p.items() if m and abs(x) > 1}):
            r = {m: x for m, x in p.items() if m and x % g}
            if not r or len(r) == len(p) or any(m not in small for m in r):
                continue
            lo = hi = p.get((), Fraction(0))
            if lo:
                r[()] = lo
            for m, x in r.items():
                if m:
                    _, l, h = RANGES[m[0][0]]
                    ends = x * l.args[0], x * (h.args[0] - 1)
                    lo, hi = lo + min(ends), hi + max(ends)
            if lo // g == hi // g:
                return {m: x / g for m, x in p.items() if m not in r}, r, lo, hi, g
        return None

    def pinch(self, c):
        """p >= 0 and -p >= 0 for integers: p = 0"""
        if c.op != 'and':
            return c
        ge = {}
        for e in c.args:
            n = e.op == 'not'
            f = e.args[0] if n else e
            if f.op == 'le' and f.args[0] is tm.ZERO and f.args[1].sort == 'i':
                ge[e.key] = self.norm(tm.add(num(-1), tm.neg(f.args[1])) if n else f.args[1])
        out, gone = [], set()
        for e in c.args:
            if e.key in ge and e.key not in gone:
                for k, q in ge.items():
                    if k != e.key and k not in gone and not padd(ge[e.key], q):
                        gone |= {k, e.key}
                        out.append(self.ccond(mk('eq', (tm.ZERO, self.unpoly(q)), 'b')))
                        break
        if not gone:
            return c
        return tm.and_(tm.TRUE, *sorted([e for e in c.args if e.key not in gone] + out, key=lambda t: t.key))

    def drop_nonzero(self, p):
        """divide p == 0 by common factors that cannot vanish"""
        if () in p:
            return p
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {k: (min(e, d[k]) if e > 0 else max(e, d[k])) for k, e in common.items() if k in d and (e > 0) == (d[k] > 0)}
            if not common:
                return p
        drop = {}
        for k, e in common.items():
            a = ATOM[k]
            if a is tm.PI or a.op == 'pow' and a.args[1] == -1 or e < 0 or _isexp(a):
                drop[k] = e
            elif len(common) > 1 and a.sort in 'ir' and a.op in ('sym', 'app') and self.ccond(mk('eq', (tm.ZERO, a), 'b')) is tm.FALSE:
                drop[k] = e
        if not drop:
            return p
        out = {}
        for m, x in p.items():
            d = dict(m)
            for k, e in drop.items():
                d[k] -= e
                if not d[k]:
                    del d[k]
            out[tuple(sorted(d.items()))] = x
        return out

    # -- z3 -----------------------------------------------------------------------------
    def entails(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        r = self.ccond(c)
        return r is tm.TRUE

    def decide(self, c):
        """True/False if the facts decide the canonical condition c, else None"""
        try:
            return Z3.decide(self, c)
        except Unsupported:
            return None

    def inconsistent(self):
        if any(f.op == 'eq' and 'mod' in (f.args[0].op, f.args[1].op) for f in self.facts):
            for f in self.facts:
                if f.op == 'not':
                    g = f.args[0]
                    if all(self.follows(x) for x in (g.args if g.op == 'and' else (g,))):
                        return True
        try:
            return Z3.unsat(self, self.facts)
        except Unsupported:
            return False

    # -- equality -----------------------------------------------------------------------
    def zero(self, t, depth=0):
        """(True, None) if the facts entail t == 0, else (False, residual term)"""
        tick()
        p = self.norm(t)
        p = self.clear(p)
        if not p:
            return True, None
        # case split on conditions
        c = self.find_cond(p)
        if c is not None:
            if depth > 14:
                return False, self.unpoly(p)
            STATS['splits'] += 1
            u = self.unpoly(p)
            for val in (True, False):
                f = c if val else tm.not_(c)
                ctx = self.extend(f)
                if ctx.inconsistent():
                    continue
                ok, res = ctx.zero(assume_cond(u, c, val), depth + 1)
                if not ok:
                    return False, res
            return True, None
        r = self.zero_sums(p, depth)
        if r:
            return True, None
        if self.zero_z3(p):
            return True, None
        e = self.pinned()
        if e is not None and depth < 14:
            return self.extend(e).zero(self.unpoly(p), depth + 1)
        return False, self.unpoly(p)

    def pinned(self):
        """an equation that follows from two integer inequalities but is not used for substitution yet"""
        least = {}
        for f in self.facts:
            neg = f.op == 'not'
            c = f.args[0] if neg else f
            if c.op not in ('le', 'lt') or c.args[0].sort != 'i' or c.args[1].sort != 'i':
                continue
            a, b = c.args[::-1] if neg else c.args
            p = padd(self.norm(b), self.norm(a), -1)             # p >= 0 or p > 0
            x = p.pop((), Fraction(0)) - ((c.op == 'lt') != neg)
            if not p or any(y.denominator != 1 for y in p.values()) or self.psort(p) != 'i':
                continue
            g = 0
            for y in p.values():
                g = math.gcd(g, int(y))
            q = frozenset((m, int(y) // g) for m, y in p.items())
            x = x // g
            if q not in least or x < least[q]:
                least[q] = x                                     # q + x >= 0
            o = frozenset((m, -y) for m, y in q)
            if o in least and least[o] == -least[q]:
                return tm.eq(self.unpoly({m: Fraction(y) for m, y in q}), num(int(-least[q])))
        return None

    def zero_z3(self, p):
        t = self.unpoly(p)
        if t.sort == 'c' or len(p) > 60:
            return False
        try:
            return Z3.unsat(self, self.relevant([mk('eq', (tm.ZERO, t), 'b')]) + [mk('not', (mk('eq', (tm.ZERO, t), 'b'),), 'b')], timeout=3000)
        except Unsupported:
            return False

    def relevant(self, ts):
        return self.facts

    def clear(self, p):
        """multiply by denominators"""
        for _ in range(12):
            invs = {}
            for m in p:
                for k, e in m:
                    a = ATOM[k]
                    if a.op == 'pow' and a.args[1] == -1 and e > 0:
                        invs[k] = max(invs.get(k, 0), e)
                    elif e < 0:
                        invs[k] = max(invs.get(k, 0), -e)
            if not invs:
                return p
            k = next(iter(invs))
            d = invs[k]
            a = ATOM[k]
            r = {}
            if a.op == 'pow' and a.args[1] == -1:
                den = self.norm(a.args[0])
                pows = {}
                for m, x in p.items():
                    dm = dict(m)
                    e = dm.pop(k, 0)
                    q = pows.get(d - e)
                    if q is None:
                        q = pows[d - e] = self.ppow(den, d - e)
                    r = padd(r, self.pmul({tuple(sorted(dm.items())): x}, q))
            else:
                for m, x in p.items():
                    r = padd(r, self.pmul({m: x}, {((k, d),): Fraction(1)}))
            p = r
            if not p:
                return p
        return p

    def find_cond(self, p):
        """a condition of a conditional term outside of sums"""
        for signs in (False, True):
            best = None
            seen = set()
            for m in p:
                for k, e in m:
                    for c in self._conds(ATOM[k], seen, signs):
                        if best is None or c.key < best.key:
                            best = c
            if best is not None:
                return best
        return None

    def _conds(self, t, seen, signs=False):
        stack = [(t, frozenset())]
        while stack:
            x, bound_ = stack.pop()
            if (x.key, bound_) in seen:
                continue
            seen.add((x.key, bound_))
            if x.op == 'ite':
                c = x.args[0]
                for d in (c.args if c.op == 'and' else (c,)):
                    if d.op == 'not':
                        d = d.args[0]
                    if not tm.free(d) & bound_ and d.op in ('lt', 'le', 'eq', 'app', 'sym', 'forall', 'fn'):
                        yield d
            if signs and x.op == 'fn' and x.args[0] in ('abs', 'sign') and x.args[1].sort in 'ir' and not tm.free(x) & bound_:
                u = x.args[1]
                for d in (mk('lt', (tm.ZERO, u), 'b'), mk('lt', (u, tm.ZERO), 'b')):
                    if self.ccond(d) is not tm.TRUE and self.ccond(d) is not tm.FALSE:
                        yield d
                        break
            if x.op in ('sum', 'forall'):
                v, lo, hi, b = x.args
                stack.append((lo, bound_))
                stack.append((hi, bound_))
                stack.append((b, bound_ | {v.key}))
            else:
                for y in tm.children(x):
                    stack.append((y, bound_))

    def zero_sums(self, p, depth):
        """pointwise comparison of the terms with sums"""
        linear = {}
        rest = {}
        for m, x in p.items():
            sums = [(k, e) for k, e in m if ATOM[k].op == 'sum']
            if len(sums) == 1 and sums[0][1] == 1:
                a = ATOM[sums[0][0]]
                bs, b = unsum(a)
                sig = tuple(sorted((lo.key, hi.key) for _, lo, hi in bs))
                other = tuple((k, e) for k, e in m if k != sums[0][0])
                linear.setdefault(sig, []).append((bs, b, other, x))
            else:
                rest[m] = x
        if rest or not linear:
            return False
        if depth > 14:
            return False
        for sig, entries in linear.items():
            if len(entries) < 2 and True:
                if not self._pointwise_any([entries], depth):
                    return False
                continue
            if not self._pointwise_any([entries], depth):
                return False
        return True

    def _pointwise_any(self, groups, depth):
        entries = groups[0]
        ref = entries[0][0]
        vs = [index('p', lo, hi) for _, lo, hi in self._fresh_ranges(ref)]
        # alignments of the binders of each entry with the reference binders
        opts = []
        for bs, b, other, x in entries:
            o = []
            n = len(bs)
            for perm in permutations(range(n)):
                ren = {}
                ok = True
                for i in range(n):
                    v, lo, hi = bs[perm[i]]
                    rv, rlo, rhi = ref[i]
                    ren[v] = vs[i]
                for i in range(n):
                    v, lo, hi = bs[perm[i]]
                    w = RANGES[vs[i].key]
                    if tm.subst(lo, ren) is not w[1] or tm.subst(hi, ren) is not w[2]:
                        ok = False
                        break
                if ok:
                    o.append(tm.mul(self.unpoly({other: x}), tm.subst(b, ren)))
            # distinct only
            uniq = []
            for t in o:
                if all(t is not u for u in uniq):
                    uniq.append(t)
            opts.append(uniq)
        opts[0] = opts[0][:1]
        tot = 1
        for o in opts:
            tot *= max(1, len(o))
        if tot > 64:
            opts = [o[:1] for o in opts]
        for combo in product(*opts):
            ok, res = self.zero(tm.add(*combo), depth + 1)
            if ok:
                return True
        return False

    def _fresh_ranges(self, ref):
        ren = {}
        out = []
        for v, lo, hi in ref:
            out.append((v, lo, hi))
        return out

    def equal(self, a, b):
        if a.sort == 'b' or b.sort == 'b':
            return self.equiv(tm.lift(a), tm.lift(b))
        return self.zero(tm.add(a, tm.neg(b)))

    def equiv(self, a, b):
        if self.ccond(a) is self.ccond(b):
            return True, None
        c = tm.eq(tm.cast(a, 'b'), tm.cast(b, 'b'))
        return self.holds(c)

    def holds(self, c, depth=0):
        """facts entail c (with case splits and canonical forms)"""
        tick()
        c = self.ccond(c)
        if c is tm.TRUE:
            return True, None
        if c is tm.FALSE:
            return False, c
        if c.op == 'and':
            for a in c.args:
                ok, res = self.holds(a, depth)
                if not ok:
                    return ok, res
            return True, None
        if c.op == 'forall':
            v, lo, hi, b = c.args
            w = index('u', lo, hi)
            return self.holds(tm.subst(b, {v: w}), depth + 1)
        if c.op == 'not' and c.args[0].op == 'and':
            # disjunction: assume the negation of all but one
            args = c.args[0].args
            for i, a in enumerate(args):
                ctx = self.extend(*[x for j, x in enumerate(args) if j != i])
                if ctx.inconsistent():
                    return True, None
                ok, res = ctx.holds(tm.not_(a), depth + 1)
                if ok:
                    return True, None
        if c.op == 'eq' and c.args[0].sort != 'b':
            ok, res = self.zero(tm.add(c.args[0], tm.neg(c.args[1])), depth)
            if ok:
                return ok, res
        # case splits
        seen = set()
        conds = sorted(set(self._conds(c, seen)), key=lambda t: t.key)
        if conds and depth < 10:
            d = conds[0]
            for val in (True, False):
                ctx = self.extend(d if val else tm.not_(d))
                if ctx.inconsistent():
                    continue
                ok, res = ctx.holds(assume_cond(c, d, val), depth + 1)
                if not ok:
                    return False, res
            return True, None
        try:
            if Z3.unsat(self, self.facts + [tm.not_(c)], timeout=5000):
                return True, None
        except Unsupported:
            pass
        return False, c


ODD = {'erf', 'arctan', 'arcsin', 'sign', 'tan', 'arcsinh', 'arctanh'}
APPHOOK = {}
_bounds = {}


def bound(i, lo, hi, tag='b'):
    k = (i, lo.key, hi.key, tag)
    w = _bounds.get(k)
    if w is None:
        w = tm.sym('%s%d@%d_%d' % (tag, i, lo.key, hi.key), 'i')
        RANGES[w.key] = (w, lo, hi)
        _bounds[k] = w
    return w


_alternates = {}


def drop_positive(p):
    """divide an inequality by common factors that are positive because of their range"""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: (min(e, d[k]) if e > 0 else max(e, d[k])) for k, e in common.items() if k in d and (e > 0) == (d[k] > 0)}
        if not common:
            return p
    drop = {}
    for k, e in common.items():
        a = ATOM[k]
        lo = RANGES.get(k, (None, None))[1] if a.op == 'sym' else None
        if lo is not None and lo.op == 'num' and lo.args[0] > 0:
            drop[k] = e
    if not drop:
        return p
    out = {}
    for m, x in p.items():
        d = dict(m)
        for k, e in drop.items():
            d[k] -= e
            if not d[k]:
                del d[k]
        out[tuple(sorted(d.items()))] = x
    return out


def alternate(v, level, lo, hi):
    k = (v.key, level)
    w = _alternates.get(k)
    if w is None:
        w = tm.fresh('a', v.sort)
        RANGES[w.key] = (w, lo, hi)
        _alternates[k] = w
    return w


_levels = {}


def binder_level(t):
    """1 + largest level of the canonical binders in t (levels of nested sums are smaller than those around them)"""
    r = _levels.get(t.key)
    if r is None:
        r = 0
        for x in tm.subterms(t, lambda x: x.op == 'sum'):
            n = x.args[0].args[0]
            if n[0] == 'b' and '@' in n:
                r = max(r, int(n[1:n.index('@')]) + 1)
        _levels[t.key] = r
    return r


def _depth(t):
    d = 0
    for x in tm.subterms(t, lambda x: x.op == 'forall'):
        d += 1
    return d


def _subkeys(t):
    return {x.key for x in tm.subterms(t, lambda x: True)}


_subs = {}


def subkeys(t):
    r = _subs.get(t.key)
    if r is None:
        r = _subs[t.key] = frozenset(x.key for x in tm.subterms(t, lambda x: x.op == 'ite') for x in x.args[:1])
    return r


def unsum(a):
    bs = []
    b = a
    while b.op == 'sum':
        bs.append(b.args[:3])
        b = b.args[3]
    return bs, b


def assume_cond(t, c, val):
    """replace the condition c by its truth value everywhere"""
    memo = {}
    v = tm.TRUE if val else tm.FALSE

    def go(x):
        r = memo.get(x.key)
        if r is None:
            if x is c:
                r = v
            else:
                r = tm.rebuild(x, go)
            memo[x.key] = r
        return r
    return go(t)


def solve_eq(ctx, e, v):
    """e is an equality that determines the integer v"""
    if e.op != 'eq' or v.key not in tm.free(e):
        return None
    a, b = e.args
    if a.sort != 'i' or b.sort != 'i':
        return None
    p = padd(ctx.norm(a), ctx.norm(b), -1)
    kv = ((v.key, 1),)
    if kv not in p or abs(p[kv]) != 1:
        return None
    s = p[kv]
    q = {m: x for m, x in p.items() if m != kv}
    if any(v.key in tm.free(ATOM[k]) for m in q for k, _ in m):
        return None
    return ctx.unpoly(pscale(q, -1 / s))


def solve_block(ctx, conj, v):
    """the only possible value of the integer v under conditions like 0 <= s - v * b < b"""
    lows, highs = [], []
    for e in conj:
        if e.op == 'not' and e.args[0].op == 'le' and e.args[0].args[0].sort == 'i':
            e = tm.le(e.args[0].args[1], tm.add(e.args[0].args[0], num(-1)))
        if e.op == 'lt' and e.args[0].sort == e.args[1].sort == 'i':
            e = tm.le(tm.add(e.args[0], num(1)), e.args[1])
        if e.op == 'le' and v.key in tm.free(e):
            p = padd(ctx.norm(e.args[1]), ctx.norm(e.args[0]), -1)
            # p >= 0 ; linear in v with symbolic coefficient
            co, rest = {}, {}
            bad = False
            for m, x in p.items():
                d = dict(m)
                if v.key in d:
                    if d.pop(v.key) != 1:
                        bad = True
                    co[tuple(sorted(d.items()))] = x
                else:
                    rest[m] = x
            if bad or not co or ctx.psort(p) != 'i' or any(v.key in tm.free(ATOM[k]) for q in (co, rest) for m in q for k, _ in m):
                continue
            b = ctx.unpoly(co)
            if ctx.entails(tm.lt(b, num(0))):
                highs.append((ctx.unpoly(pscale(co, -1)), ctx.unpoly(rest)))     # v * b <= rest
            elif ctx.entails(tm.lt(num(0), b)):
                lows.append((b, ctx.unpoly(rest)))                               # v * b >= -rest
    for b, r in highs:
        for b2, r2 in lows:
            if b is b2:
                # v * b <= r and v * b >= -r2: unique if r + r2 < b
                if ctx.entails(tm.lt(tm.add(r, r2), b)):
                    return ctx.canon(tm.idiv(r, b))
    return None


class _Z3:
    def __init__(self):
        self.memo = {}
        self.funcs = {}
        self.side = {}
        self.cache = {}

    def tr(self, t):
        r = self.memo.get(t.key)
        if r is not None:
            return r
        r = self._tr(t)
        self.memo[t.key] = r
        return r

    def sort(self, s):
        if s == 'i':
            return z3.IntSort()
        if s == 'r':
            return z3.RealSort()
        if s == 'b':
            return z3.BoolSort()
        raise Unsupported('complex in z3')

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if t.sort == 'i' else e

    def same(self, a, b):
        if a.sort == b.sort:
            return self.tr(a), self.tr(b)
        return self.real(a), self.real(b)

    def _tr(self, t):
        op = t.op
        if op == 'num':
            f = t.args[0]
            if t.sort == 'i':
                return z3.IntVal(int(f))
            return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'sym':
            return z3.Const('s%d_%s' % (t.key, t.args[0]), self.sort(t.sort))
        if op == 'add':
            if t.sort == 'i':
                return z3.Sum([self.tr(a) for a in t.args])
            if t.sort == 'c':
                raise Unsupported('complex')
            return z3.Sum([self.real(a) for a in t.args])
        if op == 'mul':
            if t.sort == 'c':
                raise Unsupported('complex')
            r = None
            for a in t.args:
                x = self.tr(a) if t.sort == 'i' else self.real(a)
                r = x if r is None else r * x
            return r
        if op == 'pow':
            a, n = t.args
            if t.sort == 'c':
                raise Unsupported('complex')
            x = self.tr(a) if t.sort == 'i' else self.real(a)
            r = x
            for _ in range(abs(n) - 1):
                r = r * x
            return 1 / r if n < 0 else r
        if op == 'cast':
            if t.sort == 'r':
                return self.real(t.args[0])
            raise Unsupported('cast')
        if op in ('lt', 'le', 'eq'):
            if t.args[0].sort == 'b':
                return self.tr(t.args[0]) == self.tr(t.args[1])
            a, b = self.same(*t.args)
            return a < b if op == 'lt' else a <= b if op == 'le' else a == b
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And([self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.tr(a) for a in t.args])
        if op == 'ite':
            c = self.tr(t.args[0])
            if t.sort == 'i':
                return z3.If(c, self.tr(t.args[1]), self.tr(t.args[2]))
            if t.sort == 'c':
                raise Unsupported('complex')
            return z3.If(c, self.real(t.args[1]), self.real(t.args[2]))
        if op in ('mod', 'idiv') and t.sort == 'i':
            a, n = t.args
            if n.op == 'num' and n.args[0] > 0:
                x = self.tr(a)
                return x % int(n.args[0]) if op == 'mod' else x / int(n.args[0])
            # opaque, with the defining facts (n > 0 guarded)
            m = z3.Const('mod_%d_%d' % (a.key, n.key), z3.IntSort())
            q = z3.Const('div_%d_%d' % (a.key, n.key), z3.IntSort())
            zn, za = self.tr(n), self.tr(a)
            self.side[t.key] = [z3.Implies(zn > 0, z3.And(m >= 0, m < zn, za == zn * q + m)),
                                z3.Implies(z3.And(zn > 0, za >= 0), z3.And(q >= 0, m <= za)),
                                z3.Implies(z3.And(zn > 0, za >= 0, za < zn), z3.And(q == 0, m == za))]
            return m if op == 'mod' else q
        if op == 'app':
            args = t.args[1:]
            if not args:
                return z3.Const('a_' + t.args[0], self.sort(t.sort))
            f = self.func('a_' + t.args[0], [a.sort for a in args], t.sort)
            return f(*[self.tr(a) for a in args])
        if op == 'fn':
            name = t.args[0]
            args = t.args[1:]
            if name == 'abs' and args[0].sort != 'c':
                x = self.tr(args[0])
                r = z3.If(x >= 0, x, -x)
                return z3.ToReal(r) if t.sort == 'r' and args[0].sort == 'i' else r
            if name in ('round', 'floor', 'trunc') and args[0].sort != 'c':
                r = z3.Const('%s_%d' % (name, t.key), z3.IntSort())
                x = self.real(args[0])
                if name == 'floor':
                    self.side[t.key] = [z3.ToReal(r) <= x, x < z3.ToReal(r) + 1]
                elif name == 'round':
                    self.side[t.key] = [2 * z3.ToReal(r) - 1 <= 2 * x, 2 * x <= 2 * z3.ToReal(r) + 1]
                else:
                    self.side[t.key] = [z3.If(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1),
                                              z3.And(z3.ToReal(r) >= x, x > z3.ToReal(r) - 1))]
                return r
            if name == 'max0':
                x = self.tr(args[0])
                return z3.If(x >= 0, x, 0)
            if name.startswith('sorted'):
                n = len(args) // 2
                ks = [self.real(a) for a in args[:n]]
                xs = [self.real(a) if t.sort == 'r' else self.tr(a) for a in args[n:]]
                ident = '_'.join(str(a.key) for a in args[:n])
                ps = [z3.Const('perm%d_%s' % (k, ident), z3.IntSort()) for k in range(n)]
                pick = lambda p, ys: ys[0] if len(ys) == 1 else z3.If(p == n - len(ys), ys[0], pick(p, ys[1:]))
                self.side[t.key] = [z3.And(p >= 0, p < n) for p in ps] + [z3.Distinct(*ps)] + [
                    z3.Or(pick(p, ks) < pick(q, ks), z3.And(pick(p, ks) == pick(q, ks), p < q)) for p, q in zip(ps, ps[1:])]
                return pick(ps[int(name[6:])], xs)
            if t.sort == 'c' or any(isinstance(a, T) and a.sort == 'c' for a in args):
                raise Unsupported('complex')
            f = self.func('f_' + name, ['r' if isinstance(a, T) else 'r' for a in args], t.sort)
            r = f(*[self.real(a) if isinstance(a, T) else z3.RealVal(a) for a in args])
            if name == 'exp':
                self.side[t.key] = [r > 0]
            elif name == 'sqrt':
                x = self.real(args[0])
                self.side[t.key] = [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))]
            return r
        if op == 'sum':
            return z3.Const('sum_%d' % t.key, self.sort(t.sort))
        if op in ('re', 'im'):
            return z3.Const('%s_%d' % (op, t.key), z3.RealSort())
        if op == 'forall':
            v, lo, hi, b = t.args
            zv = self.tr(v)
            return z3.ForAll([zv], z3.Implies(z3.And(self.tr(lo) <= zv, zv < self.tr(hi)), self.tr(b)))
        raise Unsupported('z3: ' + op)

    def func(self, name, sorts, res):
        k = (name, tuple(sorts), res)
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function('%s_%s_%s' % (name, ''.join(sorts), res), *[self.sort(s) for s in sorts], self.sort(res))
            self.funcs[k] = f
        return f

    def sides(self, ts):
        """ranges of the free symbols and defining facts of opaque terms"""
        out = []
        seen = set()
        apps = []
        stack = list(ts)
        pi = False
        while stack:
            x = stack.pop()
            if x.key in seen:
                continue
            seen.add(x.key)
            if x is tm.PI:
                out.append(z3.And(self.tr(x) > z3.RealVal('314159265/100000000'), self.tr(x) < z3.RealVal('314159266/100000000')))
            if x.op == 'sym' and x.key in RANGES:
                s, lo, hi = RANGES[x.key]
                if lo is not None:
                    out.append(self.tr(lo) <= self.tr(s))
                    stack.append(lo)
                if hi is not None:
                    out.append(self.tr(s) < self.tr(hi))
                    stack.append(hi)
            if x.key in self.side:
                out.extend(self.side[x.key])
            for r in APPRANGE.get(x.args[0], ()) if x.op == 'app' else ():
                f = r(x)
                if f is not None:
                    for g in (f if isinstance(f, (list, tuple)) else (f,)):
                        out.append(self.tr(g))
                        stack.append(g)
            if x.op == 'app':
                for names, r in PAIRRANGE.items():
                    if x.args[0] in names:
                        for y in [x] * (names[0] == names[1]) + apps:
                            for p, q in ((x, y), (y, x)):
                                if (p.args[0], q.args[0]) == names:
                                    g = r(p, q)
                                    if g is not None:
                                        out.append(self.tr(g))
                                        stack.append(g)
                apps.append(x)
            if x.op in ('sum', 'forall'):
                # bound variables stay inside
                stack.append(x.args[1])
                stack.append(x.args[2])
                if x.op == 'forall':
                    stack.append(x.args[3])
            else:
                stack.extend(tm.children(x))
        return out

    def unsat(self, ctx, fs, timeout=800):
        fs = [f for f in fs if f.op != 'forall' or True]
        zs, good = [], []
        for f in fs:
            try:
                zs.append(self.tr(f))
                good.append(f)
            except Unsupported:
                if f is fs[-1]:
                    raise
        # facts on app values
        side = self.sides(good)
        # resource limit instead of a time limit: the outcome does not depend on the load of the machine
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('rlimit', timeout * RLIMIT)
        s.set('timeout', 4000 + 10 * timeout)     # only for steps of the solver that do not count resources
        s.set('random_seed', 1)
        s.add(*zs)
        s.add(*side)
        STATS['z3_queries'] += 1
        t0 = time.time()
        r = s.check()
        t0 = time.time() - t0
        STATS['z3_time'] += t0
        if os.environ.get('VERIF_Z3') and r == z3.unknown:
            print('z3 unknown', timeout, round(t0, 3), s.reason_unknown(), tm.show(fs[-1], 6)[:300])
        return r == z3.unsat

    def model(self, ctx, goal=None, timeout=2000):
        """values of the scalar symbols on a path where the goal fails"""
        base = [f for f in ctx.facts if f.op != 'forall']
        tries = [base + [tm.not_(goal)], base] if goal is not None else [base]
        for fs in tries:
            zs, good = [], []
            for f in fs:
                try:
                    zs.append(self.tr(f))
                    good.append(f)
                except Unsupported:
                    pass
            s = z3.Solver()
            s.set('rlimit', timeout * RLIMIT)
            s.add(*zs)
            s.add(*self.sides(good))
            syms = {}
            for f in good:
                for t in tm.subterms(f, lambda x: x.op == 'sym'):
                    syms[t.key] = t
            for t in syms.values():
                if t.sort == 'i':
                    s.push()
                    s.add(self.tr(t) <= 8, self.tr(t) >= -8)
                    if s.check() != z3.sat:
                        s.pop()
            if s.check() != z3.sat:
                continue
            m = s.model()
            out = {}
            for t in syms.values():
                if t is tm.PI or t is tm.INF:
                    continue
                x = m.eval(self.tr(t), model_completion=False)
                if z3.is_int_value(x):
                    out[t.args[0]] = x.as_long()
                elif z3.is_rational_value(x):
                    out[t.args[0]] = float(x.as_fraction())
                elif z3.is_true(x) or z3.is_false(x):
                    out[t.args[0]] = z3.is_true(x)
            return out
        return {}

    def decide(self, ctx, c):
        tick()
        fs = self.focus(ctx, c)
        k = (c.key,) + tuple(f.key for f in fs)
        r = self.cache.get(k, 0)
        if r == 0:
            n = mk('not', (c,), 'b')
            lin = [f for f in fs if not nonlinear(f)]
            rest = len(lin) < len(fs)
            r = None
            for facts, limit in ((lin, 300), (fs, 60)) if rest else ((fs, 300),):
                if self.unsat(ctx, facts + [n], timeout=limit):
                    r = True
                elif self.unsat(ctx, facts + [c], timeout=limit):
                    r = False
                if r is not None:
                    break
            self.cache[k] = r
        return r

    def focus(self, ctx, c):
        """facts sharing symbols with c (transitively, two rounds)"""
        names = _names(c)
        out = []
        rest = [f for f in ctx.facts if f.op != 'forall']
        for _ in range(2):
            nxt = []
            add = set()
            for f in rest:
                n = _names(f)
                if n & names:
                    out.append(f)
                    add |= n
                else:
                    nxt.append(f)
            names = names | add
            rest = nxt
            if not add:
                break
        return out


_nonlinear = {}


def nonlinear(t):
    r = _nonlinear.get(t.key)
    if r is None:
        r = False
        for x in tm.subterms(t, lambda x: x.op in ('mul', 'pow')):
            if x.op == 'pow' or sum(a.op != 'num' for a in x.args) > 1:
                r = True
                break
        _nonlinear[t.key] = r
    return r


_namecache = {}


def _names(t):
    r = _namecache.get(t.key)
    if r is None:
        out = set()
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.key in seen:
                continue
            seen.add(x.key)
            if x.op == 'app':
                out.add(x.args[0])
            elif x.op == 'sym':
                out.add(x.key)
                rg = RANGES.get(x.key)
                if rg:
                    stack.extend(y for y in rg[1:] if y is not None)
            elif x.op == 'fn' and x.args[0] not in ('abs', 'round', 'floor', 'trunc', 'max0'):
                out.add('fn' + x.args[0])
            stack.extend(tm.children(x))
        out.discard(tm.PI.key)
        r = _namecache[t.key] = frozenset(out)
    return r


PAIRRANGE = {}  # two app names -> function of two app terms: fact
APPRANGE = {}   # app name -> list of functions: app term -> fact
Z3 = _Z3()
