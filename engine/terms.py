"""Symbolic terms of the verifier.

Integers and reals are mathematical (machine arithmetic is an assumption recorded in the
evidence); floating-point literals are read as the exact rational they denote, except that
rational multiples of pi are recognised (np.pi is the symbol PI).
"""
from fractions import Fraction
import math


class Unsupported(Exception):
    """Construct outside the reach of the verifier (tool limit, never a violation)."""


class Undecided(Exception):
    pass


RANK = {'b': 0, 'i': 1, 'r': 2, 'c': 3}
_table = {}
_counter = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'key', '_free', '__weakref__')
    __array_priority__ = 1000

    # -- operators -----------------------------------------------------------
    def __add__(a, b):
        b = _co(b)
        return NotImplemented if b is None else add(a, b)

    def __radd__(a, b):
        b = _co(b)
        return NotImplemented if b is None else add(b, a)

    def __sub__(a, b):
        b = _co(b)
        return NotImplemented if b is None else add(a, neg(b))

    def __rsub__(a, b):
        b = _co(b)
        return NotImplemented if b is None else add(b, neg(a))

    def __mul__(a, b):
        b = _co(b)
        return NotImplemented if b is None else mul(a, b)

    def __rmul__(a, b):
        b = _co(b)
        return NotImplemented if b is None else mul(b, a)

    def __truediv__(a, b):
        b = _co(b)
        return NotImplemented if b is None else div(a, b)

    def __rtruediv__(a, b):
        b = _co(b)
        return NotImplemented if b is None else div(b, a)

    def __floordiv__(a, b):
        b = _co(b)
        return NotImplemented if b is None else idiv(a, b)

    def __rfloordiv__(a, b):
        b = _co(b)
        return NotImplemented if b is None else idiv(b, a)

    def __mod__(a, b):
        b = _co(b)
        return NotImplemented if b is None else mod(a, b)

    def __rmod__(a, b):
        b = _co(b)
        return NotImplemented if b is None else mod(b, a)

    def __divmod__(a, b):
        return a // b, a % b

    def __rdivmod__(a, b):
        return b // a, b % a

    def __pow__(a, b):
        return power(a, b)

    def __rpow__(a, b):
        return power(lift(b), a)

    def __neg__(a):
        return neg(a)

    def __pos__(a):
        return a

    def __abs__(a):
        return absolute(a)

    def __lt__(a, b):
        b = _co(b)
        return NotImplemented if b is None else lt(a, b)

    def __le__(a, b):
        b = _co(b)
        return NotImplemented if b is None else le(a, b)

    def __gt__(a, b):
        b = _co(b)
        return NotImplemented if b is None else lt(b, a)

    def __ge__(a, b):
        b = _co(b)
        return NotImplemented if b is None else le(b, a)

    def __eq__(a, b):
        b = _co(b)
        return NotImplemented if b is None else eq(a, b)

    def __ne__(a, b):
        b = _co(b)
        return NotImplemented if b is None else not_(eq(a, b))

    def __and__(a, b):
        b = _co(b)
        return NotImplemented if b is None else and_(a, b)

    __rand__ = __and__

    def __or__(a, b):
        b = _co(b)
        return NotImplemented if b is None else or_(a, b)

    __ror__ = __or__

    def __invert__(a):
        if a.sort != 'b':
            return add(neg(a), num(-1))
        return not_(a)

    def __hash__(a):
        return hash(('T', a.key))

    def __bool__(a):
        if a.op == 'num':
            return a.args[0] != 0
        if a.op == 'true':
            return True
        if a.op == 'false':
            return False
        return BRANCH(a if a.sort == 'b' else not_(eq(a, num(0))))

    def __index__(a):
        if a.op == 'num' and a.args[0].denominator == 1:
            return int(a.args[0])
        v = CONCRETIZE(a)
        if v is None:
            raise Unsupported('symbolic integer used where a concrete one is needed: %s' % show(a))
        return v

    def __int__(a):
        if a.op == 'num':
            return int(a.args[0])
        if a.op == 'true':
            return 1
        if a.op == 'false':
            return 0
        return a.__index__()

    def __float__(a):
        if a.op == 'num':
            return float(a.args[0])
        if a is PI:
            return math.pi
        raise Unsupported('symbolic number converted to float: %s' % show(a))

    def __round__(a, n=None):
        if n is not None:
            raise Unsupported('round with digits')
        return roundint(a)

    def __floor__(a):
        return floorint(a)

    def __repr__(a):
        return show(a)

    def __copy__(a):
        return a

    def __deepcopy__(a, memo):
        return a

    def __array__(self, *a, **k):
        raise Unsupported('native NumPy conversion of a symbolic number')

    # numpy-scalar flavour
    shape = ()
    ndim = 0
    size = 1

    @property
    def real(a):
        return re(a)

    @property
    def imag(a):
        return im(a)

    def conj(a):
        return conj(a)

    conjugate = conj

    def copy(a):
        return a

    def item(a):
        return a

    def sum(a, axis=None):
        return a

    def astype(a, dtype):
        return ASTYPE(a, dtype)

    def round(a, decimals=0):
        return roundreal(a)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return UFUNC(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return AFUNC(func, args, kwargs)


def _unset(*a, **k):
    raise Unsupported('engine hook not installed')


def BRANCH(t):
    raise Unsupported('branch on symbolic condition outside of the interpreter: %s' % show(t))


def CONCRETIZE(t):
    return None


ASTYPE = UFUNC = AFUNC = _unset


def mk(op, args, sort):
    k = (op, sort) + tuple(a.key if isinstance(a, T) else ('#', a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        _counter[0] += 1
        t.key = _counter[0]
        t._free = None
        _table[k] = t
    return t


def num(x, sort=None):
    f = Fraction(x)
    if sort is None:
        sort = 'i' if f.denominator == 1 and not isinstance(x, float) else 'r'
    return mk('num', (f,), sort)


TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')
I = mk('I', (), 'c')
PI = mk('sym', ('pi',), 'r')
INF = mk('sym', ('inf',), 'r')
ZERO = num(0)
ONE = num(1)


def sym(name, sort='r'):
    return mk('sym', (name,), sort)


_fresh = [0]


def fresh(name, sort='i'):
    _fresh[0] += 1
    return sym('%s!%d' % (name, _fresh[0]), sort)


def _pifrac(x):
    """rational multiple of pi with small numerator and denominator"""
    if x == 0 or not math.isfinite(x):
        return None
    r = Fraction(x / math.pi).limit_denominator(720)
    if r and abs(r.numerator) <= 720 and abs(float(r) * math.pi - x) <= 4e-16 * abs(x):
        # reject plain rationals
        if Fraction(x).denominator < 10**6:
            return None
        return r
    return None


def lift(x):
    t = _co(x)
    if t is None:
        raise Unsupported('cannot use %r as symbolic number' % type(x))
    return t


def _co(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Fraction):
        return num(x, 'r')
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else neg(INF)
        if math.isnan(x):
            return sym('nan', 'r')
        r = _pifrac(x)
        if r is not None:
            return mul(num(r, 'r'), PI)
        return mk('num', (Fraction(x),), 'r')
    if isinstance(x, complex):
        return add(lift(x.real), mul(lift(x.imag), I)) if x.real else mul(lift(x.imag), I)
    tn = type(x).__name__
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and hasattr(x, 'item'):
        y = x.item()
        if isinstance(y, T):
            return y
        return _co(y)
    return None


def _sort(args):
    return max((a.sort for a in args), key=RANK.get)


def _arith(s):
    return 'i' if s == 'b' else s


def b2i(t):
    if t.sort == 'b':
        return ite(t, num(1), num(0))
    return t


def add(*args):
    out = []
    c = Fraction(0)
    sort = _arith(_sort(args))
    for a in args:
        a = b2i(a)
        if a.op == 'num':
            c += a.args[0]
        elif a.op == 'add':
            for b in a.args:
                if b.op == 'num':
                    c += b.args[0]
                else:
                    out.append(b)
        else:
            out.append(a)
    if not out:
        return mk('num', (c,), sort)
    if c:
        out.append(mk('num', (c,), 'i' if c.denominator == 1 and sort == 'i' else 'r'))
    if len(out) == 1 and out[0].sort == sort:
        return out[0]
    if len(out) == 2 and c == 0:
        # x + (-x)
        a, b = out
        if neg(a) is b:
            return mk('num', (Fraction(0),), sort)
    return mk('add', tuple(out), sort)


def neg(a):
    return mul(num(-1), b2i(a))


def mul(*args):
    out = []
    c = Fraction(1)
    sort = _arith(_sort(args))
    for a in args:
        a = b2i(a)
        if a.op == 'num':
            c *= a.args[0]
        elif a.op == 'mul':
            for b in a.args:
                if b.op == 'num':
                    c *= b.args[0]
                else:
                    out.append(b)
        else:
            out.append(a)
    if c == 0:
        return mk('num', (Fraction(0),), sort)
    if not out:
        return mk('num', (c,), sort)
    if c != 1:
        out.insert(0, mk('num', (c,), 'i' if c.denominator == 1 and sort == 'i' else 'r'))
    if len(out) == 1 and out[0].sort == sort:
        return out[0]
    if len(out) == 2 and c != 1 and out[1].op == 'add':
        return add(*[mul(out[0], b) for b in out[1].args])
    return mk('mul', tuple(out), sort)


def inv(a):
    a = b2i(a)
    if a.op == 'num':
        if a.args[0] == 0:
            return sym('1/0', 'r')     # unspecified value (dead branches)
        return mk('num', (1 / a.args[0],), 'r')
    return mk('pow', (a, -1), 'r' if a.sort == 'i' else a.sort)


def div(a, b):
    b = b2i(b)
    if b is INF:
        return num(0, 'r')
    a = b2i(a)
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return mk('num', (a.args[0] / b.args[0],), 'r')
    r = mul(a, inv(b))
    return r if r.sort != 'i' else mk('cast', (r,), 'r')


def power(a, b):
    a = b2i(a)
    b = lift(b)
    if b.op == 'num':
        e = b.args[0]
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return num(1, a.sort)
            if n == 1:
                return a
            if a.op == 'num':
                if a.args[0] == 0 and n < 0:
                    return power(sym('1/0', 'r'), num(-n))     # unspecified value (dead branches)
                return mk('num', (a.args[0] ** n,), a.sort if n > 0 else 'r')
            return mk('pow', (a, n), a.sort if n > 0 or a.sort != 'i' else 'r')
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == Fraction(3, 2):
            return mul(a, sqrt(a))
    return mk('fn', ('power', a, b), 'r')


def idiv(a, b):
    a, b = b2i(a), b2i(b)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] // b.args[0], _sort((a, b)))
    if b.op == 'num' and b.args[0] == 1 and a.sort == 'i':
        return a
    return mk('idiv', (a, b), _sort((a, b)))


def mod(a, b):
    a, b = b2i(a), b2i(b)
    if a.op == 'num' and b.op == 'num':
        return mk('num', (a.args[0] % b.args[0],), _sort((a, b)))
    if b.op == 'num' and b.args[0] == 1 and a.sort == 'i':
        return num(0)
    return mk('mod', (a, b), _sort((a, b)))


def _cmpconst(a, b):
    if a.op == 'num' and b.op == 'num':
        return a.args[0], b.args[0]
    d = add(a, neg(b))
    if d.op == 'num':
        return d.args[0], 0
    return None


def lt(a, b):
    a, b = b2i(a), b2i(b)
    c = _cmpconst(a, b)
    if c:
        return TRUE if c[0] < c[1] else FALSE
    if b is INF and a is not INF:
        return TRUE
    if a is INF:
        return FALSE
    return mk('lt', (a, b), 'b')


def le(a, b):
    a, b = b2i(a), b2i(b)
    c = _cmpconst(a, b)
    if c:
        return TRUE if c[0] <= c[1] else FALSE
    if b is INF:
        return TRUE
    return mk('le', (a, b), 'b')


def eq(a, b):
    if a.sort == 'b' and b.sort == 'b':
        if a is b:
            return TRUE
        if b is TRUE:
            return a
        if a is TRUE:
            return b
        if b is FALSE:
            return not_(a)
        if a is FALSE:
            return not_(b)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = b2i(a), b2i(b)
    if a is b:
        return TRUE
    c = _cmpconst(a, b)
    if c:
        return TRUE if c[0] == c[1] else FALSE
    if (a is INF) != (b is INF):
        return FALSE
    if a.key > b.key:
        a, b = b, a
    return mk('eq', (a, b), 'b')


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.sort != 'b':
        return eq(a, num(0))
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return mk('not', (a,), 'b')


def _truth(a):
    return a if a.sort == 'b' else not_(eq(a, num(0)))


def and_(*args):
    out = []
    for a in args:
        a = _truth(a)
        if a is FALSE:
            return FALSE
        if a is TRUE:
            continue
        for b in (a.args if a.op == 'and' else (a,)):
            if all(b is not o for o in out):
                out.append(b)
    for a in out:
        n = not_(a)
        if any(n is o for o in out):
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'b')


def or_(*args):
    out = []
    for a in args:
        a = _truth(a)
        if a is TRUE:
            return TRUE
        if a is FALSE:
            continue
        for b in (a.args if a.op == 'or' else (a,)):
            if all(b is not o for o in out):
                out.append(b)
    for a in out:
        n = not_(a)
        if any(n is o for o in out):
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'b')


def ite(c, a, b):
    c = _truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'b' and b.sort == 'b':
        return or_(and_(c, a), and_(not_(c), b))
    a, b = b2i(a), b2i(b)
    s = _sort((a, b))
    if c.op == 'not':
        return mk('ite', (c.args[0], b, a), s)
    return mk('ite', (c, a, b), s)


def app(name, idx, sort):
    return mk('app', (name,) + tuple(idx), sort)


def fn(name, *args, sort='r'):
    return mk('fn', (name,) + args, sort)


def Sum(var, lo, hi, body):
    body = b2i(body)
    lo, hi = lift(lo), lift(hi)
    if body.op == 'num' and body.args[0] == 0:
        return body
    if lo.op == 'num' and hi.op == 'num':
        n = int(hi.args[0] - lo.args[0])
        if n <= 0:
            return num(0, body.sort)
        if n <= 64:
            return add(*[subst(body, {var: num(lo.args[0] + i)}) for i in range(n)])
    return mk('sum', (var, lo, hi, body), body.sort)


def forall(var, lo, hi, body):
    if body is TRUE:
        return TRUE
    lo, hi = lift(lo), lift(hi)
    if lo.op == 'num' and hi.op == 'num' and hi.args[0] - lo.args[0] <= 64:
        return and_(TRUE, *[subst(body, {var: num(lo.args[0] + i)}) for i in range(max(0, int(hi.args[0] - lo.args[0])))])
    return mk('forall', (var, lo, hi, body), 'b')


def exists(var, lo, hi, body):
    return not_(forall(var, lo, hi, not_(body)))


def conj(a):
    if a.sort != 'c':
        return a
    if a is I:
        return mul(num(-1), I)
    if a.op == 'add':
        return add(*map(conj, a.args))
    if a.op == 'mul':
        return mul(*map(conj, a.args))
    if a.op == 'pow':
        return mk('pow', (conj(a.args[0]), a.args[1]), 'c')
    if a.op == 'ite':
        return ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    if a.op == 'sum':
        return Sum(*a.args[:3], conj(a.args[3]))
    if a.op == 'fn' and a.args[0] == 'conj':
        return a.args[1]
    if a.op == 'fn' and a.args[0] in ('exp', 'sinh', 'cosh', 'cos', 'sin'):
        return mk('fn', (a.args[0],) + tuple(map(conj, a.args[1:])), 'c')
    if a.op == 'num':
        return a
    if a.op == 'cast':
        return mk('cast', (conj(a.args[0]),), 'c')
    return mk('fn', ('conj', a), 'c')


def re(a):
    a = b2i(a)
    if a.sort != 'c':
        return a
    return mk('re', (a,), 'r')


def im(a):
    a = b2i(a)
    if a.sort != 'c':
        return num(0, a.sort)
    return mk('im', (a,), 'r')


def absolute(a):
    a = b2i(a)
    if a.op == 'num':
        return mk('num', (abs(a.args[0]),), a.sort)
    if a.sort == 'c':
        return sqrt(re(mul(a, conj(a))))
    return mk('fn', ('abs', a), a.sort)


def sqrt(a):
    a = b2i(a)
    if a.op == 'num' and a.args[0] >= 0:
        p, q = a.args[0].numerator, a.args[0].denominator
        if math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
            return mk('num', (Fraction(math.isqrt(p), math.isqrt(q)),), 'r')
    return mk('fn', ('sqrt', a), 'r' if a.sort == 'i' else a.sort)


def roundint(a):
    if a.sort == 'i':
        return a
    if a.op == 'num':
        return num(round(a.args[0]))
    return mk('fn', ('round', a), 'i')


def floorint(a):
    if a.sort == 'i':
        return a
    if a.op == 'num':
        return num(math.floor(a.args[0]))
    return mk('fn', ('floor', a), 'i')


def truncint(a):
    """int() / astype(int)"""
    if a.sort in 'ib':
        return b2i(a)
    if a.op == 'cast':
        return truncint(a.args[0])
    if a.op == 'num':
        return num(int(a.args[0]))
    if a.op == 'fn' and a.args[0] == 'rint':
        return roundint(a.args[1])
    if a.op == 'ite':
        return ite(a.args[0], truncint(a.args[1]), truncint(a.args[2]))
    return mk('fn', ('trunc', a), 'i')


def roundreal(a):
    if a.sort == 'i':
        return a
    if a.op == 'num':
        return mk('num', (Fraction(round(a.args[0])),), 'r')
    return mk('fn', ('rint', a), 'r')


def cast(a, sort):
    a = b2i(a) if sort != 'b' else a
    if sort == 'b':
        return _truth(a)
    if a.sort == sort:
        return a
    if sort == 'i':
        return truncint(a)
    if a.op == 'num':
        return mk('num', a.args, sort)
    if sort == 'r' and a.sort == 'c':
        raise Unsupported('complex to real')
    return mk('cast', (a,), sort)


# -- traversal ------------------------------------------------------------------

def children(t):
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, f):
    op = t.op
    if op in ('num', 'sym', 'true', 'false', 'I'):
        return t
    a = tuple(f(x) if isinstance(x, T) else x for x in t.args)
    if all(x is y for x, y in zip(a, t.args)):
        return t
    if op == 'add':
        return add(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'pow':
        return power(a[0], a[1])
    if op == 'idiv':
        return idiv(*a)
    if op == 'mod':
        return mod(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'le':
        return le(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'not':
        return not_(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'sum':
        return Sum(*a)
    if op == 'forall':
        return forall(*a)
    if op == 'cast':
        return cast(a[0], t.sort)
    if op == 're':
        return re(a[0])
    if op == 'im':
        return im(a[0])
    if op == 'fn':
        n = a[0]
        if n == 'conj':
            return conj(a[1])
        if n == 'abs':
            return absolute(a[1])
        if n == 'sqrt':
            return sqrt(a[1])
        if n == 'round':
            return roundint(a[1])
        if n == 'floor':
            return floorint(a[1])
        if n == 'trunc':
            return truncint(a[1])
        if n == 'rint':
            return roundreal(a[1])
    return mk(op, a, t.sort)


def free(t):
    """keys of free symbols"""
    stack = [t]
    if t._free is not None:
        return t._free
    order = []
    seen = set()
    while stack:
        x = stack.pop()
        if x._free is not None or x.key in seen:
            continue
        seen.add(x.key)
        order.append(x)
        stack.extend(children(x))
    # post-order by key: children are created before parents
    for x in sorted(order, key=lambda x: x.key):
        if x.op == 'sym':
            x._free = frozenset((x.key,))
        elif x.op in ('sum', 'forall'):
            v, lo, hi, body = x.args
            x._free = (body._free - {v.key}) | lo._free | hi._free
        else:
            f = frozenset()
            for c in children(x):
                f |= c._free
            x._free = f
    return t._free


def subst(t, m, memo=None):
    """m: {T sym: T}; binders are globally unique so capture cannot occur"""
    if not m:
        return t
    keys = frozenset(v.key for v in m)
    mm = {v.key: lift(x) for v, x in m.items()}
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t.key)
        if r is not None:
            return r
        if t.key in mm:
            r = mm[t.key]
        elif not (free(t) & keys):
            r = t
        elif t.op in ('sum', 'forall'):
            v, lo, hi, body = t.args
            if v.key in mm or any(v.key in free(mm[k]) for k in keys & body._free if k != v.key):
                w = fresh('b', v.sort)
                body = subst(body, {v: w})
                v = w
            r = (Sum if t.op == 'sum' else forall)(v, go(lo), go(hi), go(body))
        else:
            r = rebuild(t, go)
        memo[t.key] = r
        return r

    return go(t)


def replace_apps(t, name, f):
    """replace app(name, idx) by f(idx)"""
    memo = {}

    def go(t):
        r = memo.get(t.key)
        if r is None:
            if t.op == 'app' and t.args[0] == name:
                r = f(tuple(go(x) for x in t.args[1:]))
            else:
                r = rebuild(t, go)
            memo[t.key] = r
        return r
    return go(t)


def appnames(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        if x.op == 'app':
            out.add(x.args[0])
        elif x.op == 'sym':
            out.add('sym:' + x.args[0])
        stack.extend(children(x))
    return out


def subterms(t, pred):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        if pred(x):
            out.append(x)
        stack.extend(children(x))
    return out


_prec = {'add': 1, 'mul': 2, 'pow': 3}


def show(t, depth=12):
    if depth == 0:
        return '...'
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else str(x)
    op = t.op
    if op == 'num':
        return str(t.args[0])
    if op == 'sym':
        return t.args[0]
    if op in ('true', 'false', 'I'):
        return op
    if op == 'add':
        return '(' + ' + '.join(map(s, t.args)) + ')'
    if op == 'mul':
        return '*'.join(map(s, t.args))
    if op == 'pow':
        return '%s^%s' % (s(t.args[0]), t.args[1])
    if op == 'app':
        return '%s[%s]' % (t.args[0], ','.join(map(s, t.args[1:])))
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ','.join(map(s, t.args[1:])))
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(map(s, t.args))
    if op in ('sum', 'forall'):
        return '%s{%s in %s..%s: %s}' % ((op,) + tuple(map(s, t.args)))
    if op in ('lt', 'le', 'eq', 'idiv', 'mod'):
        return '(%s %s %s)' % (s(t.args[0]), {'lt': '<', 'le': '<=', 'eq': '==', 'idiv': '//', 'mod': '%'}[op], s(t.args[1]))
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(map(s, t.args)) + ')'
    return '%s(%s)' % (op, ','.join(map(s, t.args)))
