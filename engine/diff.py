"""Exact derivative of a term with respect to a real symbol.

Conditions of ite are treated as locally constant: the derivative is that of
the branch in the interior of each region (the contracts exclude, or separately
treat, the points where a branch condition changes)."""
from . import terms as tm
from .terms import T, Unsupported, num, add, mul, neg, power, fn


def diff(t, x, memo=None):
    if memo is None:
        memo = {}
    if x.key not in tm.free(t):
        return num(0)
    r = memo.get(t.key)
    if r is None:
        r = memo[t.key] = _diff(t, x, memo)
    return r


def _diff(t, x, memo):
    op, a = t.op, t.args
    D = lambda s: diff(s, x, memo)
    if t is x:
        return num(1)
    if op == 'add':
        return add(*[D(b) for b in a])
    if op == 'mul':
        return add(*[mul(*[D(c) if i == j else c for j, c in enumerate(a)]) for i, b in enumerate(a) if x.key in tm.free(b)])
    if op == 'pow':
        return mul(num(a[1]), power(a[0], num(a[1] - 1)), D(a[0]))
    if op == 'cast':
        return D(a[0])
    if op == 're':
        return tm.re(D(a[0]))
    if op == 'im':
        return tm.im(D(a[0]))
    if op == 'ite':
        return tm.ite(a[0], D(a[1]), D(a[2]))
    if op == 'sum':
        v, lo, hi, b = a
        if x.key in tm.free(lo) or x.key in tm.free(hi):
            raise Unsupported('derivative of summation range')
        return tm.Sum(v, lo, hi, D(b))
    if op == 'app':
        h = RULES.get(t.args[0])
        if h is not None:
            return h(t, x, D)
        raise Unsupported('derivative of ' + t.args[0])
    if op == 'fn':
        f, u = a[0], a[1]
        if f == 'power':
            b, e = a[1], a[2]
            return mul(t, add(mul(D(e), fn('log', b, sort='r')), mul(e, D(b), power(b, num(-1)))))
        d = D(u)
        one = num(1)
        if f == 'exp':
            return mul(t, d)
        if f == 'log':
            return mul(d, power(u, num(-1)))
        if f == 'sqrt':
            return mul(d, power(mul(num(2), t), num(-1)))
        if f == 'sin':
            return mul(fn('cos', u, sort=t.sort), d)
        if f == 'cos':
            return neg(mul(fn('sin', u, sort=t.sort), d))
        if f == 'sinh':
            return mul(fn('cosh', u, sort=t.sort), d)
        if f == 'cosh':
            return mul(fn('sinh', u, sort=t.sort), d)
        if f == 'erf':
            return mul(num(2), fn('exp', neg(mul(u, u)), sort='r'), power(tm.sqrt(tm.PI), num(-1)), d)
        if f == 'arctan':
            return mul(d, power(add(one, mul(u, u)), num(-1)))
        if f in ('sign', 'floor', 'round', 'rint', 'trunc'):
            return num(0)
        if f == 'abs' and u.sort != 'c':
            return mul(fn('sign', u, sort='r'), d)
        if f == 'conj':
            return tm.conj(d)
    raise Unsupported('derivative of %s' % (t.args[0] if op == 'fn' else op))


RULES = {}
