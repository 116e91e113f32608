"""Numeric evaluation of terms: env maps names to arrays, callables or numbers."""
import cmath
import math
import numpy as np

from . import terms as tm
from .terms import T, Unsupported


def _erf(x):
    return math.erf(x)


FN = {
    'abs': abs, 'round': lambda x: round(x), 'rint': lambda x: float(round(x)), 'floor': math.floor,
    'trunc': lambda x: int(x), 'erf': _erf, 'max0': lambda x: max(0, x), 'arctan': math.atan,
    'arctan2': math.atan2, 'arccos': math.acos, 'arcsin': math.asin, 'tan': lambda x: cmath.tan(x) if isinstance(x, complex) else math.tan(x),
    'sign': lambda x: (x > 0) - (x < 0), 'conj': lambda x: complex(x).conjugate(),
    'tanh': lambda x: cmath.tanh(x) if isinstance(x, complex) else math.tanh(x),
}


def _c(f, g):
    def h(x):
        if isinstance(x, complex):
            return g(x)
        return f(x)
    return h


def _exp(x):
    if isinstance(x, complex):
        return cmath.exp(x)
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


FN.update(exp=_exp, sin=_c(math.sin, cmath.sin), cos=_c(math.cos, cmath.cos),
          sinh=_c(math.sinh, cmath.sinh), cosh=_c(math.cosh, cmath.cosh))


def _sqrt(x):
    if isinstance(x, complex):
        return cmath.sqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan


def _log(x):
    if isinstance(x, complex):
        return cmath.log(x)
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def _sorted(k):
    def f(*a):
        n = len(a) // 2
        return a[n:][sorted(range(n), key=lambda i: a[i])[k]]
    return f


FN.update({'sorted%d' % k: _sorted(k) for k in range(4)})
FN.update(sqrt=_sqrt, log=_log, power=lambda a, b: a ** b)


def evaluate(t, env):
    """env: {symbol or app name: number / ndarray / callable}; binders handled internally"""
    local = {}
    memo = {}

    def ev(t):
        op = t.op
        if op == 'num':
            f = t.args[0]
            return int(f) if t.sort == 'i' or f.denominator == 1 and abs(f.numerator) < 2**53 and t.sort == 'i' else float(f)
        if op == 'sym':
            if t.key in local:
                return local[t.key]
            if t is tm.PI:
                return math.pi
            if t is tm.INF:
                return math.inf
            if t.args[0] in env:
                v = env[t.args[0]]
                return v.item() if hasattr(v, 'item') else v
            raise Unsupported('no value for ' + t.args[0])
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'I':
            return 1j
        cacheable = not local
        if cacheable:
            r = memo.get(t.key)
            if r is not None:
                return r
        r = ev2(t, op)
        if cacheable:
            memo[t.key] = r
        return r

    def ev2(t, op):
        a = t.args
        if op == 'add':
            return sum(ev(x) for x in a)
        if op == 'mul':
            r = 1
            for x in a:
                r = r * ev(x)
            return r
        if op == 'pow':
            b = ev(a[0])
            if a[1] < 0 and b == 0:
                return math.nan
            return b ** a[1]
        if op == 'idiv':
            n = ev(a[1])
            return ev(a[0]) // n
        if op == 'mod':
            return ev(a[0]) % ev(a[1])
        if op == 'cast':
            return ev(a[0])
        if op == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'lt':
            return ev(a[0]) < ev(a[1])
        if op == 'le':
            return ev(a[0]) <= ev(a[1])
        if op == 'eq':
            return ev(a[0]) == ev(a[1])
        if op == 'not':
            return not ev(a[0])
        if op == 'and':
            return all(ev(x) for x in a)
        if op == 'or':
            return any(ev(x) for x in a)
        if op == 're':
            return complex(ev(a[0])).real
        if op == 'im':
            return complex(ev(a[0])).imag
        if op in ('sum', 'forall'):
            v, lo, hi, body = a
            l, h = ev(lo), ev(hi)
            tot = 0 if op == 'sum' else True
            for i in range(int(l), int(h)):
                local[v.key] = i
                x = ev(body)
                if op == 'sum':
                    tot = tot + x
                elif not x:
                    tot = False
                    break
            local.pop(v.key, None)
            return tot
        if op == 'app':
            f = env.get(a[0])
            if f is None:
                raise Unsupported('no value for ' + a[0])
            idx = tuple(ev(x) for x in a[1:])
            if callable(f):
                r = f(*idx)
            else:
                f = np.asarray(f)
                for i, n in zip(idx, f.shape):
                    if not 0 <= i < n:
                        raise Unsupported('index out of range in evaluation')
                r = f[tuple(int(i) for i in idx)]
            return r.item() if hasattr(r, 'item') else r
        if op == 'fn':
            args = [ev(x) if isinstance(x, T) else x for x in a[1:]]
            f = env.get('fn:' + a[0]) or FN.get(a[0])
            if f is None:
                raise Unsupported('no value for function ' + a[0])
            r = f(*args)
            return r.item() if hasattr(r, 'item') else r
        raise Unsupported('evaluate ' + op)

    return ev(t)
