"""Audit of the verifier itself: every normal form agrees numerically with the term it was computed from.

Opt-in (VERIF_AUDIT=p, the fraction of normalisations to test): not part of any check, but of the confidence in the
engine.  Random values that fulfil the facts of the path are given to all symbols and functions."""
import math
import os
import random
import sys
import zlib

from . import terms as tm, norm
from .evalt import evaluate
from .terms import T, Unsupported

STATE = {'depth': 0, 'tests': 0, 'skipped': 0, 'wrong': []}


def pick(name, idx, sort, sample):
    key = repr((name, tuple(round(x, 6) if isinstance(x, (int, float)) else (round(x.real, 6), round(x.imag, 6)) for x in idx), sample))
    r = random.Random(zlib.crc32(key.encode()))
    if sort == 'i':
        return r.randint(0, 4)
    if sort == 'b':
        return r.random() < 0.5
    if sort == 'c':
        return complex(r.uniform(-1, 1), r.uniform(-1, 1))
    return r.uniform(0.2, 1.5) if r.random() < 0.8 else r.uniform(-1, 1)


class Env(dict):
    def __init__(self, sorts, syms, sample):
        self.sorts, self.syms, self.sample, self.busy = sorts, syms, sample, set()

    def get(self, name, default=None):
        if name.startswith('fn:') or name.startswith('fsel') or name.startswith('flen') or name.startswith('dist'):
            return None
        return lambda *idx: pick(name, idx, self.sorts.get(name, 'r'), self.sample)

    def __contains__(self, name):
        return True

    def __getitem__(self, name):
        if dict.__contains__(self, name):
            return dict.__getitem__(self, name)
        s = self.syms.get(name)
        if s is None:
            raise Unsupported('symbol ' + name)
        v = None
        if s.sort == 'i' and s.key in norm.RANGES and s.key not in self.busy:
            self.busy.add(s.key)
            _, lo, hi = norm.RANGES[s.key]
            l = 0 if lo is None else int(evaluate(tm.lift(lo), self))
            h = l + 4 if hi is None else int(evaluate(tm.lift(hi), self))
            if h <= l:
                raise Unsupported('empty')
            v = l + zlib.crc32(repr((name, self.sample)).encode()) % (h - l)
            self.busy.discard(s.key)
        elif s.sort == 'i':
            v = 1 + zlib.crc32(repr((name, self.sample)).encode()) % 3
        else:
            v = pick(name, (), s.sort, self.sample)
        self[name] = v
        return v


def collect(ts):
    sorts, syms, seen, stack = {}, {}, set(), list(ts)
    while stack:
        x = stack.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        if x.op == 'app':
            sorts[x.args[0]] = x.sort
        elif x.op == 'sym':
            syms[x.args[0]] = x
            if x.key in norm.RANGES:
                stack.extend(tm.lift(y) for y in norm.RANGES[x.key][1:] if y is not None)
        stack.extend(tm.children(x))
    return sorts, syms


def test(ctx, t, r, samples=3):
    sorts, syms = collect([t, r, *ctx.facts])
    good = 0
    for sample in range(12):
        env = Env(sorts, syms, sample)
        try:
            if not all(evaluate(f, env) for f in ctx.facts):
                continue
            a = evaluate(t, env)
            b = evaluate(r, env)
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError, TypeError, RecursionError):
            continue
        if isinstance(a, bool) or isinstance(b, bool):
            ok = bool(a) == bool(b)
        else:
            if any(x != x or abs(x) == math.inf for x in (a, b)):
                continue
            ok = abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
        good += 1
        if not ok:
            STATE['wrong'].append((tm.show(t, 30), tm.show(r, 30), a, b))
            print('AUDIT', a, b, '\n   term', tm.show(t, 30)[:3000], '\n   form', tm.show(r, 30)[:3000], '\n   facts', [tm.show(f) for f in ctx.facts][:10], file=sys.stderr, flush=True)
            return
        if good >= samples:
            break
    STATE['tests' if good else 'skipped'] += 1


def install():
    p = float(os.environ.get('VERIF_AUDIT') or 0)
    if not p:
        return
    rng = random.Random(0)
    original = norm.Ctx.canon

    def canon(self, t):
        if STATE['depth'] or t.key in self.ccache or len(STATE['wrong']) > 5:
            return original(self, t)
        STATE['depth'] += 1
        try:
            r = original(self, t)
        finally:
            STATE['depth'] -= 1
        if rng.random() < p:
            size = len(tm.subterms(t, lambda x: True)) + len(tm.subterms(r, lambda x: True))
            if size < 600:
                STATE['depth'] += 1
                try:
                    test(self, t, r)
                finally:
                    STATE['depth'] -= 1
        return r
    norm.Ctx.canon = canon
    equal = norm.Ctx.equal

    def eq(self, l, r):
        STATE['depth'] += 1
        try:
            ok = equal(self, l, r)
        finally:
            STATE['depth'] -= 1
        if ok[0] and len(STATE['wrong']) <= 5:
            test(self, tm.lift(l), tm.lift(r))
        return ok
    norm.Ctx.equal = eq
    from . import contract
    run = contract.run_symbolic

    def report(c, k, total):
        STATE.update(tests=0, skipped=0)
        r = run(c, k, total)
        print('audit of %s: %d normal forms agree, %d not tested' % (c.id(k), STATE['tests'], STATE['skipped']), file=sys.stderr, flush=True)
        return r
    contract.run_symbolic = report
