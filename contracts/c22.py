"""C22: namelists and nested lists are parsed with their documented meaning."""
import os
import tempfile
import numpy as np
from engine.contract import bounded
from elphmod import misc

NAMES = ['control', 'system', 'electrons', 'inputph', 'input', 'a2f_1']
KEYS = ['ecutwfc', 'celldm', 'prefix', 'lspinorb', 'nq1', 'a', 'tau_x', 'title', 'ft', 'amass', 'k2']
TEXTS = ['graphene', './tmp/', 'a b', ' x ', '', 'a, b; c', 'x = 3', '&name', '/', 'T', '.false.', '12', '1e-3', 'ABC def', 'a!b', '! no comment', 'a(1)', "it's", 'say "hi"', 'x"y', "'", '100% / 3 = ?', '#']


def value(rng, i):
    """(text, meaning)"""
    if i == 0:
        n = int(rng.choice([0, 1, -1, 7, 10 ** 6, -123, int(rng.integers(-9999, 9999))]))
        return rng.choice(['%d', '%+d', '%03d'] if n >= 0 else ['%d']) % n, n
    if i == 1:
        x = float(rng.choice([0.0, 1.0, -0.5, 1e-10, 2.5e20, rng.normal()]))
        s = rng.choice(['%.6e', '%.4f', '%.3E', '%+.8e']) % x
        if 'e' in s.lower():
            x = float(s)
            c = rng.choice(list('eEdD'))
            s = s.lower().replace('e', c)
        else:
            x = float(s)
        return s, x
    if i == 2:
        b = bool(rng.integers(2))
        s = rng.choice(['.true.', '.t.', 't', '.TRUE.', 'T', '.True.'] if b else ['.false.', '.f.', 'f', '.FALSE.', 'F', '.False.'])
        return str(s), b
    s = str(rng.choice(TEXTS))
    quotes = [q for q in '\'"' if q not in s]
    return (lambda q: q + s + q)(quotes[rng.integers(len(quotes))]), s


def case(rng, s):
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s) if rng.random() < 0.3 else s


def gap(rng, required=False, newline=True):
    """blanks, line breaks, comments"""
    if not required and rng.random() < 0.3:
        return ''
    if newline and rng.random() < 0.4:
        comment = rng.choice(['', '', ' ! comment', '!', ' ! don\'t = 3, x', ' ! "a / &b', ' !! a = \'x\''])
        return comment + '\n' + ' ' * int(rng.integers(4))
    return str(rng.choice([' ', '  ', '\t', ' ' * int(rng.integers(1, 5))]))


def separator(rng):
    s = rng.choice([',', ' , ', ';', ', ', '\n', ' ', '  \n '])
    if s.strip():
        return s + gap(rng)
    return s


def namelist(rng, name):
    """text and contents of a random namelist"""
    data, entries = {}, []
    keys = list(rng.permutation(KEYS)[:rng.integers(0, 6)])
    for key in keys:
        kinds = rng.integers(4)
        if rng.random() < 0.6:
            groups = [(None, [value(rng, kinds)])]
        elif rng.random() < 0.5:
            groups = [(None, [value(rng, kinds if kinds < 3 else rng.integers(3, 4)) for _ in range(rng.integers(2, 5))])]
        else:
            groups = []
            for _ in range(rng.integers(1, 4)):
                groups.append((int(rng.integers(1, 5)), [value(rng, kinds) for _ in range(rng.integers(1, 3))]))
        for g in groups:
            entries.append((key, g))
    order = rng.permutation(len(entries)) if rng.random() < 0.5 else range(len(entries))
    body = ''
    for e in order:
        key, (n, values) = entries[e]
        body += case(rng, key)
        if n is not None:
            body += str(rng.choice(['(%d)', ' (%d)'])) % n
        body += gap(rng, newline=False) + '=' + gap(rng, newline=False)
        for i, (s, v) in enumerate(values):
            if i:
                body += separator(rng)
            body += s
        body += separator(rng)
        # meaning
        start = 0 if n is None else n - 1
        L = data.setdefault(key, [])
        while len(L) < start:
            L.append(None)
        for i, (s, v) in enumerate(values):
            L[start + i:start + i + 1] = [v]
    text = '&' + case(rng, name) + (gap(rng, required=True) if body or rng.random() < 0.7 else '') + body + '/'
    return text, {k: v[0] if len(v) == 1 else v for k, v in data.items()}


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def write(text):
    fd, name = tempfile.mkstemp()
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    return name


@bounded('C22', trials=400)
def namelists(V):
    rng = V.rng
    names = list(rng.permutation(NAMES)[:rng.integers(1, 4)])
    text, expect = str(rng.choice(['', '\n', '! phonons of graphene\n', 'Title of a calculation\n'])), {}
    for n in names:
        t, expect[n] = namelist(rng, n)
        text += t + str(rng.choice(['\n', '\n\n', '\nATOMIC_SPECIES\nC 12.011 C.upf\n', '\n! comment\n', '\n0 0 0 ! 1\n', '  ! end\n']))
    f = write(text)
    try:
        data = V.call(misc.read_namelists, f)
    finally:
        os.remove(f)
    V.holds('namelists', list(data) == names, (text, data))
    for n in names:
        V.holds('keys', set(data[n]) == set(expect[n]), (text, data[n], expect[n]))
        for k in expect[n]:
            V.holds('values', same(data[n][k], expect[n][k]), (text, k, data[n][k], expect[n][k]))


@bounded('C22', trials=60)
def input_data(V):
    """all namelists of a file merged"""
    rng = V.rng
    names = list(rng.permutation(NAMES)[:rng.integers(1, 4)])
    text, expect = '', {}
    for n in names:
        t, d = namelist(rng, n)
        text += t + '\n'
        expect.update(d)
    f = write(text)
    try:
        data = V.call(misc.read_input_data, f, broadcast=bool(rng.integers(2)))
    finally:
        os.remove(f)
    V.holds('keys', set(data) == set(expect), (text, data))
    for k in expect:
        V.holds('values', same(data[k], expect[k]), (text, k, data[k], expect[k]))


LETTERS = 'abcxyz0123-_ +*.^\\\n'


def word(rng, lo=0):
    return ''.join(rng.choice(list(LETTERS)) for _ in range(rng.integers(lo, 4))).strip()


def expression(rng, depth, sd, od, cd):
    """text of a list of items and the expanded list, if at most one bracket per item fixes the order"""
    n = rng.integers(1, 4)
    text, items = [], []
    for _ in range(n):
        a = word(rng)
        t, x, k = a, [a], rng.random()
        if depth and k < 0.6:
            inner, ys = expression(rng, depth - 1, sd, od, cd)
            b = word(rng)
            t, x = a + od + inner + cd + b, [a + y + b for y in ys]
        blank = str(rng.choice(['', ' ', '  ']))
        text.append(blank + t + str(rng.choice(['', ' '])))
        items.extend(x)
    return sd.join(text), items


DELIMITERS = [(',', '{', '}')] * 3 + [(';', '(', ')'), ('|', '[', ']'), (',', '<', '>'), ('/', '{', '}'), (',', ']', '['), (',', '(', ')')]


@bounded('C22', trials=300)
def nested_lists(V):
    rng = V.rng
    sd, od, cd = DELIMITERS[rng.integers(len(DELIMITERS))]
    text, items = expression(rng, int(rng.integers(0, 4)), sd, od, cd)
    kw = {} if (sd, od, cd) == DELIMITERS[0] and rng.integers(2) else dict(sd=sd, od=od, cd=cd)
    r = V.call(lambda: list(misc.split(text, **kw)))
    V.holds('expansion in order', r == items, (text, r, items))


@bounded('C22', trials=200)
def products(V):
    """several brackets side by side: every combination once"""
    rng = V.rng
    sd, od, cd = DELIMITERS[rng.integers(len(DELIMITERS))]
    items, text = [''], ''
    for _ in range(rng.integers(1, 4)):
        a = word(rng)
        inner, ys = expression(rng, int(rng.integers(0, 2)), sd, od, cd)
        text += a + od + inner + cd
        items = [x + a + y for x in items for y in ys]
    b = word(rng)
    text += b
    items = [x + b for x in items]
    r = V.call(lambda: list(misc.split(text, sd=sd, od=od, cd=cd)))
    V.holds('number of items', len(r) == len(items), (text, r, items))
    V.holds('every combination', sorted(r) == sorted(items), (text, r, items))
