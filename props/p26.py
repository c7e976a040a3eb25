''' P26: union-find and helper utilities match their specifications. '''
from fractions import Fraction
from itertools import chain

import numpy as np
from hypothesis import strategies as st

import curver
from curver.kernel import utilities as U
from curver.kernel.decorators import memoizable, memoize
from vf.core import Property

PROP = Property('P26', ['Numbers given to the base 64 coder are non-negative, as everywhere in curver; text given to the natural sort is ASCII.'])
UnionFind = curver.kernel.UnionFind

small = st.integers(0, 11)


@PROP.sub(st.fixed_dictionaries({'n': st.integers(0, 12), 'names': st.integers(0, 2), 'ops': st.lists(st.one_of(st.tuples(st.just('2'), small, small).map(list), st.tuples(st.just('n'), st.lists(small, max_size=4)).map(list),
                                                                     st.tuples(st.just('find'), small).map(list), st.just(['list'])), max_size=25)}), quick=2500)
def union_find(case, ctx):
    ''' Histories of unions and queries against sets that are merged. Non-trivial: at least two unions of different classes. '''
    n = case['n']
    name = [lambda i: i, lambda i: f'x{i}', lambda i: (i, -i)][case['names']]
    items = [name(i) for i in range(n)]
    D = UnionFind(items)
    cls = {x: {x} for x in items}
    merged = 0

    def join(x, y):
        nonlocal merged
        if cls[x] is not cls[y]:
            merged += 1
            both = cls[x] | cls[y]
            for z in both:
                cls[z] = both

    def agree():
        groups = list(D)
        want = {frozenset(c) for c in cls.values()}
        ctx.equal(len(groups), len(want), 'number of groups')
        ctx.equal({frozenset(g) for g in groups}, want, 'groups')
        ctx.equal(sum(len(g) for g in groups), n, 'each item once')
        ctx.equal(len(D), len(want), 'len')
    for op in case['ops'] if n else [['list']]:
        if op[0] == '2':
            x, y = items[op[1] % n], items[op[2] % n]
            D.union2(x, y)
            join(x, y)
        elif op[0] == 'n':
            xs = [items[i % n] for i in op[1]]
            D.union(*xs)
            for x in xs:
                join(xs[0], x)
        elif op[0] == 'find':
            x = items[op[1] % n]
            ctx.require(D(x) in cls[x], 'the root is in the class')
        else:
            agree()
    agree()
    for x in items:
        for y in items:
            ctx.equal(D(x) == D(y), cls[x] is cls[y], 'same class')
    ctx.nontrivial(merged >= 2)
    ctx.require(str(D) == repr(D) and str(D).count('{') == len(D), 'str')
    ctx.raises(KeyError, lambda: D('unknown'), 'unknown items')


values = st.lists(st.integers(-4, 6), max_size=8)


class Trap:
    ''' An iterator that counts how much of it is consumed. '''
    def __init__(self, items):
        self.items, self.used = list(items), 0

    def __iter__(self):
        for x in self.items:
            self.used += 1
            yield x


def outcome(f):
    try:
        return ('ok', f())
    except ValueError:
        return ('ValueError', None)


KEYS = [lambda x: x, lambda x: -x, abs, lambda x: x % 3, lambda x: 0]


@PROP.sub(st.fixed_dictionaries({'lists': st.lists(values, max_size=5), 'L': values, 'x': st.integers(-4, 6), 'y': st.one_of(st.none(), st.integers(-4, 8)), 'key': st.integers(0, 4), 'bound': st.one_of(st.none(), st.integers(-5, 8)), 'gen': st.booleans(), 'tup': st.booleans()}), quick=4000)
def selection(case, ctx):
    ''' cyclic_slice, maximin, maximum, maxes and product against their plain definitions, on lists, tuples and generators. Non-trivial: three lists to compare. '''
    lists, L, x, y = case['lists'], case['L'], case['x'], case['y']
    it = (lambda a: iter(list(a))) if case['gen'] else (lambda a: list(a))
    ctx.nontrivial(len(lists) >= 3 and all(lists))
    # maximin, which never needs to look past the first item that rules a list out.
    want = outcome(lambda: max(min(a) for a in lists))
    if all(lists) or not lists:
        ctx.equal(outcome(lambda: U.maximin(*[it(a) for a in lists])), want, 'maximin')
        traps = [Trap(a) for a in lists]
        if lists:
            U.maximin(*traps)
            best = None
            for t in traps:
                m = len(t.items) if best is None else next((i + 1 for i, v in enumerate(t.items) if v <= best), len(t.items))
                ctx.require(t.used <= m, 'maximin terminates early', used=t.used, needed=m)
                best = min(t.items) if best is None else max(best, min(t.items))
    # cyclic_slice
    M = tuple(L) if case['tup'] else L
    if x in L:
        i = L.index(x)
        rot = L[i:] + L[:i]
        want = rot if y is None or y not in rot else rot[:rot.index(y)]
        ctx.equal(U.cyclic_slice(M, x, y), type(M)(want), 'cyclic_slice')
        ctx.equal(U.cyclic_slice(M, x), type(M)(rot), 'cyclic_slice to the end')
    else:
        ctx.raises(ValueError, lambda: U.cyclic_slice(M, x, y), 'cyclic_slice of something that is not there')
    # maximum
    key, bound = KEYS[case['key']], case['bound']
    if L:
        reach = next((v for v in L if bound is not None and key(v) >= bound), None)
        want = reach if reach is not None else max(L, key=key)
        ctx.equal(U.maximum(it(L), key=key, upper_bound=bound), want, 'maximum')
        ctx.equal(U.maximum(it(L)), max(L), 'maximum')
        if bound is not None:
            t = Trap(L)
            U.maximum(t, key=key, upper_bound=bound)
            ctx.require(t.used <= next((i + 1 for i, v in enumerate(L) if key(v) >= bound), len(L)), 'maximum terminates early')
        top = max(map(key, L))
        ctx.equal(U.maxes(it(L), key=key), [v for v in L if key(v) == top], 'maxes')
        ctx.equal(U.maxes(it(L)), [v for v in L if v == max(L)], 'maxes')
    else:
        for f in (lambda: U.maximum(it(L), key=key), lambda: U.maximum(it(L), key=key, upper_bound=bound), lambda: U.maxes(it(L), key=key)):
            ctx.raises(ValueError, f, 'empty')
    # product, of things that do not commute
    words = ['abcdefghijk'[v + 4] for v in L]

    class W(str):
        def __mul__(self, other):
            return W(str(self) + str(other))
    ctx.equal(str(U.product(it([W(w) for w in words]), start=W('start'))), ''.join(reversed(words)) if words else 'start', 'product on the left')
    ctx.equal(str(U.product(it([W(w) for w in words]), start=W('start'), left=False)), ''.join(words) if words else 'start', 'product on the right')
    p = 1
    for v in L:
        p *= v
    ctx.equal(U.product(it(L)), p, 'product of numbers')


numbers = st.one_of(st.integers(0, 200), st.integers(0, 10**40), st.integers(0, 12).map(lambda k: 64**k), st.integers(1, 12).map(lambda k: 64**k - 1))


@PROP.sub(st.fixed_dictionaries({'n': numbers, 'm': numbers, 'chunks': st.lists(st.tuples(st.text('ab_.z', max_size=3), st.one_of(st.integers(0, 120), st.integers(0, 10**25))).map(list), max_size=3), 'chunks2': st.lists(st.tuples(st.text('ab_.z', max_size=3), st.one_of(st.integers(0, 120), st.integers(0, 10**25))).map(list), max_size=3), 'tail': st.text('abz', max_size=2)}), quick=3000)
def coding(case, ctx):
    ''' Base 64 coding, natural sorting and halving. Non-trivial: a number of several digits. '''
    n, m = case['n'], case['m']
    ctx.nontrivial(n >= 64)
    s = U.b64encode(n)
    digits, k = [], n
    while k:
        digits.append(k % 64)
        k //= 64
    alphabet = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-'
    ctx.equal(s, ''.join(alphabet[d] for d in digits), 'little endian base 64')
    ctx.equal(U.b64decode(s), n, 'round trip')
    ctx.equal(U.b64decode(s + '0'), n, 'trailing zeros do not matter')
    ctx.equal(U.b64encode(m) == s, n == m, 'injective')
    # half
    h = U.half
    for v in (n, -n):
        for f in (h, lambda x: h * x, lambda x: x * h):
            if v % 2 == 0:
                r = f(v)
                ctx.require(r == v // 2 and isinstance(r, int), 'half of an even number')
            else:
                ctx.raises(ValueError, lambda f=f, v=v: f(v), 'half of an odd number')
        ctx.require(h(Fraction(v, 3)) == Fraction(v, 6) and isinstance(h(Fraction(v, 3)), Fraction), 'half of a fraction')
    small_n = n % 10**6
    ctx.require(h(float(small_n)) == small_n / 2 and isinstance(h(float(small_n)), float), 'half of a float')
    if small_n % 2 == 0:
        r = np.int64(small_n) * h if False else h(np.int64(small_n))
        ctx.require(r == small_n // 2, 'half of a numpy integer')
    a = np.array([n, -n], dtype=object) * 2
    ctx.equal([h(x) for x in a], [n, -n], 'half of Python integers in an array')
    # natural sort
    one = ''.join(t + str(i) for t, i in case['chunks']) + case['tail']
    two = ''.join(t + str(i) for t, i in case['chunks2']) + case['tail']

    def reference(strn):
        out, run, digit = [], '', False
        for c in strn:
            if c.isdigit() != digit:
                out.append(int(run) if digit else run)
                run, digit = '', not digit
            run += c
        out.append(int(run) if digit else run)
        return out + [''] if digit else out
    ctx.equal(U.alphanum_key(one), reference(one), 'chunks')
    ctx.equal(U.alphanum_key(one) < U.alphanum_key(two), reference(one) < reference(two), 'order')
    t, i = (case['chunks'] or [['x', 3]])[0]
    ctx.require(U.alphanum_key(f'{t}{i}') < U.alphanum_key(f'{t}{i + 1}'), 'numbers are ordered as numbers')


calls = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 2), st.integers(0, 4), st.integers(0, 3), st.integers(0, 4)).map(list), min_size=1, max_size=15)


@PROP.sub(st.fixed_dictionaries({'calls': calls}), quick=2000)
def caching(case, ctx):
    ''' Histories of calls of memoized methods and functions, on several objects, with the arguments given in different ways; some calls raise and some answers are planted with set_cache. Non-trivial: a repeated call. '''
    log = []

    @memoizable
    class Thing:
        def __init__(self, k):
            self.k = k

        @memoize
        def f(self, a, b=1, *, c=None):
            log.append(('f', self.k, a, b, c))
            if (a + b) % 4 == 3:
                raise ValueError(f'{a} {b}')
            return (self.k, a, b, c)

        @memoize
        def g(self, a, b=1, *, c=None):
            log.append(('g', self.k, a, b, c))
            if a == 2:
                raise KeyError(a)
            return None if a == 0 else [self.k, a, b, c]

        @memoize
        def nothing(self):
            log.append(('nothing', self.k))
            return self.k

    @memoize
    def plain(a, b=1, *, c=None):
        log.append(('plain', a, b, c))
        if a == b:
            raise ZeroDivisionError(a)
        return (a, b, c)

    @memoize
    def other(a, b=1, *, c=None):
        log.append(('other', a, b, c))
        return (a, -b, c)

    def want(name, k, a, b, c):
        if name == 'f':
            return ('ValueError', None) if (a + b) % 4 == 3 else ('ok', (k, a, b, c))
        if name == 'g':
            return ('KeyError', None) if a == 2 else ('ok', None if a == 0 else [k, a, b, c])
        if name == 'nothing':
            return ('ok', k)
        if name == 'plain':
            return ('ZeroDivisionError', None) if a == b else ('ok', (a, b, c))
        return ('ok', (a, -b, c))
    things = [Thing(k) for k in range(3)]
    planted = {}
    seen = set()
    for which, k, a, style, b in case['calls']:
        name = ['f', 'g', 'plain', 'other', 'nothing'][which]
        obj = things[k]
        fn = {'plain': plain, 'other': other}.get(name) or getattr(obj, name)
        owner = k if name in ('f', 'g', 'nothing') else None
        c = None
        if name == 'nothing':
            args, kwargs, key = (), {}, (name, owner)
        elif style == 0:
            args, kwargs, b = (a,), {}, 1
        elif style == 1:
            args, kwargs = (a, b), {}
        elif style == 2:
            args, kwargs = (), {'b': b, 'a': a}
        else:
            c = 'c'
            args, kwargs = (a,), {'c': 'c', 'b': b}
        if name != 'nothing':
            key = (name, owner, a, b, c)
        if b == 4 and name == 'f' and style == 1:  # Plant an answer.
            obj.set_cache(obj.f, ('planted', a), a, b)
            planted[key] = ('planted', a)
            seen.add(key)
        before = len(log)
        try:
            got = ('ok', fn(*args, **kwargs))
        except Exception as e:  # pylint: disable=broad-except
            got = (type(e).__name__, None)
        ctx.equal(got, ('ok', planted[key]) if key in planted else want(name, k, a, b, c), f'call of {key}')
        ctx.equal(len(log) - before, 0 if key in seen else 1, f'evaluations of {key}')
        ctx.nontrivial(key in seen)
        seen.add(key)
    ctx.label(f'{len(seen)} distinct')
