''' P25: straight-line programs behave as the sequences they compress. '''
import copy
import pickle
from itertools import islice

from hypothesis import strategies as st

import curver
from curver.kernel.structures import Terminal
from vf.core import Property

SLP = curver.kernel.StraightLineProgram
PROP = Property('P25', ['The model of a short program is a Python list; of a long one a tree of concatenations, multiples and reversals evaluated lazily.',
                        'Lengths stay below 2^62, since len() of CPython cannot report more, and items are letters and integers (a list of lists is read as a graph by the constructor).'])


# ---- Models of sequences too long to write out: ('lit', items) | ('cat', a, b) | ('mul', a, k) | ('rev', a) | ('map', a)

class Seq:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        if kind == 'lit':
            self.n = len(args[0])
        elif kind == 'cat':
            self.n = sum(a.n for a in args[0])
        elif kind == 'mul':
            self.n = args[0].n * args[1]
        else:
            self.n = args[0].n

    def get(self, i):
        k, a = self.kind, self.args
        if k == 'lit':
            return a[0][i]
        if k == 'cat':
            for s in a[0]:
                if i < s.n:
                    return s.get(i)
                i -= s.n
        if k == 'mul':
            return a[0].get(i % a[0].n)
        if k == 'rev':
            return a[0].get(self.n - 1 - i)
        return change(a[0].get(i))

    def items(self):
        k, a = self.kind, self.args
        if self.n == 0:
            return set()
        if k == 'lit':
            return set(a[0])
        if k == 'cat':
            return set().union(*[s.items() for s in a[0]])
        if k in ('mul', 'rev'):
            return a[0].items()
        return {change(x) for x in a[0].items()}


def change(x):
    return x.swapcase() if isinstance(x, str) else x + 7


def make(items, how):
    ''' A program for a list of items, made in some way. '''
    items = list(items)
    if how % 4 == 0 or not items:
        return SLP(items)
    if how % 4 == 1:
        return SLP(tuple(items))
    if how % 4 == 2:
        return SLP([[Terminal(x) for x in items]])
    cut = len(items) // 2
    graph = [[1, 2], [Terminal(x) for x in items[:cut]], tuple(Terminal(x) for x in items[cut:])]
    return SLP(graph if how % 8 == 3 else [[2, 1], graph[2], graph[1]])


ATOMS = ['a', 'b', 'A', 'c', 'B', 0, 1, 2, -3]
atoms = st.lists(st.integers(0, len(ATOMS) - 1), min_size=0, max_size=5)
ref = st.integers(0, 9)
ops = st.one_of(
    st.tuples(st.just('new'), atoms, st.integers(0, 7)).map(list),
    st.tuples(st.just('add'), ref, ref).map(list),
    st.tuples(st.just('mul'), ref, st.integers(0, 9)).map(list),
    st.tuples(st.just('big'), ref, st.integers(10, 10**6)).map(list),
    st.tuples(st.just('sum'), st.lists(ref, min_size=0, max_size=4)).map(list),
    st.tuples(st.just('rev'), ref).map(list),
    st.tuples(st.just('map'), ref).map(list),
    st.tuples(st.just('copy'), ref).map(list),
)


def history(case_ops):
    ''' Replay a history; return a list of (program, model). '''
    pool = [(SLP(['a', 1, 'b']), Seq('lit', ['a', 1, 'b']))]
    for op in case_ops:
        kind = op[0]

        def at(i):
            return pool[-1 - i % len(pool)]
        if kind == 'new':
            items = [ATOMS[i] for i in op[1]]
            pool.append((make(items, op[2]), Seq('lit', items)))
            continue
        if kind == 'sum':
            parts = [at(i) for i in op[1]]
            new = (SLP.sum([p[0] for p in parts]), Seq('cat', [p[1] for p in parts]))
        else:
            P, m = at(op[1])
            if kind == 'add':
                Q, n = at(op[2])
                new = (P + Q, Seq('cat', [m, n]))
            elif kind in ('mul', 'big'):
                if m.n * op[2] >= 2**60:
                    continue
                new = (op[2] * P if op[2] % 2 else P * op[2], Seq('mul', m, op[2]))
            elif kind == 'rev':
                new = (P.reverse(), Seq('rev', m))
            elif kind == 'map':
                new = (P.map(change), Seq('map', m))
            else:
                new = (SLP(P), m)
        if new[1].n < 2**61:
            pool.append(new)
    return pool


def agree(ctx, P, m, probes):
    ctx.equal(len(P), m.n, 'length')
    n = m.n
    if n <= 60:
        want = [m.get(i) for i in range(n)]
        ctx.equal(list(P), want, 'iteration')
        ctx.equal(list(reversed(P)), want[::-1], 'reversed')
        ctx.equal(list(P.reverse()), want[::-1], 'reverse')
        ctx.equal([P[i] for i in range(-n, n)], want + want, 'items')
        ctx.require(isinstance(str(P), str), 'str')
        if n <= 7:
            ctx.equal(str(P), str(want), 'str')
    else:
        ctx.equal(list(islice(P, 30)), [m.get(i) for i in range(30)], 'iteration')
        ctx.equal(list(islice(reversed(P), 30)), [m.get(n - 1 - i) for i in range(30)], 'reversed')
        for p in probes + [0, n - 1]:
            i = p % n
            ctx.equal((P[i], P[i - n]), (m.get(i), m.get(i)), f'item {i}')
        ctx.equal(str(P), '[{}, {}, {}, ..., {}, {}, {}]'.format(*[m.get(i % n) for i in (0, 1, 2, -3, -2, -1)]), 'str')
    for i in (n, n + 1, -n - 1, 2 * n + 1, -3 * n - 2):
        ctx.raises(IndexError, lambda i=i: P[i], 'outside')
    inside = m.items()
    for x in ATOMS + ['z', 99, -99]:
        ctx.equal(x in P, x in inside, f'membership of {x}')
    ctx.require(isinstance(repr(P), str) and P.size() >= 1, 'repr')


@PROP.sub(st.fixed_dictionaries({'ops': st.lists(ops, min_size=1, max_size=14), 'probes': st.lists(st.integers(0, 10**18), min_size=3, max_size=8)}), quick=1500)
def histories(case, ctx):
    ''' Histories of constructions, each result compared with its model, including those used as arguments later. Non-trivial: a program that is longer than its graph. '''
    pool = history(case['ops'])
    for P, m in pool:
        agree(ctx, P, m, case['probes'])
        ctx.nontrivial(m.n > P.size() + 5)
        ctx.label('empty' if m.n == 0 else 'short' if m.n <= 60 else 'long' if m.n < 10**6 else 'too long to write out')
    P, m = pool[-1]
    agree(ctx, pickle.loads(pickle.dumps(P)), m, case['probes'])
    agree(ctx, copy.deepcopy(P), m, case['probes'])


@PROP.sub(st.fixed_dictionaries({'graph': st.lists(st.lists(st.integers(-4, 7), max_size=4), min_size=1, max_size=7), 'tuples': st.booleans()}), quick=1500)
def graphs(case, ctx):
    ''' Explicit acyclic graphs, whose nodes may be shared, empty or unreachable. Non-trivial: a shared node. '''
    g = case['graph']
    n = len(g)
    data = []
    for v, children in enumerate(g):
        out = []
        for c in children:
            if c >= 0 and v + 1 < n:
                out.append(v + 1 + c % (n - v - 1))
            else:
                out.append(Terminal(c))
        data.append(tuple(out) if case['tuples'] else out)
    expand = {}
    for v in reversed(range(n)):
        expand[v] = []
        for c in data[v]:
            expand[v] += [c.value] if isinstance(c, Terminal) else expand[c]
    P = SLP(data)
    want = expand[0]
    used = [c for children in data for c in children if not isinstance(c, Terminal)]
    ctx.nontrivial(len(set(used)) < len(used))
    ctx.equal((len(P), list(P), list(reversed(P))), (len(want), want, want[::-1]), 'sequence')
    ctx.equal([P[i] for i in range(len(want))], want, 'items')
    for x in range(-5, 9):
        ctx.equal(x in P, x in want, f'membership of {x}')
    ctx.equal(list(P + P), want * 2, 'sum')
    ctx.equal(list(P * 3), want * 3, 'multiple')
    ctx.equal(list(SLP.sum([P, SLP(['x']), P])), want + ['x'] + want, 'sum of several')
    ctx.equal(list(P.map(lambda x: x + 1)), [x + 1 for x in want], 'map')
    ctx.raises(IndexError, lambda: P[len(want)], 'outside')
    ctx.raises((AssertionError, ValueError), lambda: P * -1, 'negative multiple')


@PROP.sub(st.one_of(st.integers(0, 5), st.sampled_from(['abc', None, {'a': 1}, 1.5])), quick=10, thorough=12)
def rejection(case, ctx):
    ''' Things that are not sequences are refused. Non-trivial: always. '''
    ctx.nontrivial()
    ctx.raises((ValueError, TypeError), lambda: SLP(case), 'unknown data')
