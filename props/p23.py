''' P23: sums, multiples and parts of laminations. '''
from fractions import Fraction
from itertools import combinations
from math import gcd

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.strand import components, is_peripheral_word, is_valid

PROP = Property('P23', ['Sums of crossing laminations are sums of weights (Haken sums), so only their weights and the kind those weights have are specified.'])
K = curver.kernel
KW = dict(glued=True, disconnected=True)


def kind_of(R, w):
    ''' The class that a lamination with these weights should have. '''
    d = 0
    for a in w:
        d = gcd(d, a)
    comps = components(R, w if d < 100 or d % 2 else [a // (d // 2) for a in w])  # Keep huge multiples small.
    if not comps:
        return None
    kinds = {c[0] for c in comps.values()}
    one = len(comps) == 1 and all(c[1] == 1 for c in comps.values())
    if kinds == {'arc'}:
        return K.Arc if one else K.MultiArc
    if kinds == {'curve'}:
        return K.Curve if one else K.MultiCurve
    return K.IntegralLamination


def same(ctx, R, T, L, w, msg):
    ctx.equal(list(L), list(w), msg + ' weights')
    ctx.equal(L.triangulation, T, msg + ' triangulation')
    want = kind_of(R, w)
    if want is None:
        ctx.require(isinstance(L, K.IntegralLamination) and L.is_empty(), msg + f' is empty but is a {type(L).__name__}')
    else:
        ctx.require(type(L) is want, msg + f' is a {type(L).__name__} rather than a {want.__name__}', weights=w)
    return L


def same_components(ctx, L, comps, msg):
    ctx.equal({tuple(c): m for c, m in L.components().items()}, {v: m for v, m in comps.items()}, msg + ' components')
    ctx.equal(L.num_components(), sum(comps.values()), msg + ' number of components')


def mult(comps):
    return {v: c[1] for v, c in comps.items()}


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 3), wmax=5, drag=5, **KW), 'items': st.lists(st.integers(0, 5), max_size=6),
                                 'counts': st.lists(st.integers(0, 3), min_size=3, max_size=3)}), quick=250)
def sums(case, ctx):
    ''' Sums of lists, tuples, sets, generators and dictionaries of arbitrary (also crossing) laminations, and +: the weights add up with every occurrence counted, and the class of
    the result is that of its weights. Non-trivial: at least two non-empty summands. '''
    R, ws = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    Ls = [T(w) for w in ws]
    items = [i % len(ws) for i in case['items']]
    ctx.nontrivial(sum(1 for i in items if any(ws[i])) > 1)
    repeats = len(set(items)) < len(items)
    ctx.label('repeats' if repeats else 'distinct')

    def total(pairs):
        out = [0] * R.zeta
        for w, m in pairs:
            out = [a + m * b for a, b in zip(out, w)]
        return out
    expected = total((ws[i], 1) for i in items)

    def check(collect, weights, msg):
        if is_valid(R, weights):
            same(ctx, R, T, collect(), weights, msg)
        else:  # A sum of crossing arcs can have inconsistent weights.
            ctx.label('inconsistent')
            ctx.raises(ValueError, collect, msg)
    check(lambda: T.sum([Ls[i] for i in items]), expected, f'sum of {[ws[i] for i in items]} on {R.triples}')
    check(lambda: T.sum(tuple(T(ws[i]) for i in items)), expected, 'sum of a tuple')
    check(lambda: T.sum(Ls[i] for i in items), expected, 'sum of a generator')
    check(lambda: T.sum(iter([Ls[i] for i in items])), expected, 'sum of an iterator')
    distinct = {tuple(w) for w in ws}
    check(lambda: T.sum(set(Ls)), total((w, 1) for w in distinct), 'sum of a set')
    d, counts = {}, {}
    for L, w, n in zip(Ls, ws, case['counts']):
        d[L] = n
        counts[tuple(w)] = n
    check(lambda: T.sum(d), total(counts.items()), 'sum of a dictionary')
    ctx.equal(len(d), len(counts), 'arguments are not changed')
    if len(items) > 1:
        a, b = items[0], items[-1]
        check(lambda: Ls[a] + Ls[b], total([(ws[a], 1), (ws[b], 1)]), '+')
        check(lambda: Ls[b] + Ls[a], total([(ws[a], 1), (ws[b], 1)]), '+')
    ctx.raises(ValueError, lambda: T.sum({Ls[0]: -1}), 'negative multiplicity')
    ctx.raises(ValueError, lambda: T.disjoint_sum({Ls[0]: -1}), 'negative multiplicity')
    ctx.raises(TypeError, lambda: Ls[0] + 1, 'adding a number')


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=6, drag=8, **KW), 'counts': st.lists(st.integers(0, 3), min_size=4, max_size=4), 'order': st.lists(st.integers(0, 5), max_size=8)}), quick=250)
def disjoint(case, ctx):
    ''' Disjoint sums of components of a lamination with any multiplicities, as dictionaries, lists with repeats and generators: weights, class and components. Non-trivial: at
    least two summands, some with a multiplicity above one. '''
    R, (w,) = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    comps = sorted(gen.classify(ctx, R, w))
    if not comps:
        same(ctx, R, T, T.disjoint_sum([]), [0] * R.zeta, 'empty sum')
        same(ctx, R, T, T.disjoint_sum({}), [0] * R.zeta, 'empty sum')
        same(ctx, R, T, T.disjoint_sum([T(w), T(w)]), [0] * R.zeta, 'sum of empty laminations')
        return
    counts = {v: case['counts'][i % 4] for i, v in enumerate(comps)}
    expected = [sum(m * v[e] for v, m in counts.items()) for e in range(R.zeta)]
    nonzero = {v: m for v, m in counts.items() if m}
    ctx.nontrivial(len(nonzero) > 1 and any(m > 1 for m in nonzero.values()))
    Cs = {v: T(v) for v in comps}
    msg = f'sum of {nonzero} on {R.triples}'
    L = same(ctx, R, T, T.disjoint_sum({Cs[v]: m for v, m in counts.items()}), expected, msg)
    same_components(ctx, L, nonzero, msg)
    flat = [v for v, m in counts.items() for _ in range(m)]
    for k in case['order']:
        if flat:
            flat.append(flat.pop(k % len(flat)))
    for name, coll in [('list', [Cs[v] for v in flat]), ('generator', (Cs[v] for v in flat)), ('fresh list', [T(v) for v in flat]), ('multiples', [m * Cs[v] for v, m in counts.items()])]:
        L = same(ctx, R, T, T.disjoint_sum(coll), expected, f'{name}: ' + msg)
        same_components(ctx, L, nonzero, f'{name}: ' + msg)
    L = same(ctx, R, T, T.sum([Cs[v] for v in flat]), expected, 'plain ' + msg)
    same_components(ctx, L, nonzero, 'plain ' + msg)
    whole = T(w)
    twice = same(ctx, R, T, T.disjoint_sum([whole, whole] + [Cs[v] for v in flat]), [2 * a + b for a, b in zip(w, expected)], 'whole twice and ' + msg)
    cs = mult(components(R, w))
    same_components(ctx, twice, {v: 2 * cs[v] + counts[v] for v in comps}, 'whole twice and ' + msg)


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=6, drag=8, **KW), 'factor': st.one_of(st.integers(0, 4), st.sampled_from([10**6, 10**30]))}), quick=250)
def multiples(case, ctx):
    ''' Multiples from either side have scaled weights and multiplicities, the right class, and still behave as integral laminations. Non-trivial: a factor of at least two. '''
    R, (w,) = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    k = case['factor']
    comps = gen.classify(ctx, R, w)
    ctx.nontrivial(k > 1 and bool(comps))
    L = T(w)
    expected = [k * a for a in w]
    target = {v: k * c[1] for v, c in comps.items()} if k else {}
    for asked in (False, True):
        for name, M in (('k * L', k * L), ('L * k', L * k)):
            msg = f'{name}: {k} * {w} on {R.triples}'
            same(ctx, R, T, M, expected, msg)
            same_components(ctx, M, target, msg)
            ctx.equal(M.is_integral(), True, 'multiples are integral')
            ctx.equal(M, T(expected), 'equal to the same weights')
            ctx.equal(list(M.skeleton()), [sum(v[e] for v in target) for e in range(R.zeta)], 'skeleton of a multiple')
            ctx.equal(list(M + L), [a + b for a, b in zip(expected, w)], 'multiples can be added')
            if k:
                ctx.equal(list(M.peripheral()), [k * a for a in L.peripheral()], 'peripheral part of a multiple')
        if not asked:
            L.components()  # Multiply again, now with a filled cache.
    if not L.is_empty():
        ctx.raises((AssertionError, ValueError, TypeError), lambda: L * -1, 'negative multiple')


@PROP.sub(gen.scenes((1, 1), wmax=6, drag=8, **KW), quick=250)
def parts(case, ctx):
    ''' skeleton, multiarc, multicurve, peripheral and non-peripheral parts, sublaminations (each once) and peek_component against the strand components. Non-trivial: two components. '''
    R, (w,) = gen.build_scene(case)
    T = gen.ctri(R)
    comps = gen.classify(ctx, R, w)
    ctx.nontrivial(len(comps) > 1)
    L = T(w)

    def add(select, scale=lambda c: c[1]):
        out = [0] * R.zeta
        for v, c in comps.items():
            if select(c):
                out = [a + scale(c) * b for a, b in zip(out, v)]
        return out
    msg = f' of {w} on {R.triples}'
    S = same(ctx, R, T, L.skeleton(), add(lambda c: True, lambda c: 1), 'skeleton' + msg)
    same_components(ctx, S, {v: 1 for v in comps}, 'skeleton' + msg)
    A = same(ctx, R, T, L.multiarc(), add(lambda c: c[0] == 'arc'), 'multiarc' + msg)
    C = same(ctx, R, T, L.multicurve(), add(lambda c: c[0] == 'curve'), 'multicurve' + msg)
    same_components(ctx, A, {v: c[1] for v, c in comps.items() if c[0] == 'arc'}, 'multiarc' + msg)
    same_components(ctx, C, {v: c[1] for v, c in comps.items() if c[0] == 'curve'}, 'multicurve' + msg)
    ctx.equal(T.disjoint_sum([A, C]), L, 'the multiarc and the multicurve make up the lamination')
    same(ctx, R, T, L.peripheral() + L.non_peripheral(), w, 'peripheral + non-peripheral part')
    if comps:
        ctx.require(tuple(L.peek_component()) in comps, 'peek_component returns something else')
    else:
        ctx.raises(StopIteration, L.peek_component, 'component of the empty lamination')
    if len(comps) <= 5:
        subs = L.sublaminations()
        expected = sorted(tuple(sum(v[e] for v in sub) for e in range(R.zeta)) for n in range(1, len(comps) + 1) for sub in combinations(comps, n))
        ctx.equal(sorted(tuple(x) for x in subs), expected, 'sublaminations' + msg)
        for x in subs:
            same(ctx, R, T, x, list(x), 'sublamination')


@PROP.sub(st.fixed_dictionaries({'one': gen.scenes((1, 2), wmax=4, drag=4, **KW), 'flip': gen.small_ints}), quick=120)
def refusals(case, ctx):
    ''' Laminations on different triangulations are never added. Non-trivial: the triangulations differ by a flip, so that weights of equal length are involved. '''
    R, ws = gen.build_scene(case['one'])
    options = gen.flippables(R)
    if not options:
        return
    R2 = R.flip(gen.pick(options, case['flip']))
    T, T2 = gen.ctri(R), gen.ctri(R2)
    ctx.nontrivial(T != T2)
    if T == T2:
        return
    a, b = T(ws[0]), T2.edge_arc(0)
    ctx.raises(ValueError, lambda: a + b, 'sum across triangulations')
    ctx.raises(ValueError, lambda: T.sum([a, b]), 'sum across triangulations')
    ctx.raises(ValueError, lambda: T.sum({a: 1, b: 2}), 'sum across triangulations')
    ctx.raises(ValueError, lambda: T.sum(iter([a, a, b])), 'sum across triangulations')
    ctx.raises(ValueError, lambda: T2.sum([a]), 'sum across triangulations')
    ctx.raises(ValueError, lambda: T.disjoint_sum([a, b]), 'sum across triangulations')
    ctx.raises(ValueError, lambda: T.disjoint_sum({b: 3}), 'sum across triangulations')
    ctx.raises(ValueError, lambda: T2.disjoint_sum(iter([a])), 'sum across triangulations')


FIELD = K.RealNumberField([-2, 0, 1])


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=5, drag=8, kinds=('walk', 'multicurve', 'multicurve', 'hull', 'any', 'arc', 'edges'), **KW), 'q': st.integers(2, 5), 'ps': st.lists(st.integers(0, 9), min_size=4, max_size=4),
                                 'vertex': st.lists(st.integers(0, 5), max_size=2), 'field': st.sampled_from(['Q', 'Q', 'root'])}), quick=200)
def fractional(case, ctx):
    ''' Laminations whose components have fractional or irrational multiplicities: their peripheral components and edge-parallel components, peripheral and non-peripheral parts, sums of multiples of their components, multiples and weights,
    with the class of integral laminations exactly when all multiplicities are integers. Non-trivial: some multiplicity is not an integer. '''
    R, (w,) = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    cycles = R.vertices()
    comps = sorted(components(R, w))
    for k in case['vertex']:  # Peripheral curves, if they are disjoint.
        v = [0] * R.zeta
        for x in cycles[k % len(cycles)]:
            v[x if x >= 0 else ~x] += 1
        both = [a + b for a, b in zip(add(R, comps), v)]
        new = sorted(components(R, both)) if is_valid(R, both) else []
        if set(comps) < set(new):
            comps = new
    if len(comps) > 8 or not comps:
        return
    one = 1 if case['field'] == 'Q' else FIELD.lmbda
    mults = {v: one * Fraction(case['ps'][i % 4], case['q']) if case['field'] == 'Q' else case['ps'][i % 4] * one if i % 2 == 0 else case['ps'][i % 4] for i, v in enumerate(comps)}
    whole = all(m == int(m) for m in mults.values())
    ctx.nontrivial(not whole)
    ctx.label(case['field'])
    gens = {v: K.Lamination.promote(T(v)) for v in comps}

    def total(ms):
        return [sum((m * v[e] for v, m in ms.items()), 0) for e in range(R.zeta)]

    def check(L, ms, msg):
        msg = f'{msg} of {mults} on {R.triples}'
        ctx.equal(list(L), total(ms), msg)
        live = {v: m for v, m in ms.items() if m != 0}
        if all(m == int(m) for m in live.values()):
            same(ctx, R, T, L, [int(a) for a in total(ms)], msg)
            if live:
                ctx.equal({tuple(map(int, c)): int(m) for c, m in L.components().items()}, {v: int(m) for v, m in live.items()}, msg + ' components')
        else:
            ctx.require(type(L) is K.Lamination, msg + f' is a {type(L).__name__}')
            ctx.equal(L.is_integral(), False, msg + ' is integral')
        ctx.equal(L.is_empty(), not live, msg + ' is empty')
    L = T(total(mults))
    check(L, mults, 'lamination')
    check(T.disjoint_sum({gens[v]: m for v, m in mults.items()}), mults, 'disjoint sum')
    check(T.sum({gens[v]: m for v, m in mults.items()}), mults, 'sum')
    parts = [T(total({v: m})) for v, m in mults.items()]
    check(T.disjoint_sum(parts), mults, 'disjoint sum of parts')
    check(T.sum(parts), mults, 'sum of parts')
    acc = T.empty_lamination()
    for part in parts:
        acc = acc + part
    check(acc, mults, 'sum of parts one by one')
    per = {v: m for v, m in mults.items() if is_peripheral_word_of(R, v)}
    rest = {v: m for v, m in mults.items() if v not in per}
    got = L.peripheral_components()
    ctx.equal({tuple(c): m for c, (m, _) in got.items()}, {v: m for v, m in per.items() if m != 0}, f'peripheral components of {mults} on {R.triples}')
    for c, (_, vertex) in got.items():
        ctx.equal(list(c), [sum(1 for e in vertex if e.index == i) for i in range(R.zeta)], 'a peripheral component goes round its vertex')
    check(L.peripheral(), per, 'peripheral part')
    check(L.non_peripheral(), rest, 'non-peripheral part')
    ctx.equal(L.is_peripheral(), not any(m != 0 for m in rest.values()), f'is_peripheral of {mults} on {R.triples}')
    ctx.equal(L.is_non_peripheral(), not any(m != 0 for m in per.values()), f'is_non_peripheral of {mults} on {R.triples}')
    ctx.equal(L.weight(), sum(max(a, 0) for a in total(mults)), 'weight')
    if not whole:
        for k in (0, 1, case['q'], Fraction(1, 2)):
            if case['field'] == 'root' and isinstance(k, Fraction):
                continue
            check(L * k, {v: k * m for v, m in mults.items()}, f'{k} times the lamination')
            check(k * L, {v: k * m for v, m in mults.items()}, f'{k} times the lamination')


def add(R, vs):
    return [sum(v[e] for v in vs) for e in range(R.zeta)]


def is_peripheral_word_of(R, v):
    (c,) = components(R, v).values()
    return c[0] == 'curve' and is_peripheral_word(R, c[2])
