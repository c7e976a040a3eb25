''' P30: queries are pure.

A history of queries on shared objects (whose results join the pool) is compared with each answer computed from scratch, on objects built afresh for it. '''
import pickle
from fractions import Fraction
from itertools import islice

import numpy as np
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import CpuBudget, Property

PROP = Property('P30', ['Answers are compared by meaning: laminations by class and weights, triangulations by signature, encodings by their action on their source triangulation as a lamination and on homology (mappings only), '
                        'dictionaries regardless of order.'])
K = curver.kernel
TOO_BIG = 10**9


def digest(x):
    ''' A hashable description of an answer. '''
    if isinstance(x, K.Lamination):
        return (type(x).__name__, x.triangulation.sig(), tuple(str(a) for a in x))
    if isinstance(x, K.Triangulation):
        return ('T', x.sig())
    if isinstance(x, K.Encoding):
        s = x.source_triangulation
        d = [type(x).__name__, s.sig(), x.target_triangulation.sig(), len(x)]
        if isinstance(x, K.Mapping):
            d.append(tuple(str(a) for a in x(s.as_lamination())))
            d.append(str(x.homology_matrix().tolist()))
        else:
            d.append(tuple(type(m).__name__ for m in x))
        return tuple(d)
    if isinstance(x, curver.kernel.moves.Move):
        return ('move', str(x), x.source_triangulation.sig(), x.target_triangulation.sig())
    if isinstance(x, K.HomologyClass):
        return ('H', tuple(x))
    if isinstance(x, K.FiniteSubgroup):
        return ('G', digest(set(x)))
    if isinstance(x, K.MappingClassGroup):
        return ('MCG', digest(dict(x.mapping_classes)))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((digest(k), digest(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted((digest(k) for k in x), key=repr)))
    if isinstance(x, np.ndarray):
        return ('array', str(x.tolist()))
    if isinstance(x, K.Permutation):
        return ('P', tuple(x))
    if isinstance(x, BaseException):
        return ('error', type(x).__name__, str(x))
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
        return ('list', tuple(digest(y) for y in islice(x, 300)))
    if isinstance(x, (curver.kernel.Edge, curver.kernel.Triangle)):
        return str(x)
    if x is None or isinstance(x, (bool, int, str, float, Fraction)):
        return (x == x // 1 if isinstance(x, Fraction) else None, str(x))
    return ('other', type(x).__name__, str(x))


def small(L, limit=400):
    return sum(abs(a) for a in L) <= limit


def integral(L):
    return isinstance(L, K.IntegralLamination)


# name: (kinds of arguments, function). L: lamination, M: mapping, C: mapping class, T: triangulation.
def multi(L):
    return isinstance(L, K.MultiCurve)


Q = {}


def q(name, kinds, guard=None):
    def deco(f):
        Q[name] = (kinds, f, guard)
        return f
    return deco


def simple(kinds, names, guard=None):
    for name in names:
        Q[kinds + '.' + name] = (kinds, lambda x, k, name=name: getattr(x, name)(), guard)


simple('L', ['weight', 'is_integral', 'promote', 'is_empty', 'is_peripheral', 'peripheral', 'is_non_peripheral', 'non_peripheral', 'peripheral_components', '__str__', '__repr__', '__hash__'])
simple('L', ['parallel_components', 'skeleton', 'peek_component', 'num_components', 'multiarc', 'multicurve', 'boundary', 'is_filling', 'is_polygonalisation', 'components', 'is_short', 'components', 'components'], integral)
simple('L', ['is_separating', 'crush'], lambda L: multi(L) and small(L))
simple('L', ['vertices', 'has_distinct_endpoints', 'is_triangulation'], lambda L: isinstance(L, K.MultiArc))
simple('M', ['self_image', 'intersection_matrix', 'homology_matrix', 'vertex_map', 'simplify', 'flip_mapping', 'combine_isometries', 'inverse', '__len__', '__str__', '__hash__'])
simple('C', ['is_in_torelli', 'order', 'vertex_permutation', 'is_identity', 'is_periodic', 'is_multitwist', '__str__'])
simple('T', ['surface', 'max_order', 'components', 'is_connected', 'dual_tree', 'homology_matrix', 'homology_basis', 'self_isometries', 'sig', 'edge_curves', 'edge_arcs', 'edge_homologies', 'id_encoding', 'as_lamination', 'empty_lamination', '__str__', '__hash__', 'encode_pachner_1_3'])


@q('dual', 'L')
def _(L, k):
    return [[f(e, double=bool(k % 2)) for e in L.triangulation.labels] for f in (L.dual_weight, L.left_weight, L.right_weight)]


@q('type', 'L', lambda L: integral(L) and small(L))
def _(L, k):
    t = L.topological_type(closed=bool(k % 2))
    return [t == L.topological_type(closed=bool(k % 2)), str(t.genuses), len(t.edges), len(t.arcs)]


@q('subs', 'L', lambda L: integral(L))
def _(L, k):
    return set(islice(L.sublaminations(), 40)) if len(L.components()) < 5 else None


@q('short', 'L', integral)
def _(L, k):
    s, f = L.shorten(drop=[0.1, 0, 0.5][k % 3])
    return [s, f.source_triangulation, f(L) == s, len(f)]


@q('trace', 'L', lambda L: integral(L) and not L.is_empty())
def _(L, k):
    e = gen.pick(list(L.triangulation.labels), k)
    return L.trace_curve(e, k % L(e), 50) if L(e) > 0 else None


@q('cycles', 'L', lambda L: multi(L) and not L.is_empty())
def _(L, k):
    return list(islice(L.vertex_cycles(), 6)) + [L.vertex_cycle()]


@q('twist', 'L', lambda L: multi(L) and small(L))
def _(L, k):
    return L.encode_twist(power=k % 5 - 2)


@q('halftwist', 'L', lambda L: isinstance(L, K.MultiArc) and small(L))
def _(L, k):
    return L.encode_halftwist(power=k % 5 - 2)


@q('times', 'L')
def _(L, k):
    return L * (k % 4)


@q('pickle', 'L')
def _(L, k):
    return pickle.loads(pickle.dumps(L, protocol=k % 6))


@q('plus', 'LL')
def _(L, N, k):
    return L + N


@q('meet', 'LL', lambda L: integral(L) and small(L))
def _(L, N, k):
    return L.intersection(N)


@q('fills', 'LL', lambda L: multi(L) and small(L))
def _(L, N, k):
    return [L.fills_with(N), L.boundary_union(N), L.no_common_component(N)]


@q('slope', 'LL', lambda L: isinstance(L, K.Curve) and small(L))
def _(L, N, k):
    return [L.slope(N), L.relative_twisting(N, N)]


@q('sum', 'LL')
def _(L, N, k):
    T = L.triangulation
    given = [L, N, L][:1 + k % 3]
    kept = list(given)
    out = [T.sum(given), T.sum({L: k % 3, N: 1})]
    assert given == kept
    return out


@q('disjoint', 'LL', lambda L: integral(L) and small(L))
def _(L, N, k):
    return L.triangulation.disjoint_sum([L, N]) if L.intersection(N) == 0 else None


@q('equal', 'LL')
def _(L, N, k):
    return [L == N, N == L, L != N, hash(L) == hash(N)]


@q('apply', 'ML')
def _(M, L, k):
    return M(L)


@q('pickle mapping', 'M')
def _(M, k):
    return pickle.loads(pickle.dumps(M, protocol=k % 6))


@q('package', 'M')
def _(M, k):
    return M.source_triangulation.encode(M.package())


@q('slices', 'M')
def _(M, k):
    return [M[k % (len(M) + 1):], M[:k % (len(M) + 1)], M[::2][:0]] if k % 2 else M[k % len(M)]


@q('pl', 'ML', lambda x: not isinstance(x, K.Lamination) or multi(x) and not x.is_empty())
def _(M, L, k):
    c = M.pl_action(L)
    return [c.action, c.condition]


@q('compose', 'CC', lambda C: len(C) < 12)
def _(C, D, k):
    return C * D


@q('power', 'C', lambda C: len(C) < 10)
def _(C, k):
    return C**(k % 6 - 2)


@q('conjugate', 'CC', lambda C: len(C) < 10)
def _(C, D, k):
    return C.conjugate_by(D)


@q('same', 'CC')
def _(C, D, k):
    return [C == D, D == C, hash(C) == hash(D) or C != D]


@q('conjugate to', 'CC', lambda C: len(C) < 12 and C.is_periodic())
def _(C, D, k):
    return C.is_conjugate_to(D)


@q('orbifold', 'C', lambda C: len(C) < 12 and C.is_periodic() and C.order() < 9)
def _(C, k):
    return [C.subgroup(), str(C.subgroup().quotient_orbifold_signature())]


@q('multitwist', 'C', lambda C: len(C) < 12)
def _(C, k):
    return C.extract_twisting_multicurve()


@q('group', 'CC', lambda C: len(C) < 8)
def _(C, D, k):
    given = {'a': C, 'b_1': D}
    kept = dict(given)
    S = K.MappingClassGroup(given)
    assert given == kept and list(given) == list(kept)
    letters = ['a', 'B_1']
    out = [S, S('a.b_1^2.A'), S(['a', 'B_1']), list(islice(S.cayley(letters, 1 + k % 2), 20))]
    assert letters == ['a', 'B_1']
    return out


@q('source', 'M')
def _(M, k):
    return [M.source_triangulation, M.target_triangulation][k % 2]


@q('where', 'L')
def _(L, k):
    return L.triangulation


@q('flip', 'T')
def _(T, k):
    e = gen.pick(list(T.labels), k)
    return T.encode_flip(e) if T.is_flippable(e) else [str(x) for x in T.triangles]


@q('multiflip', 'T')
def _(T, k):
    given = [gen.pick(list(T.labels), k)]
    kept = list(given)
    out = T.encode_multiflip(given) if T.is_flippable(given[0]) else None
    assert given == kept
    return out


@q('square', 'T')
def _(T, k):
    e = gen.pick(list(T.labels), k)
    return [T.is_flippable(e), T.square(e) if T.is_flippable(e) else None, T.corner_lookup[e]]


@q('relabel', 'T')
def _(T, k):
    n = T.zeta
    given = {i: (i + k) % n for i in range(n)}
    kept = dict(given)
    out = T.encode_relabel_edges(given)
    assert given == kept, 'encode_relabel_edges changed the map it was given'
    return out


@q('isometry', 'T')
def _(T, k):
    isoms = list(T.self_isometries())
    f = gen.pick(isoms, k)
    given = {e: f.label_map[e] for e in f.label_map}
    kept = dict(given)
    g = T.find_isometry(T, given)
    assert given == kept, 'find_isometry changed the map it was given'
    return [g, T.find_isometry(T, kept).encode()]


@q('lamination', 'T')
def _(T, k):
    given = [0] * T.zeta
    given[k % T.zeta] = -1 - k % 2
    kept = list(given)
    L = T(given)
    assert given == kept, 'the list given changed'
    given[0] = 17
    return L


@q('pieces', 'T')
def _(T, k):
    return [T.edge_curve(k % T.zeta), T.edge_arc(k % T.zeta), T.edge_homology(k % T.zeta)]


@q('encode', 'T')
def _(T, k):
    given = [gen.pick([e for e in T.labels if T.is_flippable(e)] or [None], k), None]
    kept = list(given)
    out = T.encode(given)
    assert given == kept, 'encode changed the sequence it was given'
    return out


@q('pickle triangulation', 'T')
def _(T, k):
    return pickle.loads(pickle.dumps(T, protocol=k % 6))


@q('isometric', 'TT')
def _(T, U, k):
    return [T == U, T.is_isometric_to(U), len(list(T.isometries_to(U)))]


NAMES = list(Q)


def kinds_of(x):
    out = ''
    if isinstance(x, K.Lamination):
        out += 'L'
    if isinstance(x, K.Mapping):
        out += 'M'
    if isinstance(x, K.MappingClass):
        out += 'C'
    if isinstance(x, K.Triangulation):
        out += 'T'
    return out


class Base:
    ''' The objects to start from, built from scratch. '''
    def __init__(self, case):
        R, ws = gen.build_scene(case['scene'])
        T = gen.ctri(R)
        h = gen.mapping_class(T, case['cls'])
        f = gen.mapping(T, case['moves'])
        self.items = [T] + [T(w) for w in ws] + [h, f, h.inverse()]


def flatten(x):
    if kinds_of(x):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    if isinstance(x, dict):
        return [z for y in sorted(x, key=lambda y: repr(digest(y))) for z in flatten(y)]
    return []


def answer(name, args, k):
    ''' The answer to a query, or the error it raises. '''
    kinds, f, guard = Q[name]
    try:
        if guard is not None and not all(guard(x) for x in args if kinds_of(x) and (not isinstance(x, K.Mapping) or 'C' in kinds)):
            return None
        return f(*args, k)
    except CpuBudget:
        raise
    except (AssertionError, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration) as e:
        if isinstance(e, AssertionError) and 'given' in str(e):
            raise
        return e.with_traceback(None)


HISTORY = st.fixed_dictionaries({
    'scene': gen.scenes((2, 3), bases=gen.SMALL + ['0,3', '2,1'], wmax=4, max_flips=3, drag=4, disconnected=True, glued=True),
    'cls': gen.class_specs(max_size=2, power=2, max_conj=2),
    'moves': gen.moves_specs(('flip', 'twist', 'relabel', 'multiflip'), max_size=2, power=1),
    'steps': st.lists(st.tuples(st.integers(0, len(NAMES) - 1), st.integers(0, 60), st.integers(0, 60), st.integers(0, 30)).map(list), min_size=4, max_size=16),
})


@PROP.sub(HISTORY, quick=380, budget=90)
def history(case, ctx):
    ''' Every answer in a history of queries on shared objects equals the answer got by asking that one question of objects built from scratch; asked again at the end it is still the same; the answers given have not changed since; and
    the objects are equal to, and hash as, freshly built ones. Non-trivial: at least three queries, one of them on the result of another. '''
    explore(case, ctx)


FOCUS = st.fixed_dictionaries({
    'scene': gen.scenes((2, 3), bases=gen.SMALL + ['2,1'], wmax=4, max_flips=3, drag=4, disconnected=True, glued=True),
    'cls': gen.class_specs(max_size=2, power=2, max_conj=2),
    'moves': gen.moves_specs(('flip', 'twist', 'relabel', 'multiflip'), max_size=2, power=1),
    'focus': st.sampled_from(['L', 'L', 'L', 'L', 'C', 'T']), 'which': st.integers(0, 2),
    'steps': st.lists(st.tuples(st.integers(0, len(NAMES) - 1), st.integers(0, 60), st.integers(0, 60), st.integers(0, 30)).map(list), min_size=8, max_size=24),
})


@PROP.sub(FOCUS, quick=150, budget=90)
def focus(case, ctx):
    ''' As history, but most of the queries are about one object. Non-trivial: at least three queries, one of them on the result of another. '''
    explore(case, ctx)


def explore(case, ctx):
    base = Base(case)
    pool = [(x, ('base', i), 0) for i, x in enumerate(base.items)]
    log = []
    names, main = NAMES, None
    if 'focus' in case:
        names = [name for name in NAMES if Q[name][0][0] == case['focus']]
        main = gen.pick([p for p in pool if case['focus'] in kinds_of(p[0])], case['which'])
    derived = 0

    def candidates(kind):
        return [p for p in pool if kind in kinds_of(p[0])]
    for n, i, j, k in case['steps']:
        name = names[n % len(names)]
        kinds = Q[name][0]
        chosen = []
        for kind, pick in zip(kinds, (i, j)):
            options = candidates(kind)
            if chosen and kinds == 'LL':
                options = [p for p in options if p[0].triangulation == chosen[0][0].triangulation]
            if chosen and kinds == 'ML':
                options = [p for p in options if p[0].triangulation == chosen[0][0].source_triangulation]
            if chosen and kinds == 'CC':
                options = [p for p in options if p[0].source_triangulation == chosen[0][0].source_triangulation]
            if not options:
                break
            chosen.append(main if main and not chosen and pick % 4 else gen.pick(options, pick))
        if len(chosen) < len(kinds):
            continue
        got = answer(name, [p[0] for p in chosen], k)
        recipe = (name, tuple(p[1] for p in chosen), k)
        log.append((recipe, got, digest(got), [p[0] for p in chosen]))
        ctx.label(name if not isinstance(got, BaseException) else name + ': error')
        depth = 1 + max(p[2] for p in chosen)
        derived += depth > 1
        if depth <= 3 and len(pool) < 24:
            for m, x in enumerate(flatten(got)[:3]):
                if isinstance(x, K.Lamination) and not small(x, 10**6) or isinstance(x, K.Encoding) and len(x) > 30:
                    continue
                pool.append((x, (recipe, m), depth))
    ctx.nontrivial(len(log) > 2 and derived)

    def rebuild(recipe, fresh):
        if recipe[0] == 'base':
            return fresh.items[recipe[1]]
        (name, args, k), m = recipe
        return flatten(answer(name, [rebuild(a, fresh) for a in args], k))[m]

    def describe(recipe):
        return f'{recipe[0]}({", ".join(str(a[1]) if a[0] == "base" else describe(a[0]) + "[" + str(a[1]) + "]" for a in recipe[1])}; {recipe[2]})'
    past = ', '.join(describe(r) for r, *_ in log)
    for (name, args, k), got, told, objects in log:
        fresh = Base(case)
        alone = digest(answer(name, [rebuild(a, fresh) for a in args], k))
        ctx.require(alone == told, f'{describe((name, args, k))} answers {str(told)[:300]} in the history {past} but {str(alone)[:300]} on fresh objects')
    for (name, args, k), got, told, objects in log:
        ctx.require(hasattr(got, '__next__') or digest(got) == told, f'the answer to {describe((name, args, k))} changed from {str(told)[:300]} to {str(digest(got))[:300]} in the history {past}')
        again = digest(answer(name, objects, k))
        ctx.require(again == told, f'{describe((name, args, k))} answers {str(told)[:300]} and later {str(again)[:300]} in the history {past}')
    fresh = Base(case)
    for x, recipe, _ in pool:
        y = rebuild(recipe, fresh)
        msg = f'the object {recipe[1] if recipe[0] == "base" else describe(recipe[0])} after the history {past}'
        ctx.require(digest(x) == digest(y), msg + f' is {str(digest(x))[:200]} instead of {str(digest(y))[:200]}')
        ctx.require(x == y and y == x and hash(x) == hash(y), msg + ' is not equal to a fresh one')
        z, w = pickle.loads(pickle.dumps(x)), pickle.loads(pickle.dumps(y))
        ctx.require(x == z and z == y and digest(z) == digest(w), msg + ' pickles to something else')
