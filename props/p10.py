''' P10: objects survive serialization unchanged. '''
import copy
import pickle
from fractions import Fraction

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from props.p08 import same_action

K = curver.kernel
PROP = Property('P10', ['Round trips are made with the pickle protocols 0 to 5 and copy.deepcopy in the same interpreter; the signature codec itself is decided by P01.'])

ALL = ('flip', 'multiflip', 'relabel', 'twist', 'halftwist', 'isometry')


def trip(x, how):
    if how == 6:
        return copy.deepcopy(x)
    if how == 7:
        return copy.copy(x)
    return pickle.loads(pickle.dumps(x, protocol=how))


hows = st.sampled_from([4, 5, 2, 0, 3, 6, 7, 1])


def same_lamination(ctx, a, b):
    ctx.require(type(a) is type(b), 'kind of a lamination', a=type(a).__name__, b=type(b).__name__)
    ctx.require(a == b and b == a and hash(a) == hash(b), 'equal laminations')
    ctx.equal([(type(x), x) for x in a], [(type(x), x) for x in b], 'weights')
    ctx.equal(a.triangulation.sig(), b.triangulation.sig(), 'triangulation')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=4, glued=True, disconnected=True), 'lams': st.lists(gen.lam_specs(wmax=5), min_size=1, max_size=3),
                                 'scale': st.sampled_from([1, 10**30, 3, 2]), 'frac': st.tuples(st.integers(1, 9), st.integers(2, 7)).map(list),
                                 'hom': st.lists(st.integers(-9, 9), min_size=1, max_size=6), 'how': hows, 'asked': st.booleans(), 'seed': st.integers(0, 10**6)}), quick=400)
def objects(case, ctx):
    ''' Triangulations, edges, triangles, laminations of every kind, homology classes, permutations and isometries. Non-trivial: a lamination that is not empty. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    how = case['how']
    ctx.label(f'protocol {how}')
    if case['asked']:
        T.surface(), T.vertices, T.as_lamination(), T.homology_basis(), T.euler_characteristic  # Fill in what is computed on demand.
    U = trip(T, how)
    ctx.require(U == T and T == U and hash(U) == hash(T) and U.sig() == T.sig() and type(U) is type(T), 'triangulation')
    ctx.equal([t.labels for t in U], [t.labels for t in T], 'triangles')
    ctx.require(K.Triangulation.from_sig(T.sig()) == T and K.Triangulation.from_sig(T.sig()).sig() == T.sig(), 'signature')
    again = K.Triangulation.from_tuple(*T.package())
    ctx.require(again == T and again.package() == T.package(), 'package')
    ctx.equal(sorted(tuple(e.label for e in v) for v in U.vertices), sorted(tuple(e.label for e in v) for v in T.vertices), 'vertices')
    ctx.equal(sorted(map(tuple, (s for s in U.surface().values()))), sorted(map(tuple, (s for s in T.surface().values()))), 'surface')
    for e in T.edges:
        x = trip(e, how)
        ctx.require(x == e and hash(x) == hash(e) and x.label == e.label and x.index == e.index and x.sign() == e.sign() and ~x == ~e, 'edge')
    for t in T:
        x = trip(t, how)
        ctx.require(x == t and hash(x) == hash(t) and x.labels == t.labels and x.edges == t.edges, 'triangle')
    fracs = Fraction(*case['frac'])
    for spec in case['lams']:
        w = [a * case['scale'] for a in gen.lam_weights(R, spec)]
        L = T(w)
        ctx.nontrivial(any(w))
        ctx.label(type(L).__name__)
        if case['asked']:
            L.components(), L.weight(), L.is_short()
        M = trip(L, how)
        same_lamination(ctx, L, M)
        ctx.equal({tuple(c): k for c, k in M.components().items()}, {tuple(c): k for c, k in L.components().items()}, 'components')
        ctx.require(L + M == L * 2 and M.triangulation == T, 'behaves the same')
        F = T([fracs * a for a in w])
        G = trip(F, how)
        same_lamination(ctx, F, G)
        for c in list(L.components())[:2]:
            same_lamination(ctx, c, trip(c, how))
    h = K.HomologyClass(T, [case['hom'][i % len(case['hom'])] * (i + 1) for i in range(R.zeta)])
    g = trip(h, how)
    ctx.require(g == h and hash(g) == hash(h) and list(g) == list(h) and type(g) is type(h), 'homology class')
    n = case['seed'] % 7 + 1
    p = K.Permutation.from_index(n, case['seed'] % __import__('math').factorial(n))
    q = trip(p, how)
    ctx.require(q == p and list(q) == list(p) and q * p.inverse() == q.__class__(list(range(n))), 'permutation')
    for i in list(T.self_isometries())[:4]:
        j = trip(i, how)
        ctx.require(i == j and i.encode() == j.encode() and i.label_map == j.label_map, 'isometry')


def moves_agree(ctx, f, g, msg):
    ctx.require(type(f) is type(g), f'{msg}: kind', f=type(f).__name__, g=type(g).__name__)
    ctx.equal(len(f), len(g), f'{msg}: length')
    for a, b in zip(f, g):
        ctx.require(type(a) is type(b), f'{msg}: kind of move', a=type(a).__name__, b=type(b).__name__)
        ctx.require(a == b, f'{msg}: moves agree', a=str(a), b=str(b))
    ctx.require(f.source_triangulation == g.source_triangulation and f.target_triangulation == g.target_triangulation and f.zeta == g.zeta, f'{msg}: ends')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.MEDIUM, max_flips=3, disconnected=True), 'moves': gen.moves_specs(ALL + ('crush', 'twist', 'flip'), 1, 6, power=7), 'lam': gen.lam_specs(wmax=4), 'how': hows, 'asked': st.booleans(), 'inv': st.booleans()}), quick=300)
def encodings(case, ctx):
    ''' Encodings, mappings and mapping classes, whole and move by move, by pickling and by package / encode. Non-trivial: at least two different sorts of moves. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    f = T.id_encoding()
    for m in case['moves']:
        f = gen.move(f.target_triangulation, m) * f
    L = T(gen.lam_weights(R, case['lam']))
    mapping = isinstance(f, K.Mapping)
    if mapping and case['inv']:
        L, f = f(L), f.inverse()
        T = f.source_triangulation
    kinds = {type(m).__name__ for m in f}
    ctx.label(*kinds)
    ctx.nontrivial(len(kinds) > 1)
    if case['asked'] and mapping:
        f.self_image(), f.homology_matrix(), hash(f)
    image = f(L) if mapping else None
    for g, msg in [(trip(f, case['how']), 'pickle'), (T.encode(f.package()), 'package')]:
        moves_agree(ctx, f, g, msg)
        ctx.equal(g.package(), f.package(), f'{msg}: package')
        if mapping:
            ctx.require(f == g and g == f and hash(f) == hash(g), f'{msg}: equal mappings')
            ctx.equal(list(g(L)), list(image), f'{msg}: action')
            ctx.require(type(g(L)) is type(image), f'{msg}: kind of image')
            ctx.require(same_action(f, g), f'{msg}: same action')
            ctx.require(g.inverse()(image) == L, f'{msg}: inverse')
            if f.source_triangulation == f.target_triangulation:
                ctx.require(isinstance(g, K.MappingClass) and (g * f.inverse()).is_identity(), f'{msg}: mapping class')
    for m in f:
        g = trip(m, case['how'])
        ctx.require(type(g) is type(m) and g == m, 'pickled move')
        e = m.source_triangulation.encode([m.package()])
        ctx.require(e.source_triangulation == m.source_triangulation and e.target_triangulation == m.target_triangulation, 'packaged move: ends')
        if mapping:
            ctx.require(e == m.encode() and same_action(e, g.encode()), 'packaged move')
            ctx.require(g.inverse() == m.inverse(), 'inverse of a pickled move')
        else:
            ctx.require(all(list(e(c)) == list(m(c)) for c in [m.curve]) if isinstance(m, K.Crush) else e == m.encode(), 'packaged move')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.MEDIUM, max_flips=4), 'walk': gen.lam_specs(('walk',), 3), 'before': gen.moves_specs(('flip', 'twist', 'isometry'), 0, 2), 'which': st.integers(0, 8), 'how': hows}), quick=150)
def lifts(case, ctx):
    ''' Encodings with crushes, lifts and Pachner moves (which are linear transformations). Non-trivial: there is a lift. '''
    T = gen.ctri(gen.build(case['tri']))
    f = gen.mapping(T, case['before'])
    U = f.target_triangulation
    w = gen.nonperipheral_curve(gen.rtri(U), case['walk'])
    crush = U(w).crush() if w is not None else U.id_encoding()
    lift = crush.inverse()
    k = case['which']
    pachner = U.encode_pachner_1_3() if U.zeta <= 6 else U.encode_pachner_1_3({list(U)[k % len(list(U))]})
    for name, e in [('crush', crush * f), ('lift', lift), ('mapped lift', f.inverse() * lift), ('lift then crush', crush * lift), ('pachner', pachner * f), ('pachner back', pachner.inverse() * pachner)]:
        ctx.nontrivial(any(isinstance(m, K.Lift) for m in e))
        g = trip(e, case['how'])
        moves_agree(ctx, e, g, name)
        S = e.source_triangulation
        peripherals = [c for c in (S.curve_from_cut_sequence(v) for v in S.vertices)]
        tests = [S.empty_lamination()] + peripherals[:1] + [S.edge_curve(k % S.zeta)] if name.startswith('pachner') else peripherals
        for c in tests:
            ctx.equal(list(g(c)), list(e(c)), f'{name}: action')
        h = trip(g, 4)
        moves_agree(ctx, e, h, name + ' again')
        back = g.inverse()
        ctx.require(back.source_triangulation == e.target_triangulation and back.target_triangulation == S, 'inverse')
        if name.startswith('pachner'):
            for c in tests[:2]:
                ctx.equal(list(back(g(c))), list(e.inverse()(e(c))), 'inverse acts')


@PROP.sub(st.fixed_dictionaries({'lift': gen.lam_specs(('walk',), 3), 'tri': gen.tri_specs(gen.SMALL, max_flips=2)}), quick=0)
def package_of_lift(case, ctx):
    ''' Only run on the saved case of a known finding. '''
    T = gen.ctri(gen.build(case['tri']))
    lift = T(gen.nonperipheral_curve(gen.rtri(T), case['lift'])).crush().inverse()
    S = lift.source_triangulation
    g = S.encode(lift.package())
    moves_agree(ctx, lift, g, 'package of a lift')


GROUPS = [(0, 3), (0, 4), (0, 5), (1, 1), (1, 2), (2, 1), (1, 3), (0, 6), (2, 2), (3, 1)]


@PROP.sub(st.fixed_dictionaries({'gn': st.sampled_from(GROUPS).map(list), 'word': st.lists(st.tuples(gen.small_ints, st.booleans()).map(list), max_size=6), 'drop': st.integers(0, 30), 'how': st.sampled_from([4, 5, 2, 0, 6])}), quick=40)
def groups(case, ctx):
    ''' Mapping class groups (whole, and with a generator left out) and their elements. Non-trivial: a non-empty word. '''
    S = gen.group(*case['gn'])
    T = trip(S, case['how'])
    names = sorted(S.pos_mapping_classes)
    ctx.nontrivial(bool(case['word']))
    ctx.require(S == T and T == S, 'group')
    ctx.equal(sorted(T.mapping_classes), sorted(S.mapping_classes), 'names')
    ctx.equal(sorted(T.curves), sorted(S.curves), 'curves')
    ctx.equal(sorted(T.arcs), sorted(S.arcs), 'arcs')
    ctx.require(all(T.curves[c] == S.curves[c] and type(T.curves[c]) is type(S.curves[c]) for c in S.curves), 'curves')
    ctx.require(all(T.arcs[c] == S.arcs[c] for c in S.arcs), 'arcs')
    word = [gen.pick(names, k) if pos else gen.pick(names, k).swapcase() for k, pos in case['word']]
    f, g = S('.'.join(word)), T('.'.join(word))
    ctx.require(f == g and trip(g, 4) == f and trip(f, case['how']).package() == f.package(), 'elements')
    ctx.require(type(trip(g, 4)) is K.MappingClass, 'elements')
    if len(names) > 1:
        out = gen.pick(names, case['drop'])
        sub = K.MappingClassGroup({n: S[n] for n in names if n != out})
        ctx.require(trip(sub, 4) == sub, 'smaller group')
        ctx.require(not (trip(sub, 4) == S), 'groups with different generators differ')
