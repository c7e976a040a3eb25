''' P03: laminations decompose into their true components and kinds. '''
from fractions import Fraction
import numpy
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.strand import Strands, components, is_peripheral_word, is_valid, pos, corners
from ref.tri import idx

PROP = Property('P03', ['A lamination with given weights is the union of normal strands drawn without turning back (ref/strand.py).'])
KW = dict(glued=True, disconnected=True)
K = curver.kernel


def expected_class(comps):
    kinds = {c[0] for c in comps.values()}
    total = sum(c[1] for c in comps.values())
    if kinds == {'curve'}:
        return 'Curve' if total == 1 else 'MultiCurve'
    if kinds == {'arc'}:
        return 'Arc' if total == 1 else 'MultiArc'
    return 'IntegralLamination'


def edge_curve_vectors(R):
    ''' {vector: [labels]} of the curves to the right of loop edges, by walking around the vertex. '''
    v = R.vertex_of()
    out = {}
    for x in R.labels():
        if v[x] == v[~x]:
            w = [0] * R.zeta
            n = 1
            y = R.rotate_about_tail(x)
            while y != ~x:
                w[idx(y)] += 1
                n += 1
                y = R.rotate_about_tail(y)
            if n > 2:
                out.setdefault(tuple(w), []).append(x)
    return out


@PROP.sub(gen.scenes((1, 1), wmax=14, drag=8, **KW), quick=700)
def decompose(case, ctx):
    ''' Components, multiplicities, kinds, peripheral & parallel parts against tracing strands. Non-trivial: at least two distinct components, or a component of weight at least 8. '''
    R, (w,) = gen.build_scene(case)
    T = gen.ctri(R)
    L = T(w)
    comps = gen.classify(ctx, R, w)
    ctx.nontrivial(len(comps) > 1 or any(len(c[2]) >= 8 for c in comps.values()))
    ctx.equal(list(L), list(w), 'weights')
    ctx.equal(type(L).__name__, expected_class(comps), f'class of {w} on {R.triples}')
    ctx.require(L.is_integral(), 'is_integral')
    mine = {v: c[1] for v, c in comps.items()}
    theirs = L.components()
    ctx.equal({tuple(c): m for c, m in theirs.items()}, mine, f'components of {w} on {R.triples}')
    for c in theirs:
        kind = comps[tuple(c)][0]
        ctx.require(type(c).__name__ == {'curve': 'Curve', 'arc': 'Arc'}[kind] and c.triangulation == T, 'class of a component')
        ctx.equal(type(T(list(c))).__name__, type(c).__name__, 'class of a rebuilt component')
    ctx.equal(L.num_components(), sum(mine.values()), 'num_components')
    if comps:
        ctx.require(L.peek_component() in theirs, 'peek_component')
    ctx.equal(bool(L.is_empty()), not comps, 'is_empty')
    ctx.equal(bool(L), bool(comps), 'bool')
    # Peripheral & parallel.
    per = {v: c[1] for v, c in comps.items() if c[0] == 'curve' and is_peripheral_word(R, c[2])}
    pc = L.peripheral_components()
    ctx.equal({tuple(c): m for c, (m, _) in pc.items()}, per, 'peripheral components')
    for c, (m, vertex) in pc.items():
        ctx.require(type(c).__name__ == 'Curve', 'class of peripheral component')
        count = [0] * R.zeta
        for e in vertex:
            count[e.index] += 1
        ctx.require(vertex in T.vertices and count == list(c), 'vertex of a peripheral component')
    total = [sum(v[i] * m for v, m in per.items()) for i in range(R.zeta)]
    ctx.equal(list(L.peripheral()), total, 'peripheral')
    rest = [a - b for a, b in zip(w, total)]
    ctx.equal(list(L.non_peripheral()), rest, 'non_peripheral')
    ctx.equal(list(L.non_peripheral(promote=False)), rest, 'non_peripheral')
    ctx.equal(type(L.non_peripheral()).__name__, expected_class({v: c for v, c in comps.items() if v not in per}), 'class of non_peripheral')
    ctx.equal(type(L.peripheral()).__name__, expected_class({v: c for v, c in comps.items() if v in per}), 'class of peripheral')
    ctx.equal(bool(L.is_peripheral()), len(per) == len(comps), 'is_peripheral')
    ctx.equal(bool(L.is_non_peripheral()), not per, 'is_non_peripheral')
    ec = edge_curve_vectors(R)
    par = {v: c[1] for v, c in comps.items() if v not in per and (v in ec or c[2] == [])}
    found = L.parallel_components()
    ctx.equal({tuple(c): m for c, (m, _) in found.items() if tuple(c) not in per}, par, f'parallel components of {w} on {R.triples}')
    for c, (m, e) in found.items():
        if type(c).__name__ == 'Arc':
            ctx.require([i for i, a in enumerate(c) if a] == [e.index] and c(e) == -1, 'edge of a parallel arc')
        else:
            ctx.require(e.label in ec.get(tuple(c), ()), 'edge of a parallel curve')
    short = all(v in per or v in par for v in comps)
    ctx.equal(bool(L.is_short()), short, f'is_short of {w} on {R.triples}')
    ctx.label('short' if short else 'not short')


@PROP.sub(gen.scenes((1, 1), wmax=14, drag=4, **KW), quick=700)
def corner_weights(case, ctx):
    ''' weight, dual, left and right weights against counting strands in each corner. Non-trivial: some corner is cut off. '''
    R, (w,) = gen.build_scene(case)
    T = gen.ctri(R)
    L = T(w, promote=False)
    S = Strands(R, w)
    terminal = {}
    for corner, x, i in S.start:
        terminal[x] = terminal.get(x, 0) + 1
    ctx.nontrivial(any(S.corner_count.values()))
    ctx.label('terminal' if terminal else 'closed')
    ctx.equal(L.weight(), sum(pos(a) for a in w), 'weight')
    for x in R.labels():
        _, y, z = R.corner(x)
        # dual(x): strands across the corner opposite x, or minus the number of strands from x into that vertex.

        def at_tail(k):
            return S.corner_count[k] - terminal.get(R.nxt[k], 0)
        ctx.equal(L(x), w[idx(x)], 'weight of an edge')
        ctx.equal(L.dual_weight(x), at_tail(z), f'dual weight at {x}')
        ctx.equal(L.dual_weight(K.Edge(x)), at_tail(z), f'dual weight at {x}')
        ctx.equal(L.dual_weight(x, double=True), 2 * at_tail(z), f'doubled dual weight at {x}')
        ctx.equal(L.left_weight(x), at_tail(x), f'left weight at {x}')
        ctx.equal(L.right_weight(x), at_tail(y), f'right weight at {x}')
        ctx.equal(L.left_weight(x, double=True), 2 * at_tail(x), f'left weight at {x}')
        ctx.equal(L.right_weight(x, double=True), 2 * at_tail(y), f'right weight at {x}')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=4, **KW), 'w': st.lists(st.integers(-3, 20), min_size=3, max_size=20), 'q': st.sampled_from([1, 1, 2, 3, 4])}), quick=1500)
def consistency(case, ctx):
    ''' Arbitrary vectors: accepted as an integral lamination iff strands realise them, integer vectors that are not realised are refused with a ValueError, rational ones are non-integral. Non-trivial: not realised. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    w = [case['w'][i % len(case['w'])] for i in range(R.zeta)]
    q = case['q']
    if q == 1:
        good = is_valid(R, w)
        ctx.nontrivial(not good)
        ctx.label('realised' if good else 'odd')
        if good:
            L = T(w)
            ctx.require(L.is_integral() and isinstance(L, K.IntegralLamination), 'integral')
            ctx.equal(T({i: a for i, a in enumerate(w) if a}), L, 'dictionary of weights')
            given = list(w)
            for M, text in ((T(tuple(w)), 'tuple'), (T(numpy.array(w, dtype=object)), 'array'), (T(given), 'list')):
                given[0] += 1  # The lamination is not affected by what happens to the list it was made from.
                ctx.require(M == L and type(M) is type(L) and hash(M) == hash(L) and M.is_peripheral() == L.is_peripheral(), f'{text} of weights {w} on {R.triples}')
        else:
            ctx.raises(ValueError, lambda: T(w), f'{w} is not realised by strands on {R.triples}')
            ctx.raises(ValueError, lambda: T(w, promote=False).is_integral(), 'is_integral')
    f = [Fraction(a, q) for a in w]
    good = all(a.denominator == 1 for a in f) and is_valid(R, [int(a) for a in f])
    L = T(f)
    ctx.equal(bool(L.is_integral()), good, f'integrality of {f}')
    ctx.equal(isinstance(L, K.IntegralLamination), good, 'class')
    ctx.nontrivial(not good)


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=3), 'lams': st.lists(gen.lam_specs(wmax=4), min_size=1, max_size=2), 'moves': gen.moves_specs(('flip', 'relabel', 'twist', 'halftwist', 'multiflip'), 1, 5, power=10**6), 'mult': st.integers(1, 10**9)}), quick=250)
def huge(case, ctx):
    ''' Laminations with huge weights, made by huge twists and multiples from small ones whose components the model knows: same number of components, kinds and multiplicities, and each is the image of a model component. Non-trivial: a weight above 10**5. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    w = gen.lam_weights(R, case['lams'][0])
    comps = components(R, w)
    k = case['mult']
    h = gen.mapping(T, case['moves'])
    T2 = h.target_triangulation
    expected = {tuple(h(T(list(v)))): (c[0], c[1] * k) for v, c in comps.items()}
    ctx.equal(len(expected), len(comps), 'injective')
    total = [sum(v[i] * m for v, (_, m) in expected.items()) for i in range(T2.zeta)]
    L = T2([int(a) for a in total])
    ctx.nontrivial(any(abs(a) > 10**5 * k for a in total))
    ctx.equal({tuple(c): m for c, m in L.components().items()}, {v: m for v, (_, m) in expected.items()}, 'components of a huge lamination')
    for c in L.components():
        ctx.equal(type(c).__name__, {'curve': 'Curve', 'arc': 'Arc'}[expected[tuple(c)][0]], 'class of a component')
    ctx.equal(type(L).__name__, expected_class({v: (kind, m) for v, (kind, m) in expected.items()}), 'class')
    ctx.equal(L.num_components(), sum(m for _, m in expected.values()), 'num_components')
    ctx.equal(list(h(T([k * a for a in w]))), total, 'the image of the whole')
