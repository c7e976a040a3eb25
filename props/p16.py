''' P16: boundaries, filling and cutting tests. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import component_intersection, intersection
from ref.strand import Complement, components, is_peripheral_word
from props.p15 import CURVES, build, multicurve, scene

PROP = Property('P16', ['Complementary regions are computed from explicit strands (ref/strand.py: Complement).',
                        'Unions of crossing laminations are decided on the crushed surface, where only one of them remains (crushing is checked by P15).',
                        'A multicurve is by convention never filling, even on a pair of pants.'])
K = curver.kernel
KW = dict(disconnected=True, glued=True)
ARCS = ('arc', 'multiarc', 'edges', 'hull', 'any', 'edges')


def add(*ws):
    return [sum(a) for a in zip(*ws)]


def part(R, comps, kind):
    return [sum(v[e] * c[1] for v, c in comps.items() if c[0] == kind) for e in range(R.zeta)]


def once(R, w):
    return [sum(v[e] for v in components(R, w)) for e in range(R.zeta)]


def check_boundary(ctx, R, arcs, B, msg):
    ''' B (weights) is the boundary of a regular neighbourhood of the multiarc with weights arcs (each component once): it is disjoint from arcs, and in the complement of both every end made of
    arcs bounds a disc or an annulus whose other end is one of the curves; there are as many curves as such annuli. '''
    bc = components(R, B)
    ctx.require(all(c[0] == 'curve' for c in bc.values()), msg + ': the boundary is no multicurve', boundary=B)
    ctx.equal(intersection(R, arcs, B), 0, msg + ': the boundary is not disjoint')
    n = sum(c[1] for c in bc.values())
    both = add(arcs, B)
    cc = components(R, both)
    ctx.equal({v: k[1] for v, k in cc.items()}, {**{v: k[1] for v, k in components(R, arcs).items()}, **{v: k[1] for v, k in bc.items()}}, msg + ': boundary and arcs overlap')
    annuli = 0
    for g, a, c, p in Complement(R, both).kinds():
        if a == 0 or (g, a, c, p) == (0, 1, 0, 0):
            continue
        ctx.equal((g, a, c, p), (0, 1, 1, 0), msg + f': region between {arcs} and its boundary {B} on {R.triples}')
        annuli += 1
    ctx.equal(n, annuli, msg + f': number of boundary curves {B} on {R.triples}')


def arcs_fill(R, comps, w):
    ''' Whether a lamination meets all essential curves: no component is an essential curve and all complementary regions are discs, punctured discs or annuli around a puncture, except on pairs of pants. '''
    if any(c[0] == 'curve' and not is_peripheral_word(R, c[2]) for c in comps.values()):
        return False
    arcs = part(R, comps, 'arc')
    good = {(0, 1, 0, 0), (0, 1, 0, 1), (0, 0, 0, 3)}  # The last one is a pair of pants without arcs.
    return all(k in good for k in Complement(R, arcs).kinds())


def only_pants(R):
    return all(s[:2] == (0, 3) for s in R.surface().values())


@PROP.sub(gen.scenes((1, 1), kinds=ARCS, wmax=5, drag=8, **KW), quick=240)
def boundaries(case, ctx):
    ''' The boundary of any lamination against complementary regions: for arcs it bounds a regular neighbourhood, curves are doubled, and mixed laminations have both. Non-trivial: two arcs. '''
    R, (w,) = gen.build_scene(case)
    T = gen.ctri(R)
    comps = gen.classify(ctx, R, w)
    L = T(w)
    B = L.boundary()
    arcs, curves = part(R, comps, 'arc'), part(R, comps, 'curve')
    ctx.nontrivial(sum(1 for c in comps.values() if c[0] == 'arc') > 1)
    rest = [a - 2 * b for a, b in zip(B, curves)]
    ctx.require(all(a >= 0 for a in rest), f'boundary of {w} on {R.triples} is only {list(B)}')
    if any(arcs):
        check_boundary(ctx, R, once(R, arcs), rest, f'boundary of {w}')
        ctx.equal(list(T(arcs).boundary()), rest, 'boundary of the arcs')
        ctx.equal(list((2 * T(arcs)).boundary()), rest, 'boundary does not depend on multiplicity of arcs')
    else:
        ctx.require(not any(rest), f'boundary of {w} on {R.triples} is {list(B)}')
    ctx.equal(B, T(list(B)), 'the boundary is what its weights say')
    ctx.equal(type(B), type(T(list(B))), 'class of the boundary')


@PROP.sub(gen.scenes((1, 1), wmax=5, drag=8, kinds=ARCS + ('walk', 'multicurve'), **KW), quick=300)
def cutting_tests(case, ctx):
    ''' is_filling, is_polygonalisation, is_triangulation, has_distinct_endpoints, vertices and is_separating against the complementary regions. Non-trivial: the lamination is filling or a polygonalisation or
    separating. '''
    R, (w,) = gen.build_scene(case)
    T = gen.ctri(R)
    comps = gen.classify(ctx, R, w)
    L = T(w)
    msg = f' of {w} on {R.triples}'
    if not (isinstance(L, K.MultiCurve) and only_pants(R)):
        fills = arcs_fill(R, comps, w)
        ctx.nontrivial(fills)
        ctx.label(f'filling {fills}')
        ctx.equal(L.is_filling(), fills, 'is_filling' + msg)
    kinds = Complement(R, w).kinds()
    polys = all(k == (0, 1, 0, 0) for k in kinds)
    ctx.label(f'polygonalisation {polys}')
    ctx.nontrivial(polys)
    ctx.equal(L.is_polygonalisation(), polys, 'is_polygonalisation' + msg)
    if isinstance(L, K.MultiArc):
        ctx.equal(L.is_triangulation(), len(comps) == R.zeta and all(c[1] == 1 for c in comps.values()), 'is_triangulation' + msg)
        v = R.vertex_of()
        ends = []
        for c in comps.values():
            corners = (c[3][1], ~c[3][1]) if c[3][0] == 'E' else c[3]
            for _ in range(c[1]):
                ends.extend(v[x] for x in corners)
        ctx.equal(L.has_distinct_endpoints(), len(set(ends)) == len(ends), 'has_distinct_endpoints' + msg)
        cycles = R.vertices()
        ctx.equal(sorted(sorted(e.label for e in vertex) for vertex in L.vertices()), sorted(sorted(cycles[k]) for k in set(ends)), 'vertices' + msg)
    if isinstance(L, K.MultiCurve) and comps:
        ess = [v for v, c in comps.items() if not is_peripheral_word(R, c[2])]
        pieces = len(Complement(R, add([0] * R.zeta, *ess)).kinds())
        ctx.nontrivial(pieces > len(R.components()))
        ctx.equal(L.is_separating(), pieces > len(R.components()), 'is_separating' + msg)


@PROP.sub(st.fixed_dictionaries({'tri': st.builds(lambda a, b: dict(a, plus=b), gen.tri_specs(max_flips=3), gen.tri_specs(['0,3', '1,1', '0,4', '1,2'], max_flips=3, disconnected=True)),
                                 'parts': st.lists(st.tuples(st.sampled_from(['full', 'full', 'vertex', 'none', 'lam', 'both']), st.integers(0, 9), gen.lam_specs(ARCS, 3)).map(list), min_size=3, max_size=3),
                                 'moves': gen.moves_specs(('flip', 'relabel', 'halftwist', 'twist', 'flip'), max_size=3, power=2)}), quick=160)
def disconnected(case, ctx):
    ''' is_filling and is_polygonalisation on disconnected surfaces, where each component has its own kind of lamination: nothing, peripheral curves, all edges, or anything. Non-trivial: at least two
    components carry something, and one is full. '''
    R = gen.build(case['tri'])
    w = [0] * R.zeta
    kinds = set()
    cycles = R.vertices()
    for comp, (kind, k, spec) in zip(R.components(), case['parts']):
        inside = sorted(x for x in comp if x >= 0)
        kinds.add(kind)
        if kind == 'full':
            for e in inside:
                w[e] = -1 - (k + e) % 2
        if kind == 'lam':
            lw = gen.lam_weights(R, spec)
            for e in inside:
                w[e] = lw[e]
        if kind in ('vertex', 'both'):
            vs = [v for v in cycles if v[0] in comp]
            for x in vs[k % len(vs)]:
                w[x if x >= 0 else ~x] += 1
        if kind == 'both':  # An arc that misses the peripheral curve.
            free = [e for e in inside if w[e] == 0]
            if free:
                w[free[k % len(free)]] = -1
    T = gen.ctri(R)
    h = gen.mapping(T, case['moves'])
    L0 = T(w)
    comps = gen.classify(ctx, R, w)
    ctx.nontrivial('full' in kinds and len(kinds) > 1)
    expected = arcs_fill(R, comps, w)
    polys = all(k == (0, 1, 0, 0) for k in Complement(R, w).kinds())
    for name, L in (('', L0), (' (image)', h(L0))):
        msg = f'{name} of {w} on {R.triples}' + (f' under {case["moves"]}' if name else '')
        if not (isinstance(L, K.MultiCurve) and only_pants(R)):
            ctx.equal(L.is_filling(), expected, 'is_filling' + msg)
        ctx.equal(L.is_polygonalisation(), polys, 'is_polygonalisation' + msg)
        if isinstance(L, K.MultiArc):
            ctx.equal(L.is_triangulation(), len(comps) == R.zeta and all(c[1] == 1 for c in comps.values()), 'is_triangulation' + msg)


@PROP.sub(scene(1), quick=240)
def unions(case, ctx):
    ''' fills_with and boundary_union for a multicurve c and any lamination L: boundary_union is a multicurve disjoint from both and is the lift of the boundary of L cut along c; c and L fill exactly when every
    essential component of c meets L and L cut along c is filling; when they do not, there is a curve that misses both. Non-trivial: they cross. '''
    built = build(case)
    if built is None:
        return
    R, c, (w,) = built
    check_union(ctx, R, c, w)


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.COMPLEX, 5, disconnected=True), 'curve': gen.lam_specs(('hull', 'multicurve', 'walk'), 3), 'more': st.lists(st.integers(0, 20), min_size=1, max_size=6), 'leave': st.integers(1, 7),
                                 'edges': st.lists(st.tuples(st.integers(0, 20), st.booleans()).map(list), min_size=1, max_size=4), 'keep': st.integers(0, 7)}), quick=150)
def partners(case, ctx):
    ''' The same for a multicurve with many components (cut along curves of the cut surface until there are enough), and a lamination made of curves and arcs of the surface cut along some of the components, with some of these. Non-trivial:
    the lamination meets some components, but not all. '''
    R = gen.build(case['tri'])
    c = multicurve(R, case['curve'])
    if c is None:
        return
    T = gen.ctri(R)
    parts = [T(list(v)) for v, k in components(R, c).items() if k[0] == 'curve']
    f = T.sum(parts).multicurve().crush()
    for k in case['more']:  # Add curves that are disjoint from all of these.
        U = f.target_triangulation
        d = U.edge_curve(k % U.zeta)
        if not d.is_peripheral():
            e = f.inverse()(d)
            parts.append(e)
            f = T.disjoint_sum(parts).crush()
    keep = [p for i, p in enumerate(parts) if not case['leave'] >> (i % 3) & 1]
    g = T.disjoint_sum([p for p in keep]).crush() if any(not p.is_peripheral() for p in keep) else T.id_encoding()
    U = g.target_triangulation
    back = g.inverse()
    w = [0] * R.zeta
    for k, loop in case['edges']:
        p = back(U.edge_curve(k % U.zeta)) if loop else T.edge_arc(k % T.zeta)
        if intersection(R, w, list(p)) == 0:
            w = [int(a + b) for a, b in zip(w, p)]
    for i, p in enumerate(keep):
        if case['keep'] >> (i % 3) & 1 and intersection(R, w, list(p)) == 0:
            w = [a + b for a, b in zip(w, p)]
    c = [sum(a) for a in zip(*parts)]
    if sum(map(abs, c)) + sum(map(abs, w)) > 200:
        return
    check_union(ctx, R, [int(a) for a in c], [int(a) for a in w])


def check_union(ctx, R, c, w):
    T = gen.ctri(R)
    cc, wc = components(R, c), gen.classify(ctx, R, w)
    ess = {v: k for v, k in cc.items() if not is_peripheral_word(R, k[2])}
    meets = {v: sum(k[1] * component_intersection(R, v, ess[v], u, k) for u, k in wc.items()) for v in ess}
    ctx.nontrivial(any(meets.values()))
    ctx.label(f'meets {sum(map(bool, meets.values()))} of {len(meets)}')
    C, L = T(c), T(w)
    msg = f'{c} with {w} on {R.triples}'
    f = C.crush()
    RU = gen.rtri(f.target_triangulation)
    cut = list(f(L))
    cut_comps = components(RU, cut)
    B = C.boundary_union(L)
    bc = components(R, list(B))
    ctx.require(all(k[0] == 'curve' for k in bc.values()), msg + ': boundary_union is no multicurve')
    ctx.equal(intersection(R, list(B), c), 0, msg + ': boundary_union meets the multicurve')
    ctx.equal(intersection(R, list(B), w), 0, msg + ': boundary_union meets the lamination')
    if ess and all(meets.values()):
        own = part(RU, cut_comps, 'curve')
        below = list(f(C.boundary_union(L).triangulation(list(B))))  # Components of B equal to components of c are dropped: there are none of those unless c is among them.
        if not set(bc) & set(ess):
            rest = [a - 2 * b for a, b in zip(below, own)]
            check_boundary(ctx, RU, once(RU, part(RU, cut_comps, 'arc')), rest, msg + ': boundary_union')
    # Filling.
    fills = all(meets.values()) and arcs_fill(RU, cut_comps, cut)
    if not ess and only_pants(R):
        return
    ctx.label(f'fills_with {fills}')
    # A multicurve that was left untouched by cutting is the only thing on a component that must be met.
    ctx.equal(C.fills_with(L), fills, msg + ': fills_with')
    if not fills:
        probe = [v for v, k in bc.items() if not is_peripheral_word(R, k[2])] + [v for v in ess if not meets[v]] + [v for v in wc if wc[v][0] == 'curve' and not is_peripheral_word(R, wc[v][2])]
        ctx.label('witness' if any(intersection(R, v, c) == 0 == intersection(R, v, w) for v in probe) else 'no witness')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=4, disconnected=True), 'lams': st.lists(gen.lam_specs(wmax=4), min_size=2, max_size=2), 'moves': gen.moves_specs(min_size=1, max_size=4, power=5)}), quick=200)
def natural(case, ctx):
    ''' All of these commute with every mapping: boundary, boundary_union, filling, polygonalisation, separating, triangulation, distinct endpoints. Non-trivial: the mapping is not the identity on the lamination. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    ws = [gen.lam_weights(R, s) for s in case['lams']]
    h = gen.mapping(T, case['moves'])
    a, b = T(ws[0]), T(ws[1])
    ha, hb = h(a), h(b)
    ctx.nontrivial(list(ha) != ws[0])
    msg = f' of {ws[0]} on {R.triples} by {case["moves"]}'
    ctx.equal(h(a.boundary()), ha.boundary(), 'boundary' + msg)
    for name in ('is_filling', 'is_polygonalisation', 'is_triangulation', 'has_distinct_endpoints', 'is_separating'):
        if hasattr(a, name):
            ctx.equal(getattr(a, name)(), getattr(ha, name)(), name + msg)
    if isinstance(a, K.MultiCurve):
        ctx.equal(h(a.boundary_union(b)), ha.boundary_union(hb), 'boundary_union' + msg)
        ctx.equal(a.fills_with(b), ha.fills_with(hb), 'fills_with' + msg)
