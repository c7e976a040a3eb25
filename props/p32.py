''' P32: curves and arcs built from edges, cut sequences and traces; 1-3 Pachner moves. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import intersection
from ref.strand import Strands, components, is_peripheral_word, vec
from ref.tri import idx
from ref.twist import cyclic_reduce

PROP = Property('P32', ['A curve is determined by its reduced cyclic sequence of edge crossings.', 'Triangles are anticlockwise, so the left of an edge is the side of the triangle that contains its label.'])
K = curver.kernel


def around(R, x):
    ''' The edges crossed by going anticlockwise about the tail of x, from just after x to just before meeting stop. '''
    y = R.rotate_about_tail(x)
    while True:
        yield y
        y = R.rotate_about_tail(y)


def neighbourhood(R, x):
    ''' The closed words of the boundary components of a regular neighbourhood of the edge x: left of x first. '''
    v = R.vertex_of()

    def fan(a, b):
        out = []
        for y in around(R, a):
            if y == b:
                return out
            out.append(~y)
    if v[x] == v[~x]:
        return [fan(x, ~x), fan(~x, x)]
    return [fan(x, x) + fan(~x, ~x)]


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=8, glued=True, disconnected=True)}), quick=250)
def edges(case, ctx):
    ''' The curve of each edge is the boundary of its neighbourhood (the reduced word around it), for loops the side on the left of the edge; its arc is the edge; the lists contain all of them. Non-trivial: there are loops and edges between
    distinct vertices. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    v = R.vertex_of()
    kinds = {v[x] == v[~x] for x in range(R.zeta)}
    degrees = [len(c) for c in R.vertices()]
    ctx.label('folded' if 1 in degrees else 'no folded triangle', 'loops' if True in kinds else 'no loops')
    ctx.nontrivial(len(kinds) == 2)
    curves = {}
    for x in R.labels():
        word = cyclic_reduce(neighbourhood(R, x)[0])
        w = vec(R, word)
        c = T.edge_curve(x)
        msg = f'curve of the edge {x} of {R.triples}'
        ctx.require(tuple(c) == w, msg + f': {list(c)}', expected=list(w))
        ctx.require(isinstance(c, K.Curve) and c.triangulation == T, msg + ': is a curve')
        comps = components(R, w)
        ctx.require(len(comps) == 1 and sum(k[1] for k in comps.values()) == 1, msg + ': connected')
        ctx.equal(bool(c.is_peripheral()), is_peripheral_word(R, next(iter(comps.values()))[2]), msg + ': is peripheral')
        ctx.require(all(tuple(T.edge_curve(y)) == w for y in T.edges if y.label == x), msg + ': given the edge itself')
        a = T.edge_arc(x)
        ctx.equal(tuple(a), tuple(-(i == idx(x)) for i in range(R.zeta)), f'arc of the edge {x}')
        ctx.require(isinstance(a, K.Arc) and a.triangulation == T, f'arc of the edge {x} is an arc')
        if v[x] != v[~x]:
            ctx.equal(tuple(a.boundary()), w, msg + ': and the boundary of its arc')
        curves[x] = w
    ctx.equal(sorted(tuple(c) for c in T.edge_curves()), sorted(curves.values()), 'all edge curves')
    ctx.equal([tuple(a) for a in T.edge_arcs()], [tuple(-(i == e) for i in range(R.zeta)) for e in range(R.zeta)], 'all edge arcs')


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=9, drag=8, glued=True, disconnected=True), 'flip': st.booleans(), 'shift': st.integers(0, 50)}), quick=300)
def cuts(case, ctx):
    ''' The edges crossed by a component, read off from either direction, starting anywhere and with either sign, give that component back. Non-trivial: it crosses some edge twice. '''
    R, (w,) = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    for v, (kind, _, word, _) in components(R, w).items():
        if not word:
            continue
        ctx.label(kind)
        ctx.nontrivial(max(v) > 1)
        k = case['shift'] % len(word)
        seq = list(word)
        if case['flip']:
            seq = [~x if (i + k) % 3 else x for i, x in enumerate(seq)][::-1]
        if kind == 'curve':
            seq = seq[k:] + seq[:k]
        msg = f'cut sequence {seq} on {R.triples}'
        ctx.equal(tuple(T.cut_sequence_intersections(seq)), v, msg + ': crossings')
        L = T.lamination_from_cut_sequence(seq)
        ctx.require(tuple(L) == v and isinstance(L, K.Curve if kind == 'curve' else K.Arc) and L.triangulation == T, msg + f': {type(L).__name__} {list(L)}')
        if kind == 'curve':
            c = T.curve_from_cut_sequence(seq)
            ctx.require(isinstance(c, K.Curve) and tuple(c) == v and c == L and hash(c) == hash(L), msg + ': curve')


def follow(R, w, edge, i, steps):
    ''' The labels crossed when following w from the ith point of edge until coming back to edge, or an explanation why that gives no curve. '''
    S = Strands(R, w)
    label, j = edge, i
    word, back = [edge], []
    for _ in range(steps):
        nxt = S.link[S.flip_side(label, j)]
        if nxt[0] == 'V':
            return 'terminates'
        label, j = nxt
        if label == edge:
            if any(min(i, j) < q < max(i, j) for q in back):
                return 'crosses'
            return word
        if label == ~edge:
            back.append(w[idx(edge)] - 1 - j)
        word.append(label)
    return 'long'


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=9, drag=8, glued=True, disconnected=True), 'max': st.integers(0, 40)}), quick=330)
def traces(case, ctx):
    ''' trace_curve from every point of a lamination, against following its strands: the curve that closes up along the starting edge, or a ValueError exactly if it ends in a vertex, would cross itself when closed up, or is too
    long. What is returned is a single curve that turns only where the lamination does. Non-trivial: some trace closes up without being a component. '''
    R, (w,) = gen.build_scene(case['scene'])
    if not any(a > 0 for a in w):
        return
    T = gen.ctri(R)
    L = T(w)
    comps = components(R, w)
    points = [(x, i) for x in R.labels() for i in range(max(w[idx(x)], 0))]
    if len(points) > 160:
        points = points[::len(points) // 160 + 1]
    for x, i in points:
        steps = case['max'] if case['max'] < 36 else 2 * sum(map(abs, w)) + 2
        expected = follow(R, w, x, i, steps)
        msg = f'trace of {w} on {R.triples} from point {i} of {x} for at most {steps} steps'
        if isinstance(expected, str):
            ctx.label(expected)
            ctx.raises(ValueError, lambda: L.trace_curve(x, i, steps), msg + f' ({expected})')
        else:
            v = vec(R, expected)
            c = L.trace_curve(x, i, steps)
            ctx.require(isinstance(c, K.Curve) and tuple(c) == v and c.triangulation == T, msg + f': {list(c)}', expected=v)
            mine = components(R, v)
            ctx.require(list(mine) == [v] and mine[v][:2] == ('curve', 1), msg + ': is a curve')
            if v in comps:
                ctx.label('component')
            else:
                ctx.label('closed up')
                ctx.nontrivial()


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((2, 2), kinds=('multicurve', 'curve', 'walk', 'hull'), wmax=7, drag=8, max_flips=4, disconnected=True), 'cls': gen.class_specs(min_size=1, max_size=3, power=2, max_conj=3), 'same': st.booleans(), 'triangles': st.lists(st.integers(0, 30), max_size=4)}), quick=200)
def pachner(case, ctx):
    ''' Subdividing triangles adds that many punctures to the same surface, carries multicurves to multicurves, component by component, with the same intersection numbers, and back. Non-trivial: the two multicurves meet. '''
    R, (a, b) = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    a, b = ([sum(v[e] * c[1] for v, c in components(R, w).items() if c[0] == 'curve') for e in range(R.zeta)] for w in (a, b))
    moved = [int(x) for x in gen.mapping_class(T, case['cls'])(T(a if case['same'] else b))]
    if sum(moved) < 150:
        b = moved
    triangles = sorted({k % len(R.triples) for k in case['triangles']})
    chosen = {list(T)[k] for k in triangles}
    e = T.encode_pachner_1_3(chosen) if chosen else T.encode_pachner_1_3()
    n = len(chosen) or len(R.triples)
    ctx.label(f'{min(n, 4)} triangles')
    U = e.target_triangulation
    RU = gen.rtri(U)
    msg = f'subdivision of {n} triangles of {R.triples}'
    ctx.require(e.source_triangulation == T, msg + ': starts here')
    ctx.equal(RU.zeta, R.zeta + 3 * n, msg + ': number of edges')
    before, after = R.surface(), RU.surface()
    count = {comp: sum(1 for t in (R.triples if not chosen else [t.labels for t in chosen]) if t[0] in comp) for comp in before}
    ctx.equal(sorted((g, p + count[comp]) for comp, (g, p, _) in before.items()), sorted((g, p) for g, p, _ in after.values()), msg + ': surface')
    back = e.inverse()
    images = []
    for w in (a, b):
        L = T(w)
        image = e(L)
        m = msg + f': {w} to {list(image)}'
        v = [int(x) for x in image]
        ctx.require(list(image) == v and min(v) >= 0 and image.triangulation == U, m)
        ctx.equal(v[:R.zeta], list(w), m + ': weights of the old edges')
        ctx.require(type(image) is type(L), m + f': {type(L).__name__} to {type(image).__name__}')
        mine = components(RU, v)
        ctx.equal(sorted((tuple(int(x) for x in e(T(list(c)))), k[1]) for c, k in components(R, w).items()), sorted((c, k[1]) for c, k in mine.items()), m + ': components')
        ctx.equal({tuple(c): k for c, k in image.components().items()}, {c: k[1] for c, k in mine.items()}, m + ': components reported')
        ctx.require(back(image) == L, m + ': and back')
        images.append(v)
    i = intersection(R, a, b)
    ctx.nontrivial(i > 0)
    ctx.equal(intersection(RU, *images), i, msg + f': intersection of the images of {a} and {b}')
    ctx.equal(U(images[0]).intersection(U(images[1])), i, msg + f': intersection reported of the images of {a} and {b}')
