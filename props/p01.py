''' P01: triangulations are built exactly as described and named uniquely. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.tri import UF, RTri, idx

PROP = Property('P01', ['The surface described by a list of triangles is the one obtained by gluing x to ~x (reference model ref/tri.py).'])

shuffles = st.lists(st.integers(0, 30), min_size=1, max_size=24)


def shuffled(R, code):
    ''' The triples of R in another order and rotated. '''
    rest, out = list(R.triples), []
    i = 0
    while rest:
        t = rest.pop(code[i % len(code)] % len(rest))
        k = (code[i % len(code)] + i) % 3
        out.append(t[k:] + t[:k])
        i += 1
    return out


big = gen.tri_specs(glued=True, disconnected=True)


@PROP.sub(st.fixed_dictionaries({'tri': big, 'order': shuffles, 'form': st.integers(0, 2)}), quick=700)
def model(case, ctx):
    ''' A triangulation built from shuffled and rotated triples against the glued-polygon model; non-trivial: at least two triangles in a non-canonical order. '''
    R = gen.build(case['tri'])
    triples = shuffled(R, case['order'])
    ctx.nontrivial(triples != R.canonical())
    ctx.label('glued' if 'glue' in case['tri'] else 'standard', f'{len(R.components())} components')
    form = case['form']
    if form == 0:
        T = curver.create_triangulation(triples)
    elif form == 1:
        T = curver.create_triangulation(*[list(t) for t in triples])
    else:
        T = curver.create_triangulation(tuple(triples))
    U = curver.create_triangulation(R.canonical())
    ctx.require(T == U and not T != U, 'equality depends on the presentation', triples=triples)
    ctx.equal(hash(T), hash(U), 'hash depends on the presentation')
    ctx.equal(T.sig(), R.sig(), 'signature')
    ctx.equal(str(T), R.sig(), 'str')
    V = curver.triangulation_from_sig(T.sig())
    ctx.require(V == T and hash(V) == hash(T) and V.sig() == T.sig(), 'decoding the signature', sig=T.sig())
    ctx.equal([[e.label for e in t] for t in T], [list(t) for t in R.canonical()], 'triangles')
    ctx.equal(T.zeta, R.zeta, 'zeta')
    ctx.equal(T.num_triangles, len(R.triples), 'num_triangles')
    # Vertices & components.
    verts = R.vertices()
    ctx.equal(T.num_vertices, len(verts), 'num_vertices')
    mine = sorted(tuple(v[(v.index(min(v)) + i) % len(v)] for i in range(len(v))) for v in verts)
    ctx.equal(sorted(tuple(e.label for e in v) for v in T.vertices), mine, 'vertices')
    for x in R.labels():
        ctx.require(any(e.label == x for e in T.vertex_lookup[x]), 'vertex_lookup')
        ctx.equal([e.label for e in T.corner_lookup[x]], list(R.corner(x)), 'corner')
        ctx.equal(sorted(T.triangle_lookup[x].labels), sorted(R.corner(x)), 'triangle_lookup')
        ctx.equal(bool(T.is_flippable(x)), R.is_flippable(x), 'is_flippable')
        ctx.equal(bool(T.is_flippable(curver.kernel.Edge(x))), R.is_flippable(x), 'is_flippable')
        if R.is_flippable(x):
            _, a, b = R.corner(x)
            _, c, d = R.corner(~x)
            ctx.equal([e.label for e in T.square(x)], [a, b, c, d, x], 'square')
        else:
            ctx.raises((AssertionError, ValueError), lambda: T.square(x), 'square of an unflippable edge')
    ctx.equal(sorted(tuple(e.label for e in c) for c in T.components()), R.components(), 'components')
    ctx.equal(bool(T.is_connected()), len(R.components()) == 1, 'is_connected')
    S = R.surface()
    ctx.equal({tuple(e.label for e in c): (s.g, s.p, s.chi) for c, s in T.surface().items()}, S, 'surface')
    ctx.equal(T.euler_characteristic, sum(s[2] for s in S.values()), 'euler_characteristic')


@PROP.sub(st.fixed_dictionaries({'tri': big, 'avoid': st.one_of(st.just([]), st.lists(st.integers(0, 30), max_size=6))}), quick=500)
def dual_tree(case, ctx):
    ''' Dual trees against Kruskal on the dual graph; non-trivial: something avoided. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    avoid = {a % R.zeta for a in case['avoid']}
    ctx.nontrivial(bool(avoid))
    uf, tree = UF(range(len(R.triples))), set()
    for e in range(R.zeta):
        if e not in avoid and uf.find(R.tri[e]) != uf.find(R.tri[~e]):
            uf.union(R.tri[e], R.tri[~e])
            tree.add(e)
    ctx.equal(set(T.dual_tree(avoid=set(avoid))), tree, 'dual_tree')
    if not avoid:
        ctx.equal(set(T.dual_tree()), tree, 'dual_tree')


@PROP.sub(st.fixed_dictionaries({'n': st.integers(1, 5), 'code': st.lists(st.integers(0, 35), min_size=1, max_size=15), 'edits': st.lists(st.tuples(st.integers(0, 14), st.integers(-9, 9)).map(list), max_size=3)}), quick=1500)
def rejection(case, ctx):
    ''' Lists of n labelled triangles with up to three labels overwritten: accepted iff each of 0..zeta-1 and its inverse occurs exactly once; non-trivial: rejected lists. '''
    n = case['n']
    symbols = list(range(-(3 * n // 2), 3 * n - 3 * n // 2))
    flat = []
    for k in range(3 * n):
        flat.append(symbols.pop(case['code'][k % len(case['code'])] % len(symbols)))
    for i, x in case['edits']:
        flat[i % len(flat)] = x
    triples = [tuple(flat[i:i + 3]) for i in range(0, len(flat), 3)]
    good = n % 2 == 0 and sorted(flat) == list(range(-(3 * n // 2), 3 * n // 2))
    ctx.nontrivial(not good)
    ctx.label('good' if good else 'odd' if n % 2 else 'bad')
    if good:
        T = curver.create_triangulation(triples)
        ctx.equal(T.sig(), RTri(triples).sig(), 'signature')
    else:
        ctx.raises((TypeError, ValueError, AssertionError), lambda: curver.create_triangulation(triples), f'{triples} is not a triangulation')


@PROP.sub(st.fixed_dictionaries({'a': big, 'k': st.integers(0, 40), 'how': st.integers(0, 3), 'b': big}), quick=800)
def distinct(case, ctx):
    ''' Two triangulations, usually related by one flip or one transposition of labels: equal iff same triangles iff same signature; non-trivial: equal zeta but different triangles. '''
    A = gen.build(case['a'])
    k = case['k']
    if case['how'] == 0:
        B = gen.build(case['b'])
    elif case['how'] == 1:
        options = gen.flippables(A)
        B = A.flip(gen.pick(options, k)) if options else A
    else:
        e, f = k % A.zeta, (k // 7) % A.zeta
        images = list(range(A.zeta))
        images[e], images[f] = images[f], images[e]
        if case['how'] == 3:
            images[e] = ~images[e]
        B = A.relabel(gen.full_map(images))
    same = A.canonical() == B.canonical()
    TA, TB = gen.ctri(A), gen.ctri(B)
    ctx.nontrivial(not same and A.zeta == B.zeta)
    ctx.equal(TA == TB, same, 'equality')
    ctx.equal(TA != TB, not same, 'inequality')
    ctx.equal(TA.sig() == TB.sig(), same, 'signature')
    if same:
        ctx.equal(hash(TA), hash(TB), 'hash')
