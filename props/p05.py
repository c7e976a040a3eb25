''' P05: geometric intersection numbers are exact. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import intersection
from ref.strand import components, is_peripheral_word
from ref.tri import idx

PROP = Property('P05', ['Minimal position is computed by comparing lifts of strands in the dual tree (ref/inter.py).'])
KW = dict(glued=True, disconnected=True)


@PROP.sub(gen.scenes((2, 3), wmax=8, drag=8, **KW), quick=220)
def model(case, ctx):
    ''' Intersection numbers against the lifted-path model: both orders, several arguments, multiples, sums over components. Non-trivial: a non-zero intersection number. '''
    R, ws = gen.build_scene(case)
    T = gen.ctri(R)
    Ls = [T(w) for w in ws]
    comps = [gen.classify(ctx, R, w) for w in ws]
    n = len(ws)
    table = [[0 if i == j else intersection(R, ws[i], ws[j], comps[i], comps[j]) for j in range(n)] for i in range(n)]
    ctx.nontrivial(any(map(any, table)))
    for i in range(n):
        for j in range(n):
            ctx.equal(Ls[i].intersection(Ls[j]), table[i][j], f'i({ws[i]}, {ws[j]}) on {R.triples}')
        ctx.equal(Ls[i].intersection(*Ls), sum(table[i]), 'several arguments')
        ctx.equal(Ls[i].intersection(), 0, 'no arguments')
        ctx.equal((3 * Ls[i]).intersection(Ls[0]), 3 * table[i][0], 'multiples')
        ctx.equal(Ls[0].intersection(T([2 * a for a in ws[i]])), 2 * table[0][i], 'multiples')
    for c, m in Ls[0].components().items():
        ctx.equal(c.intersection(Ls[1]), intersection(R, list(c), ws[1], None, comps[1]), f'i({list(c)}, {ws[1]}) on {R.triples}')
    for x in range(R.zeta):
        ctx.equal(T.edge_arc(x).intersection(Ls[0]), max(ws[0][x], 0), 'intersection with an edge')
        ctx.equal(Ls[0].intersection(T.edge_arc(~x)), max(ws[0][x], 0), 'intersection with an edge')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=3), 'lams': st.lists(gen.lam_specs(wmax=6), min_size=2, max_size=2), 'moves': gen.moves_specs(min_size=1, max_size=5, power=10**8)}), quick=180)
def invariance(case, ctx):
    ''' Intersection numbers of images under mappings (huge twists included) equal those of the originals. Non-trivial: non-zero intersection number. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    ws = [gen.lam_weights(R, s) for s in case['lams']]
    expected = intersection(R, *ws)
    ctx.nontrivial(expected > 0)
    h = gen.mapping(T, case['moves'])
    a, b = T(ws[0]), T(ws[1])
    ctx.label(*[m[0] for m in case['moves']])
    ctx.equal(h(a).intersection(h(b)), expected, f'i(h({ws[0]}), h({ws[1]})) on {R.triples}')
    ctx.equal(h(b).intersection(h(a)), expected, f'i(h({ws[1]}), h({ws[0]})) on {R.triples}')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.COMPLEX, max_flips=2), 'curve': gen.lam_specs(('walk', 'curve'), 4), 'lams': st.lists(gen.lam_specs(wmax=5), min_size=2, max_size=2), 'power': st.integers(-10**6, 10**6)}), quick=180)
def twist_inequality(case, ctx):
    ''' |i(T^k(a), b) - |k| i(a, c) i(c, b)| <= i(a, b), with i(T^k(a), a) = |k| i(a, c)^2 exactly. Non-trivial: k != 0 and both meet c. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    w = gen.nonperipheral_curve(R, case['curve'])
    if w is None:
        return
    k = case['power']
    a, b = [gen.lam_weights(R, s) for s in case['lams']]
    ac, bc, ab = intersection(R, a, w), intersection(R, b, w), intersection(R, a, b)
    ctx.nontrivial(k != 0 and ac > 0 and bc > 0)
    twist = T(w).encode_twist(power=k)
    A, B = T(a), T(b)
    ta = twist(A)
    i = ta.intersection(B)
    comps = components(R, a)
    closed = all(c[0] == 'curve' for c in comps.values())
    ctx.equal(B.intersection(ta), i, 'symmetry')
    ctx.equal(T(w).intersection(ta), ac, 'i(c, T^k(a)) = i(c, a)')
    if not closed and any(c[0] == 'arc' for c in components(R, b).values()):
        return  # Arcs that share ends can be pushed off each other there.
    ctx.require(abs(i - abs(k) * ac * bc) <= ab, f'twist inequality: i(T^{k}(a), b) = {i}, i(a,c) = {ac}, i(b,c) = {bc}, i(a,b) = {ab}', a=a, b=b, c=w, triples=R.triples)
    if closed and len(comps) == 1:
        (v, c), = comps.items()
        if c[1] == 1:
            ctx.equal(ta.intersection(A), abs(k) * ac * ac, f'i(T^{k}(a), a)')


def slope_vector(p, q):
    return [abs(p), abs(q), abs(p - q)]


slopes = st.tuples(st.integers(-60, 60), st.integers(-60, 60)).map(list)
hslopes = st.tuples(st.integers(-10**30, 10**30), st.integers(-10**30, 10**30)).map(list)


@PROP.sub(st.fixed_dictionaries({'which': st.sampled_from(['1,1', '0,4']), 'a': st.one_of(slopes, hslopes), 'b': st.one_of(slopes, hslopes), 'flips': gen.flips_list(3)}), quick=250)
def determinant(case, ctx):
    ''' On S_{1,1} the lamination with weights |p|, |q|, |p-q| and on S_{0,4} its double meet in |ps - qr|, twice on S_{0,4}. Non-trivial: non-zero determinant. '''
    T = gen.ctri(gen.base('1,1'))
    (p, q), (r, s) = case['a'], case['b']
    det = abs(p * s - q * r)
    ctx.nontrivial(det != 0)
    if case['which'] == '1,1':
        def curve(p, q):
            return T(slope_vector(p, q))
        expected = det
    else:
        # A tetrahedron: opposite edges get equal weights.
        T = curver.create_triangulation([(0, 1, 2), (~0, 3, ~4), (~1, 4, ~5), (~2, 5, ~3)])

        def curve(p, q):
            x, y, z = slope_vector(p, q)
            return T([x, y, z, y, z, x])
        expected = 2 * det
    f = gen.mapping(T, [['flip', k] for k in case['flips']])
    A, B = f(curve(p, q)), f(curve(r, s))
    ctx.equal(A.intersection(B), expected, f'slopes {p}/{q} and {r}/{s}')
    ctx.equal(B.intersection(A), expected, f'slopes {r}/{s} and {p}/{q}')
