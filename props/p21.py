''' P21: piecewise-linear actions and invariant laminations. '''
from fractions import Fraction

import numpy
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import intersection
from ref.strand import components, fix_parity, is_peripheral_word, pos

PROP = Property('P21', ['Dilatations are predicted by traces on the once-punctured torus and by the Thurston construction (Perron-Frobenius eigenvalue of the intersection matrix) for twists about filling pairs of multicurves.'])
K = curver.kernel
CURVES = gen.lam_specs(('walk', 'curve', 'multicurve', 'multicurve', 'hull'), 6)


def curves_of(R, w):
    return [sum(v[e] * c[1] for v, c in components(R, w).items() if c[0] == 'curve') for e in range(R.zeta)]


def near(R, m, spec, k):
    ''' A multicurve whose weights are close to a multiple of those of m. '''
    d = spec['w'] if 'w' in spec else [a + 1 for a in spec.get('walk', spec.get('edges', [1]))]
    return curves_of(R, fix_parity(R, [max(k * a + d[i % len(d)], 0) for i, a in enumerate(m)]))


CASE = st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=4, disconnected=True), 'lam': CURVES, 'others': st.lists(st.tuples(gen.lam_specs(('any', 'walk', 'curve', 'multicurve'), 5), st.integers(0, 12)).map(list), min_size=2, max_size=4)})


def with_moves(kinds, **kw):
    return st.builds(lambda c, m, s: dict(c, moves=m, spin=s), CASE, gen.moves_specs(kinds, **kw), st.integers(-2, 2))


def check_piece(ctx, R, T, h, case, msg):
    m = curves_of(R, gen.lam_weights(R, case['lam']))
    if any(m) and case.get('spin') and h.source_triangulation == h.target_triangulation:  # Somewhere far along, or against, the twisting.
        m = [int(x) for x in (h**case['spin'])(T(m))]
    if not any(m):  # The action is only defined at multicurves.
        ctx.label('empty')
        return m, 0
    M = T(m)
    hM = h(M)
    F = h.pl_action(M)
    msg = f'piece at {m} on {R.triples} of {msg}'
    ctx.require(m in F, msg + ' does not contain the multicurve')
    ctx.equal(list(F(m)), list(hM), msg + ' at the multicurve')
    ctx.equal(F, h.pl_action(T(m)), msg + ': asked again')
    ctx.equal(hash(F), hash(h.pl_action(T(m))), msg + ': hash')
    ctx.require([5 * a for a in m] in F, msg + ' does not contain a multiple of the multicurve')
    ctx.equal(list(F([Fraction(a, 7) for a in m])), [Fraction(a, 7) for a in hM], msg + ' at a fraction of the multicurve')
    hits = 0
    for spec, k in case['others']:
        n = near(R, m, spec, k) if k else curves_of(R, gen.lam_weights(R, spec))
        if not any(n):
            continue
        image = h(T(n))
        if n in F:
            hits += n != m
            ctx.equal(list(F(n)), list(image), msg + f' at {n}')
            # Being a cone and a linear map, and h being linear there.
            mid = [Fraction(a + 2 * b, 3) for a, b in zip(m, n)]
            ctx.require(mid in F, msg + f' is not convex between {m} and {n}')
            ctx.equal(list(F(mid)), [Fraction(a + 2 * b, 3) for a, b in zip(hM, image)], msg + f' is not linear between {m} and {n}')
        else:
            ctx.label('outside')
            ctx.raises(ValueError, lambda: F(n), msg + f' at {n}, which lies outside')
    ctx.label('inside' if hits else 'nothing else inside')
    return m, hits


@PROP.sub(with_moves(('flip', 'multiflip', 'relabel', 'isometry', 'twist', 'halftwist', 'twist'), min_size=1, max_size=1, power=9), quick=400)
def one_move(case, ctx):
    ''' The piece of a single move at a multicurve contains it, and agrees with the move on every generated multicurve that it contains; points outside are refused. Non-trivial: another multicurve lies in it. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    h = gen.mapping(T, case['moves'])
    ctx.label(case['moves'][0][0])
    _, hits = check_piece(ctx, R, T, h, case, str(case['moves']))
    ctx.nontrivial(hits)


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs([b for b in gen.CONNECTED if b not in ('0,3',)], max_flips=4), 'edge': gen.small_ints, 'lams': st.lists(CURVES, min_size=1, max_size=2), 'power': st.integers(1, 9),
                                 'spins': st.lists(st.integers(-7, 7), min_size=2, max_size=4), 'around': st.lists(st.sampled_from([0, 0, 0, 1, 2, 5]), min_size=1, max_size=5), 'sign': st.booleans()}), quick=260)
def spun(case, ctx):
    ''' Pieces of powers of a twist at multicurves that spin around its curve by different amounts, with peripheral curves added: each contains its multicurve, acts as the twist on those of the others
    that it contains and on points between them, and refuses the rest. Non-trivial: a power of at least two, and another multicurve lies in a piece. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    tail = R.vertex_of()
    loops = [e for e in R.labels() if tail[e] == tail[~e] and not T.edge_curve(e).is_peripheral()]
    if not loops:
        ctx.label('no loops')
        return
    c = T.edge_curve(gen.pick(loops, case['edge']))
    p = case['power'] if case['sign'] else -case['power']
    h = c.encode_twist(power=p)
    points = []
    around = [0] * R.zeta
    for v, k in zip(R.vertices(), case['around']):
        for e in v:
            around[max(e, ~e)] += k
    for spec in case['lams']:
        w = curves_of(R, gen.lam_weights(R, spec))
        if any(w):
            for k in case['spins']:
                x = [int(y) for y in c.encode_twist(power=k)(T(w))]
                points.append(x)
                if any(around):
                    points.append([y + z for y, z in zip(x, around)])
    images = [list(h(T(x))) for x in points]
    hits = 0
    for x, hx in zip(points, images):
        F = h.pl_action(T(x))
        msg = f'piece of the twist about {list(c)} to the power {p} on {R.triples} at {x}'
        ctx.require(x in F, msg + ' does not contain it')
        ctx.equal(list(F(x)), hx, msg)
        for y, hy in zip(points, images):
            if y in F:
                hits += x != y
                ctx.equal(list(F(y)), hy, msg + f' applied to {y}')
                mid = [a + b for a, b in zip(x, y)]
                ctx.equal(list(F(mid)), list(h(T(mid))), msg + f' applied to {mid}')
            else:
                ctx.raises(ValueError, lambda: F(y), msg + f' applied to {y}, which lies outside')
    ctx.nontrivial(hits and abs(p) > 1)


@PROP.sub(with_moves(('flip', 'multiflip', 'relabel', 'isometry', 'twist', 'halftwist'), min_size=2, max_size=5, power=4), quick=200)
def words(case, ctx):
    ''' The same for words, and the piece of a product is the product of the pieces (as maps, and on the same multicurves). Non-trivial: another multicurve lies in the piece. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    k = len(case['moves']) // 2
    g = gen.mapping(T, case['moves'][:k])
    h = gen.mapping(g.target_triangulation, case['moves'][k:])
    m, hits = check_piece(ctx, R, T, h * g, case, str(case['moves']))
    ctx.nontrivial(hits)
    if not any(m):
        return
    M = T(m)
    G, H, HG = g.pl_action(M), h.pl_action(g(M)), (h * g).pl_action(M)
    C = H * G
    ctx.equal(C.action.tolist(), HG.action.tolist(), 'the action of a product is the product of the actions')
    for spec, j in case['others']:
        n = near(R, m, spec, j)
        inside = n in G and list(G(n)) in H
        ctx.equal(n in C, inside, f'domain of a product at {n}')
        ctx.equal(n in HG, inside, f'domain of the piece of a product at {n}')
        if inside:
            ctx.equal(list(H(G(n))), list(C(n)), 'product of pieces')


@PROP.sub(st.fixed_dictionaries({'word': st.lists(st.sampled_from('abAB'), min_size=2, max_size=9), 'flips': gen.flips_list(4), 'power': st.integers(1, 3)}), quick=60, budget=200)
def torus(case, ctx):
    ''' On the once-punctured torus (any triangulation of it) classes with |trace| > 2 have the dilatation (|t| + sqrt(t^2 - 4)) / 2 and the reported lamination is stretched by exactly that; others are refused or at least
    satisfy the equation. Non-trivial: |trace| > 2. '''
    S = curver.load(1, 1)
    mats = {'a': ((1, 1), (0, 1)), 'b': ((1, 0), (-1, 1)), 'A': ((1, -1), (0, 1)), 'B': ((1, 0), (1, 1))}
    M = numpy.array([[1, 0], [0, 1]], dtype=object)
    word = case['word'] * case['power']
    word = word[:12]
    for x in word:
        M = M.dot(numpy.array(mats[x], dtype=object))
    t = abs(M[0][0] + M[1][1])
    f = S('.'.join(x + '_0' for x in word))
    T = S.triangulation
    h = gen.mapping(T, [['flip', k] for k in case['flips']])
    g = h * f * h.inverse()
    ctx.nontrivial(t > 2)
    msg = f'{word} after flips {case["flips"]}'
    try:
        d, L = g.projective_invariant_lamination()
    except ValueError:
        ctx.require(t <= 2, msg + f' has trace {t} but is refused')
        return
    ctx.require(not L.is_empty(), msg + ': empty invariant lamination')
    ctx.equal(g(L), d * L, msg + ': h(L) = d * L')
    if t > 2:
        ctx.equal(d * d + 1, t * d, msg + f': dilatation for trace {t}')
        ctx.require(d > 1, msg + ': dilatation is at most 1')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(['1,2', '0,4', '0,5', '1,1', '2,1'], 4), 'a': gen.lam_specs(('walk', 'multicurve', 'curve'), 2), 'b': gen.lam_specs(('walk', 'multicurve', 'curve'), 2),
                                 'm': st.integers(1, 2), 'n': st.integers(1, 2)}), quick=70, budget=300)
def thurston(case, ctx):
    ''' For filling multicurves a and b the product of the twist about a and the inverse twist about b is pseudo-Anosov with d + 1/d = 2 + mu, mu the Perron-Frobenius eigenvalue of (intersection matrix)(transpose), weighted by
    powers; the reported lamination is stretched by d and fills. Non-trivial: a and b fill and are connected. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    parts = []
    for s in (case['a'], case['b']):
        w = gen.lam_weights(R, s)
        vs = [v for v, c in components(R, w).items() if c[0] == 'curve' and not is_peripheral_word(R, c[2])]
        if not vs:
            w = gen.nonperipheral_curve(R, s)
            if w is None:
                return
            vs = [tuple(w)]
        parts.append(sorted(vs))
    A, B = parts
    if len(set(A) & set(B)) or sum(map(sum, A + B)) > 60:
        return
    N = numpy.array([[intersection(R, a, b) for b in B] for a in A], dtype=object)
    if N.max() > 6:
        return
    a, b = T([sum(x) for x in zip(*A)]), T([sum(x) for x in zip(*B)])
    if not N.any(axis=0).all() or not N.any(axis=1).all() or not a.fills_with(b):
        return
    m, n = case['m'], case['n']
    mu = float(max(abs(numpy.linalg.eigvals((m * n * N.dot(N.T)).astype(float)))))
    ctx.nontrivial()
    g = a.encode_twist(m) * b.encode_twist(-n)
    d, L = g.projective_invariant_lamination()
    ctx.equal(g(L), d * L, 'h(L) = d * L')
    # The eigenvector comes from a cone of the attracting lamination, so d is the dilatation itself.
    x = float(d)
    ctx.require(abs(x + 1 / x - 2 - mu) < 1e-6 * (2 + mu), f'dilatation {x} of twists about {A}^{m} and {B}^-{n} on {R.triples}, expected d + 1/d = {2 + mu}')
    ctx.require(x > 1, 'dilatation at most 1')
