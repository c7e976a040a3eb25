''' P06: Dehn twists are right Dehn twists for every curve and power. '''
from fractions import Fraction

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import intersection
from ref.strand import components, is_peripheral_word
from ref.tri import idx
from ref.twist import twist_weights
from props.p03 import edge_curve_vectors

K = curver.kernel
PROP = Property('P06', ['The model twist cuts strands along the curve, inserts turns to the right and pulls tight in the dual tree (ref/twist.py).'])

CURVES = ('walk', 'curve', 'multicurve', 'hull', 'multicurve')


def multicurve_part(R, w):
    ''' The curve components of w, {vector: multiplicity}, and their sum. '''
    comps = components(R, w)
    curves = {v: c for v, c in comps.items() if c[0] == 'curve'}
    total = [sum(v[i] * c[1] for v, c in curves.items()) for i in range(R.zeta)]
    return curves, total


small_powers = st.integers(-3, 3)


@PROP.sub(st.fixed_dictionaries({'scene': st.tuples(gen.scenes((2, 2), kinds=CURVES, wmax=5, drag=5, glued=True, disconnected=True), gen.lam_specs(wmax=5)).map(list), 'power': small_powers}), quick=350)
def model(case, ctx):
    ''' The multitwist to a small power against cutting and regluing strands. Non-trivial: the lamination is moved. '''
    scene, other = case['scene']
    R, (m, w) = gen.build_scene(dict(scene, lams=[scene['lams'][0], other]))
    curves, total = multicurve_part(R, m)
    k = case['power']
    T = gen.ctri(R)
    gen.classify(ctx, R, total)
    expected = w
    for v, c in curves.items():
        if not is_peripheral_word(R, c[2]):
            if sum(abs(a) for a in expected) * sum(v) > 4000:
                return
            expected = twist_weights(R, expected, v, k * c[1])
    L = T(w)
    h = T(total).encode_twist(power=k) if curves else T.id_encoding()
    image = h(L)
    ctx.nontrivial(list(w) != list(expected))
    ctx.equal(list(image), list(expected), f'T_{total}^{k}({w}) on {R.triples}')
    ctx.require(type(image) is type(L) and image.triangulation == T, 'kind of the image')
    ctx.equal(h.inverse()(image), L, 'inverse')
    ctx.require(isinstance(h, K.MappingClass), 'a twist is a mapping class')
    if k == 1 and curves:
        ctx.equal(list(T(total).encode_twist()(L)), list(expected), 'default power')
    ctx.equal(bool(h.is_identity()), k == 0 or all(is_peripheral_word(R, c[2]) for c in curves.values()), 'trivial exactly when peripheral or power 0')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=6, glued=True), 'edge': st.integers(0, 35), 'power': small_powers.filter(bool), 'lam': gen.lam_specs(wmax=5)}), quick=200)
def edges(case, ctx):
    ''' The notation (e, p) for a loop edge is the twist about the curve to the right of e. Non-trivial: the lamination is moved. '''
    R = gen.build(case['tri'])
    v = R.vertex_of()
    loops = [x for x in R.labels() if v[x] == v[~x]]
    if not loops:
        return
    x = gen.pick(loops, case['edge'])
    (vector,) = [c for c, xs in edge_curve_vectors(R).items() if x in xs] or [None]
    w = gen.lam_weights(R, case['lam'])
    T = gen.ctri(R)
    h = T.encode([(x, case['power'])])
    if vector is None:
        expected = w
    else:
        (c,) = components(R, list(vector)).values()
        if c[0] != 'curve' or is_peripheral_word(R, c[2]):
            expected = w
        else:
            expected = twist_weights(R, w, list(vector), case['power'])
    ctx.nontrivial(list(expected) != list(w))
    ctx.equal(list(h(T(w))), list(expected), f'({x}, {case["power"]}) applied to {w} on {R.triples}')


def setup(case, ctx):
    R = gen.build(case['tri'])
    w = gen.nonperipheral_curve(R, case['curve'])
    if w is None:
        return None
    f = gen.mapping(gen.ctri(R), case.get('moves', []))
    T = gen.ctri(R)
    return R, T, w, f


powers = st.one_of(st.integers(-6, 6), st.integers(-10**4, 10**4), st.integers(-10**40, 10**40))
law_case = {'tri': gen.tri_specs(gen.COMPLEX, max_flips=4), 'curve': gen.lam_specs(('walk', 'curve'), 4), 'lam': gen.lam_specs(wmax=6)}


@PROP.sub(st.fixed_dictionaries(dict(law_case, a=powers, b=powers, moves=gen.moves_specs(('flip', 'twist', 'halftwist', 'relabel'), 0, 3, power=50))), quick=300)
def powers_add(case, ctx):
    ''' T^a T^b = T^(a+b), T^a = (T)^a, linear growth in the tails and laminations slid by a twist of any size first. Non-trivial: both powers non-zero and the curve is met. '''
    got = setup(case, ctx)
    if got is None:
        return
    R, T, w, f = got
    a, b = case['a'], case['b']
    v = gen.lam_weights(R, case['lam'])
    n = intersection(R, v, w)
    T2 = f.target_triangulation
    C, L = f(T(w)), f(T(v))
    ctx.label(f'conjugator {len(f)}')
    ctx.nontrivial(a * b != 0 and n != 0)
    A, B, AB = C.encode_twist(power=a), C.encode_twist(power=b), C.encode_twist(power=a + b)
    image = A(B(L))
    ctx.equal(list(AB(L)), list(image), f'T^{a} T^{b} = T^{a + b}')
    ctx.equal(A(L), f(T(w).encode_twist(power=a)(T(v))), 'naturality')
    ctx.equal(B.inverse()(B(L)), L, 'inverse')
    if n == 0:
        ctx.equal(B(L), L, 'disjoint laminations are fixed')
    else:
        ctx.equal(C.intersection(image), n, 'i(c, T(x)) = i(c, x)')
    # In the tails each further twist adds i(c, x) * c.
    big = 10**60
    for s in [1, -1]:
        x, y = C.encode_twist(power=s * big)(L), C.encode_twist(power=s * (big + 1))(L)
        ctx.equal([q - p for p, q in zip(x, y)], [n * e for e in C], f'growth in the tail {s}')
    if 0 < abs(a) <= 6:
        step = C.encode_twist(power=1 if a > 0 else -1)
        x = L
        for _ in range(abs(a)):
            x = step(x)
        ctx.equal(list(A(L)), list(x), f'T^{a} by repetition')
        ctx.require(A == step**abs(a), 'as mapping classes')
    ctx.require((A == B) == (a == b), 'different powers differ')


@PROP.sub(st.fixed_dictionaries(dict(law_case, power=st.integers(-40, 40).filter(bool), start=st.integers(-40, 40), q=st.sampled_from([1, 2, 3, 7]))), quick=250)
def accelerated(case, ctx):
    ''' A power applied to laminations already twisted by some amount (so that the path runs through the slow region), against single twists; also on fractions of laminations. Non-trivial: the curve is met. '''
    got = setup(case, ctx)
    if got is None:
        return
    R, T, w, _ = got
    v = gen.lam_weights(R, case['lam'])
    ctx.nontrivial(intersection(R, v, w) != 0)
    C = T(w)
    k, s = case['power'], case['start']
    one = C.encode_twist(power=1 if k > 0 else -1)
    x = T(v)
    step = C.encode_twist(power=1 if s > 0 else -1)
    for _ in range(abs(s)):
        x = step(x)
    y = x
    for _ in range(abs(k)):
        y = one(y)
    h = C.encode_twist(power=k)
    ctx.equal(list(h(x)), list(y), f'T^{k}')
    ctx.label('crosses zero' if s * (s + k) < 0 else 'one side')
    q = case['q']
    if q > 1:
        X = T([Fraction(a, q) for a in x], promote=False)
        ctx.equal(list(h(X)), [Fraction(a, q) for a in y], f'T^{k} of a fraction')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.COMPLEX, max_flips=4), 'c': gen.lam_specs(('walk', 'curve'), 3), 'd': gen.lam_specs(('walk', 'curve'), 3), 'a': st.integers(-10**6, 10**6), 'b': st.integers(-4, 4).filter(bool),
                                 'moves': gen.moves_specs(min_size=1, max_size=4, power=10)}), quick=200)
def relations(case, ctx):
    ''' Disjoint twists commute, twists about curves meeting once braid, twists about other curves do not, f T_c f^-1 = T_f(c). Non-trivial: two different curves. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    c, d = gen.nonperipheral_curve(R, case['c']), gen.nonperipheral_curve(R, case['d'])
    if c is None or d is None:
        return
    a, b = case['a'], case['b']
    n = intersection(R, c, d)
    ctx.label(f'i = {n}' if n < 3 else 'i > 2')
    ctx.nontrivial(c != d)
    C, D = T(c), T(d)
    s, t = C.encode_twist(), D.encode_twist()
    if n == 0:
        x, y = C.encode_twist(power=a), D.encode_twist(power=b)
        ctx.require(x * y == y * x, f'twists about disjoint curves commute {c} {d}')
        if c != d:
            m = T([2 * p + 3 * q for p, q in zip(c, d)])
            ctx.require(m.encode_twist(power=b) == C.encode_twist(power=2 * b) * D.encode_twist(power=3 * b), 'multitwist')
    else:
        ctx.require(s * t != t * s, 'twists about meeting curves do not commute')
    if n == 1:
        ctx.require(s * t * s == t * s * t, 'braid relation')
        ctx.equal(list((s * t)(C)), list(D), 'T_c T_d (c) = d')
    elif n > 1:
        ctx.require(s * t * s != t * s * t, 'braid relation fails')
    f = gen.mapping(T, case['moves'])
    g = f(C).encode_twist(power=b)
    ctx.require(f * C.encode_twist(power=b) * f.inverse() == g, 'naturality')
    ctx.equal(g(f(C)), f(C), 'fixes its curve')
    ctx.require((s == t) == (c == d), 'twists agree exactly when curves do')
