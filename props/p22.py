''' P22: slopes, relative twisting and multitwist recognition. '''
from fractions import Fraction
from math import ceil, floor
from numbers import Rational

import numpy
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import component_intersection, intersection
from ref.strand import components, is_peripheral_word
from ref.twist import twist_weights

PROP = Property('P22', ['Twisting and intersection numbers are recounted on the strand model; relative twisting is the midpoint of the two asymptotes of the intersection function of the power, which is where the function is smallest.'])
K = curver.kernel
LAM = gen.lam_specs(('any', 'walk', 'curve', 'multicurve', 'hull', 'arc'), 4)
FIELD = K.RealNumberField([-2, 0, 1])


def split(R, w):
    ''' Is the lamination made of curves only. '''
    return all(c[0] == 'curve' for c in components(R, w).values())


def crossing(R, a, spec):
    ''' A lamination from a spec that crosses the curve a, if one is found. '''
    w = gen.lam_weights(R, spec)
    for t in range(5):
        if any(w) and intersection(R, a, w):
            return w
        seed = spec.get('w') or spec.get('walk') or spec.get('edges')
        w = gen.lam_weights(R, {'kind': 'walk', 'walk': [abs(x) + t for x in seed] + [t, 2 * t + 1], 'mult': 1})
    return w


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((2, 2), kinds=('walk', 'curve', 'any', 'hull'), wmax=4, drag=6, disconnected=True), 'other': LAM,
                                 'powers': st.lists(st.integers(-7, 7), min_size=1, max_size=3), 'huge': st.integers(9, 10**30)}), quick=300)
def slope(case, ctx):
    ''' k -> slope of the k-th twist increases by exactly 1 per twist outside [-1, 1], never decreases, also at powers of 30 digits; slopes are multiples of 1/intersection, ignore multiplicity, and are the same for irrational multiples; peripheral and disjoint are refused. Non-trivial: they cross. '''
    R, (c, w) = gen.build_scene(case['scene'], interpret=lambda T, s: gen.lam_weights(T, s))
    comps = components(R, c)
    curves = sorted(v for v, x in comps.items() if x[0] == 'curve')
    if not curves or not any(w):
        return
    c = next((v for v in curves if not is_peripheral_word(R, comps[v][2])), curves[0])
    T = gen.ctri(R)
    C, L = T(c), T(w)
    n = intersection(R, c, w)
    if is_peripheral_word(R, comps[c][2]):
        ctx.label('peripheral')
        ctx.raises(ValueError, lambda: C.slope(L), 'slope about a peripheral curve')
        ctx.raises(ValueError, lambda: C.relative_twisting(L, L), 'relative twisting about a peripheral curve')
        return
    if not n:
        ctx.label('disjoint')
        ctx.raises(ValueError, lambda: C.slope(L), f'slope of {w} about {c} on {R.triples}, which are disjoint')
        ctx.raises(ValueError, lambda: C.relative_twisting(L, L), 'relative twisting with something disjoint')
        return
    ctx.nontrivial()
    msg = f'about {c} of {w} on {R.triples}'
    huge = case['huge']
    ks = sorted(set(x for k in case['powers'] for x in (k - 1, k, k + 1)) | {-huge - 1, -huge, huge, huge + 1, -2, -1, 0, 1, 2})
    s = {k: C.slope(C.encode_twist(power=k)(L)) for k in ks}
    ctx.equal(s[0], C.slope(L), 'asked again')
    ctx.require(all(isinstance(x, Rational) and (x * n).denominator == 1 for x in s.values()), 'slopes are multiples of 1/intersection ' + msg)
    for k in ks:
        if k + 1 in s:
            if abs(s[k]) > 1:
                ctx.equal(s[k + 1], s[k] + 1, f'slope after one more twist than {k} {msg}')
            if abs(s[k + 1]) > 1:
                ctx.equal(s[k], s[k + 1] - 1, f'slope after one twist less than {k + 1} {msg}')
            ctx.require(0 <= s[k + 1] - s[k] <= 1, f'slopes {s[k]} and {s[k + 1]} after {k} and {k + 1} twists {msg}')
    ctx.require(abs(s[huge] - s[0] - huge) <= 3 and abs(s[-huge] - s[0] + huge) <= 3, f'slope after {huge} twists {msg}')
    ctx.equal(C.slope(3 * L), s[0], 'slope of a multiple ' + msg)
    ctx.require(C.slope(T([FIELD.lmbda * x for x in w])) == s[0], 'slope of an irrational multiple ' + msg)
    ctx.equal(C.slope(T([Fraction(x, 5) for x in w])), s[0], 'slope of a rational multiple ' + msg)
    # Where the lamination lies between two disjoint halves.
    u = crossing(R, c, case['other'])
    if any(u) and intersection(R, c, u):
        r = C.slope(T(u))
        b = C.relative_twisting(L, T(u))
        ctx.require(abs(r - s[0] - b) <= 4, f'slopes {s[0]} of {w} and {r} of {u} {msg}, relative twisting {b}')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.SMALL + ['2,2', '0,6'], 4), 'curve': gen.lam_specs(('walk', 'curve'), 3), 'lams': st.lists(LAM, min_size=2, max_size=2), 'pre': st.integers(-3, 3), 'k': st.integers(-40, 40), 'moves': gen.moves_specs(max_size=3)}), quick=250)
def relative(case, ctx):
    ''' relative_twisting(b, c) is the midpoint of the asymptotes recounted on the strand model (exactly for multicurves, within one when arcs are involved), is antisymmetric, natural under mappings, changes by the power when b or c are twisted
    (exactly for multicurves), and within one of it the intersection is smallest. Non-trivial: the result is not 0. '''
    R = gen.build(case['tri'])
    a = gen.nonperipheral_curve(R, case['curve'])
    if a is None:
        return
    b, c = [crossing(R, a, s) if case['k'] % 9 else gen.lam_weights(R, s) for s in case['lams']]
    if not any(b) or not any(c):
        return
    if sum(map(abs, b)) * sum(a) < 2000:
        b = twist_weights(R, b, a, case['pre'])
    T = gen.ctri(R)
    A, B, C = T(a), T(b), T(c)
    ab, ac = intersection(R, a, b), intersection(R, a, c)
    if not ab or not ac:
        ctx.label('disjoint')
        ctx.raises(ValueError, lambda: A.relative_twisting(B, C), f'relative twisting about {a} of {b} and {c} on {R.triples}')
        return
    exact = split(R, b) and split(R, c)
    ctx.label('curves' if exact else 'with arcs')
    r = A.relative_twisting(B, C)
    msg = f'about {a} of {b} relative to {c} on {R.triples}: {r}'
    ctx.nontrivial(r != 0)
    bc = intersection(R, b, c)

    def near(x, y, text):
        if exact:
            ctx.equal(x, y, text + ' ' + msg)
        else:
            ctx.require(abs(x - y) <= 1, f'{text}: {x} is not within one of {y} {msg}')
    near(A.relative_twisting(C, B), -r, 'antisymmetry')
    near(A.relative_twisting(2 * B, C), r, 'multiples')
    h = gen.mapping(T, case['moves'])
    ctx.equal(h(A).relative_twisting(h(B), h(C)), r, 'naturality ' + msg)
    k = case['k']
    t = A.encode_twist(power=k)
    near(A.relative_twisting(t(B), C), r - k, f'{k} twists of the first lamination')
    near(A.relative_twisting(B, t(C)), r + k, f'{k} twists of the second lamination')
    # Recounted.
    f = {}

    def value(n):
        if n not in f:
            f[n] = intersection(R, twist_weights(R, b, a, n), c)
        return f[n]
    N = bc // (ab * ac) + abs(floor(r)) + 2
    if (sum(map(abs, b)) + N * ab * sum(a)) * sum(map(abs, c)) < 40000:
        ctx.label('recounted')
        N = max(N, 2)
        if value(N + 1) - value(N) == ab * ac == value(-N - 1) - value(-N):  # In the asymptotic range.
            near(r, Fraction(value(-N) - value(N), 2 * ab * ac), 'midpoint of the asymptotes')
        best = min(value(n) for n in range(floor(r) - 1, ceil(r) + 2))
        for n in range(floor(r) - 4, ceil(r) + 5):
            ctx.require(value(n) >= best, f'{n} twists make {value(n)} crossings, but {best} are the fewest near the relative twisting {msg}')


@PROP.sub(st.fixed_dictionaries({'b': st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), 'c': st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), 'flips': gen.flips_list(5)}), quick=120)
def torus(case, ctx):
    ''' On the once-punctured torus relative twisting about the curve of slope 1/0 is the difference of the (inverse) slopes. Non-trivial: both cross it. '''
    (p, q), (r, s) = case['b'], case['c']
    S = curver.load(1, 1)
    T = S.triangulation
    x, y = T.homology_basis()
    # Curves as weights: edges carry |det| with the homology class of the edge.
    pairing = {}
    cls = [(1, 0), (0, 1), (1, 1)]
    h = gen.mapping(T, [['flip', k] for k in case['flips']])
    a, b_ = S.curves['a_0'], S.curves['b_0']

    def vector(m, n):
        # m * a + n * b, from the weights of a and b and of the twist T_a(b), which is a + b up to sign conventions.
        ab = a.encode_twist()(b_)
        rows = numpy.array([list(a), list(b_), list(ab)], dtype=object)
        out = []
        for e in range(3):
            wa, wb, wab = rows[0][e], rows[1][e], rows[2][e]
            sign = 1 if wa + wb == wab else -1  # Each edge is (u, v) with |u| = wb, |v| = wa.
            out.append(abs(m * wa + sign * n * wb))
        return out
    if not q or not s:
        return
    ctx.nontrivial()
    B, C = T(vector(p, q)), T(vector(r, s))
    ctx.equal(a.intersection(B), abs(q), 'crossings')
    expected = Fraction(r, s) - Fraction(p, q)
    ctx.equal(a.relative_twisting(B, C), expected, f'relative twisting of {p, q} and {r, s}')
    ctx.equal(h(a).relative_twisting(h(B), h(C)), expected, f'relative twisting of {p, q} and {r, s} after flips')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=5, disconnected=True), 'lam': gen.lam_specs(('walk', 'multicurve', 'hull', 'curve'), 5), 'signs': st.lists(st.sampled_from([1, 1, 1, 1, 1, 1, -1, 0]), min_size=1, max_size=4), 'extra': gen.moves_specs(('twist', 'halftwist', 'isometry'), max_size=2, power=3),
                                 'kind': st.sampled_from(['multitwist', 'multitwist', 'product', 'word', 'conjugate', 'halftwist']), 'conj': gen.moves_specs(max_size=2)}), quick=250)
def recognition(case, ctx):
    ''' Mapping classes put together from twists in different ways: those that are products of positive twists about disjoint curves are recognised and the recovered multicurve is the essential part (and twists to the class); mixed signs,
    classes that move a curve of the system and so on are not. Non-trivial: recognised, or a non-trivial word is not. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    w = gen.lam_weights(R, case['lam'])
    comps = {v: x for v, x in components(R, w).items() if x[0] == 'curve' and not is_peripheral_word(R, x[2])}
    kind = case['kind']
    ctx.label(kind)
    vs = sorted(comps)
    if kind == 'halftwist':
        v = R.vertex_of()
        options = [e for e in range(R.zeta) if v[e] != v[~e]]
        if not options:
            return
        k = sum(case['signs']) or 3
        arc = T.edge_arc(gen.pick(options, len(vs)))
        h = arc.encode_halftwist(power=k)
        boundary = arc.boundary()
        essential = [x for x in components(R, list(boundary)).values() if not is_peripheral_word(R, x[2])]
        if essential and k > 0 and k % 2 == 0:
            ctx.nontrivial()
            ctx.require(h.is_multitwist() is True, 'an even power of a half twist')
            ctx.equal(list(h.extract_twisting_multicurve()), [k // 2 * x for x in boundary], f'multicurve of the half twist to the power {k}')
        elif essential:
            ctx.nontrivial()
            ctx.require(h.is_multitwist() is False, f'a half twist to the power {k}')
        return
    if not vs:
        return
    powers = [case['signs'][i % len(case['signs'])] * comps[v][1] for i, v in enumerate(vs)]
    total = [sum(k * v[e] for k, v in zip(powers, vs)) for e in range(R.zeta)]
    if kind == 'multitwist':
        powers = [comps[v][1] for v in vs]
        total = [sum(k * v[e] for k, v in zip(powers, vs)) for e in range(R.zeta)]
        h = T(w).encode_twist() if split(R, w) else T(total).encode_twist()
    else:
        h = T.id_encoding()
        for v, k in zip(vs, powers):
            h = h * T(v).encode_twist(power=k)
        if kind == 'product':
            h = h * T(vs[0]).encode_twist(power=2)
            powers[0] += 2
            total = [t + 2 * x for t, x in zip(total, vs[0])]
    if kind == 'conjugate':
        g = gen.mapping(T, case['conj'])
        h = g * h * g.inverse()
        if any(total) and all(k >= 0 for k in powers):
            total = list(g(T(total)))
    if kind == 'word':
        if R.zeta > 9:  # These get slow when they are not multitwists.
            return
        g = gen.mapping(T, case['extra'])
        h = h * g
        m = None
        try:
            m = h.extract_twisting_multicurve()
        except ValueError:
            pass
        ctx.equal(h.is_multitwist(), m is not None, 'is_multitwist agrees')
        if m is not None:
            # Whatever it says has to be right.
            ctx.require(isinstance(m, K.MultiCurve), 'a multicurve')
            ctx.equal(m.encode_twist(), h, 'the recovered multicurve twists to the class')
            ctx.label('word recognised')
        else:
            ctx.nontrivial(not h.is_identity())
        return
    msg = f'{kind} of {dict(zip(vs, powers))} on {R.triples}'
    if all(k == 0 for k in powers):
        return  # The identity: neither convention is claimed.
    ctx.nontrivial()
    if all(k >= 0 for k in powers):
        ctx.require(h.is_multitwist() is True, msg + ' is not recognised')
        m = h.extract_twisting_multicurve()
        ctx.equal(list(m), total, msg + ': recovered multicurve')
        ctx.equal(m.encode_twist(), h, msg + ': twists to')
    else:
        ctx.require(h.is_multitwist() is False, msg + ' is recognised as a positive multitwist')
        ctx.raises(ValueError, h.extract_twisting_multicurve, msg)
