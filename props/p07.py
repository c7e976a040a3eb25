''' P07: half-twists swap the ends of their arc and square to the boundary twist. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import intersection
from ref.strand import Strands, components, flip_weights, is_peripheral_word
from ref.twist import twist_weights

K = curver.kernel
PROP = Property('P07', ['A half-twist is determined by being supported near its arc and squaring to the boundary twist, which the model computes (ref/twist.py).'])


def setup(case, ctx, n_arcs=1):
    ''' Return (R, T, arc weights, [boundary weights], others) where the arc is an edge dragged along flips. '''
    R = gen.build(case['tri'])
    v = R.vertex_of()
    arcs, used = [], set()
    for k in case['edges'][:n_arcs]:
        options = [e for e in range(R.zeta) if v[e] != v[~e] and not {v[e], v[~e]} & used]
        if options:
            e = gen.pick(options, k)
            arcs.append(e)
            used |= {v[e], v[~e]}
    if not arcs:
        return None
    bounds = [gen.hull(R, [e])[1] for e in arcs]
    arc = [-1 if e in arcs else 0 for e in range(R.zeta)]
    disjoint = []
    for s in case['lams']:
        w = gen.lam_weights(R, s)
        disjoint.append(w)
        # Remove the components that meet the arc.
        keep = [0] * R.zeta
        for vec, c in components(R, w).items():
            if all(vec[e] <= 0 for e in arcs):
                keep = [a + c[1] * b for a, b in zip(keep, vec)]
        disjoint.append(keep)
    ws = [arc] + bounds + disjoint
    for k in case['drag']:
        options = gen.flippables(R)
        if not options:
            break
        x = gen.pick(options, k)
        new = [flip_weights(R, w, x) for w in ws]
        if any(sum(abs(a) for a in w) > 200 for w in new):
            continue
        R, ws = R.flip(x), new
    arc, bounds, rest = ws[0], ws[1:1 + len(arcs)], ws[1 + len(arcs):]
    return R, gen.ctri(R), arc, bounds, rest


MEDIUM = ['1,2', '0,5', '0,4', '1,3', '0,3', '2,2', '0,6']
BASES = [b for b in gen.CONNECTED if b[-1] != '1']
basic = {'tri': gen.tri_specs(BASES, max_flips=6), 'edges': st.lists(gen.small_ints, min_size=3, max_size=3), 'lams': st.lists(gen.lam_specs(wmax=4), min_size=1, max_size=2), 'drag': gen.flips_list(5)}


def model_twist(R, w, bounds, power):
    for b in bounds:
        comps = components(R, b)
        for v, c in comps.items():
            if not is_peripheral_word(R, c[2]):
                w = twist_weights(R, w, v, power)
    return w


@PROP.sub(st.fixed_dictionaries(dict(basic, n=st.integers(1, 3))), quick=320)
def square(case, ctx):
    ''' The square is the model twist about the boundary, what is disjoint from the arc is fixed, the arc is fixed. Non-trivial: some lamination is moved. '''
    got = setup(case, ctx, case['n'])
    if got is None:
        return
    R, T, arc, bounds, rest = got
    A = T(arc)
    n = A.num_components()
    ctx.label(f'{n} arcs')
    h = A.encode_halftwist()
    ctx.require(isinstance(h, K.MappingClass), 'a half-twist is a mapping class')
    touched = {p for v, c in components(R, arc).items() for p in arc_ends(R, v, c)}
    square, inv = A.encode_halftwist(power=2), A.encode_halftwist(power=-1)
    ctx.equal(h(A), A, 'the arc is fixed')
    ctx.require(not h.is_identity() or R.surface() and len(R.triples) == 2, 'not the identity')
    for w in rest:
        L = T(w)
        one = h(L)
        ctx.require(type(one) is type(L), 'class of the image')
        two = h(one)
        if sum(abs(a) for a in w) * max(sum(b) for b in bounds) < 4000:
            ctx.equal(list(two), list(model_twist(R, w, bounds, 1)), f'H^2 about {arc} of {w} on {R.triples}')
        ctx.equal(list(square(L)), list(two), 'power 2')
        ctx.equal(list(inv(one)), w, 'power -1')
        ctx.equal(h.inverse()(one), L, 'inverse')
        ctx.nontrivial(list(one) != w)
        comps = components(R, w)
        touching = {p for v, c in comps.items() if c[0] == 'arc' for p in arc_ends(R, v, c)} & touched
        if not touching and all(intersection(R, w, [int(a) for a in c], comps) == 0 for c in A.components()):
            ctx.equal(list(one), w, f'disjoint from the arc {arc} on {R.triples}')
            ctx.label('disjoint')
    # The punctures.
    mine = {}
    for x in R.labels():
        mine.setdefault(R.vertex_of()[x], []).append(x)
    vmap = h.vertex_map()
    ends = A.vertices()
    ctx.equal(len(ends), 2 * n, 'ends of the arcs')
    for vertex, image in vmap.items():
        if vertex not in ends:
            ctx.equal(image, vertex, 'other punctures are fixed')
    for c in A.components():
        p, q = c.vertices()
        ctx.require(vmap[p] == q and vmap[q] == p, 'ends are swapped')
    perm = h.vertex_permutation()
    ctx.equal(perm.order(), 2, 'order of the permutation')


powers = st.one_of(st.integers(-7, 7), st.integers(-1000, 1000), st.integers(-10**30, 10**30))


@PROP.sub(st.fixed_dictionaries(dict(basic, tri=gen.tri_specs(MEDIUM, max_flips=5), a=powers, b=powers, n=st.integers(1, 2), moves=gen.moves_specs(min_size=0, max_size=2, power=5))), quick=200)
def powers_add(case, ctx):
    ''' H^a H^b = H^(a+b), even powers are boundary twists, small powers by repetition, naturality under mappings. Non-trivial: non-zero powers and some lamination is moved. '''
    got = setup(case, ctx, case['n'])
    if got is None:
        return
    R, T, arc, bounds, rest = got
    f = gen.mapping(T, case['moves'])
    A = f(T(arc))
    a, b = case['a'], case['b']
    x, y, z = [A.encode_halftwist(power=k) for k in (a, b, a + b)]
    T2 = f.target_triangulation
    for w in rest:
        L = f(T(w))
        ctx.equal(list(x(y(L))), list(z(L)), f'H^{a} H^{b}')
        ctx.equal(list(x(L)), list(f(T(arc).encode_halftwist(power=a)(T(w)))), f'naturality of H^{a}')
        ctx.equal(list(x.inverse()(x(L))), list(L), 'inverse')
        ctx.nontrivial(a * b != 0 and z(L) != L)
        if 0 < abs(a) <= 7:
            h = A.encode_halftwist(power=1 if a > 0 else -1)
            M = L
            for _ in range(abs(a)):
                M = h(M)
            ctx.equal(list(M), list(x(L)), f'H^{a} by repetition')
        B = [T(v) for v in bounds]
        even = T(w)
        for v in B:
            even = v.encode_twist(power=a)(even)
        ctx.equal(list(T(arc).encode_halftwist(power=2 * a)(T(w))), list(even), f'H^{2 * a} is the boundary twist')
    B = A.boundary()
    ctx.require(A.encode_halftwist(power=2 * a) == B.encode_twist(power=a), 'even powers are boundary twists')
    ctx.require(x * y == z, 'powers add')
    ctx.require(f * T(arc).encode_halftwist(power=b) * f.inverse() == y, 'naturality')
    if T2.max_order() and any(not T(v).is_peripheral() for v in bounds):
        ctx.require((x == y) == (a == b), 'powers differ')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.CONNECTED, max_flips=6), 'edge': gen.small_ints, 'lam': gen.lam_specs(('arc', 'multiarc', 'edges', 'arc'), 4), 'drag': gen.flips_list(5), 'power': st.integers(-3, 3)}), quick=300)
def refusal(case, ctx):
    ''' Refused with a ValueError exactly when the components do not have pairwise distinct ends. Non-trivial: refused. '''
    R, (w,) = gen.build_scene({'tri': case['tri'], 'lams': [case['lam']], 'drag': case['drag']})
    T = gen.ctri(R)
    comps = components(R, w)
    arcs = {v: c for v, c in comps.items() if c[0] == 'arc'}
    if not arcs:
        return
    total = [sum(v[i] * c[1] for v, c in arcs.items()) for i in range(R.zeta)]
    ends = []
    vertex = R.vertex_of()
    for v, c in arcs.items():
        ends.extend(list(arc_ends(R, v, c)) * c[1])
    distinct = len(set(ends)) == len(ends)
    A = T(total)
    ctx.equal(bool(A.has_distinct_endpoints()), distinct, f'has_distinct_endpoints of {total} on {R.triples}')
    ctx.equal(len(A.vertices()), len(set(ends)), 'vertices')
    ctx.nontrivial(not distinct)
    if distinct:
        h = A.encode_halftwist(power=case['power'])
        ctx.require(h(A) == A, 'the arcs are fixed')
        ctx.label('accepted')
    else:
        ctx.raises(ValueError, lambda: A.encode_halftwist(power=case['power']), f'half-twist about {total} on {R.triples}')
        ctx.label('refused')


def arc_ends(R, v, c):
    ''' The vertices at the two ends of an arc component. '''
    where = R.vertex_of()
    if c[2] == []:
        (e,) = [i for i, a in enumerate(v) if a]
        return where[e], where[~e]
    S = Strands(R, list(v))
    return tuple(where[corner] for corner, x, i in S.start)


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs([b for b in BASES if b not in ('0,3',)], max_flips=6), 'edges': st.tuples(gen.small_ints, gen.small_ints).map(list), 'drag': gen.moves_specs(min_size=0, max_size=3, power=4), 'power': st.integers(-20, 20)}), quick=250)
def relations(case, ctx):
    ''' Half-twists about disjoint arcs without common ends commute, about arcs sharing exactly one end braid. Non-trivial: arcs sharing one end. '''
    R = gen.build(case['tri'])
    v = R.vertex_of()
    options = [e for e in range(R.zeta) if v[e] != v[~e]]
    if not options:
        return
    e = gen.pick(options, case['edges'][0])
    d = gen.pick(options, case['edges'][1])
    T = gen.ctri(R)
    f = gen.mapping(T, case['drag'])
    A, B = f(T.edge_arc(e)), f(T.edge_arc(d))
    common = len({v[e], v[~e]} & {v[d], v[~d]})
    s, t = A.encode_halftwist(), B.encode_halftwist()
    ctx.label(f'{common} common ends' if e != d else 'same')
    k = case['power']
    if e == d:
        ctx.require(s == t, 'equal')
    elif common == 0:
        ctx.require(A.encode_halftwist(power=k) * t == t * A.encode_halftwist(power=k), 'disjoint half-twists commute')
        both = A + B
        ctx.require(both.encode_halftwist(power=k) == A.encode_halftwist(power=k) * B.encode_halftwist(power=k), 'half-twist about a multiarc')
    elif common == 1:
        ctx.nontrivial()
        ctx.require(s * t * s == t * s * t, 'braid relation')
        if len(R.triples) > 2:
            ctx.require(s * t != t * s, 'do not commute')
        C = (s * t)(A)
        ctx.equal(list(C), list(B), 'H_a H_b (a) = b')
    else:
        ctx.require(s != t or len(R.triples) == 2, 'different arcs')
