''' P12: order, identity, periodicity, Torelli, puncture permutation and type of mapping classes. '''
from itertools import islice
from math import gcd

from hypothesis import strategies as st

import curver
from ref import homology
from vf import gen, orbifold
from vf.core import Property

K = curver.kernel
PROP = Property('P12', ['The action of mappings on arcs and homology is decided by P02, P06, P07 and P09; the order oracle only uses these actions.',
                        'Brute-force orders search up to an own bound (Landau-style lcm over the components), not up to the advertised one.'])


def lcm(a, b):
    return a * b // gcd(a, b)


def own_bound(T):
    ''' No periodic mapping class has greater order: cycles of components, with first returns of order at most max_order of the component. '''
    out = 1
    comps = list(T.surface().values())
    for s in comps:
        out *= 4 * s.g + 2 if s.g > 1 else max(6, s.p) if s.g == 1 else s.p
    n = len(comps)
    landau = {1: 1, 2: 2, 3: 3, 4: 4, 5: 6, 6: 6}[n]
    return out * landau


def brute_order(f, bound):
    ''' The least power acting trivially on all edges and their homology classes, 0 if there is none up to the bound. '''
    T = f.source_triangulation
    arcs, homs = [list(a) for a in T.edge_arcs()], T.edge_homologies()
    L = T.as_lamination()
    h = homs
    for k in range(1, bound + 1):
        L = f(L)
        if list(L) == list(T.as_lamination()):
            # The edges are permuted: look at each of them.
            g = f**k
            if all(list(g(a)) == w for a, w in zip(T.edge_arcs(), arcs)) and all(g(x) == x for x in homs):
                return k
        elif max(abs(x) for x in L) > 10**60:
            return 0
    return 0


def torelli(f):
    return all(f(h) == h for h in f.source_triangulation.edge_homologies())


def check_perm(ctx, f):
    ''' vertex_map and vertex_permutation against peripheral curves and the boundary map of homology. '''
    T = f.source_triangulation
    R = gen.rtri(T)
    vm = f.vertex_map()
    ctx.equal(set(vm), set(T.vertices), 'vertex_map is defined on all vertices')
    ctx.equal(set(vm.values()), set(T.vertices), 'vertex_map is onto')
    number = {v: R.vertex_of()[v[0].label] for v in T.vertices}
    back = {n: v for v, n in number.items()}
    for hc in T.edge_homologies():
        before, after = homology.boundary(R, list(hc)), homology.boundary(R, list(f(hc)))
        moved = {}
        for p, k in before.items():
            q = number[vm[back[p]]]
            moved[q] = moved.get(q, 0) + k
        ctx.equal(after, {q: k for q, k in moved.items() if k}, 'vertex_map moves the ends of edges')
    perm = f.vertex_permutation()
    order = sorted(T.vertices)
    ctx.equal([order[perm(i)] for i in range(len(order))], [vm[v] for v in order], 'vertex_permutation')


@PROP.sub(st.fixed_dictionaries({'p': gen.periodic_specs(), 'k': st.integers(-6, 6), 'conj': gen.moves_specs(('flip', 'relabel', 'twist'), 0, 2, power=1)}), quick=260)
def known_orders(case, ctx):
    ''' Periodic classes of known order, their powers and conjugates, also on disconnected surfaces. Non-trivial: order at least 3, or a disconnected surface. '''
    f, n = gen.periodic_class(case['p'])
    T = f.source_triangulation
    ctx.label(f'order {n}', f'{len(T.components())} components')
    ctx.nontrivial(n > 2 or len(T.components()) > 1)
    ctx.equal(f.order(), n, 'order')
    ctx.require(T.max_order() >= n, 'max_order', max_order=T.max_order(), order=n)
    ctx.require(f.is_periodic() and f.is_identity() == (n == 1), 'periodic')
    ctx.require((f**n).is_identity() and f**n == T.id_encoding(), 'power of the order')
    ctx.equal(f.nielsen_thurston_type(), 'Periodic', 'type')
    ctx.require(not f.is_pseudo_anosov(), 'not pseudo-Anosov')
    k = case['k']
    g = f**k
    ctx.equal(g.order(), n // gcd(n, k), 'order of a power')
    ctx.equal(f.inverse().order(), n, 'order of the inverse')
    h = gen.mapping(T, case['conj'])
    c = h * f * h.inverse()
    ctx.equal(c.order(), n, 'order of a conjugate')
    ctx.equal(c.is_in_torelli(), f.is_in_torelli(), 'Torelli of a conjugate')
    ctx.equal(bool(f.is_in_torelli()), torelli(f), 'Torelli')
    ctx.equal(f.is_in_torelli(), n == 1, 'periodic classes act faithfully on relative homology')
    check_perm(ctx, f)
    p, q = f.vertex_permutation(), c.vertex_permutation()
    ctx.require(p.is_conjugate_to(q), 'permutations of conjugates')
    ctx.equal(n % p.order(), 0, 'the order of the permutation divides the order')
    if n <= 12:
        ctx.equal(brute_order(c, n), n, 'brute force')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.MEDIUM + ['0,3'], max_flips=2, disconnected=True), 'f': gen.class_specs(4, 2), 'g': gen.class_specs(2, 1), 'k': st.integers(-3, 3)}), quick=260)
def any_class(case, ctx):
    ''' Arbitrary mapping classes against brute force; puncture permutations and Torelli under composition. Non-trivial: the class is not the identity. '''
    T = gen.ctri(gen.build(case['tri']))
    f, g = gen.mapping_class(T, case['f']), gen.mapping_class(T, case['g'])
    n = brute_order(f, own_bound(T))
    ctx.label('identity' if n == 1 else f'order {n}' if n else 'infinite order')
    ctx.nontrivial(n != 1)
    ctx.equal(f.order(), n, 'order')
    ctx.require(f.is_identity() == (n == 1) and f.is_periodic() == (n > 0) and (f == T.id_encoding()) == (n == 1), 'identity and periodic')
    ctx.equal(bool(f.is_in_torelli()), torelli(f), 'Torelli')
    c = g * f * g.inverse()
    ctx.equal(c.order(), n, 'order of a conjugate')
    ctx.equal(bool(c.is_in_torelli()), torelli(f), 'Torelli is normal')
    ctx.equal(f.inverse().order(), n, 'order of the inverse')
    ctx.equal((f**case['k']).order(), n // gcd(n, case['k']) if n else (1 if case['k'] == 0 else 0), 'order of a power')
    check_perm(ctx, f)
    vf_, vg, vh = f.vertex_map(), g.vertex_map(), (g * f).vertex_map()
    ctx.equal(vh, {v: vg[w] for v, w in vf_.items()}, 'vertex_map of a product')
    ctx.equal(list((g * f).vertex_permutation()), list(g.vertex_permutation() * f.vertex_permutation()), 'vertex_permutation of a product')
    ctx.equal(list(f.inverse().vertex_permutation()), list(f.vertex_permutation().inverse()), 'vertex_permutation of the inverse')
    if n:
        ctx.equal(f.nielsen_thurston_type(), 'Periodic', 'type')
        ctx.require(not f.is_pseudo_anosov(), 'not pseudo-Anosov')
        ctx.require(T.max_order() >= n, 'max_order')


@PROP.sub(st.fixed_dictionaries({'p': gen.periodic_specs(max_parts=3, multi=gen.TINY_PERIODIC, max_conj=3), 'e': gen.small_ints}), quick=150)
def reducibility(case, ctx):
    ''' is_reducible of periodic classes against quotient orbifolds computed from Lefschetz numbers, and against invariant multicurves found by search. Non-trivial: order at least 2. '''
    f, n = gen.periodic_class(case['p'])
    T = f.source_triangulation
    quotients = orbifold.quotient(f, n)
    expected = not all(o['genus'] == 0 and len(o['cones']) == 3 for o in quotients)
    ctx.label('reducible' if expected else 'irreducible')
    ctx.nontrivial(n > 1)
    ctx.equal(bool(f.is_reducible()), expected, 'reducible')
    # A curve whose images are all disjoint reduces.
    for c in {gen.pick(T.edge_curves(), case['e'])}:
        if c.is_peripheral():
            continue
        images = {c}
        d = f(c)
        while d not in images:
            images.add(d)
            d = f(d)
        if all(a.intersection(b) == 0 for a in images for b in images):
            ctx.label('reducing curve seen')
            ctx.require(f.is_reducible(), 'there is a reducing multicurve', curve=list(c))


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.CONNECTED, max_flips=3, glued=True, disconnected=True)}), quick=150)
def advertised(case, ctx):
    ''' max_order is at least the order of every symmetry, and the symmetries have the orders found by composing them. Non-trivial: a symmetry other than the identity. '''
    T = gen.ctri(gen.build(case['tri']))
    isoms = list(islice(T.self_isometries(), 24))
    ctx.nontrivial(len(isoms) > 1)
    for i in isoms:
        m = i.label_map
        x, n = dict(m), 1
        while any(a != b for a, b in x.items()):
            x, n = {a: m[b] for a, b in x.items()}, n + 1
        ctx.label(f'order {n}')
        ctx.equal(i.encode().order(), n, 'order of a symmetry')
        ctx.require(T.max_order() >= n, 'max_order')


@PROP.sub(st.fixed_dictionaries({'sym': st.integers(0, len(gen.SYMMETRIC) + 3), 'i': st.integers(0, 60), 'k': st.integers(-3, 12), 'g': gen.moves_specs(('flip', 'relabel', 'twist', 'halftwist'), 0, 3, power=1)}), quick=200)
def symmetries(case, ctx):
    ''' Symmetries of very symmetric triangulations (translations of tori with up to eleven punctures, rotations of bipyramids and fans), their powers and conjugates: the orders are those of the
    label maps composed by hand. Non-trivial: order at least three. '''
    extra = case['sym'] - len(gen.SYMMETRIC)
    R = gen.symmetric(case['sym']) if extra < 0 else gen.torus_grid(*[(8, 3), (9, 2), (11, 3), (10, 3)][extra])
    T = gen.ctri(R)
    isoms = sorted(T.self_isometries(), key=lambda i: sorted(i.label_map.items()))
    i = gen.pick(isoms, case['i'])
    m = i.label_map
    x, n = dict(m), 1
    while any(a != b for a, b in x.items()):
        x, n = {a: m[b] for a, b in x.items()}, n + 1
    ctx.label(f'order {n}')
    ctx.nontrivial(n > 2)
    f = i.encode()
    g = gen.mapping(T, case['g'])
    c = g * f * g.inverse()
    k = case['k']
    ctx.equal(f.order(), n, f'order of the symmetry {m} of {R.triples}')
    ctx.equal(c.order(), n, f'order of a conjugate of the symmetry {m} of {R.triples}')
    ctx.equal((c**k).order(), n // gcd(n, k), f'order of the power {k} of a conjugate of the symmetry {m} of {R.triples}')
    ctx.require(f.is_periodic() and f.nielsen_thurston_type() == 'Periodic' and c.is_identity() == (n == 1), 'periodic')
    ctx.require(T.max_order() >= n, 'max_order')
    check_perm(ctx, c)
