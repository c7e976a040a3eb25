''' P14: finite subgroups and their quotient orbifolds. '''
from math import gcd

from hypothesis import strategies as st

import curver
from ref import strand
from vf import gen, orbifold
from vf.core import Property

K = curver.kernel
PROP = Property('P14', ['Reference quotients come from Lefschetz numbers, puncture permutations and Riemann-Hurwitz; group closures from multiplying permutations of edge labels.',
                        'Groups: all groups generated by symmetries of symmetric or random triangulations (moved elsewhere by a mapping), and cyclic groups generated by standard words.'])


def compose(a, b):
    return tuple((x, dict(a)[y]) for x, y in b)


def isometry_group(case):
    ''' Return (triangulation of the isometries, generators as label permutations, mapping to elsewhere). '''
    R = gen.symmetric(case['tri'] % len(gen.SYMMETRIC)) if isinstance(case['tri'], int) else gen.build(case['tri'])
    T = gen.ctri(R)
    isoms = []
    for i in T.self_isometries():
        isoms.append(i)
        if len(isoms) == 60:
            break
    isoms.sort(key=lambda i: [i.label_map[x] for x in range(T.zeta)])
    chosen = []
    for k in case['gens']:
        chosen.append(gen.pick(isoms, k))  # Generators may be repeated.
    return T, chosen, gen.mapping(T, case['conj'])


def isoms_of(i):
    return tuple(sorted(i.label_map.items()))


def closure(T, chosen):
    gens = [tuple(sorted(i.label_map.items())) for i in chosen]
    seen, todo = set(gens), list(gens)
    while todo:
        x = todo.pop()
        for g in gens:
            y = compose(g, x)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


SIZES = [k for k, (n, _) in enumerate(gen.SYMMETRIC)]
tri_choice = st.one_of(st.sampled_from(SIZES[:9]), st.sampled_from(SIZES[:13]), st.sampled_from(SIZES[:15]), gen.tri_specs(['0,3', '1,1', '0,4', '1,2', '0,5'], max_flips=3))
group_case = {'tri': tri_choice, 'gens': st.lists(st.integers(0, 41), min_size=1, max_size=3), 'conj': gen.moves_specs(('flip', 'flip', 'relabel', 'twist', 'halftwist'), 0, 4, power=1)}


def make(case):
    T, chosen, f = isometry_group(case)
    inv = f.inverse()
    gens = {name: (f * i.encode() * inv).simplify() for name, i in zip('abc', chosen)}
    return T, chosen, f, gens, K.FiniteSubgroup.from_generators(gens)


@PROP.sub(st.fixed_dictionaries(group_case), quick=200)
def listing(case, ctx):
    ''' from_generators lists the group once, each element with a word that evaluates to it. Non-trivial: more elements than generators. '''
    T, chosen, f, gens, G = make(case)
    expected = closure(T, chosen)
    ctx.label(f'{len(expected)} elements')
    ctx.nontrivial(len(expected) > len(chosen))
    ctx.equal(len(G), len(expected), 'number of elements')
    inv = f.inverse()
    isoms = {}
    for word in G:
        x = None
        for letter in reversed(word):
            y = tuple(sorted(chosen['abc'.index(letter)].label_map.items()))
            x = y if x is None else compose(y, x)
        ctx.require(x not in isoms, 'repeated element', word=word, other=isoms.get(x))
        isoms[x] = word
        direct = f * K.create.isometry(T, T, dict(x)).encode() * inv if hasattr(K, 'create') else None
        if direct is not None and len(expected) <= 24:
            ctx.require(G[word] == direct, 'a word evaluates to its element', word=word)
            product = None
            for letter in word:
                product = gens[letter] if product is None else product * gens[letter]
            ctx.require(G[word] == product, 'a word is the product of its letters', word=word)
    ctx.equal(set(isoms), expected, 'elements')
    ctx.require(set(G.generators) <= set(gens) and {isoms_of(chosen['abc'.index(x)]) for x in G.generators} == {isoms_of(i) for i in chosen}, 'generators')
    ctx.label('repeated generators' if len(set(map(isoms_of, chosen))) < len(chosen) else 'distinct generators')
    ctx.require(G == K.FiniteSubgroup.from_generators(gens) and hash(G) == hash(K.FiniteSubgroup.from_generators(gens)), 'deterministic')
    ctx.require(all(G[word].order() > 0 for word in list(G)[:6]), 'elements are periodic')


def check_polygonalisation(ctx, G):
    m = G.invariant_polygonalisation()
    ctx.require(isinstance(m, K.MultiArc) and m.triangulation == G.triangulation, 'a multiarc')
    R = gen.rtri(G.triangulation)
    comps = strand.components(R, list(m))
    ctx.require(all(c[0] == 'arc' for c in comps.values()), 'made of arcs')
    for word in G:
        ctx.require(list(G[word](m)) == list(m), 'invariant', word=word)
    if sum(abs(x) for x in m) < 3000:
        types = strand.Complement(R, list(m)).types()
        ctx.require(all(t == (0, 1, 0) for t in types), 'cuts the surface into polygons', types=types)
    ctx.require(m.is_polygonalisation(), 'is_polygonalisation')


@PROP.sub(st.fixed_dictionaries(group_case), quick=150, budget=200)
def quotients(case, ctx):
    ''' Invariant polygonalisation and signature of groups of symmetries against Lefschetz numbers; invariance under conjugation. Non-trivial: at least two elements. '''
    T, chosen, f, gens, G = make(case)
    n = len(G)
    ctx.nontrivial(n > 1)
    abelian = all(a * b == b * a for a in gens.values() for b in gens.values())
    ctx.label(f'{n} elements', 'abelian' if abelian else 'not abelian')
    check_polygonalisation(ctx, G)
    signature = G.quotient_orbifold_signature()
    H = K.FiniteSubgroup.from_generators({name: i.encode() for name, i in zip('abc', chosen)})
    chi, genus, cones = orbifold.quotient_group([H[w] for w in H])
    ctx.equal(len(signature), 1, 'the quotient is connected')
    [o] = signature
    ctx.equal(o.euler_characteristic, chi, 'Euler characteristic')
    ctx.equal(o.preimages, 1, 'components')
    ctx.equal(sorted((c.punctured, c.order) for c in o.cone_points), cones, 'cone points')
    ctx.label(f'genus {genus}')
    check_cones(ctx, G, o, n)
    ctx.require(list(o.cone_points) == sorted(o.cone_points), 'sorted')
    ctx.equal(H.quotient_orbifold_signature(), signature, 'conjugate groups have equal signatures')
    ctx.require(G.is_conjugate_to(H) and H.is_conjugate_to(G), 'conjugate groups')


def check_cones(ctx, G, o, n):
    for c in o.cone_points:
        ctx.equal(c.preimages * c.order, n, 'preimages of a cone point')
        ctx.equal(len(c.holonomy), 1, 'holonomy of a connected surface is one element')
        ctx.equal(G[c.holonomy[0]].order(), c.order, 'the holonomy is a rotation of that order')
        if c.punctured:
            ctx.require(any(v == w for v, w in orbifold.puncture_map(G[c.holonomy[0]]).items()), 'the holonomy fixes a puncture')


@PROP.sub(st.fixed_dictionaries({'p': gen.periodic_specs(max_parts=2, multi=gen.TINY_PERIODIC, max_conj=3), 'k': st.integers(1, 13)}), quick=120, budget=200)
def cyclic(case, ctx):
    ''' Cyclic groups (also on disconnected surfaces): listing, polygonalisation, signature against Lefschetz numbers; holonomies add up to zero around the quotient and scale with the choice of generator. Non-trivial: order at least 3. '''
    f, n = gen.periodic_class(case['p'])
    f = f.simplify()
    T = f.source_triangulation
    ctx.nontrivial(n > 2)
    ctx.label(f'order {n}', f'{len(T.components())} components')
    G = f.subgroup()
    ctx.equal(len(G), n, 'number of elements')
    ctx.equal(sorted(G), list(range(n)), 'names')
    ctx.require(all(G[i] == f**i for i in range(n)), 'elements')
    check_polygonalisation(ctx, G)
    signature = G.quotient_orbifold_signature()
    got = sorted((o.preimages, o.euler_characteristic, sorted((c.punctured, c.order) for c in o.cone_points)) for o in signature)
    want = sorted((o['size'], o['chi'], o['cones']) for o in orbifold.quotient(f, n))
    ctx.equal(got, want, 'quotient orbifolds')
    connected = T.is_connected()
    for o in signature:
        kernel = {len(c.holonomy) for c in o.cone_points}
        ctx.equal(len(kernel), 1, 'the elements fixing a component pointwise')
        [kernel] = kernel
        for c in o.cone_points:
            ctx.equal(c.order * c.preimages * o.preimages * kernel, n, 'orbit-stabiliser')
        # The product of the loops around the cone points is a product of commutators.
        ctx.equal(sum(c.holonomy[0] for c in o.cone_points) % (n // kernel), 0, 'holonomies add up to zero')
        if connected:
            check_cones(ctx, G, o, n)
    k = case['k']
    if n > 1 and gcd(k, n) == 1:
        g = (f**k).simplify()
        s = g.subgroup().quotient_orbifold_signature()
        inverse = pow(k, -1, n)

        def change(o):
            return (o.euler_characteristic, o.preimages, sorted((c.punctured, c.order, sorted(h * inverse % n for h in c.holonomy), c.preimages) for c in o.cone_points))
        ctx.equal(sorted((o.euler_characteristic, o.preimages, sorted(tuple(c) for c in o.cone_points)) for o in s), sorted(change(o) for o in signature), 'changing the generator')
        ctx.label('another generator')
