''' P13: conjugacy of periodic mapping classes. '''
from hypothesis import strategies as st

import curver
from vf import gen, orbifold
from vf.core import Property

K = curver.kernel
PROP = Property('P13', ['Non-conjugacy is certified by invariants computed without quotient signatures (orders, permutations, traces, Lefschetz quotients) and by rotation numbers at punctures.'])


def invariants(f, n):
    ''' Conjugacy invariants that do not use the invariant polygonalisation. '''
    powers = []
    for k in range(1, n + 1):
        g = f**k
        perm = orbifold.puncture_map(g)
        M = g.homology_matrix()
        seen, cycles = set(), []
        for v in perm:
            if v not in seen:
                c = [v]
                seen.add(v)
                while perm[c[-1]] not in seen:
                    c.append(perm[c[-1]])
                    seen.add(c[-1])
                cycles.append(len(c))
        powers.append((sorted(cycles), sum(M[i][i] for i in range(M.shape[0]))))
    quotients = sorted((o['size'], o['order'], str(o['chi']), o['genus'], o['cones']) for o in orbifold.quotient(f, n))
    return n, powers, quotients


conj = gen.moves_specs(('flip', 'flip', 'relabel', 'twist', 'halftwist', 'multiflip', 'isometry'), 1, 4, power=1)


@PROP.sub(st.fixed_dictionaries({'p': gen.periodic_specs(max_parts=2, multi=gen.TINY_PERIODIC, max_conj=2), 'g': conj, 'h': gen.moves_specs(('flip', 'relabel', 'twist'), 0, 2, power=1)}), quick=100, budget=240)
def conjugates(case, ctx):
    ''' A periodic class is conjugate to itself and to each of its conjugates, on whichever triangulation. Non-trivial: order at least 2, or a disconnected surface. '''
    f, n = gen.periodic_class(case['p'])
    T = f.source_triangulation
    ctx.label(f'order {n}', f'{len(T.components())} components')
    ctx.nontrivial(n > 1 or len(T.components()) > 1)
    g = gen.mapping(T, case['g'])
    a = (g * f * g.inverse()).simplify()
    h = gen.mapping(T, case['h'])
    b = (h * f * h.inverse()).simplify()
    ctx.require(f.is_conjugate_to(f), 'reflexive')
    ctx.require(f.is_conjugate_to(a) and a.is_conjugate_to(f), 'conjugate')
    ctx.require(a.is_conjugate_to(b) and b.is_conjugate_to(a), 'conjugates of the same class')
    ctx.require((f**3).simplify().is_conjugate_to((b**3).simplify()), 'powers of conjugates')
    ctx.require(f.subgroup().is_conjugate_to(a.subgroup()), 'subgroups')
    ctx.require(f.conjugate_by(g.inverse() if g.source_triangulation == g.target_triangulation else T.id_encoding()).is_conjugate_to(f), 'conjugate_by')


@PROP.sub(st.fixed_dictionaries({'p': gen.periodic_specs(max_parts=2, multi=gen.TINY_PERIODIC, max_conj=3), 'q': st.tuples(gen.small_ints, gen.small_ints).map(list), 'k': st.integers(-7, 7), 'same': st.integers(0, 3), 'g': gen.moves_specs(('flip', 'relabel'), 0, 3)}), quick=100, budget=240)
def pairs(case, ctx):
    ''' Two classes on one surface (of which one is a power of another periodic class): reported conjugate only if all invariants agree; symmetric; transitive with a conjugate. Non-trivial: some invariant that is not just the order separates them, or they are conjugate. '''
    f, n = gen.periodic_class(case['p'])
    T = f.source_triangulation
    part = case['p']['parts'][0]
    gn = gen.PERIODIC[part[0]][0]
    if len(case['p']['parts']) > 1 or case['same'] == 0:
        g = f**case['k']
        m = next(m for m in range(1, n + 1) if (case['k'] * m) % n == 0)
    else:
        options = [i for i, p in enumerate(gen.PERIODIC) if p[0] == gn]
        i = gen.pick(options, case['q'][0])
        g, m = gen.periodic_class({'parts': [[i, case['k']]], 'conj': case['g']})
    h = gen.mapping(g.source_triangulation, case['g'])
    f, g = f.simplify(), (h * g * h.inverse()).simplify()
    a, b = invariants(f, n), invariants(g, m)
    answer = f.is_conjugate_to(g)
    ctx.label('conjugate' if answer else 'separated by order' if n != m else 'separated by the rest' if a != b else 'not separated')
    ctx.nontrivial(answer or n == m)
    ctx.equal(type(answer), bool, 'an answer')
    ctx.equal(g.is_conjugate_to(f), answer, 'symmetric')
    if answer:
        ctx.equal(a, b, 'conjugate classes have equal invariants')
    c = (f.inverse() if case['same'] == 1 else f**5).simplify()
    if f.is_conjugate_to(c):
        ctx.equal(c.is_conjugate_to(g), answer, 'transitive')
    if case['same'] == 2:
        ctx.equal(f.inverse().simplify().is_conjugate_to(g.inverse().simplify()), answer, 'inverses')
    if answer and case['same'] == 3:
        ctx.require((f**3).simplify().is_conjugate_to((g**3).simplify()), 'powers')


ONCE = [i for i, p in enumerate(gen.PERIODIC) if p[0] in [(1, 1), (2, 1), (3, 1)]]
SPHERE = [i for i, p in enumerate(gen.PERIODIC) if p[0][0] == 0 and p[0][1] > 2]


@PROP.sub(st.fixed_dictionaries({'i': st.sampled_from(ONCE[:5] + SPHERE + ONCE[:5]), 'j': st.integers(1, 13), 'k': st.integers(1, 13), 'g': gen.moves_specs(('flip', 'relabel', 'twist', 'halftwist'), 0, 3, power=1)}), quick=100, budget=240)
def rotations(case, ctx):
    ''' Powers of a class that fixes a unique puncture are never conjugate (the angle of rotation there differs); powers f^j and f^k of a rotation of the sphere fixing one puncture neither, and those of one fixing none or two exactly if j = k or j = -k. Non-trivial: powers of the same order that are different. '''
    gn, word, n = gen.PERIODIC[case['i']]
    f, _ = gen.periodic_class({'parts': [[case['i'], 1]], 'conj': case['g']})
    j, k = case['j'] % n, case['k'] % n
    a, _ = gen.periodic_class({'parts': [[case['i'], 1]], 'conj': []})
    fixed = sum(1 for v, w in orbifold.puncture_map(f).items() if v == w)
    expected = j == k or (gn[0] == 0 and fixed in (0, 2) and (j + k) % n == 0)
    ctx.label(f'{gn} {"conjugate" if expected else "not conjugate"}')
    ctx.nontrivial(j != k and __import__('math').gcd(j, n) == __import__('math').gcd(k, n))
    b, c = (f**j).simplify(), (a**k).simplify()
    ctx.equal(b.is_conjugate_to(c), expected, f'powers {j} and {k} of {word} on {gn}')
    ctx.equal(c.is_conjugate_to(b), expected, 'symmetric')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.SMALL, max_flips=2), 'f': gen.class_specs(3, 2, min_size=1), 'g': gen.class_specs(2, 1, min_size=1), 'p': st.integers(0, 20)}), quick=150)
def refusals(case, ctx):
    ''' Infinite order against infinite order is refused unless the punctures already tell them apart; infinite against finite order is not conjugate; different surfaces are not. Non-trivial: infinite order. '''
    T = gen.ctri(gen.build(case['tri']))
    f, g = gen.mapping_class(T, case['f']), gen.mapping_class(T, case['g'])
    infinite = [x for x in (f, g) if not x.is_periodic()]
    ctx.nontrivial(bool(infinite))
    ctx.label(f'{len(infinite)} of infinite order')
    if infinite:
        x = infinite[0]
        e = T.id_encoding()
        ctx.require(not x.is_conjugate_to(e) and not e.is_conjugate_to(x), 'finite and infinite order')
        c = g * x * g.inverse()
        ctx.raises(ValueError, lambda: x.is_conjugate_to(c), 'both of infinite order')
    if len(infinite) == 2:
        try:
            answer = f.is_conjugate_to(g)
        except ValueError:
            answer = None
        ctx.require(not answer, 'guessed')
        if answer is False:
            ctx.require(not f.vertex_permutation().is_conjugate_to(g.vertex_permutation()), 'guessed')
    elif len(infinite) == 1:
        ctx.require(not f.is_conjugate_to(g) and not g.is_conjugate_to(f), 'finite and infinite order')
    gn, _, _ = gen.PERIODIC[case['p'] % len(gen.PERIODIC)]
    other, _ = gen.periodic_class({'parts': [[case['p'] % len(gen.PERIODIC), 1]], 'conj': []})
    [s] = T.surface().values()
    if gn != (s.g, s.p):
        ctx.require(not other.is_conjugate_to(f) and not f.is_conjugate_to(other), 'different surfaces')


TORI = [(2, 1), (3, 1), (4, 1), (4, 2), (2, 0), (3, 0), (5, 2), (5, 1), (6, 1), (7, 2), (6, 2), (8, 3)]


@PROP.sub(st.fixed_dictionaries({'a': st.integers(0, len(TORI) - 1), 'b': st.integers(0, len(TORI) - 1), 'i': st.integers(0, 11), 'j': st.integers(0, 11), 'g': gen.moves_specs(('flip', 'relabel', 'twist', 'halftwist'), 0, 2, power=1)}), quick=60, budget=200)
def translations(case, ctx):
    ''' Translations of tori that permute the punctures freely: two of them are conjugate exactly when they have the same order and there are as many punctures (SL(2, Z) acts transitively on the epimorphisms
    of Z^2 onto a cyclic group, and when there are several orbits of punctures the covering is that of the torus with them filled in). Non-trivial: different translations of the same order. '''
    (v, k), (w, l) = TORI[case['a']], TORI[case['b']]
    if case['j'] % 3:
        w, l = next(t for t in TORI[case['b']:] + TORI if t[0] == v)
    maps = []
    for (x, y), z in (((v, k), case['i']), ((w, l), case['j'])):
        T = gen.ctri(gen.torus_grid(x, y))
        shift = {e: e // x * x + (e % x + z) % x for e in range(3 * x)}
        maps.append((T.find_isometry(T, shift).encode(), x // __import__('math').gcd(x, z)))
    (f, m), (h, n) = maps
    g = gen.mapping(h.source_triangulation, case['g'])
    h = (g * h * g.inverse()).simplify()
    expected = v == w and m == n
    ctx.label(f'order {m}' if expected else 'not conjugate')
    ctx.nontrivial(expected and m > 1)
    ctx.equal(f.order(), m, 'order')
    ctx.equal(f.is_conjugate_to(h), expected, f'translation by {case["i"]} of {(v, k)} and a conjugate of translation by {case["j"]} of {(w, l)}')
    ctx.equal(h.is_conjugate_to(f), expected, 'symmetric')
