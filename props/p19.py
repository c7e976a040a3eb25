''' P19: standard generating sets live on the requested surface and satisfy its relations. '''
from hypothesis import strategies as st

import curver
from ref.inter import intersection
from ref.strand import components, is_peripheral_word
from vf import gen
from vf.core import Property

K = curver.kernel
PROP = Property('P19', ['The intersection pattern of the Lickorish generators is the one of Figures 4.5 and 4.10 of Farb-Margalit with p_i parallel to a_{g-1} and s_0 closing the cycle of half-twists; the twister pattern is its renaming.',
                        'Surfaces up to genus 7 and with up to 9 punctures are loaded.'])
_loaded = {}


def load(g, n):
    if (g, n) not in _loaded:
        if len(_loaded) > 40:
            _loaded.clear()
        _loaded[(g, n)] = curver.load(g, n)
    return _loaded[(g, n)]


def pattern(g, n):
    ''' (curves, arcs, {pairs that meet once}). '''
    meet = set()

    def add(x, y):
        meet.add(frozenset((x, y)))
    if g == 0:
        arcs = [f's_{i}' for i in range(n)]
        return [], arcs, meet
    curves = [f'a_{i}' for i in range(g)] + [f'b_{i}' for i in range(g)] + [f'c_{i}' for i in range(g - 1)] + [f'd_{i}' for i in range(1, g)] + [f'p_{i}' for i in range(1, n)]
    arcs = [f's_{i}' for i in range(n)] if n > 1 else []
    for i in range(g):
        add(f'a_{i}', f'b_{i}')
    for i in range(g - 1):
        add(f'b_{i}', f'c_{i}')
        add(f'b_{i + 1}', f'c_{i}')
    for i in range(1, g):
        add(f'b_{i}', f'd_{i}')
    for i in range(1, n):
        add(f'b_{g - 1}', f'p_{i}')
        add(f's_{i}', f'p_{i}')
    if n > 1:
        add('s_0', f'a_{g - 1}')
        if g > 1:
            add('s_0', f'c_{g - 2}')
            add('s_0', f'd_{g - 1}')
    return curves, arcs, meet


OLD = {  # name: (g, n, curves, arcs, pairs that meet once, pairs of half-twists that share one end)
    'S_0_4': (0, 4, '', 'abcd', ''),
    'S_1_1': (1, 1, 'ab', '', 'ab'),
    'S_1_2': (1, 2, 'abc', 'x', 'ab bc cx'),
    'S_1_2p': (1, 2, 'abc', '', 'ab bc'),
    'S_2_1': (2, 1, 'abcdef', '', 'ab bc cd ce af'),
    'S_3_1': (3, 1, 'abcdefgh', '', 'ab bc cd de ef eg ch'),
    'S_4_1': (4, 1, 'abcdefghij', '', 'ab bc cd de ef fg gh gi ej'),
    'S_5_1': (5, 1, 'abcdefghijkl', '', 'ab bc cd de ef fg gh hi ij ik gl'),
}


def check_surface(ctx, S, g, n):
    T = S.triangulation
    R = gen.rtri(T)
    chi = 2 - 2 * g - n
    ctx.require(len(R.components()) == 1 and len(R.vertices()) == n and R.zeta == -3 * chi, 'a connected surface of genus g with n punctures', g=g, n=n)
    (s,) = T.surface().values()
    ctx.equal((s.g, s.p, T.is_connected(), S.zeta), (g, n, True, R.zeta), 'reported surface')
    return R


def check_generators(ctx, S, R, curves, arcs, meet, cyclic):
    T = S.triangulation
    ctx.equal(sorted(S.curves), sorted(curves), 'names of the curves')
    ctx.equal(sorted(S.arcs), sorted(arcs), 'names of the arcs')
    ctx.equal(set(S), {x for y in curves + arcs for x in (y, y.swapcase())}, 'names of the generators')
    w, ends = {}, {}
    v = R.vertex_of()
    for x in curves:
        w[x] = list(S.curves[x])
        ctx.require(type(S.curves[x]) is K.Curve and S.curves[x].triangulation == T, 'curve')
        ((_, c),) = components(R, w[x]).items()
        ctx.require(c[0] == 'curve' and c[1] == 1 and not is_peripheral_word(R, c[2]), 'an essential curve', x=x)
    for x in arcs:
        w[x] = list(S.arcs[x])
        ctx.require(type(S.arcs[x]) is K.Arc and S.arcs[x].triangulation == T, 'arc')
        ctx.require(sorted(w[x]) == [-1] + [0] * (R.zeta - 1), 'an edge')
        e = w[x].index(-1)
        ends[x] = frozenset((v[e], v[~e]))
        ctx.require(len(ends[x]) == 2, 'arcs connect different punctures', x=x)
    names = curves + arcs
    for i, x in enumerate(names):
        for y in names[i + 1:]:
            k = intersection(R, w[x], w[y])
            ctx.equal(k, 1 if frozenset((x, y)) in meet else 0, f'intersection of {x} and {y} on {R.sig()}')
    if cyclic and len(arcs) > 1:
        n = len(arcs)
        ctx.equal(len(set().union(*ends.values())), n, 'the arcs meet every puncture')
        for i in range(n):
            for j in range(i + 1, n):
                shared = len(ends[arcs[i]] & ends[arcs[j]])
                ctx.equal(shared, 2 if n == 2 else 1 if j - i in (1, n - 1) else 0, f'common ends of {arcs[i]} and {arcs[j]}')
    ctx.equal(len({tuple(a) for a in w.values()}), len(w), 'no repetition')
    return ends


pairs = st.tuples(st.one_of(st.integers(0, 4), st.integers(0, 7)), st.one_of(st.integers(0, 4), st.integers(0, 9))).map(list)


@PROP.sub(pairs, quick=60, thorough=400, budget=200)
def standard(case, ctx):
    ''' curver.load(g, n) for genus up to 7 and up to 9 punctures: surface, names, intersection pattern and ends of arcs, or refusal. Non-trivial: a surface of genus at least 2 with several punctures. '''
    g, n = case
    if 2 - 2 * g - n >= 0 or n < 1:
        ctx.label('refused')
        ctx.raises(ValueError, lambda: curver.load(g, n), 'no triangulation')
        return
    ctx.nontrivial(g > 1 and n > 1)
    S = curver.load(g, n)
    R = check_surface(ctx, S, g, n)
    check_generators(ctx, S, R, *pattern(g, n), cyclic=True)
    for x in S.curves:
        ctx.require(S[x] == S.curves[x].encode_twist() and S[x.swapcase()] == S.curves[x].encode_twist(power=-1), 'the generator of a curve is its twist', x=x)
    for x in S.arcs:
        ctx.require(S[x] == S.arcs[x].encode_halftwist() and S[x.swapcase()] == S.arcs[x].encode_halftwist(power=-1), 'the generator of an arc is its half-twist', x=x)
    ctx.require(S == curver.load(g, n), 'loading again')


@PROP.sub(st.fixed_dictionaries({'g': st.integers(0, 5), 'n': st.integers(1, 6), 'which': st.integers(0, 6), 'x': st.integers(0, 40), 'y': st.integers(0, 40), 'j': st.integers(-5, 5), 'k': st.integers(-5, 5)}), quick=300, thorough=4000, budget=120)
def relations(case, ctx):
    ''' Instances of commutation, braid, chain, lantern, star and rotation relations in the standard groups. Non-trivial: always. '''
    g, n = case['g'], case['n']
    if 2 - 2 * g - n >= 0:
        g, n = [(0, 4), (1, 2), (0, 5), (2, 2)][case['x'] % 4]
    S = load(g, n)
    curves, arcs, meet = pattern(g, n)
    x, y, j, k = case['x'], case['y'], case['j'], case['k']
    which = case['which'] if g else [0, 1, 4, 5, 6][case['which'] % 5]
    ctx.nontrivial()
    ctx.label(['commute', 'braid', 'even chain', 'odd chain', 'half-twists', 'full turns', 'symmetric group'][which])

    def same(a, b):
        ctx.require(S(a) == S(b), 'relation', g=g, n=n, left=a, right=b)
    braids = lambda a, b: (frozenset((a, b)) in meet and a in curves and b in curves) or (a in arcs and b in arcs and n > 2 and (arcs.index(a) - arcs.index(b)) % n in (1, n - 1))  # noqa: E731
    disjoint = lambda a, b: frozenset((a, b)) not in meet and not (a in arcs and b in arcs and (n == 2 or (arcs.index(a) - arcs.index(b)) % n in (1, n - 1)))  # noqa: E731
    every = curves + arcs
    chain = [z for i in range(g) for z in ([f'c_{i - 1}'] if i else ['a_0']) + [f'b_{i}']]  # Of length 2g.
    dots = '.'.join
    if which == 0:
        options = [(a, b) for i, a in enumerate(every) for b in every[i:] if a == b or disjoint(a, b)]
        a, b = options[x % len(options)]
        same(f'({a})^{j}.({b})^{k}', f'({b})^{k}.({a})^{j}')
    elif which == 1:
        options = [(a, b) for a in every for b in every if braids(a, b)]
        if options:
            a, b = options[x % len(options)]
            same(f'{a}.{b}.{a}', f'{b}.{a}.{b}')
            same(f'({a}.{b})({a})^{k}', f'({b})^{k}({a}.{b})')
    elif which == 2:
        m = 1 + x % g
        part = chain[:2 * m]
        if m == g:
            same(f'({dots(part)})^{4 * g + 2}', f'({dots(arcs[1:])})^{n}' if n > 1 else '')
            if n > 1 and len(arcs) > 2:
                same(f'({dots(part)})^{4 * g + 2}.({dots(arcs[1:])})', f'({dots(arcs[1:])})^{n + 1}')
        else:  # The boundary of a neighbourhood of the chain.
            h = S(f'({dots(part)})^{4 * m + 2}')
            f = h.extract_twisting_multicurve()
            ctx.require(type(f) is K.Curve and h == f.encode_twist() and all(f.intersection(S.curves[c]) == 0 for c in part), 'an even chain turns about one curve')
    elif which == 3:
        p = [f'p_{i}' for i in range(1, n)]
        if g > 1 and x % 2 == 0:
            i = 1 + (x // 2) % (g - 1)
            same(f'({dots(chain[:2 * i + 1])})^{2 * i + 2}', f'a_{i}.d_{i}')
        elif p and x % 3:
            i = 1 + x % (n - 1)
            lo, hi = arcs[1:i], arcs[i + 1:]
            same(f'({dots(chain + [p[i - 1]])})^{2 * g + 2}', (f'({dots(lo)})^{i}' if lo else '') + (f'({dots(hi)})^{n - i}' if hi else ''))
        elif g > 1:
            same(f'({dots(chain + [f"a_{g - 1}"])})^{2 * g + 2}', f'({dots(arcs[1:])})^{n}' if n > 1 else '')
        else:
            same('(a_0.b_0.a_0)^4', f'({dots(arcs[1:])})^{n}' if n > 1 else '')
    elif which == 4 and n > 2:  # A path of half-twists turns about the boundary of its neighbourhood.
        if g == 0 and x % 3 == 0:
            same(f'({dots(arcs[:n - 1])})^{n}', '')
            same(dots(arcs[:n - 1] + arcs[:n - 1][::-1]), '')
        else:
            start, length = x % n, 1 + y % (n - 2)
            path = [arcs[(start + i) % n] for i in range(length)]
            b = S.triangulation.sum([S.arcs[a] for a in path]).boundary()
            ctx.require(S(f'({dots(path)})^{length + 1}') == b.encode_twist(), 'a path of half-twists', path=path)
            if length > 1:  # Lantern relation, for the curves around two of three consecutive punctures.
                a1, a2 = path[:2]
                around = S.triangulation.sum([S.arcs[a1], S.arcs[a2]]).boundary()
                third = S(a1)(S.arcs[a2])
                ctx.require(S.arcs[a1].boundary().encode_twist() * third.boundary().encode_twist() * S.arcs[a2].boundary().encode_twist() == around.encode_twist()
                            or S.arcs[a1].boundary().encode_twist() * S.arcs[a2].boundary().encode_twist() * third.boundary().encode_twist() == around.encode_twist(), 'lantern')
    elif which == 5 and n > 2 and g == 0:
        order = S(dots(arcs[:n - 1])).order()
        ctx.equal(order, n, 'rotation')
        ctx.equal(S(dots(arcs[:n - 2])).order(), n - 1, 'rotation about a puncture')
        ctx.equal(S(dots([arcs[0]] + arcs[:n - 2])).order(), max(2, n - 2), 'rotation about two punctures') if n > 3 else None
    elif which == 5 and g:
        if n == 1:
            ctx.equal(S(dots(chain)).order(), 4 * g + 2, 'rotation')
            if g <= 3:
                ctx.equal(S(dots(['a_0'] + chain)).order(), 4 * g, 'rotation')
        elif n == 2:
            ctx.equal(S(dots(chain + ['p_1'])).order(), 2 * g + 2, 'rotation')
        else:
            ctx.equal(S(dots(chain)).order(), 0, 'a chain that does not fill')
    elif which == 6 and arcs:
        R = gen.rtri(S.triangulation)
        v = R.vertex_of()
        perms = []
        for a in arcs:
            e = list(S.arcs[a]).index(-1)
            perm = S[a].vertex_map()
            moved = {v[V[0].label] for V, W in perm.items() if V != W}
            ctx.equal(moved, {v[e], v[~e]}, 'a half-twist exchanges its ends')
            perms.append(sorted((v[V[0].label], v[W[0].label]) for V, W in perm.items()))
        if n <= 5:
            maps = [dict(p) for p in perms]
            todo, seen = [tuple(range(n))], {tuple(range(n))}
            keys = sorted(maps[0])
            while todo:
                p = todo.pop()
                for m in maps:
                    q = tuple(keys.index(m[keys[i]]) for i in p)
                    if q not in seen:
                        seen.add(q)
                        todo.append(q)
            size = 1
            for i in range(n):
                size *= i + 1
            ctx.equal(len(seen), size, 'the half-twists generate the symmetric group')
        for c in curves:
            ctx.require(all(V == W for V, W in S[c].vertex_map().items()), 'twists fix the punctures')


olds = sorted(OLD)
bad = st.one_of(st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list), st.sampled_from(['S_9_9', '', 'S_1_3', 'SB_', 'SB_x', 's_1_1', 'S_0_3', 'S11', 'SB', 'S_1_1x', 'xSB_4', 'S_6_1']).map(lambda s: [s]), st.just([]), st.lists(st.integers(1, 3), min_size=3, max_size=4))


@PROP.sub(st.one_of(st.sampled_from(olds).map(lambda s: [s]), st.integers(3, 12).map(lambda n: [f'SB_{n}']), bad, bad), quick=90, thorough=300)
def old(case, ctx):
    ''' Flipper-style names and things that cannot be loaded. Non-trivial: a name that can. '''
    if len(case) == 1 and case[0] in OLD:
        ctx.nontrivial()
        g, n, curves, arcs, pairs_ = OLD[case[0]]
        S = curver.load(case[0])
        R = check_surface(ctx, S, g, n)
        meet = {frozenset(p) for p in pairs_.split()}
        check_generators(ctx, S, R, list(curves), list(arcs), meet, cyclic=case[0] == 'S_0_4')
        every = curves
        for i, a in enumerate(every):
            for b in every[i + 1:]:
                if frozenset((a, b)) in meet:
                    ctx.require(S(a + b + a) == S(b + a + b) and S(a + b) != S(b + a), 'braid relation')
                else:
                    ctx.require(S(a + b) == S(b + a), 'commutation')
    elif len(case) == 1 and case[0].startswith('SB_') and case[0][3:].isdigit():
        ctx.nontrivial()
        n = int(case[0][3:])
        S = curver.load(case[0])
        R = check_surface(ctx, S, 0, n)
        check_generators(ctx, S, R, *pattern(0, n), cyclic=True)
        ctx.require(S == curver.load(0, n), 'sphere braid group')
    elif len(case) == 2 and 2 - 2 * case[0] - case[1] < 0 and case[1] > 0 and case[0] >= 0:
        check_surface(ctx, curver.load(*case), *case)
    else:
        ctx.label('refused')
        ctx.raises(ValueError, lambda: curver.load(*case), 'unknown surface')
