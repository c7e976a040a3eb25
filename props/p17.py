''' P17: topological types of laminations. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.orbit import Structure
from ref.strand import components, flip_weights, is_peripheral_word, pos
from ref.tri import RTri

PROP = Property('P17', ['Orbits are decided by isomorphism of the surface cut along the lamination (ref/orbit.py).',
                        'Mapping classes may permute punctures.'])
K = curver.kernel
TYPES = ['0,4', '1,2', '1,1', '0,5', '0,3', '2,1', '1,3', '0,6', '2,2']


def drag(R, w, flips, bound=200):
    for k in flips:
        options = gen.flippables(R)
        if not options:
            break
        x = gen.pick(options, k)
        new = flip_weights(R, w, x)
        if sum(map(pos, new)) <= bound:
            R, w = R.flip(x), new
    return R, w


def closable(R, w):
    return all(S[1] == 1 for S in R.surface().values()) and all(c[0] == 'curve' for c in components(R, w).values())


def tri(bases=gen.CONNECTED):
    return gen.tri_specs(bases, 4, disconnected=True)


@PROP.sub(st.fixed_dictionaries({'tri': tri(), 'lam': gen.lam_specs(wmax=3), 'moves': gen.moves_specs(min_size=1, max_size=5, power=4), 'drag': gen.flips_list(6)}), quick=200, budget=120)
def invariant(case, ctx):
    ''' Images under mappings, and the same lamination followed along flips by the reference model, have the same type (also the closed type, where that is defined; it is refused otherwise), equal hash and
    string. Non-trivial: two components and a mapping that changes the lamination. '''
    R = gen.build(case['tri'])
    w = gen.lam_weights(R, case['lam'])
    T = gen.ctri(R)
    comps = gen.classify(ctx, R, w)
    if len(comps) > 7 and R.zeta > 9:
        ctx.label('too many components')
        return
    L = T(w)
    h = gen.mapping(T, case['moves'])
    hL = h(L)
    ctx.nontrivial(len(comps) > 1 and list(hL) != w)
    msg = f'{w} on {R.triples} by {case["moves"]}'
    tt = L.topological_type()
    ctx.equal(hL.topological_type(), tt, 'type of the image of ' + msg)
    ctx.equal(T(w).topological_type(), tt, 'asking again')
    ctx.equal(str(hL.topological_type()), str(tt), 'string')
    R2, w2 = drag(R, w, case['drag'])
    L2 = gen.ctri(R2)(w2)
    ctx.equal(L2.topological_type(), tt, f'type of {w2} on {R2.triples} and {w} on {R.triples}')
    if closable(R, w):
        ctx.label('closed')
        ct = L.topological_type(closed=True)
        ctx.equal(hL.topological_type(closed=True), ct, 'closed type of the image of ' + msg)
        ctx.equal(L2.topological_type(closed=True), ct, 'closed type along flips')
    else:
        ctx.raises(ValueError, lambda: L.topological_type(closed=True), 'closed type of ' + msg)


PAIR = st.fixed_dictionaries({
    'tri': st.one_of(gen.tri_specs(TYPES, 4), tri(['0,4', '1,1', '1,2'])), 'lam': gen.lam_specs(wmax=3), 'lam2': gen.lam_specs(wmax=3),
    'how': st.sampled_from(['shuffle', 'shuffle', 'other', 'reweigh', 'swap']), 'mults': st.lists(st.integers(0, 2), min_size=4, max_size=4),
    'mults2': st.lists(st.integers(0, 2), min_size=4, max_size=4), 'drag': gen.flips_list(5)})


def pair(R, case):
    ''' Two laminations on R. '''
    w = gen.lam_weights(R, case['lam'])
    if case['how'] == 'other':
        return w, gen.lam_weights(R, case['lam2'])
    comps = sorted(components(R, w))
    n = len(comps)
    m = [case['mults'][i % 4] for i in range(n)]
    if case['how'] == 'shuffle':  # The same multiplicities on the components in another order.
        m2 = list(m)
        for i, k in enumerate(case['mults2']):
            if n:
                m2.insert(k % n, m2.pop(i % n))
    elif case['how'] == 'swap':
        m2 = list(m)
        i, j = case['mults2'][0], case['mults2'][1] + 2
        if n:
            m2[i % n], m2[j % n] = m2[j % n], m2[i % n]
    else:
        m2 = [case['mults2'][i % 4] for i in range(n)]

    def add(ms):
        return [sum(k * v[e] for k, v in zip(ms, comps)) for e in range(R.zeta)]
    return add(m), add(m2)


HULLS = st.fixed_dictionaries({
    'tri': gen.tri_specs(['2,1', '1,3', '3,1', '1,2', '2,2', '0,6'], 6),
    'lam': st.fixed_dictionaries({'kind': st.just('hull'), 'edges': st.lists(st.integers(0, 17), min_size=1, max_size=3), 'am': st.just([1]), 'cm': st.just([1])}),
    'how': st.sampled_from(['shuffle', 'swap']), 'mults': st.lists(st.integers(1, 2), min_size=4, max_size=4), 'mults2': st.lists(st.integers(0, 2), min_size=4, max_size=4), 'drag': gen.flips_list(3)})


@PROP.sub(st.one_of(PAIR, HULLS), quick=500, budget=120)
def classify(case, ctx):
    ''' Two laminations on the same surface have equal types exactly when the cut surfaces are isomorphic, also for closed types. Pairs: the same components with other or permuted
    multiplicities, or unrelated laminations. Non-trivial: they have as many components, of the same kinds and multiplicities. '''
    R = gen.build(case['tri'])
    w1, w2 = pair(R, case)
    c1, c2 = components(R, w1), components(R, w2)
    if max(len(c1), len(c2)) > 7:
        return
    ctx.nontrivial(w1 != w2 and sorted(c[:2] for c in c1.values()) == sorted(c[:2] for c in c2.values()))
    R2, v2 = drag(R, w2, case['drag'])
    A, B = gen.ctri(R)(w1), gen.ctri(R2)(v2)
    same = Structure(R, w1).isomorphic(Structure(R2, v2))
    ctx.label(f'same {same}')
    ta, tb = A.topological_type(), B.topological_type()
    ctx.equal(ta == tb, same, f'same type of {w1} and {w2} on {R.triples}: {ta} and {tb}')
    if same:
        ctx.equal(hash(str(ta)), hash(str(tb)), 'strings')
    if closable(R, w1) and closable(R, w2):
        same = Structure(R, w1, closed=True).isomorphic(Structure(R2, v2, closed=True))
        ctx.label(f'closed same {same}')
        ctx.equal(A.topological_type(closed=True) == B.topological_type(closed=True), same, f'same closed type of {w1} and {w2} on {R.triples}')


@PROP.sub(st.fixed_dictionaries({'one': tri(), 'two': tri(), 'lam': gen.lam_specs(wmax=3), 'lam2': gen.lam_specs(wmax=3)}), quick=120, budget=120)
def surfaces(case, ctx):
    ''' Types of laminations on different triangulations (often of different surfaces) are equal exactly when the cut surfaces are isomorphic. Non-trivial: same number of edges. '''
    R1, R2 = gen.build(case['one']), gen.build(case['two'])
    w1, w2 = gen.lam_weights(R1, case['lam']), gen.lam_weights(R2, case['lam2'])
    if max(len(components(R1, w1)), len(components(R2, w2))) > 7:
        return
    ctx.nontrivial(R1.zeta == R2.zeta)
    ta, tb = gen.ctri(R1)(w1).topological_type(), gen.ctri(R2)(w2).topological_type()
    ctx.equal(ta == tb, Structure(R1, w1).isomorphic(Structure(R2, w2)), f'same type of {w1} on {R1.triples} and {w2} on {R2.triples}: {ta} and {tb}')


def handles(g, fan):
    ''' A one vertex triangulation of genus g, from the polygon [a, b][c, d]..., cut into triangles by ears chosen by fan. '''
    sides = [x for k in range(g) for x in (2 * k, 2 * k + 1, ~(2 * k), ~(2 * k + 1))]
    triples, new, i = [], 2 * g, 0
    while len(sides) > 3:
        k = fan[i % len(fan)] % len(sides)
        i += 1
        sides = sides[k:] + sides[:k]
        triples.append((sides[0], sides[1], ~new))
        sides = [new] + sides[2:]
        new += 1
    triples.append(tuple(sides))
    return RTri(triples)


@PROP.sub(st.fixed_dictionaries({
    'g': st.sampled_from([2, 2, 3, 3, 4]), 'fan': st.one_of(st.just([0]), st.lists(st.integers(0, 15), min_size=1, max_size=14)), 'edges': st.lists(st.integers(0, 20), min_size=1, max_size=3),
    'flips': gen.flips_list(3), 'mults': st.lists(st.integers(0, 2), min_size=6, max_size=6), 'mults2': st.lists(st.integers(0, 2), min_size=6, max_size=6),
    'how': st.sampled_from(['shuffle', 'swap', 'reweigh']), 'drag': gen.flips_list(4)}), quick=200, budget=120)
def fill(case, ctx):
    ''' Closed (and ordinary) types of multicurves on surfaces with one puncture, made from the boundary of a few edges of which many separate: equal exactly when the surfaces with the
    puncture filled in, cut along them, are isomorphic. Non-trivial: the puncture is in a region that disappears. '''
    R = handles(case['g'], case['fan'])
    for k in case['flips']:
        R = R.flip(gen.pick(gen.flippables(R), k))
    _, w = gen.hull(R, case['edges'])
    comps = sorted(v for v, c in components(R, w).items() if c[0] == 'curve' and not is_peripheral_word(R, c[2]))
    if not comps:
        ctx.label('no curves')
        return
    n = len(comps)
    m = [case['mults'][i % 6] for i in range(n)]
    m2 = list(m)
    if case['how'] == 'shuffle':
        for i, k in enumerate(case['mults2']):
            m2.insert(k % n, m2.pop(i % n))
    elif case['how'] == 'swap':
        i, j = case['mults2'][0] % n, (case['mults2'][1] + 2) % n
        m2[i], m2[j] = m2[j], m2[i]
    else:
        m2 = [case['mults2'][i % 6] for i in range(n)]
    w1, w2 = ([sum(k * v[e] for k, v in zip(ms, comps)) for e in range(R.zeta)] for ms in (m, m2))
    R2, v2 = drag(R, w2, case['drag'])
    A, B = gen.ctri(R)(w1), gen.ctri(R2)(v2)
    for closed in (True, False):
        X, Y = Structure(R, w1, closed=closed), Structure(R2, v2, closed=closed)
        if closed:
            ctx.nontrivial(len(X.regions) < len(Structure(R, w1).regions) and w1 != w2)
        same = X.isomorphic(Y)
        ctx.label(f'closed {closed} same {same}')
        ta, tb = A.topological_type(closed=closed), B.topological_type(closed=closed)
        ctx.equal(ta == tb, same, f'same type (closed={closed}) of {w1} and {w2} on {R.triples}: {ta} and {tb}')
        if same:
            ctx.equal(str(ta), str(tb), 'strings')


def slit_sum(R, e, X, f):
    ''' R and X joined along a slit at the edges e of R and f of X: the edges of R keep their labels. '''
    n = R.zeta

    def new(x):
        y = (n + x) if x >= 0 else ~(n + ~x)
        return {n + f: e, ~(n + f): ~(n + f)}.get(y, y)
    # The side e of R now belongs to X, and its place is taken by the side f of X.
    triples = [tuple(n + f if x == e else x for x in t) for t in R.triples] + [tuple(new(x) for x in t) for t in X.triples]
    return RTri(triples)


PIECES = ['0,3', '0,3', '1,1', '0,4', '1,2', '2,1', '0,5']


@PROP.sub(st.fixed_dictionaries({
    'tri': gen.tri_specs(['0,4', '0,5', '1,2', '0,5'], 6), 'arcs': st.lists(st.tuples(st.integers(0, 17), st.integers(1, 2)).map(list), min_size=2, max_size=4),
    'slits': st.lists(st.tuples(st.integers(0, 17), st.integers(0, len(PIECES) - 1), st.integers(0, 11)).map(list), min_size=2, max_size=3, unique_by=lambda x: PIECES[x[1]]), 'perm': st.integers(1, 5),
    'mults': st.lists(st.integers(0, 2), min_size=4, max_size=4), 'mults2': st.lists(st.integers(0, 2), min_size=4, max_size=4), 'same': st.integers(0, 3), 'drag': gen.flips_list(3)}), quick=300, budget=120)
def holes(case, ctx):
    ''' Multiarcs, with or without curves around them, on surfaces into which pieces (handles, further punctures) are put at slits away from the arcs, and the same with the pieces exchanged: equal types exactly when the cut
    surfaces are isomorphic. Non-trivial: the exchange changes the triangulation. '''
    R = gen.build(case['tri'])
    arcs = {k % R.zeta: m for k, m in case['arcs']}
    free = [e for e in range(R.zeta) if e not in arcs]
    slits = {}
    for k, piece, f in case['slits']:
        if free:
            slits[free.pop(k % len(free))] = (piece, f)
    if len(slits) < 2:
        ctx.label('no slits')
        return
    edges, pieces = sorted(slits), [slits[e] for e in sorted(slits)]
    moved = pieces[case['perm'] % len(pieces):] + pieces[:case['perm'] % len(pieces)]

    def build(pieces, mults):
        S = R
        for e, (piece, f) in zip(edges, pieces):
            X = gen.build({'base': PIECES[piece], 'flips': [], 'relabel': None})
            S = slit_sum(S, e, X, f % X.zeta)
        w = [-arcs.get(e, 0) if e < R.zeta else 0 for e in range(S.zeta)]
        B = [int(a) for a in gen.ctri(S)(w).boundary()]
        comps = sorted(v for v, c in components(S, B).items() if not is_peripheral_word(S, c[2]))
        for v, m in zip(comps, mults * 9):
            w = [a + m * b for a, b in zip(w, v)]
        return S, w
    mults = case['mults'] if case['same'] == 0 else [0]
    R1, w1 = build(pieces, mults)
    R2, w2 = build(moved, case['mults2'] if case['same'] == 0 else mults)
    if max(len(components(R1, w1)), len(components(R2, w2))) > 7:
        return
    if any(len(Structure(S, w).regions) > 6 for S, w in [(R1, w1), (R2, w2)]):
        ctx.label('too many regions')
        return
    ctx.nontrivial(R1.triples != R2.triples or w1 != w2)
    same = Structure(R1, w1).isomorphic(Structure(R2, w2))
    ctx.label(f'same {same}')
    R2, v2 = drag(R2, w2, case['drag'])
    ta, tb = gen.ctri(R1)(w1).topological_type(), gen.ctri(R2)(v2).topological_type()
    ctx.equal(ta == tb, same, f'same type of {w1} on {R1.triples} and {w2} on {R2.triples}: {ta} and {tb}')
