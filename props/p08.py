''' P08: mappings form a groupoid in which equality solves the word problem. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property

K = curver.kernel
PROP = Property('P08', ['The equality oracle compares the images of all edge arcs and edge homology classes; by Alexander\'s trick that decides equality.'])

ALL = ('flip', 'multiflip', 'relabel', 'twist', 'halftwist', 'isometry')


def same_action(f, g):
    ''' Whether two mappings with the same source act in the same way on all edge arcs and their homology classes. '''
    S = f.source_triangulation
    if g.source_triangulation != S or f.target_triangulation != g.target_triangulation:
        return False
    return all(list(f(a)) == list(g(a)) for a in S.edge_arcs()) and all(f(h) == g(h) for h in S.edge_homologies())


def steps(T, moves):
    out = []
    for m in moves:
        out.append(gen.move(T, m))
        T = out[-1].target_triangulation
    return out


basic = {'tri': gen.tri_specs(gen.MEDIUM + ['0,3'], max_flips=3, disconnected=True), 'lam': gen.lam_specs(wmax=4)}
words = gen.moves_specs(ALL, 0, 5, power=5)


@PROP.sub(st.fixed_dictionaries(dict(basic, moves=gen.moves_specs(ALL, 1, 6, power=5), cut=st.tuples(gen.small_ints, gen.small_ints).map(list), k=st.integers(-4, 4), other=gen.move_specs(ALL))), quick=300)
def groupoid(case, ctx):
    ''' Composition, application, associativity, identities, inverses, powers, ends and refusals. Non-trivial: at least two different sorts of moves. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    fs = steps(T, case['moves'])
    ctx.nontrivial(len({m[0] for m in case['moves']}) > 1)
    L = T(gen.lam_weights(R, case['lam']))
    hc = K.HomologyClass(T, [3 * i * i - 5 * i + 1 for i in range(R.zeta)])
    x, y = L, hc
    for f in fs:
        x, y = f(x), f(y)
    n = len(fs)
    i, j = sorted((case['cut'][0] % (n + 1), case['cut'][1] % (n + 1)))

    def compose(part, start):
        h = start.id_encoding()
        for f in part:
            h = f * h
        return h
    T1 = T if i == 0 else fs[i - 1].target_triangulation
    T2 = T if j == 0 else fs[j - 1].target_triangulation
    a, b, c = compose(fs[:i], T), compose(fs[i:j], T1), compose(fs[j:], T2)
    h = c * (b * a)
    g = (c * b) * a
    U = h.target_triangulation
    ctx.require(h == g and hash(h) == hash(g), 'associativity')
    for f in (h, g):
        ctx.equal(list(f(L)), list(x), 'composition is application in sequence')
        ctx.equal(f(hc), y, 'composition on homology is application in sequence')
        ctx.require(list(f(hc)) == list(y), 'composition on homology')
    ctx.require(h.source_triangulation == T and U == c.target_triangulation and x.triangulation == U, 'ends')
    ctx.equal(h.zeta, R.zeta, 'zeta')
    inv = h.inverse()
    ctx.require(inv.source_triangulation == U and inv.target_triangulation == T, 'ends of the inverse')
    ctx.equal(list(inv(x)), list(L), 'inverse')
    ctx.equal((~h)(y), hc, 'inverse on homology')
    ctx.require(inv * h == T.id_encoding() and h * inv == U.id_encoding(), 'inverses cancel')
    ctx.require(h * T.id_encoding() == h and U.id_encoding() * h == h, 'identities')
    ctx.require((a.inverse() * b.inverse() * c.inverse()) == inv, 'inverse of a product')
    ctx.require(h * None == h, 'None is the identity')
    # Kinds.
    for f in (h, a, b, c, inv):
        closed = f.source_triangulation == f.target_triangulation
        ctx.equal(type(f).__name__, 'MappingClass' if closed else 'Mapping', 'kind')
    # Refusals.
    other = gen.move(U, case['other'])
    if other.target_triangulation != T:
        ctx.raises(ValueError, lambda: h * other, 'composition over different triangulations')
    if U != T:
        ctx.raises(ValueError, lambda: h(x), 'lamination on the wrong triangulation')
        ctx.raises(ValueError, lambda: h(y), 'homology class on the wrong triangulation')
        ctx.raises(ValueError, lambda: h * h, 'composition over different triangulations')
    # Powers.
    loop = inv * gen.move(U, ['isometry', case['cut'][0]]) * gen.move(U, ['halftwist', case['cut'][1], 1]) * h
    ctx.equal(type(loop).__name__, 'MappingClass', 'kind')
    k = case['k']
    z, step = L, loop if k > 0 else loop.inverse()
    for _ in range(abs(k)):
        z = step(z)
    ctx.equal(list((loop**k)(L)), list(z), f'power {k}')
    ctx.equal(list(loop(L, power=k)), list(z), f'applied {k} times')
    ctx.require(loop**k * loop**2 == loop**(k + 2), 'powers add')
    ctx.require(loop**0 == T.id_encoding(), 'power 0')
    ctx.require(loop.conjugate_by(inv) == h * loop * inv if U == T else True, 'conjugate_by')


@PROP.sub(st.fixed_dictionaries(dict(basic, a=words, b=words, same=st.booleans(), where=gen.small_ints, insert=gen.moves_specs(ALL, 1, 3, power=4), tweak=gen.move_specs(('isometry', 'twist', 'halftwist', 'isometry')), how=st.integers(0, 5))), quick=320)
def word_problem(case, ctx):
    ''' == decides equality of words: words changed by inserting cancelling pieces, rewriting, conjugating, or inserting a piece that need not be trivial. Non-trivial: the words are written differently. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    fs = steps(T, case['a'])
    i = case['where'] % (len(fs) + 1)

    def compose(part, start):
        h = start.id_encoding()
        for f in part:
            h = f * h
        return h
    f = compose(fs, T)
    pre, mid = compose(fs[:i], T), (T if i == 0 else fs[i - 1].target_triangulation)
    post = compose(fs[i:], mid)
    piece = gen.mapping(mid, case['insert'])
    if case['same']:
        how = case['how']
        if how == 0:
            g = post * (piece.inverse() * piece) * pre
        elif how == 1:
            g = f.simplify()
        elif how == 2:
            g = post * piece.flip_mapping().inverse() * piece * pre
        elif how == 3:
            t = gen.move(piece.target_triangulation, case['tweak'])
            u = gen.move(piece.target_triangulation, case['tweak']).inverse()
            g = post * piece.inverse() * u * t * piece * pre
        elif how == 4:
            g = f.combine_isometries()
        else:
            g = f.source_triangulation.encode(f.package())
        expected = True
        ctx.require(same_action(f, g), f'rewriting {how} keeps the action')
    else:
        t = gen.move(piece.target_triangulation, case['tweak'])
        g = post * (piece.inverse() * t * piece) * pre
        expected = same_action(f, g)
        ctx.equal(expected, t == t.source_triangulation.id_encoding(), 'a trivial piece')
    ctx.nontrivial(f.package() != g.package())
    ctx.label('equal' if expected else 'different')
    ctx.equal(bool(f == g), expected, 'equality')
    ctx.equal(bool(g == f), expected, 'equality')
    ctx.equal(bool(f != g), not expected, 'inequality')
    if expected:
        ctx.equal(hash(f), hash(g), 'hashes of equal mappings')
    h = gen.mapping(T, case['b'])
    if h.target_triangulation != f.target_triangulation:
        ctx.require(not f == h and f != h, 'mappings with different targets')
    else:
        ctx.equal(bool(f == h), same_action(f, h), 'equality')
    ctx.require(not f == 3 and f != 'f', 'not equal to other things')
    # Closed up, equality can only depend on the difference.
    d = f.inverse() * g
    ctx.equal(bool(d.is_identity()), expected, 'is_identity of the difference')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.CONNECTED + ['1,1', '0,3', '0,4', '2,1', '1,1'], max_flips=3, disconnected=True), 'extra': gen.moves_specs(ALL, 0, 2, power=3)}), quick=200)
def symmetries(case, ctx):
    ''' All symmetries of one triangulation are different mapping classes, even those that act trivially on all curves. Non-trivial: more than one symmetry. '''
    T = gen.ctri(gen.build(case['tri']))
    f = gen.mapping(T, case['extra'])
    U = f.target_triangulation
    isoms = [i.encode() for i in U.self_isometries()]
    ctx.nontrivial(len(isoms) > 1)
    ctx.label(f'{len(isoms)} symmetries')
    gs = [i * f for i in isoms[:18]]
    for p, g in enumerate(gs):
        for q, h in enumerate(gs):
            if p <= q:
                ctx.equal(bool(g == h), p == q, 'symmetries agree only when they are the same')
    ctx.equal(len(set(gs)), len(gs), 'as a set')
    ids = [i for i in isoms if i.is_identity()]
    ctx.equal(len(ids), 1, 'exactly one of them is the identity')
    ctx.equal(len({i * j for i in isoms[:3] for j in isoms} | set(isoms)), len(isoms), 'closed under composition')


bounds = st.tuples(st.integers(0, 9), st.integers(0, 40)).map(list)


@PROP.sub(st.fixed_dictionaries(dict(basic, moves=gen.moves_specs(ALL + ('crush', 'flip', 'flip', 'halftwist'), 2, 7, power=3), i=bounds, j=bounds)), quick=350)
def slicing(case, ctx):
    ''' f == f[:i] * f[i:j] * f[j:] for all bounds, slices hold the moves that the list of moves does. Non-trivial: a proper non-empty slice. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    L = T(gen.lam_weights(R, case['lam']))
    f = T.id_encoding()
    for m in case['moves']:
        f = gen.move(f.target_triangulation, m) * f
    moves = list(f)
    n = len(f)
    ctx.equal(n, len(moves), 'length')
    mapping = all(isinstance(m, K.FlipGraphMove) for m in moves)
    ctx.label('mapping' if mapping else 'crush')
    closed = f.source_triangulation == f.target_triangulation
    ctx.equal(type(f).__name__, 'Encoding' if not mapping else 'MappingClass' if closed else 'Mapping', 'kind')
    for k in range(-n, n):
        ctx.require(f[k] is moves[k], 'single move')
    ctx.raises(IndexError, lambda: f[n], 'index out of range')
    ctx.raises(IndexError, lambda: f[-n - 1], 'index out of range')

    def bound(mode, v):
        if mode == 0:
            return None
        if mode < 5:
            return v % (n + 1)
        if mode < 8:
            return -(v % (n + 1))
        return v + n if mode == 8 else -v - n
    i, j = bound(*case['i']), bound(*case['j'])
    lo, hi = (0 if i is None else max(min(i if i >= 0 else n + i, n), 0)), (n if j is None else max(min(j if j >= 0 else n + j, n), 0))
    if lo > hi:
        i, j, lo, hi = j, i, hi, lo
    part = f[i:j]
    first, last = f[:i] if i is not None else None, f[j:] if j is not None else None
    ctx.nontrivial(0 < hi - lo < n)
    ctx.equal(len(moves[lo:hi]), hi - lo, 'model')
    if hi > lo:
        ctx.require(part.source_triangulation == moves[hi - 1].source_triangulation and part.target_triangulation == moves[lo].target_triangulation, 'ends of the slice')
    else:
        ctx.require(part == part.source_triangulation.id_encoding(), 'empty slices are identities')
    M = L
    for m in reversed(moves[hi:]):
        M = m(M)
    N = M
    for m in reversed(moves[lo:hi]):
        N = m(N)
    ctx.require(M.triangulation == part.source_triangulation, 'source of the slice')
    ctx.equal(list(part(M)), list(N), 'action of the slice')
    whole = part
    if first is not None:
        whole = first * whole
    if last is not None:
        whole = whole * last
    ctx.equal(list(whole(L)), list(f(L)), 'slices multiply back to the whole')
    if mapping:
        ctx.require(whole == f, 'slices multiply back to the whole')
    for g in (part, first, last):
        if g is not None:
            good = all(isinstance(m, K.FlipGraphMove) for m in g)
            ctx.equal(type(g).__name__, 'Encoding' if not good else 'MappingClass' if g.source_triangulation == g.target_triangulation else 'Mapping', 'kind of a slice')


@PROP.sub(st.fixed_dictionaries(dict(basic, items=st.lists(st.tuples(st.integers(0, 8), gen.small_ints, st.integers(-3, 3).filter(bool), st.lists(gen.small_ints, min_size=1, max_size=6)).map(list), min_size=1, max_size=6))), quick=350)
def notation(case, ctx):
    ''' encode(sequence) in every notation against the composition of the moves named. Non-trivial: at least two items. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    ctx.nontrivial(len(case['items']) > 1)
    sequence, parts = [], []
    U = T
    for kind, x, p, xs in case['items']:
        S = gen.rtri(U)
        if kind == 0:
            opts = gen.flippables(S)
            item = gen.pick(opts, x)
            part = U.encode_flip(item)
            if p > 1:
                item = K.Edge(item)
        elif kind == 1:
            part = gen.move(U, ['multiflip', xs])
            item = part[0].package() if isinstance(part[0], K.MultiEdgeFlip) else None
        elif kind == 2:
            images = gen.relabel_map(S, xs)
            item = {(~i if (p + i) % 2 else i): (~y if (p + i) % 2 else y) for i, y in enumerate(images)}
            part = U.encode_relabel_edges(dict(item))
        elif kind == 3:
            isoms = sorted(U.isometries_to(T), key=lambda i: [i.label_map[y] for y in range(R.zeta)])
            if not isoms or len(T.components()) > 1:
                continue
            isom = gen.pick(isoms, x)
            y = gen.pick(sorted(S.labels()), p)
            item = {y: isom.label_map[y]}
            part = isom.encode()
        elif kind == 4:
            item, part = None, U.id_encoding()
        elif kind in (5, 6):
            y = gen.pick(sorted(S.labels()), x)
            v = S.vertex_of()
            item = (y, p)
            part = U.edge_curve(y).encode_twist(power=p) if v[y] == v[~y] else U.edge_arc(y).encode_halftwist(power=p)
        elif kind == 7:
            part = gen.move(U, ['isometry', x])
            item = part
        else:
            item = U.encode_flip(gen.pick(gen.flippables(S), x))[0]
            part = item.encode()
        ctx.label(f'item {kind}')
        sequence.insert(0, item)
        parts.append(part)
        U = part.target_triangulation
    if not sequence:
        return
    f = T.encode(sequence)
    L = T(gen.lam_weights(R, case['lam']))
    x = L
    g = T.id_encoding()
    for part in parts:
        x = part(x)
        g = part * g
    ctx.require(f.source_triangulation == T and f.target_triangulation == U, 'ends')
    ctx.equal(list(f(L)), list(x), f'encode({sequence})')
    ctx.require(f == g, 'encode is the composition')
    ctx.equal(type(f).__name__, 'MappingClass' if U == T else 'Mapping', 'kind')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(['0,3', '1,1', '0,4', '1,2', '0,5'], max_flips=3), 'moves': gen.moves_specs(ALL, 0, 3, power=3), 'how': st.integers(0, 3), 'x': gen.small_ints}), quick=80)
def mixed(case, ctx):
    ''' Encodings that are not mappings (they crush, lift or subdivide) compared with mappings with the same ends: never an error, symmetric, different if they act differently on
    curves, and with equal hashes whenever they are reported equal. Non-trivial: same ends. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    f = gen.mapping(T, case['moves'])
    U = f.target_triangulation
    how = case['how']
    if how == 0:
        triangles = list(U)
        p = U.encode_pachner_1_3({triangles[case['x'] % len(triangles)]})
    else:
        p = U.edge_curve(case['x'] % U.zeta).crush()
    g = p.inverse() * p * f if how < 2 else p * f
    if how == 3:
        g = p
    V = g.target_triangulation
    h = f if V == U else p * f
    ctx.label(type(g).__name__, f'how {how}')
    ctx.nontrivial(g.source_triangulation == f.source_triangulation and V == U and type(g).__name__ == 'Encoding')
    others = [f, h, g, T.id_encoding(), U.id_encoding(), f.inverse() * f]
    for a in others:
        for b in [g, h]:
            e = bool(a == b)
            ctx.equal(bool(b == a), e, 'equality is symmetric')
            ctx.equal(bool(a != b), not e, 'inequality')
            if e:
                ctx.require(a.source_triangulation == b.source_triangulation and a.target_triangulation == b.target_triangulation, 'ends of equal encodings')
                ctx.equal(hash(a), hash(b), 'hashes of equal encodings')
                for arc in a.source_triangulation.edge_arcs():
                    c = arc.boundary()
                    ctx.equal(list(a(c)), list(b(c)), 'action of equal encodings')
        ctx.require(a == a, 'reflexive')
    ctx.require(g == K.Encoding(list(g)).promote(), 'the same moves')


@PROP.sub(st.fixed_dictionaries(dict(basic, moves=gen.moves_specs(ALL + ('twist', 'halftwist'), 1, 3, power=3), x=gen.small_ints, power=st.integers(1, 3))), quick=200)
def moves(case, ctx):
    ''' Single moves of one sort that are equal have the same ends and do the same; moves put together again are equal, against moves that differ in one respect. Non-trivial: a twist or half-twist. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    f = gen.mapping(T, case['moves'])
    items = list(f)[:12]
    new = list(items)
    for m in items:
        name = type(m).__name__
        ctx.label(name)
        ctx.nontrivial(name in ('Twist', 'HalfTwist'))
        S = m.source_triangulation
        new.append(m.inverse())
        new.append(m.inverse().inverse())
        new.append(S.id_encoding()[0])
        if name == 'Twist':
            new.append(K.create.twist(m.curve, m.power + case['power'] if m.power + case['power'] else 7))
        if name == 'HalfTwist':
            new.append(K.create.halftwist(m.arc, m.power + case['power'] if m.power + case['power'] else 7))
        if name == 'EdgeFlip':
            new.append(S.encode_flip(~m.edge)[0])
        for i in list(S.self_isometries())[:4]:
            new.append(i)
    for a in new[:30]:
        ctx.require(a == a and not a != a and not a == 3, 'reflexive')
        ctx.require(a == rebuilt(a), f'{a} put together again')
        for b in new[:30]:
            if type(a) is type(b) and not same_move(a, b):
                ctx.require(not a == b and a != b, f'different moves {a} == {b}')


def rebuilt(m):
    S, T = m.source_triangulation, m.target_triangulation
    name = type(m).__name__
    if name == 'Isometry':
        return K.create.isometry(S, T, dict(m.label_map))
    if name == 'EdgeFlip':
        return K.create.edgeflip(S, T, K.Edge(m.edge.label))
    if name == 'MultiEdgeFlip':
        return K.create.multiedgeflip(S, T, {K.Edge(e.label) for e in m.edges})
    if name == 'Twist':
        return K.create.twist(m.curve, m.power)
    return K.create.halftwist(m.arc, m.power)


def same_move(a, b):
    ''' Whether two moves of one sort have the same ends and do the same. '''
    if a.source_triangulation != b.source_triangulation or a.target_triangulation != b.target_triangulation:
        return False
    S = a.source_triangulation
    if type(a).__name__ == 'Isometry':
        return all(a.label_map[x] == b.label_map[x] for x in S.labels)
    return all(list(a(x)) == list(b(x)) for x in S.edge_arcs()) and all(list(a(x)) == list(b(x)) for x in S.edge_homologies())
