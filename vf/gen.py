''' Shared generators.  Cases are plain JSON; every integer in them is interpreted modulo the options available, so any mutation of a
case is again a case and shrinking is effective.  Interpretation uses only the reference models. '''
from hypothesis import strategies as st

from ref.tri import RTri, disjoint_union, glue, idx
from ref import strand
from ref.strand import components, fix_parity, flip_weights, is_peripheral_word, pos

BASES = {
    '0,3': '3_p', '0,4': '6_JDky1', '0,5': '9_ZFO4OuIV', '0,6': 'c_ZlgeM906o-354', '0,7': 'f_ZBhisze7ZhPen+Kdl1',
    '1,1': '3_o', '1,2': '6_WKSv', '1,3': '9_q3AtQIBp', '2,1': '9_qBFcQEN4', '2,2': 'c_q5YHALgCWTyw', '2,3': 'f_q5sG87f308pRczx4k',
    '3,1': 'f_0mGaGVParMxLYnCS3', '3,2': 'i_0mGG3b5sZ48hMGl+XMxQf7',
}
CONNECTED = ['1,2', '0,5', '2,1', '1,1', '0,4', '1,3', '2,2', '0,6', '3,1', '0,7', '2,3', '3,2', '0,3']  # The first ones are generated most.
assert sorted(CONNECTED) == sorted(BASES)
COMPLEX = [s for s in CONNECTED if s != '0,3']  # Those that have essential curves.
SMALL = ['1,2', '0,5', '1,1', '0,4', '2,1', '1,3']
MEDIUM = ['1,2', '0,5', '2,1', '1,1', '0,4', '1,3', '2,2', '0,6', '3,1']
_cache = {}


def base(name):
    if name not in _cache:
        _cache[name] = RTri.from_sig(BASES[name])
    return _cache[name]


# ---------------------------------------------------------------- triangulations

small_ints = st.integers(0, 11)


def flips_list(max_flips):
    return st.lists(small_ints, max_size=max_flips)


def tri_specs(bases=CONNECTED, max_flips=6, relabel=True, glued=False, disconnected=False):
    ''' Specs of triangulations. '''
    d = {'base': st.sampled_from(list(bases)), 'flips': flips_list(max_flips)}
    if relabel:
        d['relabel'] = st.one_of(st.none(), st.none(), st.lists(st.integers(0, 99), min_size=1, max_size=18))
    one = st.fixed_dictionaries(d)
    opts = [one]
    if glued:
        opts.append(st.fixed_dictionaries({'glue': st.lists(st.integers(0, 35), min_size=1, max_size=30), 'n': st.integers(1, 5)}))
    if disconnected:
        opts.append(st.builds(lambda a, b: dict(a, plus=b), one, one))
    if len(opts) == 1:
        return one
    return st.one_of(opts[:1] + opts)


def flippables(T):
    return [x for x in T.labels() if T.is_flippable(x)]


def pick(options, k):
    return options[k % len(options)]


def relabel_map(T, code):
    ''' A signed permutation of the edges of T from a list of integers. '''
    rest = list(range(T.zeta))
    out = []
    for i in range(T.zeta):
        c = code[i % len(code)] + i // len(code)
        e = rest.pop((c // 2) % len(rest))
        out.append(e if c % 2 == 0 else ~e)
    return out


def full_map(images):
    f = {}
    for i, x in enumerate(images):
        f[i], f[~i] = x, ~x
    return f


def build(spec):
    if 'glue' in spec:
        T = glue(2 * spec['n'], spec['glue'])
    else:
        T = base(spec['base'])
    for k in spec.get('flips', ()):
        options = flippables(T)
        if options:
            T = T.flip(pick(options, k))
    if spec.get('relabel'):
        T = T.relabel(full_map(relabel_map(T, spec['relabel'])))
    if spec.get('plus'):
        T = disjoint_union(T, build(spec['plus']))
    return T


# ---------------------------------------------------------------- laminations

ALL_KINDS = ('walk', 'hull', 'any', 'curve', 'arc', 'multicurve', 'multiarc', 'hull', 'edges', 'any')


def lam_specs(kinds=ALL_KINDS, wmax=6):
    ''' Specs of integral laminations. kind:
    any: all of a (repaired) weight vector.           curve / arc: one of its components.
    multicurve / multiarc: all components of that sort, with multiplicities.        walk: a simple closed dual curve. hull: arcs parallel to edges together with boundary curves of them.
      edges: arcs parallel to edges. '''
    opts = []
    vec = st.lists(st.sampled_from([2, 0, 1, 3, -1] + [1, 2, 0, 4, 3] + list(range(5, wmax + 1)) + [-2]), min_size=3, max_size=18)
    for kind in kinds:
        if kind == 'walk':
            opts.append(st.fixed_dictionaries({'kind': st.just('walk'), 'walk': st.lists(small_ints, min_size=1, max_size=14), 'mult': st.integers(1, 1)}))
        elif kind == 'hull':
            opts.append(st.fixed_dictionaries({'kind': st.just('hull'), 'edges': st.lists(st.integers(0, 17), min_size=1, max_size=4),
                                               'am': st.lists(st.integers(0, 2), min_size=1, max_size=4), 'cm': st.lists(st.sampled_from([0, 1, 1, 1, 2]), min_size=1, max_size=4)}))
        elif kind == 'edges':
            opts.append(st.fixed_dictionaries({'kind': st.just('edges'), 'edges': st.lists(st.integers(0, 17), min_size=1, max_size=4)}))
        else:
            opts.append(st.fixed_dictionaries({'kind': st.just(kind), 'w': vec, 'pick': st.integers(0, 5)}))
    return st.one_of(opts)


def simple_walk(T, walk):
    ''' A closed path in the dual graph visiting each triangle at most once, chosen by the turns in walk, as a word. '''
    start = pick(T.labels(), walk[0])
    word, entered = [], {}
    x = start
    i = 1
    while True:
        t = T.tri[~x]
        word.append(x)
        if t in entered:  # Arrived back: the loop consists of the labels crossed after first arriving in t.
            first = entered[t]
            word = word[first:]
            break
        entered[t] = len(word)
        turn = walk[i % len(walk)] % 2
        i += 1
        a = ~x
        x = T.nxt[a] if turn else T.nxt[T.nxt[a]]
    # The word starts by leaving t across word[0] and finally arrives in t across word[-1]: these must be different sides.
    if word[0] == ~word[-1]:
        word = word[1:-1]
        if not word:
            return None
    return word


def hull(T, edges):
    ''' The least set E of edges containing the given ones such that no triangle has exactly two sides in E, and the weights of the
    boundary of a regular neighbourhood of E: every other edge is crossed once for each of its ends at an end of E. '''
    E = {e % T.zeta for e in edges}
    grown = True
    while grown:
        grown = False
        for t in T.triples:
            inside = [x for x in t if idx(x) in E]
            if len(inside) == 2:
                E |= {idx(x) for x in t}
                grown = True
    v = T.vertex_of()
    marked = {v[e] for e in E} | {v[~e] for e in E}
    return E, [0 if e in E else (v[e] in marked) + (v[~e] in marked) for e in range(T.zeta)]


def walk_weights(T, walk, essential=True, tries=12):
    ''' The weights of a simple closed dual curve; if essential then the first of a few candidates that is not peripheral. '''
    first = None
    k = sum(walk)
    for i in range(tries if essential else 1):
        word = simple_walk(T, walk if i == 0 else [k + i, k // 2 + i // 2, i, i // 3, k, i // 5, 1])
        if not word:
            continue
        w = [0] * T.zeta
        for x in word:
            w[idx(x)] += 1
        if first is None:
            first = w
        if not is_peripheral_word(T, word):
            return w, True
    return first, False


def lam_weights(T, spec):
    ''' The weight vector of the lamination that a spec denotes on T. '''
    z = T.zeta
    kind = spec['kind']
    if kind == 'walk':
        w, _ = walk_weights(T, spec['walk'], essential=sum(spec['walk']) % 4 != 0)
        return [a * spec.get('mult', 1) for a in w] if w is not None else [0] * z
    if kind == 'edges':
        w = [0] * z
        for e in spec['edges']:
            w[e % z] -= 1
        return w
    if kind == 'hull':
        E, w = hull(T, spec['edges'])
        comps = components(T, w)
        out = [0] * z
        for i, v in enumerate(sorted(comps, key=lambda v: (is_peripheral_word(T, comps[v][2]), v))):  # Essential ones first.
            for e in range(z):
                out[e] += v[e] * spec['cm'][i % len(spec['cm'])]
        for i, e in enumerate(sorted(E)):
            out[e] = -spec['am'][i % len(spec['am'])]
        if not any(out):
            out = [-1 if e in E else 0 for e in range(z)]
        return out
    raw = spec['w']
    w = fix_parity(T, [raw[i % len(raw)] if i < len(raw) else raw[(i * 7 + i // len(raw)) % len(raw)] for i in range(z)])
    if kind == 'any':
        return w
    comps = components(T, w)
    want = 'curve' if 'curve' in kind else 'arc'
    vs = sorted(v for v, c in comps.items() if c[0] == want)
    if not vs:
        if want == 'arc':
            return lam_weights(T, {'kind': 'edges', 'edges': [spec['pick']] if kind == 'arc' else [abs(a) for a in raw[:3]]})
        return lam_weights(T, {'kind': 'walk', 'walk': [a + 3 for a in raw], 'mult': 1 if kind == 'curve' else 2})
    if kind in ('curve', 'arc'):
        return list(pick(vs, spec['pick']))
    out = [0] * z
    for v in vs:
        for i in range(z):
            out[i] += v[i] * comps[v][1]
    return out


def nonperipheral_curve(T, spec):
    ''' A non-peripheral curve from a spec (weights), or None if none was found. '''
    w = lam_weights(T, spec)
    for v, c in sorted(components(T, w).items()):
        if c[0] == 'curve' and not is_peripheral_word(T, c[2]):
            return list(v)
    w, good = walk_weights(T, spec.get('walk') or spec.get('edges') or [spec['pick']] + [a + 3 for a in spec['w']])
    return w if good else None


# ---------------------------------------------------------------- scenes: a triangulation with laminations, dragged along flips

def scenes(n_lams, bases=CONNECTED, kinds=ALL_KINDS, wmax=6, max_flips=6, drag=8, **kw):
    ''' n_lams: (min, max) number of laminations. '''
    return st.fixed_dictionaries({
        'tri': tri_specs(bases, max_flips, **kw),
        'lams': st.lists(lam_specs(kinds, wmax), min_size=n_lams[0], max_size=n_lams[1]),
        'drag': flips_list(drag),
    })


MAX_WEIGHT = 400


def build_scene(scene, interpret=lam_weights):
    ''' Return (T, [weights]).  Flips that would make the laminations huge are skipped. '''
    T = build(scene['tri'])
    ws = [interpret(T, s) for s in scene['lams']]
    for k in scene.get('drag', ()):
        options = flippables(T)
        if not options:
            break
        x = pick(options, k)
        new = [None if w is None else flip_weights(T, w, x) for w in ws]
        if any(w is not None and sum(abs(a) for a in w) > MAX_WEIGHT for w in new):
            continue
        T, ws = T.flip(x), new
    return T, ws


def classify(ctx, T, w):
    comps = components(T, w)
    kinds = {c[0] for c in comps.values()}
    if not comps:
        name = 'empty'
    elif kinds == {'curve'}:
        name = ('curve' if len(comps) == 1 and all(c[1] == 1 for c in comps.values()) else 'multicurve')
        if all(is_peripheral_word(T, c[2]) for c in comps.values()):
            name += ' (peripheral)'
    elif kinds == {'arc'}:
        name = 'arc' if len(comps) == 1 and all(c[1] == 1 for c in comps.values()) else 'multiarc'
    else:
        name = 'mixed'
    ctx.label(name)
    return comps


# ---------------------------------------------------------------- moves

def move_specs(kinds=('flip', 'multiflip', 'relabel', 'twist', 'halftwist', 'isometry'), power=4):
    p = st.integers(-power, power).filter(lambda k: k)
    table = {
        'flip': st.tuples(st.just('flip'), small_ints),
        'multiflip': st.tuples(st.just('multiflip'), st.lists(small_ints, min_size=1, max_size=4)),
        'relabel': st.tuples(st.just('relabel'), st.lists(st.integers(0, 99), min_size=1, max_size=18)),
        'twist': st.tuples(st.just('twist'), lam_specs(('walk', 'curve'), 3), p),
        'halftwist': st.tuples(st.just('halftwist'), small_ints, p),
        'isometry': st.tuples(st.just('isometry'), small_ints),
        'crush': st.tuples(st.just('crush'), lam_specs(('walk',), 3)),
    }
    return st.one_of([table[k] for k in kinds]).map(list)


def moves_specs(kinds=('flip', 'multiflip', 'relabel', 'twist', 'halftwist', 'isometry'), min_size=0, max_size=6, power=4):
    return st.lists(move_specs(kinds, power), min_size=min_size, max_size=max_size)


def ctri(R):
    import curver
    return curver.create_triangulation(R.triples)


def rtri(T):
    ''' The reference model of a curver triangulation, through its public signature. '''
    return RTri.from_sig(T.sig())


def move(T, spec):
    ''' The curver Encoding of a move on the curver triangulation T. '''
    R = rtri(T)
    kind = spec[0]
    if kind == 'flip':
        options = flippables(R)
        return T.encode_flip(pick(options, spec[1])) if options else T.id_encoding()
    if kind == 'multiflip':
        chosen, used = [], set()
        options = flippables(R)
        for k in spec[1]:
            if not options:
                break
            x = pick(options, k)
            support = {R.tri[x], R.tri[~x]}
            if not support & used:
                used |= support
                chosen.append(x)
        return T.encode_multiflip(chosen) if chosen else T.id_encoding()
    if kind == 'relabel':
        return T.encode_relabel_edges(relabel_map(R, spec[1]))
    if kind == 'twist':
        w = nonperipheral_curve(R, spec[1])
        return T(w).encode_twist(power=spec[2]) if w is not None else T.id_encoding()
    if kind == 'halftwist':
        v = R.vertex_of()
        options = [e for e in range(R.zeta) if v[e] != v[~e]]
        return T.edge_arc(pick(options, spec[1])).encode_halftwist(power=spec[2]) if options else T.id_encoding()
    if kind == 'isometry':
        isoms = sorted(T.self_isometries(), key=lambda i: [i.label_map[x] for x in range(T.zeta)])
        return pick(isoms, spec[1]).encode()
    if kind == 'crush':
        w = nonperipheral_curve(R, spec[1])
        return T(w).crush() if w is not None else T.id_encoding()
    raise ValueError(kind)


def mapping(T, moves):
    ''' The composition of the given moves, the first one first. '''
    h = T.id_encoding()
    for m in moves:
        h = move(h.target_triangulation, m) * h
    return h


# Mapping classes:  a product of twists, half-twists and isometries, conjugated by flips.
def class_specs(max_size=5, power=3, max_conj=4, min_size=0):
    return st.fixed_dictionaries({
        'moves': moves_specs(('twist', 'halftwist', 'isometry'), min_size, max_size, power),
        'conj': flips_list(max_conj),
    })


def mapping_class(T, spec):
    f = mapping(T, [['flip', k] for k in spec['conj']])
    h = mapping(f.target_triangulation, spec['moves'])
    return f.inverse() * h * f


# Periodic classes: words in the standard generators and their orders, all of them instances of the chain, star and torus relations or
# rotations of the sphere. The letters are twists / half-twists about the curves / arcs of those names.
PERIODIC = [
    ((1, 2), 'a_0.b_0.p_1', 4), ((0, 5), 's_0.s_1.s_2.s_3', 5), ((2, 1), 'a_0.b_0.c_0.b_1', 10), ((1, 1), 'a_0.b_0', 6), ((0, 4), 's_0.s_1', 3),
    ((1, 1), 'a_0.b_0.a_0', 4), ((0, 4), 's_0.s_1.s_2', 4), ((0, 4), 's_0.s_0.s_1', 2), ((0, 4), 's_0.S_2', 2), ((0, 5), 's_0.s_1.s_2', 4),
    ((0, 5), 's_0.s_0.s_1.s_2', 3), ((0, 6), 's_0.s_1.s_2.s_3.s_4', 6), ((0, 6), 's_0.s_1.s_2.s_3', 5), ((0, 6), 's_0.s_0.s_1.s_2.s_3', 4),
    ((1, 2), 'a_0.a_0.b_0.p_1', 3), ((1, 3), 'a_0.b_0.p_1.p_2', 3), ((2, 1), 'a_0.a_0.b_0.c_0.b_1', 8), ((2, 1), 'a_0.b_0.c_0.b_1.a_1', 6),
    ((2, 2), 'a_0.b_0.c_0.b_1.p_1', 6), ((0, 3), 's_0.s_1', 3), ((0, 3), 's_0', 2), ((0, 7), 's_0.s_1.s_2.s_3.s_4.s_5', 7),
    ((3, 1), 'a_0.b_0.c_0.b_1.c_1.b_2', 14), ((3, 1), 'a_0.a_0.b_0.c_0.b_1.c_1.b_2', 12),
]
SMALL_PERIODIC = [i for i, p in enumerate(PERIODIC) if p[0] in [(1, 2), (0, 5), (2, 1), (1, 1), (0, 4), (0, 6), (1, 3), (0, 3)]]


def word_on(T, gn, word, offset=0):
    ''' The mapping class of T that performs the given word on the component which is a copy of the standard triangulation of S_{g,n}, its edges starting at offset. '''
    S = group(*gn)
    h = T.id_encoding()
    z = S.triangulation.zeta
    for letter in reversed([x for x in word.split('.') if x]):
        name, sign = letter.lower(), (1 if letter[0].islower() else -1)
        w = [0] * offset + list(S.curves[name] if name in S.curves else S.arcs[name]) + [0] * (T.zeta - offset - z)
        L = T(w)
        h = (L.encode_twist(power=sign) if name in S.curves else L.encode_halftwist(power=sign)) * h
    return h


TINY_PERIODIC = [i for i, p in enumerate(PERIODIC) if p[0] in [(1, 2), (1, 1), (0, 4), (0, 3)]]


def periodic_specs(max_parts=3, choices=SMALL_PERIODIC, max_conj=5, multi=None):
    power = st.sampled_from([1, 1, 1, 2, -1, 3, 0])
    one = st.lists(st.tuples(st.sampled_from(choices), power).map(list), min_size=1, max_size=1)
    many = st.lists(st.tuples(st.sampled_from(multi or choices), power).map(list), min_size=2, max_size=max(2, max_parts))
    parts = one if max_parts == 1 else st.one_of(one, one, many)
    return st.fixed_dictionaries({'parts': parts, 'copies': st.booleans(), 'cycle': st.booleans(), 'conj': moves_specs(('flip', 'flip', 'relabel', 'twist', 'halftwist'), 0, max_conj, power=1)})


def periodic_class(spec):
    ''' Return (f, order): a mapping class of known order.  With several parts the surface is disconnected and the parts act on its components,
    and with 'copies' they all act on copies of the first one, which 'cycle' permutes cyclically before they act. '''
    from math import gcd
    parts = [list(p) for p in spec['parts']]
    if spec.get('copies'):
        gn = PERIODIC[parts[0][0]][0]
        parts = [p if PERIODIC[p[0]][0] == gn else [parts[0][0], p[1]] for p in parts]
    R = None
    offsets = []
    for k, _ in parts:
        part = rtri(group(*PERIODIC[k][0]).triangulation)
        offsets.append(0 if R is None else R.zeta)
        R = part if R is None else disjoint_union(R, part)
    T = ctri(R)
    orders = []
    h = T.id_encoding()
    for (k, power), offset in zip(parts, offsets):
        gn, word, n = PERIODIC[k]
        h = word_on(T, gn, word, offset)**power * h
        orders.append(n // gcd(n, power))
    m = len(parts)
    if m > 1 and spec.get('copies') and spec.get('cycle'):
        z = T.zeta // m
        swap = T.find_isometry(T, {e: (e + z) % T.zeta for e in range(T.zeta)}).encode()
        if len({k for k, _ in parts}) == 1:  # All powers of one class so these commute and the first return is their product.
            h = h * swap
            n = PERIODIC[parts[0][0]][2]
            order = m * (n // gcd(n, sum(p for _, p in parts)))
        else:
            h, order = swap, m
    else:
        order = 1
        for n in orders:
            order = order * n // gcd(order, n)
    f = mapping(T, spec['conj'])
    return f * h * f.inverse(), order


_groups = {}


def group(g, n):
    import curver
    if (g, n) not in _groups:
        _groups[(g, n)] = curver.load(g, n)
    return _groups[(g, n)]


# ---------------------------------------------------------------- triangulations with many symmetries

def bipyramid(n):
    ''' S_{0,n+2}: n equatorial edges 0..n-1, edges n..2n-1 from the north pole and 2n..3n-1 from the south pole to the equator. '''
    ts = []
    for i in range(n):
        j = (i + 1) % n
        ts.append((n + i, i, ~(n + j)))
        ts.append((2 * n + j, ~i, ~(2 * n + i)))
    return RTri(ts)


def torus_grid(v, k):
    ''' S_{1,v}: vertices Z/v, edges a_i: i -> i + 1, b_i: i -> i + k, c_i: i -> i + 1 + k. '''
    a, b, c = (lambda i: i % v), (lambda i: v + i % v), (lambda i: 2 * v + i % v)
    ts = []
    for i in range(v):
        ts.append((a(i), b(i + 1), ~c(i)))
        ts.append((c(i), ~a(i + k), ~b(i)))
    return RTri(ts)


def fan(m):
    ''' A 2m-gon with its opposite sides identified and a puncture in its centre. '''
    ts = []
    for i in range(2 * m):
        side = i if i < m else ~(i - m)
        ts.append((m + i, side, ~(m + (i + 1) % (2 * m))))
    return RTri(ts)


SYMMETRIC = [
    ('tetrahedron', lambda: RTri([(0, 1, 2), (~0, 3, ~4), (~1, 4, ~5), (~2, 5, ~3)])),
    ('bipyramid 3', lambda: bipyramid(3)), ('torus 1', lambda: torus_grid(1, 1)), ('torus 2', lambda: torus_grid(2, 1)),
    ('fan 2', lambda: fan(2)), ('sphere 3', lambda: base('0,3')), ('torus 3', lambda: torus_grid(3, 1)), ('fan 3', lambda: fan(3)),
    ('octahedron', lambda: bipyramid(4)), ('fan 4', lambda: fan(4)), ('torus 4', lambda: torus_grid(4, 1)), ('torus 2 0', lambda: torus_grid(2, 0)),
    ('torus 3 0', lambda: torus_grid(3, 0)), ('fan 5', lambda: fan(5)), ('bipyramid 5', lambda: bipyramid(5)), ('fan 6', lambda: fan(6)),
    ('torus 4 2', lambda: torus_grid(4, 2)), ('torus 7', lambda: torus_grid(7, 2)), ('fan 7', lambda: fan(7)),
]


def symmetric(k):
    key = ('symmetric', k)
    if key not in _cache:
        _cache[key] = SYMMETRIC[k][1]()
    return _cache[key]
