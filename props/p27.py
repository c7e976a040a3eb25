''' P27: local curve-graph constructions. '''
from itertools import islice, product

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import intersection
from ref.strand import Complement, components, is_peripheral_word, is_valid

PROP = Property('P27', ['Vertex cycles are compared with a brute force search over all weight vectors with entries at most two.',
                        'Distances are decided for pairs of curves that do not fill (the algorithm is exponential otherwise): 0, 1 or 2.'])
K = curver.kernel


def essential(R, w):
    return [v for v, c in components(R, w).items() if c[0] == 'curve' and not is_peripheral_word(R, c[2])]


def curves_only(R, w):
    return [sum(v[e] * c[1] for v, c in components(R, w).items() if c[0] == 'curve') for e in range(R.zeta)]


def turns(R, word):
    ''' The set of turns of a closed word. '''
    return {frozenset((~x, y)) for x, y in zip(word, word[1:] + word[:1])}


def all_turns(R, w):
    return {t for v, c in components(R, w).items() for t in turns(R, tuple(c[2]))}


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), bases=gen.SMALL + ['0,3'], kinds=('walk', 'multicurve', 'hull', 'any', 'curve'), wmax=6, max_flips=5, drag=8), 'moves': gen.moves_specs(('twist', 'halftwist', 'flip'), max_size=3, power=2)}), quick=260)
def cycles(case, ctx):
    ''' Vertex cycles of a multicurve: every one is a curve carried by it (turns only where it turns) crossing each edge at most twice; every curve carried by it that passes through no edge twice in the same direction is listed
    (brute force over all vectors); and there is one. Non-trivial: there are at least two. '''
    R, (w,) = gen.build_scene(case['scene'])
    w = curves_only(R, w)
    if not any(w):
        return
    T = gen.ctri(R)
    if case['moves']:  # Tangle it up.
        image = gen.mapping(T, case['moves'])(T(w))
        if sum(image) < 500:
            T, w = image.triangulation, [int(x) for x in image]
            R = gen.rtri(T)
    M = T(w)
    first = M.vertex_cycle()
    listed = list(islice(M.vertex_cycles(), 400))
    complete = len(listed) < 400
    ctx.label('complete' if complete else 'truncated')
    ctx.require(listed, f'no vertex cycle of {w} on {R.triples}')
    ctx.equal(first, listed[0], 'vertex_cycle is the first one')
    found = {tuple(c) for c in listed}
    ctx.nontrivial(len(found) > 1)
    mine = all_turns(R, w)
    for c, v in zip(listed, map(tuple, listed)):
        ctx.require(isinstance(c, K.Curve) and c.triangulation == T, 'a vertex cycle is a curve on the triangulation')
    for v in found:
        comps = components(R, list(v))
        msg = f'vertex cycle {v} of {w} on {R.triples}'
        ctx.require([(c[0], c[1]) for c in comps.values()] == [('curve', 1)], msg + ' is no curve')
        ctx.require(all(0 <= a <= 2 for a in v), msg + ' passes an edge more than twice')
        ctx.require(all_turns(R, list(v)) <= mine, msg + ' is not carried')
    if complete and R.zeta <= 6:
        ctx.label('brute force')
        for v in product(*[range(3) if a > 1 else range(2) if a else (0,) for a in w]):
            if any(v) and v not in found and is_valid(R, list(v)):
                comps = components(R, list(v))
                if [(c[0], c[1]) for c in comps.values()] == [('curve', 1)]:
                    word = next(iter(comps.values()))[2]
                    if len(set(word)) == len(word) and turns(R, tuple(word)) <= mine:
                        ctx.require(False, f'vertex cycle {v} of {w} on {R.triples} is not listed')


PAIR = st.fixed_dictionaries({'tri': gen.tri_specs(gen.COMPLEX, 5), 'a': gen.lam_specs(('walk', 'curve', 'hull'), 5), 'b': gen.lam_specs(('walk', 'curve', 'hull'), 5), 'moves': gen.moves_specs(('twist', 'halftwist', 'isometry'), max_size=3, power=4)})


@PROP.sub(PAIR, quick=170)
def quasiconvex(case, ctx):
    ''' quasiconvex(a, b) contains a and b and consists of essential curves of the same triangulation. Non-trivial: it contains others. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    a, b = gen.nonperipheral_curve(R, case['a']), gen.nonperipheral_curve(R, case['b'])
    if a is None or b is None:
        return
    A = T(a)
    B = gen.mapping(T, case['moves'])(T(b))
    if B.weight() > 10**5:
        return
    Q = curver.kernel.CurveGraph(T).quasiconvex(A, B)
    msg = f'{a} and {list(B)} on {R.triples}'
    ctx.nontrivial(len(Q) > 2)
    ctx.require(A in Q and B in Q, f'the quasiconvex set of {msg} does not contain them')
    for c in Q:
        ctx.require(type(c) is K.Curve and c.triangulation == T, f'quasiconvex set of {msg}: {c}')
        ctx.require(c.weight() > 0 and not c.is_peripheral(), f'quasiconvex set of {msg}: {list(c)} is peripheral')
        if c.weight() < 200:
            comps = components(R, list(c))
            ctx.require([(k[0], k[1]) for k in comps.values()] == [('curve', 1)], f'quasiconvex set of {msg}: {list(c)} is no curve')


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((2, 3), bases=gen.COMPLEX, kinds=('walk', 'multicurve', 'hull', 'curve', 'walk'), wmax=4, max_flips=4, drag=5), 'mode': st.sampled_from(['two', 'two', 'same', 'more', 'disjoint', 'disjoint']), 'moves': gen.moves_specs(max_size=3)}), quick=220)
def paths(case, ctx):
    ''' Tight paths of length 0, 1, 2 (and longer ones between multicurves that do not fill, of which there are none) exist exactly when the multicurves are equal; disjoint without common components; have an essential neighbourhood
    boundary without components in common with them, which is then the middle of the path. Natural under mappings, symmetric. Non-trivial: a path of length 1 or 2. '''
    R, ws = gen.build_scene(case['scene'])
    a, b = curves_only(R, ws[0]), curves_only(R, ws[1])
    mode = case['mode']
    if mode == 'same':
        b = a
    if mode == 'more' and len(ws) > 2:
        c = curves_only(R, ws[2])
        if intersection(R, a, c) == 0:
            a = [x + y for x, y in zip(a, c)]
    if mode == 'disjoint':
        vs = sorted(components(R, a))
        a = list(vs[0]) if vs else a
        b = list(vs[-1]) if len(vs) > 1 else b
    if not any(a) or not any(b):
        return
    T = gen.ctri(R)
    A, B = T(a), T(b)
    G = curver.kernel.CurveGraph(T)
    ca, cb = components(R, a), components(R, b)
    n = intersection(R, a, b)
    msg = f'from {a} to {b} on {R.triples}'
    ctx.equal(G.tight_paths(A, B, 0), {(A,)} if a == b else set(), 'paths of length 0 ' + msg)
    one = n == 0 and not set(ca) & set(cb)
    ctx.label(f'length 1 {one}')
    P1 = G.tight_paths(A, B, 1)
    ctx.equal(P1, {(A, B)} if one else set(), 'paths of length 1 ' + msg)
    P2 = G.tight_paths(A, B, 2)
    ctx.require(len(P2) <= 1, 'more than one path of length 2 ' + msg)
    M = A.boundary_union(B)  # Itself decided by P16.
    ctx.equal(intersection(R, a, list(M)), 0, 'the middle meets the first ' + msg)
    ctx.equal(intersection(R, b, list(M)), 0, 'the middle meets the last ' + msg)
    cm = components(R, list(M))
    two = any(not is_peripheral_word(R, c[2]) for c in cm.values()) and not set(cm) & (set(ca) | set(cb))
    ctx.label(f'length 2 {two}')
    ctx.nontrivial(one or two)
    ctx.equal(P2, {(A, M, B)} if two else set(), 'paths of length 2 ' + msg)
    Q2 = G.tight_paths(B, A, 2)
    if len(ca) == len(cb) == 1 and all(not is_peripheral_word(R, c[2]) for c in list(ca.values()) + list(cb.values())):
        ctx.equal({tuple(frozenset(components(R, list(m))) for m in p) for p in Q2}, {tuple(frozenset(components(R, list(m))) for m in reversed(p)) for p in P2}, 'path of length 2 in the other direction ' + msg)
    if not A.fills_with(B):
        ctx.equal(G.tight_paths(A, B, 3), set(), 'paths of length 3 between curves that do not fill ' + msg)
        ctx.equal(G.tight_paths(A, B, 7), set(), 'paths of length 7 between curves that do not fill ' + msg)
    h = gen.mapping(T, case['moves'])
    H = curver.kernel.CurveGraph(h.target_triangulation)
    hA, hB = h(A), h(B)
    for k, P in enumerate([P1, P2], 1):
        ctx.equal(H.tight_paths(hA, hB, k), {tuple(h(m) for m in p) for p in P}, f'naturality of paths of length {k} {msg}')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(['1,2', '0,5', '2,1', '1,3', '0,6', '2,2'], 4), 'a': gen.lam_specs(('walk', 'curve', 'hull'), 3), 'b': gen.lam_specs(('walk', 'curve', 'hull', 'walk'), 3), 'mode': st.sampled_from(['same', 'any', 'any', 'any'])}), quick=24, budget=60)
def distances(case, ctx):
    ''' Distance and geodesics between curves whose quasiconvex set contains no filling pair: 0 if equal, 1 if disjoint and otherwise 2, realised by a path of successively disjoint essential curves between them. Non-trivial: distinct. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    a, b = gen.nonperipheral_curve(R, case['a']), gen.nonperipheral_curve(R, case['b'])
    if case['mode'] == 'same':
        b = a
    if a is None or b is None:
        return
    A, B = T(a), T(b)
    G = curver.kernel.CurveGraph(T)
    Q = sorted(G.quasiconvex(A, B), key=list)
    if any(u.fills_with(v) for u in Q for v in Q if u != v):
        ctx.label('fill')
        return
    expected = 0 if a == b else 1 if intersection(R, a, b) == 0 else 2
    if expected == 2 and (len(Q) > 2 or R.zeta > 12):
        ctx.label('too slow')
        return
    ctx.label(f'distance {expected}')
    ctx.nontrivial(expected)
    msg = f'between {a} and {b} on {R.triples}'
    path = G.geodesic(A, B)
    ctx.equal(len(path) - 1, expected, 'length of the geodesic ' + msg)
    ctx.require(path[0] == A and path[-1] == B, 'ends of the geodesic ' + msg)
    for c in path:
        ctx.equal(essential(R, list(c)), [tuple(c)], 'a vertex of the geodesic is an essential curve ' + msg)
    for c, d in zip(path, path[1:]):
        ctx.equal(intersection(R, list(c), list(d)), 0, 'successive curves of the geodesic are disjoint ' + msg)
        ctx.require(c != d, 'successive curves of the geodesic are distinct ' + msg)
    if expected < 2:
        ctx.equal(G.distance(A, B), expected, 'distance ' + msg)
        ctx.equal(G.distance(B, A), expected, 'distance ' + msg)
