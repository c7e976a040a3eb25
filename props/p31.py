''' P31: enumerations of disjoint arcs, multiarcs and triangulations, and balls of triangulations. '''
from itertools import combinations, islice

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.strand import flip_weights

PROP = Property('P31', ['The triangulations that contain a filling multiarc are connected by flips of their other arcs (the complementary regions are polygons, once punctured polygons and pairs of pants).'])
K = curver.kernel
MAX = 70  # Triangulations.


def pull(path, w):
    ''' Carry the lamination w back along [(triangulation, label flipped in it)]. '''
    for R, x in reversed(path):
        w = flip_weights(R.flip(x), w, x)
    return tuple(w)


def edges_back(R, path):
    return frozenset(pull(path, [-(i == e) for i in range(R.zeta)]) for e in range(R.zeta))


def fix(R, path):
    ''' The triangulation at the end of the path. '''
    for S, x in path:
        R = S.flip(x)
    return R


def flip_ball(R, keep=(), radius=None, limit=MAX):
    ''' {triangulation (as a set of vectors): distance} from R by at most radius flips of edges not in keep, or None. '''
    start = edges_back(R, [])
    seen = {start: 0}
    level = [(R, [])]
    d = 0
    while level and (radius is None or d < radius):
        d += 1
        nxt = []
        for S, path in level:
            for e in range(R.zeta):
                if e not in keep and S.is_flippable(e):
                    p = path + [(S, e)]
                    k = edges_back(R, p)
                    if k not in seen:
                        seen[k] = d
                        nxt.append((S.flip(e), p))
                        if len(seen) > limit:
                            return None
        level = nxt
    return seen


def regions_ok(R, keep):
    ''' Whether every complementary region of the edges kept is a polygon, a once punctured polygon or a pair of pants with no arcs in it. '''
    vertex = R.vertex_of()
    parent = list(range(len(R.triples)))

    def find(k):
        while parent[k] != k:
            k = parent[k]
        return k
    for e in range(R.zeta):
        if e not in keep:
            a, b = find(R.tri[e]), find(R.tri[~e])
            if a != b:
                parent[a] = b
    met = {vertex[x] for e in keep for x in (e, ~e)}
    comps = R.components()
    for k in {find(k) for k in range(len(R.triples))}:
        triangles = [t for j, t in enumerate(R.triples) if find(j) == k]
        inner = {e for t in triangles for x in t for e in [max(x, ~x)] if e not in keep}
        inside = {vertex[x] for t in triangles for x in t if vertex[x] not in met}
        chi = len(inside) - len(inner) + len(triangles)  # Of the open region, its vertices on the arcs removed and those inside filled in.
        comp = next(c for c in comps if triangles[0][0] in c)
        if not any(max(x, ~x) in keep for x in comp):
            if len(comp) != 6 or len({vertex[x] for x in comp}) != 3:
                return False
        elif chi != 1 or len(inside) > 1:
            return False
    return True


def scene(case):
    R = gen.build(case['tri'])
    order = sorted(range(R.zeta), key=lambda e: (case['order'][e % len(case['order'])], e))
    keep = set(range(R.zeta))
    for e in order[:case['drop']]:  # Drop edges for as long as the rest still fills.
        if regions_ok(R, keep - {e}) and len(keep) > 1:
            keep.discard(e)
    T = gen.ctri(R)
    f = gen.mapping(T, case['moves'])
    return R, T, keep, f


CASES = st.fixed_dictionaries({
    'tri': gen.tri_specs(max_flips=5, glued=True, disconnected=True),
    'order': st.lists(st.integers(0, 30), min_size=12, max_size=18),
    'drop': st.integers(0, 9),
    'moves': gen.moves_specs(('flip', 'flip', 'twist', 'halftwist', 'relabel'), max_size=3, power=1),
})


def carried(f, vectors):
    T = f.source_triangulation
    return {v: tuple(f(T(list(v)))) for v in vectors}


@PROP.sub(CASES, quick=180)
def disjoint(case, ctx):
    ''' For a multiarc that fills (a set of edges, moved by a mapping), the disjoint arcs, multiarcs and triangulations listed are exactly those found by flipping the triangulation around it in every way. Non-trivial: there are at least
    three triangulations that contain it. '''
    R, T, keep, f = scene(case)
    found = flip_ball(R, keep)
    if found is None:
        ctx.label('too many')
        return
    w = [-(e in keep) for e in range(R.zeta)]
    M = f(T(w))
    if sum(abs(x) for x in M) > 3000:
        return
    S = f.target_triangulation
    vertex = R.vertex_of()
    met = {vertex[x] for e in keep for x in (e, ~e)}
    ctx.label('punctured' if len(met) < len(R.vertices()) else 'polygons')
    ctx.label('1' if len(found) == 1 else '2' if len(found) == 2 else '3-9' if len(found) < 10 else '10+')
    ctx.nontrivial(len(found) > 2)
    msg = f'{list(M)} on {gen.rtri(S).triples}'
    ctx.require(M.is_filling(), msg + ' fills')
    arcs = set().union(*found)
    image = carried(f, arcs)
    expected = set(image.values())
    got = list(islice(M.all_disjoint_arcs(), 20 * len(arcs) + 20))
    for a in got:
        ctx.require(isinstance(a, K.Arc) and a.triangulation == S, msg + f': listed {a}, a {type(a).__name__}')
    ctx.require({tuple(a) for a in got} == expected, msg + f': disjoint arcs: {sorted(map(tuple, got))}', expected=sorted(expected))
    tris = {tuple(sum(col) for col in zip(*(image[a] for a in t))) for t in found}
    got = list(islice(M.all_disjoint_triangulations(), 20 * len(tris) + 20))
    for a in got:
        ctx.require(isinstance(a, K.MultiArc) and a.is_triangulation(), msg + f': listed {a} as a triangulation')
    ctx.require({tuple(a) for a in got} == tris, msg + f': triangulations: {sorted(map(tuple, got))}', expected=sorted(tris))
    if 2**R.zeta * len(found) <= 6000:
        subsets = {frozenset(c) for t in found for n in range(1, R.zeta + 1) for c in combinations(sorted(t), n)}
        multi = {tuple(sum(col) for col in zip(*(image[a] for a in c))) for c in subsets}
        ctx.label('multiarcs')
        got = [a for a in islice(M.all_disjoint_multiarcs(), 20 * len(multi) + 20) if any(a)]
        ctx.require(all(isinstance(a, K.MultiArc) for a in got), msg + ': multiarcs are multiarcs')
        ctx.require({tuple(a) for a in got} == multi, msg + f': {len(got)} multiarcs instead of {len(multi)}')


@PROP.sub(st.fixed_dictionaries({'scene': CASES, 'radius': st.sampled_from([1, 0, 2])}), quick=110)
def balls(case, ctx):
    ''' explore_ball(r) of a multiarc that fills is the set of triangulations within r flips of one that contains it, found by flipping; all_encodings(n) reaches exactly the triangulations within n flips. Non-trivial: more than four. '''
    R, T, keep, f = scene(case['scene'])
    radius = case['radius']
    ball = flip_ball(R, (), radius, 300)
    if ball is None:
        radius = 1
        ball = flip_ball(R, (), radius, 300)
    ctx.label(f'radius {radius}')
    ctx.nontrivial(len(ball) > 4)
    encodings = list(T.all_encodings(radius))
    ctx.require(all(h.source_triangulation == T for h in encodings), 'encodings start here')
    got = {tuple(h.inverse()(h.target_triangulation.as_lamination())) for h in encodings}
    ctx.equal(got, {tuple(sum(col) for col in zip(*t)) for t in ball}, f'triangulations reached from {R.triples} by {radius} flips')
    # Balls about multiarcs.
    M = f(T([-(e in keep) for e in range(R.zeta)]))
    if sum(abs(x) for x in M) > 1000:
        return
    S = f.target_triangulation
    centres = flip_ball(R, keep)
    if centres is None or len(centres) > 40:
        return
    ctx.label('multiarc')
    msg = f'{radius}-ball of {list(M)} on {gen.rtri(S).triples}'
    B = M.explore_ball(radius)
    ctx.require(all(isinstance(t, K.MultiArc) and t.triangulation == S and t.is_triangulation() for t in B), msg + ': triangulations')
    B = {tuple(int(x) for x in t) for t in B}
    g = f.inverse()
    home = {tuple(int(x) for x in g(S(list(t)))) for t in B}
    ok = False
    for centre, path in paths_to(R, keep).items():
        total = tuple(sum(col) for col in zip(*centre))
        if total in home:
            C = fix(R, path)
            around = {tuple(pull(path, [sum(col) for col in zip(*t)])) for t in flip_ball(C, (), radius, 10000)}
            if around == home:
                ok = True
                break
    ctx.require(ok, msg + f': {len(B)} triangulations, which are not the ball about any triangulation that contains it')


def paths_to(R, keep):
    start = edges_back(R, [])
    seen = {start: []}
    level = [(R, [])]
    while level:
        nxt = []
        for S, path in level:
            for e in range(R.zeta):
                if e not in keep and S.is_flippable(e):
                    p = path + [(S, e)]
                    k = edges_back(R, p)
                    if k not in seen:
                        seen[k] = p
                        nxt.append((S.flip(e), p))
        level = nxt
    return seen


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=5, glued=True, disconnected=True), 'keep': st.lists(st.integers(0, 30), min_size=1, max_size=4), 'moves': gen.moves_specs(('flip', 'twist'), max_size=2, power=1)}), quick=150)
def refused(case, ctx):
    ''' A multiarc that does not fill is reported as such and refused. Non-trivial: it does not fill. '''
    R = gen.build(case['tri'])
    keep = {k % R.zeta for k in case['keep']}
    T = gen.ctri(R)
    f = gen.mapping(T, case['moves'])
    M = f(T([-(e in keep) for e in range(R.zeta)]))
    fills = regions_ok(R, keep)
    ctx.label('fills' if fills else 'does not fill')
    msg = f'{list(M)} on {gen.rtri(f.target_triangulation).triples}'
    ctx.equal(bool(M.is_filling()), fills, msg + ': fills')
    if not fills:
        ctx.nontrivial()
        ctx.raises(AssertionError, lambda: next(M.all_disjoint_arcs()), msg + ': disjoint arcs')
        ctx.raises(AssertionError, lambda: next(M.all_disjoint_multiarcs()), msg + ': disjoint multiarcs')
        ctx.raises(AssertionError, lambda: next(M.all_disjoint_triangulations()), msg + ': disjoint triangulations')
        ctx.raises(AssertionError, lambda: M.explore_ball(1), msg + ': ball')
