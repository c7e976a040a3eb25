''' P09: homology classes and the action on homology are correct. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref import homology
from ref.strand import components, is_peripheral_word
from ref.tri import idx

K = curver.kernel
PROP = Property('P09', ['The model is cellular homology relative to the vertices: chains of edges modulo boundaries of triangles (ref/homology.py).'])
KW = dict(glued=True, disconnected=True)
coeffs = st.lists(st.one_of(st.integers(-4, 4), st.integers(-10**25, 10**25)), min_size=3, max_size=12)


def chain(R, code, i=0):
    return [code[(k * (i + 1) + i) % len(code)] + (k * i) % 3 for k in range(R.zeta)]


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=6, **KW), 'a': coeffs, 'b': coeffs, 'n': st.lists(st.integers(-9, 9), min_size=1, max_size=10), 'same': st.booleans()}), quick=600)
def classes(case, ctx):
    ''' Equality against differing by triangle boundaries, canonical forms, basis, hash and arithmetic. Non-trivial: equal but differently written classes. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    a = chain(R, case['a'])
    b = list(a) if case['same'] else chain(R, case['b'], 1)
    for k, t in enumerate(R.triples):
        for x in t:
            homology.add(b, x, case['n'][k % len(case['n'])])
    same = homology.homologous(R, a, b)
    A, B = K.HomologyClass(T, a), K.HomologyClass(T, b)
    ctx.label('homologous' if same else 'different')
    ctx.nontrivial(same and a != b)
    ctx.equal(bool(A == B), same, f'equality of {a} and {b} on {R.triples}')
    ctx.equal(bool(A != B), not same, 'inequality')
    if same:
        ctx.equal(hash(A), hash(B), 'hashes of equal classes')
    ca, cb = A.canonical(), B.canonical()
    ctx.require(ca.triangulation == T and ca.is_canonical(), 'canonical form')
    ctx.require(homology.homologous(R, list(ca), a), 'the canonical form is homologous')
    ctx.equal(list(ca) == list(cb), same, 'canonical forms agree exactly for equal classes')
    ctx.equal(bool(A.is_canonical()), list(ca) == a, 'is_canonical')
    ctx.equal([list(A), list(B)], [a, b], 'unchanged')
    for op, want in ((A + B, [x + y for x, y in zip(a, b)]), (A - B, [x - y for x, y in zip(a, b)]), (-A, [-x for x in a]), (sum([A, B, A]), [2 * x + y for x, y in zip(a, b)])):
        ctx.require(list(op) == want and op.triangulation == T, 'arithmetic')
    for x in R.labels():
        ctx.equal(A(x), a[x] if x >= 0 else -a[~x], 'coefficient of an oriented edge')
        ctx.equal(A(K.Edge(x)), A(x), 'coefficient of an oriented edge')
        ctx.equal(list(T.edge_homology(x)), [0 if i != idx(x) else 1 if x >= 0 else -1 for i in range(R.zeta)], 'edge_homology')
    ctx.equal([list(h) for h in T.edge_homologies()], [[1 if i == j else 0 for j in range(R.zeta)] for i in range(R.zeta)], 'edge_homologies')
    basis = T.homology_basis()
    ctx.equal(len(basis), homology.rank(R), 'size of the basis')
    support = set()
    for h in basis:
        (e,) = [i for i, k in enumerate(h) if k]
        ctx.require(h(e) in (1, -1), 'basis classes are edges')
        support.add(e)
    ctx.equal(len(support), len(basis), 'basis classes are distinct')
    ctx.require(all(k == 0 for e, k in enumerate(ca) if e not in support), 'canonical forms are combinations of the basis')
    tree = T.dual_tree()
    ctx.equal(set(tree), set(range(R.zeta)) - support, 'the basis is the complement of the dual tree')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=4, **KW), 'steps': st.lists(st.one_of(
        gen.move_specs(('flip', 'multiflip', 'relabel', 'isometry')), gen.move_specs(('twist', 'twist'), 10**9)), min_size=1, max_size=4), 'a': coeffs}), quick=350)
def model(case, ctx):
    ''' Flips, relabellings, isometries and twists (transvections) against the cellular model, step by step. Non-trivial: the class is moved by a twist or a flip. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    a = chain(R, case['a'])
    for spec in case['steps']:
        f = gen.move(T, spec)
        S = gen.rtri(f.target_triangulation)
        ctx.label(spec[0])
        if spec[0] in ('flip', 'multiflip'):
            b = list(a)
            flipped = [x.label for m in f for x in (getattr(m, 'edges', None) or ([m.edge] if hasattr(m, 'edge') else []))]
            for x in flipped:  # x = -(y + z) where (x, y, z) was its triangle.
                _, y, z = R.corner(x)
                k = a[idx(x)] if x >= 0 else -a[idx(x)]
                b[idx(x)] = 0
                homology.add(b, y, -k)
                homology.add(b, z, -k)
            ctx.nontrivial(bool(flipped))
        elif spec[0] == 'twist':
            w = gen.nonperipheral_curve(R, spec[1])
            b = a
            if w is not None:
                ((kind, mult, word, _),) = components(R, w).values()
                b = homology.twist_image(R, word, spec[2], a)
                ctx.nontrivial(a != b)
        else:
            if spec[0] == 'relabel':
                images = gen.relabel_map(R, spec[1])
            else:
                images = [f[0].label_map[i] for i in range(R.zeta)]
            b = [0] * R.zeta
            for i, y in enumerate(images):
                homology.add(b, y, a[i])
        A = K.HomologyClass(T, a)
        B = f(A)
        ctx.require(B.triangulation == f.target_triangulation, 'triangulation of the image')
        ctx.require(homology.homologous(S, list(B), b), f'{spec[0]} of {a} on {R.triples}: {list(B)} instead of {b}')
        ctx.require(homology.homologous(R, list(f.inverse()(B)), a), 'inverse')
        ctx.equal(list(A), a, 'the argument is left alone')
        T, R, a = f.target_triangulation, S, b


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.MEDIUM + ['0,3', '0,7'], max_flips=4, disconnected=True), 'moves': gen.moves_specs(min_size=1, max_size=5, power=6), 'more': gen.moves_specs(min_size=0, max_size=2, power=3), 'a': coeffs, 'n': st.lists(st.integers(-9, 9), min_size=1, max_size=10)}), quick=300)
def mappings(case, ctx):
    ''' Well-defined, linear, compatible with boundary and composition; the class of an arc goes to the class of its image; the homology matrix is the action. Non-trivial: acts non-trivially. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    h = gen.mapping(T, case['moves'])
    U = h.target_triangulation
    S = gen.rtri(U)
    a, b = chain(R, case['a']), chain(R, case['a'], 2)
    c = list(a)
    for k, t in enumerate(R.triples):
        for x in t:
            homology.add(c, x, case['n'][k % len(case['n'])])
    A, B, C = [K.HomologyClass(T, v) for v in (a, b, c)]
    hA, hB, hC = h(A), h(B), h(C)
    ctx.require(homology.homologous(S, list(hA), list(hC)), 'well-defined')
    ctx.require(homology.homologous(S, list(h(A + B)), [p + q for p, q in zip(hA, hB)]), 'additive')
    ctx.require(homology.homologous(S, list(h(K.HomologyClass(T, [-7 * x for x in a]))), [-7 * p for p in hA]), 'homogeneous')
    ctx.require(homology.homologous(R, list(h.inverse()(hA)), a), 'inverse')
    # The ends.
    vmap = h.vertex_map()
    vR, vS = R.vertex_of(), S.vertex_of()
    moved = {vR[p[0].label]: vS[q[0].label] for p, q in vmap.items()}
    ctx.equal(sorted(moved.values()), list(range(len(moved))), 'vertex_map is a bijection')
    ctx.equal(homology.boundary(S, list(hA)), {moved[p]: k for p, k in homology.boundary(R, a).items()}, 'boundary')
    # Arcs.
    for e in range(R.zeta):
        image = h(T.edge_arc(e))
        w = [int(x) for x in image]
        if sum(abs(x) for x in w) > 600:
            continue
        ((v, comp),) = components(S, w).items()
        cls = homology.component_class(S, v, comp)
        got = list(h(T.edge_homology(e)))
        ctx.require(homology.homologous(S, got, cls) or homology.homologous(S, got, [-x for x in cls]), f'class of the image of edge {e}: {got} instead of +-{cls}')
    # The matrix.
    M = h.homology_matrix()
    sb, tb = T.homology_basis(), U.homology_basis()
    ctx.equal(M.shape, (len(tb), len(sb)), 'shape of the matrix')
    for j, s in enumerate(sb):
        column = [sum(int(M[i][j]) * t(e) for i, t in enumerate(tb)) for e in range(R.zeta)]
        ctx.require(homology.homologous(S, column, list(h(s))), 'columns of the homology matrix')
    g = gen.mapping(U, case['more'])
    ctx.require((g.homology_matrix().dot(M) == (g * h).homology_matrix()).all(), 'functorial')
    n = len(sb)
    ctx.equal([[int(x) for x in row] for row in h.inverse().homology_matrix().dot(M)], [[int(i == j) for j in range(n)] for i in range(n)], 'matrix of the inverse')
    ctx.nontrivial(U != T or any(int(M[i][j]) != int(i == j) for i in range(n) for j in range(n)))
    if U == T:
        torelli = all(homology.homologous(R, list(h(s)), list(s)) for s in sb)
        ctx.equal(bool(h.is_in_torelli()), torelli, 'is_in_torelli')
