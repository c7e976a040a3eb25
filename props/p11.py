''' P11: rewriting a mapping never changes what it does. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from props.p08 import same_action, steps

K = curver.kernel
PROP = Property('P11', ['Two mappings act identically when they agree on all edge arcs, edge homology classes and a generated lamination (Alexander\'s trick).'])

ALL = ('flip', 'multiflip', 'relabel', 'twist', 'halftwist', 'isometry')
tris = gen.tri_specs(gen.MEDIUM + ['0,3'], max_flips=3, disconnected=True)


def agree(ctx, f, g, L, image, msg):
    ctx.require(g.source_triangulation == f.source_triangulation and g.target_triangulation == f.target_triangulation, f'{msg}: ends')
    ctx.require(type(g) is type(f), f'{msg}: kind', f=type(f).__name__, g=type(g).__name__)
    ctx.require(same_action(f, g), f'{msg}: action')
    ctx.equal(list(g(L)), list(image), f'{msg}: action on a lamination')
    ctx.require(f == g and g == f and hash(f) == hash(g), f'{msg}: equality')
    for a, b in zip(g, list(g)[1:]):
        ctx.require(a.source_triangulation == b.target_triangulation, f'{msg}: consecutive moves fit')


@PROP.sub(st.fixed_dictionaries({'tri': tris, 'moves': gen.moves_specs(ALL, 0, 6, power=6), 'lam': gen.lam_specs(wmax=4), 'inv': st.booleans(), 'mid': gen.small_ints, 'insert': gen.moves_specs(ALL, 0, 2, power=3)}), quick=320)
def rewriting(case, ctx):
    ''' simplify, flip_mapping and combine_isometries against the original. Non-trivial: at least two different sorts of moves. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    f = gen.mapping(T, case['moves'])
    L = T(gen.lam_weights(R, case['lam']))
    if case['inv']:
        L, f = f(L), f.inverse()
        T = f.source_triangulation
    kinds = {type(m).__name__ for m in f}
    ctx.label(*kinds)
    ctx.nontrivial(len(kinds) > 1)
    image = f(L)
    # Expanding.
    g = f.flip_mapping()
    ctx.require(all(type(m) in (K.EdgeFlip, K.Isometry) for m in g), 'only flips and isometries', got={type(m).__name__ for m in g})
    agree(ctx, f, g, L, image, 'flip_mapping')
    for m in f:
        e = m.flip_mapping()
        ctx.require(all(type(x) in (K.EdgeFlip, K.Isometry) for x in e) and e.source_triangulation == m.source_triangulation and e.target_triangulation == m.target_triangulation, 'flip_mapping of a move')
    # Gathering.
    h = f.combine_isometries()
    isoms = [i for i, m in enumerate(h) if isinstance(m, K.Isometry)]
    ctx.require(isoms in ([], [0]), 'a single isometry at the front', got=isoms)
    ctx.equal(len(h) - len(isoms), sum(1 for m in f if not isinstance(m, K.Isometry)), 'gathering keeps all the other moves')
    ctx.equal([type(m).__name__ for m in h if not isinstance(m, K.Isometry)], [type(m).__name__ for m in f if not isinstance(m, K.Isometry)], 'gathering keeps the other moves')
    agree(ctx, f, h, L, image, 'combine_isometries')
    b = g.combine_isometries()
    ctx.require([i for i, m in enumerate(b) if isinstance(m, K.Isometry)] in ([], [0]) and all(type(m) in (K.EdgeFlip, K.Isometry) for m in b), 'both')
    agree(ctx, f, b, L, image, 'flip_mapping then combine_isometries')
    # Simplifying.
    s = f.simplify()
    agree(ctx, f, s, L, image, 'simplify')
    # Only the mapping matters: write it in other ways.
    fs = steps(f.source_triangulation, [])
    mid = case['mid'] % (len(f) + 1)
    cut = f[mid].source_triangulation if mid < len(f) else f.source_triangulation
    if mid == 0:
        cut = f.target_triangulation
    elif mid < len(f):
        cut = f[mid - 1].source_triangulation
    piece = gen.mapping(cut, case['insert'])
    other = (f[:mid] if mid else f.target_triangulation.id_encoding()) * (piece.inverse() * piece) * (f[mid:] if mid < len(f) else f.source_triangulation.id_encoding())
    ctx.require(other == f, 'padding a word')
    for word, name in [(g, 'expanded'), (h, 'gathered'), (s, 'simplified'), (other, 'padded'), (f.inverse().inverse(), 'twice inverted')]:
        ctx.equal(word.simplify().package(), s.package(), f'simplify depends only on the mapping ({name})')
    # The original is left alone.
    ctx.equal(list(f(L)), list(image), 'the original still acts as before')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(gen.SMALL, max_flips=2, disconnected=True), 'cls': gen.class_specs(4, 4), 'k': st.integers(-4, 4), 'j': st.integers(0, 2), 'lam': gen.lam_specs(wmax=4)}), quick=200)
def classes(case, ctx):
    ''' Powers of mapping classes, rewritten and multiplied with each other. Non-trivial: the class is not the identity. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    f = gen.mapping_class(T, case['cls'])
    L = T(gen.lam_weights(R, case['lam']))
    k = case['k']
    p = f**k
    ctx.nontrivial(not f.is_identity() and k != 0)
    rewrite = [lambda x: x.simplify(), lambda x: x.flip_mapping(), lambda x: x.combine_isometries()][case['j']]
    image = p(L)
    agree(ctx, p, rewrite(p), L, image, 'power')
    q = rewrite(f)**k
    agree(ctx, p, q, L, image, 'power of rewritten')
    ctx.equal(q.simplify().package(), p.simplify().package(), 'simplified powers')
    ctx.equal((rewrite(p) * p.inverse()).simplify().package(), T.id_encoding().simplify().package(), 'the identity simplifies')
    agree(ctx, f, rewrite(rewrite(f)), L, f(L), 'rewritten twice')
