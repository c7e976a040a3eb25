''' P02: flipping edges moves laminations to their true coordinates. '''
from fractions import Fraction
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.strand import flip_weights

PROP = Property('P02', ['A flip turns a non-negative label clockwise as drawn in Triangulation.encode_multiflip, so x joins the same corners for all laminations.'])


def flip_case(R, ws, x):
    ''' Which of the regimes of the flip formula this is. '''
    return [flip_weights(R, w, x) for w in ws]


big = st.sampled_from([2, 3, 7, 10**9, 10**30 + 1, 2**80])
KW = dict(glued=True, disconnected=True)


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 2), wmax=12, drag=6, **KW), 'edge': st.integers(0, 35), 'scale': big, 'denominator': st.integers(2, 9)}), quick=600)
def single(case, ctx):
    ''' One flip against following strands through the square; scaled weights and rational weights scale. Non-trivial: the weight of the flipped edge changes. '''
    R, ws = gen.build_scene(case['scene'])
    options = gen.flippables(R)
    T = gen.ctri(R)
    for x in set(R.labels()) - set(options):
        ctx.raises((AssertionError, ValueError), lambda: T.encode_flip(x), 'flip of an unflippable edge')
    if not options:
        return
    x = gen.pick(options, case['edge'])
    R2 = R.flip(x)
    f = T.encode_flip(x)
    ctx.equal(f.source_triangulation, T, 'source')
    ctx.equal(f.target_triangulation.sig(), R2.sig(), 'target')
    g = f.inverse()
    forms = [f, T.encode([x]), T.encode_multiflip([x]), T.encode([{x}]), T.encode_flip(curver.kernel.Edge(x))]
    for w in ws:
        expected = flip_weights(R, w, x)
        ctx.nontrivial(expected != list(w))
        L = T(w)
        gen.classify(ctx, R, w)
        for h in forms:
            ctx.equal(list(h(L)), expected, f'image of {w} under flip of {x} on {R.triples}')
            ctx.require(h(L).triangulation == f.target_triangulation, 'lives on the target')
        ctx.require(type(f(L)) is type(L), 'kind changed', a=type(f(L)).__name__, b=type(L).__name__)
        ctx.require(f(L) == f.target_triangulation(expected) and type(f.target_triangulation(expected)) is type(L), 'kind of the image')
        ctx.equal(g(f(L)), L, 'inverse of a flip')
        M = f.target_triangulation(w) if ctx_valid(R2, w) else None
        if M is not None:
            ctx.equal(f(g(M)), M, 'flip of the inverse')
        k = case['scale']
        ctx.equal(list(f(T([k * a for a in w]))), [k * a for a in expected], f'homogeneity {k}')
        q = case['denominator']
        ctx.equal(list(f(T([Fraction(a, q) for a in w]))), [Fraction(a, q) for a in expected], f'homogeneity 1/{q}')
        ctx.equal(list(g(f(T([Fraction(a, q) for a in w])))), [Fraction(a, q) for a in w], 'inverse on rational weights')


def ctx_valid(R, w):
    from ref.strand import is_valid
    return is_valid(R, w)


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(**KW), 'w': st.lists(st.integers(-3, 60), min_size=3, max_size=20), 'q': st.integers(1, 6), 'edge': st.integers(0, 35)}), quick=2000)
def rational(case, ctx):
    ''' Arbitrary rational weight vectors (no parity condition): doubling gives an honest lamination whose image the model knows. Non-trivial: not integral. '''
    R = gen.build(case['tri'])
    options = gen.flippables(R)
    if not options:
        return
    x = gen.pick(options, case['edge'])
    w = [case['w'][i % len(case['w'])] for i in range(R.zeta)]
    twice = [2 * a for a in w]
    expected = [Fraction(a, 2 * case['q']) for a in flip_weights(R, twice, x)]
    T = gen.ctri(R)
    L = T([Fraction(a, case['q']) for a in w])
    f = T.encode_flip(x)
    ctx.nontrivial(not L.is_integral())
    ctx.equal(list(f(L)), expected, f'image of {w}/{case["q"]} under flip of {x} on {R.triples}')
    ctx.equal(list(f.inverse()(f(L))), list(L), 'inverse')
    ctx.equal(list(T.encode_multiflip([x])(L)), expected, 'multiflip')


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 2), wmax=9, drag=6, **KW), 'edges': st.lists(st.integers(0, 35), min_size=1, max_size=6), 'orders': st.lists(st.integers(0, 9), min_size=1, max_size=5)}), quick=500)
def multi(case, ctx):
    ''' Several edges at once against flipping one after another in any order; overlapping or unflippable sets refused. Non-trivial: at least two edges flipped. '''
    R, ws = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    labels = R.labels()
    raw = sorted({gen.pick(labels, k) for k in case['edges']})
    supports = [t for x in raw for t in {R.tri[x], R.tri[~x]}]
    legal = all(R.is_flippable(x) for x in raw) and len(supports) == len(set(supports))
    ctx.label('legal' if legal else 'illegal')
    if not legal:
        ctx.raises((AssertionError, ValueError), lambda: T.encode_multiflip(raw), f'multiflip of {raw} on {R.triples}')
        chosen, used = [], set()
        for x in raw:
            if R.is_flippable(x) and not used & {R.tri[x], R.tri[~x]}:
                used |= {R.tri[x], R.tri[~x]}
                chosen.append(x)
        raw = chosen
    if not raw:
        return
    ctx.nontrivial(len(raw) > 1)
    ctx.label(f'{len(raw)} edges')
    f = T.encode_multiflip(raw)
    g = T.encode([set(raw)])
    ordered = list(raw)
    for k in case['orders']:
        ordered.insert(k % len(ordered), ordered.pop())
    h = T.id_encoding()
    R2, images = R, [list(w) for w in ws]
    for x in ordered:
        images = [flip_weights(R2, w, x) for w in images]
        R2 = R2.flip(x)
        h = h.target_triangulation.encode_flip(x) * h
    ctx.equal(f.target_triangulation.sig(), R2.sig(), 'target')
    ctx.equal(f, h, 'multiflip == product of flips')
    ctx.equal(f.target_triangulation, h.target_triangulation, 'target')
    for w, image in zip(ws, images):
        L = T(w)
        ctx.equal(list(f(L)), image, f'image of {w} under {raw} on {R.triples}')
        ctx.equal(list(g(L)), image, 'encode({..})')
        ctx.require(type(f(L)) is type(L), 'kind changed')
        ctx.equal(f.inverse()(f(L)), L, 'inverse')
        ctx.equal(list(h(L)), image, 'product of flips')


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 2), wmax=5, drag=0, **KW), 'path': st.lists(st.integers(0, 35), min_size=12, max_size=60), 'sizes': st.lists(st.integers(1, 3), min_size=1, max_size=5)}), quick=160)
def history(case, ctx):
    ''' Histories of flips and multiflips: at every step the laminations agree with the model; the composed mapping and its inverse agree with the whole history. Non-trivial: at least ten flips. '''
    R, ws = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    start = [T(w) for w in ws]
    current = list(start)
    h = T.id_encoding()
    queue = list(case['path'])
    steps = flips = 0
    while queue:
        size = case['sizes'][steps % len(case['sizes'])]
        chosen, used = [], set()
        options = gen.flippables(R)
        for k in queue[:size]:
            if options:
                x = gen.pick(options, k)
                if not used & {R.tri[x], R.tri[~x]}:
                    used |= {R.tri[x], R.tri[~x]}
                    chosen.append(x)
        queue = queue[size:]
        images, R2 = ws, R
        for x in chosen:
            images, R2 = [flip_weights(R2, w, x) for w in images], R2.flip(x)
        if any(sum(map(abs, w)) > gen.MAX_WEIGHT for w in images) or not chosen:
            continue
        move = T.encode_flip(chosen[0]) if len(chosen) == 1 else T.encode_multiflip(chosen)
        current = [move(L) for L in current]
        R, ws, T = R2, images, move.target_triangulation
        h = move * h
        steps += 1
        flips += len(chosen)
        ctx.equal(T.sig(), R.sig(), 'triangulation')
        for L, w in zip(current, ws):
            ctx.equal(list(L), list(w), f'step {steps}')
    ctx.nontrivial(flips >= 10)
    ctx.label(f'{flips // 10 * 10}+ flips')
    inv = h.inverse()
    for L, M in zip(start, current):
        ctx.equal(h(L), M, 'composed mapping')
        ctx.require(type(h(L)) is type(L), 'kind')
        ctx.equal(inv(M), L, 'inverse of the composed mapping')
