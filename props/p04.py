''' P04: shortening always terminates in an equivalent short lamination. '''
from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.strand import components, is_peripheral_word
from ref.tri import RTri
from props.p03 import edge_curve_vectors, expected_class

PROP = Property('P04', ['Polynomial length is tested as: at most 10 * zeta * (10 + bits of the weight) moves, twenty times what the unchanged code was seen to need.'])
KW = dict(glued=True, disconnected=True)
drops = st.one_of(st.sampled_from([0.1, 0.0, 1.0, 0.5]), st.floats(0, 1, allow_nan=False))


def check_short(ctx, R2, short, cls):
    ''' Short according to the model: every component is peripheral, parallel to an edge or to one side of a loop edge. '''
    w = [int(a) for a in short]
    comps = components(R2, w)
    ec = edge_curve_vectors(R2)
    for v, c in comps.items():
        ok = c[2] == [] or v in ec or (c[0] == 'curve' and is_peripheral_word(R2, c[2]))
        ctx.require(ok, f'component {v} of {w} on {R2.triples} is not short')
    ctx.require(short.is_short(), 'is_short')
    ctx.equal(type(short).__name__, cls, 'class of the short lamination')
    return comps


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=40, drag=10, **KW), 'drops': st.lists(drops, min_size=1, max_size=2)}), quick=450)
def small(case, ctx):
    ''' Small weights, any drop: short in the sense of the model, same component data, exact image, inverse. Non-trivial: at least one flip was needed. '''
    R, (w,) = gen.build_scene(case['scene'])
    comps = gen.classify(ctx, R, w)
    T = gen.ctri(R)
    L = T(w)
    total = sorted((c[0], c[1], c[0] == 'curve' and is_peripheral_word(R, c[2])) for c in comps.values())
    for drop in [None] + case['drops']:
        short, h = L.shorten() if drop is None else L.shorten(drop=drop)
        ctx.require(h.source_triangulation == T, 'source of the conjugator')
        ctx.require(h.target_triangulation == short.triangulation, 'target of the conjugator')
        ctx.equal(h(L), short, 'h(L) == short')
        ctx.require(list(h(L)) == list(short) and type(h(L)) is type(short), 'class of h(L)')
        ctx.equal(h.inverse()(short), L, 'inverse')
        ctx.nontrivial(len(h) > 1)
        R2 = RTri.from_sig(short.triangulation.sig())
        new = check_short(ctx, R2, short, expected_class(comps))
        ctx.equal(sorted((c[0], c[1], c[0] == 'curve' and is_peripheral_word(R2, c[2])) for c in new.values()), total, 'component data')
        ctx.require(len(h) <= 10 * R.zeta * (10 + sum(abs(a) for a in w)), 'length of the conjugator', length=len(h))
        for move in h:
            ctx.require(isinstance(move, curver.kernel.Move), 'made of moves')
    if all(c[2] == [] or is_peripheral_word(R, c[2]) for c in comps.values()):
        ctx.label('already short')


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=4), 'lam': gen.lam_specs(wmax=6), 'moves': gen.moves_specs(('twist', 'flip', 'halftwist', 'twist', 'relabel'), 2, 8, power=10**12), 'drop': st.one_of(st.none(), st.floats(0.01, 1, allow_nan=False)), 'mult': st.sampled_from([1, 1, 3, 10**20])}), quick=350, budget=60)
def huge(case, ctx):
    ''' Weights made huge by twisting: terminates with a short image and a conjugator whose length is polynomial in the number of digits. Non-trivial: weight above 10**9. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    w = gen.lam_weights(R, case['lam'])
    comps = components(R, w)
    h = gen.mapping(T, case['moves'])
    k = case['mult']
    weights = [k * a for a in h(T(w))]
    T2 = h.target_triangulation
    L = curver.kernel.IntegralLamination(T2, weights)
    size = sum(abs(a) for a in weights)
    ctx.nontrivial(size > 10**9)
    ctx.label(f'10^{len(str(size)) // 10 * 10}+')
    short, g = L.shorten() if case['drop'] is None else L.shorten(drop=case['drop'])
    ctx.equal(list(g(L)), list(short), 'g(L) == short')
    ctx.require(g.target_triangulation == short.triangulation, 'target of the conjugator')
    R2 = RTri.from_sig(short.triangulation.sig())
    if k == 1:
        kinds = {v: c for v, c in comps.items()}
        mine = sorted((c[0], c[1]) for c in kinds.values())
        new = check_short(ctx, R2, short, expected_class(comps))
        ctx.equal(sorted((c[0], c[1]) for c in new.values()), mine, 'component data')
    ctx.require(short.is_short(), 'is_short')
    ctx.equal(list(g.inverse()(short)), weights, 'inverse')
    bound = 10 * R.zeta * (10 + size.bit_length())
    ctx.require(len(g) <= bound, f'length {len(g)} of the conjugator for weights of {size.bit_length()} bits exceeds {bound}')
