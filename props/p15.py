''' P15: crushing along a multicurve and lifting back. '''
from collections import Counter

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from ref.inter import component_intersection, intersection
from ref.strand import Complement, components, is_peripheral_word, pos

PROP = Property('P15', ['Crossing laminations are cut into arcs running into the new punctures; this is decided by their intersection numbers with lifted multicurves.'])
CURVES = gen.lam_specs(('walk', 'curve', 'multicurve', 'hull', 'walk'), 3)
KW = dict(disconnected=True)


def interpret(T, spec):
    return gen.lam_weights(T, spec)


def multicurve(R, spec):
    ''' Weights of a multicurve with at least one non-peripheral component, or None. '''
    w = gen.lam_weights(R, spec)
    curves = {v: c for v, c in components(R, w).items() if c[0] == 'curve'}
    if any(not is_peripheral_word(R, c[2]) for c in curves.values()):
        return [sum(v[e] * c[1] for v, c in curves.items()) for e in range(R.zeta)]
    return gen.nonperipheral_curve(R, spec)


def scene(n, moves=6):
    return st.fixed_dictionaries({'tri': gen.tri_specs(gen.COMPLEX, 5, **KW), 'curve': CURVES, 'lams': st.lists(gen.lam_specs(wmax=4), min_size=n, max_size=n), 'drag': gen.flips_list(moves)})


def build(case):
    ''' (R, multicurve weights, [lamination weights]) or None. '''
    R = gen.build(case['tri'])
    c = multicurve(R, case['curve'])
    if c is None:
        return None
    ws = [c] + [gen.lam_weights(R, s) for s in case['lams']]
    for k in case['drag']:
        options = gen.flippables(R)
        x = gen.pick(options, k)
        new = [gen.flip_weights(R, w, x) for w in ws]
        if any(sum(map(pos, w)) > 150 for w in new):
            continue
        R, ws = R.flip(x), new
    return R, ws[0], ws[1:]


def essential(R, comps):
    return {v: c for v, c in comps.items() if c[0] == 'curve' and not is_peripheral_word(R, c[2])}


def peripherals(R):
    ''' The weights of the peripheral curves of R. '''
    out = []
    for v in R.vertices():
        w = [0] * R.zeta
        for x in v:
            w[x if x >= 0 else ~x] += 1
        out.append(tuple(w))
    return out


@PROP.sub(scene(0), quick=200)
def surface(case, ctx):
    ''' The crushed surface is the surface cut along the non-peripheral components, and the lifts of its peripheral curves are the peripheral curves once and the crushed components
    twice. Non-trivial: at least two components are crushed, or the curve separates. '''
    built = build(case)
    if built is None:
        return
    R, c, _ = built
    T = gen.ctri(R)
    comps = gen.classify(ctx, R, c)
    ess = essential(R, comps)
    cut = [sum(v[e] for v in ess) for e in range(R.zeta)]
    expected = sorted((g, n) for g, n, _ in Complement(R, cut).types())
    ctx.nontrivial(len(ess) > 1 or len(expected) > len(R.components()))
    f = T(c).crush()
    ctx.equal(f.source_triangulation, T, 'source of the crush map')
    U = f.target_triangulation
    RU = gen.rtri(U)
    ctx.equal(sorted((g, p) for g, p, _ in RU.surface().values()), expected, f'surface crushed along {c} on {R.triples}')
    ctx.equal(sorted((S.g, S.p) for S in U.surface().values()), expected, 'surface() of the crushed triangulation')
    ctx.equal(RU.zeta, R.zeta, 'number of edges')
    lift = f.inverse()
    ctx.equal((lift.source_triangulation, lift.target_triangulation), (U, T), 'ends of the lift')
    lifts = Counter(tuple(lift(U(p))) for p in peripherals(RU))
    want = Counter(peripherals(R)) + Counter({v: 2 for v in ess})
    ctx.equal(lifts, want, f'lifts of peripheral curves, crushing {c} on {R.triples}')
    ctx.require(f(T(c)).is_peripheral(), 'the crushed multicurve is not peripheral')
    if not ess:
        ctx.equal(f, T.id_encoding(), 'crushing a peripheral multicurve')


@PROP.sub(scene(2), quick=200)
def cutting(case, ctx):
    ''' Crushing L cuts it along the multicurve c: the number of pieces is that given by i(L, c), those meeting a new puncture are counted by i(L, c_i), components of c vanish,
    disjoint components keep kind and multiplicity, and i(crush(L), d) = i(L, lift(d)) for multicurves d of the crushed surface. Non-trivial: L crosses c. '''
    built = build(case)
    if built is None:
        return
    R, c, (w, other) = built
    T = gen.ctri(R)
    cc, wc = components(R, c), gen.classify(ctx, R, w)
    ess = essential(R, cc)
    crossing = {v: sum(component_intersection(R, v, wc[v], u, ess[u]) for u in ess) for v in wc}
    meets = any(crossing.values())
    ctx.nontrivial(meets)
    ctx.label('crossing' if meets else 'disjoint')
    f = T(c).crush()
    lift = f.inverse()
    U = f.target_triangulation
    RU = gen.rtri(U)
    L = f(T(w))
    ctx.equal(L.triangulation, U, 'crush(L) lives on the crushed surface')
    msg = f'crushing {w} along {c} on {R.triples}'
    lc = components(RU, list(L))
    pieces = sum(0 if v in ess else wc[v][1] * (crossing[v] + (1 if wc[v][0] == 'arc' or not crossing[v] else 0)) for v in wc)
    ctx.equal(sum(k[1] for k in lc.values()), pieces, msg + ': number of pieces')
    ctx.equal(L.num_components(), pieces, msg + ': number of components')
    closed = sum(wc[v][1] for v in wc if wc[v][0] == 'curve' and not crossing[v] and v not in ess)
    ctx.equal(sum(k[1] for k in lc.values() if k[0] == 'curve'), closed, msg + ': number of curves')
    # Around punctures: lifts of peripheral curves are known to be the peripheral curves and the components of c.
    for p in peripherals(RU):
        up = list(lift(U(p)))
        ctx.equal(intersection(RU, p, list(L)), intersection(R, up, w), msg + f': number of ends at {p}')
    # Any other multicurve of the crushed surface.
    d = multicurve(RU, case['lams'][1])
    if d is not None:
        D = lift(U(d))
        up = list(D)
        ctx.require(isinstance(D, curver.kernel.MultiCurve), msg + f': lift of {d} is no multicurve')
        ctx.equal(intersection(R, up, c), 0, msg + f': lift of {d} is not disjoint')
        ctx.equal(intersection(RU, d, list(L)), intersection(R, up, w), msg + f': intersection with {d}, lifted {up}')
        ctx.equal(sum(k[1] for k in components(R, up).values()), sum(k[1] for k in components(RU, d).values()), msg + ': number of components of a lift')
        # Crushing a lift loses exactly the parts around new punctures.
        news = {p for p in peripherals(RU) if tuple(lift(U(p))) in ess}
        dc = components(RU, d)
        ctx.equal(list(f(D)), [sum(v[e] * k[1] for v, k in dc.items() if v not in news) for e in range(RU.zeta)], msg + f': crush(lift({d}))')
    # Another lamination: components disjoint from c survive one by one.
    oc = components(R, other)
    total = [0] * RU.zeta
    for v in wc:
        if not crossing[v]:
            image = f(T(v))
            if v in ess:
                ctx.require(image.is_empty(), msg + f': component {v} does not vanish')
            else:
                ic = components(RU, list(image))
                ctx.equal([k[:2] for k in ic.values()], [(wc[v][0], 1)], msg + f': kind of the image of {v}')
                ctx.equal(is_peripheral_word(RU, next(iter(ic.values()))[2]) if wc[v][0] == 'curve' else None, is_peripheral_word(R, wc[v][2]) if wc[v][0] == 'curve' else None, msg + f': peripherality of the image of {v}')
                ctx.equal(intersection(RU, list(image), list(f(T(other)))), sum(k[1] * component_intersection(R, v, wc[v], u, k) for u, k in oc.items()), msg + f': i(image of {v}, image of {other})')
                if wc[v][0] == 'curve':
                    ctx.equal(tuple(lift(image)), v, msg + f': lift of crush of {v}')
        total = [a + wc[v][1] * b for a, b in zip(total, f(T(v)))]
    if not meets:
        ctx.equal(list(L), total, msg + ': images of components add up')
    k = 3
    ctx.equal(list(f(k * T(w))), [k * a for a in L], msg + ': multiples')


@PROP.sub(st.fixed_dictionaries({'scene': scene(2, 3), 'moves': gen.moves_specs(max_size=3, power=3), 'power': st.integers(-10**4, 10**4)}), quick=160)
def natural(case, ctx):
    ''' Crushing forgets twists about c, and crushing h(c) after h is crushing c up to relabelling: intersection numbers between crushed laminations (and of pairs disjoint from c with anything), surface and
    numbers of components agree. Non-trivial: a lamination crosses c and h is not empty. '''
    built = build(case['scene'])
    if built is None:
        return
    R, c, ws = built
    T = gen.ctri(R)
    C = T(c)
    Ls = [T(w) for w in ws]
    f = C.crush()
    images = [f(L) for L in Ls]
    meets = [intersection(R, c, w) for w in ws]
    ctx.nontrivial(any(meets) and bool(case['moves']))
    twist = C.encode_twist(case['power'])
    if case['power'] % 3:
        for L, i in zip(Ls, images):
            ctx.equal(f(twist(L)), i, f'crushing {list(L)} along {c} after twisting {case["power"]} on {R.triples}')
    h = gen.mapping(T, case['moves'])
    if sum(map(pos, h(C))) > 3000 or any(sum(map(pos, h(L))) > 3000 for L in Ls):
        ctx.label('too large')
        return
    g = h(C).crush()
    ctx.equal(sorted(g.target_triangulation.surface().values()), sorted(f.target_triangulation.surface().values()), 'surface')
    images2 = [g(h(L)) for L in Ls]
    for i, j in zip(images, images2):
        ctx.equal(sorted((type(k).__name__, m) for k, m in i.components().items()), sorted((type(k).__name__, m) for k, m in j.components().items()), 'kinds of components')
    ctx.equal(images2[0].intersection(images2[1]), images[0].intersection(images[1]), f'crushed intersection numbers of {ws} along {c} on {R.triples} by {case["moves"]}')
    ctx.equal(images[0].intersection(images[1]), intersection(gen.rtri(f.target_triangulation), list(images[0]), list(images[1])), 'crushed intersection number')
    if any(not m and not set(components(R, w)) & set(components(R, c)) for m, w in zip(meets, ws)):
        ctx.equal(images[0].intersection(images[1]), intersection(R, *ws), 'intersection numbers of a disjoint pair')
