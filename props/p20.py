''' P20: isometries between triangulations are found completely and act faithfully. '''
from hypothesis import strategies as st

import curver
from ref.strand import components
from ref.tri import disjoint_union
from vf import gen
from vf.core import Property

K = curver.kernel
PROP = Property('P20', ['The reference enumerates isometries by brute force: every image of one label of each component, extended across triangles.'])


def canonical(f, zeta):
    return tuple(f[i] for i in range(zeta))


tri = st.one_of(gen.tri_specs(max_flips=3, glued=True, disconnected=True), st.tuples(st.integers(0, len(gen.SYMMETRIC) - 1), st.lists(gen.small_ints, max_size=1)).map(lambda t: {'sym': t[0], 'flips': t[1]}),
                st.tuples(st.integers(0, 5), st.integers(1, 2)).map(lambda t: {'sym': t[0], 'copies': t[1], 'flips': []}))


def build(spec):
    if 'sym' not in spec:
        return gen.build(spec)
    R = gen.symmetric(spec['sym'])
    out = R
    for _ in range(spec.get('copies', 0)):
        out = disjoint_union(out, R)
    for k in spec['flips']:
        options = gen.flippables(out)
        if options:
            out = out.flip(gen.pick(options, k))
    return out


relabel = st.lists(st.integers(0, 99), min_size=1, max_size=18)
code = st.lists(gen.small_ints, min_size=1, max_size=5)


def check_isometry(ctx, isom, f, R1, R2, T1, T2, w, hc):
    ''' isom acts as the label map f says. '''
    z = R1.zeta
    inv = {y: x for x, y in f.items()}
    ctx.require(isinstance(isom, K.Isometry) and isom.source_triangulation == T1 and isom.target_triangulation == T2, 'ends')
    ctx.equal({x: isom.label_map[x] for x in R1.labels()}, f, 'label map')
    ctx.equal(isom.is_identity(), all(x == y for x, y in f.items()), 'is_identity')
    e = isom.encode()
    L = T1(w)
    want = [w[inv[i] if inv[i] >= 0 else ~inv[i]] for i in range(z)]
    H = K.HomologyClass(T1, hc)
    chain = [0] * z
    for i, a in enumerate(hc):
        y = f[i]
        chain[y if y >= 0 else ~y] += a if y >= 0 else -a
    for m in (isom, e):
        image = m(L)
        ctx.require(image.triangulation == T2 and type(image) is type(L), 'kind of the image')
        ctx.equal(list(image), want, 'weights are permuted')
        ctx.require(m(H) == K.HomologyClass(T2, chain) and list(m(H)) == list(K.HomologyClass(T2, chain)), 'homology is permuted with signs')
    i = isom.inverse()
    ctx.require(i.source_triangulation == T2 and i.target_triangulation == T1, 'ends of the inverse')
    ctx.equal({x: i.label_map[x] for x in R2.labels()}, inv, 'label map of the inverse')
    ctx.require(i(isom(L)) == L and isom(i(isom(L))) == isom(L) and i(isom(H)) == H, 'the inverse undoes it')
    ctx.require(isom.inverse().inverse() == isom and e.inverse() == i.encode() and (e.inverse() * e) == T1.id_encoding(), 'inverses')


@PROP.sub(st.fixed_dictionaries({'tri': tri, 'relabel': relabel, 'other': st.one_of(st.just(None), st.just(None), st.just(None), tri, st.lists(gen.small_ints, min_size=1, max_size=2).map(lambda k: {'more': k})), 'lam': gen.lam_specs(wmax=3), 'hc': st.lists(st.integers(-5, 5), min_size=1, max_size=5), 'pick': st.lists(st.integers(0, 200), min_size=2, max_size=2)}), quick=600)
def enumeration(case, ctx):
    ''' All isometries between two triangulations, often relabellings of each other, against brute force, and how they act. Non-trivial: at least two isometries, or a disconnected surface. '''
    R1 = build(case['tri'])
    other = case['other']
    if other is None:
        R2 = R1.relabel(gen.full_map(gen.relabel_map(R1, case['relabel'])))
    elif 'more' in other:
        R2 = R1
        for k in other['more']:
            options = gen.flippables(R2)
            if options:
                R2 = R2.flip(gen.pick(options, k))
    else:
        R2 = build(other)
    if R1.zeta > 36:
        return
    T1, T2 = gen.ctri(R1), gen.ctri(R2)
    want = R1.isometries_to(R2)
    ctx.label(f'{min(len(want), 9)} isometries')
    ctx.nontrivial(len(want) > 1 or len(R1.components()) > 1)
    got = list(T1.isometries_to(T2))
    keys = [canonical(i.label_map, R1.zeta) for i in got]
    ctx.equal(len(set(keys)), len(keys), 'each isometry once')
    ctx.equal(sorted(keys), sorted(canonical(f, R1.zeta) for f in want), 'all isometries')
    ctx.equal(T1.is_isometric_to(T2), bool(want), 'is_isometric_to')
    ctx.equal(T2.is_isometric_to(T1), bool(want), 'is_isometric_to is symmetric')
    ctx.equal(len(set(keys)) if T1 == T2 else sum(1 for _ in T2.isometries_to(T1)), len(want), 'as many the other way')
    w = gen.lam_weights(R1, case['lam'])
    hc = [case['hc'][i % len(case['hc'])] * (i % 3 + 1) for i in range(R1.zeta)]
    chosen = [want[k % len(want)] for k in case['pick']] if want else []
    for f in chosen:
        isom = next(i for i in got if canonical(i.label_map, R1.zeta) == canonical(f, R1.zeta))
        check_isometry(ctx, isom, f, R1, R2, T1, T2, w, hc)
    selfs = R1.isometries_to(R1) if R1.zeta <= 21 or len(R1.components()) == 1 else None
    if selfs is not None:
        mine = list(T1.self_isometries())
        ctx.equal(sorted(canonical(i.label_map, R1.zeta) for i in mine), sorted(canonical(f, R1.zeta) for f in selfs), 'self-isometries')
        ctx.equal(sum(1 for i in mine if i.is_identity()), 1, 'one of them is the identity')
        if chosen:  # Composition is composition of maps.
            f, g = chosen[0], selfs[case['pick'][0] % len(selfs)]
            a = next(i for i in got if canonical(i.label_map, R1.zeta) == canonical(f, R1.zeta))
            b = next(i for i in mine if canonical(i.label_map, R1.zeta) == canonical(g, R1.zeta))
            both = T1.find_isometry(T2, {x: f[g[x]] for x in R1.labels()})
            ctx.require(a.encode() * b.encode() == both.encode(), 'composition')
            ctx.equal(list((a.encode() * b.encode())(T1(w))), list(both(T1(w))), 'composition')


@PROP.sub(st.fixed_dictionaries({'tri': tri, 'relabel': relabel, 'pick': st.integers(0, 200), 'keys': st.lists(st.integers(0, 60), max_size=5), 'damage': st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 4), st.integers(0, 60)).map(list)), 'lam': gen.lam_specs(wmax=3), 'same': st.booleans()}), quick=900)
def partial(case, ctx):
    ''' Partial label maps: extended exactly when there is exactly one extension (the identity on components that are not mentioned), refused otherwise. Non-trivial: a map that does not mention all labels. '''
    R1 = build(case['tri'])
    if R1.zeta > 30:
        return
    R2 = R1 if case['same'] else R1.relabel(gen.full_map(gen.relabel_map(R1, case['relabel'])))
    T1, T2 = gen.ctri(R1), gen.ctri(R2)
    fs = R1.isometries_to(R2)
    f = fs[case['pick'] % len(fs)]
    labels = R1.labels()
    given = {gen.pick(labels, k): f[gen.pick(labels, k)] for k in case['keys']}
    if case['damage'] and given:
        x = sorted(given)[case['damage'][0] % len(given)]
        given[x] = gen.pick(R2.labels(), case['damage'][1])
    ctx.nontrivial(len(given) < 2 * R1.zeta)
    touched = [c for c in R1.components() if any(x in given for x in c)]
    mentioned = {x for c in touched for x in c}
    fits = [g for g in fs if all(g[x] == y for x, y in given.items()) and all(g[x] == x for x in labels if x not in mentioned)]
    label_map = dict(given)
    before = dict(label_map)
    if not fits:
        ctx.label('refused')
        ctx.raises(ValueError, lambda: T1.find_isometry(T2, label_map), 'no isometry extends this')
        return
    ctx.label('extended')
    assert len(fits) == 1
    isom = T1.find_isometry(T2, label_map)
    ctx.equal(label_map, before, 'the argument is left alone')
    check_isometry(ctx, isom, fits[0], R1, R2, T1, T2, gen.lam_weights(R1, case['lam']), [3 * i - 7 for i in range(R1.zeta)])


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=3, glued=True, disconnected=True), 'relabel': relabel, 'again': relabel, 'lam': gen.lam_specs(wmax=4), 'how': st.integers(0, 3), 'bad': st.tuples(st.integers(0, 60), st.integers(0, 60)).map(list)}), quick=500)
def relabelling(case, ctx):
    ''' encode_relabel_edges against the relabelled model, given as a list, a dictionary or a partial dictionary; maps that are not bijections are refused. Non-trivial: a relabelling that is not the identity. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    z = R.zeta
    images = gen.relabel_map(R, case['relabel'])
    full = gen.full_map(images)
    ctx.nontrivial(images != list(range(z)))
    how = case['how']
    if how == 0:
        data = list(images)
    elif how == 1:
        data = dict(full)
    elif how == 2:  # Only one label of each edge.
        data = {(x if (x * 7 + len(images)) % 3 else ~x): full[x if (x * 7 + len(images)) % 3 else ~x] for x in range(z)}
    else:
        data = tuple(images)
    f = T.encode_relabel_edges(data)
    S = R.relabel(full)
    U = f.target_triangulation
    ctx.equal(U.sig(), S.sig(), 'the target is the relabelled triangulation')
    w = gen.lam_weights(R, case['lam'])
    L = T(w)
    image = [0] * z
    for i in range(z):
        image[full[i] if full[i] >= 0 else ~full[i]] = w[i]
    ctx.equal(list(f(L)), image, 'weights are permuted')
    ctx.equal(sorted((c[0], c[1]) for c in components(S, image).values()), sorted((c[0], c[1]) for c in components(R, w).values()), 'model')
    ctx.require(type(f(L)) is type(L), 'kind')
    for i in range(z):
        a = f(T.edge_homology(i))
        ctx.require(a == U.edge_homology(full[i]), 'homology is permuted with signs')
        ctx.equal(list(f(T.edge_arc(i))), list(U.edge_arc(full[i])), 'arcs are permuted')
    ctx.require(f.inverse()(f(L)) == L and (f.inverse() * f).is_identity(), 'inverse')
    second = gen.full_map(gen.relabel_map(S, case['again']))
    g = U.encode_relabel_edges([second[i] for i in range(z)])
    ctx.require(g * f == T.encode_relabel_edges([second[full[i]] for i in range(z)]), 'composition')
    # Refusals.
    x, y = case['bad'][0] % z, case['bad'][1] % z
    if x != y:
        broken = list(images)
        broken[x] = broken[y]
        ctx.raises((ValueError, AssertionError, KeyError), lambda: T.encode_relabel_edges(broken), 'not a bijection')
        broken[x] = ~broken[y]
        ctx.raises((ValueError, AssertionError, KeyError), lambda: T.encode_relabel_edges(broken), 'not a bijection')
        clash = {**full, x: full[y], y: full[x]}
        ctx.raises((ValueError, AssertionError, KeyError), lambda: T.encode_relabel_edges(clash), 'inconsistent on the inverses')
    broken = list(images)
    broken[x] = z + y
    ctx.raises((ValueError, AssertionError, KeyError), lambda: T.encode_relabel_edges(broken), 'out of range')
