''' The quotient orbifold of a cyclic group of mapping classes from traces on homology (Lefschetz numbers), the permutation of the
punctures and the Riemann-Hurwitz formula: independent of invariant polygonalisations. '''
from fractions import Fraction

import numpy as np


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def mobius(n):
    out, p = 1, 2
    while n > 1:
        if n % p == 0:
            n //= p
            if n % p == 0:
                return 0
            out = -out
        p += 1
    return out


def puncture_map(f):
    ''' How the punctures move, read off the peripheral curves. '''
    T = f.source_triangulation
    verts = list(T.vertices)
    curve = {v: T.curve_from_cut_sequence(v) for v in verts}
    lookup = {tuple(c): v for v, c in curve.items()}
    assert len(lookup) == len(verts) or not T.is_connected() or T.zeta == 3
    return {v: lookup[tuple(f(curve[v]))] for v in verts}


def quotient(f, order):
    ''' One entry for each orbit of components:
    {'size', 'order' (of the action of the first return map on a component), 'chi' (orbifold Euler characteristic), 'genus', 'cones': sorted list of (punctured, order)}.
    order is the order of f. '''
    T = f.source_triangulation
    comps = {c: s for c, s in T.surface().items()}
    basis = T.homology_basis()
    where = []
    comp_of = {e.index: c for c in comps for e in c}
    for hc in basis:
        owners = {comp_of[i] for i, a in enumerate(hc) if a}
        assert len(owners) == 1
        where.append(owners.pop())
    M = f.homology_matrix()
    powers = [np.identity(M.shape[0], dtype=object)]
    lams = [T.as_lamination()]
    perm = puncture_map(f)
    perms = [{v: v for v in perm}]
    for _ in range(order):
        powers.append(M.dot(powers[-1]))
        lams.append(f(lams[-1]))
        perms.append({v: perm[w] for v, w in perms[-1].items()})
    comp_of_v = {v: comp_of[v[0].index] for v in perm}
    comp_map = {comp_of_v[v]: comp_of_v[w] for v, w in perm.items()}
    out, done = [], set()
    for C in comps:
        if C in done:
            continue
        orbit = [C]
        while comp_map[orbit[-1]] != C:
            orbit.append(comp_map[orbit[-1]])
        done |= set(orbit)
        k = len(orbit)
        idx = [i for i, c in enumerate(where) if c == C]
        edges = sorted({e.index for e in C})
        verts = [v for v in perm if comp_of_v[v] == C]

        def trivial(j):
            return all(powers[j][a][b] == (a == b) for a in idx for b in idx) and all(lams[j](e) == -1 for e in edges) and all(perms[j][v] == v for v in verts)
        e = next(j for j in range(1, order // k + 1) if trivial(j * k))
        closed_fix, punct_fix = {}, {}
        for m in divisors(e):
            j = k * (e // m)  # Generates the subgroup of order m.
            fixed = sum(1 for v in verts if perms[j][v] == v)
            trace = sum(powers[j][a][a] for a in idx)
            closed_fix[m] = None if m == 1 else 2 - (trace - (fixed - 1))
            punct_fix[m] = fixed
        cones = []
        for m in divisors(e):
            ms = [x for x in divisors(e) if x % m == 0]
            p = Fraction(sum(mobius(x // m) * punct_fix[x] for x in ms), e // m)
            assert p.denominator == 1 and p >= 0, 'orbits of punctures'
            cones += [(True, m)] * int(p)
            if m > 1:
                c = Fraction(sum(mobius(x // m) * closed_fix[x] for x in ms), e // m) - p
                assert c.denominator == 1 and c >= 0, 'orbits of fixed points'
                cones += [(False, m)] * int(c)
        chi = Fraction(comps[C].chi, e)
        genus = (2 - chi - sum(1 if p else 1 - Fraction(1, m) for p, m in cones)) / 2
        assert genus.denominator == 1 and genus >= 0, 'genus of the quotient'
        out.append({'size': k, 'order': e, 'chi': chi, 'genus': int(genus), 'cones': sorted(cones), 'kernel': order // (k * e)})
    return sorted(out, key=lambda o: sorted(o.items(), key=str).__repr__())


def quotient_group(elements):
    ''' (chi, genus, sorted cones) of the quotient of a connected surface by a finite group given as the list of its elements. '''
    T = elements[0].source_triangulation
    [S] = T.surface().values()
    n = len(elements)
    perms = [puncture_map(h) for h in elements]
    keys = [(tuple(map(tuple, h.intersection_matrix())), tuple(map(tuple, h.homology_matrix()))) for h in elements]
    index = {k: i for i, k in enumerate(keys)}
    assert len(index) == n
    trivial = [i for i, h in enumerate(elements) if h.order() == 1]
    cyclic = {}
    for i, h in enumerate(elements):  # The cyclic subgroups, as sets of indices.
        powers, g = [i], h
        while powers[-1] != trivial[0]:
            g = h * g
            powers.append(index[(tuple(map(tuple, g.intersection_matrix())), tuple(map(tuple, g.homology_matrix())))])
        cyclic.setdefault(frozenset(powers), i)
    fix, pfix = {}, {}
    for C, i in cyclic.items():
        M = elements[i].homology_matrix()
        p = sum(1 for v, w in perms[i].items() if v == w)
        pfix[C] = p
        fix[C] = None if len(C) == 1 else 2 - (sum(M[a][a] for a in range(M.shape[0])) - (p - 1))
    exact, pexact = {}, {}
    for C in sorted(cyclic, key=len, reverse=True):
        above = [D for D in exact if C < D]
        pexact[C] = pfix[C] - sum(pexact[D] for D in above)
        exact[C] = None if len(C) == 1 else fix[C] - sum(exact[D] for D in above)
        assert pexact[C] >= 0 and (exact[C] is None or exact[C] >= pexact[C])
    cones = []
    for m in sorted({len(C) for C in cyclic}):
        p = Fraction(sum(pexact[C] for C in cyclic if len(C) == m), n // m)
        assert p.denominator == 1
        cones += [(True, m)] * int(p)
        if m > 1:
            c = Fraction(sum(exact[C] for C in cyclic if len(C) == m), n // m) - p
            assert c.denominator == 1 and c >= 0
            cones += [(False, m)] * int(c)
    chi = Fraction(S.chi, n)
    genus = (2 - chi - sum(1 if p else 1 - Fraction(1, m) for p, m in cones)) / 2
    assert genus.denominator == 1 and genus >= 0
    return chi, int(genus), sorted(cones)
