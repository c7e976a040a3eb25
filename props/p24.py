''' P24: permutations behave as elements of the symmetric group. '''
import copy
import pickle
from itertools import permutations as all_permutations
from math import factorial, gcd

from hypothesis import strategies as st

import curver
from vf.core import Property

Perm = curver.kernel.Permutation
PROP = Property('P24', ['Permutations are modelled as tuples of images; cycles, order, sign and rank are computed directly from the definitions.'])


def of(code, n):
    ''' The permutation of n symbols chosen by a list of integers. '''
    rest, out = list(range(n)), []
    for i in range(n):
        out.append(rest.pop((code[i % len(code)] + i // len(code)) % len(rest)))
    return tuple(out)


def cycles(p):
    out, seen = [], set()
    for i in range(len(p)):
        if i not in seen:
            k, x = 0, i
            while x not in seen:
                seen.add(x)
                x, k = p[x], k + 1
            out.append(k)
    return sorted(out)


def mul(p, q):
    return tuple(p[q[i]] for i in range(len(p)))


def inv(p):
    q = [0] * len(p)
    for i, x in enumerate(p):
        q[x] = i
    return tuple(q)


def power(p, k):
    ''' By walking along cycles. '''
    out = [0] * len(p)
    for i in range(len(p)):
        orbit, x = [i], p[i]
        while x != i:
            orbit.append(x)
            x = p[x]
        out[i] = orbit[k % len(orbit)]
    return tuple(out)


def lcm(values):
    n = 1
    for v in values:
        n = n * v // gcd(n, v)
    return n


def rank(p):
    ''' The number of permutations that come before p in lexicographic order. '''
    return sum(factorial(len(p) - 1 - i) * sum(1 for y in p[i + 1:] if y < x) for i, x in enumerate(p))


codes = st.lists(st.integers(0, 30), min_size=1, max_size=14)
sizes = st.one_of(st.integers(1, 7), st.integers(0, 14), st.integers(12, 26))
makers = [list, tuple]


@PROP.sub(st.fixed_dictionaries({'n': sizes, 'p': codes, 'q': codes, 'r': codes, 'k': st.one_of(st.integers(-12, 12), st.integers(-10**30, 10**30)), 'j': st.integers(-40, 40), 'as': st.integers(0, 1)}), quick=2500)
def group(case, ctx):
    ''' Group operations and invariants of up to 26 symbols against the definitions. Non-trivial: two permutations that do not commute. '''
    n = case['n']
    make = makers[case['as']]
    p, q, r = (of(case[x], n) for x in 'pqr')
    P, Q = Perm(make(p)), Perm(make(q))
    ctx.nontrivial(mul(p, q) != mul(q, p))
    ctx.label(f'order {lcm(cycles(p))}' if n < 8 else 'large')
    e = Perm(make(range(n)))

    def same(A, a, msg):
        ctx.require(isinstance(A, Perm), f'{msg}: a permutation')
        ctx.equal(tuple(A), tuple(a), msg)
        ctx.require(len(A) == n and A == Perm(list(a)) and Perm(tuple(a)) == A and not A != Perm(list(a)) and hash(A) == hash(Perm(tuple(a))), f'{msg}: equality')
    same(P, p, 'itself')
    ctx.equal([P[i] for i in range(n)] + [P(i) for i in range(n)], list(p) * 2, 'images')
    same(P * Q, mul(p, q), 'product: the right factor acts first')
    same(Q * P, mul(q, p), 'product')
    same(P.inverse(), inv(p), 'inverse')
    same(~P, inv(p), 'inverse')
    for k in (case['k'], case['j'], 0, 1, -1, 2):
        same(P**k, power(p, k), f'power {k}')
    same(P**case['j'] * P**case['k'], power(p, case['j'] + case['k']), 'powers add')
    ctx.require((P == Q) == (p == q) and (P != Q) == (p != q), 'equality')
    cs = cycles(p)
    ctx.equal(P.cycle_lengths(), cs, 'cycle lengths')
    if lcm(cs) <= 500:
        ctx.equal(P.order(), lcm(cs), 'order')
    same(P**lcm(cs), tuple(e), 'the order is an exponent')
    ctx.equal(P.is_even(), sum(c - 1 for c in cs) % 2 == 0, 'parity')
    ctx.equal(P.is_conjugate_to(Q), cs == cycles(q), 'conjugacy')
    R = Perm(make(r))
    ctx.require(P.is_conjugate_to(R * P * ~R) and (R * P * ~R).is_conjugate_to(P), 'conjugate to conjugates')
    ctx.require(not P.is_conjugate_to(Perm(list(range(n + 1)))), 'not conjugate to one of another size')
    if n:
        M = P.matrix()
        for i in range(n):
            v = [1 if j == i else 0 for j in range(n)]
            ctx.equal([int(x) for x in M.dot(v)], [1 if j == p[i] else 0 for j in range(n)], 'matrix')
        ctx.equal(P.matrix().dot(Q.matrix()).tolist(), (P * Q).matrix().tolist(), 'matrices multiply')
    for other in (Perm(list(range(n + 1))), Perm(tuple(range(n + 2)))):
        ctx.raises(ValueError, lambda o=other: P * o, 'different sizes')
        ctx.raises(ValueError, lambda o=other: o * P, 'different sizes')
    same(copy.deepcopy(P), p, 'copy')
    same(pickle.loads(pickle.dumps(P)), p, 'pickle')
    same(P, p, 'unchanged')


@PROP.sub(st.fixed_dictionaries({'n': sizes, 'p': codes, 'i': st.integers(0, 10**30), 'as': st.integers(0, 1)}), quick=2500)
def ranking(case, ctx):
    ''' index and from_index against the lexicographic rank. Non-trivial: at least four symbols. '''
    n = case['n']
    p = of(case['p'], n)
    ctx.nontrivial(n >= 4)
    P = Perm(makers[case['as']](p))
    k = rank(p)
    ctx.equal(P.index(), k, 'index')
    ctx.equal(tuple(Perm.from_index(n, k)), p, 'from_index')
    i = case['i'] % factorial(n)
    Q = Perm.from_index(n, i)
    ctx.equal(rank(tuple(Q)), i, 'rank of from_index')
    ctx.equal(Q.index(), i, 'index of from_index')
    ctx.require((i < k) == (tuple(Q) < p), 'order')


@PROP.sub(st.integers(0, 6), quick=7, thorough=8)
def everything(case, ctx):
    ''' Every permutation of up to six symbols, in order. Non-trivial: more than one. '''
    n = case
    ctx.nontrivial(n > 1)
    for i, p in enumerate(all_permutations(range(n))):
        P = Perm(list(p))
        ctx.equal((P.index(), tuple(Perm.from_index(n, i))), (i, p), 'enumeration')
        ctx.equal((P.cycle_lengths(), P.order(), P.is_even(), tuple(~P)), (cycles(p), lcm(cycles(p)), sum(c - 1 for c in cycles(p)) % 2 == 0, inv(p)), 'invariants')


@PROP.sub(st.fixed_dictionaries({'p': st.lists(st.integers(-2, 9), min_size=0, max_size=8), 'd': codes, 'n': st.integers(0, 9), 'order': codes, 'names': st.integers(0, 2)}), quick=1500)
def construction(case, ctx):
    ''' Only permutations of 0, ..., N-1 are accepted, and dictionaries are read in the given order. Non-trivial: something that is not a permutation. '''
    p = case['p']
    good = sorted(p) == list(range(len(p)))
    ctx.nontrivial(not good)
    if good:
        ctx.equal(list(Perm(p)), p, 'accepted')
    else:
        ctx.raises((AssertionError, ValueError, TypeError), lambda: Perm(p), 'refused')
        ctx.raises((AssertionError, ValueError, TypeError), lambda: Perm(tuple(p)), 'refused')
    n = case['n']
    perm, ordering = of(case['d'], n), of(case['order'], n)
    name = [lambda i: i, lambda i: 'abcdefghij'[i], lambda i: (i, 'x')][case['names']]
    d = {name(i): name(perm[i]) for i in range(n)}
    ctx.equal(list(Perm.from_dict(d)), list(perm), 'in the order of the dictionary')
    where = {x: i for i, x in enumerate(ordering)}
    ctx.equal(list(Perm.from_dict(d, ordering=[name(x) for x in ordering])), [where[perm[x]] for x in ordering], 'in the given order')
