''' Reference geometric intersection numbers, by comparing lifts of normal paths in the dual tree of the triangulation.

A path is a sequence of labels; label x in a path means "leave the triangle containing x across x, arriving in the triangle of ~x".
Closed paths are cyclic. Arc paths additionally start & end in the vertex opposite their first / last side.
Two lifts cross iff along their (finite) common subpath they swap sides. '''

from ref.tri import idx
from ref.strand import components, pos


def turn(T, x, y):
    ''' Arriving across x, leaving across y: +1 left turn, -1 right turn. '''
    a = ~x
    if y == T.nxt[a]:
        # anticlockwise next side after the entry side: the common vertex is the head of a == tail of x ... turning right.
        return -1
    assert y == T.nxt[T.nxt[a]], (x, y)
    return +1


def rev(word):
    return [~x for x in reversed(word)]


class Path:
    def __init__(self, kind, word):
        self.kind, self.word = kind, list(word)
        self.n = len(word)

    def get(self, i):
        ''' The ith label, or None if we have run off the end of an arc into a vertex. '''
        if self.kind == 'curve':
            return self.word[i % self.n]
        return self.word[i] if 0 <= i < self.n else None

    def reversed(self):
        return Path(self.kind, rev(self.word))


def crossings(T, A, B):
    ''' Yield (i, j, orient, sign) for each crossing of A and B: A.word[i] and B'.word[j] start the common subpath, where
    B' = B or its reverse (orient +1 / -1). sign = +1 iff B' goes from the right of A to the left of A. '''
    limit = A.n + B.n + 2 if True else 0
    for orient, Bp in ((1, B), (-1, B.reversed())):
        where = {}
        for j in range(Bp.n):
            where.setdefault(Bp.word[j], []).append(j)
        for i in range(A.n):
            x = A.word[i]
            for j in where.get(x, ()):
                pa, pb = A.get(i - 1), Bp.get(j - 1)
                if pa == pb:  # Not the start of an overlap (or both start in the same corner).
                    continue
                # Sides at the start, looking backwards from x: entering the triangle of x. Order around the triangle:
                # the previous labels leave across p so the entry side is ~p.  None means from the vertex opposite x.
                def entry(p):
                    # position seen from x's triangle: right entry = 0, vertex = 1, left entry = 2 when facing across x
                    if p is None:
                        return 1
                    # Facing across x: tail of x is on ... x runs anticlockwise around its triangle, so facing out its head is on the left.
                    # nxt[x] starts at the head of x: left side.
                    return 2 if ~p == T.nxt[x] else 0
                sa, sb = entry(pa), entry(pb)
                k = 0
                while True:
                    na, nb = A.get(i + k + 1), Bp.get(j + k + 1)
                    if na != nb or na is None:
                        break
                    k += 1
                    if k > limit:
                        break
                if k > limit:  # Parallel forever.
                    continue
                if na is None and nb is None:
                    continue  # End in the same corner.
                y = A.get(i + k)

                def leave(q):
                    if q is None:
                        return 1
                    # Arrived across y: entry side a = ~y. nxt[a] is on the right, nxt[nxt[a]] on the left.
                    return 0 if q == T.nxt[~y] else 2
                ea, eb = leave(na), leave(nb)
                if (sb - sa) * (eb - ea) < 0:
                    yield i, j, orient, (1 if sb < sa else -1)


def pieces(A):
    ''' All (entry side, exit side) pairs of a path, where the sides are labels of the triangle and None means the opposite vertex. '''
    if A.kind == 'curve':
        return [(~A.get(i - 1), A.get(i)) for i in range(A.n)]
    return [(None, A.word[0])] + [(~A.word[i], A.word[i + 1]) for i in range(A.n - 1)] + [(~A.word[-1], None)]


def terminal_crossings(T, A, B):
    ''' Crossings in a single triangle between pieces that have no side in common, at least one of which ends in a vertex. '''
    count = 0
    by_tri = {}
    for p in pieces(B):
        by_tri.setdefault(T.tri[p[0] if p[0] is not None else p[1]], []).append(p)
    for p in pieces(A):
        for q in by_tri.get(T.tri[p[0] if p[0] is not None else p[1]], ()):
            if (None in p or None in q) and not (set(p) - {None}) & (set(q) - {None}):
                count += 1
    return count


def count_crossings(T, A, B):
    return sum(1 for _ in crossings(T, A, B)) + terminal_crossings(T, A, B)


def component_intersection(T, v1, c1, v2, c2):
    k1, _, w1, i1 = c1
    k2, _, w2, i2 = c2
    if v1 == v2:
        return 0
    if not w1 and not w2:
        return 0
    if not w1:
        return pos(v2[i1[1]])
    if not w2:
        return pos(v1[i2[1]])
    return count_crossings(T, Path(k1, w1), Path(k2, w2))


def intersection(T, w1, w2, C1=None, C2=None):
    C1 = components(T, w1) if C1 is None else C1
    C2 = components(T, w2) if C2 is None else C2
    return sum(c1[1] * c2[1] * component_intersection(T, v1, c1, v2, c2) for v1, c1 in C1.items() for v2, c2 in C2.items())
