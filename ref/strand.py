''' Reference model of integral laminations: explicit strands in an explicit triangulation.

Weight w >= 0 on an edge means that w strands cross it; weight -k means k arcs parallel to it. Inside a triangle (a, b, c)
with non-negative parts the strands cut off corners, except that when one side outweighs the other two together
the surplus strands run from that side into the opposite vertex. '''

from ref.tri import RTri, UF, idx


class Invalid(Exception):
    pass


def pos(w):
    return w if w > 0 else 0


def corners(A, B, C):
    ''' (ab, bc, ca, (side, surplus)): number of strands across each corner. '''
    if A > B + C:
        return B, 0, C, (0, A - B - C)
    if B > A + C:
        return A, C, 0, (1, B - A - C)
    if C > A + B:
        return 0, B, A, (2, C - A - B)
    if (A + B + C) % 2:
        raise Invalid('odd triangle')
    return (A + B - C) // 2, (B + C - A) // 2, (C + A - B) // 2, (0, 0)


def is_valid(T, w):
    try:
        for a, b, c in T.triples:
            corners(pos(w[idx(a)]), pos(w[idx(b)]), pos(w[idx(c)]))
    except Invalid:
        return False
    return True


def fix_parity(T, w):
    ''' A deterministic valid weight vector near w: bad triangles are paired up by dual paths whose edges are bumped by one. '''
    w = list(w)

    def bump(e):
        w[e] = w[e] + 1 if w[e] >= 0 else 1

    def sides(k):
        return [pos(w[idx(x)]) for x in T.triples[k]]

    def bad(k):
        try:
            corners(*sides(k))
        except Invalid:
            return True
        return False

    for _ in range(T.zeta + 4):
        bads = [k for k in range(len(T.triples)) if bad(k)]
        if not bads:
            return w
        start = bads[0]
        parent = {start: None}
        todo = [start]
        goal = fallback = None
        for k in todo:
            if k != start:
                if bad(k):
                    goal = k
                    break
                A, B, C = sides(k)
                if fallback is None and (A > B + C or B > A + C or C > A + B):
                    fallback = k
            for x in T.triples[k]:
                if T.tri[~x] not in parent:
                    parent[T.tri[~x]] = (k, idx(x))
                    todo.append(T.tri[~x])
        if goal is None:
            goal = fallback
        if goal is None:
            bump(idx(max(T.triples[start], key=lambda x: (w[idx(x)], idx(x)))))
            continue
        while parent[goal] is not None:
            goal, e = parent[goal]
            bump(e)
    return [2 * x if x > 0 else x for x in w]


class Strands:
    ''' All the strands of a weight vector w on T.

    A point is (index, i): the ith strand crossing edge `index`, counted from the tail of the positive orientation. '''

    def __init__(self, T, w):
        self.T = T
        self.w = list(w)
        self.link = {}  # (label, i) --> (label2, j) : entering a triangle across `label` (which belongs to that triangle)
        #                  at position i from tail of label one leaves across label2 at position j from tail of label2; or ('V', corner label)
        self.start = []  # (corner label, side label, i): strands that start in a vertex.
        self.corner_count = {}
        for t in T.triples:
            W = [pos(self.w[idx(x)]) for x in t]
            ab, bc, ca, (side, surplus) = corners(*W)
            cnt = [ab, bc, ca]
            for k in range(3):
                x, y = t[k], t[(k + 1) % 3]
                self.corner_count[y] = cnt[k]  # Number of strands cutting off the corner at the tail of y.
                for i in range(cnt[k]):
                    self.link[(x, W[k] - 1 - i)] = (y, i)
                    self.link[(y, i)] = (x, W[k] - 1 - i)
            if surplus:
                x = t[side]
                first = cnt[(side - 1) % 3]
                corner = t[(side + 2) % 3]  # The vertex opposite x is the tail of corner.
                for i in range(first, first + surplus):
                    self.link[(x, i)] = ('V', corner)
                    self.start.append((corner, x, i))
            assert sum(1 for i in range(W[0]) if (t[0], i) in self.link) == W[0]

    def flip_side(self, label, i):
        ''' The same point seen from the other side. '''
        return (~label, pos(self.w[idx(label)]) - 1 - i)

    def components(self):
        ''' Return a list of (kind, word, info): kind 'curve' | 'arc'; word: the labels crossed (leaving direction), a label is
        recorded as the label belonging to the triangle being left. Arcs also have info = (start corner, end corner). '''
        seen = set()
        out = []

        def canon(label, i):
            return (label, i) if label >= 0 else self.flip_side(label, i)
        for corner, x, i in self.start:
            if canon(x, i) in seen:
                continue
            word = []
            label, j = x, i
            while True:
                seen.add(canon(label, j))
                word.append(label)
                nxt = self.link[self.flip_side(label, j)]
                if nxt[0] == 'V':
                    out.append(('arc', word, (corner, nxt[1])))
                    break
                label, j = nxt
        for e in range(self.T.zeta):
            for i in range(pos(self.w[e])):
                if (e, i) in seen:
                    continue
                word = []
                label, j = e, i
                while True:
                    seen.add(canon(label, j))
                    word.append(label)
                    label, j = self.link[self.flip_side(label, j)]
                    if (label, j) == (e, i):
                        break
                out.append(('curve', word, None))
        return out


def vec(T, word):
    w = [0] * T.zeta
    for x in word:
        w[idx(x)] += 1
    return tuple(w)


def components(T, w):
    ''' {weight vector: (kind, multiplicity, word, info)}. '''
    out = {}
    for kind, word, info in Strands(T, w).components():
        v = vec(T, word)
        if v in out:
            k, m, a, b = out[v]
            out[v] = (k, m + 1, a, b)
        else:
            out[v] = (kind, 1, word, info)
    for e in range(T.zeta):
        if w[e] < 0:
            v = tuple(-1 if i == e else 0 for i in range(T.zeta))
            out[v] = ('arc', -w[e], [], ('E', e))
    return out


def is_peripheral_word(T, word):
    ''' Whether a closed word turns the same way forever. '''
    n = len(word)
    left = all(word[(i + 1) % n] == T.nxt[~word[i]] for i in range(n))
    right = all(word[(i + 1) % n] == T.nxt[T.nxt[~word[i]]] for i in range(n))
    return left or right


def flip_weights(T, w, x):
    ''' The weights after flipping x, by following the maximal pieces of the lamination through the square around x. '''
    _, a, b = T.corner(x)
    _, c, d = T.corner(~x)
    e = idx(x)
    W = {k: pos(w[idx(k)]) for k in (a, b, c, d, x)}
    # Triangle A = (x, a, b) and B = (~x, c, d), vertices: BL = tail x, TR = head x = tail a, TL = tail b, BR = tail d.
    # links on the e side: for triangle A position i along x from tail; for B position i along ~x from its tail.

    def side(first, second, third):
        ''' For triangle (f, s, t) return list, per position on f, of what it connects to: 's', 't' or 'V' (the opposite vertex). '''
        F, S, Tt = first, second, third
        fs, st, tf, (sd, surplus) = corners(F, S, Tt)
        res = []
        for i in range(F):
            if i < tf:
                res.append('t')
            elif i >= F - fs:
                res.append('s')
            else:
                res.append('V')
        # Number of pieces not meeting f: second-third corner arcs, and arcs from s (or t) to the vertex opposite it.
        return res, st, (sd, surplus)
    ra, ab, sa = side(W[x], W[a], W[b])
    rb, cd, sb = side(W[x], W[c], W[d])
    n = 0
    par = 0
    names_a = {'s': 'a', 't': 'b', 'V': 'TL'}
    names_b = {'s': 'c', 't': 'd', 'V': 'BR'}
    right = {'a', 'd'}
    for i in range(W[x]):
        p = names_a[ra[i]]
        q = names_b[rb[W[x] - 1 - i]]
        if p == 'TL' and q == 'BR':
            par += 1
        elif p == 'TL' or q == 'BR':
            pass
        elif (p in right) != (q in right):
            n += 1
    n += ab + cd  # Corner strands a-b and c-d are cut by the other diagonal.
    # Terminal strands ending at an end of x: from a into BL, from b into TR, from c into TR, from d into BL.
    # They are separated from their vertex by the new diagonal: a is on the right, BL on the left, etc.
    if sa[1] and sa[0] in (1, 2):
        n += sa[1]
    if sb[1] and sb[0] in (1, 2):
        n += sb[1]
    if w[e] < 0:
        n += -w[e]
    out = list(w)
    if par:
        assert n == 0
        out[e] = -par
    else:
        out[e] = n
    return out


class Complement:
    ''' The complementary regions of the lamination w (each component once or more; parallel copies give annuli / bigons). '''

    def __init__(self, T, w):
        self.T, self.w = T, list(w)
        S = Strands(T, w)
        self.S = S
        verts = T.vertex_of()
        uf = UF()          # faces
        ends = UF()        # gaps
        gap_info = {}      # gap -> ('corner', vertex) or ('strand', point) or ...
        seg_face = {}
        seg_gap = {}       # segment -> (gap before, gap after) anticlockwise around face
        faces = []
        for k, t in enumerate(T.triples):
            W = [pos(w[idx(x)]) for x in t]
            # Boundary segments anticlockwise: (x, s), s = 0..W. Segment s runs from point s-1 to point s. (tail = corner at s = 0, head at s = W)
            order = [(x, s) for x, n in zip(t, W) for s in range(n + 1)]
            # At the head of segment (x, s): if s < W: the point (x, s), which starts a strand into the triangle.
            # Faces: walk: from segment (x,s), at its head follow the strand to its far end and continue from there.
            nxt = {}
            surplus_corner = None
            for x, n in zip(t, W):
                for s in range(n + 1):
                    if s < n:
                        l = S.link[(x, s)]
                        if l[0] == 'V':
                            surplus_corner = l[1]
                            # The face runs along the strand into the vertex then out along the edge `corner`, its first segment.
                            nxt[(x, s)] = ((l[1], 0), ('strandV', (x, s)))
                        else:
                            y, j = l
                            nxt[(x, s)] = ((y, j + 1), ('strand', (x, s)))
                    else:
                        y = T.nxt[x]
                        nxt[(x, s)] = ((y, 0), ('corner', y))
            # Terminal strands: the segment just before vertex (the head of the edge before corner) should turn onto the last strand.
            if surplus_corner is not None:
                x = T.nxt[T.nxt[surplus_corner]]  # edge ending at the vertex is prev(corner)
                prev = T.nxt[T.nxt[surplus_corner]]
                side = T.nxt[surplus_corner]
                assert T.nxt[prev] == surplus_corner
                pts = [i for i in range(pos(w[idx(side)])) if S.link[(side, i)][0] == 'V']
                first, last = min(pts), max(pts)
                # Anticlockwise: side runs ... the strands in position first..last end at the vertex.
                # Segment (side, first) has head point `first`: goes along strand to vertex, then onto (corner, 0). Good for first only.
                # Segment (side, i), first < i <= last lies between strands i-1 and i: bigon-ish face side seg only.
                for i in range(first + 1, last + 1):
                    nxt[(side, i)] = ((side, i), ('strandV', (side, i)))
                # The head of prev's last segment turns down the last strand to the point `last`, continuing with segment last+1.
                nxt[(prev, pos(w[idx(prev)]))] = ((side, last + 1), ('strandV', (side, last)))
            seen = set()
            for seg in order:
                if seg in seen:
                    continue
                f = len(faces)
                face = []
                cur = seg
                while cur not in seen:
                    seen.add(cur)
                    face.append(cur)
                    cur, kind = nxt[cur]
                    gap_info[(k, face[-1])] = kind
                assert cur == seg
                faces.append(face)
                for i, sg in enumerate(face):
                    seg_face[sg] = f
                    seg_gap[sg] = ((k, face[i - 1]), (k, sg))
                    ends.find((k, sg))
                uf.find(f)
        glued = 0
        face_edges = {}
        for e in range(T.zeta):
            n = pos(w[e])
            for s in range(n + 1):
                A, B = (e, s), (~e, n - s)
                if w[e] < 0:
                    for q in (A, B):
                        ends.union(seg_gap[q][0], seg_gap[q][1])
                    continue
                uf.union(seg_face[A], seg_face[B])
                ends.union(seg_gap[A][1], seg_gap[B][0])
                ends.union(seg_gap[A][0], seg_gap[B][1])
                glued += 1
                face_edges.setdefault(seg_face[A], []).append(e)
        self.regions = []
        region_of = {}
        for cls in uf.classes():
            r = len(self.regions)
            for f in cls:
                region_of[f] = r
            F = len(cls)
            E = sum(len(face_edges.get(f, ())) for f in cls)
            self.regions.append({'chi': F - E, 'faces': cls, 'ends': []})
        self.gap_roots = ends
        self.seg_gap = seg_gap
        self.end_region = {}  # root of a class of gaps -> (region, number of the end in it)
        face_of_gap = {(k, sg): seg_face[sg] for sg in seg_face for k in [T.tri[sg[0]]]}
        for cls in ends.classes():
            r = region_of[face_of_gap[cls[0]]]
            strands, vertices, edges = [], [], []
            for g in cls:
                kind, data = gap_info[g]
                if kind in ('strand', 'strandV'):
                    strands.append(data)
                    if kind == 'strandV':
                        vertices.append(None)
                else:
                    vertices.append(verts[data])
            for e in range(T.zeta):
                if w[e] < 0:
                    for x in (e, ~e):
                        if ends.find(seg_gap[(x, 0)][0]) == ends.find(cls[0]):
                            edges.append(x)
            self.end_region[ends.find(cls[0])] = (r, len(self.regions[r]['ends']))
            self.regions[r]['ends'].append({'strands': strands, 'vertices': vertices, 'edges': edges})
        for R in self.regions:
            n = len(R['ends'])
            g2 = 2 - n - R['chi']
            assert g2 % 2 == 0, (T.triples, w, R)
            R['genus'] = g2 // 2
            R['n'] = n
            R['punctures'] = sum(1 for E in R['ends'] if not E['strands'] and not E['edges'])

    def types(self):
        ''' Sorted list of (genus, number of ends, number of ends which are punctures). '''
        return sorted((R['genus'], R['n'], R['punctures']) for R in self.regions)

    def kinds(self):
        ''' Sorted list of (genus, ends made of arcs, ends that are curves, ends that are punctures), one for each region. '''
        closed = {}  # Whether the strand through a point (non-negative label, i) is closed.
        S = self.S
        for corner, x, i in S.start:
            label, j = x, i
            while True:
                closed[(label, j) if label >= 0 else S.flip_side(label, j)] = False
                nxt = S.link[S.flip_side(label, j)]
                if nxt[0] == 'V':
                    break
                label, j = nxt
        out = []
        for R in self.regions:
            count = [0, 0, 0]
            for E in R['ends']:
                if E['edges']:
                    count[0] += 1
                elif not E['strands']:
                    count[2] += 1
                else:
                    arcs = {not closed.get(p if p[0] >= 0 else S.flip_side(*p), True) for p in E['strands']}
                    assert len(arcs) == 1, (self.T.triples, self.w, E)
                    count[0 if arcs.pop() else 1] += 1
            out.append((R['genus'],) + tuple(count))
        return sorted(out)
