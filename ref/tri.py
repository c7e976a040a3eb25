''' Reference model of labelled ideal triangulations, written from the definition only (no curver import).

A triangulation is a list of triples of integer labels; label x and ~x == -1-x are the two orientations of an edge. '''

ALPHABET = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-'


def idx(x):
    return x if x >= 0 else ~x


def b64_to_int(s):
    r = 0
    for c in reversed(s):
        r = r * 64 + ALPHABET.index(c)
    return r


def int_to_b64(n):
    out = ''
    while n > 0:
        out += ALPHABET[n % 64]
        n //= 64
    return out


def lehmer_decode(n, index):
    ''' The permutation of 0..n-1 with this index in lexicographic order. '''
    digits = []
    for k in range(1, n + 1):
        digits.append(index % k)
        index //= k
    digits.reverse()
    symbols = list(range(n))
    return [symbols.pop(d) for d in digits]


def lehmer_encode(perm):
    index = 0
    symbols = sorted(perm)
    for p in perm:
        index = index * len(symbols) + symbols.index(p)
        symbols.remove(p)
    return index


class UF:
    def __init__(self, items=()):
        self.p = {x: x for x in items}

    def find(self, x):
        self.p.setdefault(x, x)
        while self.p[x] != x:
            x = self.p[x]
        return x

    def union(self, x, y):
        x, y = self.find(x), self.find(y)
        if x != y:
            self.p[y] = x

    def classes(self):
        out = {}
        for x in self.p:
            out.setdefault(self.find(x), []).append(x)
        return list(out.values())


class RTri:
    def __init__(self, triples):
        self.triples = [tuple(t) for t in triples]
        assert all(len(t) == 3 for t in self.triples)
        assert len(self.triples) % 2 == 0
        self.zeta = 3 * len(self.triples) // 2
        assert sorted(x for t in self.triples for x in t) == list(range(-self.zeta, self.zeta)), triples
        self.nxt = {}  # Next edge anticlockwise in the same triangle.
        self.tri = {}
        for k, (a, b, c) in enumerate(self.triples):
            self.nxt[a], self.nxt[b], self.nxt[c] = b, c, a
            self.tri[a] = self.tri[b] = self.tri[c] = k

    def corner(self, x):
        return (x, self.nxt[x], self.nxt[self.nxt[x]])

    def canonical(self):
        ''' The canonical presentation: each triple starts with its least label & triples are sorted. '''
        out = []
        for t in self.triples:
            i = t.index(min(t))
            out.append(t[i:] + t[:i])
        return sorted(out)

    def sig(self):
        flat = [x + self.zeta for t in self.canonical() for x in t]
        return int_to_b64(self.zeta) + '_' + int_to_b64(lehmer_encode(flat))

    @classmethod
    def from_sig(cls, sig):
        z, i = sig.split('_')
        zeta = b64_to_int(z)
        perm = lehmer_decode(2 * zeta, b64_to_int(i))
        return cls([tuple(x - zeta for x in perm[k:k + 3]) for k in range(0, 2 * zeta, 3)])

    def is_flippable(self, x):
        return self.tri[x] != self.tri[~x]

    def flip(self, x):
        ''' Flip x: (x,a,b),(~x,c,d) --> (x,d,a),(~x,b,c), so a non-negative label is rotated clockwise and a negative one anticlockwise. '''
        assert self.is_flippable(x)
        _, a, b = self.corner(x)
        _, c, d = self.corner(~x)
        keep = [t for k, t in enumerate(self.triples) if k not in (self.tri[x], self.tri[~x])]
        if x < 0:
            return RTri(keep + [(~x, d, a), (x, b, c)])
        return RTri(keep + [(x, d, a), (~x, b, c)])

    def relabel(self, f):
        ''' f: dict label -> label (equivariant under ~). '''
        return RTri([tuple(f[x] for x in t) for t in self.triples])

    def labels(self):
        return list(range(-self.zeta, self.zeta))

    def rotate_about_tail(self, x):
        ''' The next label anticlockwise with the same tail as x. '''
        return ~self.corner(x)[2]

    def vertices(self):
        seen, out = set(), []
        for x in self.labels():
            if x in seen:
                continue
            cyc = []
            y = x
            while y not in seen:
                seen.add(y)
                cyc.append(y)
                y = self.rotate_about_tail(y)
            out.append(tuple(cyc))
        return out

    def vertex_of(self):
        return {x: k for k, v in enumerate(self.vertices()) for x in v}

    def components(self):
        uf = UF(self.labels())
        for t in self.triples:
            uf.union(t[0], t[1])
            uf.union(t[0], t[2])
        for x in self.labels():
            uf.union(x, ~x)
        return sorted(tuple(sorted(c)) for c in uf.classes())

    def surface(self):
        ''' Map component -> (genus, punctures, chi). '''
        verts = self.vertices()
        out = {}
        for comp in self.components():
            cs = set(comp)
            V = sum(1 for v in verts if v[0] in cs)
            E = len(comp) // 2
            F = 2 * E // 3
            closed = V - E + F
            assert closed % 2 == 0
            out[comp] = ((2 - closed) // 2, V, -E + F)
        return out

    def isometries_to(self, other):
        ''' All label maps giving orientation preserving isometries self -> other, by brute force. '''
        if self.zeta != other.zeta:
            return []
        comps = self.components()
        partial = [dict()]
        for comp in comps:
            start = comp[0]
            new = []
            for f in partial:
                used = set(f.values())
                for target in other.labels():
                    if target in used:
                        continue
                    g = {start: target}
                    todo = [start]
                    ok = True
                    while todo and ok:
                        x = todo.pop()
                        y = g[x]
                        for x2, y2 in ((~x, ~y), (self.nxt[x], other.nxt[y])):
                            if x2 in g:
                                if g[x2] != y2:
                                    ok = False
                                    break
                            else:
                                g[x2] = y2
                                todo.append(x2)
                    if not ok or len(set(g.values())) != len(g):
                        continue
                    h = dict(f)
                    h.update(g)
                    new.append(h)
            partial = new
        return partial


def glue(ntriangles, code):
    ''' A (possibly disconnected) triangulation from a list of integers: the labels are a permutation decoded from code. '''
    zeta = 3 * ntriangles // 2
    symbols = list(range(-zeta, zeta))
    perm = []
    for k in range(2 * zeta):
        c = code[k] if k < len(code) else 0
        perm.append(symbols.pop(c % len(symbols)))
    return RTri([tuple(perm[i:i + 3]) for i in range(0, 2 * zeta, 3)])


def disjoint_union(A, B):
    s = A.zeta

    def shift(x):
        return x + s if x >= 0 else x - s
    return RTri(A.triples + [tuple(shift(x) for x in t) for t in B.triples])
