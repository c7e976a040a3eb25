''' A complete invariant of laminations up to (orientation preserving) homeomorphism: the surface cut along the lamination, with
the gluing of the pieces, as a coloured directed graph up to isomorphism.

A region is determined by its genus and its ends. An end is a puncture, a side of a curve or a cyclic sequence of sides of arcs
(read with the region on the left). Homeomorphisms of a region can permute and rotate its ends at will, so two laminations are related
by a homeomorphism exactly when there is an isomorphism of this data that preserves multiplicities. '''
import networkx
from networkx.algorithms.isomorphism import DiGraphMatcher

from ref.strand import Complement, components, is_peripheral_word, pos
from ref.tri import idx


class Structure:
    def __init__(self, T, w, closed=False):
        comps = components(T, w)
        if closed:
            assert all(c[0] == 'curve' for c in comps.values())
            comps = {v: c for v, c in comps.items() if not is_peripheral_word(T, c[2])}
        skeleton = [0] * T.zeta
        for v in comps:
            skeleton = [a + b for a, b in zip(skeleton, v)]
        C = Complement(T, skeleton)
        S = C.S
        names = {v: ('comp', k) for k, v in enumerate(sorted(comps))}
        self.regions = {}                   # region -> genus
        self.ends = {}                      # (region, k) -> 'puncture' | 'curve' | 'arcs'
        for r, R in enumerate(C.regions):
            self.regions[r] = R['genus']
            for k, E in enumerate(R['ends']):
                self.ends[(r, k)] = 'puncture' if not E['strands'] and not E['edges'] else '?'
        self.curves = {}                    # name -> (multiplicity, end, end)
        self.arcs = {}                      # name -> multiplicity
        self.sides = {}                     # (name, direction) -> end, the one to its left
        self.follow = {}                    # (name, direction) -> the next side around that end

        def left_end(label, j):
            return C.end_region[C.gap_roots.find(C.seg_gap[(label, j + 1)][0])]

        def right_end(label, j):
            return C.end_region[C.gap_roots.find(C.seg_gap[(label, j)][1])]
        # Walk all strands.
        at_corner = {}                      # corner -> [(position on the opposite side, directed arc)]
        for kind, word, info, first in walks(T, S):
            v = [0] * T.zeta
            for x in word:
                v[idx(x)] += 1
            name = names[tuple(v)]
            if kind == 'curve':
                self.curves[name] = (comps[tuple(v)][1], left_end(*first), right_end(*first))
            else:
                self.arcs[name] = comps[tuple(v)][1]
                self.sides[(name, 0)] = left_end(*first)
                self.sides[(name, 1)] = right_end(*first)
                (c0, p0), (c1, p1) = info
                at_corner.setdefault(c0, []).append((p0, (name, 0)))
                at_corner.setdefault(c1, []).append((p1, (name, 1)))
        for e in range(T.zeta):
            if skeleton[e] < 0:
                name = names[tuple(-1 if i == e else 0 for i in range(T.zeta))]
                self.arcs[name] = comps[tuple(-1 if i == e else 0 for i in range(T.zeta))][1]
                for d, x in enumerate((e, ~e)):
                    self.sides[(name, d)] = C.end_region[C.gap_roots.find(C.seg_gap[(x, 0)][0])]
        # Rotation at each vertex: directed arcs leaving it, anticlockwise.
        for cycle in T.vertices():
            out = []
            for x in cycle:  # Anticlockwise; the corner between x and the next label lies in the triangle of x, with tail(x) as its vertex.
                if skeleton[idx(x)] < 0:
                    out.append((names[tuple(-1 if i == idx(x) else 0 for i in range(T.zeta))], 0 if x >= 0 else 1))
                out.extend(a for _, a in sorted(at_corner.get(x, [])))
            for a, b in zip(out, out[1:] + out[:1]):
                # The left side of b's predecessor: arriving at the vertex along b reversed, with the region on the left, one leaves along the next directed arc clockwise.
                self.follow[(b[0], 1 - b[1])] = a
        for x in self.sides.values():
            self.ends[x] = 'arcs'
        for _, e1, e2 in self.curves.values():
            self.ends[e1] = self.ends[e2] = 'curve'
        assert '?' not in self.ends.values()
        assert all(self.sides[s] == self.sides[t] for s, t in self.follow.items()), (T.triples, w)
        if closed:
            self.forget()

    def forget(self):
        ''' Fill in the punctures. '''
        self.ends = {e: k for e, k in self.ends.items() if k != 'puncture'}
        while True:
            for r, g in self.regions.items():
                es = [e for e in self.ends if e[0] == r]
                if g == 0 and len(es) == 2:
                    owners = [name for name, (_, a, b) in self.curves.items() for e in (a, b) if e in es]
                    if owners[0] != owners[1]:
                        break
            else:
                return
            m, far = 0, []
            for name in owners:
                k, a, b = self.curves.pop(name)
                m += k
                far += [e for e in (a, b) if e not in es]
            self.curves[owners[0]] = (m, far[0], far[1])
            del self.regions[r]
            for e in es:
                del self.ends[e]

    def graph(self):
        G = networkx.DiGraph()
        for r, g in self.regions.items():
            G.add_node(('region', r), c=f'region {g}')
        for e, kind in self.ends.items():
            G.add_node(('end', e), c=f'end {kind}')
            G.add_edge(('region', e[0]), ('end', e))
        for name, (m, a, b) in self.curves.items():
            G.add_node(name, c=f'curve {m}')
            G.add_edge(name, ('end', a))
            G.add_edge(name, ('end', b))
        for name, m in self.arcs.items():
            G.add_node(name, c=f'arc {m}')
        for s, e in self.sides.items():
            G.add_node(('side', s), c='side')
            G.add_edge(('end', e), ('side', s))
            G.add_edge(s[0], ('side', s))
        for s, t in self.follow.items():
            G.add_edge(('side', s), ('side', t), )
            if s == t:
                G.nodes[('side', s)]['c'] = 'loop'
        return G

    def isomorphic(self, other):
        A, B = self.graph(), other.graph()
        if sorted(d for _, d in A.nodes(data='c')) != sorted(d for _, d in B.nodes(data='c')):
            return False
        return DiGraphMatcher(A, B, node_match=lambda x, y: x['c'] == y['c']).is_isomorphic()


def walks(T, S):
    ''' All strands as (kind, word, info, first): first is the point (label, j) of the first crossing; arcs have info ((corner, position), (corner, position)), the position being
    that on the side opposite the corner. '''
    seen = set()

    def canon(label, i):
        return (label, i) if label >= 0 else S.flip_side(label, i)
    for corner, x, i in S.start:
        if canon(x, i) in seen:
            continue
        word = []
        label, j = x, i
        while True:
            seen.add(canon(label, j))
            word.append(label)
            far = S.flip_side(label, j)
            nxt = S.link[far]
            if nxt[0] == 'V':
                yield 'arc', word, ((corner, i), (nxt[1], far[1])), (x, i)
                break
            label, j = nxt
    for e in range(T.zeta):
        for i in range(pos(S.w[e])):
            if (e, i) in seen:
                continue
            word = []
            label, j = e, i
            while True:
                seen.add(canon(label, j))
                word.append(label)
                label, j = S.link[S.flip_side(label, j)]
                if (label, j) == (e, i):
                    break
            yield 'curve', word, None, (e, i)
