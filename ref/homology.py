''' Reference relative first homology: chains on edges modulo the boundaries of triangles. '''
from ref.tri import idx


def add(chain, x, k=1):
    ''' Add k times the oriented edge x. '''
    chain[idx(x)] += k if x >= 0 else -k


def homologous(T, a, b):
    ''' Whether a - b is a sum of boundaries of triangles: an integer n on each triangle with (a - b)(x) = n(left of x) - n(right of x). '''
    n = {}
    for t0 in range(len(T.triples)):
        if t0 in n:
            continue
        n[t0] = 0
        todo = [t0]
        while todo:
            t = todo.pop()
            for x in T.triples[t]:
                d = a[idx(x)] - b[idx(x)]
                if x < 0:
                    d = -d
                s = T.tri[~x]
                if s not in n:
                    n[s] = n[t] - d
                    todo.append(s)
                elif n[s] != n[t] - d:
                    return False
    return True


def rank(T):
    ''' Rank of H_1(S, punctures). '''
    return T.zeta - len(T.triples) + len(T.components())


def push(T, word, closed, start=None):
    ''' The chain obtained by sliding each crossing with an edge x to the tail of x. '''
    chain = [0] * T.zeta

    def inside(x, y):
        ''' From the tail of x to the tail of y through the triangle on the far side of x. '''
        a = ~x
        n1 = T.nxt[a]
        if y != n1 and y != a:
            add(chain, n1)
        elif y == a:  # Backtracks.
            add(chain, a, -1)
    if not closed:
        q = T.nxt[T.nxt[word[0]]]  # Its tail is the vertex opposite word[0] and its head the tail of word[0].
        add(chain, q)
    for x, y in zip(word, word[1:]):
        inside(x, y)
    if closed:
        inside(word[-1], word[0])
    else:
        add(chain, T.nxt[~word[-1]])
    return chain


def component_class(T, v, c):
    ''' The class of a component (from ref.strand.components), up to sign. '''
    if c[2] == []:
        out = [0] * T.zeta
        for i, a in enumerate(v):
            if a:
                out[i] = 1
        return out
    return push(T, c[2], c[0] == 'curve')


def twist_image(T, word, power, chain):
    ''' The image of a chain under the right Dehn twist about the closed curve word:  crossing it from one side turns right along it. '''
    cls = push(T, word, True)
    k = 0
    for x in word:  # Crosses x from its left to its right.
        k += chain[idx(x)] if x >= 0 else -chain[idx(x)]
    return [a + power * k * b for a, b in zip(chain, cls)]


def boundary(T, chain):
    ''' The boundary of a chain, as {vertex number: coefficient}. '''
    v = T.vertex_of()
    out = {}
    for e, k in enumerate(chain):
        out[v[~e]] = out.get(v[~e], 0) + k
        out[v[e]] = out.get(v[e], 0) - k
    return {p: k for p, k in out.items() if k}
