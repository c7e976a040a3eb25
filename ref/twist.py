''' Reference right Dehn twists: cut and reglue paths in the dual graph of the triangulation, then pull tight.

Wherever a strand meets the curve, it turns right, runs around the curve and carries on. '''

from ref.tri import idx
from ref.strand import Strands, components, pos
from ref.inter import Path, crossings, rev


def traced(T, v):
    ''' The closed curve v as a list of (label, position from the tail of that label). '''
    S = Strands(T, v)
    e = next(e for e in range(T.zeta) if v[e] > 0)
    out = []
    label, j = e, 0
    while True:
        out.append((label, j))
        label, j = S.link[S.flip_side(label, j)]
        assert label != 'V'
        if (label, j) == (e, 0):
            return out


def path_reduce(word):
    out = []
    for x in word:
        if out and out[-1] == ~x:
            out.pop()
        else:
            out.append(x)
    return out


def cyclic_reduce(word):
    out = path_reduce(word)
    i, j = 0, len(out) - 1
    while i < j and out[i] == ~out[j]:
        i += 1
        j -= 1
    return out[i:j + 1]


def slide(T, s, word):
    ''' Slide the start of a path, which is the vertex at the tail of s, across edges incident to that vertex. '''
    word = list(word)
    while word:
        x = word[0]
        if x == s:
            s = T.nxt[~s]
        elif x == T.nxt[T.nxt[s]]:
            s = ~x
        else:
            break
        word = word[1:]
    return s, word


def arc_reduce(T, s, word, t):
    word = path_reduce(word)
    while True:
        n = len(word)
        s, word = slide(T, s, word)
        t, word = slide(T, t, rev(word))
        word = rev(word)
        if len(word) == n:
            return s, word, t


def arc_weights(T, s, word, t):
    s, word, t = arc_reduce(T, s, word, t)
    w = [0] * T.zeta
    if word:
        for x in word:
            w[idx(x)] += 1
    elif t == T.nxt[s]:
        w[idx(s)] = -1
    else:
        assert s == T.nxt[t], 'trivial arc'
        w[idx(t)] = -1
    return w


def twist_path(T, kind, word, info, trace, power):
    ''' The image of one component under the right twist ** power about the traced curve, as a weight vector. '''
    cword = [x for x, _ in trace]
    n = len(cword)
    inserts = {}  # index --> list of (sort key, loop) where loop goes to the right.

    def add(i, key, loop):
        inserts.setdefault(i, []).append((key, loop))

    if kind == 'arc' and not word:
        e = info[1]
        for j, (x, p) in enumerate(trace):
            if idx(x) == e:
                loop = cword[j:] + cword[:j]
                if x == e:
                    add(0, p, loop)
                else:  # The curve arrives from the right.
                    loop = rev(cword[j + 1:] + cword[:j + 1])
                    add(0, pos_on(T, trace, ~x, p, e), loop)
        start, end = e, T.nxt[e]
    else:
        B = Path(kind, word)
        C = Path('curve', cword)
        for i, j, orient, sign in crossings(T, B, C):
            if orient == 1:
                loop, (x, p) = cword[j:] + cword[:j], trace[j]
            else:
                r = rev(cword)
                loop = r[j:] + r[:j]
                x, p = trace[n - 1 - j]
            # loop starts with B.word[i].
            assert loop[0] == B.word[i]
            where = p if x == B.word[i] else TOTAL(T, trace, x) - 1 - p  # Position from the tail of B.word[i], right to left.
            right = sign == -1
            add(i, (1, where if right else -where), loop if right else rev(loop))
        if kind == 'arc':
            start, end = info
            first, last = word[0], ~word[-1]
            for j in range(n):
                entry, exit_ = ~cword[j - 1], cword[j]
                x, p = trace[j]
                loop = cword[j:] + cword[:j]
                if T.tri[exit_] == T.tri[first] and first not in (entry, exit_):
                    z, y = T.nxt[T.nxt[first]], T.nxt[first]
                    right = exit_ == z
                    # The vertex is the tail of z and the head of y.
                    distance = p if exit_ == z else TOTAL(T, trace, y) - 1 - p
                    add(0, (0, distance), loop if right else rev(loop))
                if T.tri[exit_] == T.tri[last] and last not in (entry, exit_):
                    z, y = T.nxt[T.nxt[last]], T.nxt[last]
                    right = exit_ == y
                    distance = p if exit_ == z else TOTAL(T, trace, y) - 1 - p
                    add(len(word), (2, -distance), loop if right else rev(loop))
    out = []
    for i in range(len(word) + 1):
        for _, loop in sorted(inserts.get(i, ())):
            out.extend((loop if power > 0 else rev(loop)) * abs(power))
        if i < len(word):
            out.append(word[i])
    if kind == 'curve':
        w = [0] * T.zeta
        for x in cyclic_reduce(out):
            w[idx(x)] += 1
        return w
    return arc_weights(T, start, out, end)


def TOTAL(T, trace, x):
    return sum(1 for y, _ in trace if idx(y) == idx(x))


def pos_on(T, trace, x, p, e):
    ''' trace has (~e, p): the position of that point from the tail of e. '''
    return TOTAL(T, trace, e) - 1 - p


def twist_weights(T, w, v, power):
    ''' The image of the lamination w under the right Dehn twist ** power about the curve v. '''
    trace = traced(T, v)
    out = [0] * T.zeta
    for vec, (kind, mult, word, info) in components(T, w).items():
        image = twist_path(T, kind, word, info, trace, power)
        for i in range(T.zeta):
            out[i] += mult * image[i]
    return out
