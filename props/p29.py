''' P29: exploration of the Cayley graph. '''
from itertools import islice, takewhile

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property

PROP = Property('P29', ['A mapping class is the identity exactly when it fixes every edge of the triangulation as an isotopy class of arcs and acts trivially on first homology (Alexander\'s trick; an isometry of a triangulation is '
                        'determined by its action on homology).'])
K = curver.kernel
NAMES = ['a', 'b', 'x_1', 'g2', 'zz', 's_0', 's_01']
MAX = 70  # Words in the ball.


def key(h):
    T = h.source_triangulation
    return tuple(tuple(h(T.edge_arc(e))) for e in range(T.zeta)) + (tuple(map(int, h.homology_matrix().flatten())),)


def build(case):
    ''' (group, generators). '''
    if case['from'] == 'load':
        S = gen.group(*case['gn'])
    elif case['from'] == 'periodic':
        f, _ = gen.periodic_class(case['periodic'])
        classes = {NAMES[0]: f}
        for name, spec in zip(NAMES[1:], case['classes'][:1]):
            classes[name] = gen.mapping_class(f.source_triangulation, spec)
        S = K.MappingClassGroup(classes)
    elif case['from'] == 'symmetries':
        T = gen.ctri(gen.build(case['tri']))
        isoms = [i.encode() for i in T.self_isometries()]
        isoms.sort(key=lambda h: tuple(map(int, h.homology_matrix().flatten())))
        classes = {name: gen.pick(isoms, k) for name, k in zip(NAMES, case['picks'][:3])}
        S = K.MappingClassGroup(classes)
    else:
        T = gen.ctri(gen.build(case['tri']))
        S = K.MappingClassGroup({name: gen.mapping_class(T, spec) for name, spec in zip(NAMES, case['classes'])})
    letters = sorted(S.mapping_classes)
    if case['all']:
        generators = letters
    else:
        generators = [gen.pick(letters, k) for k in case['picks']]
    return S, generators


CASES = st.fixed_dictionaries({
    'from': st.sampled_from(['load', 'load', 'classes', 'classes', 'periodic', 'symmetries']),
    'gn': st.sampled_from([(1, 1), (0, 4), (1, 2), (0, 5), (2, 1), (0, 3), (1, 3)]),
    'tri': gen.tri_specs(max_flips=4, glued=True, disconnected=True),
    'classes': st.lists(gen.class_specs(max_size=2, power=2, max_conj=2), min_size=1, max_size=3),
    'periodic': gen.periodic_specs(max_parts=2, max_conj=2, multi=gen.TINY_PERIODIC),
    'picks': st.lists(st.integers(0, 99), min_size=1, max_size=4),
    'all': st.booleans(),
    'length': st.sampled_from([3, 2, 4, 5, 0, 1, 6, 8]),
})


@PROP.sub(CASES, quick=300)
def ball(case, ctx):
    ''' cayley(generators, length) against a breadth-first search that composes the classes: the same elements, once each, by words of minimal length, in order of length, starting with the identity; every word is a word over the
    generators that evaluates to its element. Non-trivial: some element is reached by more than one word. '''
    S, generators = build(case)
    length = case['length']
    distinct = list(dict.fromkeys(generators))
    while length > 1 and len(distinct)**length > 20 * MAX:
        length -= 1
    T = S.triangulation
    # Reference: levels of the ball.
    identity = T.id_encoding()
    depth = {key(identity): 0}
    level = [identity]
    reached = 1
    for d in range(1, length + 1):
        if len(depth) > MAX:
            length = d - 1
            break
        nxt = []
        for h in level:
            for g in distinct:
                reached += 1
                f = S[g] * h
                k = key(f)
                if k not in depth:
                    depth[k] = d
                    nxt.append(f)
        level = nxt
    sizes = [list(depth.values()).count(d) for d in range(length + 1)]
    ctx.label(case['from'], f'length {length}')
    ctx.nontrivial(length and reached > len(depth))
    words = list(islice(S.cayley(generators, length), 3 * len(depth) + 10))
    msg = f'cayley({generators}, {length}) in {S}'
    ctx.require(words and tuple(words[0]) == (), msg + f': the first word is {words[:1]}')
    for w in words:
        ctx.require(isinstance(w, tuple) and all(x in generators for x in w), msg + f': {w} is not a word in the generators')
    lengths = [len(w) for w in words]
    ctx.require(lengths == sorted(lengths), msg + f': words of lengths {lengths}')
    ctx.require(lengths[-1] <= length, msg + f': a word of length {lengths[-1]}')
    ctx.equal([lengths.count(d) for d in range(length + 1)], sizes, msg + ': number of elements at each distance')
    seen = {}
    for w in words:
        k = key(S(list(w)))
        ctx.require(k not in seen, msg + f': {w} and {seen.get(k)} are the same element')
        seen[k] = w
        ctx.require(depth.get(k) == len(w), msg + f': {w} is an element at distance {depth.get(k)}')
    # It may be consumed bit by bit, and a larger ball starts with a smaller one.
    if length:
        small = list(S.cayley(tuple(generators), length - 1))
        ctx.equal([tuple(w) for w in small], [w for w in words if len(w) < length], msg + ': the ball of one less starts the ball')
        ctx.equal(list(takewhile(lambda w: len(w) < length, S.cayley(generators, length))), small, msg + ': consumed in part')
