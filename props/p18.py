''' P18: words denote the mapping classes their notation says. '''
import re

from hypothesis import strategies as st

import curver
from vf import gen
from vf.core import Property
from props.p08 import same_action

K = curver.kernel
PROP = Property('P18', ['The reference is a recursive descent parser for words; a power is only compared when it applies to a parenthesis or to a single letter, since notation does not say what a power after several unseparated letters applies to.',
                        'Letters are written without separator only when reading the longest names first recovers them.'])


class Bad(Exception):
    ''' Not a word. '''


class Ambiguous(Exception):
    ''' A word that can be read in two ways. '''


def letters_of(run, names):
    ''' Split a run of name characters and dots into letters, longest names first. '''
    out = []
    ordered = sorted(names, key=lambda n: (-len(n), n))
    for part in run.split('.'):
        while part:
            x = next((n for n in ordered if part.startswith(n)), None)
            if x is None:
                raise Bad(part)
            out.append(x)
            part = part[len(x):]
    return out


def reference(text, names):
    ''' The list of letters of a word. '''
    w = re.sub(r'\s', '', text)
    pos = 0
    vague = []

    def item():
        nonlocal pos
        if w[pos] == '(':
            pos += 1
            value = sequence()
            if pos >= len(w):
                raise Bad('unclosed')
            pos += 1
            single = True
        else:
            run = re.compile(r'[A-Za-z_.][\w.]*').match(w, pos)
            if not run:
                raise Bad(w[pos:])
            pos = run.end()
            value = letters_of(run.group(), names)
            single = len(value) == 1
        while pos < len(w) and w[pos] == '^':
            m = re.compile(r'\^([+-]?[0-9]+)').match(w, pos)
            if not m:
                raise Bad('power')
            pos = m.end()
            k = int(m.group(1))
            if not single:
                vague.append(w)
            value = value * k if k >= 0 else [x.swapcase() for x in reversed(value)] * -k
            if len(value) > 3000:
                raise Ambiguous
        return value

    def sequence():
        out = []
        while pos < len(w) and w[pos] != ')':
            out.extend(item())
        return out
    value = sequence()
    if pos < len(w):
        raise Bad('unopened')
    if vague:
        raise Ambiguous
    return value


CUSTOM = [['f'], ['f', 'g'], ['f', 'fg', 'g_1', 'g_10'], ['aB', 'a', 'b_2'], ['x1', 'x', 'x_', 'y'], ['s_1', 's_11', 's', 'p']]
_made = {}


def surface(k):
    ''' A group: one of the standard ones, or one with names of our own. '''
    k %= 12
    if k not in _made:
        if k < 6:
            gn = [(1, 2), (0, 5), (2, 1), (1, 1), (0, 4), (1, 3)][k]
            _made[k] = gen.group(*gn)
        else:
            S = gen.group(*[(1, 2), (0, 5), (1, 1)][k % 3])
            names = CUSTOM[k - 6]
            gens = sorted(S.pos_mapping_classes)
            d = {}
            for i, n in enumerate(names):
                f = S.mapping_classes[gens[i % len(gens)]]
                d[n] = f if i < len(gens) else f * S.mapping_classes[gens[(i + 1) % len(gens)]]
            _made[k] = K.MappingClassGroup(d)
    return _made[k]


def product(S, letters):
    h = S.triangulation.id_encoding()
    for x in reversed(letters):
        h = S.mapping_classes[x] * h if x in S.pos_mapping_classes else S.pos_mapping_classes[x.swapcase()].inverse() * h
    return h


def written(tree, names):
    ''' The text of a tree of [letter index, style] and [subtree, power, style] items. '''
    out = ''
    for node in tree:
        if len(node) == 2:
            name = names[node[0] % len(names)]
            sep = ['', '.', ' ', ' . '][node[1] % 4]
            joined = re.split(r'[()^]', re.sub(r'\s', '', out))[-1]
            if re.search(r'\^[+-]?[0-9]*$', re.sub(r'\s', '', out)):
                joined = ''
            run = joined + re.sub(r'\s', '', sep) + name
            try:
                good = letters_of(run, names) == letters_of(joined, names) + [name] and (not joined or joined[0] not in '0123456789')
            except Bad:
                good = False
            out += (sep if good else '.') + name
        else:
            sub, power, style = node
            if len(sub) == 1 and len(sub[0]) == 2 and style % 3 == 0 and (not out or out.rstrip()[-1:] in '()'):
                out += names[sub[0][0] % len(names)] + f'^{power}'
            else:
                out += ['', ' '][style % 2] + '(' + written(sub, names) + [')', ' )'][style // 2 % 2]
                out += '' if power == 1 and style % 5 < 3 else [f'^{power}', f' ^ {power}', f'^{power:+d}'][style % 3]
    return out


leaf = st.tuples(st.integers(0, 30), st.integers(0, 3)).map(list)
power = st.sampled_from([2, -1, 3, 1, -2, 0, 5, -3])
node1 = st.one_of(leaf, leaf, leaf, st.tuples(st.lists(leaf, min_size=0, max_size=3), power, st.integers(0, 20)).map(list))
node2 = st.one_of(leaf, leaf, st.tuples(st.lists(node1, min_size=0, max_size=3), power, st.integers(0, 20)).map(list))
trees = st.lists(node2, min_size=0, max_size=5)
lam = gen.lam_specs(wmax=3)


def check_word(ctx, S, text, letters, spec):
    f = S(text)
    want = product(S, letters)
    ctx.require(type(f) is K.MappingClass, 'a mapping class')
    ctx.require(f == want and same_action(f, want), 'the class of a word', word=text, letters=letters)
    T = S.triangulation
    L = T(gen.lam_weights(gen.rtri(T), spec))
    x = L
    for n in reversed(letters):
        x = S[n](x)
    ctx.equal(list(f(L)), list(x), f'the letters of {text} act from right to left')


@PROP.sub(st.fixed_dictionaries({'S': st.integers(0, 11), 'tree': trees, 'lam': lam}), quick=500)
def words(case, ctx):
    ''' Generated words against a reference parser, in groups with standard and with unusual names. Non-trivial: at least three letters, and a power or parenthesis. '''
    S = surface(case['S'])
    names = sorted(S)
    text = written(case['tree'], names)
    try:
        letters = reference(text, names)
    except Ambiguous:
        ctx.label('ambiguous')
        return
    if len(letters) > 60:
        ctx.label('long')
        return
    ctx.label('powers' if '^' in text else 'plain', 'custom names' if case['S'] % 12 > 5 else 'standard names')
    ctx.nontrivial(len(letters) >= 3 and ('^' in text or '(' in text))
    check_word(ctx, S, text, letters, case['lam'])
    ctx.require(S(letters) == S(text) and S(tuple(letters)) == S(text) and S.mapping_class(text) == S(text), 'a list of names')
    ctx.require(S(f'({letters})^-2') == S(letters)**-2, 'the string of a list of names')
    spaced = ' '.join(text)
    ctx.require(S(spaced) == S(text), 'whitespace does not matter')
    ctx.require(S('(' + text + ')^-1') == S(text).inverse(), 'inverse of a word')
    ctx.require(S('.'.join(x.swapcase() for x in reversed(letters))) == S(text)**-1, 'capitals are inverses')
    ctx.require(S('(' + text + ')^3') == S(text)**3, 'power of a word')


pieces = st.one_of(
    st.tuples(st.just('name'), st.integers(0, 30)).map(list),
    st.sampled_from(['(', ')', '^', '.', ' ', '^2', '^-1', '2', '-', '+1', '!', '*', '/', ':', ';', '_', '0', 'q', 'Z', '{', '~', '\u00e9', '1_0', '^^', '()', '\t', '^1.5', '#', '=', '|', '@', '\\', '?', '<']).map(lambda s: ['text', s]))


@PROP.sub(st.fixed_dictionaries({'S': st.integers(0, 11), 'tree': trees, 'junk': st.lists(st.tuples(st.integers(0, 40), pieces).map(list), min_size=1, max_size=3), 'cut': st.one_of(st.none(), st.none(), st.integers(0, 40)), 'lam': lam}), quick=1500)
def damaged(case, ctx):
    ''' Words with pieces inserted or cut off: rejected with a ValueError exactly when the reference parser rejects them. Non-trivial: a word that is rejected. '''
    S = surface(case['S'])
    names = sorted(S)
    text = written(case['tree'], names)
    for where, (kind, what) in case['junk']:
        piece = names[what % len(names)] if kind == 'name' else what
        i = where % (len(text) + 1)
        text = text[:i] + piece + text[i:]
    if case['cut'] is not None:
        text = text[:case['cut'] % (len(text) + 1)]
    try:
        letters = reference(text, names)
    except Ambiguous:
        ctx.label('ambiguous')
        return
    except Bad:
        ctx.label('rejected')
        ctx.nontrivial()
        ctx.raises(ValueError, lambda: S(text), f'the malformed word {text!r}')
        return
    ctx.label('still a word')
    if len(letters) <= 40:
        check_word(ctx, S, text, letters, case['lam'])


@PROP.sub(st.fixed_dictionaries({'S': st.integers(0, 11), 'n': st.integers(0, 12), 'pos': st.booleans(), 'neg': st.booleans(), 'pick': st.lists(st.integers(0, 30), min_size=1, max_size=3)}), quick=400)
def random_words(case, ctx):
    ''' Random words use the requested letters and have the requested length. Non-trivial: at least two letters. '''
    S = surface(case['S'])
    n, pos, neg = case['n'], case['pos'], case['neg']
    ctx.nontrivial(n > 1)
    small, big = set(S.pos_mapping_classes), {x.swapcase() for x in S.pos_mapping_classes}
    ctx.equal(set(S), small | big, 'the names')
    if pos or neg:
        w = S.random_word(n, positive=pos, negative=neg)
        ctx.equal(len(w), n, 'length')
        ctx.require(all((x in small and pos) or (x in big and neg) for x in w), 'letters', w=w)
        w2 = S.random_word(n)
        ctx.require(len(w2) == n and set(w2) <= small | big, 'letters')
    else:
        ctx.raises(TypeError, lambda: S.random_word(n, positive=False, negative=False), 'no letters')
    names = sorted(S)
    chosen = [names[i % len(names)] for i in case['pick']]
    w = S.random_word(n, letters=chosen)
    ctx.require(len(w) == n and set(w) <= set(chosen), 'chosen letters')
    ctx.require(S(n, letters=chosen[:1]) == S[chosen[0]]**n, 'an integer stands for a random word of that length')
    if pos and not neg:
        many = set(S.random_word(400, positive=True, negative=False))
        ctx.equal(many, small, 'every letter occurs (fails with probability below 10^-10)') if len(small) < 12 else None
    for bad in (1.5, None, {'a_0'}, b'a_0'.__class__):
        ctx.raises(TypeError, lambda b=bad: S(b), 'other types')
    for name in names:
        ctx.require(S[name] == S[name.swapcase()].inverse() and S(name) == S[name], 'capitals are inverses')
        if name in S.curves:
            ctx.require(S[name] == S.curves[name].encode_twist() and S[name.swapcase()] == S.curves[name].encode_twist(power=-1), 'twists')
        if name in S.arcs:
            ctx.require(S[name] == S.arcs[name].encode_halftwist(), 'half-twists')
