''' P28: drawings, rendered on a canvas that only records what is drawn. '''
from fractions import Fraction
from math import hypot
from types import SimpleNamespace

from hypothesis import strategies as st

from vf import faketk
faketk.install()  # Before anything imports curver.application: no window is ever opened.

import curver
from vf import gen
from vf.core import Property
from ref.strand import is_valid, pos

PROP = Property('P28', ['Pictures may be mirror images of the surface, as a whole.', 'tkinter is replaced by a stand-in whose widgets only record: no window is opened, drawings are rendered on a recording canvas, and read back from the coordinates, labels and arrows on it.'])
K = curver.kernel
FIELD = K.RealNumberField([-2, 0, 1])


Canvas = faketk.Canvas


def pts(coords):
    return list(zip(coords[0::2], coords[1::2]))


def options(**kw):
    d = dict(show_internals=False, show_orientations=True, straight_laminations=False, label_edges='Index', smooth=True, line_size=2, dot_size=3, arrow_shape=(12, 15, 5), epsilon=10, float_error=0.001, vertex_buffer=0.2,
             zoom_fraction=0.8, canvas_font=None, application_font=None)
    d.update(kw)
    return SimpleNamespace(**d)


def dist(p, q):
    return hypot(p[0] - q[0], p[1] - q[1])


def area(P):
    return ((P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[2][0] - P[0][0]) * (P[1][1] - P[0][1])) / 2


def along(p, a, b):
    ''' The parameter of p on the segment from a to b, and its distance from that line. '''
    L = dist(a, b)
    t = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / L**2
    return t, abs((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / L


def inside(p, P):
    s = [area([P[i], P[(i + 1) % 3], p]) for i in range(3)]
    A = area(P)
    return all(x * A > 0 for x in s)


def read(ctx, R, canvas, shown, msg):
    ''' Read the triangulation back. Returns [(points, signed labels)], with side i running from point i to point i + 1 in the direction of the triangles of R. '''
    polygons = [pts(item['coords']) for item in canvas.items.values() if item['kind'] == 'polygon' and 'polygon' in item['tags']]
    ctx.equal(len(polygons), len(R.triples), msg + ': number of triangles')
    ctx.require(all(len(P) == 3 for P in polygons), msg + ': triangles have three corners')
    size = max(max(x) - min(x) for P in polygons for x in zip(*P))
    tol = 1e-6 * size
    for P in polygons:
        ctx.require(abs(area(P)) > 1e-4 * size**2 / len(polygons)**3, msg + f': degenerate triangle {P}')
    # Disjointness, by centroids (they are all convex and tile convex polygons).
    mid = [tuple(sum(x) / 3 for x in zip(*P)) for P in polygons]
    for i, c in enumerate(mid):
        ctx.equal([j for j, P in enumerate(polygons) if inside(c, P)], [i], msg + ': overlapping triangles')
    # Sides carry labels.
    texts = [(item['coords'], item['text']) for item in canvas.items.values() if item['kind'] == 'text' and item.get('fill') == 'black']
    arrows = [pts(item['coords']) for item in canvas.items.values() if item['kind'] == 'line' and item.get('arrow') == 'last']
    used = set()
    out = []
    for P in polygons:
        if area(P) > 0:  # Anticlockwise on a screen.
            P = [P[0], P[2], P[1]]
        labels = []
        for i in range(3):
            a, b = P[i], P[(i + 1) % 3]
            m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            here = [k for k, (q, _) in enumerate(texts) if dist(q, m) < tol]
            ctx.require(len(here) == 1, msg + f': side {a} {b} has {len(here)} labels')
            used.update(here)
            index = texts[here[0]][1]
            signs = set()
            for A in arrows:
                (t0, d0), (t1, d1) = along(A[0], a, b), along(A[-1], a, b)
                if d0 < tol and d1 < tol and min(dist(A[0], a), dist(A[0], b)) < tol and abs(t0 - t1) > 0.3 and 0 <= t1 <= 1:
                    signs.add(t1 > t0)
            ctx.require(len(signs) == 1, msg + f': side {a} {b} has {len(signs)} arrows')
            labels.append(index if signs.pop() else ~index)
        out.append((P, labels))
    ctx.equal(len(used), len(texts), msg + ': labels that belong to no side')
    want = sorted(min((t[i:] + t[:i]) for i in range(3)) for t in map(list, R.triples))
    got = sorted(min((labels[i:] + labels[:i]) for i in range(3)) for _, labels in out)
    if got != want:  # The picture may also be a mirror image of the surface, as a whole.
        out = [([P[0], P[2], P[1]], [~x for x in labels[::-1]]) for P, labels in out]
        got = sorted(min((labels[i:] + labels[:i]) for i in range(3)) for _, labels in out)
    ctx.require(got == want, msg + f': the triangles drawn are {got}', expected=want)
    # Sides between two triangles of the picture are visible only when asked for, the others always.
    mids = {}
    for P, _ in out:
        for i in range(3):
            m = ((P[i][0] + P[(i + 1) % 3][0]) / 2, (P[i][1] + P[(i + 1) % 3][1]) / 2)
            near = next((q for q in mids if dist(q, m) < tol), m)
            mids[near] = mids.get(near, 0) + 1
    lines = [(pts(item['coords']), item.get('state') != 'hidden') for item in canvas.items.values() if item['kind'] == 'line' and 'curve' not in item['tags']]
    for m, n in mids.items():
        drawn = [visible for (p, *_, q), visible in lines if dist(((p[0] + q[0]) / 2, (p[1] + q[1]) / 2), m) < tol]
        ctx.require(drawn and all(v == (n == 1 or shown) for v in drawn), msg + f': side at {m} of {n} triangles is visible {drawn}')
    # Both sides of an edge that is not inside the picture have the same colour, which no other has.
    fills = {}
    for P, labels in out:
        for i in range(3):
            m = ((P[i][0] + P[(i + 1) % 3][0]) / 2, (P[i][1] + P[(i + 1) % 3][1]) / 2)
            near = next(q for q in mids if dist(q, m) < tol)
            if mids[near] == 1:
                for item in canvas.items.values():
                    if item['kind'] == 'line' and 'curve' not in item['tags']:
                        (p, *_, q) = pts(item['coords'])
                        if dist(((p[0] + q[0]) / 2, (p[1] + q[1]) / 2), m) < tol:
                            fills.setdefault(idx(labels[i]), []).append(item['fill'])
    ctx.require(all(len(set(c)) == 1 for c in fills.values()), msg + f': colours {fills}')
    ctx.equal(len({c[0] for c in fills.values()}), len(fills), msg + f': colours {fills}')
    # Dots at the corners.
    corners = [p for P, _ in out for p in P]
    dots = [pts(item['coords']) for item in canvas.items.values() if item['kind'] == 'oval']
    ctx.require(all(p[0] < q[0] and p[1] < q[1] and 1 < q[0] - p[0] < 40 for p, q in dots), msg + f': dots {dots}')
    centres = [((p[0] + q[0]) / 2, (p[1] + q[1]) / 2) for p, q in dots]
    ctx.require(all(any(dist(p, c) < tol for c in centres) for p in corners) and all(any(dist(p, c) < tol for p in corners) for c in centres), msg + f': dots at {centres} for corners {corners}')
    return out, tol


def place(p, P, tol):
    ''' ('v', i) or ('s', i, t) or None: where p lies on the boundary of the triangle P. '''
    for i in range(3):
        if dist(p, P[i]) < tol:
            return ('v', i)
    for i in range(3):
        t, d = along(p, P[i], P[(i + 1) % 3])
        if d < tol and 0 < t < 1:
            return ('s', i, t)
    return None


def strands(ctx, canvas, triangles, tol, msg):
    ''' {triangle index: [[places]]} of the curves drawn. '''
    out = {i: [] for i in range(len(triangles))}
    for item in canvas.items.values():
        if 'curve' not in item['tags']:
            continue
        points = pts(item['coords'])
        if item['kind'] == 'line':
            ends, inner = [points[0], points[-1]], points[1]
        else:
            ends, inner = [], tuple(sum(x) / len(points) for x in zip(*points))
            for p in points:
                if all(dist(p, q) > tol for q in ends):
                    ends.append(p)
        home = [i for i, (P, _) in enumerate(triangles) if inside(inner, P)]
        ctx.require(len(home) == 1, msg + f': a curve with points {points} is inside no triangle')
        P = triangles[home[0]][0]
        places = [place(p, P, tol) for p in ends]
        if item['kind'] == 'line':
            ctx.require(None not in places, msg + f': a strand {points} does not reach the side of its triangle')
            ctx.require(all(inside(p, P) for p in points[1:-1]), msg + f': a strand {points} leaves its triangle')
        out[home[0]].append((item['kind'], [p for p in places if p]))
    return out


def check_thin(ctx, R, w, canvas, triangles, tol, msg):
    found = strands(ctx, canvas, triangles, tol, msg)
    positions, parallels = {}, {}
    for i, (P, labels) in enumerate(triangles):
        at = {k: [] for k in range(3)}
        corner = {k: [] for k in range(3)}  # Corner k is the one between side k - 1 and side k.
        term = {k: 0 for k in range(3)}  # Terminal strands that meet side k.
        for kind, places in found[i]:
            ctx.require(kind == 'line' and len(places) == 2, msg + f': strand {kind} {places}')
            ss = sorted((p for p in places if p[0] == 's'), key=lambda p: p[1])
            vs = sorted(p[1] for p in places if p[0] == 'v')
            for p in ss:
                at[p[1]].append(p[2])
            if len(ss) == 2:
                a, b = ss
                ctx.require(a[1] != b[1], msg + ': a strand returns to the same side')
                if (a[1] + 1) % 3 != b[1]:
                    a, b = b, a
                corner[b[1]].append((1 - a[2], b[2]))  # Distances from the corner.
            elif len(ss) == 1:
                ctx.equal(vs, [(ss[0][1] + 2) % 3], msg + ': a terminal strand does not run to the opposite corner')
                term[ss[0][1]] += 1
            else:
                k = vs[0] if (vs[0] + 1) % 3 == vs[1] else vs[1]
                parallels[idx(labels[k])] = parallels.get(idx(labels[k]), 0) + 1
        W = [w[idx(x)] for x in labels]
        cs, ts = corners_of(W)
        for k in range(3):
            ctx.equal(len(at[k]), pos(W[k]), msg + f': number of strand ends on the side {labels[k]}')
            ctx.equal(len(corner[k]), cs[k], msg + f': strands round the corner between {labels[k - 1]} and {labels[k]}')
            ctx.equal(term[k], ts[k], msg + f': strands from side {labels[k]} into the opposite corner')
            order = sorted(corner[k])
            ctx.require(all(a[0] < b[0] and a[1] < b[1] for a, b in zip(order, order[1:])), msg + f': strands cross at a corner {order}')
            positions[labels[k]] = sorted(at[k]) if labels[k] >= 0 else sorted(1 - t for t in at[k])
    for e in range(R.zeta):
        ctx.require(all(abs(a - b) < 1e-6 for a, b in zip(positions[e], positions[~e])), msg + f': strands do not match across edge {e}: {positions[e]} {positions[~e]}')
        ctx.require(all(b - a > 1e-6 for a, b in zip(positions[e], positions[e][1:])), msg + f': strands coincide on edge {e}')
        ctx.equal(parallels.get(e, 0), max(-w[e], 0), msg + f': arcs drawn parallel to edge {e}')


def check_thick(ctx, R, w, canvas, triangles, tol, msg):
    found = strands(ctx, canvas, triangles, tol, msg)
    spans = {}
    parallels = {}
    master = max(abs(a) for a in w)
    for i, (P, labels) in enumerate(triangles):
        W = [w[idx(x)] for x in labels]
        cs, ts = corners_of(W)
        at = {k: [] for k in range(3)}
        seen_corner, seen_term = set(), set()
        for kind, places in found[i]:
            ctx.equal(kind, 'polygon', msg + ': thick strand')
            ss = sorted((p for p in places if p[0] == 's'), key=lambda p: p[1:])
            vs = [p[1] for p in places if p[0] == 'v']
            by = {}
            for p in ss:
                by.setdefault(p[1], []).append(p[2])
            ctx.require(all(len(t) <= 2 for t in by.values()), msg + f': thick strand {places}')
            if len(by) == 2:
                k = next(k for k in by if (k + 2) % 3 in by)
                seen_corner.add(k)
                for s in by:
                    lo, hi = min(by[s]), max(by[s])
                    at[s].append((lo, hi, cs[k]))
            elif len(by) == 1:
                (k, t), = by.items()
                ctx.equal(vs, [(k + 2) % 3], msg + ': a thick terminal strand does not run to the opposite corner')
                seen_term.add(k)
                at[k].append((min(t), max(t), ts[k]))
            else:
                ctx.equal(len(vs), 2, msg + f': thick strand {places}')
                k = next(k for k in vs if (k + 1) % 3 in vs)
                parallels[idx(labels[k])] = True
        # Thin bands can be too thin to see: only those of a visible width are required.
        visible = master / 1000
        for k in range(3):
            if cs[k] > visible:
                ctx.require(k in seen_corner, msg + f': no band round the corner between {labels[k - 1]} and {labels[k]}')
            if ts[k] > visible:
                ctx.require(k in seen_term, msg + f': no band from {labels[k]} into the opposite corner')
            if W[k] > visible:
                order = sorted(at[k])
                ctx.require(all(b[0] - a[1] > -1e-6 for a, b in zip(order, order[1:])), msg + f': bands overlap on side {labels[k]}: {order}')
                lo, hi = min(a[0] for a in order), max(a[1] for a in order)
                for a, b, n in order:
                    ctx.require(abs((b - a) / (hi - lo) - float(n / W[k])) < 1e-5, msg + f': band of width {(b - a) / (hi - lo)} of {float(n / W[k])} on side {labels[k]}')
                spans[labels[k]] = ((lo, hi) if labels[k] >= 0 else (1 - hi, 1 - lo))
                ctx.require(abs((hi - lo) - float(W[k] / master) * 0.6) < 1e-5 and abs(lo + hi - 1) < 1e-5, msg + f': bands {order} on side {labels[k]}')
                first = [n for n in ([cs[k], ts[k], cs[(k + 1) % 3]]) if n > visible]
                ctx.require(close([b - a for a, b, n in order if n > visible], [0.6 * float(n / master) for n in first]), msg + f': order of bands on side {labels[k]} is {order}, expected {first}')
    for e in range(R.zeta):
        if w[e] < 0 and -w[e] > master / 1000 and -w[e] > 2:
            ctx.require(e in parallels, msg + f': no band parallel to edge {e}')
        if w[e] >= 0:
            ctx.require(e not in parallels, msg + f': a band parallel to edge {e}')


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-5 for x, y in zip(a, b))


def idx(x):
    return x if x >= 0 else ~x


def corners_of(W):
    ''' Strands round corner k (between side k - 1 and side k) and from side k into the opposite corner, from the three weights. '''
    P = [max(a, 0) for a in W]
    cs, ts = [0] * 3, [0] * 3
    for k in range(3):
        a, b, c = P[k], P[(k + 1) % 3], P[(k + 2) % 3]
        if a > b + c:
            ts[k] = a - b - c
            # Side k is long: everything from the others goes to it.
            cs[(k + 1) % 3] = b
            cs[k] = c
            return cs, ts
    for k in range(3):
        a, b, c = P[k - 1], P[k], P[(k + 1) % 3]
        d = a + b - c
        cs[k] = d // 2 if isinstance(d, int) else d / 2
    return cs, ts


ACTIONS = st.lists(st.sampled_from(['in', 'out', 'fit', 'move', 'redraw']), max_size=4)


def act(drawing, actions):
    for k, a in enumerate(actions):
        if a == 'in':
            drawing.zoom_in()
        elif a == 'out':
            drawing.zoom_out()
        elif a == 'fit':
            drawing.zoom_to_drawing()
        elif a == 'move':
            drawing.translate(13 * k - 20, 7 * k + 3)
        else:
            drawing.redraw()


NOTE = st.tuples(st.integers(250, 1900), st.integers(250, 1300)).map(list)


def render(case, item, **kw):
    import curver.application
    from curver.application.main import Drawing
    canvas = Canvas()
    note = SimpleNamespace(winfo_width=lambda: case['size'][0], winfo_height=lambda: case['size'][1])
    drawing = Drawing(note, canvas, item, options(**kw))
    act(drawing, case['actions'])
    drawing.canvas = canvas
    return drawing


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=9, drag=8, disconnected=True, glued=True), 'size': NOTE, 'actions': ACTIONS, 'internals': st.booleans()}), quick=220)
def thin(case, ctx):
    ''' A lamination drawn strand by strand (weights up to 1000): each triangle once, labels and arrows as glued, on each side as many strand ends as the weight, matching across edges, round the right corners, not crossing; parallel arcs along
    their edges; also after zooming and moving. Nothing drawn changes. Non-trivial: the lamination has positive weights. '''
    R, (w,) = gen.build_scene(case['scene'])
    gen.classify(ctx, R, w)
    T = gen.ctri(R)
    L = T(w)
    ctx.nontrivial(any(a > 0 for a in w))
    canvas = render(case, L, show_internals=case['internals']).canvas
    msg = f'drawing of {w} on {R.triples}'
    triangles, tol = read(ctx, R, canvas, case['internals'], msg)
    check_thin(ctx, R, w, canvas, triangles, tol, msg)
    ctx.require(L == T(list(w)) and T == gen.ctri(R), 'drawing changes nothing')


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=9, drag=8, disconnected=True), 'size': NOTE, 'actions': ACTIONS, 'scale': st.sampled_from(['big', 'big', 'huge', 'root', 'third']), 'k': st.integers(1, 10**6)}), quick=200)
def thick(case, ctx):
    ''' A lamination drawn in bands (large, fractional or irrational weights): on each side bands as wide as the proportions of the corners, in order, together centred and of width proportional to the weight (so that they match across
    edges). Non-trivial: positive weights. '''
    R, (w,) = gen.build_scene(case['scene'])
    if not any(w):
        return
    T = gen.ctri(R)
    kind = case['scale']
    ctx.label(kind)
    if kind == 'third' and is_valid(R, w):
        v = [Fraction(a, 3) for a in w]
        L = T(v)
        if isinstance(L, K.IntegralLamination):
            return
    elif kind == 'root':
        v = w
        L = T([FIELD.lmbda * a for a in w])
    else:
        k = 1001 * case['k'] * (10**400 if kind == 'huge' else 1)
        v = [k * a for a in w]
        L = T(v)
    ctx.nontrivial(any(a > 0 for a in w))
    canvas = render(case, L).canvas
    msg = f'drawing of {v if kind != "huge" else w} on {R.triples}'
    triangles, tol = read(ctx, R, canvas, False, msg)
    check_thick(ctx, R, [Fraction(a) for a in v], canvas, triangles, tol, msg)


@PROP.sub(st.fixed_dictionaries({'tri': gen.tri_specs(max_flips=8, disconnected=True, glued=True), 'cls': gen.class_specs(max_size=2), 'size': NOTE, 'actions': ACTIONS, 'what': st.sampled_from(['triangulation', 'class', 'group', 'empty'])}), quick=150)
def other(case, ctx):
    ''' Triangulations and groups are drawn without strands, mapping classes as the image of the triangulation. Non-trivial: always. '''
    R = gen.build(case['tri'])
    T = gen.ctri(R)
    what = case['what']
    ctx.label(what)
    w = [0] * R.zeta
    if what == 'triangulation':
        item = T
    elif what == 'empty':
        item = T.empty_lamination()
    elif what == 'group':
        item = K.MappingClassGroup({'f': gen.mapping_class(T, case['cls'])})
    else:
        item = gen.mapping_class(T, case['cls'])
        w = [int(a) for a in item(T.as_lamination())]
        if max(map(abs, w)) > 1000:
            return
    ctx.nontrivial()
    canvas = render(case, item).canvas
    msg = f'drawing of a {what} on {R.triples}'
    triangles, tol = read(ctx, R, canvas, False, msg)
    check_thin(ctx, R, w, canvas, triangles, tol, msg)


@PROP.sub(st.fixed_dictionaries({'scene': gen.scenes((1, 1), wmax=9, drag=8, disconnected=True, glued=True), 'size': NOTE, 'actions': ACTIONS, 'scale': st.sampled_from(['one', 'big', 'huge', 'root']), 'then': st.lists(st.sampled_from(['Index', 'Geometric', 'Projective geometric', 'None', 'internals', 'arrows']), min_size=1, max_size=5)}), quick=150)
def labels(case, ctx):
    ''' Options may be changed at any time: each side then carries the index of its edge, or its weight, or (for non-negative weights) its proportion of the total, or nothing, and arrows and sides between triangles come and go, and
    the strands stay as they were. Non-trivial: the lamination has weights. '''
    R, (w,) = gen.build_scene(case['scene'])
    T = gen.ctri(R)
    v = [{'one': 1, 'big': 1001, 'huge': 10**400, 'root': FIELD.lmbda}[case['scale']] * a for a in w]
    L = T(v)
    ctx.label(case['scale'])
    ctx.nontrivial(any(w))
    drawing = render(case, L)
    canvas = drawing.canvas
    msg = f'drawing of {case["scale"]} times {w} on {R.triples}'
    read(ctx, R, canvas, False, msg)

    def texts():
        return {tuple(item['coords']): item['text'] for item in canvas.items.values() if item['kind'] == 'text' and item.get('fill') == 'black'}

    def curves():
        return sorted((item['kind'], item['coords']) for item in canvas.items.values() if 'curve' in item['tags'])
    index, before = texts(), curves()
    total = sum(abs(a) for a in w)
    for step in case['then']:
        if step == 'internals':
            drawing.options.show_internals = not drawing.options.show_internals
        elif step == 'arrows':
            drawing.options.show_orientations = not drawing.options.show_orientations
        else:
            drawing.options.label_edges = step
        drawing.redraw()
        now = {min(index, key=lambda q: dist(p, q)): (p, text) for p, text in texts().items()}  # Up to rounding.
        ctx.require(len(now) == len(texts()) == len(index) and all(dist(p, q) < 1e-3 for q, (p, _) in now.items()), msg + f': places of labels after {case["then"]}')
        now = {q: text for q, (_, text) in now.items()}
        kind = drawing.options.label_edges
        shares = {}
        for place_, e in index.items():
            if kind == 'Index':
                ctx.equal(now[place_], e, msg + ': index')
            elif kind == 'Geometric':
                ctx.require(now[place_] == v[e], msg + f': {now[place_]} on edge {e}')
            elif kind == 'None':
                ctx.equal(now[place_], '', msg + ': no labels')
            elif all(a >= 0 for a in w):
                shares[e] = now[place_]
        if shares and total:
            ctx.require(all(abs(shares[e] / sum(shares.values()) - w[e] / total) < 1e-9 for e in shares), msg + f': proportions are {shares}')
        arrows = [item for item in canvas.items.values() if item['kind'] == 'line' and item.get('arrow') == 'last']
        ctx.require(bool(arrows) == drawing.options.show_orientations, msg + ': arrows')
        if kind == 'Index' and arrows:
            read(ctx, R, canvas, drawing.options.show_internals, msg)
        ctx.equal(curves(), before, msg + ': strands')


ITEMS = st.lists(st.tuples(st.sampled_from(['lamination', 'triangulation', 'group', 'class', 'class']), gen.scenes((1, 1), wmax=9, drag=4), gen.class_specs(max_size=2)).map(list), min_size=1, max_size=4)
DOINGS = st.lists(st.one_of(
    st.sampled_from(['+', '-', '0', 'plus', 'minus', 'Up', 'Down', 'Left', 'Right', 'x', 'Smooth', 'Show internal edges', 'Show edge orientations', 'None', 'Index', 'Geometric', 'Small', 'Medium', 'Large', 'Zoom in', 'Zoom out', 'Zoom to drawing',
                     'Export image...']),
    st.integers(0, 3)), max_size=8)
KEYS = {'+': 'equal', '-': 'underscore', '0': '0'}
WIDTHS = {'Small': 2, 'Medium': 4, 'Large': 6}


@PROP.sub(st.fixed_dictionaries({'items': ITEMS, 'how': st.sampled_from(['args', 'list', 'dict', 'pairs', 'pairlist']), 'size': NOTE, 'do': DOINGS}), quick=110)
def window(case, ctx):
    ''' curver.show() of several things, given one after the other, as a list, or with names (a dict, or pairs): one tab for each with its name (or its number), showing it, which fits in the window, and still does after any keys pressed and menu
    entries chosen, which zoom, move and export what is on the current tab and no other. Non-trivial: something is pressed or more than one thing is shown. '''
    items, want = [], []
    for kind, scene, cls in case['items']:
        R, (w,) = gen.build_scene(scene)
        T = gen.ctri(R)
        if kind == 'lamination':
            item = T(w)
        elif kind == 'triangulation':
            item, w = T, [0] * R.zeta
        elif kind == 'group':
            item, w = K.MappingClassGroup({'f': gen.mapping_class(T, cls), 'g': T.id_encoding()}), [0] * R.zeta
        else:
            item = gen.mapping_class(T, cls)
            w = [int(a) for a in item(T.as_lamination())]
        if max(map(abs, w)) > 60:
            return
        ctx.label(kind)
        items.append(item)
        want.append((R, w))
    how = case['how']
    ctx.label(how)
    names = [str(i) for i in range(len(items))]
    if how in ('dict', 'pairs', 'pairlist'):
        names = ['abcd'[i] for i in range(len(items))]
    pairs = list(zip(names, items))
    args = {'args': items, 'list': [items], 'dict': [dict(pairs[::-1])], 'pairs': pairs, 'pairlist': [pairs]}[how]
    if how == 'pairlist' and len(pairs) == 1:
        args = pairs
    root = faketk.show(curver.show, args, case['size'])
    note, = root.find(faketk.Notebook)
    msg = f'show of {[k for k, _, _ in case["items"]]} as {how}'
    ctx.equal([name for _, name in note.tabs_], names, msg + ': tabs')
    ctx.nontrivial(len(items) > 1 or bool(case['do']))
    canvases = [canvas for canvas, _ in note.tabs_]
    W, H = case['size'][0] - 54, case['size'][1] - 62

    def fits(canvas):
        x0, y0, x1, y1 = canvas.bbox('all')
        ctx.require(abs(x0 + x1 - W) < 20 and abs(y0 + y1 - H) < 20 and x0 > 0 and y0 > 0, msg + f': the drawing fills {[x0, y0, x1, y1]} of {[W, H]}')
        ctx.require(max((x1 - x0), (y1 - y0)) > min(W, H) / 2, msg + f': the drawing fills only {[x0, y0, x1, y1]} of {[W, H]}')

    def shape(canvas):
        return [(item['kind'], item['coords']) for item in canvas.items.values() if item['kind'] != 'text']
    for canvas in canvases:
        fits(canvas)
    on = {'Show internal edges': False, 'Show edge orientations': False, 'Smooth': True}
    size, edges = 'Small', 'None'
    exports = 0
    for what in case['do']:
        before = [shape(canvas) for canvas in canvases]
        i = note.current
        box = canvases[i].bbox('polygon')
        if isinstance(what, int):
            note.current = what % len(items)
            continue
        if what in ('+', '-', '0', 'plus', 'minus', 'Up', 'Down', 'Left', 'Right', 'x'):
            root.press(KEYS.get(what, what))
        else:
            root.choose(what)
        if what in on:
            on[what] = not on[what]
        elif what in WIDTHS:
            size = what
        elif what in ('None', 'Index', 'Geometric'):
            edges = what
        elif what == 'Export image...':
            exports += 1
            ctx.equal(canvases[i].exported, canvases[i].exported[:-1] + [faketk.PATH], msg + ': export of the current drawing')
        after = [shape(canvas) for canvas in canvases]
        ctx.require(all(a == b for j, (a, b) in enumerate(zip(before, after)) if j != i), msg + f': {what} changes another tab')
        ctx.equal(sum(len(canvas.exported) for canvas in canvases), exports, msg + ': exports')
        now = canvases[i].bbox('polygon')
        if what in ('0', 'Zoom to drawing'):
            fits(canvases[i])
        elif what in ('+', 'plus', '-', 'minus', 'Zoom in', 'Zoom out'):
            k = 1.05 if what in ('+', 'plus', 'Zoom in') else 0.95
            ctx.require(all(abs((b - m / 2) - k * (a - m / 2)) < 1e-6 * (1 + abs(a)) for a, b, m in zip(box, now, (W, H, W, H))), msg + f': {what} turns {box} into {now}')
        elif what in ('Up', 'Down', 'Left', 'Right'):
            dx, dy = {'Up': (0, 5), 'Down': (0, -5), 'Left': (5, 0), 'Right': (-5, 0)}[what]
            ctx.require(all(abs(b - a - d) < 1e-6 * (1 + abs(a)) for a, b, d in zip(box, now, (dx, dy, dx, dy))), msg + f': {what} turns {box} into {now}')
        else:
            ctx.require(before[i] == after[i], msg + f': {what} changes the picture')
    for (R, w), canvas in zip(want, canvases):
        ctx.equal({item['width'] for item in canvas.items.values() if item['kind'] == 'line'}, {WIDTHS[size]}, msg + ': width of lines')
        ctx.require(all(bool(item.get('smooth')) == on['Smooth'] for item in canvas.items.values() if 'curve' in item['tags']), msg + ': smoothness')
        ctx.equal(any(item.get('arrow') == 'last' for item in canvas.items.values()), on['Show edge orientations'], msg + ': arrows')
        texts = [item['text'] for item in canvas.items.values() if item['kind'] == 'text' and item.get('fill') == 'black']
        if edges == 'None':
            ctx.require(not any(str(t) for t in texts), msg + f': labels {texts}')
        else:
            ctx.equal({str(t) for t in texts}, {str(e if edges == 'Index' else w[e]) for e in range(R.zeta)}, msg + ': labels')
    root.choose('Index')
    if not on['Show edge orientations']:
        root.choose('Show edge orientations')
    for (R, w), canvas in zip(want, canvases):
        triangles, tol = read(ctx, R, canvas, on['Show internal edges'], msg)
        check_thin(ctx, R, w, canvas, triangles, tol, msg)
