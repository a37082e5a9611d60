"""Integer predicates for *building* inputs (nothing here decides a verdict; spec/Planar.tla does).

Geometry values are (kind, data) with data as in spec/Planar.tla:
  point (x, y) | segment (p, q) | multisegment [(p, q), ..] | contour, region [v, ..]
  multiregion [[v, ..], ..] | polygon [border, hole, ..] | multipolygon [[border, hole, ..], ..]
"""
from itertools import combinations

KINDS = ['segment', 'multisegment', 'contour', 'region', 'multiregion', 'polygon', 'multipolygon']
LINEAR = {'segment', 'multisegment', 'contour'}
SHAPED = {'region', 'multiregion', 'polygon', 'multipolygon'}
RELATIONS = [(x, y) for i, x in enumerate(KINDS) for y in KINDS[i:]]


def sub(a, b): return a[0] - b[0], a[1] - b[1]
def cross(u, v): return u[0] * v[1] - u[1] * v[0]
def dot(u, v): return u[0] * v[0] + u[1] * v[1]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_seg(a, b, p):
    return (orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def boxes_meet(e, f):
    (a, b), (c, d) = e, f
    return (min(a[0], b[0]) <= max(c[0], d[0]) and min(c[0], d[0]) <= max(a[0], b[0])
            and min(a[1], b[1]) <= max(c[1], d[1]) and min(c[1], d[1]) <= max(a[1], b[1]))


def proper_cross(e, f):
    (a, b), (c, d) = e, f
    return orient(a, b, c) * orient(a, b, d) < 0 and orient(c, d, a) * orient(c, d, b) < 0


def meet(e, f):
    return boxes_meet(e, f) and (proper_cross(e, f) or on_seg(*e, f[0]) or on_seg(*e, f[1])
                                 or on_seg(*f, e[0]) or on_seg(*f, e[1]))


def coincide(e, f):
    (a, b), (c, d) = e, f
    if orient(a, b, c) or orient(a, b, d): return False
    u = sub(b, a)
    p, q = dot(sub(c, a), u), dot(sub(d, a), u)
    return max(min(p, q), 0) < min(max(p, q), dot(u, u))


def ring_edges(v): return [(v[i - 1], v[i]) for i in range(len(v))]
def area2(v): return sum(cross(v[i - 1], v[i]) for i in range(len(v)))


def rings(g):
    k, d = g
    if k in ('contour', 'region'): return [d]
    if k in ('multiregion', 'polygon'): return list(d)
    if k == 'multipolygon': return [r for p in d for r in p]
    return []


def edges(g):
    k, d = g
    if k == 'point': return []
    if k == 'segment': return [tuple(d)]
    if k == 'multisegment': return [tuple(s) for s in d]
    return [e for r in rings(g) for e in ring_edges(r)]


def size(g): return len(edges(g))


def points(g): return list({p for e in edges(g) for p in e})


def inside(p, es):
    r = False
    for a, b in es:
        if (a[1] > p[1]) != (b[1] > p[1]) and ((b[1] > a[1]) == (orient(a, b, p) > 0)): r = not r
    return r


def simple_ring(v):
    n = len(v)
    if n < 3 or len(set(v)) < n: return False
    es = [(v[i], v[(i + 1) % n]) for i in range(n)]
    for i, j in combinations(range(n), 2):
        if j == i + 1 or (i == 0 and j == n - 1):
            if coincide(es[i], es[j]): return False
        elif meet(es[i], es[j]): return False
    return area2(v) != 0


def discrete(es, fs):
    return not any(boxes_meet(e, f) and (proper_cross(e, f) or coincide(e, f)) for e in es for f in fs)


def ring_side(v, w):
    """ring v relative to ring w (boundaries meeting discretely, without proper crossings):
    'in', 'out', or 'mixed'; judged on sub-edge midpoints between meeting points"""
    from fractions import Fraction as F
    fs = ring_edges(w)
    seen = set()
    for a, b in ring_edges(v):
        u = sub(b, a)
        ts = {F(0), F(1)}
        for c, d in fs:
            for p in (c, d):
                if on_seg(a, b, p): ts.add(F(dot(sub(p, a), u), dot(u, u)))
        ts = sorted(ts)
        for s, t in zip(ts, ts[1:]):
            m = (s + t) / 2
            seen.add(inside((a[0] + m * u[0], a[1] + m * u[1]), fs))
    return 'mixed' if len(seen) > 1 else 'in' if seen.pop() else 'out'


def valid_rings(rs):
    if not rs or not all(simple_ring(r) for r in rs): return False
    return all(apart(r, q) for r, q in combinations(rs, 2))


def apart(r, q):
    return (discrete(ring_edges(r), ring_edges(q)) and ring_side(r, q) == 'out' and ring_side(q, r) == 'out')


def connected_interior(rs):
    """the graph of rings and their touching points is a forest"""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x: x = parent[x]
        return x
    pts = {p for r in rs for p in r}
    for p in pts:
        on = [i for i, r in enumerate(rs) if any(on_seg(a, b, p) for a, b in ring_edges(r))]
        if len(on) < 2: continue
        for i in on:
            a, b = find(('p', p)), find(('r', i))
            if a == b: return False
            parent[a] = b
    return True


def valid_polygon(rs):
    if not simple_ring(rs[0]): return False
    if len(rs) == 1: return True
    return (valid_rings(rs[1:])
            and all(discrete(ring_edges(h), ring_edges(rs[0])) and ring_side(h, rs[0]) == 'in' for h in rs[1:])
            and connected_interior(rs))


def polygons_apart(p, q):
    """interiors of two valid polygons do not meet and boundaries meet discretely"""
    if not discrete([e for r in p for e in ring_edges(r)], [e for r in q for e in ring_edges(r)]): return False
    s, t = ring_side(p[0], q[0]), ring_side(q[0], p[0])
    if s == 'out' and t == 'out': return True
    if s == 'in': return any(ring_side(p[0], h) == 'in' for h in q[1:])
    if t == 'in': return any(ring_side(q[0], h) == 'in' for h in p[1:])
    return False


def valid(g):
    k, d = g
    if k == 'point': return True
    if k == 'segment': return d[0] != d[1]
    if k == 'multisegment':
        return bool(d) and all(a != b for a, b in d) and all(discrete([e], [f]) for e, f in combinations(d, 2))
    if k in ('contour', 'region'): return simple_ring(d)
    if k == 'multiregion': return valid_rings(d)
    if k == 'polygon': return valid_polygon(d)
    return bool(d) and all(valid_polygon(p) for p in d) and all(polygons_apart(p, q) for p, q in combinations(d, 2))


def strict_ring(v):
    """drops the vertices lying on the straight line with their neighbours"""
    v = list(v)
    i = 0
    while i < len(v) and len(v) > 3:
        if orient(v[i - 1], v[i], v[(i + 1) % len(v)]) == 0:
            del v[i]
            i = max(i - 1, 0)
        else: i += 1
    # the wrap-around
    return [v[i] for i in range(len(v)) if orient(v[i - 1], v[i], v[(i + 1) % len(v)]) != 0]


def map_points(g, f):
    k, d = g
    if k == 'point': return (k, f(d))
    if k in ('segment', 'contour', 'region'): return (k, [f(p) for p in d])
    if k in ('multisegment', 'multiregion', 'polygon'): return (k, [[f(p) for p in r] for r in d])
    return (k, [[[f(p) for p in r] for r in q] for q in d])


def to_json(g): return {'k': g[0], 'd': g[1]}


def from_json(o):
    def tup(d): return tuple(d) if d and not isinstance(d[0], (list, tuple)) else [tup(e) for e in d]
    return (o['k'], tup(o['d']))
