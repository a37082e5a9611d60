"""Scenes: figures made part by part against the rings of a host, each part in a role of its own (a copy of a ring,
a shrunk, grown, clipped copy, a small ring inside or outside touching it at a vertex, along an edge, or not at all),
and segments in bundles: along one line, and through points of it."""
import math
from gen import *


# ------------------------------------------------------------------ rings
def centre(v): return (sum(p[0] for p in v) // len(v), sum(p[1] for p in v) // len(v))


def scaled(v, c, a, b): return [(c[0] + (p[0] - c[0]) * a // b, c[1] + (p[1] - c[1]) * a // b) for p in v]


def clipped(r, v):
    """the ring without a corner"""
    if len(v) < 4 or r.random() < .6:
        i = r.randrange(len(v))
        p, q, n = v[i], v[i - 1], v[(i + 1) % len(v)]
        a, b = between(r, p, q), between(r, p, n)
        w = v[:i] + [x for x in (a, b) if x != p] + v[i + 1:]
    else:
        i = r.randrange(len(v))
        w = v[:i] + v[i + 1:]
    out = []
    for p in w:
        if p not in out: out.append(p)
    return out


def between(r, a, b):
    u = sub(b, a)
    q = math.gcd(*u)
    i = r.randint(1, q) if q > 1 else 1
    return (a[0] + u[0] // q * i, a[1] + u[1] // q * i)


def spot(r, v):
    """a point of the ring and the direction of an edge there"""
    i = r.randrange(len(v))
    a, b = v[i - 1], v[i]
    u = sub(b, a)
    q = math.gcd(*u)
    s = (u[0] // q, u[1] // q)
    t = r.random()
    j = 0 if t < .35 else q if t < .5 else r.randint(0, q)
    return (a[0] + s[0] * j, a[1] + s[1] * j), s, q


def small_ring(r, v):
    """a small ring at a point of ring v: touching it, sharing a piece of edge, near it"""
    p, s, q = spot(r, v)
    k = r.choice([1, 2, 2, 3, 4])
    near = lambda: (p[0] + r.randint(-k, k), p[1] + r.randint(-k, k))
    t = r.random()
    base = [p] if t < .5 else [p, (p[0] + s[0] * r.choice([1, 1, 2, -1, q]), p[1] + s[1] * r.choice([1, 1, 2, -1, q]))] \
        if t < .8 else []
    for _ in range(8):
        ps = list(dict.fromkeys(base + [near() for _ in range(3 - len(base) + r.choice([0, 0, 1]))]))
        if len(ps) < 3: continue
        r.shuffle(ps)
        w = untangle(r, ps)
        w = w and strict_ring(w)
        if w and len(w) >= 3 and simple_ring(w): return w
    return None


def inner_point(r, v):
    """a lattice point inside of the ring"""
    x0, x1 = min(p[0] for p in v), max(p[0] for p in v)
    y0, y1 = min(p[1] for p in v), max(p[1] for p in v)
    es = ring_edges(v)
    for _ in range(20):
        p = (r.randint(x0, x1), r.randint(y0, y1))
        if inside(p, es) and not any(on_seg(a, b, p) for a, b in es): return p
    return None


def bridged(r, v, w):
    """a ring through points of both rings"""
    a, s, _ = spot(r, v)
    b, t, _ = spot(r, w)
    ps = [a, b]
    for p, u in ((a, s), (b, t)):
        if r.random() < .6: ps.append((p[0] + u[0] * r.choice([1, -1, 2]), p[1] + u[1] * r.choice([1, -1, 2])))
    while len(ps) < 3: ps.append((r.choice(ps)[0] + r.randint(-3, 3), r.choice(ps)[1] + r.randint(-3, 3)))
    ps = list(dict.fromkeys(ps))
    if len(ps) < 3: return None
    z = untangle(r, ps)
    z = z and strict_ring(z)
    return z if z and len(z) >= 3 and simple_ring(z) else None


def ring_by(r, rs):
    """a ring in some role with respect to the rings"""
    v = r.choice(rs)
    t = r.random()
    if t < .15: w = list(v)
    elif t < .25: w = clipped(r, v)
    elif t < .32: w = nudge(r, list(v), [(p[0] + r.randint(-2, 2), p[1] + r.randint(-2, 2)) for p in v])
    elif t < .40: w = scaled(v, r.choice([centre(v), r.choice(v)]), *r.choice([(1, 2), (3, 4), (2, 3), (1, 3), (5, 4), (3, 2), (2, 1)]))
    elif t < .50:
        p = inner_point(r, v)
        k = r.choice([1, 1, 2, 3])
        w = p and [(p[0] - r.randint(0, k), p[1] - r.randint(0, k)), (p[0] + r.randint(1, k), p[1] - r.randint(0, k)),
                   (p[0] + r.randint(-k, k), p[1] + r.randint(1, k))]
    elif t < .60: w = bridged(r, v, r.choice(rs))
    elif t < .66 and len(v) > 3:  # a triangle of an ear
        i = r.randrange(len(v))
        w = [v[i - 2], v[i - 1], v[i]]
    elif t < .70:  # the bounding box, grown or not
        g = r.choice([0, 0, 1, 2])
        x0, x1 = min(p[0] for p in v) - g, max(p[0] for p in v) + g
        y0, y1 = min(p[1] for p in v) - g, max(p[1] for p in v) + g
        w = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    else: w = small_ring(r, v)
    return w if w and len(w) >= 3 and simple_ring(w) else None


def fine(r, g):
    """the figure on a finer grid, so that there is room next to its vertices"""
    m = max([1, *(abs(c) for p in points(g) for c in p)])
    k = r.choice([k for k in (1, 2, 3, 4, 6) if k * m <= 44] or [1])
    return map_points(g, lambda p: (k * p[0], k * p[1]))


def host(r, kind):
    t = r.random()
    if t < .3: g = holed(r) if kind == 'polygon' else (kind, [holed(r)[1]]) if kind == 'multipolygon' else None
    elif t < .65:
        m = Mesh(r, r.choice([1, 2, 2, 3, 3]), r.choice([1, 2, 2, 3]), r.random() < .5)
        g = mesh_source(r, m, m.select(r), True).make(kind)
    else: g = free_source(r, r.choice([3, 4, 5, 6]), True).make(kind)
    return fine(r, g or free_source(r, 4, True).make(kind))


def holed(r):
    """a polygon with several holes: a frame with small rings in it, some touching each other or the border"""
    n, m = r.choice([4, 6, 8]), r.choice([4, 6, 8])
    b = [(0, 0), (n, 0), (n, m), (0, m)]
    if r.random() < .3: b = clipped(r, b)
    if not simple_ring(b): b = [(0, 0), (n, 0), (n, m), (0, m)]
    hs = []
    for _ in range(r.choice([2, 4, 6, 8])):
        h = small_ring(r, r.choice([b, b, *hs])) if r.random() < .5 else free_ring(
            r, 2, 2, (r.randint(0, n - 2), r.randint(0, m - 2)))
        if h and add_hole(b, hs, h): hs.append(h)
        if len(hs) > 3: break
    return ('polygon', [b, *hs])


class Scene:
    def __init__(self, r, g):
        self.r, self.g = r, g
        self.rings = rings(g) or [ring_of_segments(r, g)]

    def ring(self):
        for _ in range(10):
            v = ring_by(self.r, self.rings)
            if v: return v
        return list(self.r.choice(self.rings))

    def parts(self, add, make, k):
        out = []
        for _ in range(3 * k):
            if len(out) >= k: break
            p = make()
            if add(out, p): out.append(p)
        return out

    def polygon(self):
        r, g = self.r, self.g
        t = r.random()
        if g[0] in ('polygon', 'multipolygon') and t < .25:
            d = g[1] if g[0] == 'polygon' else r.choice(g[1])
            b, hs = list(d[0]), []
            for h in d[1:]:
                u = r.random()
                if u < .45: w = list(h)
                elif u < .75: w = ring_by(r, [h])
                else: continue
                if w and add_hole(b, hs, w): hs.append(w)
        elif t < .45:
            v = r.choice(self.rings)
            e = r.choice([0, 1, 2, 4])
            x0, x1 = min(p[0] for p in v) - e, max(p[0] for p in v) + e
            y0, y1 = min(p[1] for p in v) - e, max(p[1] for p in v) + e
            b, hs = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)], []
        else: b, hs = self.ring(), []
        for _ in range(r.choice([0, 0, 2, 4, 6])):
            h = ring_by(r, [b, *self.rings, *self.rings])
            if h and add_hole(b, hs, h): hs.append(h)
        return [b, *hs]

    def make(self, kind):
        r = self.r
        k = r.choice([1, 2, 2, 3, 3, 4, 5])
        if kind in ('contour', 'region'): return (kind, self.ring())
        if kind == 'multiregion': return (kind, self.parts(add_ring, self.ring, k) or [self.ring()])
        if kind == 'polygon': return (kind, self.polygon())
        if kind == 'multipolygon': return (kind, self.parts(add_polygon, self.polygon, k) or [self.polygon()])
        if kind == 'segment': return (kind, list(segment_by(r, self.g, self.rings)))
        ss = lambda: segment_by(r, self.g, self.rings)
        if r.random() < .3:
            v = self.ring()
            es = ring_edges(v)
            out = [e for e in es if r.random() < .8]
            return (kind, [*out, *self.parts(lambda o, s: add_segment([*out, *o], s), ss, r.randint(0, 2))] or [ss()])
        return (kind, self.parts(add_segment, ss, k + r.randint(0, 2)) or [ss()])


def ring_of_segments(r, g):
    ps = points(g)
    v = pool_ring(r, sorted(set(ps) | {(p[0] + r.randint(-2, 2), p[1] + r.randint(-2, 2)) for p in ps})[:10])
    return v or [(0, 0), (4, 0), (0, 4)]


def segment_by(r, g, rs):
    """a segment along, through, from points of the edges"""
    es = edges(g) or ring_edges(r.choice(rs))
    for _ in range(30):
        a, b = r.choice(es)
        u = sub(b, a)
        q = math.gcd(*u)
        s = (u[0] // q, u[1] // q)
        at = lambda i: (a[0] + s[0] * i, a[1] + s[1] * i)
        t = r.random()
        if t < .45: e = (at(r.randint(-1, q)), at(r.randint(0, q + 1)))
        elif t < .65: e = (at(r.choice([0, q, r.randint(0, q)])), (at(0)[0] + r.randint(-4, 4), at(0)[1] + r.randint(-4, 4)))
        elif t < .85:
            c, d = r.choice(es)
            e = (at(r.choice([0, q, r.randint(0, q)])), between(r, c, d) if r.random() < .6 else c)
            if r.random() < .3: e = (e[0], (2 * e[1][0] - e[0][0], 2 * e[1][1] - e[0][1]))
        else:
            p, d = at(r.choice([0, q, r.randint(0, q)])), (r.randint(-3, 3), r.randint(-3, 3))
            e = ((p[0] - d[0], p[1] - d[1]), (p[0] + d[0] * 2, p[1] + d[1] * 2))
        if e[0] != e[1] and max(abs(c) for p in e for c in p) <= 70: return e
    return (es[0])


# ------------------------------------------------------------------ bundles of segments on a line
class Line:
    """lattice points of a line; figures with many pieces along it and through its points"""

    def __init__(self, r):
        self.r = r
        self.s = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2), (-1, 3)])
        self.o = (r.randint(-3, 3), r.randint(-3, 3))
        self.n = r.randint(3, 12)

    def at(self, i): return (self.o[0] + self.s[0] * i, self.o[1] + self.s[1] * i)

    def segment(self):
        r = self.r
        t = r.random()
        if t < .5: i, j = 0, self.n
        else: i, j = sorted(r.sample(range(-1, self.n + 2), 2))
        return (self.at(i), self.at(j))

    def pieces(self, dense=.75):
        """consecutive pieces of the line, some missing"""
        r = self.r
        cuts = sorted(r.sample(range(-1, self.n + 2), r.randint(2, min(7, self.n + 3))))
        if r.random() < .6: cuts = sorted({0, self.n, *cuts[1:-1]} & set(range(0, self.n + 1)))
        return [(self.at(i), self.at(j)) for i, j in zip(cuts, cuts[1:]) if r.random() < dense]

    def spoke(self):
        r = self.r
        p = self.at(r.randint(0, self.n) if r.random() < .7 else r.choice([0, self.n, 1]))
        d = (r.randint(-3, 3), r.randint(-3, 3))
        if not cross(d, self.s): return None
        t = r.random()
        if t < .75: return (p, (p[0] + d[0], p[1] + d[1]))
        if t < .95: return ((p[0] - d[0], p[1] - d[1]), (p[0] + d[0], p[1] + d[1]))
        return ((p[0] + d[0], p[1] + d[1]), (p[0] + d[0] + self.s[0], p[1] + d[1] + self.s[1]))

    def fan(self):
        """spokes at one or two points of the line"""
        r = self.r
        ps = [self.at(r.randint(0, self.n)) for _ in range(r.choice([1, 1, 2]))]
        for _ in range(r.randint(2, 5)):
            p = r.choice(ps)
            d = (r.randint(-2, 2), r.randint(-2, 2))
            if cross(d, self.s): yield (p, (p[0] + d[0], p[1] + d[1]))

    def ring(self):
        """a ring with a side along the line"""
        r = self.r
        c = sorted(r.sample(range(-1, self.n + 2), r.randint(2, 4)))
        side = [self.at(i) for i in c]
        nrm = r.choice([1, -1])
        out = []
        for i in range(len(side) - 1):
            out.append(side[i])
            if r.random() < .5:  # leaves the line and comes back
                m = ((side[i][0] + side[i + 1][0]) // 2, (side[i][1] + side[i + 1][1]) // 2)
                k = r.choice([1, 1, -1]) * nrm
                out.append((m[0] - self.s[1] * k, m[1] + self.s[0] * k))
        out.append(side[-1])
        h = r.randint(2, 5)
        for p in (side[-1], side[0])[:r.choice([1, 2, 2])]:
            out.append((p[0] - self.s[1] * h * nrm + r.randint(-1, 1), p[1] + self.s[0] * h * nrm + r.randint(-1, 1)))
        out = list(dict.fromkeys(out))
        return out if simple_ring(out) else None

    def make(self, kind):
        r = self.r
        if kind == 'segment': return (kind, list(self.segment() if r.random() < .8 else (self.spoke() or self.segment())))
        if kind == 'multisegment':
            out = []
            t = r.random()
            ss = self.pieces(r.choice([.5, .8, .9, 1])) if t < .8 else []
            ss += [s for s in [self.spoke() for _ in range(r.choice([0, 1, 2, 3]))] if s]
            if r.random() < .4: ss += list(self.fan())
            if r.random() < .2: ss += [self.segment()]
            for s in ss:
                if add_segment(out, s): out.append(s)
            return (kind, out or [self.segment()])
        for _ in range(30):
            v = self.ring()
            if v: break
        else: v = [(0, 0), (3, 0), (0, 3)]
        if kind in ('contour', 'region'): return (kind, v)
        if kind == 'multiregion':
            out = [v]
            for _ in range(r.randint(0, 3)):
                w = self.ring()
                if w and add_ring(out, w): out.append(w)
            return (kind, out)
        if kind == 'polygon': return (kind, [v])
        out = [[v]]
        for _ in range(r.randint(0, 3)):
            w = self.ring()
            if w and add_polygon(out, [w]): out.append([w])
        return (kind, out)


def scene_pair(r, xk, yk):
    t = r.random()
    if t < (.5 if xk in LINEAR and yk in LINEAR else .25 if xk in LINEAR else .06):
        line = Line(r)
        return line.make(xk), line.make(yk)
    if r.random() < .5:
        y = host(r, yk)
        return Scene(r, y).make(xk), y
    x = host(r, xk)
    return x, Scene(r, x).make(yk)
