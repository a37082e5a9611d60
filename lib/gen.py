"""Input generators (randomized by an explicit random.Random).  They only build inputs; the verdicts are
the specification's, which also re-checks that every input is a valid geometry (Planar!Valid)."""
from geom import *


# ------------------------------------------------------------------ meshes: geometries as unions of faces
class Mesh:
    """a rectangular grid with random spacing whose cells are split at random; geometries are unions of its
    faces, so that they share vertices, edges, rings, holes"""

    def __init__(self, r, nx, ny, even=False):
        step = (lambda: 2 * r.randint(1, 2)) if even else (lambda: r.choice([1, 1, 1, 2, 2, 3]))
        xs, ys = [0], [0]
        for _ in range(nx): xs.append(xs[-1] + step())
        for _ in range(ny): ys.append(ys[-1] + step())
        sh = r.choice([0, 0, 0, 0, 1, -1])
        sv = r.choice([0, 0, 0, 0, 0, 1]) if not sh else 0
        at = lambda i, j: (xs[i] + sh * ys[j], ys[j] + sv * xs[i])
        style = r.choice(['mixed', 'mixed', 'quads', 'tri', 'slash'])
        self.faces = []
        for i in range(nx):
            for j in range(ny):
                a, b, c, d = at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)
                t = {'mixed': r.choice('qqsb' + ('x' if even else '')), 'quads': 'q', 'slash': 's',
                     'tri': r.choice('sb' + ('xx' if even else ''))}[style]
                if t == 'q': self.faces.append([a, b, c, d])
                elif t == 's': self.faces += [[a, b, c], [a, c, d]]
                elif t == 'b': self.faces += [[a, b, d], [b, c, d]]
                else:
                    m = ((a[0] + c[0]) // 2, (a[1] + c[1]) // 2)
                    self.faces += [[a, b, m], [b, c, m], [c, d, m], [d, a, m]]
        self.of = {}
        for i, f in enumerate(self.faces):
            for e in zip(f, f[1:] + f[:1]): self.of[e] = i
        self.vertices = sorted({p for f in self.faces for p in f})
        self.edges = sorted({tuple(sorted(e)) for e in self.of})
        self.links = [sorted({self.of[b, a] for a, b in zip(f, f[1:] + f[:1]) if (b, a) in self.of})
                      for f in self.faces]

    def blob(self, r, n=None):
        total = len(self.faces)
        n = n or r.randint(1, max(1, total * 2 // 3))
        s = {r.randrange(total)}
        for _ in range(4 * n):
            if len(s) >= n: break
            f = r.choice(sorted(s))
            if self.links[f]: s.add(r.choice(self.links[f]))
        return s

    def select(self, r):
        total = range(len(self.faces))
        t = r.random()
        if t < .35: return self.blob(r)
        if t < .5: return set(total) - self.blob(r, r.randint(1, 4)) or {0}
        if t < .6:
            s = set(total) - self.blob(r, r.randint(1, 2)) - self.blob(r, r.randint(1, 2)) - self.blob(r, 1)
            return s or {0}
        if t < .7: return self.blob(r) | self.blob(r)
        if t < .75: return set(total)
        p = r.choice([.15, .3, .5, .7])
        return {i for i in total if r.random() < p} or {r.choice(total)}

    def other(self, r, s):
        """a selection related to the given one"""
        total = set(range(len(self.faces)))
        t = r.random()
        if t < .1: return set(s)
        if t < .2: return (total - s) or set(s)
        if t < .3: return s | self.select(r)
        if t < .4: return (s & self.select(r)) or set(s)
        if t < .5: return ((total - s) & self.select(r)) or {r.choice(sorted(total))}
        if t < .6: return (s - self.blob(r, r.randint(1, 2))) or set(s)
        if t < .7: return s | self.blob(r, r.randint(1, 2))
        return self.select(r)

    def polygons(self, s):
        """components of the union of the faces as polygons [border, hole, ..]"""
        out, left = [], set(s)
        while left:
            start = min(left)
            comp, todo = {start}, [start]
            while todo:
                for g in self.links[todo.pop()]:
                    if g in left and g not in comp: comp.add(g); todo.append(g)
            left -= comp
            nxt = {}
            for i in sorted(comp):
                f = self.faces[i]
                for a, b in zip(f, f[1:] + f[:1]):
                    if self.of.get((b, a)) not in comp: nxt.setdefault(a, []).append(b)
            loops = []
            while nxt:
                a = min(nxt)
                path, index = [a], {a: 0}
                while True:
                    outs = nxt[path[-1]]
                    if len(outs) > 1 and len(path) > 1:  # keep to the wedge of the interior we are in
                        p, q = path[-1], path[-2]
                        back = sub(q, p)
                        outs.sort(key=lambda b: _cw_key(back, sub(b, p)))
                    b = outs.pop(0)
                    if not outs: del nxt[path[-1]]
                    if b in index:
                        i = index[b]
                        loops.append(path[i:])
                        for p in path[i + 1:]: del index[p]
                        path = path[:i + 1]
                        if i == 0 and b not in nxt: break
                        if i == 0: break
                    else:
                        index[b] = len(path)
                        path.append(b)
            outer = [l for l in loops if area2(l) > 0]
            holes = [l for l in loops if area2(l) < 0]
            if len(outer) == 1: out.append([outer[0], *holes])
        return out


def _cw_key(base, v):
    """position of v when turning clockwise from base, as a sortable key"""
    import math
    a = (math.atan2(base[1], base[0]) - math.atan2(v[1], v[0])) % (2 * math.pi)
    return a if a > 1e-9 else 2 * math.pi


# ------------------------------------------------------------------ free rings
def untangle(r, ps):
    for _ in range(80):
        m = len(ps)
        es = [(ps[i], ps[(i + 1) % m]) for i in range(m)]
        bad = [(i, j) for i in range(m) for j in range(i + 2, m)
               if not (i == 0 and j == m - 1) and meet(es[i], es[j])]
        if not bad: return ps
        i, j = r.choice(bad)
        ps[i + 1:j + 1] = ps[i + 1:j + 1][::-1]
    return None


def free_ring(r, w, h, off=(0, 0), k=None, strict=True):
    for _ in range(100):
        n = k or r.choice([3, 3, 4, 4, 5, 6, 7, 8])
        ps = list({(off[0] + r.randint(0, w), off[1] + r.randint(0, h)) for _ in range(n)})
        if len(ps) < 3: continue
        r.shuffle(ps)
        ps = untangle(r, ps)
        if ps and strict: ps = strict_ring(ps)
        if ps and simple_ring(ps): return ps
    return [off, (off[0] + w, off[1]), (off[0], off[1] + h)]


def pool_ring(r, pool, k=None, strict=True):
    for _ in range(20):
        n = k or r.choice([3, 3, 4, 4, 5, 6, 7])
        if len(pool) < 3: return None
        ps = r.sample(pool, min(n, len(pool)))
        ps = untangle(r, ps)
        if ps and strict: ps = strict_ring(ps)
        if ps and len(ps) >= 3 and simple_ring(ps): return ps
    return None


def star_ring(r, c, radius, k):
    """a large ring: a star-shaped one around c"""
    import math
    for _ in range(50):
        ps, seen = [], set()
        for a in sorted(r.random() for _ in range(k)):
            d = radius * r.uniform(.25, 1)
            p = (round(c[0] + d * math.cos(2 * math.pi * a)), round(c[1] + d * math.sin(2 * math.pi * a)))
            if p not in seen: seen.add(p); ps.append(p)
        ps = strict_ring(ps)
        if len(ps) >= 3 and simple_ring(ps): return ps
    return [(c[0] - radius, c[1] - radius), (c[0] + radius, c[1] - radius), (c[0], c[1] + radius)]


# ------------------------------------------------------------------ assembling
def accumulate(r, make, ok, k, tries=4):
    out = []
    for _ in range(k * tries):
        if len(out) >= k: break
        x = make()
        if x is not None and ok(out, x): out.append(x)
    return out


def add_ring(out, v): return simple_ring(v) and all(apart(v, q) for q in out)


def add_segment(out, s): return s[0] != s[1] and all(discrete([s], [e]) for e in out)


def add_hole(border, holes, h):
    return (simple_ring(h) and discrete(ring_edges(h), ring_edges(border)) and ring_side(h, border) == 'in'
            and all(apart(h, q) for q in holes) and connected_interior([border, *holes, h]))


def add_polygon(out, p): return all(polygons_apart(p, q) for q in out)


class Source:
    """hands out the parts geometries are made from: rings, polygons, segments, points"""

    def __init__(self, r, ring, polygon, segment, box):
        self.r, self.ring, self.polygon, self.segment, self.box = r, ring, polygon, segment, box

    def make(self, kind):
        r = self.r
        if kind == 'segment': return (kind, list(self.segment()))
        if kind == 'multisegment':
            out = accumulate(r, self.segment, add_segment, r.choice([1, 2, 2, 3, 3, 4, 5, 6]))
            return (kind, out or [self.segment()])
        if kind in ('contour', 'region'): return (kind, self.ring())
        if kind == 'multiregion':
            out = accumulate(r, self.ring, add_ring, r.choice([1, 2, 2, 3, 3, 4]))
            return (kind, out or [self.ring()])
        if kind == 'polygon': return (kind, self.polygon())
        out = accumulate(r, self.polygon, add_polygon, r.choice([1, 2, 2, 3, 3, 4]))
        return (kind, out or [self.polygon()])


def segment_in(r, w, h, off=(0, 0)):
    while True:
        a = (off[0] + r.randint(0, w), off[1] + r.randint(0, h))
        b = (off[0] + r.randint(0, w), off[1] + r.randint(0, h))
        if a != b: return (a, b)


def free_source(r, n, strict=True):
    def window():
        m = r.choice([n, max(2, n // 2), max(2, n // 2), max(2, n // 3)])
        return m, (r.randint(0, n - m), r.randint(0, n - m))

    def ring():
        m, off = window()
        return free_ring(r, m, m, off, strict=strict)

    def polygon():
        m, off = window()
        b = free_ring(r, m, m, off, strict=strict) if r.random() < .6 else [
            off, (off[0] + m, off[1]), (off[0] + m, off[1] + m), (off[0], off[1] + m)]
        hs = []
        for _ in range(r.choice([0, 2, 4, 8])):
            l = r.choice([2, 3, max(2, m // 2), max(2, m - 1)])
            l = min(l, m)
            h = free_ring(r, l, l, (off[0] + r.randint(0, m - l), off[1] + r.randint(0, m - l)), strict=strict)
            if add_hole(b, hs, h): hs.append(h)
        if r.random() < .4: hs += touching_holes(r, b, hs, off, m)
        return [b, *hs]
    last = []

    def segment():
        if last and r.random() < .5:
            a = r.choice(r.choice(last))
            b = (r.randint(0, n), r.randint(0, n))
            s = (a, b) if a != b else segment_in(r, n, n)
            if r.random() < .5: s = s[::-1]
        else: s = segment_in(r, n, n)
        last.append(s)
        return s
    return Source(r, ring, polygon, segment, (0, 0, n, n))


def touching_holes(r, border, holes, off, m):
    """holes that touch the border or another hole at a point"""
    out = []
    for _ in range(r.choice([1, 2, 3])):
        ring = r.choice([border, border, *holes, *out])
        p = r.choice(ring) if r.random() < .7 else lattice_point(r, *r.choice(ring_edges(ring)))
        for _ in range(8):
            qs = {(off[0] + r.randint(0, m), off[1] + r.randint(0, m)) for _ in range(r.choice([2, 2, 3, 3, 4]))}
            if r.random() < .5:  # an edge along an edge at the point
                es = [e for e in ring_edges(ring) if p in e]
                if es:
                    a, b = r.choice(es)
                    q = b if a == p else a
                    qs.add((2 * p[0] - q[0], 2 * p[1] - q[1]))
            h = pool_ring(r, sorted(qs | {p}), k=len(qs | {p}))
            if h and p in h and all(off[0] <= q[0] <= off[0] + m and off[1] <= q[1] <= off[1] + m for q in h) \
                    and add_hole(border, [*holes, *out], h):
                out.append(h)
                break
    return out


def lattice_point(r, a, b):
    import math
    u = sub(b, a)
    q = math.gcd(*u)
    i = r.randint(0, q)
    return (a[0] + u[0] // q * i, a[1] + u[1] // q * i)


def related_source(r, g, n, strict=True):
    """parts that interact with g: its vertices, edges, rings, edge midpoints"""
    rs, es = rings(g), edges(g)
    pool = points(g)
    if g[0] == 'point': pool = [g[1]]
    mids = [((a[0] + b[0]) // 2, (a[1] + b[1]) // 2) for a, b in es
            if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0]
    pool = sorted(set(pool) | set(r.sample(mids, min(len(mids), r.randint(0, 4))))
                  | {(r.randint(0, n), r.randint(0, n)) for _ in range(r.randint(0, 4))})
    if len(pool) > 12: pool = sorted(r.sample(pool, 12))

    def ring():
        t = r.random()
        if rs and t < .35: return list(r.choice(rs))
        if rs and t < .55: return nudge(r, list(r.choice(rs)), pool)
        return pool_ring(r, pool, strict=strict) or free_ring(r, n, n, strict=strict)

    def polygon():
        if g[0] == 'polygon' and r.random() < .3: b, *hs = g[1]; hs = r.sample(hs, r.randint(0, len(hs)))
        elif g[0] == 'multipolygon' and r.random() < .3:
            b, *hs = r.choice(g[1]); hs = r.sample(hs, r.randint(0, len(hs)))
        else: b, hs = ring(), []
        for _ in range(r.choice([0, 0, 3, 6])):
            h = ring() if r.random() < .7 else free_ring(r, max(2, n // 2), max(2, n // 2),
                                                         (r.randint(0, n // 2), r.randint(0, n // 2)), strict=strict)
            if add_hole(b, hs, h): hs.append(h)
        return [list(b), *[list(h) for h in hs]]

    knots = [p for p in pool if sum(p in v or any(on_seg(a, b, p) for a, b in ring_edges(v)) for v in rs) > 1]

    def segment():
        t = r.random()
        if knots and t < .35:  # through a point where rings touch each other
            p = r.choice(knots)
            u = sub(r.choice([*r.choice([e for e in es if on_seg(*e, p)]), r.choice(pool)]), p)
            if u != (0, 0):
                import math
                q = math.gcd(*u)
                i, j = r.randint(-2, 0), r.randint(1, q + 1)
                k = r.choice([1, q])
                s = ((p[0] + u[0] // q * i * k, p[1] + u[1] // q * i * k),
                     (p[0] + u[0] // q * j, p[1] + u[1] // q * j))
                if max(abs(c) for p in s for c in p) <= 70: return s
            t = r.random()
        if es and t < .3: return r.choice(es)
        if es and t < .5:  # along an edge, longer or shorter
            a, b = r.choice(es)
            u = sub(b, a)
            import math
            q = math.gcd(*u)
            i, j = r.randint(-1, q), r.randint(0, q + 1)
            s = ((a[0] + u[0] // q * i, a[1] + u[1] // q * i), (a[0] + u[0] // q * j, a[1] + u[1] // q * j))
            if s[0] != s[1] and max(abs(c) for p in s for c in p) <= 70: return s
        for _ in range(50):
            a = r.choice(pool)
            b = r.choice(pool) if r.random() < .6 else (r.randint(0, n), r.randint(0, n))
            if a != b:
                if r.random() < .2:  # through a vertex and further
                    c = (2 * b[0] - a[0], 2 * b[1] - a[1])
                    if max(abs(c[0]), abs(c[1])) <= 70: return (a, c)
                return (a, b)
        return segment_in(r, n, n)
    return Source(r, ring, polygon, segment, (0, 0, n, n))


def nudge(r, v, pool):
    """the ring with a vertex moved, dropped or added"""
    for _ in range(6):
        w = list(v)
        t, i = r.random(), r.randrange(len(w))
        if t < .4: w[i] = r.choice(pool)
        elif t < .7 and len(w) > 3: del w[i]
        else: w.insert(i, r.choice(pool))
        if len(w) >= 3 and simple_ring(w): return w
    return v


def mesh_source(r, mesh, s, strict):
    fix = strict_ring if strict else (lambda v: v)
    polys = [[fix(v) for v in p] for p in mesh.polygons(s)]
    polys = [p for p in polys if valid_polygon(p)] or [[list(mesh.faces[0])]]
    loops = [v for p in polys for v in p]

    def ring(): return list(r.choice(loops)) if r.random() < .8 else list(r.choice(polys)[0])
    def polygon(): return [list(v) for v in r.choice(polys)]

    def segment():
        t = r.random()
        if t < .45:
            v = r.choice(loops)
            i = r.randrange(len(v))
            return (v[i - 1], v[i])
        if t < .6: return r.choice(mesh.edges)
        while True:
            a, b = r.choice(mesh.vertices), r.choice(mesh.vertices)
            if a != b: return (a, b)
    src = Source(r, ring, polygon, segment, None)
    base_make = src.make

    def make(kind):
        if kind == 'multipolygon' and r.random() < .7: return (kind, [[list(v) for v in p] for p in polys])
        if kind == 'multiregion' and r.random() < .7:
            out = []
            for p in r.sample(polys, len(polys)):
                if add_ring(out, p[0]): out.append(list(p[0]))
            return (kind, out)
        if kind == 'multiregion' and r.random() < .5:
            hs = [p[1:] for p in polys if len(p) > 1]
            if hs: return (kind, [list(v) for v in r.choice(hs)])
        if kind == 'polygon' and r.random() < .6:
            return (kind, [list(v) for v in max(polys, key=lambda p: (len(p), len(p[0])))])
        if kind == 'multisegment' and r.random() < .4:
            es = [e for v in loops for e in ring_edges(v)]
            if r.random() < .6: es = r.sample(es, r.randint(1, len(es)))
            out = []
            for e in es:
                if add_segment(out, e): out.append(e)
            return (kind, out)
        return base_make(kind)
    src.make = make
    return src


def scramble(r, g):
    """another spelling of the figure: rotations, reversals, order of the parts"""
    def fl(v):
        v = list(v)
        if r.random() < .5: v.reverse()
        i = r.randrange(len(v))
        return v[i:] + v[:i]
    k, d = g
    if k == 'segment': return (k, list(d) if r.random() < .5 else list(d)[::-1])
    if k == 'multisegment':
        d = [tuple(s) if r.random() < .5 else tuple(s)[::-1] for s in d]
        r.shuffle(d)
        return (k, d)
    if k in ('contour', 'region'): return (k, fl(d))
    if k == 'multiregion':
        d = [fl(v) for v in d]
        r.shuffle(d)
        return (k, d)

    def poly(p):
        hs = [fl(v) for v in p[1:]]
        r.shuffle(hs)
        return [fl(p[0]), *hs]
    if k == 'polygon': return (k, poly(d))
    if k == 'multipolygon':
        d = [poly(p) for p in d]
        r.shuffle(d)
        return (k, d)
    return g


def far_part(r, g):
    """adds a part far away to a multi-geometry"""
    k, d = g
    ps = points(g)
    dx = r.choice([-1, 0, 1])
    dy = r.choice([-1, 1]) if dx == 0 else r.choice([-1, 0, 1])
    x0, x1 = min(p[0] for p in ps), max(p[0] for p in ps)
    y0, y1 = min(p[1] for p in ps), max(p[1] for p in ps)
    gap = r.choice([0, 1, 3])
    ox = x1 + gap if dx > 0 else x0 - 2 - gap if dx < 0 else x0
    oy = y1 + gap if dy > 0 else y0 - 2 - gap if dy < 0 else y0
    t = [(ox, oy), (ox + 2, oy), (ox + 1, oy + 2)]
    if k == 'multiregion' and add_ring(d, t): return (k, [*d, t])
    if k == 'multipolygon' and add_polygon(d, [t]): return (k, [*d, [t]])
    if k == 'multisegment' and add_segment(d, (t[0], t[1])): return (k, [*d, (t[0], t[1])])
    return g


def limit(g): return size(g) <= 60 and all(abs(c) <= 72 for p in points(g) for c in p)


def pair(r, xk, yk):
    """a pair of geometries of the given kinds likely to interact"""
    for _ in range(50):
        t = r.random()
        if t < .25:
            import corpus
            x, y = corpus.sample(r, xk, yk)
        elif t < .5:
            import roles
            x, y = roles.roles_pair(r, xk, yk) or _pair(r, xk, yk)
        elif t < .75:
            import scene
            x, y = scene.scene_pair(r, xk, yk)
        else: x, y = _pair(r, xk, yk)
        if r.random() < .12: x = far_part(r, x)
        if r.random() < .12: y = far_part(r, y)
        if limit(x) and limit(y): return scramble(r, x), scramble(r, y)
    raise RuntimeError('no pair')


def _pair(r, xk, yk):
    strict = r.random() < .85
    t = r.random()
    if t < .45:
        m = Mesh(r, r.choice([1, 2, 2, 3, 3, 4]), r.choice([1, 2, 2, 3, 3]), r.random() < .5)
        s = m.select(r)
        x = mesh_source(r, m, s, strict).make(xk)
        u = r.random()
        if u < .75: y = mesh_source(r, m, m.other(r, s), strict).make(yk)
        elif u < .88:
            m2 = Mesh(r, r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.random() < .5)
            y = mesh_source(r, m2, m2.select(r), strict).make(yk)
            o = (r.randint(-2, 3), r.randint(-2, 3))
            y = map_points(y, lambda p: (p[0] + o[0], p[1] + o[1]))
        else:
            n = max(c for p in m.vertices for c in p)
            y = related_source(r, x, max(2, n), strict).make(yk)
        return (x, y) if r.random() < .5 or xk == yk else (x, y)
    if t < .93:
        n = r.choice([2, 3, 4, 4, 5, 6, 8])
        if r.random() < .5:
            x = free_source(r, n, strict).make(xk)
            y = (related_source(r, x, n, strict) if r.random() < .75 else free_source(r, n, strict)).make(yk)
        else:
            y = free_source(r, n, strict).make(yk)
            x = (related_source(r, y, n, strict) if r.random() < .75 else free_source(r, n, strict)).make(xk)
        return x, y
    return large(r, xk), large(r, yk)


def large(r, kind):
    """bigger figures in general position"""
    n = r.choice([12, 20, 40, 70])

    def ring():
        rad = r.randint(max(2, n // 6), n // 2)
        return star_ring(r, (r.randint(rad, n - rad), r.randint(rad, n - rad)), rad, r.randint(3, 14))

    def polygon():
        b = ring()
        hs = []
        for _ in range(r.choice([0, 3, 6])):
            c = r.choice(b)
            d = r.choice(b)
            rad = r.randint(1, max(1, n // 8))
            h = star_ring(r, ((c[0] + d[0]) // 2 + r.randint(-2, 2), (c[1] + d[1]) // 2 + r.randint(-2, 2)), rad,
                          r.randint(3, 6))
            if add_hole(b, hs, h): hs.append(h)
        return [b, *hs]
    return Source(r, ring, polygon, lambda: segment_in(r, n, n), None).make(kind)


def query_point(r, g):
    """a point to locate in g"""
    ps, es = points(g), edges(g)
    t = r.random()
    if t < .2: return r.choice(ps)
    if t < .4:
        import math
        a, b = r.choice(es)
        u = sub(b, a)
        q = math.gcd(*u)
        i = r.randint(-1, q + 1)
        return (a[0] + u[0] // q * i, a[1] + u[1] // q * i)
    if t < .5: return (r.choice(ps)[0], r.choice(ps)[1])
    if t < .6:
        p = r.choice(ps)
        return (p[0] + r.randint(-1, 1), p[1] + r.randint(-1, 1))
    x = r.randint(min(p[0] for p in ps) - 1, max(p[0] for p in ps) + 1)
    y = r.randint(min(p[1] for p in ps) - 1, max(p[1] for p in ps) + 1)
    return (x, y)


def single(r, kind):
    t = r.random()
    strict = r.random() < .85
    if t < .45:
        m = Mesh(r, r.choice([1, 2, 2, 3, 3, 4]), r.choice([1, 2, 2, 3, 3]), r.random() < .5)
        g = mesh_source(r, m, m.select(r), strict).make(kind)
    elif t < .9: g = free_source(r, r.choice([2, 3, 4, 5, 6, 8]), strict).make(kind)
    else: g = large(r, kind)
    if r.random() < .1: g = far_part(r, g)
    return scramble(r, g) if limit(g) else single(r, kind)
