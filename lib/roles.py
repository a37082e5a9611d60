"""Figures by roles: a pool of rings and segments around a host is sorted by how each of them lies to every ring of the
host; parts are then drawn by role, each role as likely as any other, so that combinations of rare roles are common."""
from gen import *
from scene import host, inner_point, ring_by, segment_by, spot

_hosts = {}


def place(p, es):
    """0 outside, 1 on, 2 inside"""
    return 1 if any(on_seg(a, b, p) for a, b in es) else 2 if inside(p, es) else 0


def contact(es, fs):
    best = 0
    for e in es:
        for f in fs:
            if not boxes_meet(e, f): continue
            if proper_cross(e, f): return 3
            if best < 2 and coincide(e, f): best = 2
            elif best < 1 and meet(e, f): best = 1
    return best


def box(ps): return min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps)


def group(role):
    """where the item is, roughly: across, away from everything, around something, in one ring, in a ring in a ring"""
    if role == ('mixed',): return 'mixed'
    sides = [s[0] if s else 'out' for s in role]
    if any(s.endswith('+') for s in sides): return 'around'
    return sum(s != 'out' for s in sides)


class Roles:
    def __init__(self, r, g):
        self.r, self.g = r, g
        self.rings = rings(g)
        self.edges = [ring_edges(v) for v in self.rings]
        self.left = 14
        self.ring_pool = self.sort(self.some_rings())
        self.segment_pool = self.sort(self.some_segments(), False)

    def sort(self, items, closed=True):
        out = {}
        for v in items:
            es = ring_edges(v) if closed else [v]
            x0, y0, x1, y1 = box(v)
            role = []
            for w, fs in zip(self.rings, self.edges):
                a0, b0, a1, b1 = box(w)
                if x1 < a0 or a1 < x0 or y1 < b0 or b1 < y0: role.append(0)
                else:
                    at = {place(p, fs) for p in v}
                    back = closed and {place(p, es) for p in w}
                    c = contact(es, fs)
                    if c == 3 or at >= {0, 2}:
                        role = ['mixed']
                        break
                    side = 'out' if 0 in at else 'in' if 2 in at else 'on'
                    if closed and 2 in back: side += '+'
                    role.append((side, c))
            out.setdefault(tuple(role), []).append(v)
        return out

    def touching(self):
        """a ring through points of one to three of the rings"""
        r = self.r
        ps = []
        for v in r.sample(self.rings, min(len(self.rings), r.choice([1, 2, 2, 3]))):
            p, s, _ = spot(r, v)
            ps.append(p)
            if r.random() < .3: ps.append((p[0] + s[0], p[1] + s[1]))
        while len(ps) < 3 or r.random() < .3:
            p = r.choice(ps)
            k = r.choice([1, 2, 3])
            ps.append((p[0] + r.randint(-k, k), p[1] + r.randint(-k, k)))
        ps = list(dict.fromkeys(ps))
        return ps

    def inner(self, v):
        """lattice points inside of a ring, sometimes one of its own"""
        r = self.r
        ps = [p for p in (inner_point(r, v) for _ in range(r.choice([3, 3, 4]))) if p]
        if r.random() < .3: ps.append(spot(r, v)[0])
        return list(dict.fromkeys(ps))

    def some_rings(self):
        r = self.r
        out = [list(v) for v in self.rings]
        for _ in range(25):
            v = ring_by(r, self.rings)
            if v: out.append(v)
        for i in range(40 + 4 * len(self.rings)):
            v = self.touching() if i < 40 else self.inner(self.rings[i % len(self.rings)])
            if len(v) < 3: continue
            v = untangle(r, v)
            v = v and strict_ring(v)
            if v and len(v) >= 3 and simple_ring(v): out.append(v)
        return out

    def some_segments(self):
        r, out = self.r, []
        for _ in range(40): out.append(segment_by(r, self.g, self.rings))
        for _ in range(30):
            v, w = r.choice(self.rings), r.choice(self.rings)
            a, b = spot(r, v)[0], spot(r, w)[0]
            t = r.random()
            if t < .2: b = (2 * b[0] - a[0], 2 * b[1] - a[1])
            elif t < .5: b = (a[0] + r.randint(-2, 2), a[1] + r.randint(-2, 2))
            if a != b: out.append((a, b))
        return [s for s in out if max(abs(c) for p in s for c in p) <= 70]

    def draw(self, pool):
        """a group of roles, a role of the group, an item of the role"""
        r = self.r
        groups = {}
        for role in pool: groups.setdefault(group(role), []).append(role)
        names = list(groups)
        name = r.choices(names, [.5 if n == 'mixed' else 1 for n in names])[0]
        return r.choice(pool[r.choice(groups[name])])

    def ring(self): return list(self.draw(self.ring_pool))
    def segment(self): return tuple(self.draw(self.segment_pool))

    def polygon(self):
        r = self.r
        b, hs = self.ring(), []
        for _ in range(r.choice([0, 0, 6, 12])):
            h = self.ring()
            if h != b and add_hole(b, hs, h): hs.append(h)
            if len(hs) >= 3: break
        return [b, *hs]

    def parts(self, add, make):
        k = self.r.choice([1, 2, 2, 2, 3, 3, 4])
        out = []
        for _ in range(6 * k):
            if len(out) >= k: break
            p = make()
            if add(out, p): out.append(p)
        return out

    def make(self, kind):
        r = self.r
        if kind == 'segment': return (kind, list(self.segment()))
        if kind == 'multisegment':
            out = []
            if r.random() < .3: out = [e for e in ring_edges(self.ring()) if r.random() < .8]
            out += self.parts(lambda o, s: add_segment([*out, *o], s), self.segment)
            return (kind, out or [self.segment()])
        if kind in ('contour', 'region'): return (kind, self.ring())
        if kind == 'multiregion': return (kind, self.parts(add_ring, self.ring))
        if kind == 'polygon': return (kind, self.polygon())
        return (kind, self.parts(add_polygon, self.polygon))


def ringed(r, kind):
    """rather a host of several rings"""
    for _ in range(8):
        g = host(r, kind)
        if len(rings(g)) > 1 or kind not in ('polygon', 'multiregion', 'multipolygon') or r.random() < .1: break
    m = max([1, *(abs(c) for p in points(g) for c in p)])
    return map_points(g, lambda p: (p[0] * max(1, 60 // m), p[1] * max(1, 60 // m))) if r.random() < .6 else g


def around(r, kind):
    """the roles around some host of a kind"""
    h = _hosts.get(kind)
    if h is None or not h.left or h.r is not r:
        h = _hosts[kind] = Roles(r, ringed(r, kind))
    h.left -= 1
    return h


def roles_pair(r, xk, yk):
    hosts = [k for k in (xk, yk) if k not in ('segment', 'multisegment')]
    # rather the kind with more structure
    if not hosts: return None
    k = hosts[-1] if r.random() < .65 else hosts[0]
    h = around(r, k)
    if k == yk: return h.make(xk), h.g
    return h.g, h.make(yk)
