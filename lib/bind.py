"""Binding of specification values to the real code: builds library objects, calls orient.planar, projects results.

Only the public API of orient.planar and ground is used."""
import os
import resource
import signal
import sys
from fractions import Fraction

REPO = os.environ.get('ORIENT_REPO', '/repo')
if REPO not in sys.path: sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from ground.base import (Context, Location, Mode, Relation, get_context, set_context)  # noqa: E402

CALL_TIMEOUT = 60.0
RAISED, HUNG, WRONG_TYPE = -1, -2, -3
RELATION_NAMES = ['DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COVER', 'ENCLOSES', 'COMPOSITE', 'EQUAL', 'COMPONENT',
                  'ENCLOSED', 'WITHIN']
LOCATION_NAMES = ['EXTERIOR', 'BOUNDARY', 'INTERIOR']
RELATION_CODES = {getattr(Relation, n): i for i, n in enumerate(RELATION_NAMES)}
LOCATION_CODES = {getattr(Location, n): i for i, n in enumerate(LOCATION_NAMES)}

try:
    import orient.planar as planar
    IMPORT_ERROR = None
except BaseException as error:  # noqa: a broken tree must become a verdict, not an error of the check
    planar, IMPORT_ERROR = None, f'{type(error).__name__}: {error}'


class Hang(BaseException):
    pass


def _on_alarm(signum, frame): raise Hang()


def watch_time(): signal.signal(signal.SIGALRM, _on_alarm)


def guard_process():
    """limits of a worker process"""
    watch_time()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


class Image:
    """an invertible affine map and a way to write numbers down; described by a JSON value, so that a recorded
    case can be replayed: [a, b, c, d, e, f, style]"""
    STYLES = ['int', 'fraction', 'float', 'thirds', 'big', 'bigfloat', 'tinyfloat', 'dyadic', 'mixed',
              'remoteint', 'fine', 'remotefloat', 'ulp']

    def __init__(self, spec=(1, 0, 0, 1, 0, 0, 'int')):
        self.spec = spec
        *self.m, self.style = spec

    def __call__(self, p):
        a, b, c, d, e, f = self.m
        x, y = a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f
        s = self.style
        if s == 'int': return x, y
        if s == 'fraction': return Fraction(x), Fraction(y)
        if s == 'float': return float(x), float(y)
        if s == 'thirds': return Fraction(x, 3) - Fraction(1, 7), Fraction(y, 5) + Fraction(2, 3)
        if s == 'big': return x * 10 ** 30 + 7, y * 10 ** 30 - 11
        if s == 'bigfloat': return float(x * 2 ** 40 + 2 ** 50), float(y * 2 ** 40 - 2 ** 49)
        if s == 'tinyfloat': return x * 2.0 ** -200, y * 2.0 ** -200
        if s == 'dyadic': return x * 2.0 ** -28 + 2.0 ** 20, y * 2.0 ** -28 - 2.0 ** 19
        if s == 'mixed':
            return ((x, float(x), Fraction(x))[(x + 2 * y) % 3], (float(y), Fraction(y), y)[(x + y) % 3])
        # small figures far from the origin or of tiny extent: rounding anything to a float merges their points
        if s == 'remoteint': return x + 10 ** 40, y - 3 * 10 ** 40
        if s == 'fine': return Fraction(x, 10 ** 30) + Fraction(1, 3), Fraction(y, 10 ** 30) - Fraction(2, 3)
        if s == 'remotefloat': return float(2 ** 51 + x), float(y - 2 ** 52)
        if s == 'ulp': return 1 + x * 2.0 ** -52, 1 + y * 2.0 ** -52
        raise ValueError(s)


MATRICES = [(1, 0, 0, 1), (0, 1, 1, 0), (-1, 0, 0, 1), (1, 0, 0, -1), (0, -1, 1, 0), (-1, 0, 0, -1), (1, 1, 0, 1),
            (1, 0, 1, 1), (1, -1, 1, 1), (2, 1, 1, 1), (3, 0, 0, 1), (1, 2, -1, 1), (0, 1, -1, 0), (5, 3, 2, -1),
            (1, 0, 0, 1000), (101, 100, 100, 99)]


def random_image(r, styles=None):
    return [*r.choice(MATRICES), r.choice([0, 0, 1, -3, -50, 1000]), r.choice([0, 0, -1, 7, -40, 999]),
            r.choice(styles or Image.STYLES)]


class Builder:
    """builds library objects from specification values"""

    def __init__(self, context=None, image=None, sequence=list):
        self.context = context or get_context()
        self.image, self.sequence = image or (lambda p: p), sequence

    def point(self, p): return self.context.point_cls(*self.image(p))
    def segment(self, s): return self.context.segment_cls(self.point(s[0]), self.point(s[1]))

    def multisegment(self, d):
        return self.context.multisegment_cls(self.sequence([self.segment(s) for s in d]))

    def contour(self, v): return self.context.contour_cls(self.sequence([self.point(p) for p in v]))
    region = contour
    def multiregion(self, d): return self.sequence([self.contour(v) for v in d])

    def polygon(self, d):
        return self.context.polygon_cls(self.contour(d[0]), self.sequence([self.contour(v) for v in d[1:]]))

    def multipolygon(self, d):
        return self.context.multipolygon_cls(self.sequence([self.polygon(p) for p in d]))

    def __call__(self, g): return getattr(self, g[0])(g[1])


def project(kind, o):
    """the specification value a library object currently stands for"""
    pt = lambda p: (p.x, p.y)
    seg = lambda s: [pt(s.start), pt(s.end)]
    cont = lambda c: [pt(p) for p in c.vertices]
    poly = lambda p: [cont(p.border), *[cont(h) for h in p.holes]]
    return {'point': pt, 'segment': seg, 'multisegment': lambda m: [seg(s) for s in m.segments], 'contour': cont,
            'region': cont, 'multiregion': lambda m: [cont(c) for c in m], 'polygon': poly,
            'multipolygon': lambda m: [poly(p) for p in m.polygons]}[kind](o)


def code(kind, value):
    """number of the result, as in the specification"""
    table, cls = (LOCATION_CODES, Location) if kind == 'point' else (RELATION_CODES, Relation)
    if type(value) is not cls: return WRONG_TYPE, f'{value!r} of type {type(value).__name__}'
    return table[value], ''


def call(x_kind, y_kind, x, y, **kwargs):
    """calls the relation; -> (code, message)"""
    if IMPORT_ERROR: return RAISED, 'import of orient.planar fails: ' + IMPORT_ERROR
    signal.setitimer(signal.ITIMER_REAL, CALL_TIMEOUT)
    try:
        try:
            result = getattr(planar, f'{x_kind}_in_{y_kind}')(x, y, **kwargs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return code(x_kind, result)
    except Hang: return HUNG, f'no answer within {CALL_TIMEOUT} s'
    except Exception as error: return RAISED, f'{type(error).__name__}: {error}'[:300]


def call_untimed(x_kind, y_kind, x, y, **kwargs):
    """for threads other than the main one, where there are no alarms"""
    if IMPORT_ERROR: return RAISED, 'import of orient.planar fails: ' + IMPORT_ERROR
    try: return code(x_kind, getattr(planar, f'{x_kind}_in_{y_kind}')(x, y, **kwargs))
    except Exception as error: return RAISED, f'{type(error).__name__}: {error}'[:300]


def observe(x, y, builder=None, **kwargs):
    builder = builder or Builder()
    return call(x[0], y[0], builder(x), builder(y), **kwargs)


def name(kind, result):
    if result == RAISED: return 'an exception'
    if result == HUNG: return 'no answer'
    if result == WRONG_TYPE: return 'a value of a wrong type'
    return (LOCATION_NAMES if kind == 'point' else RELATION_NAMES)[result]
