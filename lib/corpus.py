"""Inputs that take the library through many different paths (prepared by dev/distill.py and dev/select.py).  They are
only inputs: what the library has to answer for them is the specification's business."""
import gzip
import json
import os

from geom import from_json

_by = {}


def entries(xk, yk):
    """[(x, y), ..] kept for a function"""
    if not _by:
        with gzip.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'corpus.jsonl.gz'), 'rt') as f:
            for line in f:
                a, b = json.loads(line)
                _by.setdefault((a['k'], b['k']), []).append((a, b))
    return _by.get((xk, yk), [])


def decoded(entry): return tuple(from_json(g) for g in entry)


def sample(r, xk, yk):
    """one of them, or one near to it"""
    import session
    es = entries(xk, yk)
    if not es: return None
    x, y = decoded(r.choice(es))
    t = r.random()
    if t < .3 and xk != 'point': x = session.tweak(r, x) or x
    elif t < .6: y = session.tweak(r, y) or y
    elif t < .7:
        o = (r.choice([-1, 0, 1, 2]), r.choice([-1, 0, 1]))
        from geom import map_points
        x = map_points(x, lambda p: (p[0] + o[0], p[1] + o[1]))
    return x, y
