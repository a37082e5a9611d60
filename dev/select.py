"""python dev/select.py CAP OUT FILE..: picks up to CAP inputs per function from what dev/distill.py kept, one for every
way the library goes through them, and writes OUT (gzipped json lines)."""
import gzip
import json
import os
import random
import sys
from collections import Counter
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import bind
import distill
from geom import *


def features(line):
    x, y = (from_json(g) for g in json.loads(line))
    b = bind.Builder()
    distill.counts.clear()
    ox, oy = b(x), b(y)
    sys.monitoring.set_events(distill.TOOL, sys.monitoring.events.LINE)
    code, _ = bind.call(x[0], y[0], ox, oy)
    sys.monitoring.set_events(distill.TOOL, 0)
    logic, sweep = [], []
    for (c, n), k in distill.counts.items():
        name = os.path.basename(c.co_filename)
        if name in distill.COARSE: sweep.append((name, n))
        else: logic.append((name, n, min(k, 3) if name in distill.COUNTED else 1))
    sx, sy = hash(frozenset(logic)), hash(frozenset(sweep))
    return f'{x[0]}_in_{y[0]}', len(line), (code, sx), (code, sy), line


def start():
    sys.monitoring.use_tool_id(distill.TOOL, 'distill')
    sys.monitoring.register_callback(distill.TOOL, sys.monitoring.events.LINE, distill.on_line)
    bind.watch_time()


if __name__ == '__main__':
    cap, out = int(sys.argv[1]), sys.argv[2]
    lines = [l for f in sys.argv[3:] for l in open(f)]
    os.environ['PYTHONHASHSEED'] = '0'
    with Pool(8, start) as pool: rows = pool.map(features, lines, chunksize=500)
    by = {}
    for row in rows: by.setdefault(row[0], []).append(row)
    r, kept = random.Random(1), []
    for f, rs in sorted(by.items()):
        rs.sort(key=lambda t: t[1])
        seen_a, seen_b, first, rest = set(), set(), [], []
        for t in rs:
            if t[2] not in seen_a: first.append(t)
            elif t[3] not in seen_b: rest.append(t)
            seen_a.add(t[2])
            seen_b.add(t[3])
        n = len(first)
        if len(first) > cap: first = first[:cap // 2] + r.sample(first[cap // 2:], cap - cap // 2)
        elif len(first) < cap: first += r.sample(rest, min(len(rest), cap - len(first)))
        print(f, len(rs), n, len(rest), len(first), sum(t[1] for t in first))
        kept += [t[4] for t in first]
    with gzip.GzipFile(out, 'wb', mtime=0) as o: o.write(''.join(kept).encode())
    print(len(kept), os.path.getsize(out))
