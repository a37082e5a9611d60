"""python dev/distill.py MINUTES OUT: looks for inputs that take the library through different paths and keeps a few of
each kind in OUT (json lines).  Only used to prepare lib/corpus.jsonl.gz; the checks do not measure paths and judge
every answer by the specification."""
import json
import os
import random
import sys
import time
from multiprocessing import Process
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import bind
from gen import *
from session import tweak

TOOL = 3
CORE = os.path.join(bind.REPO, 'orient', 'core')
COUNTED = ('polygon.py', 'multiregion.py', 'multipolygon.py', 'multisegment.py')
COARSE = ('events_queue.py', 'sweep_line.py', 'event.py', 'utils.py', 'hints.py', 'enums.py')
counts, last = {}, {}


def on_line(code, line):
    if not code.co_filename.startswith(CORE): return sys.monitoring.DISABLE
    key = (code, line)
    counts[key] = counts.get(key, 0) + 1


def signatures(result):
    sweep, logic = [], []
    for (code, line), n in counts.items():
        name = os.path.basename(code.co_filename)
        if name in COARSE: sweep.append((name, line))
        else: logic.append((name, line, min(n, 3) if name in COUNTED else 1))
    return hash((result, frozenset(sweep))), hash((result, frozenset(logic)))


def worker(i, minutes, out):
    sys.monitoring.use_tool_id(TOOL, 'distill')
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, on_line)
    bind.watch_time()
    r = random.Random(f'distill/{i}/{os.environ.get("DISTILL_SEED", "0")}')
    fs = [('point', k) for k in KINDS] + RELATIONS
    fs = [f for j, f in enumerate(fs) if j % 8 == i]
    seen, kept, tried = {f: {} for f in fs}, {f: [] for f in fs}, {f: 0 for f in fs}
    b = bind.Builder()
    deadline = time.monotonic() + 60 * minutes
    while time.monotonic() < deadline:
        for f in fs:
            tried[f] += 1
            if kept[f] and r.random() < .5:
                x, y = r.choice(kept[f][-200:] if r.random() < .5 else kept[f])
                if f[0] != 'point' and r.random() < .6: x = tweak(r, x) or x
                if r.random() < .5: y = tweak(r, y) or y
                x, y = (x if x[0] == 'point' else scramble(r, x)), scramble(r, y)
            elif f[0] == 'point':
                y = single(r, f[1])
                x = ('point', query_point(r, y))
            else: x, y = pair(r, *f)
            counts.clear()
            ox, oy = b(x), b(y)
            sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
            code, _ = bind.call(*f, ox, oy)
            sys.monitoring.set_events(TOOL, 0)
            new = [s for s in signatures(code) if s not in seen[f]]
            if new:
                seen[f].update(dict.fromkeys(new))
                kept[f].append((x, y))
    with open(f'{out}.{i}', 'w') as o:
        for f in fs:
            print(f, 'tried', tried[f], 'kept', len(kept[f]), flush=True)
            for x, y in kept[f]: o.write(json.dumps([to_json(x), to_json(y)], separators=(',', ':')) + '\n')


if __name__ == '__main__':
    minutes, out = float(sys.argv[1]), sys.argv[2]
    ps = [Process(target=worker, args=(i, minutes, out)) for i in range(8)]
    for p in ps: p.start()
    for p in ps: p.join()
