"""The leg from the specification of sessions to the code: TLC model checks spec/SessionModel.tla and generates behaviours
of it; they are played into the library, with calls of several clients held in flight as the behaviour says."""
import json
import os
import random
import re
import threading
import time

import tlc

BUDGET = {'quick': 3000, 'thorough': 60000}
DEPTH = 30
POOLS = {'quick': 600, 'thorough': 6000}
PROCESSES = 4


# ------------------------------------------------------------------ generation
def pools(r, n):
    """[name -> figures of one kind it may stand for]"""
    from gen import KINDS, RELATIONS, SHAPED, pair, query_point, scramble
    from props import J
    from session import tweak
    out = []
    for _ in range(n):
        xk, yk = r.choice(RELATIONS if r.random() < .5 else [(x, y) for x, y in RELATIONS if x in SHAPED])
        x, y = pair(r, xk, yk)
        if r.random() < .5: x2, y2 = pair(r, xk, yk)
        else: x2, y2 = tweak(r, x) or scramble(r, x), tweak(r, y) or scramble(r, y)
        names = {'p': [x, x2], 'q': [y, y2]}
        t = r.random()
        if t < .3: names['r'] = [('point', query_point(r, g)) for g in (x, y, y2)]
        elif t < .6:
            k = r.choice(KINDS)
            rank = KINDS.index
            xs = [pair(r, k, yk)[0] if rank(k) <= rank(yk) else pair(r, yk, k)[1] for _ in range(2)]
            names['r'] = xs
        out.append({n: [J(g) for g in gs] for n, gs in names.items()})
    return out


def generate(tier, seed, scratch, scale=1.0):
    """-> path of the behaviours, TLC result of the model check"""
    r = random.Random(f'{seed}/behaviours')
    ps = pools(r, max(8, int(POOLS[tier] * scale)))
    path = os.path.join(scratch, 'pools.ndjson')
    with open(path, 'w') as f: f.writelines(json.dumps(p) + '\n' for p in ps)
    few = os.path.join(scratch, 'few-pools.ndjson')
    with open(few, 'w') as f: f.writelines(json.dumps(p) + '\n' for p in [p for p in ps if len(p) == 2][:8])
    model = tlc.run('SessionModel', env={'POOLS': few})
    if not model.completed: raise tlc.MachineryError(f'the model of sessions is wrong\n{model.output[-3000:]}')
    n = max(8, int(BUDGET[tier] * scale / PROCESSES))
    threads, outputs = [], {}

    def simulate(i):
        outputs[i] = tlc.run('SessionModel', 'Behaviours', env={'POOLS': path, 'DEPTH': str(DEPTH)}, workers=1,
                             extra=('-simulate', f'num={n}', '-depth', str(DEPTH + 3), '-seed', str(seed * 100 + i)))
    for i in range(PROCESSES): threads.append(threading.Thread(target=simulate, args=(i,)))
    for t in threads: t.start()
    for t in threads: t.join()
    lines = []
    for i in range(PROCESSES):
        found = [json.loads(m) for m in re.findall(r'^("\{.*\}")$', outputs[i].output, re.M)] if i in outputs else []
        if len(found) != n:
            raise tlc.MachineryError(f'TLC generated {len(found)} of {n} behaviours'
                                     f'\n{outputs[i].output[-3000:] if i in outputs else ""}')
        lines += found
    out = os.path.join(scratch, 'behaviours.ndjson')
    with open(out, 'w') as f:
        for line in lines:
            b = json.loads(line)
            b['pool'] = ps[b['pool'] - 1]
            f.write(json.dumps(b) + '\n')
    return out, model


# ------------------------------------------------------------------ playing
def play(path, lane, lanes, stop):
    """yields the recorded sessions of the behaviours"""
    from session import session_case
    with open(path) as f:
        for n, line in enumerate(f):
            if stop(): return
            if n % lanes != lane: continue
            b = json.loads(line)
            yield session_case({'numbers': 'fraction', 'pool': b['pool'], 'behaviour': b['events']})
