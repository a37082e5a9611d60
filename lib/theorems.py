"""Model checking of the specification alone: the theorem behind a property, for slices of the universes of small
figures (spec/Theorems.tla).  A theorem that fails is an error of the machinery, not of the library."""
import json
import os
import re

import tlc
import vectors
from vectors import KINDS, S

RELATIONS = [(x, y) for i, x in enumerate(KINDS) for y in KINDS[i:]]
POINTS = [('point', k) for k in KINDS]
FUNCTIONS = {'C08': RELATIONS, 'C09': RELATIONS, 'C10': RELATIONS, 'C11': POINTS + RELATIONS,
             'C13': POINTS + RELATIONS, 'C14': RELATIONS, 'C15': POINTS + RELATIONS,
             'C16': [f for f in POINTS + RELATIONS if f[1] in S]}
PAIRS = {'quick': 5000, 'thorough': 150000}


def check(id_, tier, seed, scratch, scale=1.0):
    """-> (pairs, TLC result)"""
    n = PAIRS[tier] * scale / (4 if id_ == 'C14' else 1)
    js = vectors.jobs(FUNCTIONS[id_], tier, seed, scale=n / vectors.BUDGET[tier], parts=1 if tier == 'quick' else 4)
    path = os.path.join(scratch, 'theorem-jobs.json')
    with open(path, 'w') as f: json.dump(js, f)
    result = tlc.run('Theorems', env={'JOBS': path, 'GOAL': id_}, timeout=800)
    heads = [json.loads(json.loads(m)) for m in re.findall(r'^("\{.*\}")$', result.output, re.M)]
    rows = sum(h['n'] for h in heads)
    if not result.completed or 'FAILS' in result.output or len(heads) != len(js) \
            or result.distinct != rows + 64 * len(js):
        i = result.output.find('FAILS')
        raise tlc.MachineryError(f'theorem {id_} does not hold\n{result.output[max(0, i - 10):][:3000]}')
    return sum(h['n'] * len(h['ys']) for h in heads), result
