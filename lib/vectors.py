"""The leg from the specification to the code: TLC enumerates pairs of small figures and what Planar says about them
(spec/Vectors.tla), the answers of the real library are compared with that."""
import json
import random
import re

from geom import KINDS

# figures in the universes of spec/Universe.tla
SIZES = {'point': 49, 'segment': 66, 'multisegment': 848, 'contour': 528, 'region': 528, 'multiregion': 1324,
         'polygon': 328, 'multipolygon': 5560}
L = ['segment', 'multisegment', 'contour']
S = ['region', 'multiregion', 'polygon', 'multipolygon']
FUNCTIONS = {
    'C01': [('point', k) for k in KINDS],
    'C02': [(x, y) for i, x in enumerate(L) for y in L[i:]],
    'C03': [('segment', y) for y in S],
    'C04': [(x, y) for x in ('multisegment', 'contour') for y in S],
    'C05': [('region', 'region'), ('region', 'multiregion'), ('multiregion', 'multiregion')],
    'C06': [(x, 'polygon') for x in ('region', 'multiregion', 'polygon')],
    'C07': [(x, 'multipolygon') for x in S],
}
BUDGET = {'quick': 24000, 'thorough': 1200000}


def jobs(functions, tier, seed, scale=1.0, parts=None):
    r = random.Random(f'{seed}/vectors')
    budget = max(100, int(BUDGET[tier] * scale / len(functions)))
    parts = parts or (4 if tier == 'quick' else 8)
    out = []
    for x, y in functions:
        nx, ny = SIZES[x], SIZES[y]
        if nx * ny <= budget:
            out.append({'x': x, 'y': y, 'xof': 1, 'xfrom': 0, 'yof': 1, 'yfrom': 0, 'by': [0, 0]})
            budget_left = budget - nx * ny
            if budget_left < nx * ny: continue
        for _ in range(parts):
            target = budget / parts
            # some rows of a fair length
            xs = min(nx, max(8, round((target * nx / ny) ** .5)))
            ys = min(ny, max(8, round(target / xs)))
            xof, yof = max(1, nx // xs), max(1, ny // ys)
            by = [0, 0] if y in ('segment', 'multisegment', 'contour', 'region', 'multiregion') and r.random() < .6 \
                else [r.randint(-1, 2), r.randint(-1, 2)]
            if x == 'point': by = [0, 0] if y not in ('polygon', 'multipolygon') else [r.choice([0, 2]), r.choice([0, 2])]
            out.append({'x': x, 'y': y, 'xof': xof, 'xfrom': r.randrange(xof), 'yof': yof, 'yfrom': r.randrange(yof),
                        'by': by})
    return out


def enumerate_rows(js, scratch, timeout=800):
    """-> path of a file of {"x": .., "y": .., ..}, {"ys": ..}, {"row": ..} lines; TLC result"""
    import os
    import tlc
    path = os.path.join(scratch, 'jobs.json')
    with open(path, 'w') as f: json.dump(js, f)
    result = tlc.run('Vectors', env={'JOBS': path}, timeout=timeout)
    lines = [json.loads(m) for m in re.findall(r'^("\{.*\}")$', result.output, re.M)]
    rows = [l for l in lines if l.startswith('{"job":') and '"row":' in l[:40]]
    heads = [l for l in lines if '"ys":' in l[:40]]
    expected = sum(json.loads(h)['n'] for h in heads)
    if not result.completed or len(heads) != len(js) or len(rows) != expected:
        raise tlc.MachineryError(f'TLC did not enumerate the vectors ({len(rows)} rows of {expected})'
                                 f'\n{result.output[-3000:]}')
    out = os.path.join(scratch, 'vectors.ndjson')
    with open(out, 'w') as f:
        f.write(json.dumps(js) + '\n')
        f.write('\n'.join(heads) + '\n')
        f.write('\n'.join(rows) + '\n')
    return out, result


def play(path, r, lane, lanes, stop):
    """compares; yields ('agrees', function, code) for the calls as specified and ('differs', x, y, via, results)"""
    import bind
    from gen import scramble
    from geom import from_json
    from props import IDENTITY, SEQUENCES, sample_image
    ys, plain = {}, bind.Builder()
    with open(path) as f:
        js = json.loads(f.readline())
        for n, line in enumerate(f):
            if stop(): return
            if '"ys":' in line[:40]:
                h = json.loads(line)
                ys[h['job']] = [from_json({'k': js[h['job'] - 1]['y'], 'd': d}) for d in h['ys']]
                continue
            if n % lanes != lane: continue
            row = json.loads(line)
            j = js[row['job'] - 1]
            first = from_json({'k': j['x'], 'd': row['x']})
            for second, expected in zip(ys[row['job']], row['r']):
                x, y, via = first, second, [IDENTITY, 'list']
                if r.random() < .5: x, y = scramble(r, x), scramble(r, y)
                if r.random() < .2:
                    via = list(sample_image(r))
                    b = bind.Builder(image=bind.Image(via[0]), sequence=SEQUENCES[via[1]])
                else: b = plain
                got = bind.observe(x, y, b)
                if got[0] == expected: yield 'agrees', f'{j["x"]}_in_{j["y"]}', expected
                else: yield 'differs', x, y, via, got
