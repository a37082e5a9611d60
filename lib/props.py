"""What each property's check records from the real code (one ndjson line per observation)."""
import random
from itertools import combinations

import bind
import corpus
import scene
import session
import vectors
from bind import Builder, Image, observe, random_image
from gen import *

S = vectors.S
FUNCTIONS = {k: v for k, v in vectors.FUNCTIONS.items() if k != 'C01'}
FUNCTIONS['C08'] = [(k, k) for k in KINDS]


def J(g): return {'k': g[0], 'd': g[1]}


def note(case, results):
    """results [(code, message)] -> codes; keeps the messages of failures for the report"""
    messages = [m for c, m in results if c < 0]
    if messages: case['m'] = messages
    return [c for c, _ in results]


def sample_image(r):
    """how the second observation of a case is made"""
    return random_image(r), r.choice(['list', 'tuple'])


SEQUENCES = {'list': list, 'tuple': tuple}


def call_case(x, y, via):
    """via: [[image, sequence], ..]"""
    case = {'t': 'call', 'x': J(x), 'y': J(y), 'via': via}
    case['r'] = note(case, [observe(x, y, Builder(image=Image(i), sequence=SEQUENCES[s])) for i, s in via])
    return case


IDENTITY = [1, 0, 0, 1, 0, 0, 'int']


def kept(r, functions, lane):
    """the share of the corpus of a worker"""
    for f in functions:
        for e in corpus.entries(*f)[lane::8]:
            x, y = corpus.decoded(e)
            yield (x if x[0] == 'point' else scramble(r, x)), scramble(r, y)


def calls(r, functions, n, lane):
    for x, y in kept(r, functions, lane): yield call_case(x, y, [[IDENTITY, 'list']])
    for i in range(n):
        xk, yk = functions[i % len(functions)]
        x, y = pair(r, xk, yk)
        via = [[IDENTITY, 'list']]
        if r.random() < .5: via.append(list(sample_image(r)))
        yield call_case(x, y, via)


def c01(r, n, lane):
    for x, y in kept(r, vectors.FUNCTIONS['C01'], lane): yield call_case(x, y, [[IDENTITY, 'list']])
    kinds = KINDS
    done = 0
    while done < n:
        y = single(r, kinds[done % len(kinds)])
        for _ in range(min(6, n - done)):
            p = query_point(r, y)
            via = [[IDENTITY, 'list']]
            if r.random() < .5: via.append(list(sample_image(r)))
            yield call_case(('point', p), y, via)
            done += 1


# ------------------------------------------------------------------ groups
def flipped(x, y):
    """whether only the converse function exists"""
    return (x[0], y[0]) not in RELATIONS


def group_case(pairs, via):
    """pairs of figures [(x, y)], all of the same two figures, each asked in the direction(s) that exist"""
    case = {'t': 'group', 'calls': [], 'via': via}
    image, sequence = via
    b = Builder(image=Image(image), sequence=SEQUENCES[sequence])
    results = []
    for x, y, flip in pairs:
        results.append(observe(y, x, b) if flip else observe(x, y, b))
        case['calls'].append([J(y), J(x)] if flip else [J(x), J(y)])
    for c, code, (x, y, flip) in zip(case['calls'], note(case, results), pairs): c += [code, flip]
    return case


def c08(r, n, lane):
    fs = FUNCTIONS['C08']
    for i in range(n):
        xk, yk = fs[i % len(fs)]
        if r.random() < .12:
            x = single(r, xk)
            yield call_case(x, scramble(r, x), [[IDENTITY, 'list'], list(sample_image(r))])
            continue
        x, y = pair(r, xk, yk)
        yield group_case([(x, y, False), (x, y, True)], [random_image(r), 'list'] if r.random() < .4
                         else [IDENTITY, 'list'])


def respell(r, g):
    """the same figure written down differently (coordinates are even)"""
    def ring(v):
        v = list(v)
        if r.random() < .5:
            for _ in range(r.randint(1, 3)):
                i = r.randrange(len(v))
                a, b = v[i - 1], v[i]
                m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
                if m not in (a, b) and (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0: v.insert(i, m)
        return v

    def split(d):
        out = []
        for a, b in d:
            m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
            if r.random() < .4 and (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0 and m not in (a, b):
                out += [(a, m), (m, b)]
            else: out.append((a, b))
        return out
    k, d = scramble(r, g)
    if k == 'multisegment': return (k, split(d))
    if k in ('contour', 'region'): return (k, ring(d))
    if k in ('multiregion', 'polygon'): return (k, [ring(v) for v in d])
    if k == 'multipolygon': return (k, [[ring(v) for v in p] for p in d])
    return (k, d)


def strictly(g):
    k, d = g
    f = lambda v: strict_ring(v)
    if k in ('contour', 'region'): return (k, f(d))
    if k in ('multiregion', 'polygon'): return (k, [f(v) for v in d])
    if k == 'multipolygon': return (k, [[f(v) for v in p] for p in d])
    return g


def double(g): return map_points(g, lambda p: (2 * p[0], 2 * p[1]))


def c09(r, n, lane):
    i = 0
    while i < n:
        xk, yk = RELATIONS[i % len(RELATIONS)]
        x, y = pair(r, xk, yk)
        x, y = double(x), double(y)
        if not (limit(x) and limit(y)): continue
        ps = [(strictly(x), strictly(y), False)]
        for _ in range(3): ps.append((respell(r, x), respell(r, y), False))
        yield group_case(ps, [IDENTITY if r.random() < .7 else random_image(r), r.choice(['list', 'tuple'])])
        i += 1


def packages(g):
    """the figure as geometries of all the kinds that can hold it"""
    k, d = g
    if k == 'segment': return [g, ('multisegment', [tuple(d)])]
    if k == 'multisegment':
        return [g, *([('segment', list(d[0]))] if len(d) == 1 else [])]
    if k == 'contour': return [g, ('multisegment', ring_edges(d))]
    if k == 'region': return [g, ('multiregion', [d]), ('polygon', [d]), ('multipolygon', [[d]])]
    if k == 'multiregion':
        return [g, ('multipolygon', [[v] for v in d]), *(packages(('region', d[0])) if len(d) == 1 else [])]
    if k == 'polygon':
        return [g, ('multipolygon', [d]), *(packages(('region', d[0])) if len(d) == 1 else [])]
    if all(len(p) == 1 for p in d):
        if len(d) == 1: return packages(('region', d[0][0]))
        return [g, ('multiregion', [p[0] for p in d])]
    return [g, *([('polygon', d[0])] if len(d) == 1 else [])]


PACKAGED = [(x, y) for x, y in RELATIONS if not (x == 'multisegment' and y == 'multisegment')]


def c10(r, n, lane):
    i = 0
    while i < n:
        xk, yk = PACKAGED[i % len(PACKAGED)]
        x, y = pair(r, xk, yk)
        ps = []
        for a in packages(x):
            for b in packages(y):
                if not flipped(a, b): ps.append((a, b, False))
                if (a[0] in SHAPED) == (b[0] in SHAPED) and not flipped(b, a) and a[0] != b[0]:
                    ps.append((a, b, True))
        if len(ps) < 2: continue
        if len(ps) > 8: ps = r.sample(ps, 8)
        yield group_case(ps, [IDENTITY if r.random() < .7 else random_image(r), 'list'])
        i += 1


# ------------------------------------------------------------------ orbits
def orbit_case(x, y, via):
    """via: [[image, mode], ..]"""
    case = {'t': 'orbit', 'x': J(x), 'y': J(y), 'via': via}
    results = []
    for image, mode in via:
        context = CONTEXTS[mode]
        kwargs = {'context': context} if context else {}
        results.append(observe(x, y, Builder(context, Image(image)), **kwargs))
    case['r'] = note(case, results)
    return case


CONTEXTS = {'default': None, 'exact': bind.Context(mode=bind.Mode.EXACT), 'plain': bind.Context(mode=bind.Mode.PLAIN),
            'robust': bind.Context(mode=bind.Mode.ROBUST)}


def c11(r, n, lane):
    fs = [('point', k) for k in KINDS] + RELATIONS
    for i in range(n):
        xk, yk = fs[i % len(fs)]
        if xk == 'point':
            y = single(r, yk)
            x = ('point', query_point(r, y))
        else: x, y = pair(r, xk, yk)
        via = [[IDENTITY, 'default']]
        for style in r.sample(Image.STYLES, 4): via.append([random_image(r, [style]), r.choice(['default', 'exact'])])
        # plain arithmetic is exact on exact numbers; robust predicates are not exact on every fraction
        if r.random() < .3: via.append([random_image(r, ['fraction', 'thirds']), 'plain'])
        if r.random() < .2: via.append([random_image(r, ['fraction']), 'robust'])
        yield orbit_case(x, y, via)


# ------------------------------------------------------------------ totality
def c13(r, n, lane):
    fs = [('point', k) for k in KINDS] + RELATIONS
    for i in range(n):
        xk, yk = fs[i % len(fs)]
        via = [random_image(r) if r.random() < .5 else IDENTITY, r.choice(['list', 'tuple'])]
        if r.random() < .03 and xk != 'point': x, y = huge(r, xk), huge(r, yk)
        elif xk == 'point':
            y = single(r, yk)
            x = ('point', query_point(r, y))
        else: x, y = pair(r, xk, yk)
        yield total_case(x, y, via)


def total_case(x, y, via):
    case = {'t': 'total', 'xk': x[0], 'yk': y[0], 'via': via}
    [case['r']] = note(case, [observe(x, y, Builder(image=Image(via[0]), sequence=SEQUENCES[via[1]]))])
    if case['r'] < 0 or size(x) + size(y) <= 60: case['x'], case['y'] = J(x), J(y)
    return case


def huge(r, kind):
    """figures of hundreds of edges"""
    n = r.choice([6, 9, 12])
    if r.random() < .15 and kind != 'segment': return many(r, kind)
    if kind == 'segment': return (kind, list(segment_in(r, 3 * n, 3 * n)))
    m = Mesh(r, n, n, True)
    s = m.select(r)
    if r.random() < .5:  # a comb or a spiral-like long ring
        t = r.randint(20, 150)
        v = [(i, (i % 2) * r.randint(1, 9)) for i in range(t)] + [(t, -1), (-1, -1)]
        comb = v if simple_ring(v) else [(0, 0), (n, 0), (0, n)]
    else: comb = None
    if comb and kind in ('contour', 'region'): return (kind, comb)
    if comb and kind in ('multiregion', 'polygon'): return (kind, [comb])
    if kind == 'multisegment': return (kind, [e for e in m.edges if r.random() < .7] or [m.edges[0]])
    return mesh_source(r, m, s, False).make(kind)


def many(r, kind):
    """figures of more than a thousand parts or edges, spread out: the sweep has little to do per edge"""
    n = r.randint(1100, 1500)
    if kind == 'multisegment': return (kind, [((2 * i, 0), (2 * i + 1, i % 3)) for i in range(n)])
    tiles = [[(3 * i, 0), (3 * i + 2, 0), (3 * i, 2)] for i in range(n)]
    if kind == 'multiregion': return (kind, tiles)
    if kind == 'multipolygon': return (kind, [[t] for t in tiles])
    side = [(i, i % 2) for i in range(n)] + [(n, 5), (-1, 5)]
    if kind in ('contour', 'region'): return (kind, side)
    holes = [[(3 * i + 1, 0), (3 * i + 2, 0), (3 * i + 1, 1)] for i in range(n)]
    frame = [(0, -1), (3 * n, -1), (3 * n, 3), (0, 3)]
    return (kind, [side] if r.random() < .3 else [frame, *holes])


# ------------------------------------------------------------------ parts and boundaries
def parts_of(g):
    """as Parts!PartsOf"""
    k, d = g
    if k == 'multisegment': return [('segment', list(s)) for s in d]
    if k == 'contour': return [('segment', list(e)) for e in ring_edges(d)]
    if k == 'multiregion': return [('region', v) for v in d]
    if k == 'multipolygon': return [('polygon', p) for p in d]
    return [g]


def splits(xk, yk):
    """as Parts!Splits"""
    rings = ['rings'] if yk == 'polygon' else []
    if xk == 'point': return ['y', *rings]
    if yk in SHAPED and xk not in SHAPED: return ['x', 'y', *rings]
    return ['xy', *(rings if xk == 'region' else [])]


def parts_case(x, y, split, via):
    case = {'t': 'parts', 'x': J(x), 'y': J(y), 'split': split, 'via': via}
    b = Builder(image=Image(via[0]), sequence=SEQUENCES[via[1]])
    xs = parts_of(x) if 'x' in split else [x]
    ys = [('region', v) for v in y[1]] if split == 'rings' else parts_of(y) if 'y' in split else [y]
    results = [observe(x, y, b)] + [observe(p, q, b) for p in xs for q in ys]
    codes = note(case, results)
    case['r'], codes = codes[0], codes[1:]
    case['rs'] = [codes[i * len(ys):(i + 1) * len(ys)] for i in range(len(xs))]
    return case


def anyhow(r): return [IDENTITY, 'list'] if r.random() < .6 else list(sample_image(r))


def any_pair(r, xk, yk):
    if xk == 'point':
        y = single(r, yk)
        return ('point', query_point(r, y)), y
    return medium(r, xk, yk) if r.random() < .04 else pair(r, xk, yk)


def medium(r, xk, yk):
    """figures of some hundred edges, parts of one mesh"""
    n = r.choice([6, 7, 8])
    m = Mesh(r, n, n, True)
    s = m.select(r)
    x = mesh_source(r, m, s, False).make(xk)
    return x, mesh_source(r, m, m.other(r, s), False).make(yk)


PARTED = [(x, y) for x, y in [('point', k) for k in KINDS] + RELATIONS
          if not (x in ('segment', 'point') and y in ('segment', 'contour', 'region'))
          and (x, y) not in (('region', 'region'), ('polygon', 'polygon'))]


def c15(r, n, lane):
    for i in range(n):
        xk, yk = PARTED[i % len(PARTED)]
        x, y = any_pair(r, xk, yk)
        yield parts_case(x, y, r.choice(splits(xk, yk)), anyhow(r))


def boundary(r, g):
    k, d = g
    if k == 'region' and r.random() < .7: return ('contour', d)
    return scramble(r, ('multisegment', edges(g)))


def boundary_case(x, y, bx, by, via):
    case = {'t': 'boundary', 'x': J(x), 'y': J(y), 'bx': J(bx or by), 'by': J(by), 'via': via, 'l': -9, 'k': -9}
    b = Builder(image=Image(via[0]), sequence=SEQUENCES[via[1]])
    results = [observe(x, y, b)]
    if x[0] in SHAPED:
        n = (bx, by) if KINDS.index(bx[0]) <= KINDS.index(by[0]) else (by, bx)
        results += [observe(*n, b), observe(bx, y, b), observe(by, x, b)]
    elif x[0] == 'point' or KINDS.index(x[0]) <= KINDS.index(by[0]): results.append(observe(x, by, b))
    else: results.append(observe(by, x, b))
    codes = note(case, results)
    flip = x[0] != 'point' and KINDS.index((bx or x)[0]) > KINDS.index(by[0])
    case['o'], case['n'] = codes[0], COMPLEMENT.get(codes[1], codes[1]) if flip else codes[1]
    if x[0] in SHAPED: case['l'], case['k'] = codes[2:]
    return case


COMPLEMENT = {4: 10, 10: 4, 5: 9, 9: 5, 6: 8, 8: 6}
BOUNDED = [(x, y) for x, y in [('point', k) for k in KINDS] + RELATIONS if y in SHAPED]


def c16(r, n, lane):
    for i in range(n):
        xk, yk = BOUNDED[i % len(BOUNDED)]
        x, y = any_pair(r, xk, yk)
        yield boundary_case(x, y, boundary(r, x) if xk in SHAPED else None, boundary(r, y), anyhow(r))


# ------------------------------------------------------------------ facts
def c14(r, n, lane):
    for _ in range(n):
        yield facts_case(*facts_input(r))


def facts_input(r):
    t = r.random()
    kinds = [r.choice(KINDS), r.choice(KINDS), r.choice(S)] if r.random() < .4 else \
        [r.choice([*KINDS, *S]), r.choice([*S, 'polygon', 'polygon']), r.choice(['polygon', 'polygon', 'multipolygon'])]
    kinds.sort(key=KINDS.index)
    if t < .35:
        f = (kinds[1], kinds[2]) if (kinds[1], kinds[2]) in RELATIONS else r.choice(RELATIONS)
        gs = list(corpus.sample(r, *f))
        u = r.random()
        if u < .3: gs.append(session.tweak(r, gs[1]) or gs[1])
        elif u < .6: gs.append(session.tweak(r, gs[0]) or gs[0])
        else: gs.append(scene.Scene(r, gs[1]).make(kinds[0]))
        gs.sort(key=lambda g: KINDS.index(g[0]))
    elif t < .6:
        import roles
        h = roles.around(r, kinds[2] if kinds[2] in SHAPED else 'polygon')
        gs = [h.make(k) for k in kinds[:2]] + [h.g]
    elif t < .7:
        m = Mesh(r, r.choice([1, 2, 2, 3]), r.choice([1, 2, 2, 3]), r.random() < .5)
        s = m.select(r)
        sets = [s]
        for _ in range(2):
            q = r.choice(sets)
            u = r.random()
            sets.append(q & m.select(r) or q if u < .35 else q | m.select(r) if u < .7 else m.other(r, q))
        r.shuffle(sets)
        if r.random() < .6: sets.sort(key=len)
        gs = [mesh_source(r, m, q, True).make(k) for q, k in zip(sets, kinds)]
    elif t < .9:
        g = scene.host(r, kinds[2])
        if r.random() < .3: kinds[1] = kinds[2]
        gs = [scene.Scene(r, g).make(k) for k in kinds[:2]] + [g]
    else:
        g = free_source(r, r.choice([3, 4, 5, 6]), True).make(kinds[2])
        gs = [related_source(r, g, 5, True).make(k) for k in kinds[:2]] + [g]
    gs = [scramble(r, g) for g in gs]
    if not all(limit(g) for g in gs): return facts_input(r)
    ps = []
    for g in gs:
        ps += [query_point(r, g) for _ in range(2)]
        # where it meets the others
        on = [p for p in points(g) if any(h is not g and any(on_seg(*e, p) for e in edges(h)) for h in gs)]
        if on: ps += r.sample(on, min(len(on), 2))
    return gs, list(dict.fromkeys(ps))


def facts_case(gs, ps):
    case = {'t': 'facts', 'g': [J(g) for g in gs], 'p': ps, 'rel': [], 'loc': []}
    b = Builder()
    objects = [b(g) for g in gs]
    results = []
    for i, j in combinations(range(len(gs)), 2):
        results.append(bind.call(gs[i][0], gs[j][0], objects[i], objects[j]))
        case['rel'].append([i + 1, j + 1, results[-1][0]])
    for q, p in enumerate(ps):
        for i, g in enumerate(gs):
            results.append(bind.call('point', g[0], b.point(p), objects[i]))
            case['loc'].append([q + 1, i + 1, results[-1][0]])
    note(case, results)
    return case


RECORDERS = {'C01': c01, 'C12': lambda r, n, lane: session.sessions(r, n), 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C13': c13, 'C14': c14, 'C15': c15,
             'C16': c16}
for _id in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07'):
    RECORDERS[_id] = (lambda fs: lambda r, n, lane: calls(r, fs, n, lane))(FUNCTIONS[_id])

# observations per worker in the quick tier
QUICK = {'C01': 4500, 'C02': 4500, 'C03': 4000, 'C04': 3500, 'C05': 3500, 'C06': 3200, 'C07': 2800, 'C08': 3500,
         'C09': 1500, 'C10': 1500, 'C11': 1500, 'C12': 1700, 'C13': 5000, 'C14': 2500, 'C15': 3000, 'C16': 3000}


def replay(case):
    """runs the calls of a recorded case again -> case with fresh results"""
    from geom import from_json
    t = case['t']
    if t == 'call': return call_case(from_json(case['x']), from_json(case['y']), case['via'])
    if t == 'session': return session.session_case(case['script'])
    if t == 'orbit': return orbit_case(from_json(case['x']), from_json(case['y']), case['via'])
    if t == 'total': return total_case(from_json(case['x']), from_json(case['y']), case['via'])
    if t == 'parts': return parts_case(from_json(case['x']), from_json(case['y']), case['split'], case['via'])
    if t == 'boundary':
        return boundary_case(*(from_json(case[k]) for k in ('x', 'y', 'bx', 'by')), case['via'])
    if t == 'facts': return facts_case([from_json(g) for g in case['g']], [tuple(p) for p in case['p']])
    ps = []
    for a, b, _, flip in case['calls']:
        a, b = from_json(a), from_json(b)
        ps.append((b, a, True) if flip else (a, b, False))
    return group_case(ps, case['via'])


def observations(case):
    """[(function, code), ..] of a case"""
    t = case['t']
    if t in ('call', 'orbit'): return [(f'{case["x"]["k"]}_in_{case["y"]["k"]}', c) for c in case['r']]
    if t == 'total': return [(f'{case["xk"]}_in_{case["yk"]}', case['r'])]
    if t == 'group': return [(f'{x["k"]}_in_{y["k"]}', c) for x, y, c, _ in case['calls']]
    if t == 'session':
        out, kinds, calls = [], {}, {}
        for e in case['ev']:
            if e['e'] == 'bind': kinds[e['n']] = e['g']['k']
            elif e['e'] == 'invoke': calls[e['c']] = f'{kinds[e["x"]]}_in_{kinds[e["y"]]}'
            elif e['e'] == 'return': out.append((calls[e['c']], e['r']))
            elif e['e'] == 'ask': out.append((case['script']['questions'][e['q']][0], e['r']))
        return out
    if t == 'parts':
        return [(f'{case["x"]["k"]}_in_{case["y"]["k"]}', case['r'])]
    if t == 'boundary':
        x, y, bx, by = (case[k]['k'] for k in ('x', 'y', 'bx', 'by'))
        return [(f'{x}_in_{y}', case['o'])] + ([(f'{bx}_in_{y}', case['l']), (f'{by}_in_{x}', case['k'])]
                                               if x in SHAPED else [])
    if t == 'facts':
        k = [g['k'] for g in case['g']]
        return [(f'{k[i - 1]}_in_{k[j - 1]}', c) for i, j, c in case['rel']] + \
               [(f'point_in_{k[i - 1]}', c) for _, i, c in case['loc']]
    return []


_PAIRS = ('pairs of figures made of unions of the faces of a random mesh, of free random rings and segments, and of '
          'vertices, edges, rings and edge midpoints of the other figure; each respelled at random; half of the pairs '
          'observed a second time through an exact affine image in another number type; ')
RULES = {
    'C01': 'points at vertices, on edges, level with vertices, next to vertices, anywhere in the box of figures of '
           'every kind; the result has to be Planar!Locate',
    'C08': _PAIRS + 'f(x, y) has to be the complement of f(y, x), respelled equal figures EQUAL',
    'C09': 'a pair and three respellings of it (starting vertex, direction, order, subdivided edges, collinear '
           'vertices): the same result',
    'C10': 'a pair asked through every kind that can hold its figures: the same result',
    'C11': 'a pair and its images under exact affine maps in other number types and contexts: the same result',
    'C12': 'sessions of up to 5 figures: queries repeated at different times, figures edited in place, renamed, '
           'objects made in place of dead ones, contexts changed and passed explicitly, queries from 2-3 threads at a '
           'time; and questions whose answer depends on the context',
    'C13': 'pairs of every combination of kinds including figures of hundreds of edges: a result of the admissible '
           'set of the combination, no exception, an answer within 60 s',
    'C14': 'three figures and six points: all the answers about them have to fit together',
}
RULES['C15'] = ('a pair, and the parts of one or both of the figures (segments, regions, polygons, the rings of a '
                'polygon): the answer about the whole has to follow from the answers about the parts (Parts!Combined)')
RULES['C16'] = ('a pair and the boundaries of its shaped figures: the answers have to fit together '
                '(Parts!ShapedByBoundaries, Parts!LinearByBoundary)')
for _id in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07'):
    RULES[_id] = _PAIRS + 'every result has to be Planar!Relate of the pair'
