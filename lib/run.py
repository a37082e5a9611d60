"""python lib/run.py ID [--tier quick|thorough] [--replay FILE] [--scale F] [--keep DIR]

Records the behaviour of the real library for one property and has TLC judge every observation against the
specification.  Exit status: 0 the property held on everything explored, 1 with VIOLATION lines otherwise, 2 the
machinery itself failed."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYTHON = '/opt/venv/bin/python'
WORKERS = 8
REPORTED = 8  # violations reported in full
ASSUMPTIONS = ['TLC evaluates the specification correctly', 'the trace records what the library returned',
               'inputs are valid geometries (Planar!Valid), small-integer figures and their exact images']


def main():
    a = argparse.ArgumentParser()
    a.add_argument('id')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    a.add_argument('--scale', type=float, default=1.0)
    a.add_argument('--replay')
    a.add_argument('--keep')
    a.add_argument('--worker', type=int)
    a.add_argument('--out')
    a.add_argument('--vectors')
    a.add_argument('--behaviours')
    a = a.parse_args()
    if a.worker is not None: return work(a)
    import tlc
    try: return replay(a) if a.replay else check(a)
    except tlc.MachineryError as error:
        print(f'MACHINERY ERROR: {error}', file=sys.stderr)
        return 2


# ------------------------------------------------------------------ recording
def budget(a):
    import props
    n = props.QUICK[a.id]
    wall = 300
    if a.tier == 'thorough': n, wall = n * 8, 600
    return max(8, int(n * a.scale)), wall


def work(a):
    """one recorder process: writes observations to a.out until its count or its time is used up"""
    import random
    import bind
    import props
    bind.guard_process()
    n, wall = budget(a)
    r = random.Random(f'{a.seed}/{a.id}/{a.worker}')
    deadline = time.monotonic() + wall
    hangs = 0
    with open(a.out, 'w') as f:
        if a.vectors: play(a, f, time.monotonic() + wall / 2)
        if a.behaviours: play_behaviours(a, f, time.monotonic() + wall / 2)
        for case in props.RECORDERS[a.id](r, n, a.worker):
            f.write(json.dumps(case, separators=(',', ':')) + '\n')
            hangs += 'no answer within' in ''.join(case.get('m', ()))
            if hangs >= 3 or time.monotonic() > deadline: break
    return 0


def play(a, f, deadline):
    """plays enumerated answers back; what differs is recorded as any other call, and judged once more"""
    import random
    import props
    import vectors
    agreed, differ = Counter(), 0
    r = random.Random(f'{a.seed}/{a.id}/play/{a.worker}')
    for v in vectors.play(a.vectors, r, a.worker, WORKERS, lambda: differ > 40 or time.monotonic() > deadline):
        if v[0] == 'agrees': agreed[f'{v[1]}={v[2]}'] += 1
        else:
            _, x, y, via, got = v
            differ += 1
            case = {'t': 'call', 'x': props.J(x), 'y': props.J(y), 'via': [via]}
            case['r'] = props.note(case, [got])
            f.write(json.dumps(case, separators=(',', ':')) + '\n')
    with open(a.out + '.played', 'w') as o: json.dump(agreed, o)


def play_behaviours(a, f, deadline):
    """plays generated behaviours; the sessions that differ, and every third one, are judged as any other session"""
    import behaviours
    agreed, differ = Counter(), 0
    for i, case in enumerate(behaviours.play(a.behaviours, a.worker, WORKERS,
                                             lambda: differ > 40 or time.monotonic() > deadline)):
        answers = case.pop('agreed')
        agreed.update(f'{name}={code}' for name, code, same in answers if same)
        same = all(same for _, _, same in answers)
        differ += not same
        if i % 3 == 0 or not same or 'm' in case: f.write(json.dumps(case, separators=(',', ':')) + '\n')
    with open(a.out + '.played', 'w') as o: json.dump(agreed, o)


def record(a, scratch, vectors=None, behaviours=None):
    """-> lines recorded by all the workers"""
    _, wall = budget(a)
    ps, outs = [], []
    env = {**os.environ, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}
    for i in range(WORKERS):
        outs.append(os.path.join(scratch, f'worker{i}.ndjson'))
        ps.append(subprocess.Popen([PYTHON, os.path.join(HERE, 'run.py'), a.id, '--tier', a.tier, '--seed', str(a.seed),
                                    '--scale', str(a.scale), '--worker', str(i), '--out', outs[-1],
                                    *(['--vectors', vectors] if vectors else []),
                                    *(['--behaviours', behaviours] if behaviours else [])],
                                   env=env, cwd=scratch, stderr=subprocess.PIPE, start_new_session=True))
    deadline = time.monotonic() + wall + 90
    failures = []
    for i, p in enumerate(ps):
        try: _, err = p.communicate(timeout=max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            err += b'(killed: over time)'
        if p.returncode: failures.append((i, p.returncode, err.decode(errors='replace')[-2000:]))
    lines = []
    for out in outs:
        if os.path.exists(out):
            with open(out) as f: lines += [l for l in f if l.endswith('}\n')]
    played = Counter()
    for out in outs:
        if os.path.exists(out + '.played'):
            with open(out + '.played') as f: played.update(json.load(f))
    return lines, failures, played


# ------------------------------------------------------------------ judging
def judge(lines, scratch, timeout=700):
    """-> ({line number: (clause, a, b)}, {line number: ..} of invalid inputs, TLC result)"""
    import tlc
    path = os.path.join(scratch, 'cases.ndjson')
    with open(path, 'w') as f: f.writelines(lines)
    sessions = '"t":"session"' in lines[0][:20]
    result = tlc.run('SessionTrace' if sessions else 'Conformance', env={'CASES': path}, timeout=timeout)
    rejected, invalid = {}, {}
    for t in result.tuples('REJECTED'):
        n, clause, rest = t.split(', ', 2)
        (invalid if clause == '"invalid input"' else rejected)[int(n)] = (clause.strip('"'), rest)
    if sessions:  # a state per event, and one for the start; a session is left where it is rejected
        expected = len(lines)
        for n, line in enumerate(lines, 1):
            v = rejected.get(n) or invalid.get(n)
            expected += int(v[1].split(',')[0]) if v else len(json.loads(line)['ev'])
    else: expected = len(lines) + 256
    if not result.completed or result.distinct != expected:
        raise tlc.MachineryError(f'TLC did not consume the trace ({result.distinct} of {expected} states)'
                                 f'\n{result.output[-3000:]}')
    return rejected, invalid, result


def describe(case, clause, rest):
    import bind
    t = case['t']
    say = lambda k, c: bind.name(k, c)
    number = rest.split(',')[0].strip()
    try:
        if t in ('call', 'orbit'):
            xk, yk = case['x']['k'], case['y']['k']
            got = sorted({say(xk, c) for c in case['r']})
            return (f'{xk}_in_{yk} returned {", ".join(got)}, expected {clause} {say(xk, int(number))}; '
                    f'x={case["x"]["d"]} y={case["y"]["d"]} observed as {case["via"]} {case.get("m", "")}')
        if t == 'session':
            i = int(number)
            return (f'event {i} {case["ev"][i - 1]} is not a step of the specification: {clause}, {rest} '
                    f'{case.get("m", "")}')
        if t == 'parts':
            return (f'{case["x"]["k"]}_in_{case["y"]["k"]} returned {say(case["x"]["k"], case["r"])}, answers for the '
                    f'parts ({case["split"]}): {case["rs"]}; x={case["x"]["d"]} y={case["y"]["d"]} {case.get("m", "")}')
        if t == 'boundary':
            return (f'{case["x"]["k"]}_in_{case["y"]["k"]} returned {case["o"]}, for the boundaries l={case["l"]} '
                    f'k={case["k"]} n={case["n"]}; x={case["x"]["d"]} y={case["y"]["d"]}')
        if t == 'total':
            return f'{case["xk"]}_in_{case["yk"]} returned {say(case["xk"], case["r"])} {case.get("m", "")}'
        if t == 'group':
            got = [f'{x["k"]}_in_{y["k"]}={say(x["k"], c)}' for x, y, c, _ in case['calls']]
            return f'expected {clause}: {"; ".join(got)} for {case["calls"][0][:2]} {case.get("m", "")}'
    except (ValueError, KeyError, IndexError): pass
    return f'{clause}: {rest} {case.get("m", "")}'


def report(a, found, keep=True):
    """prints the violations; found: [(case, clause, rest)]"""
    folder = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(folder, exist_ok=True)
    found.sort(key=lambda f: len(json.dumps(f[0])))
    for i, (case, clause, rest) in enumerate(found[:REPORTED]):
        path = a.replay or os.path.join(folder, f'{a.id}-{i + 1}.json')
        if not a.replay:
            with open(path, 'w') as f:
                json.dump({'property': a.id, 'clause': clause, 'detail': rest, 'case': case}, f)
        print(f'VIOLATION property={a.id} replay={path}')
        print('  ' + describe(case, clause, rest))
    if len(found) > REPORTED: print(f'  .. and {len(found) - REPORTED} more observations rejected')


def replay(a):
    import bind
    import props
    bind.watch_time()
    with open(a.replay) as f: case = json.load(f)['case']
    case = props.replay(case)
    scratch = tempfile.mkdtemp(prefix='orient-replay-')
    try: rejected, invalid, _ = judge([json.dumps(case) + '\n'], scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    if rejected:
        report(a, [(case, *rejected[1])])
        return 1
    print('invalid input' if invalid else f'holds: property={a.id} {a.replay}')
    return 0


def check(a):
    import theorems
    import tlc
    import vectors
    start = time.time()
    scratch = tempfile.mkdtemp(prefix=f'orient-{a.id}-')
    try:
        path, enumerated, proved = None, None, 0
        if a.id in vectors.FUNCTIONS:
            path, enumerated = vectors.enumerate_rows(
                vectors.jobs(vectors.FUNCTIONS[a.id], a.tier, a.seed, a.scale), scratch)
        if a.id in theorems.FUNCTIONS:
            proved, enumerated = theorems.check(a.id, a.tier, a.seed, scratch, a.scale)
        played_behaviours = None
        if a.id == 'C12':
            import behaviours
            played_behaviours, enumerated = behaviours.generate(a.tier, a.seed, scratch, a.scale)
        lines, failures, played = record(a, scratch, path, played_behaviours)
        if failures:
            raise tlc.MachineryError(f'recorder {failures[0][0]} ended with {failures[0][1]}:\n{failures[0][2]}')
        recorded = time.time() - start
        rejected, invalid, result = judge(lines, scratch)
        if a.keep: shutil.copytree(scratch, a.keep, dirs_exist_ok=True)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    if len(invalid) > .01 * len(lines) + 3:
        raise tlc.MachineryError(f'{len(invalid)} of {len(lines)} inputs are not valid geometries')
    found = [(json.loads(lines[n - 1]), *v) for n, v in rejected.items()]
    report(a, found)
    evidence(a, lines, rejected, invalid, [result, enumerated], played, proved, recorded, time.time() - start)
    print(f'{a.id}: ' + (f'theorem checked for {proved} pairs, ' if proved else '')
          + (f'{sum(played.values())} answers foretold by the specification played back, ' if played else '') + f'{len(lines)} observations judged by TLC, '
          f'{len(rejected)} rejected, {len(invalid)} inputs set aside; '
          f'{recorded:.0f} s recording, {time.time() - start:.0f} s in all')
    return 1 if found else 0


def evidence(a, lines, rejected, invalid, results, played, proved, recorded, wall):
    import props
    kinds, outcomes, calls = Counter(), Counter(played), sum(played.values())
    for k, v in played.items(): kinds[k.split('=')[0]] += v
    for l in lines:
        c = json.loads(l)
        for name, code in props.observations(c):
            kinds[name] += 1
            outcomes[f'{name}={code}'] += 1
            calls += 1
    import bind
    pretty = {}
    for k, v in sorted(outcomes.items()):
        name, code = k.rsplit('=', 1)
        pretty[f'{name} -> {bind.name(name.split("_in_")[0], int(code))}'] = v
    shown = [json.loads(lines[i]) for i in range(0, len(lines), max(1, len(lines) // 4))][:4]
    data = {
        'property': a.id, 'tier': a.tier, 'seed': int(a.seed), 'level': 'model_checking', 'wall_s': round(wall, 1),
        'violations': len(rejected),
        'coverage': {
            'states': sum(r.distinct for r in results if r), 'transitions': sum(r.generated for r in results if r),
            'traces_validated_against_impl': len(lines) - len(invalid), 'samples': shown,
            'pairs_the_theorem_was_checked_for': proved,
            'enumerated_answers_played_back': sum(played.values()),
            'library_calls': calls, 'calls_per_function': dict(sorted(kinds.items())), 'outcomes': pretty,
            'inputs_set_aside_as_invalid': len(invalid), 'recording_s': round(recorded, 1),
            'rule': props.RULES[a.id]},
        'assumptions': ASSUMPTIONS,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w') as f: json.dump(data, f, indent=1)


if __name__ == '__main__': sys.exit(main())
