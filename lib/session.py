"""Recorded sessions (spec/Session.tla): clients query, edit, rename geometries, change contexts, query from threads.

A session is generated as a script (a JSON value) and then run; the script makes it replayable."""
import gc
import sys
import threading
from fractions import Fraction

import bind
from bind import Context, Mode, planar
from gen import *

_used = threading.local()


class Tracked(Context):
    """a context that notes it is being used"""
    __slots__ = '_name',

    def __init__(self, name, **kwargs):
        object.__setattr__(self, '_name', name)
        super().__init__(**kwargs)

    def __getattribute__(self, name):
        if not name.startswith('_'):
            try: _used.names.add(object.__getattribute__(self, '_name'))
            except AttributeError: pass
            gate = getattr(_used, 'gate', None)
            if gate is not None: gate()
        return super().__getattribute__(name)


CONTEXTS = {'initial': Tracked('initial', mode=Mode.EXACT), 'exact': Tracked('exact', mode=Mode.EXACT),
            'plain': Tracked('plain', mode=Mode.PLAIN), 'other': Tracked('other', mode=Mode.EXACT)}
NUMBERS = {'int': int, 'float': float, 'fraction': Fraction}


# ------------------------------------------------------------------ scripts
def script(r):
    """-> {'numbers': .., 'steps': [..]}"""
    names = ['p', 'q', 'r', 's', 't']
    kinds = {n: r.choice(KINDS) for n in names[1:]}
    if r.random() < .5: kinds['s'] = kinds['r']
    m = Mesh(r, r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.random() < .5)
    family = [m.select(r)]
    for _ in range(3): family.append(m.other(r, r.choice(family)))

    def figure(kind, like=None):
        for _ in range(30):
            t = r.random()
            if t < .5 or like is None: g = mesh_source(r, m, r.choice(family), True).make(kind)
            elif t < .8: g = related_source(r, like, 6, True).make(kind)
            else: g = free_source(r, r.choice([3, 5]), True).make(kind)
            if limit(g): return scramble(r, g)
        raise RuntimeError('no figure')
    now = {}
    steps = []
    ready = {}
    if r.random() < .6:  # two figures that are in each other's way
        kinds['q'], kinds['r'] = xk, yk = r.choice(RELATIONS)
        ready['q'], ready['r'] = pair(r, xk, yk)

    def bind_step(n):
        if n in ready: g = ready.pop(n)
        elif n == 'p': g = ('point', query_point(r, r.choice([v for k, v in now.items() if k != 'p'])))
        else:
            others = [v for k, v in now.items() if k not in ('p', n)]
            g = figure(kinds[n], r.choice(others) if others else None)
        now[n] = g
        return g
    for n in names[1:] + names[:1]: steps.append(['bind', n, *bind_step(n)])

    def question():
        while True:
            x, y = r.choice(names), r.choice(names[1:])
            if now[x][0] == 'point' or (now[x][0], now[y][0]) in RELATIONS: return x, y
    context = lambda: r.choice(['none'] * 5 + ['exact', 'plain', 'other', 'initial'])
    asked = []
    if 'q' in now and (now['q'][0], now['r'][0]) in RELATIONS and r.random() < .7:
        asked.append(('q', 'r'))
        steps.append(['query', 'q', 'r', context()])
    for _ in range(r.randint(6, 14)):
        t = r.random()
        if t < .45:
            x, y = r.choice(asked) if asked and r.random() < .45 else question()
            asked.append((x, y))
            steps.append(['query', x, y, context()])
        elif t < .65:
            n = r.choice(names[1:])
            old = now[n]
            g = edit_of(r, old, m, figure)
            now[n] = g
            steps.append(['edit', n, *g])
            again = [q for q in asked if n in q and (now[q[0]][0] == 'point' or (now[q[0]][0], now[q[1]][0]) in RELATIONS)]
            if again and r.random() < .7: steps.append(['query', *r.choice(again), context()])
        elif t < .75:
            n = r.choice(names)
            steps.append(['bind', n, *bind_step(n)])
        elif t < .83: steps.append(['default', r.choice(['initial', 'exact', 'plain', 'other'])])
        elif t < .93: steps.append(['look'])
        else:
            steps.append(['burst', {c: [[*question(), context()] for _ in range(r.randint(2, 5))]
                                    for c in ['a', 'b', 'c'][:r.randint(2, 3)]}])
    steps.append(['look'])
    return {'numbers': r.choice(['fraction', 'fraction', 'int', 'float']), 'steps': steps}


def edit_of(r, g, m, figure):
    """another figure of the same kind, often a small change"""
    k, d = g
    if r.random() < .4:
        h = tweak(r, g)
        if h: return h
    if r.random() < .5:
        o = r.choice([(1, 0), (0, 1), (-1, 0), (2, 1), (0, -2)])
        return map_points(g, lambda p: (p[0] + o[0], p[1] + o[1]))
    if r.random() < .5:
        h = None
        if k in ('multisegment', 'multiregion', 'multipolygon') and len(d) > 1: h = (k, [*d[:-1]])
        elif k == 'polygon' and len(d) > 1: h = (k, d[:-1])
        elif k in ('contour', 'region'): h = (k, nudge(r, d, sorted(m.vertices)))
        if h and limit(h): return h
    return figure(k, g)


def tweak(r, g):
    """the figure with one vertex moved a little"""
    k, d = g
    for _ in range(6):
        old = r.choice(points(g))
        new = (old[0] + r.choice([-1, 0, 1, 2]), old[1] + r.choice([-1, 0, 1, -2]))
        once = [True]

        def move(p):
            if p == old and (k != 'multipolygon' or once):
                if k == 'multipolygon' and r.random() < .5: once.clear()
                return new
            return p
        h = map_points(g, move)
        if new != old and h != g and limit(h) and valid(h): return h
    return None


# ------------------------------------------------------------------ running
class Run:
    def __init__(self, script):
        self.script, self.events, self.objects, self.kinds = script, [], {}, {}
        self.number = NUMBERS[script['numbers']]
        # plain arithmetic on ints and floats divides inexactly
        self.plain = script['numbers'] == 'fraction'
        self.builder = bind.Builder(context=CONTEXTS['initial'],
                                    image=lambda p: (self.number(p[0]), self.number(p[1])))
        self.lock = threading.Lock()
        self.messages = []

    def context(self, k): return 'exact' if k == 'plain' and not self.plain else k

    def go(self):
        outer = bind.get_context()
        interval = sys.getswitchinterval()
        try:
            bind.set_context(CONTEXTS['initial'])
            for step in self.script['steps']: getattr(self, step[0])(*step[1:])
        finally:
            bind.set_context(outer)
            sys.setswitchinterval(interval)
        return self.events

    def log(self, **event): self.events.append(event)

    def bind(self, n, k, d):
        self.objects.pop(n, None)  # the old object dies before the new one is made: it may be made in its place
        self.objects[n] = self.builder((k, from_json({'k': k, 'd': d})[1]))
        self.kinds[n] = k
        self.log(e='bind', n=n, g={'k': k, 'd': d})

    def edit(self, n, k, d):
        d = from_json({'k': k, 'd': d})[1]
        o = self.objects[n]
        b = self.builder
        if k in ('point', 'segment'): self.objects[n] = b((k, d))  # cannot be changed
        elif k == 'multisegment': o.segments[:] = b((k, d)).segments
        elif k in ('contour', 'region'): o.vertices[:] = b((k, d)).vertices
        elif k == 'multiregion': self.edit_rings(o, d)
        elif k == 'polygon': self.edit_polygon(o, d)
        elif k == 'multipolygon':
            ps = o.polygons
            del ps[len(d):]
            for p, q in zip(ps, d): self.edit_polygon(p, q)
            ps.extend(b.polygon(q) for q in d[len(ps):])
        self.log(e='edit', n=n, g={'k': k, 'd': d})

    def edit_rings(self, rings, d):
        del rings[len(d):]
        for c, v in zip(rings, d): c.vertices[:] = self.builder.contour(v).vertices
        rings.extend(self.builder.contour(v) for v in d[len(rings):])

    def edit_polygon(self, p, d):
        p.border.vertices[:] = self.builder.contour(d[0]).vertices
        self.edit_rings(p.holes, d[1:])

    def default(self, k):
        k = self.context(k)
        bind.set_context(CONTEXTS[k])
        self.log(e='default', c='main', k=k)

    def look(self):
        for n in self.objects:
            try: g = {'k': self.kinds[n], 'd': integers(bind.project(self.kinds[n], self.objects[n]))}
            except Exception as error: g = {'k': 'gone', 'd': f'{type(error).__name__}: {error}'[:200]}
            self.log(e='look', n=n, g=g)

    def query(self, x, y, k, client='main', call=None):
        k = self.context(k)
        _used.names = set()
        with self.lock: self.log(e='invoke', c=client, x=x, y=y, k=k)
        kwargs = {} if k == 'none' else {'context': CONTEXTS[k]}
        a, b = self.objects[x], self.objects[y]
        _used.names = set()
        code, message = (call or bind.call)(self.kinds[x], self.kinds[y], a, b, **kwargs)
        used = sorted(_used.names)
        if code < 0: self.messages.append(message)
        with self.lock: self.log(e='return', c=client, r=code, u=used)

    def burst(self, plan):
        sys.setswitchinterval(1e-6)
        barrier = threading.Barrier(len(plan))

        def client(c, questions):
            bind.set_context(CONTEXTS['initial'])
            barrier.wait()
            for x, y, k in questions: self.query(x, y, k, c, bind.call_untimed)
        threads = [threading.Thread(target=client, args=item, daemon=True) for item in plan.items()]
        for t in threads: t.start()
        for t in threads: t.join(bind.CALL_TIMEOUT)
        sys.setswitchinterval(5e-3)
        for (c, _), t in zip(plan.items(), threads):
            if t.is_alive():
                self.messages.append(f'no answer within {bind.CALL_TIMEOUT} s')
                with self.lock: self.log(e='return', c=c, r=bind.HUNG, u=[])


def integers(d):
    if isinstance(d, (list, tuple)): return [integers(v) for v in d]
    return int(d) if d == int(d) else repr(d)


# ------------------------------------------------------------------ questions the arithmetic of a context decides
def delicate(r):
    """coordinates whose exact relation differs from what plain float arithmetic makes of it"""
    f = lambda: r.choice([.1, .2, .3, .7, 1.1, 1.3, 1 / 3, 2 / 3, 1e-3, 12.1, 24.3, 0.5]) * r.choice([1, 1, 3, 7, 10])
    a, b = (f(), f()), (f() + 20, f() + 20)
    t = r.choice([.1, .3, .25, .5, .7, 1 / 3])
    p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    return a, b, p


def ask_script(r):
    questions = []
    for _ in range(3):
        a, b, p = delicate(r)
        questions.append([r.choice(['point_in_segment', 'segment_in_segment', 'point_in_region', 'segment_in_region']),
                          a, b, p])
    steps = []
    for _ in range(r.randint(8, 16)):
        t = r.random()
        if t < .3: steps.append(['default', r.choice(['initial', 'plain', 'exact', 'other'])])
        else: steps.append(['ask', r.randrange(3), r.choice(['none', 'none', 'plain', 'exact', 'initial'])])
    return {'numbers': 'fraction', 'questions': questions, 'steps': steps}


class AskRun(Run):
    def ask(self, q, k):
        name, a, b, p = self.script['questions'][q]
        c = CONTEXTS['initial']
        point = lambda p: c.point_cls(*p)
        far = (b[0] + 1, a[1] - 50)
        x, y = name.split('_in_')
        made = {'point': lambda: point(p), 'segment': lambda: c.segment_cls(point(p), point(far)),
                'region': lambda: c.contour_cls([point(a), point(b), point((a[0] - 1., b[1] + 40))])}
        goal = c.segment_cls(point(a), point(b)) if y == 'segment' else made[y]()
        kwargs = {} if k == 'none' else {'context': CONTEXTS[k]}
        code, message = bind.call(x, y, made[x](), goal, **kwargs)
        if code < 0: self.messages.append(message)
        # exact contexts are interchangeable
        k = 'exact' if k in ('initial', 'other') else k
        self.log(e='ask', c='main', q=q, k=k, r=code)

    def default(self, k):
        bind.set_context(CONTEXTS[k])
        self.log(e='default', c='main', k='exact' if k in ('initial', 'other') else k)

    def go(self):
        self.log(e='default', c='main', k='exact')
        return super().go()


class Client(threading.Thread):
    """a client whose calls are held at uses of the context: every use takes one permit"""
    PATIENCE = 1.0  # a client which does not get on is waiting for another one

    def __init__(self):
        super().__init__(daemon=True)
        self.state = threading.Condition()
        self.permits, self.held, self.task, self.result = 0, False, None, None
        self.start()

    def run(self):
        _used.gate = self.gate
        bind.set_context(CONTEXTS['initial'])
        while True:
            with self.state:
                while self.task is None: self.state.wait()
                task = self.task
            if task == 'stop': return
            result = task()
            with self.state:
                self.result, self.task = result, None
                self.state.notify_all()

    def gate(self):
        with self.state:
            while self.permits <= 0:
                self.held = True
                self.state.notify_all()
                self.state.wait()
            self.held = False
            self.permits -= 1

    def give(self, task, permits):
        with self.state:
            self.task, self.result, self.permits, self.held = task, None, permits, False
            self.state.notify_all()

    def permit(self, n):
        with self.state:
            if self.permits != INFINITE: self.permits += n
            if self.permits > 0: self.held = False
            self.state.notify_all()

    def settled(self, timeout):
        """waits until the task is finished or held"""
        with self.state: return self.state.wait_for(lambda: self.task is None or self.held, timeout)

    def finished(self, timeout):
        with self.state: return self.state.wait_for(lambda: self.task is None, timeout)


INFINITE = float('inf')


class Play(Run):
    """plays a behaviour of spec/SessionModel.tla"""

    def go(self):
        self.clients = {c: Client() for c in 'abc'}
        self.calls, self.expected, self.agreed = {}, {}, []
        self.impatient = False
        try:
            for n, gs in self.script['pool'].items(): self.bind(n, gs[0]['k'], gs[0]['d'])
            for step in self.script['behaviour']: getattr(self, 'do_' + step['e'])(step)
            for c in list(self.calls): self.do_return({'c': c})
            self.look()
        finally:
            for client in self.clients.values():
                if client.task is None: client.give('stop', INFINITE)
        return self.events

    def figure(self, e): return self.script['pool'][e['n']][e['i'] - 1]

    def do_edit(self, e): self.edit(e['n'], *self.figure(e).values())

    def do_bind(self, e): self.bind(e['n'], *self.figure(e).values())

    def do_default(self, e):
        client = self.clients[e['c']]
        client.give(lambda: bind.set_context(CONTEXTS[e['k']]), INFINITE)
        client.finished(bind.CALL_TIMEOUT)
        self.log(e='default', c=e['c'], k=e['k'])

    def do_invoke(self, e):
        x, y, k = e['x'], e['y'], e['k']
        a, b, kinds = self.objects[x], self.objects[y], (self.kinds[x], self.kinds[y])
        kwargs = {} if k == 'none' else {'context': CONTEXTS[k]}
        self.log(e='invoke', c=e['c'], x=x, y=y, k=k)

        def task():
            _used.names = set()
            result = bind.call_untimed(*kinds, a, b, **kwargs)
            return (*result, sorted(_used.names))
        self.calls[e['c']] = f'{kinds[0]}_in_{kinds[1]}'
        self.clients[e['c']].give(task, 0)
        self.clients[e['c']].settled(Client.PATIENCE)

    def do_work(self, e):
        client = self.clients[e['c']]
        if self.impatient: return
        client.permit(e['n'])
        if not client.settled(Client.PATIENCE): self.release()

    def release(self):
        """lets all the calls run on: one of them waits for another one"""
        self.impatient = True
        for client in self.clients.values(): client.permit(INFINITE)

    def do_return(self, e):
        client = self.clients[e['c']]
        client.permit(INFINITE)
        if not client.finished(Client.PATIENCE):
            self.release()
            client.finished(bind.CALL_TIMEOUT)
        name = self.calls.pop(e['c'])
        result = client.result or (bind.HUNG, f'no answer within {bind.CALL_TIMEOUT} s', [])
        if result[0] < 0: self.messages.append(result[1])
        if 'r' in e: self.agreed.append((name, result[0], e['r'] == result[0]))
        self.log(e='return', c=e['c'], r=result[0], u=result[2])


def session_case(script):
    run = (AskRun if 'questions' in script else Play if 'behaviour' in script else Run)(script)
    events = run.go()
    case = {'t': 'session', 'ev': events, 'script': script}
    if run.messages: case['m'] = run.messages[:5]
    if 'behaviour' in script: case['agreed'] = run.agreed
    return case


COLLECTIONS = [(x, y) for x, y in RELATIONS if {x, y} & {'multisegment', 'multiregion', 'multipolygon', 'polygon'}
               and x != 'segment' and y != 'contour'] + [('multiregion', 'polygon'), ('multipolygon', 'multipolygon')]


def brief(r, xk, yk):
    """a query of two figures that are in each other's way, asked again, maybe after an edit"""
    now = dict(zip('qr', pair(r, xk, yk)))
    context = lambda: r.choice(['none'] * 5 + ['exact', 'plain', 'other', 'initial'])
    ask = lambda: ['query', 'q', 'r', context()]
    steps = [['bind', n, *g] for n, g in now.items()] + [ask(), ['look']]
    if r.random() < .3: steps.append(ask())
    for _ in range(r.choice([0, 0, 1, 2])):
        n = r.choice('qr')
        g = tweak(r, now[n])
        if g:
            now[n] = g
            steps += [['edit', n, *g], ask(), ['look']]
    return {'numbers': r.choice(['fraction', 'fraction', 'int', 'float']), 'steps': steps}


def sessions(r, n):
    for i in range(n):
        yield session_case(ask_script(r) if i % 12 == 11 else script(r) if i % 4 == 3 else
                           brief(r, *r.choice(RELATIONS if r.random() < .5 else COLLECTIONS)))
