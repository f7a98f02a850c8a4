"""C01-C16: the four edge-list classes against the reference model."""
import random
from contextlib import contextmanager
from decimal import Decimal
from fractions import Fraction

import networkx as nx
import numpy as np
from sklearn.linear_model import LinearRegression

from .core import Check
from .execute import (CLASSES, Violation, World, args_text, ambiguous, call, norm_nx, q_real, time_keys, q_model, pair)
from . import values as V
from .gen import ADD_ONLY, EXACT, Gen
from .model import IMPULSE, INTERVAL, KINDS
from .values import Odd, MS, N, T, fz, show

DEG = {'IG': ('degree',), 'PG': ('degree',), 'IDG': ('degree', 'in_degree', 'out_degree'),
       'PDG': ('degree', 'in_degree', 'out_degree')}


def size_of(ms):
    return sum(c for _, c in ms[1]) if isinstance(ms, tuple) and ms and ms[0] == 'MS' else 0


def asked_again(g, ops, n=2):
    """Some of the latest questions once more: an answer must not be remembered across updates."""
    # (a tuple is one node while it is present and a collection afterwards: another question)
    recent = [op for op in ops[-40:] if op[0] == 'q'
              and not any(isinstance(x, V.COMPOUND) for p, x in op[2].items() if p in ('u', 'v', 'n', 'node'))]
    return g.rng.sample(recent, min(n, len(recent)))


def exact_removal(g, e):
    if g.kind in INTERVAL:
        return ('rm_edge', e[0], e[1], {'begin': e[2][0], 'end': e[2][1], 'overlapping': False})
    return ('rm_edge', e[0], e[1], {'begin': e[2][0], 'end': e[2][0]})


def exchange(g):
    """Take one edge away and put another one in, so that every count stays as it was."""
    e = g.edge()
    if e is None:
        return []
    r = g.rng.random()
    u, v, t = e[0], e[1], e[2]
    if r < .35:
        t = g.new_times()
    elif r < .7:
        u, v = g.new_pair()
    else:
        (u, v), t = g.new_pair(), g.new_times()
    out = [exact_removal(g, e)]
    g.track(out[0])
    out.append(('edge', u, v, t, g.attrs()))
    g.track(out[1])
    return out


class EdgeCheck(Check):
    """A history of updates with questions in between; every answer is compared with the model's."""
    kinds = KINDS
    profile = {}
    probe = .3               # chance of questions after an update
    per_probe = 2
    final = 6
    rule = ('a case is a random history of adds, re-adds, updates and removals on one graph class with questions in '
            'between; non-trivial when some question had a non-empty answer that is not simply everything')

    def gen(self, rng, i, tier):
        kind = self.kinds[i % len(self.kinds)]
        g = self.make_gen(rng, kind)
        ops = []
        p = self.probe if g.size in ('tiny', 'small') else self.probe / 4
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < p:
                for _ in range(self.per_probe):
                    ops.extend(self.questions(g))
            if rng.random() < p / 4:
                ops.extend(asked_again(g, ops))
        if rng.random() < .35:
            qs = self.questions(g)
            ops.extend(qs)
            ops.extend(exchange(g))
            ops.extend(qs)
        for _ in range(self.final if g.size != 'large' else self.final * 2):
            ops.extend(self.questions(g))
        return {'kind': kind, 'ops': ops}

    def make_gen(self, rng, kind):
        return Gen(rng, kind, **self.profile)

    def questions(self, g):
        raise NotImplementedError

    def run(self, case, rec):
        w = World(case['kind'], rec)
        rec.bucket('class ' + case['kind'])
        for op in case['ops']:
            if op[0] == 'q':
                if ambiguous(w.M, op[1], op[2]):
                    continue
                self.ask(w, op[1], op[2], rec)
            else:
                self.update(w, op, rec)
        rec.state((case['kind'], frozenset(w.M.edges)))

    def update(self, w, op, rec):
        w.apply(op)

    def ask(self, w, name, kw, rec):
        want = w.ask(name, kw)
        self.judge(w, name, kw, want, rec)

    def judge(self, w, name, kw, want, rec):
        k = size_of(want)
        total = len(w.M.edges)
        rec.bucket('answer: ' + ('empty' if k == 0 else 'everything' if k == total else 'some'))
        if 0 < k < total:
            rec.nontrivial = True
        b, e = kw.get('begin'), kw.get('end')
        if b is not None and e is not None:
            rec.bucket('window: instant' if b == e else 'window: closed')
        elif b is not None or e is not None:
            rec.bucket('window: half open')


# ------------------------------------------------------------------------------------------------ C01
class C01(EdgeCheck):
    pid = 'C01'
    quick, thorough = 21000, 720000
    required = ('removal that removed', 'edge given again', 'class IG', 'class IDG', 'class PG', 'class PDG',
                'checked after removal', 'times: int', 'times: float', 'times: str', 'times: date', 'times: Fraction', 'times: Decimal', 'times: datetime')
    rule = ('a case is a random history; after every update (every few updates in long histories) edges() is compared '
            'with the model as a multiset; non-trivial when an edge was removed or given again before a comparison')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        g = Gen(rng, kind)
        return {'kind': kind, 'every': 1 if g.size in ('tiny', 'small') else 7,
                'ops': [g.mutate() for _ in range(g.nops)]}

    def run(self, case, rec):
        w = World(case['kind'], rec)
        rec.bucket('class ' + case['kind'])
        ops = case['ops']
        for i, op in enumerate(ops):
            w.apply(op)
            if op[0] == 'edge':
                rec.bucket('times: ' + type(op[3][0]).__name__)
            if i % case['every'] == 0 or i == len(ops) - 1:
                w.ask('edges', {}, 'after %d updates: ' % (i + 1))
                rec.state((case['kind'], frozenset(w.M.edges)))
                if rec.buckets.get('removal that removed'):
                    rec.bucket('checked after removal')
                if rec.buckets.get('removal that removed') or rec.buckets.get('edge given again'):
                    rec.nontrivial = True


# ------------------------------------------------------------------------------------------------ C02 / C03
def structured(rng, kind, n, shape=None):
    """Orders that stress a search tree: sorted, reversed, nested, shared ends, equal intervals; then removals."""
    p = shape or rng.choice(('asc', 'desc', 'zig', 'nested', 'same begin', 'same end', 'blocks', 'equal', 'random'))
    iv = []
    few = 1 if shape else rng.choice((1, 3))
    for i in range(n):
        j = {'asc': i, 'desc': n - i, 'zig': (i if i % 2 else n - i) // 2}.get(p, rng.randint(0, n))
        L = 5 if shape else rng.choice((1, 1, 2, 5, n))
        if p == 'nested':
            iv.append((i, 3 * n - i))
        elif p == 'same begin':
            iv.append((i % few, i + 3))
        elif p == 'same end':
            iv.append((i, 2 * n) if shape else (rng.randint(0, n), n + i % 3))
        elif p == 'blocks':
            iv.append(((i // 5) * 5 - i % 5, (i // 5) * 5 + L))
        elif p == 'equal':
            iv.append((i % 4, 4 + i % 2))
        else:
            iv.append((j, j + L))
    shift = rng.choice((0, 0, -n // 2, 10 ** 6))
    iv = [(a + shift, b + shift) for a, b in iv]
    m = rng.choice((2, 3, 8, 30))
    ops, live = [], []
    for a, b in iv:
        u = rng.randrange(m)
        v = rng.randrange(m)
        t = (a, b) if kind in INTERVAL else (a,)
        ops.append(('edge', u, v, t, {}))
        live.append((u, v, t))
    order = rng.choice(('fifo', 'lifo', 'random', 'random'))
    k = 0 if shape else int(n * rng.choice((0, .3, .7, .95)))
    if order == 'lifo':
        live.reverse()
    elif order == 'random':
        rng.shuffle(live)
    for u, v, t in live[:k]:
        if kind in INTERVAL:
            ops.append(('rm_edge', u, v, {'begin': t[0], 'end': t[1], 'overlapping': False}))
        else:
            ops.append(('rm_edge', u, v, {'begin': t[0], 'end': t[0]}))
    if k and rng.random() < .4:
        for u, v, t in rng.sample(live[:k], min(k, 10)):
            ops.append(('edge', u, v, t, {}))
    return ops


class WindowCheck(EdgeCheck):
    per_probe = 2
    final = 10
    profile = {'weights': (.3, .4, .24, .06)}

    def gen(self, rng, i, tier):
        if i % 6 != 5:
            return EdgeCheck.gen(self, rng, i, tier)
        kind = self.kinds[(i // 6) % len(self.kinds)]
        g = self.make_gen(rng, kind)
        ops = structured(rng, kind, rng.choice((10, 20, 40, 80, 80, 160)))
        for op in ops:
            g.track(op)
        g.times.style = 'int'
        for _ in range(15):
            ops.extend(self.questions(g))
        if rng.random() < .5:
            for op in ops[:20]:
                if op[0] == 'edge':
                    ops.append(op)
            ops.extend(self.questions(g))
        return {'kind': kind, 'ops': ops}

    def questions(self, g):
        return [('q', 'edges', g.window(none=0))]


class C02(WindowCheck):
    pid = 'C02'
    kinds = INTERVAL
    quick, thorough = 12000, 420000
    required = ('answer: some', 'window: instant', 'window: closed', 'window: half open', 'removal that removed',
                'bound on a begin', 'bound on an end', 'zero-length edge present')

    def judge(self, w, name, kw, want, rec):
        WindowCheck.judge(self, w, name, kw, want, rec)
        los = {e[2][0] for e in w.M.edges.values()}
        his = {e[2][1] for e in w.M.edges.values()}
        for b in (kw.get('begin'), kw.get('end')):
            if b in los:
                rec.bucket('bound on a begin')
            if b in his:
                rec.bucket('bound on an end')
        if any(e[2][0] == e[2][1] for e in w.M.edges.values()):
            rec.bucket('zero-length edge present')


class C03(WindowCheck):
    pid = 'C03'
    kinds = IMPULSE
    quick, thorough = 16000, 560000
    required = ('answer: some', 'window: instant', 'window: closed', 'window: half open', 'removal that removed',
                'flags (True, True)', 'flags (True, False)', 'flags (False, True)', 'flags (False, False)')

    def judge(self, w, name, kw, want, rec):
        WindowCheck.judge(self, w, name, kw, want, rec)
        if 'inclusive' in kw:
            rec.bucket('flags %r' % (kw['inclusive'],))


# ------------------------------------------------------------------------------------------------ C04 / C05
def node_questions(g, window):
    rng = g.rng
    kw = {}
    r = rng.random()
    e = g.edge()
    if e is not None and r < .35:                       # aim at a joined pair
        u, v = (e[0], e[1]) if rng.random() < .6 else (e[1], e[0])
        shape = rng.random()
        if shape < .4:
            kw['u'], kw['v'] = u, v
        elif shape < .6:
            kw['u'], kw['v'] = [u, g.some_node()], v
        elif shape < .8:
            kw['u'], kw['v'] = u, [g.some_node(), v]
        else:
            kw['u'], kw['v'] = [g.some_node(), u], [v, g.some_node()]
    elif r < .55:
        kw['u'] = g.node_arg()
    elif r < .75:
        kw['v'] = g.node_arg()
    else:
        kw['u'], kw['v'] = g.node_arg(), g.node_arg()
    for p in 'uv':
        if isinstance(kw.get(p), list) and rng.random() < .2:
            kw['_' + p] = rng.choice(('iter', 'keys'))
    if window:
        kw.update(g.window(none=0, edge=e))
    elif rng.random() < .3:
        kw['_pos'] = rng.randint(0, 2)
    return [('q', 'edges', kw)]


class NodeCheck(EdgeCheck):
    per_probe = 2
    final = 8
    windowed = False

    def questions(self, g):
        return node_questions(g, self.windowed)

    def judge(self, w, name, kw, want, rec):
        EdgeCheck.judge(self, w, name, kw, want, rec)
        for p in 'uv':
            if p in kw:
                x = kw[p]
                if isinstance(x, (list, set)) or (isinstance(x, tuple) and x not in w.M.nodes):
                    rec.bucket('collection of nodes')
                    if size_of(want):
                        rec.bucket('collection answered')
                elif isinstance(x, str):
                    rec.bucket('string label')
                elif isinstance(x, tuple):
                    rec.bucket('tuple label')
        if 'u' in kw and 'v' in kw and size_of(want):
            rec.bucket('both end points answered')
        if 'v' in kw and 'u' not in kw and size_of(want):
            rec.bucket('second end point only answered')


class C04(NodeCheck):
    pid = 'C04'
    quick, thorough = 28000, 960000
    required = ('answer: some', 'answer: empty', 'collection answered', 'string label', 'tuple label',
                'both end points answered', 'second end point only answered', 'class IG', 'class IDG', 'class PG',
                'class PDG')


class C05(NodeCheck):
    pid = 'C05'
    windowed = True
    quick, thorough = 24000, 830000
    required = C04.required + ('window: instant', 'window: closed', 'window: half open')


# ------------------------------------------------------------------------------------------------ C06
@contextmanager
def forced(rec):
    """Make the trained model prefer a route; both answers must be the same.  Leaves the library untouched."""
    state = {'route': None}
    real = LinearRegression.predict

    def predict(self, X):
        y = real(self, X)
        rec.event('model consulted')
        if state['route'] and getattr(y, 'shape', None) == (1, 2):
            return np.array([[0.0, 1.0]]) if state['route'] == 'node' else np.array([[1.0, 0.0]])
        return y
    LinearRegression.predict = predict
    try:
        yield state
    finally:
        LinearRegression.predict = real


class C06(EdgeCheck):
    pid = 'C06'
    technique = 'runtime monitoring: twin-execution monitor: trained and untrained graph under the same history, both model routes forced'
    quick, thorough = 5200, 180000
    profile = {'times': ('small', 'small', 'zero', 'int', 'dyadic', 'float', 'wide', 'mixed'),
               'weights': (.35, .42, .2, .03)}
    required = ('trained', 'answer: some', 'asked after later changes', 'route node', 'route time', 'route None',
                'class IG', 'class IDG', 'class PG', 'class PDG', 'trained on one time only', 'trained on one edge',
                'windows that cannot be measured', 'shrunk to one instant after training', 'endless edge after training')
    rule = ('a case drives two equal graphs, trains one, and asks both the same questions before and after further '
            'updates, with the model free, forced to the node route, and forced to the time route; non-trivial when '
            'a windowed node question after training had a partial answer')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        g = self.make_gen(rng, kind)
        if rng.random() < .25:      # degenerate graphs: one edge / one instant
            g.nops = 1 + rng.randrange(3)
            g.mix = {'edge': 1}
        ops = []
        if rng.random() < .15:
            t = g.new_times()
            for _ in range(rng.randint(1, 3)):
                u, v = g.new_pair()
                op = ('edge', u, v, t, g.attrs())
                g.track(op)
                ops.append(op)
            if rng.random() < .5:
                n = rng.choice(g.labels)
                ops.append(('node', n, {}))
                g.track(ops[-1])
        else:
            ops += [g.mutate() for _ in range(g.nops)]
        size = rng.choice((1, 2, 5, 12)) if rng.random() < .95 else 250
        ops.append(('train', rng.randrange(10 ** 6), size))
        ops += self.ask_all(g, 8)
        endless = g.times.style in V.TIME_STYLES and rng.random() < .06
        for _ in range(rng.randint(1, 8)):
            if endless:                           # an edge that never ends, or was always there
                u, v = g.new_pair()
                t = rng.choice((V.inf, -V.inf))
                t = (t,) if kind not in INTERVAL else (g.times.draw(rng), t) if t > 0 else (t, g.times.draw(rng))
                ops.append(('edge', u, v, t, g.attrs()))
                g.track(ops[-1])
                ops.append(('endless',))
                endless = False
            if rng.random() < .25:
                ops += exchange(g)
            else:
                ops.append(g.mutate())
            if rng.random() < .5:
                ops += self.ask_all(g, 2)
            if rng.random() < .5:
                ops += asked_again(g, ops, 3)
        ops.append(('mark',))
        ops += self.ask_all(g, 8)
        if rng.random() < .15 and g.M.edges:      # shrink the graph to edges at one instant
            t = g.times.draw(rng)
            t = (t, t) if kind in INTERVAL else (t,)
            for e in list(g.M.edges.values()):
                ops.append(exact_removal(g, e))
                g.track(ops[-1])
            for _ in range(rng.randint(1, 3)):
                u, v = g.new_pair()
                ops.append(('edge', u, v, t, g.attrs()))
                g.track(ops[-1])
            ops.append(('shrunk',))
            ops += self.ask_all(g, 5)
        if rng.random() < .12 and g.M.edges:      # windows and times that can be ordered but not measured
            ops.append(('unmeasured',))
            for _ in range(4):
                e = rng.choice(list(g.M.edges.values()))
                w = rng.choice(({'end': Decimal(rng.randint(-5, 30))}, {'begin': Decimal(rng.randint(-5, 30))},
                                {'begin': -10 ** 400, 'end': 10 ** 400}, {'begin': 10 ** 400}, {'end': 10 ** 400},
                                {'begin': Fraction(-10 ** 400), 'end': Fraction(5, 3)}, {'end': Decimal('Infinity')}))
                q = dict(w, **rng.choice(({'u': e[0]}, {'v': e[1]}, {'u': [e[0], e[1]]}, {'u': e[0], 'v': e[1]})))
                q.update(g.data_kw())
                ops.append(('q', 'edges', q))
            if rng.random() < .5:
                for e in list(g.M.edges.values()):
                    ops.append(exact_removal(g, e))
                    g.track(ops[-1])
                for _ in range(rng.randint(1, 4)):
                    u, v = g.new_pair()
                    t = sorted(rng.choice(('a', 'b', 'c', 'd')) for _ in range(2))
                    ops.append(('edge', u, v, tuple(t) if kind in INTERVAL else (t[0],), {}))
                    ops.append(('q', 'edges', {'u': u, 'begin': rng.choice(('', 'a', 'b'))}))
                    ops.append(('q', 'edges', {'v': v, 'end': rng.choice(('b', 'c', 'e'))}))
                    ops.append(('q', 'edges', {'u': u, 'begin': 'a', 'end': rng.choice(('b', 'c', 'e'))}))
                return {'kind': kind, 'ops': ops}
        if rng.random() < .2 and not any(abs(t) == V.inf for e in g.M.edges.values() for t in e[2]):
            ops.append(('train', rng.randrange(10 ** 6), size))
            ops += self.ask_all(g, 3)
        return {'kind': kind, 'ops': ops}

    def ask_all(self, g, n):
        out = []
        for _ in range(n):
            r = g.rng.random()
            if r < .75:
                for q in node_questions(g, True):
                    q[2].update(g.data_kw())
                    out.append(q)
            elif r < .8:
                out.append(('q', 'edges', g.window()))
            elif r < .9:
                out.append(('q', 'degree', dict({k: v for k, v in g.window().items() if k != '_pos'},
                                                node=g.some_node(), which=g.rng.choice(DEG[g.kind]))))
            elif r < .95:
                e = g.edge()
                if e:
                    out.append(('q', 'has_edge', dict(g.window(none=0), u=e[0], v=e[1])))
            else:
                out.append(('q', 'nodes', g.window(none=0)))
        return out

    def run(self, case, rec):
        rec.bucket('class ' + case['kind'])
        a, b = World(case['kind'], rec), World(case['kind'], rec)
        trained = False
        with forced(rec) as state:
            for op in case['ops']:
                if op[0] == 'train':
                    if a.M.edges:
                        a.apply(op)
                        trained = True
                        rec.bucket('trained')
                        if len({e[2] for e in a.M.edges.values()}) == 1:
                            rec.bucket('trained on one time only')
                        if len(a.M.edges) == 1:
                            rec.bucket('trained on one edge')
                elif op[0] == 'mark':
                    if trained:
                        rec.bucket('asked after later changes')
                elif op[0] == 'endless':
                    if trained:
                        rec.bucket('endless edge after training')
                elif op[0] == 'unmeasured':
                    if trained:
                        rec.bucket('windows that cannot be measured')
                elif op[0] == 'shrunk':
                    if trained:
                        rec.bucket('shrunk to one instant after training')
                elif op[0] != 'q':
                    a.apply(op)
                    b.apply(op)
                else:
                    if ambiguous(a.M, op[1], op[2]):
                        continue
                    state['route'] = None
                    want = q_real(b.G, b.M, op[1], op[2])
                    if trained and op[1] == 'edges' and 0 < size_of(want) < len(a.M.edges):
                        rec.bucket('answer: some')
                        if ('u' in op[2] or 'v' in op[2]):
                            rec.nontrivial = True
                    for route in (None, 'node', 'time'):
                        state['route'] = route
                        got = q_real(a.G, a.M, op[1], op[2])
                        rec.event('twin comparison')
                        rec.bucket('route %s' % route)
                        if got != want:
                            raise Violation('%s %s(%s) with a trained model (route preference %s) answered %s, '
                                            'without the model %s'
                                            % (CLASSES[case['kind']].__name__, op[1], args_text(op[2]), route,
                                               show(got), show(want)))
            rec.state((case['kind'], frozenset(a.M.edges)))


# ------------------------------------------------------------------------------------------------ C07
class C07(EdgeCheck):
    pid = 'C07'
    quick, thorough = 28000, 960000
    final = 12
    per_probe = 3
    required = ('true', 'false', 'exact match true', 'exact match false', 'window: instant', 'window: closed',
                'window: half open', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history with has_edge questions aimed at joined pairs (both ways round) and event '
            'times; non-trivial when the same history had both true and false answers on joined pairs')

    def questions(self, g):
        rng = g.rng
        e = g.edge()
        if e is None or rng.random() < .2:
            u, v = g.some_node(.3), g.some_node(.3)
        else:
            u, v = (e[0], e[1]) if rng.random() < .6 else (e[1], e[0])
        kw = dict(g.window(none=.2, edge=e), u=u, v=v)
        if g.kind in INTERVAL and rng.random() < .35:
            t = e[2] if e is not None and rng.random() < .5 else g.new_times()
            if e is not None and rng.random() < .3:
                t = g.near(e[2])
            kw = {'u': u, 'v': v, 'begin': t[0], 'end': t[1], 'overlapping': False}
        return [('q', 'has_edge', kw)]

    def judge(self, w, name, kw, want, rec):
        joined = any(w.M.joins(e, kw['u'], kw['v']) for e in w.M.edges.values())
        if kw.get('overlapping', True) is False:
            rec.bucket('exact match ' + ('true' if want else 'false'))
        if joined:
            rec.bucket('true' if want else 'false')
            if rec.buckets.get('true') and rec.buckets.get('false'):
                rec.nontrivial = True
        b, e = kw.get('begin'), kw.get('end')
        if b is not None and e is not None:
            rec.bucket('window: instant' if b == e else 'window: closed')
        elif b is not None or e is not None:
            rec.bucket('window: half open')


# ------------------------------------------------------------------------------------------------ C08
class C08(EdgeCheck):
    pid = 'C08'
    quick, thorough = 20000, 700000
    final = 6
    per_probe = 1
    required = ('windowed: some nodes', 'windowed: no nodes', 'removal that removed', 'absent node asked',
                'isolated node present', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history; each probe asks nodes, has_node, number_of_nodes, len and membership about '
            'the same window; non-trivial when a window held some but not all nodes')

    def questions(self, g):
        w = g.window(none=.35)
        w0 = {k: v for k, v in w.items()}
        n = g.rng.choice(g.labels) if g.rng.random() < .85 else g.rng.choice((*__import__('mon.values', fromlist=['ABSENT']).ABSENT,))
        out = [('q', 'nodes', dict(w0)), ('q', 'number_of_nodes', dict(w0)), ('q', 'has_node', dict(w0, n=n)),
               ('q', 'len', {}), ('q', 'contains', {'n': n})]
        kw = dict(w0)
        kw.update(g.data_kw())
        out.append(('q', 'nodes', kw))
        return out

    def judge(self, w, name, kw, want, rec):
        if name == 'nodes' and w.M.windowed(kw):
            k = size_of(want)
            rec.bucket('windowed: some nodes' if k else 'windowed: no nodes')
            if 0 < k < len(w.M.nodes):
                rec.nontrivial = True
        if name == 'has_node' and kw['n'] not in w.M.nodes:
            rec.bucket('absent node asked')
        if name == 'len' and len(w.M.nodes) > len({n for e in w.M.edges.values() for n in e[:2]}):
            rec.bucket('isolated node present')


# ------------------------------------------------------------------------------------------------ C09 / C10
def views(w, where, deep=True):
    """The public state seen from every side: listing, per node, per window, span."""
    M = w.M
    w.ask('state', {}, where)
    w.ask('len', {}, where)
    if not deep:
        return
    for n in list(M.nodes)[:12]:
        if isinstance(n, tuple) and n not in M.nodes:
            continue
        w.ask('edges', {'u': n, 'data': True}, where)
        w.ask('edges', {'v': n, 'data': True}, where)
    ts = M.event_times()
    pts = ts if len(ts) <= 12 else ts[::len(ts) // 12]
    for t in pts:
        w.ask('edges', {'begin': t, 'end': t, 'data': True}, where)
    for b, e in list(zip(pts, pts[1:]))[:6]:
        w.ask('edges', {'begin': b, 'end': e}, where)
    if ts:
        w.ask('edges', {'begin': ts[0]}, where)
        w.ask('nodes', {'begin': ts[0]}, where)
        w.ask('interval', {}, where)
    for e in list(M.edges.values())[:6]:
        w.ask('has_edge', {'u': e[0], 'v': e[1]}, where)


class RemovalCheck(EdgeCheck):
    target = None
    rule = ('a case is a random history rich in removals; after each removal the whole public state (listing with '
            'data, nodes with data, per-node and per-window answers, span) is compared with the model; non-trivial '
            'when a removal removed some edges and left others')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        other = 'rm_node' if self.target == 'rm_edge' else 'rm_edge'
        mix = {'edge': 45, 'edges': 4, 'again': 6, 'readd': 6, 'node': 6, 'nodes': 2, self.target: 22, other: 3}
        g = Gen(rng, kind, mix=mix, attr_p=rng.choice((.3, .7)))
        ops = [g.mutate() for _ in range(g.nops)]
        ops.append(g.rm_edge() if self.target == 'rm_edge' else g.rm_node())
        return {'kind': kind, 'ops': ops, 'deep': g.size in ('tiny', 'small') or rng.random() < .3}

    def run(self, case, rec):
        w = World(case['kind'], rec)
        rec.bucket('class ' + case['kind'])
        since = 0
        for i, op in enumerate(case['ops']):
            nodes, edges = len(w.M.nodes), len(w.M.edges)
            there = op[0] == 'rm_node' and op[1] in w.M.nodes
            w.apply(op)
            if op[0] != self.target:
                continue
            gone = edges - len(w.M.edges)
            rec.bucket('removed: ' + ('nothing' if gone == 0 else 'everything' if not w.M.edges else 'some'))
            win = op[-1]
            if 'begin' in win or 'end' in win:
                rec.bucket('windowed removal')
                if gone and any(w.M.touches(e, op[1]) for e in w.M.edges.values()):
                    rec.bucket('windowed removal left edges of the same node')
            if win.get('overlapping') is False:
                rec.bucket('exact removal' + (' hit' if gone else ' missed'))
            if self.target == 'rm_node' and not there:
                rec.bucket('absent node removed')
            if gone and w.M.edges:
                rec.nontrivial = True
            since += 1
            views(w, 'after %s: ' % (op,), deep=case['deep'] or since <= 2)
        views(w, 'at the end: ', deep=case['deep'])
        rec.state((case['kind'], frozenset(w.M.edges)))


class C09(RemovalCheck):
    pid = 'C09'
    target = 'rm_edge'
    quick, thorough = 7000, 240000
    required = ('removed: nothing', 'removed: some', 'removed: everything', 'windowed removal',
                'windowed removal left edges of the same node', 'exact removal hit', 'exact removal missed',
                'class IG', 'class IDG', 'class PG', 'class PDG')


class C10(RemovalCheck):
    pid = 'C10'
    target = 'rm_node'
    quick, thorough = 7000, 240000
    required = ('removed: nothing', 'removed: some', 'removed: everything', 'windowed removal',
                'windowed removal left edges of the same node', 'absent node removed',
                'class IG', 'class IDG', 'class PG', 'class PDG')


# ------------------------------------------------------------------------------------------------ C11
class C11(EdgeCheck):
    pid = 'C11'
    quick, thorough = 18000, 640000
    final = 6
    profile = {'mix': {'edge': 40, 'edges': 6, 'again': 20, 'readd': 6, 'node': 12, 'nodes': 7, 'rm_edge': 7,
                       'rm_node': 3}}
    required = ('answer: some', 'edge given again', 'removal that removed', 'key absent', 'key present',
                'node data', 'array-like value', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a history rich in repeated additions with attributes; questions report all data or one key, '
            'selected by end point, window or not at all; non-trivial when a reported item carried attributes')

    def make_gen(self, rng, kind):
        return Gen(rng, kind, attr_p=rng.choice((.5, .8)), **self.profile)

    def questions(self, g):
        rng = g.rng
        r = rng.random()
        d = g.data_kw()
        if not d:
            d = {'data': True}
        if r < .25:
            return [('q', 'nodes', dict(g.window(none=.5), **d))]
        if r < .5:
            return [('q', 'edges', dict(d))]
        if r < .65:
            return [('q', 'edges', dict(g.window(none=0), **d))]
        qs = node_questions(g, rng.random() < .5)
        for q in qs:
            q[2].update(d)
        return qs

    def judge(self, w, name, kw, want, rec):
        if name == 'edges':
            EdgeCheck.judge(self, w, name, kw, want, rec)
        rec.nontrivial = rec.nontrivial or any(x[0][1] != ('D', frozenset()) for x in want[1])
        if name == 'nodes':
            rec.bucket('node data')
        if kw.get('data') is True:
            # an attribute value is the user's own object
            given = {id(x) for d in (*w.M.nodes.values(), *(e[3] for e in w.M.edges.values())) for x in d.values()}
            for _, d in (w.G.nodes if name == 'nodes' else w.G.edges)(data=True):
                for k, x in d.items():
                    if type(x) is Odd:
                        rec.bucket('array-like value')
                        if id(x) not in given:
                            raise Violation('attribute %r is an object of its own instead of the one given' % (k,))
        if kw.get('data') not in (True, False, None):
            has = any(kw['data'] in e[3] for e in w.M.select(kw)) if name == 'edges' else False
            rec.bucket('key present' if has else 'key absent')


# ------------------------------------------------------------------------------------------------ C12 / C13
class C12(WindowCheck):
    pid = 'C12'
    kinds = KINDS
    quick, thorough = 25000, 880000
    probe = .5
    per_probe = 1
    final = 1
    required = ('bounds shrank', 'bounds grew', 'isolated node present', 'class IG', 'class IDG', 'class PG',
                'class PDG')
    rule = ('a case is a random or structured history; interval() is compared after updates; non-trivial when the '
            'span shrank because of a removal')
    profile = {'mix': {'edge': 45, 'edges': 4, 'again': 4, 'readd': 5, 'node': 6, 'nodes': 2, 'rm_edge': 24,
                       'rm_node': 10}}

    def questions(self, g):
        return [('q', 'interval', {})]

    def update(self, w, op, rec):
        before = w.M.q_interval({})
        w.apply(op)
        after = w.M.q_interval({})
        if len(before) == 2 and len(after) == 2 and before != after:
            if op[0].startswith('rm'):
                rec.bucket('bounds shrank')
                rec.nontrivial = True
            else:
                rec.bucket('bounds grew')
            self.ask(w, 'interval', {}, rec)

    def judge(self, w, name, kw, want, rec):
        if len(w.M.nodes) > len({n for e in w.M.edges.values() for n in e[:2]}):
            rec.bucket('isolated node present')


class C13(WindowCheck):
    pid = 'C13'
    kinds = INTERVAL
    quick, thorough = 18000, 620000
    required = ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps', 'bounded, some left out',
                'bound hit exactly and excluded', 'removal that removed', 'unbounded', 'class IG', 'class IDG')
    rule = ('a case is a random or structured history of an interval graph with questions about unique (begin, end) '
            'timestamps, bounded and not; non-trivial when bounds left out some timestamps but not all')

    def questions(self, g):
        rng = g.rng
        known = g.M.event_times()
        kw = {'which': rng.choice(('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'))}
        r = rng.random()
        a, b = g.times.probe(rng, known), g.times.probe(rng, known)
        if a > b:
            a, b = b, a
        if r < .15:
            pass
        elif r < .3:
            kw['begin'] = a
        elif r < .45:
            kw['end'] = b
        else:
            kw['begin'], kw['end'] = a, b
        if 'begin' in kw or 'end' in kw:
            if rng.random() < .65:
                # a flag may be False only for a bound that is given
                kw['inclusive'] = ('begin' not in kw or rng.random() < .5, 'end' not in kw or rng.random() < .5)
        return [('q', 'uniq', kw)]

    def judge(self, w, name, kw, want, rec):
        rec.bucket(kw['which'])
        every = w.M.q_uniq({'which': kw['which']})
        if 'begin' not in kw and 'end' not in kw:
            rec.bucket('unbounded')
            if len(every) > 1:
                rec.bucket('several')
        elif 0 < len(want) < len(every):
            rec.bucket('bounded, some left out')
            rec.nontrivial = True
        vals = [t[1] for t in every]
        inc = kw.get('inclusive', (True, True))
        for p, i in (('begin', 0), ('end', 1)):
            if p in kw and kw[p] in vals and not inc[i]:
                rec.bucket('bound hit exactly and excluded')


# ------------------------------------------------------------------------------------------------ C14 / C15
class C14(EdgeCheck):
    pid = 'C14'
    quick, thorough = 15000, 530000
    final = 10
    required = ('node', 'mean', 'windowed', 'in_degree', 'out_degree', 'degree', 'positive', 'self-loop counted',
                'removal that removed', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history with degree questions about one node or the mean; non-trivial when a windowed '
            'degree was positive and smaller than the degree without a window')

    def questions(self, g):
        rng = g.rng
        kw = {'which': rng.choice(DEG[g.kind])}
        e = g.edge()
        if rng.random() < .7:
            if e is not None and rng.random() < .7:
                kw['node'] = rng.choice(e[:2])
            else:
                kw['node'] = g.some_node()
        kw.update(g.window(none=.3, edge=e))
        if kw['which'] != 'degree':
            kw.pop('_pos', None)
        return [('q', 'degree', kw)]

    def judge(self, w, name, kw, want, rec):
        rec.bucket(kw['which'])
        rec.bucket('mean' if kw.get('node') is None else 'node')
        if w.M.windowed(kw):
            rec.bucket('windowed')
        if kw.get('node') is not None and want:
            rec.bucket('positive')
            if any(e[0] == e[1] == kw['node'] for e in w.M.edges.values()):
                rec.bucket('self-loop counted')
            if w.M.windowed(kw) and want < len(w.M.incident(kw['which'], kw['node'], {})):
                rec.nontrivial = True


class C15(EdgeCheck):
    pid = 'C15'
    quick, thorough = 20000, 680000
    final = 8
    required = ('several changes', 'windowed', 'single instant', 'in_degree', 'out_degree', 'degree',
                'zero-length edge at node',
                'node without edges', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history with degree(delta=True) questions; the last entry per time is compared with '
            'the true degree from that time on; non-trivial when at least two changes lie in the window')

    def questions(self, g):
        rng = g.rng
        if not g.M.edges:
            return []
        e = g.edge()
        kw = {'which': rng.choice(DEG[g.kind]), 'node': rng.choice(e[:2]) if rng.random() < .85 else g.some_node()}
        w = g.window(none=.3, edge=e)
        w.pop('_pos', None)
        kw.update(w)
        return [('q', 'delta', kw)]

    def ask(self, w, name, kw, rec):
        if not w.M.edges:
            return
        if w.M.interval_kind:
            span = w.M.q_interval({})
            b = kw.get('begin') if kw.get('begin') is not None else span[0][1]
            e = kw.get('end') if kw.get('end') is not None else span[1][1]
            if not b <= e:
                return
            if b == e:
                return self.ask_instant(w, kw, b, rec)
        EdgeCheck.ask(self, w, name, kw, rec)

    def ask_instant(self, w, kw, t, rec):
        """A window of one instant: one entry per edge that begins there, each with the degree at that instant."""
        got = list(getattr(w.G, kw['which'])(delta=True, **{k: v for k, v in kw.items() if k != 'which'}))
        rec.event('query:delta')
        inc = w.M.incident(kw['which'], kw['node'], {'begin': t, 'end': t})
        want = {(t, len(inc))} if any(e[2][0] == t for e in inc) else set()
        if set(map(tuple, got)) != want:
            raise Violation('%s.%s(%s, delta=True) answered %r, expected the degree at that instant: %r'
                            % (CLASSES[w.kind].__name__, kw['which'], args_text(kw), got, sorted(want)))
        rec.bucket('single instant')

    def judge(self, w, name, kw, want, rec):
        rec.bucket(kw['which'])
        k = len(want) if w.M.interval_kind else size_of(want)
        if w.M.windowed(kw):
            rec.bucket('windowed')
        if k >= 2:
            rec.bucket('several changes')
            rec.nontrivial = True
        inc = w.M.incident(kw['which'], kw['node'], {})
        if not inc:
            rec.bucket('node without edges')
        if w.M.interval_kind and any(e[2][0] == e[2][1] for e in inc):
            rec.bucket('zero-length edge at node')


# ------------------------------------------------------------------------------------------------ C16
def check_projection(M, g, edges, kw, where):
    """g must be exactly the projection of the given model edges."""
    tk = time_keys(M)
    with_times = kw.get('edge_interval_data' if M.interval_kind else 'edge_timestamp_data', False)
    with_data, with_nodes, multi = kw.get('edge_data', False), kw.get('node_data', False), kw.get('multigraph', False)
    if not isinstance(g, nx.Graph) or g.is_directed() != M.directed or g.is_multigraph() != multi:
        raise Violation('%s: wrong kind of graph: %s' % (where, type(g).__name__))

    def data(e):
        d = {k: fz(v) for k, v in e[3].items()} if with_data else {}
        if with_times:
            d.update({k: T(t) for k, t in zip(tk, e[2])})
        return d
    want_nodes = MS([(N(n), ('A', frozenset((k, fz(v)) for k, v in (M.nodes[n] if with_nodes else {}).items())))
                     for n in {n for e in edges for n in e[:2]}])
    got = norm_nx(g, tk if with_times else ())
    if got[3] != want_nodes:
        raise Violation('%s: nodes of the projection are %s, expected %s' % (where, show(got[3]), show(want_nodes)))
    if multi:
        want = MS([(M.pair(e[0], e[1]), ('A', frozenset(data(e).items()))) for e in edges])
        if got[4] != want:
            raise Violation('%s: edges of the projection are %s, expected %s' % (where, show(got[4]), show(want)))
        return
    groups = {}
    for e in edges:
        groups.setdefault(M.pair(e[0], e[1]), []).append(data(e))
    have = {p: d for (p, d), _ in got[4][1]}
    if set(have) != set(groups) or sum(c for _, c in got[4][1]) != len(groups):
        raise Violation('%s: node pairs of the projection are %s, expected %s'
                        % (where, show(frozenset(have)), show(frozenset(groups))))
    for p, ds in groups.items():
        d = dict(have[p][1])
        keys = {k for x in ds for k in x}
        if set(d) != keys:
            raise Violation('%s: pair %s of the projection carries %s, expected keys %s'
                            % (where, show(p), sorted(map(str, d)), sorted(map(str, keys))))
        for k, v in d.items():
            if not any(k in x and x[k] == v for x in ds):
                raise Violation('%s: pair %s of the projection carries %s=%s, which no edge in the window has (%s)'
                                % (where, show(p), k, show(v), show(tuple(x.get(k) for x in ds))))


def projection_flags(rng, kind):
    f = {}
    for k in ('multigraph', 'edge_data', 'node_data', 'edge_interval_data' if kind in INTERVAL else
              'edge_timestamp_data'):
        if rng.random() < .5:
            f[k] = rng.random() < .75
    return f


def time_named(rng, case):
    """Sometimes gives edges attributes with the names of the time attributes."""
    if rng.random() < .3:
        out = []
        for op in case['ops']:
            out.append(op)
            if op[0] == 'edge' and rng.random() < .4:
                out.append(('attr', op[1], op[2], op[3], rng.choice(('begin', 'end') if case['kind'] in INTERVAL else ('timestamp',)),
                            rng.choice((7, 'x', None, -1.5))))
        case['ops'] = out
    return case


class C16(EdgeCheck):
    pid = 'C16'

    def make_gen(self, rng, kind):
        # an attribute may have the name of the time attribute; the time is then what the projection carries
        keys = ['w', 'color', 'timestamp', 'weight'] if kind in IMPULSE and rng.random() < .3 else None
        return Gen(rng, kind, attr_keys=keys, **self.profile)

    def gen(self, rng, i, tier):
        return time_named(rng, EdgeCheck.gen(self, rng, i, tier))

    quick, thorough = 12000, 410000
    final = 6
    required = ('multigraph', 'collapsed several', 'edge data', 'attribute named like the time', 'times', 'node data', 'neither data nor times',
                'answer: some', 'answer: empty', 'window: instant', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history with projections (to_subgraph, to_networkx_graph) of random windows and '
            'flags; kind, nodes, edges and data are compared with the model; non-trivial when the projection held '
            'some but not all edges')

    def questions(self, g):
        w = g.window(none=.1)
        w.pop('_pos', None)
        w.setdefault('begin', None)
        w.setdefault('end', None)
        w.update(projection_flags(g.rng, g.kind))
        return [('q', g.rng.choice(('to_subgraph', 'to_networkx_graph')), w)]

    def ask(self, w, name, kw, rec):
        edges = [e for e in w.M.edges.values() if w.M.sel(e, kw)]
        g = getattr(w.G, name)(**kw)
        rec.event('query:' + name)
        check_projection(w.M, g, edges, kw, '%s.%s(%s)' % (CLASSES[w.kind].__name__, name, args_text(kw)))
        EdgeCheck.judge(self, w, name, kw, MS([w.M.edge_norm(e) for e in edges]), rec)
        if kw.get('multigraph'):
            rec.bucket('multigraph')
        elif len({w.M.pair(e[0], e[1]) for e in edges}) < len(edges):
            rec.bucket('collapsed several')
        times = kw.get('edge_interval_data') or kw.get('edge_timestamp_data')
        if kw.get('edge_data') and any(e[3] for e in edges):
            rec.bucket('edge data')
            if times and any(k in e[3] for k in time_keys(w.M) for e in edges):
                rec.bucket('attribute named like the time')
        if times:
            rec.bucket('times')
        if kw.get('node_data') and edges:
            rec.bucket('node data')
        if not times and not kw.get('edge_data'):
            rec.bucket('neither data nor times')


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16]
