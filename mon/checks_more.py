"""C39-C43: graph attributes, cost of searching, answers as values, round trips, agreement between the classes."""
import math
import random
import warnings
from functools import total_ordering

import networkx as nx

from . import values as V
from .checks_edge import DEG, asked_again, exact_removal, exchange, node_questions, projection_flags, size_of
from .checks_global import (any_question, answer, askable, snap_answer, snap_history)
from .checks_snap import NX, build, norm, off
from .core import Check
from .execute import CLASSES, SNAP, Violation, World, ambiguous, args_text, call, norm_nx, norm_snap, pair, q_real
from .gen import Gen
from .model import IMPULSE, INTERVAL, KINDS, EdgeModel, in_window
from .values import MS, N, T, fz, show

ALL6 = KINDS + ('SG', 'SDG')


# ------------------------------------------------------------------------------------------------ C39
NAMES = ('foo', '', 'my graph', '0', 'é', 'name', 'x' * 60, 0, None, False)
GATTR = ('k', 'day', 'begin', 'data', 'u', 'end', '', 'a b', 'graph', 'default', 'tree')
GVALS = (0, None, '', 'red', 1, 1.5, False, True, (1, 2), [1], {'a': 1})


class C39(Check):
    pid = 'C39'
    technique = ('runtime monitoring: state monitor: graph attributes, name and str compared with a dictionary after '
                 'every call of a history')
    quick, thorough = 24000, 800000
    required = ('name given', 'no name', 'name set', 'name removed', 'other attributes', 'attribute set',
                'after an update', 'after a removal', 'after a query', 'two instances', 'empty name') \
        + tuple('class ' + k for k in ALL6)
    rule = ('a case is a graph made with attributes and a history of updates, questions, conversions and changes of '
            'name or attributes on it and on a second instance; after each, the attributes, name and str of both are '
            'compared with plain dictionaries; non-trivial when an update followed on a graph with attributes')

    def attrs(self, rng):
        a = {}
        if rng.random() < .6:
            a['name'] = rng.choice(NAMES)
        for _ in range(rng.choice((0, 0, 1, 2, 3))):
            a[rng.choice(GATTR)] = rng.choice(GVALS)
        return a

    def set_op(self, rng):
        which = rng.randrange(2)
        r = rng.random()
        if r < .5:
            return ('name', which, rng.choice(NAMES))
        if r < .8:
            return ('attr', which, rng.choice(GATTR + ('name',)), rng.choice(NAMES))
        return ('unset', which, rng.choice(GATTR[:2] + ('name', 'name')))

    def gen(self, rng, i, tier):
        kind = ALL6[i % 6]
        made = [self.attrs(rng), self.attrs(rng)]
        ops = []
        if kind in SNAP:
            _, hist = snap_history(rng, kind, rng.choice(('int', 'str')))
        else:
            g = Gen(rng, kind, weights=(.6, .4, 0, 0))
            hist = []
            for _ in range(g.nops):
                hist.append(g.mutate())
                if rng.random() < .4:
                    hist.append(any_question(g))
        for op in hist:
            ops.append(op)
            if rng.random() < .2:
                ops.append(self.set_op(rng))
        return {'kind': kind, 'made': made, 'ops': ops}

    def run(self, case, rec):
        kind = case['kind']
        cls = SNAP.get(kind) or CLASSES[kind]
        rec.bucket('class ' + kind)
        want = [dict(a) for a in case['made']]
        if kind in SNAP:
            graphs = [cls(**dict(a)) for a in case['made']]
            w = None
        else:
            w = World(kind, rec, dict(case['made'][0]))
            graphs = [w.G, cls(**dict(case['made'][1]))]
        rec.bucket('name given' if 'name' in want[0] else 'no name')
        if any(k != 'name' for k in want[0]):
            rec.bucket('other attributes')
        self.look(cls, graphs, want, 'after creation', rec)
        done = 'an update'
        for op in case['ops']:
            if op[0] in ('name', 'attr', 'unset'):
                G, d = graphs[op[1]], want[op[1]]
                if op[0] == 'name':
                    G.name = op[2]
                    d['name'] = op[2]
                    rec.bucket('name set')
                elif op[0] == 'attr':
                    G.graph[op[2]] = op[3]
                    d[op[2]] = op[3]
                    rec.bucket('attribute set')
                elif op[2] in d:
                    del G.graph[op[2]], d[op[2]]
                    rec.bucket('name removed')
                rec.bucket('two instances')
            elif kind in SNAP:
                self.snap(graphs[0], kind, op)
                done = 'a query' if op[0] == 'q' else 'an update'
            elif op[0] == 'q':
                if askable(w.M, op[1], op[2]):
                    answer(w.G, w.M, op[1], op[2])
                    done = 'a query'
            else:
                w.apply(op)
                done = 'a removal' if op[0].startswith('rm') else 'an update'
            rec.bucket('after ' + done)
            if want[0] and done != 'a query':
                rec.nontrivial = True
            self.look(cls, graphs, want, 'after %r' % (op,), rec)
        rec.state((kind, repr(want)))

    def snap(self, S, kind, op):
        if op[0] == 'insert':
            k = op[1]
            S.insert(build(op[2]), start=k[0], end=k[1])
            return
        sel = op[2]
        if off(sel, len(S)):
            return
        if op[0] == 'nodes':
            S.add_nodes_from(op[1], **sel, **op[3])
        elif op[0] == 'edges':
            S.add_edges_from(op[1], **sel, **op[3])
        else:
            snap_answer(S, kind, op[1], sel, op[3])
            if op[1] == 'subgraph':
                got = S.subgraph(op[3]['nbunch'], **sel)
                if dict(got.graph) != dict(S.graph) or got.name != S.name:
                    raise Violation('%s.subgraph has attributes %r, the graph has %r'
                                    % (SNAP[kind].__name__, dict(got.graph), dict(S.graph)))

    def look(self, cls, graphs, want, where, rec):
        for G, d in zip(graphs, want):
            rec.event('attributes compared')
            got = dict(G.graph)
            if got != d or {k: type(v) for k, v in got.items()} != {k: type(v) for k, v in d.items()}:
                raise Violation('%s: the attributes of the %s are %r, expected %r %s'
                                % (cls.__name__, cls.__name__, got, d, where))
            name = d.get('name', '')
            if G.name != name:
                raise Violation('%s: name is %r, expected %r %s' % (cls.__name__, G.name, name, where))
            if not name:
                rec.bucket('empty name')
            if isinstance(name, str) and str(G) != name:
                raise Violation('%s: str() is %r, expected the name %r %s' % (cls.__name__, str(G), name, where))


# ------------------------------------------------------------------------------------------------ C40
COUNT = [0]


class Tick:
    """A time that counts how often it is compared."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __lt__(self, o):
        COUNT[0] += 1
        return self.t < o.t

    def __le__(self, o):
        COUNT[0] += 1
        return self.t <= o.t

    def __gt__(self, o):
        COUNT[0] += 1
        return self.t > o.t

    def __ge__(self, o):
        COUNT[0] += 1
        return self.t >= o.t

    def __eq__(self, o):
        COUNT[0] += 1
        return isinstance(o, Tick) and self.t == o.t

    def __ne__(self, o):
        COUNT[0] += 1
        return not isinstance(o, Tick) or self.t != o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'Tick(%r)' % self.t


SHAPES = ('short', 'touch', 'long', 'nested', 'mixed', 'samebegin', 'sameend', 'point', 'fewhuge', 'random')
ORDERS = ('asc', 'desc', 'rand', 'zig', 'inward', 'blocks')
CUTS = ('fifo', 'lifo', 'rand', 'middle', 'every other', 'slide', 'outer')


HUB = 99


def shape_items(shape, n, r, ends='spread'):
    out = []
    for i in range(n):
        a = i * 10
        b = {'short': a + 5, 'touch': a + 10, 'long': a + 40, 'point': a, 'samebegin': (i + 1) * 10,
             'sameend': n * 10 + 5, 'nested': 20 * n - a}.get(shape)
        if shape == 'samebegin':
            a = 0
        if shape == 'mixed':
            b = a + r.choice((5,) * 9 + (1000,))
        if shape == 'fewhuge':
            b = a + 5 if i % 97 else n * 10
        if shape == 'random':
            a = r.randrange(n * 10)
            b = a + r.choice((0, 1, 3, 10, 30))
        u, v = i % 50, (i * 7) % 31 + 50
        if ends == 'hub' and i % 3:
            u, v = r.choice(((HUB, v), (v, HUB)))
        elif ends == 'pair' and i % 3:
            u, v = HUB, 50
        out.append((u, v, a, b))
    return list(dict.fromkeys(out))


def in_order(L, order, r):
    L = list(L)
    if order == 'desc':
        L.reverse()
    elif order == 'rand':
        r.shuffle(L)
    elif order == 'zig':
        L = [L[i // 2] if i % 2 else L[-1 - i // 2] for i in range(len(L))]
    elif order == 'inward':
        L = [L[i // 2] if i % 2 else L[-1 - i // 2] for i in range(len(L))][::-1]
    elif order == 'blocks':
        k = max(1, len(L) // 9)
        blocks = [L[i:i + k] for i in range(0, len(L), k)]
        r.shuffle(blocks)
        L = [x for b in blocks for x in b]
    return L


class C40(Check):
    pid = 'C40'
    technique = ('runtime monitoring: operation counter: times that count their comparisons, number of comparisons of '
                 'each call against a logarithmic bound')
    quick, thorough = 640, 12000
    chunk = 4
    shrink_fields = ()
    required = tuple('shape ' + s for s in SHAPES) + tuple('order ' + o for o in ORDERS) \
        + tuple('removed ' + c for c in CUTS) + ('more than 1500 edges', 'nothing found', 'few found', 'many found',
                                                 'window touches an edge', 'one-sided window',
                                                 'ends spread', 'ends hub', 'ends pair', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a large graph filled in one of six orders with intervals of one of ten shapes, thinned out in '
            'one of seven ways and filled again; the time comparisons of each addition, exact removal and windowed '
            'question are counted; non-trivial when the graph had more than 500 edges')
    assumptions = ('cost is counted in comparisons of times, not in seconds',
                   'the bound is more than twice the largest count seen on the present code')

    def gen(self, rng, i, tier):
        n = rng.choice((120, 400, 1000, 1600, 1600, 2400)) if tier == 'quick' else rng.choice((400, 1600, 3000, 6000))
        return {'kind': KINDS[i % 4], 'n': n, 'shape': SHAPES[(i // 4) % 10], 'order': ORDERS[(i // 3) % 6],
                'cut': rng.choice(CUTS), 'ends': rng.choice(('spread', 'hub', 'pair')), 'again': rng.random() < .5, 'seed': rng.randrange(10 ** 9)}

    def run(self, case, rec):
        kind, r = case['kind'], random.Random(case['seed'])
        rec.bucket('class ' + kind)
        rec.bucket('shape ' + case['shape'])
        rec.bucket('order ' + case['order'])
        self.case, self.rec, self.kind = case, rec, kind
        rec.bucket('ends ' + case['ends'])
        items = shape_items(case['shape'], case['n'], r, case['ends'])
        if kind in IMPULSE:
            items = list(dict.fromkeys((u, v, a, a) for u, v, a, b in items))
        if kind in ('IG', 'PG'):
            # one edge, whichever of its nodes is named first
            items = list({(frozenset(e[:2]),) + e[2:]: e for e in items}.values())
        items = in_order(items, case['order'], r)
        self.G, self.live, self.at, self.between = CLASSES[kind](), {}, {}, {}
        self.top = 0
        for e in items:
            self.add(e)
        self.ask_all(r, 12)
        gone = []
        n = len(items)
        cut = case['cut']
        rec.bucket('removed ' + cut)
        by_time = sorted(items, key=lambda e: (e[2], e[3]))
        if cut == 'slide':
            for j in range(n // 2):
                e = items[j]
                self.remove(e)
                self.add((e[0], e[1], e[2] + n * 10, e[3] + n * 10))
            self.ask_all(r, 8)
        else:
            gone = {'fifo': lambda: items[:n * 3 // 4], 'lifo': lambda: items[::-1][:n * 3 // 4],
                    'rand': lambda: r.sample(items, n * 2 // 3), 'middle': lambda: by_time[n // 8:n * 7 // 8],
                    'every other': lambda: by_time[::2], 'outer': lambda: by_time[:n // 3] + by_time[-(n // 3):]}[cut]()
            for j, e in enumerate(gone):
                self.remove(e)
                if j == len(gone) // 2:
                    self.ask_all(r, 4)
            self.ask_all(r, 8)
            if case['again']:
                for e in reversed(gone):
                    self.add(e)
                self.ask_all(r, 8)
        if self.top > 500:
            rec.nontrivial = True
        if self.top > 1500:
            rec.bucket('more than 1500 edges')
        rec.state((kind, case['shape'], case['order'], cut, case['n']))

    def times(self, e):
        return (Tick(e[2]), Tick(e[3])) if self.kind in INTERVAL else (Tick(e[2]),)

    def limit(self, k, what, spent, found):
        n = max(self.top, 2)
        bound = 16 * (found + 1) * math.log2(n + 2) + 60
        self.rec.event('calls counted')
        self.rec.event('comparisons', spent)
        if spent > bound:
            raise Violation('%s: %s compared times %d times in a graph that held up to %d edges (%d found); '
                            'at most %d are allowed'
                            % (CLASSES[self.kind].__name__, what, spent, n, found, int(bound)))

    def add(self, e):
        ts = self.times(e)
        c = COUNT[0]
        self.G.add_edge(e[0], e[1], *ts)
        spent = COUNT[0] - c
        self.live[e] = None
        k = (e[2], e[3])
        self.at[k] = self.at.get(k, 0) + 1
        k2 = frozenset(e[:2])
        self.between[k2] = self.between.get(k2, 0) + 1
        self.top = max(self.top, len(self.live))
        self.limit(0, 'add_edge', spent, self.at[k])

    def remove(self, e):
        a, b = Tick(e[2]), Tick(e[3])
        c = COUNT[0]
        if self.kind in INTERVAL:
            self.G.remove_edge(e[0], e[1], a, b, overlapping=False)
        else:
            self.G.remove_edge(e[0], e[1], a, b)
        spent = COUNT[0] - c
        k = (e[2], e[3])
        k2 = frozenset(e[:2])
        self.limit(0, 'remove_edge of one edge', spent, self.at[k] + self.between[k2])
        self.at[k] -= 1
        self.between[k2] -= 1
        del self.live[e]

    def ask_all(self, r, n):
        G, kind = self.G, self.kind
        hi = max((e[3] for e in self.live), default=10)
        for _ in range(n):
            t = r.choice((r.randrange(-20, hi + 40), r.choice(list(self.live))[2] if self.live else 0))
            a, b = t, t + r.choice((0, 1, 4, 5, 10, 30))
            x = r.random()
            if x < .1:
                a, b = hi + 5, hi + 50
            elif x < .3 and self.live:
                # a window that begins where an edge ends, or ends where an edge begins
                e = r.choice(list(self.live))
                a, b = (e[3], e[3] + r.choice((0, 1, 10))) if r.random() < .5 else (e[2] - r.choice((0, 1, 10)), e[2])
                self.rec.bucket('window touches an edge')
            elif x < .36:
                a, b = (hi, None) if r.random() < .5 else (None, min((e[2] for e in self.live), default=0) + 1)
                self.rec.bucket('one-sided window')
            found = sum(1 for e in self.live
                        if in_window(kind, e[2:] if kind in INTERVAL else e[2:3], a, b))
            self.rec.bucket('nothing found' if not found else 'few found' if found < 5 else 'many found')
            A, B = (None if t is None else Tick(t) for t in (a, b))
            rare = r.randrange(50)
            for what, f in (('edges(begin, end)', lambda: G.edges(begin=A, end=B)),
                            ('nodes(begin, end)', lambda: G.nodes(begin=A, end=B)),
                            ('number_of_nodes(begin, end)', lambda: G.number_of_nodes(begin=A, end=B)),
                            ('has_node(n, begin, end)', lambda: G.has_node(HUB, begin=A, end=B)),
                            ('has_node(n, begin, end)', lambda: G.has_node(rare, begin=A, end=B)),
                            ('has_node(n, begin, end)', lambda: G.has_node('absent', begin=A, end=B))):
                c = COUNT[0]
                x = f()
                spent = COUNT[0] - c
                if what.startswith('edges') and len(x) != found:
                    raise Violation('%s: edges(%r, %r) found %d edges instead of %d'
                                    % (CLASSES[kind].__name__, a, b, len(x), found))
                self.limit(0, what, spent, found)


# ------------------------------------------------------------------------------------------------ C41
def vandal_list(xs, rng):
    r = rng.random()
    if r < .3:
        xs.clear()
    elif r < .5:
        xs.reverse()
        xs.append('vandal')
    elif r < .7:
        del xs[:1]
    elif r < .85:
        xs[:] = ['vandal'] * (len(xs) + 1)
    else:
        xs.extend(list(xs))
        xs.insert(0, None)


class C41(Check):
    pid = 'C41'
    technique = ('runtime monitoring: aliasing monitor: every list ever returned is kept and looked at again after later '
                 'updates; other returned lists are vandalised and the question is asked again')
    quick, thorough = 12000, 400000
    required = ('edges', 'edges of nodes', 'edges in a window', 'unique_timestamps', 'unique_begin_timestamps',
                'unique_end_timestamps', 'degree changes', 'to_snapshots', 'snapshots get', 'snapshot numbers',
                'looked at after updates', 'vandalised', 'trained') + tuple('class ' + k for k in ALL6)
    rule = ('a case is a history in which the lists that queries return are kept; half of them are vandalised at once '
            'and the question asked again, the others must hold the same content after all later updates; '
            'non-trivial when a kept list with content was looked at after an update')

    def gen(self, rng, i, tier):
        kind = ALL6[i % 6]
        if kind in SNAP:
            _, ops = snap_history(rng, kind)
            ops = [op for op in ops if op[0] != 'q']
            out = []
            for op in ops:
                out.append(op)
                out += [('look', rng.choice(('get', 'get', 'number_of_nodes', 'order', 'size', 'has_node', 'is_directed',
                                             'is_multigraph', 'to_directed', 'to_undirected', 'degree', 'statistic')),
                         rng.random() < .5, rng.randrange(10 ** 9)) for _ in range(2)]
            return {'kind': kind, 'ops': out}
        train = rng.random() < .12
        g = Gen(rng, kind, weights=(.4, .5, .1, 0), times=None if not train else ('small', 'int', 'dyadic', 'float'))
        ops = []
        at = rng.randrange(g.nops)
        for j in range(g.nops):
            ops.append(g.mutate())
            if train and j == at:
                ops.append(('train', rng.randrange(10 ** 6), 3))
            if rng.random() < .5:
                q = self.question(g)
                if q:
                    ops.append(('look', q, rng.random() < .5, rng.randrange(10 ** 9)))
            if rng.random() < .08:
                ops += exchange(g)
        return {'kind': kind, 'ops': ops}

    def question(self, g):
        rng, kind = g.rng, g.kind
        r = rng.random()
        if r < .25:
            kw = g.data_kw()
            if kw.get('data') is True:
                kw = {}
            return ('edges', kw)
        if r < .6:
            (q,) = node_questions(g, rng.random() < .5)
            return ('edges', q[2])
        if r < .7:
            return ('edges', g.window(none=0))
        if r < .85 and kind in INTERVAL:
            kw = {k: v for k, v in g.window(none=.4).items() if k in ('begin', 'end')}
            return (rng.choice(('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps')), kw)
        e = g.edge()
        if r < .95 and e:
            return (rng.choice(DEG[kind]), {'node': rng.choice(e[:2]), 'delta': True})
        if e and g.times.style in ('small', 'zero', 'int', 'dyadic'):
            return ('to_snapshots', {'number_of_snapshots': 4})
        return None

    def run(self, case, rec):
        kind = case['kind']
        rec.bucket('class ' + kind)
        (self.snapshots if kind in SNAP else self.edge_list)(case, rec)

    def freeze(self, xs):
        return [norm_nx(x) if isinstance(x, nx.Graph) else x for x in xs]

    def kept(self, lists, rec, where):
        for what, xs, frozen, age in lists:
            rec.event('kept list looked at')
            if age:
                rec.bucket('looked at after updates')
                if frozen:
                    rec.nontrivial = True
            now = self.freeze(xs)
            if now != frozen or list(map(type, now)) != list(map(type, frozen)):
                raise Violation('the list that %s had returned changed from %s to %s %s'
                                % (what, show(tuple(map(repr, frozen))), show(tuple(map(repr, now))), where))

    def edge_list(self, case, rec):
        kind = case['kind']
        w = World(kind, rec)
        G, M = w.G, w.M
        lists = []
        for op in case['ops']:
            if op[0] == 'train':
                if M.edges:
                    w.apply(op)
                    rec.bucket('trained')
                continue
            if op[0] != 'look':
                w.apply(op)
                lists = [(a, b, c, True) for a, b, c, _ in lists]
                self.kept(lists, rec, 'after %r' % (op,))
                continue
            _, (name, kw), vandal, seed = op
            if name == 'edges' and ambiguous(M, name, kw):
                continue
            if name == 'to_snapshots' and not askable(M, name, kw):
                continue
            if kw.get('delta') and not askable(M, 'delta', kw):
                continue
            if kw.get('node') is not None and kw['node'] not in M.nodes:
                continue
            what = '%s.%s(%s)' % (CLASSES[kind].__name__, name, args_text(kw))
            xs = self.get(G, kind, name, kw)
            rec.bucket(name if name != 'edges' and not kw.get('delta') else 'degree changes' if kw.get('delta') else
                       'edges of nodes' if 'u' in kw or 'v' in kw else
                       'edges in a window' if M.windowed(kw) else 'edges')
            if not isinstance(xs, list):
                raise Violation('%s returned %r, not a list' % (what, xs))
            frozen = self.freeze(xs)
            if vandal:
                vandal_list(xs, random.Random(seed))
                rec.bucket('vandalised')
                again = self.freeze(self.get(G, kind, name, kw))
                if MS(map(repr, again)) != MS(map(repr, frozen)):
                    raise Violation('%s answered %r; after the caller changed that list it answers %r'
                                    % (what, frozen, again))
                w.ask('state', {}, 'after the caller changed the list returned by %s: ' % what)
            else:
                lists.append((what, xs, frozen, False))
                lists = lists[-12:]
        rec.state((kind, frozenset(M.edges)))

    def get(self, G, kind, name, kw):
        if name == 'edges':
            return call(G, kind, 'edges', kw)
        return getattr(G, name)(**kw)

    def snapshots(self, case, rec):
        kind = case['kind']
        S = SNAP[kind]()
        lists = []
        for op in case['ops']:
            if op[0] == 'look':
                m, r = op[1], random.Random(op[3])
                sel = {} if not len(S) or r.random() < .5 else {'sbunch': [r.randrange(len(S))]} if r.random() < .5 else \
                    {'start': r.choice((-3, 0, 1, 2))}
                f = {'has_node': lambda: S.has_node(1, **sel),
                     'statistic': lambda: S.compute_network_statistic(nx.number_of_edges, **sel)}.get(
                         m, lambda: getattr(S, m)(**sel))
                xs = f()
                what = '%s.%s(%s)' % (SNAP[kind].__name__, m, args_text(sel))
                if not isinstance(xs, list):
                    raise Violation('%s returned %r, not a list' % (what, xs))
                rec.bucket('snapshots get' if m == 'get' else 'snapshot numbers')
                ids = [id(x) if isinstance(x, nx.Graph) else dict(x) if m == 'degree' else x for x in xs]
                before = self.view(S)
                if op[2]:
                    vandal_list(xs, r)
                    rec.bucket('vandalised')
                    if self.view(S) != before:
                        raise Violation('changing the list returned by %s changed the snapshot graph' % what)
                    again = self.freeze(f())
                    if len(again) != len(ids):
                        raise Violation('%s returned %d items, and %d after the caller changed that list'
                                        % (what, len(ids), len(again)))
                else:
                    lists.append([what, xs, ids])
                    lists = lists[-12:]
                continue
            if op[0] == 'insert':
                S.insert(build(op[2]), start=op[1][0], end=op[1][1])
            else:
                sel = op[2]
                if off(sel, len(S)):
                    continue
                if op[0] == 'nodes':
                    S.add_nodes_from(op[1], **sel, **op[3])
                else:
                    S.add_edges_from(op[1], **sel, **op[3])
            for what, xs, ids in lists:          # the same items (graphs are live, lists are not)
                rec.event('kept list looked at')
                rec.bucket('looked at after updates')
                if ids:
                    rec.nontrivial = True
                now = [id(x) if isinstance(x, nx.Graph) else x for x in xs]
                if len(now) != len(ids) or any(a != b for a, b in zip(now, ids) if not isinstance(b, dict)):
                    raise Violation('the list that %s had returned holds other items after %r' % (what, op[0]))
        rec.state((kind, tuple(S.snapshots.keys())))

    def view(self, S):
        return (norm_snap(S), len(S), tuple(id(g) for g in S))


# ------------------------------------------------------------------------------------------------ C42
def merged(spans):
    """Union of intervals as maximal runs."""
    out = []
    for a, b in sorted(spans):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


class C42(Check):
    pid = 'C42'
    technique = ('runtime monitoring: round-trip monitor: the graph that comes back from another representation is '
                 'compared edge by edge with the model of the source')
    quick, thorough = 24000, 800000
    WAYS = ('networkx', 'networkx window', 'slices', 'snapshot graph')
    required = WAYS + ('edge data', 'node data', 'several edges of a pair', 'self-loop', 'runs joined', 'negative begin',
                       'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a history and one round trip: through a networkx multigraph (whole or one window), through '
            'slices with their times, or through a snapshot graph with unit periods; non-trivial when edges came back')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        ways = self.WAYS if kind in INTERVAL else self.WAYS[:3]
        way = ways[(i // 4) % len(ways)]
        times = None
        if way == 'slices':
            times = ('small', 'zero', 'int', 'dyadic', 'wide')
        if way == 'snapshot graph':
            times = ('small', 'zero', 'int')
        g = Gen(rng, kind, weights=(.35, .5, .15, 0), times=times, zero=0 if way == 'snapshot graph' else None)
        ops = [g.mutate() for _ in range(g.nops)]
        if way == 'snapshot graph':        # instants have no period of their own
            ops = [op for op in ops if op[0] != 'edge' or op[3][0] < op[3][1]]
            ops = [op for op in ops if op[0] != 'edges' or all(e[2] < e[3] for e in op[1])]
        win = g.window(none=0, inclusive=0)
        return {'kind': kind, 'way': way, 'ops': ops, 'window': {k: v for k, v in win.items() if k in ('begin', 'end')},
                'n': rng.choice((2, 4, 8)), 'flags': [rng.random() < .6, rng.random() < .6]}

    def run(self, case, rec):
        kind, way = case['kind'], case['way']
        rec.bucket('class ' + kind)
        w = World(kind, rec)
        for op in case['ops']:
            w.apply(op)
        G, M = w.G, w.M
        if not M.edges:
            return
        rec.bucket(way)
        if any(e[3] for e in M.edges.values()):
            rec.bucket('edge data')
        if any(M.nodes.values()):
            rec.bucket('node data')
        if len({k[0] for k in M.edges}) < len(M.edges):
            rec.bucket('several edges of a pair')
        if any(e[0] == e[1] for e in M.edges.values()):
            rec.bucket('self-loop')
        cls = CLASSES[kind]
        flag = 'edge_interval_data' if kind in INTERVAL else 'edge_timestamp_data'
        what = '%s through %s' % (cls.__name__, way)
        if way.startswith('networkx'):
            win = case['window'] if way.endswith('window') else {}
            kept = [e for e in M.edges.values() if M.sel(e, win)]
            g = G.to_networkx_graph(win.get('begin'), win.get('end'), multigraph=True, edge_data=case['flags'][0],
                                    node_data=case['flags'][1], **{flag: True})
            H = cls.from_networkx_graph(g)
            HM = EdgeModel(kind)
            for e in kept:
                HM.add_edge(e[0], e[1], e[2], e[3] if case['flags'][0] else {})
            self.same(what, cls, H, HM, rec)       # (node data is not taken over by from_networkx_graph)
            if kept:
                rec.nontrivial = True
                got = q_real(H, HM, 'edges', win)
                if got != HM.q_edges(win) or got != HM.q_edges({}):
                    raise Violation('%s: the window %r of what came back holds %s, it should hold everything'
                                    % (what, win, show(got)))
        elif way == 'slices':
            kw = {'number_of_snapshots': case['n']}
            if not askable(M, 'to_snapshots', kw):
                return
            parts = G.to_snapshots(multigraph=True, edge_data=True, node_data=True, **{flag: True}, **kw)
            H = cls()
            HM = EdgeModel(kind)
            for g in parts:
                X = cls.from_networkx_graph(g)
                for e, d in X.edges(data=True):
                    H.add_edge(*e, **d)
                for n, d in g.nodes(data=True):
                    H.add_node(n, **d)
            for e in M.edges.values():
                HM.add_edge(*e)
                for n in e[:2]:
                    HM.add_node(n, M.nodes[n])
            rec.nontrivial = True
            self.same(what, cls, H, HM, rec)
        else:
            lo, hi = min(e[2][0] for e in M.edges.values()), max(e[2][1] for e in M.edges.values())
            if hi - lo > 60:
                return
            for t in range(lo, hi):            # a boundary at every integer
                w.apply(('edge', 'filler', 'at %d' % t, (t, t + 1), {}))
            if lo < 0:
                rec.bucket('negative begin')
            rec.nontrivial = True
            S = G.to_snapshot_graph()
            H = cls.from_snapshot_graph(S, begin=lo, period=1)
            HM = EdgeModel(kind)
            spans = {}
            for (p, t), e in M.edges.items():
                spans.setdefault(p, [e, []])[1].append(t)
            for p, (e, ts) in spans.items():
                runs = merged(ts)
                if len(runs) < len(ts):
                    rec.bucket('runs joined')
                for t in runs:
                    HM.add_edge(e[0], e[1], t, {})
            self.same(what, cls, H, HM, rec, nodes=False)
        rec.state((kind, way, frozenset(M.edges)))

    def same(self, what, cls, H, HM, rec, nodes=True):
        rec.event('round trip compared')
        if type(H) is not cls:
            raise Violation('%s gave a %s' % (what, type(H).__name__))
        got, want = q_real(H, HM, 'edges', {'data': nodes}), HM.q_edges({'data': nodes})
        if got != want:
            raise Violation('%s: edges that came back are %s, expected %s' % (what, show(got), show(want)))
        if nodes:
            got, want = q_real(H, HM, 'nodes', {'data': True}), HM.q_nodes({'data': True})
            if got != want:
                raise Violation('%s: nodes that came back are %s, expected %s' % (what, show(got), show(want)))


# ------------------------------------------------------------------------------------------------ C43
def exact(t):
    """Times for which the bounds of slices are computed without rounding."""
    return isinstance(t, (int, float)) and abs(t) < 2 ** 40 and t * 4 == int(t * 4)


class C43(Check):
    pid = 'C43'
    technique = ('runtime monitoring: twin-execution monitor: one history runs on the interval, impulse, directed and '
                 'undirected class at once, their answers are compared with each other')
    quick, thorough = 16000, 520000
    required = ('instants', 'intervals', 'edges', 'edges of nodes', 'has_edge', 'nodes', 'number_of_nodes', 'has_node',
                'degree', 'degree with a loop', 'mean degree', 'interval', 'to_snapshots', 'projection',
                'removal that removed', 'answer: some')
    rule = ('a case is one history driven into two or four classes (edges at instants: all four; intervals: the two '
            'interval classes; digraphs get each pair in one fixed orientation) with default windows; non-trivial '
            'when an answer was neither empty nor everything')
    assumptions = ('inclusive=(True, False) is passed where the class default differs',)

    def gen(self, rng, i, tier):
        mode = ('instants', 'intervals')[i % 2]
        g = Gen(rng, 'PG' if mode == 'instants' else 'IG', weights=(.4, .45, .15, 0))
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .3:
                ops.append(self.question(g))
        ops += [self.question(g) for _ in range(6)]
        return {'mode': mode, 'ops': ops}

    def question(self, g):
        rng = g.rng
        w = {k: v for k, v in g.window(none=.25, inclusive=0).items() if k in ('begin', 'end')}
        r = rng.random()
        e = g.edge()
        if r < .2:
            return ('q', 'edges', dict(w, data=rng.choice((False, True))))
        if r < .5:
            kw = dict(w)
            for p in rng.choice((('u',), ('v',), ('u', 'v'), ('u', 'v'))):
                x = g.some_node()
                if e is not None and rng.random() < .7:
                    x = e[0 if p == 'u' else 1]
                kw[p] = [x] if rng.random() < .5 else [x, g.some_node()]
            return ('q', 'edges', kw)
        if r < .6:
            u, v = (e[0], e[1]) if e is not None and rng.random() < .8 else (g.some_node(), g.some_node())
            return ('q', 'has_edge', dict(w, u=u, v=v))
        if r < .7:
            return ('q', 'nodes', dict(w))
        if r < .75:
            return ('q', 'number_of_nodes', dict(w))
        if r < .8:
            return ('q', 'has_node', dict(w, n=g.some_node()))
        if r < .88:
            # None: the mean over the nodes of the window
            return ('q', 'degree', dict(w, node=g.some_node() if rng.random() < .6 else None))
        if r < .91:
            return ('q', 'interval', {})
        if r < .96:
            return ('q', 'projection', dict(w, multigraph=rng.random() < .5, node_data=rng.random() < .5))
        return ('q', 'to_snapshots', {'number_of_snapshots': rng.choice((2, 4))})

    def run(self, case, rec):
        kinds = KINDS if case['mode'] == 'instants' else INTERVAL
        rec.bucket(case['mode'])
        graphs = {k: CLASSES[k]() for k in kinds}
        M = EdgeModel('PG' if case['mode'] == 'instants' else 'IG')       # decides orientation and what is in the domain
        way = {}
        for op in case['ops']:
            if op[0] == 'q':
                self.question_all(case, graphs, M, way, op, rec)
            else:
                self.update(case, graphs, M, way, op, rec)
        rec.state((case['mode'], frozenset(M.edges)))

    def oriented(self, way, u, v):
        p = frozenset((N(u), N(v)))
        return way.setdefault(p, (u, v))

    def update(self, case, graphs, M, way, op, rec):
        name = op[0]
        before = len(M.edges)
        if name == 'edges':
            for e in op[1]:
                self.update(case, graphs, M, way, ('edge', e[0], e[1], tuple(e[2:]), dict(op[2])), rec)
            return
        if name == 'node':
            M.add_node(op[1], op[2])
        elif name == 'edge':
            M.add_edge(*op[1:])
        elif name == 'rm_edge':
            M.remove_edge(op[1], op[2], dict(op[3], inclusive=(True, False)))
        elif name == 'rm_node':
            M.remove_node(op[1], dict(op[2], inclusive=(True, False)))
        for k, G in graphs.items():
            if name == 'node':
                G.add_node(op[1], **op[2])
            elif name == 'nodes':
                G.add_nodes_from(list(op[1]), **op[2])
                continue
            elif name == 'edge':
                u, v = self.oriented(way, op[1], op[2]) if k in ('IDG', 'PDG') else (op[1], op[2])
                t = op[3]
                if case['mode'] == 'instants' and k in INTERVAL:
                    t = (t[0], t[0])
                G.add_edge(u, v, *t, **op[4])
            elif name == 'rm_edge':
                u, v = self.oriented(way, op[1], op[2]) if k in ('IDG', 'PDG') else (op[1], op[2])
                kw = {a: b for a, b in op[3].items() if a in ('begin', 'end', 'overlapping')}
                if k in IMPULSE:
                    kw['inclusive'] = (True, False)
                G.remove_edge(u, v, **kw)
            else:
                kw = {a: b for a, b in op[2].items() if a in ('begin', 'end')}
                if k in IMPULSE:
                    kw['inclusive'] = (True, False)
                G.remove_node(op[1], **kw)
        if name == 'nodes':
            for x in op[1]:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                    M.add_node(x[0], {**op[2], **x[1]})
                else:
                    M.add_node(x, op[2])
        if len(M.edges) < before:
            rec.bucket('removal that removed')

    def edge(self, k, e):
        """An edge of any class in common form: pair and begin and end."""
        if not isinstance(e, tuple) or len(e) != (4 if k in INTERVAL else 3):
            raise Violation('malformed edge in an answer of %s: %r' % (CLASSES[k].__name__, e))
        return (pair(False, e[0], e[1]), T(e[2]), T(e[-1]))

    def one(self, case, k, G, name, kw, rec):
        directed = k in ('IDG', 'PDG')
        inc = {'inclusive': (True, False)} if k in IMPULSE else {}
        if name == 'edges':
            data = kw.get('data', False)
            got = [(e[0], e[1]) if data else (e, None) for e in G.edges(**kw, **inc)]
            if directed and ('u' in kw or 'v' in kw):
                swapped = {{'u': 'v', 'v': 'u'}.get(p, p): x for p, x in kw.items()}
                got = list({e: (e, d) for e, d in got + [(e, None) for e in G.edges(**swapped, **inc)]}.values())
            return MS([(self.edge(k, e), fz(d)) for e, d in got])
        if name == 'has_edge':
            u, v = kw['u'], kw['v']
            w = {a: b for a, b in kw.items() if a in ('begin', 'end')}
            r = bool(G.has_edge(u, v, **w, **inc))
            return r or directed and bool(G.has_edge(v, u, **w, **inc))
        if name == 'nodes':
            return MS([(N(n), fz(d)) for n, d in G.nodes(data=True, **kw, **inc)])
        if name == 'interval':
            return tuple(T(t) for t in G.interval())
        if name == 'projection':
            kw = dict(kw)
            g = G.to_subgraph(kw.pop('begin', None), kw.pop('end', None), **kw, **inc)
            if g.is_directed() != directed:
                raise Violation('%s.to_subgraph gave a %s' % (CLASSES[k].__name__, type(g).__name__))
            return self.undirected(g)
        if name == 'to_snapshots':
            return tuple(self.undirected(g) for g in G.to_snapshots(**kw))
        if name == 'degree' and kw['node'] is None:
            return round(G.degree(**kw, **inc), 9)
        return getattr(G, name)(**kw, **inc)

    def undirected(self, g):
        return (MS([(N(n), fz(d)) for n, d in g.nodes(data=True)]), MS([pair(False, u, v) for u, v in g.edges()]))

    def question_all(self, case, graphs, M, way, op, rec):
        _, name, kw = op
        if name in ('interval', 'projection', 'to_snapshots') and not M.edges:
            return
        if name == 'to_snapshots' and not (askable(M, name, kw) and all(map(exact, M.event_times()))):
            return
        if name == 'degree':
            node = kw['node']
            w = {a: b for a, b in kw.items() if a != 'node'}
            if node not in M.nodes if node is not None else not M.q_number_of_nodes(dict(w, inclusive=(True, False))):
                return
            if any(e[0] == e[1] and node in (e[0], None) for e in M.edges.values()):
                # a loop leaves and enters its node, so that directed classes count it twice
                rec.bucket('degree with a loop')
                for ks in (('PG', 'IG'), ('PDG', 'IDG')):
                    self.compare(case, {k: graphs[k] for k in ks if k in graphs}, M, name, kw, rec)
                return
            if node is None:
                rec.bucket('mean degree')
        if ambiguous(M, name, kw):
            return
        self.compare(case, graphs, M, name, kw, rec)

    def compare(self, case, graphs, M, name, kw, rec):
        first = None
        for k, G in graphs.items():
            a = self.one(case, k, G, name, kw, rec)
            if first is None:
                first = (k, a)
                size = size_of(a)
                if name in ('edges', 'nodes') and 0 < size < len(M.edges if name == 'edges' else M.nodes):
                    rec.nontrivial = True
                    rec.bucket('answer: some')
                rec.bucket('edges of nodes' if 'u' in kw and name == 'edges' else name)
                continue
            rec.event('answers of two classes compared')
            if a != first[1]:
                raise Violation('%s(%s): %s answers %s, %s with the same edges answers %s'
                                % (name, args_text(kw), CLASSES[first[0]].__name__, show(first[1]),
                                   CLASSES[k].__name__, show(a)))


CHECKS = [C39, C40, C41, C42, C43]
