"""C49-C51: subclasses, live attribute dictionaries, equal labels and times of other types."""
import os
import random
from fractions import Fraction

import networkx as nx
import numpy as np

from . import values as V
from .checks_conv import scratch
from .checks_edge import check_projection, views
from .checks_global import answer, any_question, askable, map_op, snap_answer, snap_history
from .checks_snap import build, off
from .core import Check
from .execute import CLASSES, SNAP, Violation, World, args_text, norm_edge, norm_snap, q_real
from .gen import EXACT, Gen
from .model import INTERVAL, KINDS
from .values import MS, fz, show

MODELLED = ('edges', 'has_edge', 'nodes', 'has_node', 'number_of_nodes', 'degree', 'delta', 'interval', 'uniq', 'state', 'len')


def snap_step(S, kind, op):
    """One step of a snapshot history; its answer, if it is a question."""
    if op[0] == 'insert':
        k = op[1]
        S.insert(build(op[2]), **({'time': k[0]} if k[0] == k[1] else {'start': k[0], 'end': k[1]}))
    elif off(op[2], len(S)):
        return None
    elif op[0] == 'nodes':
        S.add_nodes_from(op[1], **op[2], **op[3])
    elif op[0] == 'edges':
        S.add_edges_from(op[1], **op[2], **op[3])
    else:
        return snap_answer(S, kind, op[1], op[2], op[3])
    return None


# ------------------------------------------------------------------------------------------------ C49
def bare(base):
    class Mine(base):
        pass
    return Mine


def equipped(base):
    class Mine(base):
        def __init__(self, **attr):
            super().__init__(**attr)
            self.extra = ['mine']
    return Mine


def twice(base):
    class Between(base):
        kind_of = 'between'

        def more(self):
            return self.kind_of

    class Mine(Between):
        def __init__(self, **attr):
            self.extra = ['mine']
            super().__init__(**attr)
    return Mine


MAKERS = {'bare': bare, 'equipped': equipped, 'twice': twice}


class C49(Check):
    pid = 'C49'
    technique = ('runtime monitoring: online monitor: a subclass instance driven in lockstep with the model, class methods '
                 'called on the subclass and compared with the base class')
    quick, thorough = 6000, 180000
    required = ('bare', 'equipped', 'twice', 'from networkx', 'from snapshots', 'from text', 'snapshot subgraph',
                'snapshot text', 'from nothing', 'class IG', 'class IDG', 'class PG', 'class PDG', 'class SG', 'class SDG')
    rule = ('a case is a history with questions on an instance of a subclass, compared with the model or an instance of '
            'the class, and every class method called on the subclass; non-trivial when the graph had edges')
    shrink_fields = ('ops',)

    def gen(self, rng, i, tier):
        make = tuple(MAKERS)[i // 6 % 3]
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels, ops = snap_history(rng, kind, rng.choice((None, 'int')))
            return {'kind': kind, 'ops': ops, 'make': make}
        kind = KINDS[i % 4]
        text = rng.random() < .4
        g = Gen(rng, kind, weights=(.45, .5, .05, 0), **({'label_style': 'int', 'times': ('small', 'dyadic'), 'attr_keys': ['w', 'k'],
                                                          'attr_vals': [1, 2.5, 'x']} if text else {}))
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .4:
                ops.append(any_question(g))
        return {'kind': kind, 'ops': ops, 'make': make, 'text': text}

    def made(self, x, Sub, how, extra):
        if type(x) is not Sub:
            raise Violation('%s called on a subclass of %s gives a %s'
                            % (how, Sub.__mro__[1].__name__, type(x).__mro__[0].__name__ if type(x) is not Sub.__mro__[1] else
                               'plain ' + type(x).__name__))
        if extra and getattr(x, 'extra', None) != ['mine']:
            raise Violation('%s called on a subclass does not run its constructor' % how)
        return x

    def run(self, case, rec):
        kind, make = case['kind'], case['make']
        rec.bucket('class ' + kind)
        rec.bucket(make)
        extra = make != 'bare'
        if kind in SNAP:
            return self.snapshots(case, rec, extra)
        base = CLASSES[kind]
        Sub = MAKERS[make](base)
        w, plain = World(kind, rec), World(kind, rec)
        w.G = Sub(name='s')
        for op in case['ops']:
            if op[0] != 'q':
                w.apply(op)
                plain.apply(op)
                continue
            _, name, kw = op
            if not askable(w.M, name, kw):
                continue
            a, b = answer(w.G, w.M, name, kw), answer(plain.G, plain.M, name, kw)
            rec.event('twin comparison')
            if a != b:
                raise Violation('a subclass of %s answers %s(%s) with %s, the class itself with %s'
                                % (base.__name__, name, args_text(kw), show(a), show(b)))
            if name in MODELLED:
                w.ask(name, kw, 'subclass: ')
        if w.G.name != 's' or str(w.G) != 's':
            raise Violation('name of a subclass instance is %r, str %r' % (w.G.name, str(w.G)))
        views(w, 'subclass: ', len(w.M.edges) < 20)
        self.nothing(kind, base, Sub, extra, rec)
        if not w.M.edges:
            return
        rec.nontrivial = True
        flag = 'edge_interval_data' if w.M.interval_kind else 'edge_timestamp_data'
        X = w.G.to_networkx_graph(None, None, multigraph=True, edge_data=True, **{flag: True})
        if type(X) is not (nx.MultiDiGraph if w.M.directed else nx.MultiGraph):
            raise Violation('to_networkx_graph of a subclass gives a %s' % type(X).__name__)
        want = q_real(base.from_networkx_graph(X), w.M, 'state', {})
        H = self.made(Sub.from_networkx_graph(X), Sub, 'from_networkx_graph', extra)
        if q_real(H, w.M, 'state', {}) != want:
            raise Violation('from_networkx_graph of a subclass: %s, of the class %s' % (show(q_real(H, w.M, 'state', {})), show(want)))
        H = self.made(w.G.from_networkx_graph(X), Sub, 'from_networkx_graph', extra)
        rec.bucket('from networkx')
        S = w.G.to_snapshot_graph()
        if type(S) not in (SNAP['SG'], SNAP['SDG']):
            raise Violation('to_snapshot_graph of a subclass gives a %s' % type(S).__name__)
        if norm_snap(S) != norm_snap(plain.G.to_snapshot_graph()):
            raise Violation('to_snapshot_graph of a subclass: %s' % show(norm_snap(S)))
        if kind in INTERVAL:
            H = self.made(Sub.from_snapshot_graph(S), Sub, 'from_snapshot_graph', extra)
            want = q_real(base.from_snapshot_graph(S), w.M, 'state', {})
            if q_real(H, w.M, 'state', {}) != want:
                raise Violation('from_snapshot_graph of a subclass: %s' % show(q_real(H, w.M, 'state', {})))
            rec.bucket('from snapshots')
        if case.get('text'):
            with scratch() as d:
                p, q = os.path.join(d, 'a.txt'), os.path.join(d, 'b.txt')
                w.G.save_to_txt(p)
                plain.G.save_to_txt(q)
                H = self.made(Sub.load_from_txt(p), Sub, 'load_from_txt', extra)
                K = base.load_from_txt(q)
            if q_real(H, w.M, 'state', {}) != q_real(K, w.M, 'state', {}):
                raise Violation('saving and loading a subclass: %s' % show(q_real(H, w.M, 'state', {})))
            rec.bucket('from text')
        rec.state((kind, make, frozenset(w.M.edges)))

    def nothing(self, kind, base, Sub, extra, rec):
        """The class methods given nothing to read."""
        for X in (nx.Graph(), nx.MultiDiGraph()):
            H = self.made(Sub.from_networkx_graph(X), Sub, 'from_networkx_graph of an empty graph', extra)
            if len(H) or H.edges():
                raise Violation('from_networkx_graph of an empty graph gives nodes %r, edges %r' % (list(H.nodes()), H.edges()))
        if kind in INTERVAL:
            for S in (SNAP['SG'](), SNAP['SDG']()):
                self.made(Sub.from_snapshot_graph(S), Sub, 'from_snapshot_graph of an empty graph', extra)
        with scratch() as d:
            p = os.path.join(d, 'e.txt')
            open(p, 'w').close()
            self.made(Sub.load_from_txt(p), Sub, 'load_from_txt of an empty file', extra)
        rec.bucket('from nothing')

    def snapshots(self, case, rec, extra):
        kind = case['kind']
        base = SNAP[kind]
        Sub = MAKERS[case['make']](base)
        S, P = Sub(name='s'), base(name='s')
        for op in case['ops']:
            a, b = snap_step(S, kind, op), snap_step(P, kind, op)
            rec.event('twin comparison')
            if a != b or norm_snap(S) != norm_snap(P):
                raise Violation('a subclass of %s: %r gave %s and left %s, the class itself %s and %s'
                                % (base.__name__, op, show(a), show(norm_snap(S)), show(b), show(norm_snap(P))))
        with scratch() as d:
            p = os.path.join(d, 'e.txt')
            open(p, 'w').close()
            self.made(Sub.load_from_txt(p), Sub, 'load_from_txt of an empty file', extra)
        if len(S):
            rec.nontrivial = True
            nodes = list(S.get()[0])[:2]
            T = self.made(S.subgraph([]), Sub, 'subgraph of no nodes', extra)
            if norm_snap(T) != norm_snap(P.subgraph([])):
                raise Violation('subgraph of no nodes of a subclass: %s' % show(norm_snap(T)))
            for sel in ({}, {'sbunch': [0]}):
                T = self.made(S.subgraph(nodes, **sel), Sub, 'subgraph', extra)
                if norm_snap(T) != norm_snap(P.subgraph(nodes, **sel)):
                    raise Violation('subgraph of a subclass: %s' % show(norm_snap(T)))
            rec.bucket('snapshot subgraph')
            if all(len(g) for g in S) and not any(g.is_multigraph() for g in S):
                with scratch() as d:
                    p = os.path.join(d, 'a.txt')
                    for g in S:
                        for *_, a in g.edges(data=True):
                            a.pop('weight', None)
                    S.save_to_txt(p)
                    T = self.made(Sub.load_from_txt(p), Sub, 'load_from_txt', extra)
                    if norm_snap(T) != norm_snap(base.load_from_txt(p)):
                        raise Violation('load_from_txt of a subclass: %s' % show(norm_snap(T)))
                rec.bucket('snapshot text')


# ------------------------------------------------------------------------------------------------ C50
class C50(Check):
    pid = 'C50'
    technique = ('runtime monitoring: lockstep model: attribute dictionaries taken from answers are changed, kept across later '
                 'updates and compared with the model at every step')
    quick, thorough = 9000, 270000
    ROUTES = ('listing', 'by first end', 'by second end', 'by both ends', 'by window', 'node listing', 'node window', 'trained')
    required = ROUTES + ('changed', 'cleared', 'kept across an update of the item', 'changed after removal',
                         'changed after the item was added again', 'projection', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a history in which attribute dictionaries reported by edges and nodes are changed, at once or after '
            'further updates; non-trivial when a change to a present item was observed through the other questions')
    shrink_fields = ('ops',)

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.45, .5, .05, 0), attr_p=.5, times=V.TIME_STYLES,
                mix={'edge': 30, 'edges': 4, 'again': 16, 'readd': 10, 'node': 8, 'nodes': 3, 'rm_edge': 14, 'rm_node': 6})
        ops = []
        at = rng.randrange(g.nops) if rng.random() < .15 else -1
        for j in range(g.nops):
            ops.append(g.mutate())
            if j == at:
                ops.append(('train', rng.randrange(10 ** 6), 3))
            while rng.random() < .45:
                ops.append(('touch', rng.choice(('now', 'now', 'later', 'old', 'old')), rng.randrange(10 ** 9)))
        return {'kind': kind, 'ops': ops}

    def run(self, case, rec):
        kind = case['kind']
        rec.bucket('class ' + kind)
        w = World(kind, rec)
        held = []
        trained = False
        for op in case['ops']:
            if op[0] != 'touch':
                w.apply(op)
                trained = trained or (op[0] == 'train' and bool(w.M.edges))
                for h in held:
                    self.follow(w, h, rec, 'after %r' % (op,))
                continue
            rng = random.Random(op[2])
            if op[1] == 'old':
                if held:
                    h = held[rng.randrange(len(held))]
                    self.change(w, h, rng, rec)
                continue
            h = self.take(w, rng, rec, trained)
            if h is None:
                continue
            if op[1] == 'now':
                self.change(w, h, rng, rec)
            held.append(h)
            del held[:-8]
        views(w, 'after changes to attribute dictionaries: ', len(w.M.edges) < 25)
        if w.M.edges:
            rec.bucket('projection')
            tk = 'edge_interval_data' if w.M.interval_kind else 'edge_timestamp_data'
            for kw in ({tk: True}, {'multigraph': True, tk: True}, {'edge_data': True, tk: True}, {'edge_data': True},
                       {'multigraph': True, 'edge_data': True, tk: True}, {'multigraph': True, 'edge_data': True}):
                kw['node_data'] = True
                check_projection(w.M, w.G.to_networkx_graph(begin=None, end=None, **kw), list(w.M.edges.values()), kw,
                                 'after changes to attribute dictionaries: to_networkx_graph(%s)' % args_text(kw))
        rec.state((kind, w.M.q_state()))

    def take(self, w, rng, rec, trained):
        """A dictionary out of an answer: [dictionary, key in the model, the model's dictionary]."""
        G, M = w.G, w.M
        if M.nodes and (not M.edges or rng.random() < .3):
            n = rng.choice(list(M.nodes))
            es = [e for e in M.edges.values() if M.touches(e, n)]
            if es and rng.random() < .5:
                t = rng.choice(es)[2][0]
                ans = G.nodes(begin=t, end=t, data=True)
                rec.bucket('node window')
            else:
                ans = G.nodes(data=True)
                rec.bucket('node listing')
            for x, d in ans:
                if x == n:
                    return self.follow(w, [d, n, M.nodes[n], 'node'], rec, 'in the answer')
            raise Violation('node %r is not in nodes(data=True)' % (n,))
        if not M.edges:
            return None
        e = rng.choice(list(M.edges.values()))
        route = rng.choice(self.ROUTES[:5] + ('by window', 'by window'))
        kw = {'data': True}
        if route != 'listing' and route != 'by window':
            a, b = ('u', 'v') if M.directed or rng.random() < .5 else ('v', 'u')
            kw.update({'by first end': {a: e[0]}, 'by second end': {b: e[1]}, 'by both ends': {a: e[0], b: e[1]}}[route])
        if route == 'by window' or rng.random() < .3:
            t = e[2][0]
            kw.update(begin=t, end=t)
            route = 'by window'
            if ('u' in kw or 'v' in kw) and trained:
                rec.bucket('trained')
            elif trained and rng.random() < .7:
                kw['u'] = e[0]
                rec.bucket('trained')
        rec.bucket(route)
        for x, d in G.edges(**kw):
            if norm_edge(M, x) == M.edge_norm(e):
                return self.follow(w, [d, M.key(*e[:3]), e[3], 'edge'], rec, 'in the answer to edges(%s)' % args_text(kw))
        raise Violation('edge %r is not in edges(%s)' % (e[:3], args_text(kw)))

    def state(self, w, h):
        items = w.M.nodes if h[3] == 'node' else w.M.edges
        x = items.get(h[1])
        x = x if h[3] == 'node' or x is None else x[3]
        return 'present' if x is h[2] else 'gone' if x is None else 'added again'

    def follow(self, w, h, rec, where):
        if self.state(w, h) == 'present':
            if fz(dict(h[0])) != fz(h[2]):
                raise Violation('the attribute dictionary of %s %r, %s, is %r, expected %r' % (h[3], h[1], where, h[0], h[2]))
            if len(h) > 4 and h[4] != fz(h[2]):
                rec.bucket('kept across an update of the item')
            h[4:] = [fz(h[2])]
        return h

    def change(self, w, h, rng, rec):
        was = self.state(w, h)
        r = rng.random()
        if r < .6:
            k, x = rng.choice(V.ATTR_KEYS + ['begin', 'end', 'timestamp', 'u', 't']), rng.choice(V.ATTR_VALS)
            what = lambda d: d.__setitem__(k, x)
        elif r < .75:
            what = lambda d: d.clear()
            rec.bucket('cleared')
        elif r < .9:
            what = lambda d: d.update({'w': 5, 'new': 'n'})
        else:
            what = lambda d: d.pop(next(iter(d), None), None)
        what(h[0])
        if was == 'present':
            what(h[2])
            rec.bucket('changed')
            rec.nontrivial = True
            h[4:] = [fz(h[2])]
        else:
            rec.bucket('changed after removal' if was == 'gone' else 'changed after the item was added again')
        rec.event('dictionary changed')
        views(w, 'after changing the attribute dictionary of %s %r (%s): ' % (h[3], h[1], was), len(w.M.edges) < 10)


# ------------------------------------------------------------------------------------------------ C51
class Str(str):
    """A string of the user's own class."""


class Tup(tuple):
    """What a named tuple is."""


def other_form(x, rng, label):
    """An equal value, perhaps of another type (equal hash, equal order)."""
    t = type(x)
    if t is bool or x is None:
        return x
    if t is tuple:
        y = tuple([other_form(z, rng, True) for z in x])
        return Tup(y) if rng.random() < .5 else y
    if t is str:
        return Str(x) if label and rng.random() < .5 else V.fresh(x)
    if t is frozenset:
        return frozenset([other_form(z, rng, True) for z in x])
    if t in (int, float) and abs(x) < 2 ** 53:
        forms = [t(x), float(x), Fraction(x)]
        if x == int(x):
            forms += [int(x), int(x)]
            if x in (0, 1):
                forms.append(bool(x))
        if label:                    # numpy's numbers do not compare with tuples and Decimals as Python's do
            forms.append(complex(x))
        else:
            forms.append(np.float64(x))
            if x == int(x):
                forms.append(np.int64(int(x)))
        return rng.choice(forms)
    return x


class C51(Check):
    pid = 'C51'
    technique = ('runtime monitoring: twin execution: the same history and questions with every label and time given as an equal '
                 'value of another type')
    quick, thorough = 9000, 270000
    required = ('forms: int', 'forms: float', 'forms: Fraction', 'forms: bool', 'forms: complex', 'forms: int64', 'forms: float64',
                'forms: Tup', 'forms: Str', 'answer: some', 'class IG', 'class IDG', 'class PG', 'class PDG',
                'class SG', 'class SDG')
    rule = ('a case is a history with questions run twice, once as generated and once with each label and time replaced by an '
            'equal value of a random type, anew at each use; non-trivial when questions were compared on a graph with edges')
    shrink_fields = ('ops',)

    def gen(self, rng, i, tier):
        seed = rng.randrange(10 ** 9)
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels, ops = snap_history(rng, kind)
            return {'kind': kind, 'ops': ops, 'seed': seed}
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.45, .45, .1, 0), times=EXACT, attr_p=.4,
                label_style=rng.choice(('int', 'int', 'neg', 'float', 'tuple', 'str', 'mixed', 'frozen')))
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .6:
                ops.append(any_question(g))
        ops += [any_question(g) for _ in range(4)]
        return {'kind': kind, 'ops': ops, 'seed': seed}

    def run(self, case, rec):
        kind = case['kind']
        rng = random.Random(case['seed'])
        rec.bucket('class ' + kind)

        def node(x):
            y = other_form(x, rng, True)
            rec.bucket('forms: ' + type(y).__name__)
            return y

        def time(t):
            if isinstance(t, float) and abs(t) == V.inf:
                return t
            y = other_form(t, rng, False)
            rec.bucket('forms: ' + type(y).__name__)
            return y
        if kind in SNAP:
            return self.snapshots(case, rec, node, time)
        w, x = World(kind, rec), World(kind, rec)
        for op in case['ops']:
            other = map_op(op, node, time)
            if op[0] != 'q':
                w.apply(op)
                x.apply(other)
                continue
            _, name, kw = op
            if not askable(w.M, name, kw):
                continue
            if name == 'to_snapshots':
                (_, b), (_, e) = w.M.q_interval({})
                n = kw.get('number_of_snapshots')
                if n and Fraction((e - b) / n) * n != Fraction(e - b):
                    continue
            a, b = answer(w.G, w.M, name, kw), answer(x.G, x.M, name, other[2])
            rec.event('twin comparison')
            if a != b:
                raise Violation('%s %s(%s) answered %s; with equal labels and times of other types, %s(%s) answered %s'
                                % (CLASSES[kind].__name__, name, args_text(kw), show(a), name, args_text(other[2]), show(b)))
            if w.M.edges:
                rec.nontrivial = True
                rec.bucket('answer: some')
            if name in MODELLED:
                x.ask(name, other[2], 'equal values of other types: ')
        views(x, 'equal values of other types: ', len(x.M.edges) < 20)
        rec.state((kind, frozenset(w.M.edges)))

    def snapshots(self, case, rec, node, time):
        kind = case['kind']
        S, P = SNAP[kind](), SNAP[kind]()
        for op in case['ops']:
            if op[0] == 'insert':
                k = tuple(time(t) for t in op[1])
                other = ['insert', k, dict(op[2], nodes=[(node(n), a) for n, a in op[2]['nodes']],
                                           edges=[(node(u), node(v), a) for u, v, a in op[2]['edges']])]
            else:
                sel = {p: (time(v) if p in ('start', 'end') else v) for p, v in op[2].items()}
                if op[0] == 'nodes':
                    other = ['nodes', [node(n) for n in op[1]], sel, op[3]]
                elif op[0] == 'edges':
                    other = ['edges', [(node(u), node(v)) for u, v in op[1]], sel, op[3]]
                else:
                    kw = dict(op[3])
                    for p in ('nbunch', 'n'):
                        if p in kw:
                            kw[p] = [node(n) for n in kw[p]] if isinstance(kw[p], list) else node(kw[p])
                    other = [op[0], op[1], sel, kw]
            a, b = snap_step(P, kind, op), snap_step(S, kind, other)
            rec.event('twin comparison')
            if a != b or norm_snap(P) != norm_snap(S):
                raise Violation('%s: %r gave %s and left %s; with equal labels and times of other types %r gave %s and left %s'
                                % (SNAP[kind].__name__, op, show(a), show(norm_snap(P)), other, show(b), show(norm_snap(S))))
        if len(S):
            rec.nontrivial = True


CHECKS = [C49, C50, C51]
