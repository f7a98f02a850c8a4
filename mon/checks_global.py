"""C32-C38: laws about the whole public interface.

Most are twin-execution monitors: one history runs on two real objects, the
second time transformed (times shifted, nodes renamed, edges turned round,
insertions reordered), and every answer is compared after the same
transformation of the normal form.
"""
import copy
import os
import sys
import tempfile
import warnings
from contextlib import contextmanager
from fractions import Fraction

import networkx as nx

import dynetworkx as dnx

from . import values as V
from .checks_conv import scratch
from .checks_edge import DEG, node_questions, projection_flags, size_of, structured, views
from .checks_motif import C30
from .checks_snap import (SATTR, SVALS, STATS, NX, SnapCase, build, disjoint_keys, graph_spec, norm, norm_answer, off, selection,
                          split_keys, window as snap_window)
from .core import Check
from .execute import CLASSES, SNAP, Violation, World, ambiguous, args_text, call, norm_nx, norm_snap, q_real, time_keys
from .gen import ADD_ONLY, EXACT, Gen
from .model import IMPULSE, INTERVAL, KINDS, EdgeModel, is_directed
from .values import MS, N, T, fz, map_norm, show

SHIFTABLE = ('small', 'small', 'zero', 'zero', 'int', 'dyadic', 'big', 'wide', 'mixed')
TWIN = 'runtime monitoring: twin-execution monitor: the same history run transformed, every answer compared'


# ---------------------------------------------------------------- questions of every kind
def flags_plain(rng, kind):
    """Projection flags whose answer does not depend on which parallel edge is met last."""
    f = projection_flags(rng, kind)
    times = 'edge_interval_data' if kind in INTERVAL else 'edge_timestamp_data'
    if not f.get('multigraph'):
        if rng.random() < .5:
            f['multigraph'] = True
        else:
            f.pop('edge_data', None)
            f.pop(times, None)
    return f


def any_question(g):
    rng, kind = g.rng, g.kind
    r = rng.random()
    e = g.edge()
    if r < .26:
        (q,) = node_questions(g, rng.random() < .6)
        kw = q[2]
        for p in ('u', 'v'):
            if isinstance(kw.get(p), tuple) and kw[p] not in g.M.nodes:
                kw[p] = list(kw[p])
        kw.update(g.data_kw())
        return q
    if r < .34:
        return ('q', 'edges', dict(g.window(), **g.data_kw()))
    if r < .44:
        u, v = (e[0], e[1]) if e is not None and rng.random() < .8 else (g.some_node(), g.some_node())
        if rng.random() < .4:
            u, v = v, u
        if kind in INTERVAL and rng.random() < .3:
            t = e[2] if e is not None and rng.random() < .7 else g.new_times()
            return ('q', 'has_edge', {'u': u, 'v': v, 'begin': t[0], 'end': t[1], 'overlapping': False})
        return ('q', 'has_edge', dict(g.window(none=.2, edge=e), u=u, v=v))
    if r < .5:
        return ('q', 'nodes', dict(g.window(none=.3), **g.data_kw()))
    if r < .54:
        return ('q', 'has_node', dict(g.window(none=.3), n=g.some_node()))
    if r < .57:
        return ('q', 'number_of_nodes', g.window(none=.3))
    if r < .66:
        kw = dict(g.window(none=.3, edge=e), which=rng.choice(DEG[kind]))
        kw.pop('_pos', None)
        if rng.random() < .75:
            kw['node'] = rng.choice(e[:2]) if e is not None and rng.random() < .8 else g.some_node()
        return ('q', 'degree', kw)
    if r < .73 and e is not None:
        kw = dict(g.window(none=.3, edge=e), which=rng.choice(DEG[kind]), node=rng.choice(e[:2]))
        kw.pop('_pos', None)
        return ('q', 'delta', kw)
    if r < .76:
        return ('q', 'interval', {})
    if r < .81 and kind in INTERVAL:
        kw = {k: v for k, v in g.window(none=.3).items() if k in ('begin', 'end')}
        kw['which'] = rng.choice(('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'))
        if 'begin' in kw and 'end' in kw and rng.random() < .6:
            kw['inclusive'] = (rng.random() < .5, rng.random() < .5)
        return ('q', 'uniq', kw)
    if r < .88:
        w = g.window(none=.2)
        w.pop('_pos', None)
        w.setdefault('begin', None)
        w.setdefault('end', None)
        w.update(flags_plain(rng, kind))
        return ('q', rng.choice(('to_subgraph', 'to_networkx_graph')), w)
    if r < .92:
        kw = flags_plain(rng, kind)
        if rng.random() < .6:
            kw['number_of_snapshots'] = rng.choice((2, 2, 4, 8))
        else:
            kw['length_of_snapshots'] = rng.choice((.25, .5, 1, 2, 3, 4, 5, 10, 64))
        return ('q', 'to_snapshots', kw)
    if r < .95:
        return ('q', 'to_snapshot_graph', flags_plain(rng, kind))
    if r < .97:
        return ('q', 'rt_nx', {})
    return ('q', rng.choice(('state', 'len')), {})


def askable(M, name, kw):
    """False for questions outside the stated domain."""
    if ambiguous(M, name, kw):
        return False
    if name == 'delta':
        if not M.edges:
            return False
        if M.interval_kind:
            span = M.q_interval({})
            b = kw.get('begin') if kw.get('begin') is not None else span[0][1]
            e = kw.get('end') if kw.get('end') is not None else span[1][1]
            return b < e
    if name == 'to_snapshots':
        if not M.edges:
            return False
        (_, b), (_, e) = M.q_interval({})
        if not isinstance(b, (int, float, Fraction)) or not b < e:
            return False
        if 'length_of_snapshots' in kw:
            q = (e - b) / kw['length_of_snapshots']
            return 1 < q < 200
    if name in ('rt_nx', 'to_snapshot_graph'):
        return bool(M.edges)
    return True


def answer(G, M, name, kw):
    if name == 'rt_nx':
        flag = 'edge_interval_data' if M.interval_kind else 'edge_timestamp_data'
        g = G.to_networkx_graph(None, None, multigraph=True, edge_data=True, node_data=True, **{flag: True})
        H = CLASSES[M.kind].from_networkx_graph(g)
        return q_real(H, M, 'state', {})
    return q_real(G, M, name, kw)


def map_x(x, f):
    """A node argument: one label or a list/set of labels (collections are never tuples here)."""
    if isinstance(x, list):
        return [f(y) for y in x]
    if isinstance(x, set):
        return {f(y) for y in x}
    return f(x)


def map_kw(kw, node=None, time=None):
    out = dict(kw)
    for p in ('u', 'v', 'n', 'node'):
        if node and out.get(p) is not None:
            out[p] = map_x(out[p], node)
    for p in ('begin', 'end', 'start'):
        if time and out.get(p) is not None:
            out[p] = time(out[p])
    return out


def map_op(op, node=None, time=None):
    f = node or (lambda x: x)
    t = time or (lambda x: x)
    k = op[0]
    if k == 'node':
        return ('node', f(op[1]), op[2])
    if k == 'nodes':
        xs = [((f(x[0]), x[1]) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) else f(x))
              for x in op[1]]
        return ('nodes', xs, op[2])
    if k == 'edge':
        return ('edge', f(op[1]), f(op[2]), tuple(t(x) for x in op[3]), op[4])
    if k == 'edges':
        return ('edges', [(f(e[0]), f(e[1])) + tuple(t(x) for x in e[2:]) for e in op[1]], op[2])
    if k == 'rm_edge':
        return ('rm_edge', f(op[1]), f(op[2]), map_kw(op[3], node, time))
    if k == 'rm_node':
        return ('rm_node', f(op[1]), map_kw(op[2], node, time))
    if k == 'q':
        return ('q', op[1], map_kw(op[2], node, time))
    return op


def compound(x):
    return isinstance(x, V.COMPOUND)


def singles(op):
    """The single labels an operation mentions that may be absent from the graph."""
    if op[0] == 'q':
        return [op[2][p] for p in ('u', 'v', 'node', 'n') if op[2].get(p) is not None and
                not isinstance(op[2][p], (list, set))]
    if op[0] == 'rm_edge':
        return [op[1], op[2]]
    if op[0] == 'rm_node':
        return [op[1]]
    return []


# ---------------------------------------------------------------- twins
class Twin(Check):
    technique = TWIN
    final = 10
    profile = {}
    every_kind = KINDS
    motifs = False
    snaps = False
    rule = ('a case is a history and its transformed twin with questions of every kind about both; non-trivial when '
            'some windowed or node question had an answer that was neither empty nor everything')
    required = ('edges', 'has_edge', 'nodes', 'degree', 'delta', 'interval', 'uniq', 'to_subgraph', 'to_snapshots',
                'to_snapshot_graph', 'rt_nx', 'answer: some', 'class IG', 'class IDG', 'class PG', 'class PDG',
                'removal that removed')

    def make_gen(self, rng, kind):
        return Gen(rng, kind, **self.profile)

    def history(self, rng, kind):
        g = self.make_gen(rng, kind)
        ops = []
        p = .3 if g.size in ('tiny', 'small') else .06
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < p:
                ops += [any_question(g) for _ in range(2)]
        ops += [any_question(g) for _ in range(self.final)]
        return g, ops

    def observe(self, M, name, kw, want, rec):
        rec.bucket(name)
        rec.event('twin comparison')
        if name in ('edges', 'nodes'):
            k = size_of(want)
            total = len(M.edges) if name == 'edges' else len(M.nodes)
            if 0 < k < total:
                rec.bucket('answer: some')
                rec.nontrivial = True

    def compare(self, case, rec, transform, back, a_label='', b_label='', a_ops=None, skip=None):
        """Run case['ops'] and their transformed twins; `back(norm)` maps an answer of A to the one B must give."""
        kind = case['kind']
        rec.bucket('class ' + kind)
        A, B = World(kind, rec), World(kind, rec)
        M = A.M
        for op in case['ops']:
            if skip and skip(M, op):
                continue
            op2 = transform(op)
            if op[0] != 'q':
                A.apply(op)
                B.apply(op2)
                continue
            _, name, kw = op
            if not askable(M, name, kw):
                continue
            a = answer(A.G, M, name, kw)
            b = answer(B.G, B.M, op2[1], op2[2])
            want = back(a)
            self.observe(M, name, kw, a, rec)
            if b != want:
                raise Violation('%s %s(%s) answered %s; %s %s(%s) answered %s, expected %s'
                                % (CLASSES[kind].__name__, name, args_text(kw), show(a), self.word, op2[1],
                                   args_text(op2[2]), show(b), show(want)))
        rec.state((kind, frozenset(M.edges)))
        return A, B

    word = 'transformed'


def drive(G, kind, op):
    name = op[0]
    if name == 'node':
        G.add_node(op[1], **op[2])
    elif name == 'nodes':
        G.add_nodes_from(list(op[1]), **op[2])
    elif name == 'edge':
        G.add_edge(op[1], op[2], *op[3], **op[4])
    elif name == 'edges':
        G.add_edges_from(list(op[1]), **op[2])
    elif name == 'rm_edge':
        call(G, kind, 'remove_edge', dict(op[3], u=op[1], v=op[2]))
    elif name == 'rm_node':
        call(G, kind, 'remove_node', dict(op[2], n=op[1]))
    else:
        raise ValueError(op)


# ---------------------------------------------------------------- motif twins
def motif_case(rng, i, tier):
    case = C30().gen(rng, i, tier)
    case['kind'] = 'motif'
    return case


def motif_answers(case, node=lambda x: x, time=lambda t: t, swap=False, order=None):
    G = dnx.ImpulseDiGraph()
    edges = case['edges']
    for n in case['nodes']:
        G.add_node(node(n))
    for u, v, t in (edges if order is None else [edges[k] for k in order]):
        if swap:
            u, v = v, u
        G.add_edge(node(u), node(v), time(t))
    out = []
    for motif, delta, _ in case['asks']:
        if swap:
            motif = tuple((b, a) for a, b in motif)
        total, counts, table = dnx.count_temporal_motif(G, motif, delta)
        c = {}
        for k, x in counts.items():
            if x:
                pairs = list(zip(k[::2], k[1::2]))
                if swap:
                    pairs = [(b, a) for a, b in pairs]
                c[tuple(pairs)] = x
        cells = {(r, col): x for r, row in zip(table.index, table.to_numpy().tolist())
                 for col, x in zip(table.columns, row)}
        out.append((total, c, cells, list(table.columns)))
    return out


def motif_compare(rec, case, b_kw, node=lambda x: x, word=''):
    a, b = motif_answers(case), motif_answers(case, **b_kw)
    for ask, (ta, ca, xa, cola), (tb, cb, xb, colb) in zip(case['asks'], a, b):
        rec.event('twin comparison')
        rec.bucket('motif')
        want = {tuple((node(u), node(v)) for u, v in k): x for k, x in ca.items()}
        cells = {(node(r), col): x for (r, col), x in xa.items()}
        if ta:
            rec.nontrivial = True
        if tb != ta or cb != want or xb != cells or set(cola) != set(colb):
            raise Violation('count_temporal_motif(%r, %r) gave %r %r; %s it gave %r %r, expected %r'
                            % (ask[0], ask[1], ta, ca, word, tb, cb, want))


# ---------------------------------------------------------------- snapshot twins
SNAP_Q = ('get', 'subgraph', 'number_of_nodes', 'size', 'degree', 'has_node', 'to_directed', 'to_undirected',
          'is_directed', 'from_snapshot', 'statistic', 'len')


def snap_history(rng, kind, label_style=None):
    labels = V.labels(rng, rng.randint(1, 5), label_style)
    keys = disjoint_keys(rng, rng.choice((1, 2, 3, 4, 6)), False)
    ops = [['insert', k, graph_spec(rng, kind == 'SDG', labels, .1, .1)] for k in keys]
    rng.shuffle(ops)
    cur = list(keys)
    for _ in range(rng.choice((4, 8, 12))):
        sel = selection(rng, cur, len(cur))
        if rng.random() < .3:
            attrs = V.attrs(rng, .5, SATTR, SVALS)
            if rng.random() < .5:
                ops.append(['nodes', [rng.choice(labels) for _ in range(rng.randint(1, 3))], sel, attrs])
            else:
                ops.append(['edges', [(rng.choice(labels), rng.choice(labels)) for _ in range(rng.randint(1, 3))], sel,
                            attrs])
            cur = split_keys(cur, sel)
        else:
            m = rng.choice(SNAP_Q)
            kw = {}
            if m == 'subgraph':
                kw['nbunch'] = rng.sample(labels, rng.randint(0, len(labels)))
            elif m == 'degree':
                if rng.random() < .6:
                    kw['nbunch'] = rng.sample(labels, rng.randint(0, len(labels)))
                if rng.random() < .4:
                    kw['weight'] = 'weight'
            elif m == 'has_node':
                kw['n'] = rng.choice(labels + ['absent'])
            elif m == 'from_snapshot':
                sel = {}
                kw = {'begin': rng.choice((0, 1, -2, 10, .5)), 'period': rng.choice((1, 2, .5))}
            elif m == 'len':
                sel = {}
            ops.append(['q', m, sel, kw])
    return labels, ops


def snap_map(op, node=None, time=None, turn=False):
    f = node or (lambda x: x)
    t = time or (lambda x: x)

    def e2(e):
        p = (f(e[0]), f(e[1]))
        return (p[::-1] if turn else p) + tuple(e[2:])
    if op[0] == 'insert':
        s = dict(op[2])
        s['nodes'] = [(f(n), a) for n, a in s['nodes']]
        s['edges'] = [e2(e) for e in s['edges']]
        return ['insert', tuple(t(x) for x in op[1]), s]
    sel = {k: (t(v) if k in ('start', 'end') else v) for k, v in op[2].items()}
    if op[0] == 'nodes':
        return ['nodes', [f(x) for x in op[1]], sel, op[3]]
    if op[0] == 'edges':
        return ['edges', [e2(e) for e in op[1]], sel, op[3]]
    kw = dict(op[3])
    if 'nbunch' in kw:
        kw['nbunch'] = [f(x) for x in kw['nbunch']]
    if 'n' in kw:
        kw['n'] = f(kw['n'])
    if op[1] == 'from_snapshot':
        kw['begin'] = t(kw['begin'])
    return ['q', op[1], sel, kw]


def snap_run(kind, ops):
    """Answers of a snapshot history, one per operation."""
    S = SNAP[kind]()
    out = []
    for op in ops:
        if op[0] == 'insert':
            k = op[1]
            if k[0] == k[1]:
                S.insert(build(op[2]), time=k[0])
            else:
                S.insert(build(op[2]), start=k[0], end=k[1])
            out.append(norm_snap(S))
            continue
        sel = op[2]
        if off(sel, len(S)):
            out.append(None)
            continue
        if op[0] == 'nodes':
            S.add_nodes_from(op[1], **sel, **op[3])
            out.append(norm_snap(S))
        elif op[0] == 'edges':
            S.add_edges_from(op[1], **sel, **op[3])
            out.append(norm_snap(S))
        else:
            out.append(snap_answer(S, kind, op[1], sel, op[3]))
    return out


def snap_answer(S, kind, m, sel, kw):
    if m == 'get':
        return tuple(norm_nx(g) for g in S.get(**sel))
    if m == 'subgraph':
        return norm_snap(S.subgraph(kw['nbunch'], **sel))
    if m == 'len':
        return len(S)
    if m == 'statistic':
        return tuple(S.compute_network_statistic(STATS['edges'], **sel))
    if m == 'from_snapshot':
        k = 'IDG' if kind == 'SDG' else 'IG'
        if any(g.is_multigraph() for g in S):
            return 'multigraph'
        G = CLASSES[k].from_snapshot_graph(S, **kw)
        return q_real(G, EdgeModel(k), 'edges', {})
    out = []
    for x in getattr(S, m)(**kw, **sel):
        if isinstance(x, nx.Graph):
            out.append(norm_nx(x))
        elif isinstance(x, (int, float)):
            out.append(x)
        else:
            out.append(MS([(N(n), d) for n, d in x]))
    return tuple(out)


def snap_compare(rec, case, op_map, back, word):
    kind = case['kind']
    rec.bucket('class ' + kind)
    ops2 = [op_map(op) for op in case['ops']]
    a, b = snap_run(kind, case['ops']), snap_run(kind, ops2)
    for op, op2, x, y in zip(case['ops'], ops2, a, b):
        rec.event('twin comparison')
        rec.bucket('snapshot ' + (op[1] if op[0] == 'q' else op[0]))
        want = back(x)
        if y != want:
            raise Violation('%s, %s: %s with %s: %r answered %s, expected %s'
                            % (SNAP[kind].__name__, ' '.join(map(str, (op[:2] if op[0] == 'q' else op[:1]))), word,
                               args_text(op2[2]) if op[0] != 'insert' else '', op2[0], show(y), show(want)))
        if x:
            rec.nontrivial = True


# ------------------------------------------------------------------------------------------------ C34
class C34(Twin):
    pid = 'C34'
    quick, thorough = 3600, 52000
    chunk = 5
    shrink_fields = ('ops', 'edges', 'asks', 'qs')
    word = 'in the other order'
    profile = {'mix': ADD_ONLY, 'weights': (.2, .45, .3, .05)}
    required = tuple(x for x in Twin.required if x != 'removal that removed') + (
        'noise removed', 'motif', 'order random', 'order ascending', 'order descending', 'order inside out',
        'order by end', 'large', 'order other way round')
    ORDERS = ('random', 'random', 'ascending', 'descending', 'inside out', 'by end', 'other way round')
    rule = ('a case is one set of edges and nodes put into two graphs in two orders (random, ascending, descending, '
            'inside out, by end time), one with extra items added and removed in between, some with thousands of '
            'edges; every answer must be the same; non-trivial when an answer was neither empty nor everything')

    def gen(self, rng, i, tier):
        if i % 16 == 15:
            case = motif_case(rng, i, tier)
            order = list(range(len(case['edges'])))
            rng.shuffle(order)
            case['order'] = order
            return case
        kind = KINDS[i % 4]
        shape = forced = None
        if i % 60 in (7, 20, 41, 58):
            n = rng.choice((600, 1200, 2500) if tier == 'quick' else (600, 2500, 6000))
            turn = i // 60
            if turn % 2 == 0:  # long runs of one begin or end, each in each order, in full
                shape = ('same begin', 'asc', 'same end', 'nested')[turn // 2 % 4]
                forced = ('ascending', 'descending', 'by end')[turn // 8 % 3]
            big = structured(rng, kind, max(n, 1200) if shape else n, shape)
            g = Gen(rng, kind, times=('int',))
            for op in big:
                g.track(op)
            ops = big
        else:
            g = Gen(rng, kind, **self.profile)
            ops = [g.mutate() for _ in range(g.nops)]
        # the contents, each once
        M = g.M
        items = [['node', n, dict(a)] for n, a in M.nodes.items()]
        if len(M.edges) > 500:
            items = [x for x in items if x[2]]
        items += [['edge', e[0], e[1], e[2], dict(e[3])] for e in M.edges.values()]
        qs = [any_question(g) for _ in range(24)]
        noise = []
        if rng.random() < .8:
            for _ in range(rng.choice((1, 3, 8, 20))):
                kind_of = rng.random()
                if kind_of < .35:
                    u, v = rng.choice(V.ABSENT[:3]), rng.choice(g.labels)
                elif kind_of < .5:
                    u = v = rng.choice(V.ABSENT[:3])
                else:
                    u, v = g.new_pair()
                t = g.new_times()
                if M.edges and rng.random() < .5:
                    t = rng.choice(list(M.edges.values()))[2]
                if M.key(u, v, t) not in M.edges:
                    noise.append([u, v, t])
        return {'kind': kind, 'items': items, 'a': forced or rng.choice(self.ORDERS), 'b': rng.choice(self.ORDERS),
                'seed': rng.randrange(10 ** 9), 'noise': noise, 'qs': qs}

    def arrange(self, items, order, seed):
        import random
        rng = random.Random('%s%s' % (order, seed))
        items = list(items)
        edges = [x for x in items if x[0] == 'edge']
        rest = [x for x in items if x[0] != 'edge']
        rng.shuffle(edges)
        if order == 'ascending':
            edges.sort(key=lambda x: x[3])
        elif order == 'descending':
            edges.sort(key=lambda x: x[3], reverse=True)
        elif order == 'by end':
            edges.sort(key=lambda x: x[3][::-1])
        elif order == 'inside out':
            edges.sort(key=lambda x: x[3])
            h = len(edges) // 2
            lo, hi = edges[:h][::-1], edges[h:]
            edges = [e for p in zip(lo, hi) for e in p] + hi[len(lo):] + lo[len(hi):]
        elif order == 'other way round':
            edges = edges[::-1]
        for x in rest:
            edges.insert(rng.randint(0, len(edges)), x)
        return edges, rng

    def fill(self, case, which, rec):
        kind = case['kind']
        G = CLASSES[kind]()
        M = EdgeModel(kind)
        seq, rng = self.arrange(case['items'], case[which], case['seed'] + (which == 'b'))
        rec.bucket('order ' + case[which])
        noise = list(case['noise']) if which == 'b' else []
        live = []
        turn = not is_directed(kind) and case[which] == 'other way round'
        step = max(1, len(seq) // (len(noise) + 1))

        def drop():
            u, v, t = live.pop(rng.randrange(len(live)))
            if kind in INTERVAL:
                op = ('rm_edge', u, v, {'begin': t[0], 'end': t[1], 'overlapping': False})
            else:
                op = ('rm_edge', u, v, {'begin': t[0], 'end': t[0], 'inclusive': (True, True)})
            drive(G, kind, op)
            M.remove_edge(u, v, op[3])
            rec.bucket('noise removed')
        for k, x in enumerate(seq):
            if x[0] == 'edge' and turn:
                x = ['edge', x[2], x[1], x[3], x[4]]
            drive(G, kind, x)
            if x[0] == 'edge':
                M.add_edge(x[1], x[2], x[3], x[4])
            else:
                M.add_node(x[1], x[2])
            if noise and k % step == 0:
                n = noise.pop()
                drive(G, kind, ('edge', n[0], n[1], n[2], {}))
                M.add_edge(n[0], n[1], n[2], {})
                live.append(n)
                if rng.random() < .5:
                    drop()
        while live:
            drop()
        wanted = {x[1] for x in case['items'] if x[0] == 'node'} | \
                 {n for x in case['items'] if x[0] == 'edge' for n in x[1:3]}
        for n in list(M.nodes):
            if n not in wanted:
                G.remove_node(n)
                M.remove_node(n, {})
        return G, M

    def run(self, case, rec):
        if case['kind'] == 'motif':
            k = len(case['edges'])
            return motif_compare(rec, case, {'order': [x for x in case['order'] if x < k]}, word='in another order')
        A, M = self.fill(case, 'a', rec)
        B, M2 = self.fill(case, 'b', rec)
        if set(M.edges) != set(M2.edges) or set(M.nodes) != set(M2.nodes):
            raise RuntimeError('harness: the two histories do not end in the same content')
        rec.bucket('class ' + case['kind'])
        if len(M.edges) > 450:
            rec.bucket('large')
        for _, name, kw in case['qs'] + [('q', 'state', {}), ('q', 'interval', {}), ('q', 'nodes', {})]:
            if not askable(M, name, kw):
                continue
            if name in ('to_snapshot_graph', 'to_snapshots') and len(M.edges) > 300:
                continue
            a, b = answer(A, M, name, kw), answer(B, M2, name, kw)
            self.observe(M, name, kw, a, rec)
            if a != b:
                raise Violation('%s filled %s and %s: %s(%s) answered %s and %s'
                                % (CLASSES[case['kind']].__name__, case['a'], case['b'], name, args_text(kw),
                                   show(a), show(b)))
        rec.state((case['kind'], frozenset(M.edges)))

    shrink_fields = ('items', 'noise', 'qs')


# ------------------------------------------------------------------------------------------------ C35
class C35(Twin):
    pid = 'C35'
    quick, thorough = 3300, 110000
    word = 'with all times shifted'
    profile = {'times': SHIFTABLE, 'weights': (.3, .45, .22, .03)}
    required = Twin.required + ('shift puts a time at 0', 'motif', 'class SG', 'class SDG', 'snapshot get',
                                'snapshot from_snapshot', 'snapshot nodes', 'snapshot edges', 'bound becomes 0')
    rule = ('a case is a history (edge-list or snapshot graph) and the same history with a constant added to every '
            'time and bound (exact arithmetic; often chosen so that an event or a bound lands on 0); non-trivial when '
            'an answer was neither empty nor everything')

    def gen(self, rng, i, tier):
        if i % 8 == 7:
            kind = ('SG', 'SDG')[i // 8 % 2]
            labels, ops = snap_history(rng, kind)
            ts = [t for op in ops if op[0] == 'insert' for t in op[1]]
            return {'kind': kind, 'ops': ops, 'shift': self.shift(rng, ts)}
        if i % 16 == 2:
            case = motif_case(rng, i, tier)
            case['shift'] = self.shift(rng, [e[2] for e in case['edges']])
            return case
        kind = KINDS[i % 4]
        g, ops = self.history(rng, kind)
        ts = [t for op in ops if op[0] == 'edge' for t in op[3]]
        ts += [op[2][p] for op in ops if op[0] == 'q' for p in ('begin', 'end') if op[2].get(p) is not None]
        return {'kind': kind, 'ops': ops, 'shift': self.shift(rng, ts)}

    def shift(self, rng, ts):
        ts = [t for t in ts if abs(t) != V.inf]
        if ts and rng.random() < .6:
            return -rng.choice(ts)
        c = rng.choice((1, -1, 2, -2, 5, -7, .5, -.25, 3.75, 10 ** 6, -10 ** 6, 1000))
        # a fraction added to a huge integer would be lost in the float
        return c if all(abs(t) < 2 ** 45 for t in ts) else int(c) or 3

    shrink_fields = ('ops', 'edges', 'asks')

    def run(self, case, rec):
        c = case['shift']

        def up(t):
            return t + c

        def back(x):
            return map_norm(x, time=up)
        if case['kind'] == 'motif':
            return motif_compare(rec, case, {'time': up}, word='shifted by %r' % (c,))
        if case['kind'] in SNAP:
            return snap_compare(rec, case, lambda op: snap_map(op, time=up), back, 'shifted by %r' % (c,))
        for op in case['ops']:
            if op[0] == 'edge' and any(t + c == 0 for t in op[3]):
                rec.bucket('shift puts a time at 0')
            if op[0] == 'q' and any(op[2].get(p) is not None and op[2][p] + c == 0 for p in ('begin', 'end')):
                rec.bucket('bound becomes 0')
        self.word = 'with all times shifted by %r' % (c,)
        self.compare(case, rec, lambda op: map_op(op, time=up), back)


# ------------------------------------------------------------------------------------------------ C36
class C36(Twin):
    pid = 'C36'
    quick, thorough = 3600, 120000
    word = 'renamed'
    shrink_fields = ('ops', 'edges', 'asks')
    required = Twin.required + ('motif', 'class SG', 'class SDG', 'to int', 'to neg', 'to str', 'to tuple', 'to frozen',
                                'to float', 'to mixed', 'to bytes', 'to name', 'snapshot get', 'snapshot subgraph')
    rule = ('a case is a history (edge-list, snapshot graph or motif count) and the same history with every node '
            'renamed (0, negative numbers, strings, tuples, frozensets, floats, bytes, own objects, mixtures); non-trivial when an answer '
            'was neither empty nor everything')
    STYLES = ('int', 'neg', 'str', 'tuple', 'frozen', 'float', 'mixed', 'bytes', 'name')

    def gen(self, rng, i, tier):
        style = rng.choice(self.STYLES)
        if i % 8 == 7:
            kind = ('SG', 'SDG')[i // 8 % 2]
            labels, ops = snap_history(rng, kind)
            return {'kind': kind, 'ops': ops, 'style': style, 'names': self.names(rng, labels, style)}
        if i % 16 == 2:
            case = motif_case(rng, i, tier)
            old = list(dict.fromkeys([n for e in case['edges'] for n in e[:2]] + case['nodes']))
            case['names'] = self.names(rng, old, style)
            return case
        kind = KINDS[i % 4]
        g, ops = self.history(rng, kind)
        return {'kind': kind, 'ops': ops, 'style': style, 'names': self.names(rng, g.labels, style)}

    def names(self, rng, labels, style):
        new = V.labels(rng, len(labels), style)
        rng.shuffle(new)
        return [[a, b] for a, b in zip(labels, new)]

    def run(self, case, rec):
        d = {a: b for a, b in case['names']}

        def f(x):
            return d.get(x, x)

        def back(x):
            return map_norm(x, node=f)
        if case['kind'] == 'motif':
            return motif_compare(rec, case, {'node': f}, node=f, word='renamed %r' % (d,))
        rec.bucket('to ' + case['style'])
        if case['kind'] in SNAP:
            return snap_compare(rec, case, lambda op: snap_map(op, node=f), back, 'renamed %r' % (d,))

        def skip(M, op):
            # an absent tuple or frozenset is read as a collection of nodes, not as a label
            return any(x not in M.nodes and (compound(x) or compound(f(x))) for x in singles(op))
        self.word = 'renamed by %r' % (d,)
        self.compare(case, rec, lambda op: map_op(op, node=f), back, skip=skip)


# ------------------------------------------------------------------------------------------------ C38
def turned(op, swap_ends):
    """u and v exchanged; in- and out-degree exchanged."""
    k = op[0]
    if k == 'edge':
        return ('edge', op[2], op[1], op[3], op[4])
    if k == 'edges':
        return ('edges', [(e[1], e[0]) + tuple(e[2:]) for e in op[1]], op[2])
    if k == 'rm_edge':
        return ('rm_edge', op[2], op[1], op[3])
    if k == 'q':
        kw = dict(op[2])
        u, v = kw.pop('u', None), kw.pop('v', None)
        if v is not None:
            kw['u'] = v
        if u is not None:
            kw['v'] = u
        if swap_ends and kw.get('which') in ('in_degree', 'out_degree'):
            kw['which'] = {'in_degree': 'out_degree', 'out_degree': 'in_degree'}[kw['which']]
        return ('q', op[1], kw)
    return op


class C38(Twin):
    pid = 'C38'
    quick, thorough = 6700, 230000
    shrink_fields = ('ops', 'edges', 'asks')
    required = Twin.required + ('motif', 'swapped only in some calls')
    rule = ('a case is a history and its twin: for undirected classes u and v are exchanged in some or all calls, for '
            'directed classes every edge is reversed and the roles exchanged; non-trivial when an answer was neither '
            'empty nor everything')

    def gen(self, rng, i, tier):
        if i % 16 == 2:
            return motif_case(rng, i, tier)
        kind = KINDS[i % 4]
        g, ops = self.history(rng, kind)
        flips = None
        if not is_directed(kind) and rng.random() < .75:
            flips = rng.randrange(10 ** 9)
        return {'kind': kind, 'ops': ops, 'flips': flips}

    def run(self, case, rec):
        if case['kind'] == 'motif':
            return motif_compare(rec, case, {'swap': True}, word='with every edge and the motif reversed')
        if is_directed(case['kind']):
            self.word = 'reversed'
            self.compare(case, rec, lambda op: turned(op, True), lambda x: map_norm(x, pair=True))
            return
        self.word = 'with u and v exchanged'
        if case['flips'] is None:
            self.compare(case, rec, lambda op: turned(op, False), lambda x: x)
        else:
            import random
            r = random.Random(case['flips'])
            rec.bucket('swapped only in some calls')
            self.compare(case, rec, lambda op: turned(op, False) if r.random() < .5 else op, lambda x: x)


# ------------------------------------------------------------------------------------------------ C32
@contextmanager
def captured():
    """Everything written to file descriptors 1 and 2 meanwhile."""
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    out = {}
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        try:
            yield out
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os.dup2(keep[0], 1)
            os.dup2(keep[1], 2)
            os.close(keep[0])
            os.close(keep[1])
            f.seek(0)
            out['text'] = f.read().decode('utf8', 'replace')


def full_view(G, M):
    """The public state from many sides."""
    out = [q_real(G, M, 'state', {}), len(G), str(G), fz(dict(G.graph))]
    for n in list(M.nodes)[:6]:
        out.append(q_real(G, M, 'edges', {'u': n, 'data': True}))
        out.append(q_real(G, M, 'degree', {'node': n}))
    ts = M.event_times()
    for t in ts[::max(1, len(ts) // 6)]:
        out.append(q_real(G, M, 'edges', {'begin': t, 'end': t, 'data': True}))
    if ts:
        out.append(q_real(G, M, 'interval', {}))
        if M.interval_kind:
            out.append(q_real(G, M, 'uniq', {'which': 'unique_timestamps'}))
    return tuple(out)


class C32(Twin):
    pid = 'C32'
    technique = 'runtime monitoring: state monitor: the whole public state before and after every call, output captured at descriptor level'
    quick, thorough = 7800, 260000
    required = Twin.required + ('saved to text', 'loaded from text', 'motif counted', 'trained', 'from_snapshot_graph',
                                'class SG', 'class SDG') + tuple('snapshot ' + m for m in SNAP_Q)
    rule = ('a case is a history with questions and conversions of every kind; around each the whole public state must '
            'stay equal, the question asked again must be answered the same, and nothing may be written to the '
            'descriptors 1 and 2 in the whole case; non-trivial when an answer was neither empty nor everything')

    def gen(self, rng, i, tier):
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels, ops = snap_history(rng, kind, rng.choice(('int', 'str', 'neg')))
            return {'kind': kind, 'ops': ops}
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.4, .5, .1, 0))
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .1:
                ops.append(any_question(g))
        if g.times.style in V.TIME_STYLES and rng.random() < .12:
            ops.append(('train', rng.randrange(10 ** 6), 3))
        for _ in range(8):
            ops.append(any_question(g) if rng.random() < .8 else ('extra', rng.choice(
                ('save', 'motif', 'to_snapshots length', 'projection', 'load', 'snapshots and back'))))
        return {'kind': kind, 'ops': ops}

    def run(self, case, rec):
        rec.bucket('class ' + case['kind'])
        try:
            with captured() as cap, warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if case['kind'] in SNAP:
                    self.snapshots(case, rec)
                else:
                    self.edge_list(case, rec)
        finally:
            if cap.get('text'):
                rec.event('bytes written', len(cap['text']))
        if cap['text']:
            raise Violation('the library wrote to standard output or standard error: %r' % cap['text'][:300])
        rec.event('silent case')

    def edge_list(self, case, rec):
        w = World(case['kind'], rec, {'name': 'g', 'k': 0})
        M, G = w.M, w.G
        view = None
        for op in case['ops']:
            if op[0] == 'train':
                if M.edges:
                    w.apply(op)
                    rec.bucket('trained')
                continue
            if op[0] not in ('q', 'extra'):
                w.apply(op)
                view = None
                continue
            if op[0] == 'q' and not askable(M, op[1], op[2]):
                continue
            if view is None:
                view = full_view(G, M)
            if op[0] == 'q':
                first = answer(G, M, op[1], op[2])
                what = '%s(%s)' % (op[1], args_text(op[2]))
                self.observe(M, op[1], op[2], first, rec)
            else:
                what = op[1]
                first = self.extra(G, M, op[1], rec)
            after = full_view(G, M)
            rec.event('state compared')
            if after != view:
                k = [i for i, (x, y) in enumerate(zip(view, after)) if x != y][0]
                raise Violation('%s %s changed what the graph answers: %s before, %s after'
                                % (CLASSES[case['kind']].__name__, what, show(view[k]), show(after[k])))
            second = answer(G, M, op[1], op[2]) if op[0] == 'q' else self.extra(G, M, op[1], rec)
            if second != first:
                raise Violation('%s %s answered %s, and asked again %s'
                                % (CLASSES[case['kind']].__name__, what, show(first), show(second)))
        rec.state((case['kind'], frozenset(M.edges)))

    def extra(self, G, M, what, rec):
        if not M.nodes:
            return None
        if what == 'save':
            with scratch() as d:
                G.save_to_txt(os.path.join(d, 'g.txt'))
                with open(os.path.join(d, 'g.txt')) as f:
                    rec.bucket('saved to text')
                    return f.read()
        if what == 'motif':
            ns = [n for n in M.nodes]
            if M.kind != 'PDG' or not (all(isinstance(n, (int, float)) for n in ns) or
                                       all(isinstance(n, str) for n in ns)):
                return None
            if len(M.edges) > 40 or not all(isinstance(t, (int, float)) for t in M.event_times()):
                return None
            total, counts, table = dnx.count_temporal_motif(G, ((1, 2), (2, 3)), 3)
            rec.bucket('motif counted')
            return (total, fz({k: v for k, v in counts.items() if v}))
        if what == 'to_snapshots length':
            kw = {'number_of_snapshots': 4, 'return_length': True}
            return answer(G, M, 'to_snapshots', kw) if askable(M, 'to_snapshots', kw) else None
        if what == 'projection':
            g = G.to_subgraph(None, None)
            return MS([N(n) for n in g.nodes])
        if what == 'snapshots and back':
            if not M.interval_kind or not M.edges:
                return None
            S = G.to_snapshot_graph(edge_data=True)
            before = norm_snap(S)
            H = CLASSES[M.kind].from_snapshot_graph(S)
            rec.bucket('from_snapshot_graph')
            if norm_snap(S) != before:
                raise Violation('from_snapshot_graph changed the snapshot graph')
            return q_real(H, M, 'edges', {})
        if what == 'load':
            text = '# c\n1 2 0 3 w=1\n\n2 3 1 4\n' if M.interval_kind else '# c\n1 2 0 w=1\n\n2 3 1\n'
            with scratch() as d:
                p = os.path.join(d, 'l.txt')
                with open(p, 'w') as f:
                    f.write(text)
                H = CLASSES[M.kind].load_from_txt(p)
                rec.bucket('loaded from text')
                return q_real(H, M, 'state', {})
        return None

    def snapshots(self, case, rec):
        kind = case['kind']
        S = SNAP[kind](name='s', k=0)

        def view():
            return (norm_snap(S), len(S), fz(dict(S.graph)), tuple(norm(g) for g in S), tuple(id(g) for g in S.get()))
        for op in case['ops']:
            if op[0] == 'insert':
                k = op[1]
                S.insert(build(op[2]), start=k[0], end=k[1])
                continue
            sel = op[2]
            if off(sel, len(S)):
                continue
            if op[0] == 'nodes':
                S.add_nodes_from(op[1], **sel, **op[3])
            elif op[0] == 'edges':
                S.add_edges_from(op[1], **sel, **op[3])
            else:
                before = view()
                first = snap_answer(S, kind, op[1], sel, op[3])
                rec.bucket('snapshot ' + op[1])
                rec.event('state compared')
                if view() != before:
                    raise Violation('%s %s(%s) changed the snapshots' % (SNAP[kind].__name__, op[1],
                                                                       args_text(dict(sel, **op[3]))))
                if snap_answer(S, kind, op[1], sel, op[3]) != first:
                    raise Violation('%s %s(%s) answered differently the second time'
                                    % (SNAP[kind].__name__, op[1], args_text(dict(sel, **op[3]))))
                if first:
                    rec.nontrivial = True
        if len(S) and all(len(g) and all(isinstance(d.get('weight', 1), (int, float)) for *_, d in g.edges(data=True))
                          for g in S):
            before = view()
            with scratch() as d:
                S.save_to_txt(os.path.join(d, 's.txt'))
                type(S).load_from_txt(os.path.join(d, 's.txt'))
            if view() != before:
                raise Violation('%s.save_to_txt changed the snapshots' % SNAP[kind].__name__)


# ------------------------------------------------------------------------------------------------ C33
def bad_value(rng):
    return rng.choice(('x', 'a1', '1.2.3', '--', 'one'))


def save_over(X, **kw):
    """A rejected save must leave the file that is already there alone."""
    with scratch() as d:
        p = os.path.join(d, 'x')
        with open(p, 'w') as f:
            f.write('kept\n')
        try:
            X.save_to_txt(p, **kw)
        except Exception:
            with open(p) as f:
                if f.read() != 'kept\n':
                    raise Violation('a rejected %s.save_to_txt(%s) changed the file' % (type(X).__name__, args_text(kw)))
            raise


class C33(Check):
    pid = 'C33'
    technique = 'runtime monitoring: state monitor: documented exception type of every rejected call, full public state before and after'
    quick, thorough = 12000, 420000
    EDGE = ('begin after end: edges', 'begin after end: has_edge', 'begin after end: remove_edge',
            'begin after end: add_edge', 'begin after end: impulse window', 'exact without times: has_edge', 'exact without times: remove_edge',
            'wrong tuple length', 'slicing: neither', 'slicing: both', 'slicing: bad number', 'slicing: bad length',
            'delimiter: load', 'delimiter: save', 'order', 'empty save', 'node conversion', 'time conversion',
            'motif on another class')
    SNAPS = ('time and interval: insert', 'time and interval: add', 'half interval: insert', 'half interval: add',
             'reversed interval: insert', 'indexes and window', 'snapshot delimiter: load', 'snapshot delimiter: save',
             'empty snapshot save')
    required = EDGE + SNAPS + ('falsy bound', 'class IG', 'class IDG', 'class PG', 'class PDG', 'class SG', 'class SDG')
    shrink_fields = ('ops', 'bad', 'snaps')
    rule = ('a case is a history followed by calls that break a documented requirement (bounds of both signs, 0 and '
            'empty lists included); each must raise the documented type and leave the whole public state as the model '
            'has it; non-trivial when a call was rejected on a graph with edges')

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            kind = ('SG', 'SDG')[i // 3 % 2]
            labels = V.labels(rng, 3)
            keys = disjoint_keys(rng, rng.choice((0, 1, 2, 4)))
            snaps = [[k, graph_spec(rng, kind == 'SDG', labels, 0)] for k in keys]
            bad = [[rng.choice(self.SNAPS), rng.randrange(10 ** 9)] for _ in range(6)]
            return {'kind': kind, 'snaps': snaps, 'bad': bad, 'ops': []}
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.5, .4, .1, 0), times=('small', 'zero', 'int', 'dyadic', 'mixed'))
        ops = [g.mutate() for _ in range(g.nops)]
        bad = [[rng.choice(self.EDGE), rng.randrange(10 ** 9)] for _ in range(6)]
        return {'kind': kind, 'ops': ops, 'bad': bad, 'snaps': []}

    def run(self, case, rec):
        import random
        kind = case['kind']
        rec.bucket('class ' + kind)
        if kind in SNAP:
            return self.run_snap(case, rec)
        w = World(kind, rec)
        for op in case['ops']:
            w.apply(op)
        for what, seed in case['bad']:
            rng = random.Random(seed)
            c = self.make(w, what, rng, rec)
            if c is None:
                continue
            text, errors, f = c
            self.reject('%s %s' % (CLASSES[kind].__name__, text), errors, f)
            rec.bucket(what)
            rec.event('rejected call')
            if w.M.edges:
                rec.nontrivial = True
            views(w, 'after the rejected call %s: ' % text)
        rec.state((kind, frozenset(w.M.edges)))

    def reject(self, text, errors, f):
        try:
            r = f()
        except errors:
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s raised %s (%s), documented is %s'
                            % (text, type(e).__name__, str(e)[:100], errors.__name__))
        raise Violation('%s was not rejected but answered %r' % (text, r))

    def make(self, w, what, rng, rec):
        M, G, kind = w.M, w.G, w.kind
        E = nx.NetworkXError
        ik = M.interval_kind
        es = list(M.edges.values())
        e = rng.choice(es) if es else None
        hi = rng.choice((0, 1, 5, .5, 100, -1))
        lo = hi - rng.choice((1, .5, 3, 100))
        if rng.random() < .3:
            hi, lo = rng.choice(((0, -1), (1, 0), (0, -.25), (.5, 0)))
        if 0 in (hi, lo):
            rec.bucket('falsy bound')
        if what == 'begin after end: impulse window':
            if ik or e is None:
                return None
            name = rng.choice(('edges', 'edges', 'nodes', 'number_of_nodes', 'has_node', 'has_edge', 'to_subgraph',
                               'to_networkx_graph'))
            kw = {'begin': hi, 'end': lo}
            if name == 'edges':
                kw.update(rng.choice(({}, {'u': e[0]}, {'v': e[1]}, {'u': e[0], 'v': e[1]}, {'data': True})))
            elif name == 'has_node':
                kw['n'] = rng.choice(e[:2])
            elif name == 'has_edge':
                kw['u'], kw['v'] = (e[0], e[1]) if M.directed or rng.random() < .5 else (e[1], e[0])
            if rng.random() < .4:
                kw['inclusive'] = (rng.random() < .5, rng.random() < .5)
            return '%s(%s)' % (name, args_text(kw)), E, lambda: [x for x in (getattr(G, name)(**kw),)]
        if what.startswith('begin after end'):
            if not ik:
                return None
            if what.endswith(' edges'):
                kw = {'begin': hi, 'end': lo}
                r = rng.random()
                if e and r < .3:
                    kw['u'] = e[0]
                elif e and r < .5:
                    kw['v'] = e[1]
                elif e and r < .7:
                    kw['u'], kw['v'] = e[0], e[1]
                elif r < .8:
                    kw['data'] = True
                return 'edges(%s)' % args_text(kw), E, lambda: list(G.edges(**kw))
            if what.endswith('add_edge'):
                u, v = rng.choice(V.ABSENT), rng.choice(V.ABSENT)
                if e and rng.random() < .6:
                    u, v = e[0], rng.choice((e[1], v))
                return 'add_edge(%r, %r, %r, %r)' % (u, v, hi, lo), E, lambda: G.add_edge(u, v, hi, lo, w=1)
            if e is None:
                return None
            name = what.split()[-1]
            u, v = (e[0], e[1]) if M.directed or rng.random() < .5 else (e[1], e[0])
            return '%s(%r, %r, %r, %r)' % (name, u, v, hi, lo), E, lambda: getattr(G, name)(u, v, hi, lo)
        if what.startswith('exact without'):
            if not ik:
                return None
            name = what.split()[-1]
            u, v = (e[0], e[1]) if e and rng.random() < .8 else (rng.choice(V.ABSENT), rng.choice(V.ABSENT))
            kw = rng.choice(({}, {'begin': hi}, {'end': hi}, {'begin': 0}, {'end': 0}))
            if e and rng.random() < .4:
                kw = rng.choice(({'begin': e[2][0]}, {'end': e[2][1]}))
            return ('%s(%r, %r, overlapping=False, %s)' % (name, u, v, args_text(kw)), E,
                    lambda: getattr(G, name)(u, v, overlapping=False, **kw))
        if what == 'wrong tuple length':
            n = 4 if ik else 3
            k = rng.choice([x for x in (0, 1, 2, 3, 4, 5, 6) if x != n])
            bad = tuple(rng.choice((0, 1, 7)) for _ in range(k))
            return 'add_edges_from(%r)' % ([bad],), E, lambda: G.add_edges_from([bad])
        if what.startswith('slicing'):
            if e is None:
                return None
            (_, b), (_, t) = M.q_interval({})
            if not b < t:
                return None
            if what.endswith('neither'):
                kw = rng.choice(({}, {'multigraph': True}, {'return_length': True}))
            elif what.endswith('both'):
                kw = {'number_of_snapshots': rng.choice((2, 3, 10)), 'length_of_snapshots': rng.choice((1, .5, 2, 100))}
            elif what.endswith('number'):
                kw = {'number_of_snapshots': rng.choice((1, 0, -1, -3, 2.5, 1.5, 2.0))}
            else:
                kw = {'length_of_snapshots': rng.choice((-1, -.5, -100, 0, 0.0))}
            return 'to_snapshots(%s)' % args_text(kw), E, lambda: G.to_snapshots(**kw)
        if what == 'motif on another class':
            if kind == 'PDG':
                return None
            return 'count_temporal_motif', TypeError, lambda: dnx.count_temporal_motif(G, ((1, 2), (2, 3)), 3)
        cls = CLASSES[kind]
        if what == 'empty save':
            H = cls(name='empty')

            def f():
                save_over(H)
            return 'save_to_txt of an empty graph', ValueError, f
        if what == 'delimiter: save':
            if not M.nodes:
                return None

            def f():
                save_over(G, delimiter='=')
            return 'save_to_txt with delimiter =', ValueError, f
        good = '1 2 0 3' if ik else '1 2 0'
        kw = {}
        text = good + '\n'
        if what == 'delimiter: load':
            kw['delimiter'] = '='
            err = ValueError
        elif what == 'order':
            kw['order'] = rng.choice((('u', 'v'), ('u', 'v', 'x', 'y'), ('u', 'u', 'begin', 'end'), ('u',),
                                      ('u', 'begin', 'end', 'w') if ik else ('u', 'v', 'begin'),
                                      ('u', 'v', 'begin') if ik else ('u', 'v', 'begin', 'end')))
            err = ValueError
        elif what == 'node conversion':
            cols = good.split()
            cols[rng.randrange(2)] = bad_value(rng)
            text = (good + '\n') * rng.randint(0, 2) + ' '.join(cols) + '\n'
            kw['nodetype'] = rng.choice((float, float, complex))
            err = TypeError
        else:
            cols = good.split()
            cols[rng.randrange(2, len(cols))] = bad_value(rng)
            if rng.random() < .4:
                kw['intervaltype' if ik else 'timestamptype'] = int
            text = (good + '\n') * rng.randint(0, 2) + ' '.join(cols) + '\n'
            err = TypeError
        if what in ('order', 'delimiter: load') and rng.random() < .3:      # nothing in the file hides it
            text = rng.choice(('', '# comment\n', '\n\n'))

        def f():
            with scratch() as d:
                p = os.path.join(d, 'x')
                with open(p, 'w') as fh:
                    fh.write(text)
                return cls.load_from_txt(p, **kw)
        return 'load_from_txt of %r with %s' % (text, args_text(kw)), err, f

    def run_snap(self, case, rec):
        import random
        kind = case['kind']
        S = SNAP[kind](name='s')
        for k, spec in case['snaps']:
            S.insert(build(spec), start=k[0], end=k[1])
        for what, seed in case['bad']:
            rng = random.Random(seed)
            c = self.make_snap(S, kind, what, rng, rec)
            if c is None:
                continue
            text, f = c
            before = [(k, id(g), norm(g)) for k, g in S.snapshots.items()] + [len(S), dict(S.graph)]
            self.reject('%s %s' % (SNAP[kind].__name__, text), ValueError, f)
            rec.bucket(what)
            rec.event('rejected call')
            if len(S):
                rec.nontrivial = True
            after = [(k, id(g), norm(g)) for k, g in S.snapshots.items()] + [len(S), dict(S.graph)]
            if after != before:
                raise Violation('%s %s left a trace in the snapshot graph' % (SNAP[kind].__name__, text))
        rec.state((kind, tuple(map(repr, case['snaps']))))

    def make_snap(self, S, kind, what, rng, rec):
        a = rng.choice((0, 0, 1, -1, 5, .5, 0.0))
        b = rng.choice((0, 0, 1, 7, -2))
        if a == 0 or b == 0:
            rec.bucket('falsy bound')
        g = NX['DiGraph' if kind == 'SDG' else 'Graph']([(1, 2)])
        if what.startswith(('time and', 'half', 'reversed')):
            if what.startswith('time and'):
                kw = dict({'time': a}, **rng.choice(({'start': b}, {'end': b}, {'start': b, 'end': b + 1})))
            elif what.startswith('half'):
                kw = rng.choice(({'start': a}, {'end': a}, {}))
            else:
                kw = {'start': a + 1, 'end': a}
            if what.endswith('insert'):
                return 'insert(%s)' % args_text(kw), lambda: S.insert(g, **kw)
            if rng.random() < .5:
                return 'add_snapshot([...], %s)' % args_text(kw), lambda: S.add_snapshot([(1, 2)], **kw)
            return 'add_snapshot(graph, %s)' % args_text(kw), lambda: S.add_snapshot(graph=g, **kw)
        if what == 'indexes and window':
            sel = dict({'sbunch': rng.choice(([], [0], [0, 1], (0,)))},
                       **rng.choice(({'start': a}, {'end': a}, {'start': a, 'end': a + 3})))
            m, args, kw = rng.choice((
                ('get', (), {}), ('subgraph', ([1],), {}), ('degree', (), {}), ('number_of_nodes', (), {}),
                ('order', (), {}), ('has_node', (1,), {}), ('is_multigraph', (), {}), ('is_directed', (), {}),
                ('to_directed', (), {}), ('to_undirected', (), {}), ('size', (), {}),
                ('add_nodes_from', ([1, 'new'],), {}), ('add_edges_from', ([(1, 'new')],), {}),
                ('compute_network_statistic', (nx.density,), {})))
            return '%s(%s)' % (m, args_text(sel)), lambda: getattr(S, m)(*args, **sel, **kw)
        delim = rng.choice((' ', '\n'))

        save = save_over
        if what == 'empty snapshot save':
            return 'save_to_txt of an empty snapshot graph', lambda: save(SNAP[kind]())
        if what == 'snapshot delimiter: save':
            if not len(S) or not all(len(x) and all(isinstance(d.get('weight', 1), (int, float))
                                                    for *_, d in x.edges(data=True)) for x in S):
                return None
            return 'save_to_txt with delimiter %r' % delim, lambda: save(S, delimiter=delim)

        def load():
            with scratch() as d:
                p = os.path.join(d, 'x')
                with open(p, 'w') as fh:
                    fh.write(rng.choice(('0 1;1 0 start=0 end=1\n', '', '# c\n')))
                return SNAP[kind].load_from_txt(p, delimiter=delim)
        return 'load_from_txt with delimiter %r' % delim, load


# ------------------------------------------------------------------------------------------------ C37
def vandal_nx(g, rng):
    """Change a networkx graph in every way: data of what is there, additions, removals."""
    for _, d in list(g.nodes(data=True)):
        d['w'] = 'vandal'
        d.pop('color', None)
    for *_, d in list(g.edges(data=True)):
        for k in list(d):
            d[k] = 'vandal'
        d['extra'] = 1
    g.graph['vandal'] = 1
    nodes = list(g.nodes)
    r = rng.random()
    if nodes and r < .5:
        g.remove_node(rng.choice(nodes))
    elif r < .6:
        g.clear()
    g.add_edge('vandal', nodes[0] if nodes else 0)


def vandal_graph(G, M, kind, rng):
    """Change an edge-list graph: attributes, additions, removals."""
    for n in list(M.nodes):
        G.add_node(n, w='vandal', color=0)
    for e in list(M.edges.values())[:20]:
        G.add_edge(e[0], e[1], *e[2], w='vandal', color=0)
    G.graph['vandal'] = 1
    ts = M.event_times()
    t = (ts[0] if ts else 0)
    G.add_edge('vandal', 'node', *((t, t) if kind in INTERVAL else (t,)))
    ns = list(M.nodes)
    if ns and rng.random() < .6:
        G.remove_node(rng.choice(ns))
    if M.edges and rng.random() < .6:
        e = rng.choice(list(M.edges.values()))
        G.remove_edge(e[0], e[1])


def whole(G, kind):
    M = EdgeModel(kind)
    return (q_real(G, M, 'state', {}), len(G), fz(dict(G.graph)), G.name)


class C37(Check):
    pid = 'C37'
    technique = 'runtime monitoring: aliasing monitor: one side of every conversion is vandalised, the other side must not move'
    quick, thorough = 48000, 1600000
    WAYS = ('projection', 'snapshots', 'snapshot graph', 'from networkx', 'from networkx twice', 'from snapshots',
            'separate instances', 'same arguments')
    required = WAYS + ('source changed', 'copy changed', 'class IG', 'class IDG', 'class PG', 'class PDG',
                       'snapshot instances')
    rule = ('a case is a history, one conversion (projection, snapshots, snapshot graph, from networkx, from '
            'snapshots) or a second instance, and thorough changes to one side; non-trivial when the side that must '
            'not move holds edges')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.45, .45, .1, 0), attr_p=.7,
                times=('small', 'zero', 'int', 'dyadic', 'wide') + (() if kind in INTERVAL else ('str',)))
        ops = [g.mutate() for _ in range(g.nops)]
        ways = [w for w in self.WAYS if w != 'from snapshots' or kind in INTERVAL]
        way = ways[(i // 4) % len(ways)]
        return {'kind': kind, 'ops': ops, 'way': way, 'source': rng.random() < .5, 'seed': rng.randrange(10 ** 9),
                'flags': projection_flags(rng, kind), 'window': [rng.random() < .5] + [g.times.draw(rng), g.times.draw(rng)],
                'attr': rng.choice(({}, {'name': 'G', 'k': 0}))}

    def run(self, case, rec):
        import random
        kind, way = case['kind'], case['way']
        rng = random.Random(case['seed'])
        rec.bucket('class ' + kind)
        rec.bucket(way)
        rec.bucket('source changed' if case['source'] else 'copy changed')
        w = World(kind, rec, case['attr'])
        for op in case['ops']:
            w.apply(op)
        G, M = w.G, w.M
        if M.edges:
            rec.nontrivial = True
        rec.state((kind, way, frozenset(M.edges)))
        getattr(self, way.replace(' ', '_'))(case, w, G, M, kind, rng, rec)
        rec.event('isolation checked')

    def check(self, case, what, before, after):
        if before != after:
            raise Violation('%s: %s: changing the %s changed the other side: %s before, %s after'
                            % (CLASSES[case['kind']].__name__, what, 'source' if case['source'] else 'converted object',
                               show(before), show(after)))

    def graphs_out(self, case, what, w, graphs, rng):
        """networkx graphs made from an edge-list graph."""
        if case['source']:
            before = tuple(norm(g) for g in graphs)
            vandal_graph(w.G, w.M, w.kind, rng)
            self.check(case, what, before, tuple(norm(g) for g in graphs))
        else:
            before = whole(w.G, w.kind)
            rest = tuple(norm(g) for g in graphs[1:])
            if graphs:
                vandal_nx(graphs[0], rng)
                self.check(case, what + ' (one snapshot and the others)', rest, tuple(norm(g) for g in graphs[1:]))
            for g in graphs[1:]:
                vandal_nx(g, rng)
            self.check(case, what, before, whole(w.G, w.kind))
            w.M.edges and w.ask('state', {}, 'after changing the converted object: ')

    def projection(self, case, w, G, M, kind, rng, rec):
        on, a, b = case['window']
        b, a = max(a, b), min(a, b)
        if not on:
            a = b = None
        name = rng.choice(('to_subgraph', 'to_networkx_graph'))
        self.graphs_out(case, '%s(%s)' % (name, args_text(case['flags'])), w,
                        [getattr(G, name)(a, b, **case['flags'])], rng)

    def snapshots(self, case, w, G, M, kind, rng, rec):
        kw = dict(case['flags'], number_of_snapshots=rng.choice((2, 4)))
        if askable(M, 'to_snapshots', kw):
            self.graphs_out(case, 'to_snapshots(%s)' % args_text(kw), w, G.to_snapshots(**kw), rng)

    def snapshot_graph(self, case, w, G, M, kind, rng, rec):
        S = G.to_snapshot_graph(**case['flags'])
        what = 'to_snapshot_graph(%s)' % args_text(case['flags'])
        self.graphs_out(case, what, w, list(S), rng)
        if not case['source']:
            S.graph['vandal'] = 1
            S.insert(nx.path_graph(3), start=-10 ** 9, end=-10 ** 8) if not any(
                isinstance(t, str) for t in M.event_times()) else None
            w.ask('state', {}, 'after changing the snapshot graph: ')

    def nx_of(self, G, M):
        flag = 'edge_interval_data' if M.interval_kind else 'edge_timestamp_data'
        return G.to_networkx_graph(None, None, multigraph=True, edge_data=True, node_data=True, **{flag: True})

    def from_networkx(self, case, w, G, M, kind, rng, rec):
        g = self.nx_of(G, M)
        g.graph['tag'] = 0
        H = CLASSES[kind].from_networkx_graph(g)
        if case['source']:
            before = whole(H, kind)
            vandal_nx(g, rng)
            self.check(case, 'from_networkx_graph', before, whole(H, kind))
        else:
            before = norm(g)
            vandal_graph(H, M, kind, rng)
            self.check(case, 'from_networkx_graph', before, norm(g))

    def from_networkx_twice(self, case, w, G, M, kind, rng, rec):
        g = self.nx_of(G, M)
        H, K = CLASSES[kind].from_networkx_graph(g), CLASSES[kind].from_networkx_graph(g)
        before = whole(H, kind)
        vandal_graph(K, M, kind, rng)
        self.check(case, 'two graphs from one networkx graph', before, whole(H, kind))

    def from_snapshots(self, case, w, G, M, kind, rng, rec):
        S = G.to_snapshot_graph(edge_data=True, node_data=True)
        H = CLASSES[kind].from_snapshot_graph(S)
        HM = EdgeModel(kind)
        for (e, d), _ in q_real(H, HM, 'edges', {'data': True})[1]:
            pass
        if case['source']:
            before = whole(H, kind)
            for g in S:
                vandal_nx(g, rng)
            self.check(case, 'from_snapshot_graph', before, whole(H, kind))
        else:
            before = tuple(norm(g) for g in S)
            for u, v, b, e in H.edges():
                H.add_edge(u, v, b, e, w='vandal', color=0)
                HM.add_edge(u, v, (b, e), {})
            vandal_graph(H, HM, kind, rng)
            self.check(case, 'from_snapshot_graph', before, tuple(norm(g) for g in S))

    def separate_instances(self, case, w, G, M, kind, rng, rec):
        before = whole(G, kind)
        others = [CLASSES[kind](), CLASSES[kind](**case['attr'])]
        fresh = [whole(x, kind) for x in others]
        if fresh[0][0] != ('state', MS([]), MS([])) or fresh[0][2] != fz({}) or len(others[0]):
            raise Violation('a new %s is not empty: %s' % (CLASSES[kind].__name__, show(fresh[0])))
        vandal_graph(others[1], EdgeModel(kind), kind, rng)
        self.check(case, 'two separate instances', (before, fresh[0]), (whole(G, kind), whole(others[0], kind)))
        vandal_graph(G, M, kind, rng)
        self.check(case, 'two separate instances', fresh[0], whole(others[0], kind))
        for sk in SNAP:
            a, b = SNAP[sk](), SNAP[sk]()
            a.insert(NX['DiGraph' if sk == 'SDG' else 'Graph']([(1, 2)]), start=0, end=1)
            a.graph['x'] = 1
            if len(b) or b.graph or len(SNAP[sk]()) or SNAP[sk]().graph:
                raise Violation('two separate %s share snapshots or attributes' % SNAP[sk].__name__)
            rec.bucket('snapshot instances')

    def same_arguments(self, case, w, G, M, kind, rng, rec):
        """Two graphs fed from the same Python objects (lists, attribute dictionaries)."""
        H = CLASSES[kind]()
        d = {'w': 1, 'color': 'red'}
        nodes = [(n, d) for n in M.nodes]
        edges = [tuple(e[:2]) + tuple(e[2]) for e in M.edges.values()]
        K = CLASSES[kind]()
        for X in (H, K):
            X.add_nodes_from(nodes, **d)
            X.add_edges_from(edges, **d)
            X.graph.update(d)
        before = whole(H, kind)
        vandal_graph(K, M, kind, rng)
        self.check(case, 'two graphs filled from the same objects', before, whole(H, kind))
        if d != {'w': 1, 'color': 'red'} or any(x[1] is not d for x in nodes):
            raise Violation('filling a %s changed the dictionary it was given: %r' % (CLASSES[kind].__name__, d))
        attr = {'name': 'n'}
        X = CLASSES[kind](**attr)
        X.graph['z'] = 1
        X.name = 'other'
        if attr != {'name': 'n'}:
            raise Violation('the attribute dictionary given to %s was changed' % CLASSES[kind].__name__)
        # one attribute dictionary for several items of one call
        if len(M.nodes) > 1:
            ns = list(M.nodes)
            H.add_node(ns[0], solo=1)
            for n, a in H.nodes(data=True):
                if n != ns[0] and 'solo' in a:
                    raise Violation('two nodes of a %s share their attributes' % CLASSES[kind].__name__)


CHECKS = [C32, C33, C34, C35, C36, C37, C38]
