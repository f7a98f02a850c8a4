"""Drive the real library (public API only) and bring its answers to normal form.

Operations are plain tuples so that a case can be printed, shrunk and replayed:
  ('node', n, attrs)            ('nodes', [n | (n, attrs)...], attrs)
  ('edge', u, v, times, attrs)  ('edges', [(u, v, *times)...], attrs)
  ('rm_edge', u, v, window)     ('rm_node', n, window)
  ('train', seed)               ('route', None | 'node' | 'time')
  ('q', name, kwargs)
"""
import random

import networkx as nx

import dynetworkx as dnx
from .model import EdgeModel, INTERVAL
from .values import COMPOUND, N, T, MS, fresh, fz, show


class Violation(Exception):
    pass


CLASSES = {'IG': dnx.IntervalGraph, 'IDG': dnx.IntervalDiGraph,
           'PG': dnx.ImpulseGraph, 'PDG': dnx.ImpulseDiGraph}
SNAP = {'SG': dnx.SnapshotGraph, 'SDG': dnx.SnapshotDiGraph}

SIG_I = {'edges': ('u', 'v', 'begin', 'end', 'data', 'default'),
         'has_edge': ('u', 'v', 'begin', 'end', 'overlapping'),
         'remove_edge': ('u', 'v', 'begin', 'end', 'overlapping'),
         'remove_node': ('n', 'begin', 'end'),
         'nodes': ('begin', 'end', 'data', 'default'),
         'has_node': ('n', 'begin', 'end'),
         'number_of_nodes': ('begin', 'end'),
         'degree': ('node', 'begin', 'end', 'delta')}
SIG_P = {'edges': ('u', 'v', 'begin', 'end', 'inclusive', 'data', 'default'),
         'has_edge': ('u', 'v', 'begin', 'end', 'inclusive'),
         'remove_edge': ('u', 'v', 'begin', 'end', 'inclusive'),
         'remove_node': ('n', 'begin', 'end', 'inclusive'),
         'nodes': ('begin', 'end', 'inclusive', 'data', 'default'),
         'has_node': ('n', 'begin', 'end', 'inclusive'),
         'number_of_nodes': ('begin', 'end', 'inclusive'),
         'degree': ('node', 'begin', 'end', 'delta', 'inclusive')}
FRESH = ('u', 'v', 'n', 'node', 'begin', 'end')      # given as equal objects, not the ones the graph holds
FIRST_REQUIRED = {'has_edge': 2, 'remove_edge': 2, 'remove_node': 1, 'has_node': 1}


def bunch(xs, form):
    """A list, handed over as something else."""
    xs = list(xs)
    if form == 'keys':
        try:
            return dict.fromkeys(xs).keys() if len(set(xs)) == len(xs) else tuple(xs)
        except TypeError:
            return tuple(xs)
    return {'list': list, 'tuple': tuple, 'iter': iter, 'lists': lambda ys: [list(y) for y in ys]}[form](xs)


def call(G, kind, name, kw):
    """G.name(...): the first kw['_pos'] parameters by position, the rest by name."""
    kw = dict(kw)
    pos = kw.pop('_pos', 0)
    for p in FRESH:
        if p in kw:
            kw[p] = fresh(kw[p])
    for p, form in (('u', kw.pop('_u', None)), ('v', kw.pop('_v', None))):
        if form and isinstance(kw.get(p), list):
            kw[p] = bunch(kw[p], form)
    sig = (SIG_I if kind in INTERVAL else SIG_P).get(name)
    args = []
    if sig:
        pos = max(pos, FIRST_REQUIRED.get(name, 0))
        for p in sig[:pos]:
            if p in kw:
                args.append(kw.pop(p))
            elif p in ('u', 'v', 'begin', 'end', 'node'):
                args.append(None)
            else:
                break
    return getattr(G, name)(*args, **kw)


def clean(kw):
    return {k: fresh(v) if k in FRESH else v for k, v in kw.items() if not k.startswith('_') and k != 'which'}


# ---------------------------------------------------------------- normal forms of answers
def pair(directed, u, v):
    return ('DP', N(u), N(v)) if directed else ('UP', frozenset((N(u), N(v))))


def norm_edge(M, e):
    n = 4 if M.interval_kind else 3
    if not isinstance(e, tuple) or len(e) != n:
        raise Violation('malformed edge in an answer: %r' % (e,))
    return (pair(M.directed, e[0], e[1]),) + tuple(T(t) for t in e[2:])


def norm_edges(M, answer, data=False):
    out = []
    for item in answer:
        if data is False:
            out.append(norm_edge(M, item))
        else:
            if not isinstance(item, tuple) or len(item) != 2:
                raise Violation('malformed edge with data in an answer: %r' % (item,))
            out.append((norm_edge(M, item[0]), fz(item[1])))
    return MS(out)


def norm_nodes(answer, data=False):
    if data is False:
        return MS([N(n) for n in answer])
    return MS([(N(n), fz(d)) for n, d in answer])


def norm_nx(g, times=(), loose=None):
    """Kind, nodes with data and edges with data of a networkx graph; `times` names time attributes."""
    f = loose or fz

    def data(d, times=times):
        return ('A', frozenset((k, T(v) if k in times else f(v)) for k, v in d.items()))
    return ('nx', g.is_directed(), g.is_multigraph(),
            MS([(N(n), data(d, ())) for n, d in g.nodes(data=True)]),
            MS([(pair(g.is_directed(), u, v), data(d)) for u, v, d in g.edges(data=True)]))


# ---------------------------------------------------------------- queries on the real graph
def q_real(G, M, name, kw):
    kind = M.kind
    if name == 'edges':
        return norm_edges(M, call(G, kind, 'edges', kw), kw.get('data', False))
    if name == 'has_edge':
        return bool(call(G, kind, 'has_edge', kw))
    if name == 'nodes':
        return norm_nodes(call(G, kind, 'nodes', kw), kw.get('data', False))
    if name == 'has_node':
        return bool(call(G, kind, 'has_node', kw))
    if name == 'number_of_nodes':
        return call(G, kind, 'number_of_nodes', kw)
    if name == 'len':
        return len(G)
    if name == 'contains':
        return kw['n'] in G
    if name == 'interval':
        if not M.edges:
            return ('no edges',)
        a = G.interval()
        return tuple(T(t) for t in a)
    if name == 'uniq':
        a = getattr(G, kw['which'])(**clean(kw))
        return tuple(T(t) for t in a)
    if name == 'degree':
        if kw.get('node') is None and not M.node_set(M.deg_window(kw)):
            return ('no nodes',)
        k = {x: kw[x] for x in kw if x != 'which'}
        a = call(G, kind, 'degree', k) if kw.get('which', 'degree') == 'degree' \
            else getattr(G, kw['which'])(**clean(kw))
        return a if kw.get('node') is not None else ('mean', round(a, 9))
    if name == 'delta':
        a = list(getattr(G, kw.get('which', 'degree'))(delta=True, **clean(kw)))
        if not M.interval_kind:
            return MS([(T(t), c) for t, c in a])
        ts = [t for t, _ in a]
        if any(x > y for x, y in zip(ts, ts[1:])):
            raise Violation('degree changes are not in time order: %r' % (a,))
        last = {}
        for t, d in a:
            last[t] = d
        return tuple((T(t), d) for t, d in last.items())
    if name == 'state':
        return ('state', norm_edges(M, G.edges(data=True), True), norm_nodes(G.nodes(data=True), True))
    if name == 'to_subgraph' or name == 'to_networkx_graph':
        g = getattr(G, name)(**clean(kw))
        return norm_nx(g, time_keys(M))
    if name == 'to_snapshots':
        a = G.to_snapshots(**clean(kw))
        if kw.get('return_length'):
            gs, length = a
            return ('snaps', tuple(norm_nx(g, time_keys(M)) for g in gs), ('length', length))
        return ('snaps', tuple(norm_nx(g, time_keys(M)) for g in a))
    if name == 'to_snapshot_graph':
        return norm_snap(G.to_snapshot_graph(**clean(kw)), time_keys(M))
    raise ValueError(name)


def norm_snap(S, times=()):
    return ('snapgraph', tuple(((T(k[0]), T(k[1])), norm_nx(g, times)) for k, g in S.snapshots.items()))


def time_keys(M):
    return ('begin', 'end') if M.interval_kind else ('timestamp',)


def q_model(M, name, kw):
    return getattr(M, 'q_' + name)(kw)


# ---------------------------------------------------------------- running a history
def ambiguous(M, name, kw):
    """A tuple or frozenset that names no present node is read as a collection; not a question about a node."""
    for p in ('node',):
        x = kw.get(p)
        if isinstance(x, COMPOUND) and x not in M.nodes:
            return True
    return False


class World:
    """One real graph and its model, driven in lockstep."""

    def __init__(self, kind, rec, attr=None):
        self.kind = kind
        self.rec = rec
        self.G = CLASSES[kind](**(attr or {}))
        self.M = EdgeModel(kind)

    def apply(self, op):
        """One update on both sides; returns how many edges the model saw removed/added."""
        G, M, name = self.G, self.M, op[0]
        self.rec.event('update:' + name)
        if name == 'node':
            G.add_node(fresh(op[1]), **op[2])
            M.add_node(op[1], op[2])
        elif name == 'nodes':
            G.add_nodes_from(bunch(op[1], op[3] if len(op) > 3 else 'list'), **op[2])
            for x in op[1]:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                    M.add_node(x[0], {**op[2], **x[1]})
                else:
                    M.add_node(x, op[2])
        elif name == 'edge':
            before = len(M.edges)
            M.add_edge(op[1], op[2], op[3], op[4])
            if len(M.edges) == before:
                self.rec.bucket('edge given again')
            G.add_edge(fresh(op[1]), fresh(op[2]), *fresh(op[3]), **op[4])
        elif name == 'edges':
            G.add_edges_from(bunch(op[1], op[3] if len(op) > 3 else 'list'), **op[2])
            for e in op[1]:
                M.add_edge(e[0], e[1], e[2:], op[2])
        elif name == 'rm_edge':
            w = op[3]
            mw = dict(w)
            if self.kind == 'PDG':
                mw.setdefault('inclusive', (True, True))
            k = M.remove_edge(op[1], op[2], mw)
            if k:
                self.rec.bucket('removal that removed')
            call(G, self.kind, 'remove_edge', dict(w, u=op[1], v=op[2]))
        elif name == 'rm_node':
            had = op[1] in M.nodes
            k = M.remove_node(op[1], op[2])
            if k or had:
                self.rec.bucket('removal that removed')
            call(G, self.kind, 'remove_node', dict(op[2], n=op[1]))
        elif name == 'attr':
            # through the attribute dictionary in an answer, where a key may have any name
            e = M.edges.get(M.key(op[1], op[2], op[3]))
            if e is not None:
                for x, d in G.edges(data=True):
                    if norm_edge(M, x) == M.edge_norm(e):
                        d[op[4]] = e[3][op[4]] = op[5]
        elif name == 'train':
            if M.edges:
                random.seed(op[1])
                G.generate_predictive_model(training_size=op[2])
        else:
            raise ValueError(op)

    def ask(self, name, kw, where=''):
        """One query on both sides, compared."""
        mkw = kw
        if self.kind == 'PDG' and name == 'has_edge' and 'inclusive' not in kw:
            mkw = dict(kw, inclusive=(True, True))
        want = q_model(self.M, name, mkw)
        got = q_real(self.G, self.M, name, kw)
        self.rec.event('query:' + name)
        if got != want:
            raise Violation('%s%s %s(%s): library answered %s, expected %s'
                            % (where, CLASSES[self.kind].__name__, kw.get('which', name), args_text(kw),
                               show(got), show(want)))
        return want


def args_text(kw):
    return ', '.join('%s=%r' % (k, v) for k, v in kw.items() if k not in ('which', '_pos'))
