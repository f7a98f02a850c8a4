"""Reference models.

EdgeModel: what the four edge-list classes promise, written as plain lists and
set comprehensions (no trees, no adjacency, no caches).  The kinds are
'IG' IntervalGraph, 'IDG' IntervalDiGraph, 'PG' ImpulseGraph, 'PDG' ImpulseDiGraph.
"""
from .values import N, T, MS, fz

KINDS = ('IG', 'IDG', 'PG', 'PDG')
INTERVAL = ('IG', 'IDG')
IMPULSE = ('PG', 'PDG')


def is_directed(kind):
    return kind in ('IDG', 'PDG')


def in_window(kind, times, begin=None, end=None, inclusive=(True, False)):
    """The window rule of C02 (intervals) and C03 (impulses)."""
    if kind in INTERVAL:
        lo, hi = times
        before_end = end is None or lo < end
        after_begin = begin is None or hi > begin
        if begin is not None and lo == begin:
            return True
        return before_end and after_begin
    (t,) = times
    if begin is not None and end is not None and begin == end:
        return t == begin
    ok_b = begin is None or t > begin or (bool(inclusive[0]) and t == begin)
    ok_e = end is None or t < end or (bool(inclusive[1]) and t == end)
    return ok_b and ok_e


class EdgeModel:
    def __init__(self, kind):
        self.kind = kind
        self.directed = is_directed(kind)
        self.interval_kind = kind in INTERVAL
        self.nodes = {}
        self.edges = {}

    # ------------------------------------------------------------- basics
    def pair(self, u, v):
        return ('DP', N(u), N(v)) if self.directed else ('UP', frozenset((N(u), N(v))))

    def key(self, u, v, times):
        return (self.pair(u, v), tuple(times))

    def touches(self, e, n):
        return e[0] == n or e[1] == n

    def joins(self, e, u, v):
        if e[0] == u and e[1] == v:
            return True
        return not self.directed and e[0] == v and e[1] == u

    def sel(self, e, w):
        return in_window(self.kind, e[2], w.get('begin'), w.get('end'), w.get('inclusive', (True, False)))

    def event_times(self):
        return sorted({t for e in self.edges.values() for t in e[2]})

    # ------------------------------------------------------------- updates
    def add_node(self, n, attr):
        self.nodes.setdefault(n, {}).update(attr)

    def add_edge(self, u, v, times, attr):
        self.nodes.setdefault(u, {})
        self.nodes.setdefault(v, {})
        k = self.key(u, v, times)
        if k in self.edges:
            self.edges[k][3].update(attr)
        else:
            self.edges[k] = (u, v, tuple(times), dict(attr))

    def chosen_for_removal(self, u, v, w):
        if w.get('overlapping', True) is False:
            return [k for k, e in self.edges.items()
                    if self.joins(e, u, v) and e[2] == (w['begin'], w['end'])]
        return [k for k, e in self.edges.items() if self.joins(e, u, v) and self.sel(e, w)]

    def remove_edge(self, u, v, w):
        ks = self.chosen_for_removal(u, v, w)
        for k in ks:
            del self.edges[k]
        return len(ks)

    def remove_node(self, n, w):
        if n not in self.nodes:
            return 0
        ks = [k for k, e in self.edges.items() if self.touches(e, n) and self.sel(e, w)]
        for k in ks:
            del self.edges[k]
        if not any(self.touches(e, n) for e in self.edges.values()):
            del self.nodes[n]
        return len(ks)

    # ------------------------------------------------------------- queries
    def pack(self, x):
        """None, one node, or a collection of nodes (C04)."""
        if x is None:
            return None
        if isinstance(x, str):
            return [x]
        try:
            if x in self.nodes:
                return [x]
        except TypeError:
            pass
        try:
            return list(x)
        except TypeError:
            return [x]

    def node_match(self, e, us, vs):
        if us is None and vs is None:
            return True
        if self.directed:
            return (us is None or e[0] in us) and (vs is None or e[1] in vs)
        ways = ((e[0], e[1]), (e[1], e[0]))
        return any((us is None or a in us) and (vs is None or b in vs) for a, b in ways)

    def select(self, kw):
        us, vs = self.pack(kw.get('u')), self.pack(kw.get('v'))
        return [e for e in self.edges.values() if self.node_match(e, us, vs) and self.sel(e, kw)]

    def edge_norm(self, e):
        return (self.pair(e[0], e[1]),) + tuple(T(t) for t in e[2])

    def q_edges(self, kw):
        data = kw.get('data', False)
        out = []
        for e in self.select(kw):
            n = self.edge_norm(e)
            if data is False:
                out.append(n)
            elif data is True:
                out.append((n, fz(e[3])))
            else:
                out.append((n, fz(e[3][data] if data in e[3] else kw.get('default'))))
        return MS(out)

    def q_has_edge(self, kw):
        u, v = kw['u'], kw['v']
        return bool(self.chosen_for_removal(u, v, kw))

    def windowed(self, kw):
        return kw.get('begin') is not None or kw.get('end') is not None

    def node_set(self, kw):
        if not self.windowed(kw):
            return set(self.nodes)
        return {n for e in self.edges.values() if self.sel(e, kw) for n in e[:2]}

    def q_nodes(self, kw):
        data = kw.get('data', False)
        out = []
        for n in self.node_set(kw):
            a = self.nodes[n]
            if data is False:
                out.append(N(n))
            elif data is True:
                out.append((N(n), fz(a)))
            else:
                out.append((N(n), fz(a[data] if data in a else kw.get('default'))))
        return MS(out)

    def q_has_node(self, kw):
        return kw['n'] in self.node_set(kw)

    def q_number_of_nodes(self, kw):
        return len(self.node_set(kw))

    def q_len(self, kw):
        return len(self.nodes)

    def q_contains(self, kw):
        return kw['n'] in self.nodes

    def q_interval(self, kw):
        if not self.edges:
            return ('no edges',)
        return (T(min(e[2][0] for e in self.edges.values())), T(max(e[2][-1] for e in self.edges.values())))

    def q_uniq(self, kw):
        which = kw['which']
        ts = set()
        for e in self.edges.values():
            if which in ('unique_timestamps', 'unique_begin_timestamps'):
                ts.add(e[2][0])
            if which in ('unique_timestamps', 'unique_end_timestamps'):
                ts.add(e[2][1])
        inc = kw.get('inclusive', (True, True))
        b, e = kw.get('begin'), kw.get('end')
        return tuple(T(t) for t in sorted(ts)
                     if (b is None or t > b or (inc[0] and t == b)) and (e is None or t < e or (inc[1] and t == e)))

    def incident(self, kind, n, w):
        """Edges counted for degree kind of n, with multiplicity (directed self-loop twice)."""
        out = []
        for e in self.edges.values():
            if not self.sel(e, w):
                continue
            if not self.directed:
                if self.touches(e, n):
                    out.append(e)
            else:
                if kind in ('degree', 'out_degree') and e[0] == n:
                    out.append(e)
                if kind in ('degree', 'in_degree') and e[1] == n:
                    out.append(e)
        return out

    def deg_window(self, kw):
        w = {k: kw[k] for k in ('begin', 'end', 'inclusive') if k in kw}
        return w

    def q_degree(self, kw):
        which, w = kw.get('which', 'degree'), self.deg_window(kw)
        if kw.get('node') is not None:
            return len(self.incident(which, kw['node'], w))
        ns = self.node_set(w)
        if not ns:
            return ('no nodes',)
        total = sum(len(self.incident(which, n, w)) for n in ns)
        return ('mean', round(total / len(ns), 9))

    def q_delta(self, kw):
        """Final degree after each change time."""
        which, n = kw.get('which', 'degree'), kw['node']
        if not self.interval_kind:
            w = self.deg_window(kw)
            if self.kind == 'PG' and w.get('end') is None:
                w['inclusive'] = (w.get('inclusive', (True, False))[0], True)
            cnt = {}
            for e in self.incident(which, n, w):
                cnt[e[2][0]] = cnt.get(e[2][0], 0) + 1
            return MS([(T(t), c) for t, c in cnt.items()])
        span = self.q_interval({})
        begin = kw.get('begin') if kw.get('begin') is not None else span[0][1]
        end = kw.get('end') if kw.get('end') is not None else span[1][1]
        inc = self.incident(which, n, {'begin': begin, 'end': end})
        times = sorted({t for e in inc for t in e[2] if begin <= t < end})
        return tuple((T(t), sum(1 for e in inc if e[2][0] <= t < e[2][1])) for t in times)

    # ------------------------------------------------------------- state
    def q_state(self, kw=None):
        return ('state', self.q_edges({'data': True}), self.q_nodes({'data': True}))
