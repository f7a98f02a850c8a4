"""C24-C29: snapshot graphs."""
import copy
import os
from fractions import Fraction

import networkx as nx

from . import values as V
from .checks_conv import scratch
from .core import Check
from .execute import SNAP, Violation, args_text, norm_nx
from .values import MS, N, T, fz, show

NX = {'Graph': nx.Graph, 'DiGraph': nx.DiGraph, 'MultiGraph': nx.MultiGraph, 'MultiDiGraph': nx.MultiDiGraph}
SATTR = ['weight', 'w', 'color', 'label', 'a b', '0']
SVALS = [0, 1, 2, 1.5, -.5, .25, 4.0]
BIG = 10 ** 9


def graph_spec(rng, directed, labels, multi=.15, empty=.1):
    name = ('DiGraph' if directed else 'Graph')
    if rng.random() < multi:
        name = 'Multi' + name
    if rng.random() < empty:
        return {'cls': name, 'nodes': [], 'edges': [], 'graph': {}}
    nodes = [(n, V.attrs(rng, .4, SATTR)) for n in rng.sample(labels, rng.randint(0, min(3, len(labels))))]
    edges = [(rng.choice(labels), rng.choice(labels), V.attrs(rng, .6, SATTR[:2] if rng.random() < .7 else SATTR, SVALS))
             for _ in range(rng.choice((0, 1, 2, 3, 5) if len(labels) < 7 else (3, 8, 16)))]
    return {'cls': name, 'nodes': nodes, 'edges': edges, 'graph': V.attrs(rng, .2, ['name', 'tag'])}


def build(spec):
    g = NX[spec['cls']]()
    g.graph.update(spec['graph'])
    g.add_nodes_from((n, dict(a)) for n, a in spec['nodes'])
    g.add_edges_from((u, v, dict(a)) for u, v, a in spec['edges'])
    return g


def norm(g):
    return norm_nx(g) + (fz(dict(g.graph)),)


def disjoint_keys(rng, k, shared_instants=True, odd=False):
    """k disjoint intervals / instants in time order, some adjacent, some with gaps."""
    unit = rng.choice((1, 1, 1, 2, .5, .25))
    t = rng.choice((0, 0, -2, -5, 3, 100)) * unit
    if odd and rng.random() < .08:      # times that floats cannot hold
        unit, t = rng.choice(((1, 2 ** 60 + 1), (Fraction(1, 3), Fraction(-1)), (Fraction(1, 7), Fraction(0))))
    if unit < 1 and rng.random() < .3:
        t = float(t)
    out = []
    inst_p = rng.choice((0, 0, .2, .6))
    gap_p = rng.choice((0, .3, .7))
    while len(out) < k:
        if rng.random() < inst_p:
            out.append((t, t))
            if shared_instants and rng.random() < .3:
                out.append((t, t + unit))
                t = t + unit
            else:
                t = t + unit * rng.choice((1, 1, 2))
        else:
            e = t + unit * rng.choice((1, 1, 2, 3, 6))
            out.append((t, e))
            t = e
        if rng.random() < gap_p:
            t = t + unit * rng.choice((1, 2))
    return out[:max(k, 0)]


def key_times(keys):
    return sorted({t for k in keys for t in k})


def bound(rng, keys):
    ts = key_times(keys)
    r = rng.random()
    if ts and r < .5:
        return rng.choice(ts)
    if ts and r < .85:
        a = rng.choice(ts)
        return a + rng.choice((.5, -.5, .25, 1, -1, 0, .125))
    return rng.choice((0, 0.0, -BIG, BIG, 1, -1))


def window(rng, keys, none=.15, half=.2):
    r = rng.random()
    if r < none:
        return {}
    a, b = bound(rng, keys), bound(rng, keys)
    if r < none + half:
        return {'start': a} if rng.random() < .5 else {'end': b}
    if a == b:
        b = a + rng.choice((.5, 1, 3))
        if a == b:                      # lost in rounding
            return {'start': a}
    return {'start': min(a, b), 'end': max(a, b)}


def in_win(key, w):
    s, e = w.get('start'), w.get('end')
    if key[0] == key[1]:
        return (s is None or s <= key[0]) and (e is None or key[0] < e)
    return (s is None or key[1] > s) and (e is None or key[0] < e)


def selection(rng, keys, n):
    """Window, indexes or everything."""
    r = rng.random()
    if r < .35 and n:
        if rng.random() < .12:
            return {'sbunch': []}
        k = rng.choice((1, 1, 2, 3)) if rng.random() < .95 else rng.choice((n, n + 3, 20))
        idx = [rng.randrange(n) for _ in range(k)]
        if rng.random() < .1:
            idx = [j - n if rng.random() < .6 else j for j in idx]      # counted from the end
        return {'sbunch': tuple(idx) if rng.random() < .2 else idx}
    if r < .4:
        return {'sbunch': []}
    return window(rng, keys)


def off(sel, n):
    """Does the selection name an index that does not exist?"""
    return any(not -n <= i < n for i in sel.get('sbunch', ()))


def selected(keys, sel):
    """Positions selected, in answer order."""
    if 'sbunch' in sel:
        return [i + len(keys) if i < 0 else i for i in sel['sbunch']]
    return [i for i, k in enumerate(keys) if in_win(k, sel)]


class SnapCase(Check):
    """Snapshots inserted in random order; `kind` is SG or SDG."""
    shrink_fields = ('snaps', 'ops')
    shared_instants = True
    odd = True
    multi = .15
    empty = .1

    def base(self, rng, i, label_style=None):
        kind = ('SG', 'SDG')[i % 2]
        labels = V.labels(rng, rng.randint(1, 5) if rng.random() < .96 else 12, label_style)
        n = rng.choice((0, 1, 2, 3, 4, 6, 9)) if rng.random() < .97 else 40
        keys = disjoint_keys(rng, n, self.shared_instants, self.odd)
        snaps = [[k, graph_spec(rng, kind == 'SDG', labels, self.multi, self.empty)] for k in keys]
        rng.shuffle(snaps)
        return kind, labels, keys, snaps

    def load(self, case, rec):
        """(snapshot graph, [(key, graph)] in time order); the graphs are the inserted objects."""
        S = SNAP[case['kind']](**case.get('attr', {}))
        held = []
        for k, spec in case['snaps']:
            g = build(spec)
            if k[0] == k[1]:
                S.insert(g, time=k[0])
            else:
                S.insert(g, start=k[0], end=k[1])
            held.append((tuple(k), g))
            rec.event('insert')
        held.sort(key=lambda x: x[0])
        rec.bucket('class ' + case['kind'])
        return S, held


def who(g, held):
    for i, (_, h) in enumerate(held):
        if g is h:
            return i
    return '?'


# ------------------------------------------------------------------------------------------------ C24
class C24(Check):
    pid = 'C24'
    quick, thorough = 37000, 1200000
    required = ('graph overwritten', 'instant', 'interval', 'edge list', 'empty edge list', 'graph without nodes',
                'inserted before others', 'multi edge list', 'edge given twice', 'edges given as tuple', 'edges given as iter', 'class SG', 'class SDG')
    rule = ('a case is a sequence of insert/add_snapshot calls; after each, len, iteration, get, indexes and '
            'membership are compared with a plain dictionary; non-trivial when snapshots were inserted out of order '
            'or overwritten')

    def gen(self, rng, i, tier):
        kind = ('SG', 'SDG')[i % 2]
        labels = V.labels(rng, rng.randint(1, 5))
        unit = rng.choice((1, 1, .5, 100))
        ops = []
        for _ in range(rng.choice((1, 2, 3, 5, 8, 14))):
            a = rng.randint(-3, 5) * unit
            b = a + rng.choice((0, 1, 1, 2, 4)) * unit
            if a == b and rng.random() < .7:
                at = {'time': a}
            else:
                at = {'start': a, 'end': b}
            r = rng.random()
            if r < .35:
                ops.append(['insert', graph_spec(rng, kind == 'SDG', labels), at])
            elif r < .65:
                ops.append(['add', graph_spec(rng, kind == 'SDG', labels), at])
            else:
                eb = []
                for _ in range(rng.choice((0, 1, 2, 4))):
                    e = (rng.choice(labels), rng.choice(labels))
                    if eb and rng.random() < .3:
                        e = rng.choice(eb)[:2]
                        if rng.random() < .3:
                            e = e[::-1]
                    eb.append(e + (V.attrs(rng, 1, SATTR),) if rng.random() < .4 else e)
                extra = {'multi': rng.random() < .5} if kind == 'SDG' and rng.random() < .5 else {}
                ops.append(['edges', eb, dict(at, **extra), rng.choice(('list', 'list', 'tuple', 'iter', 'dict'))])
        return {'kind': kind, 'ops': ops}

    def run(self, case, rec):
        kind = case['kind']
        S = SNAP[kind]()
        rec.bucket('class ' + kind)
        held, gone = {}, []
        for op, arg, kw, *given_as in case['ops']:
            key = (kw['time'], kw['time']) if 'time' in kw else (kw['start'], kw['end'])
            rec.bucket('instant' if key[0] == key[1] else 'interval')
            if key in held:
                gone.append(held[key][0])
                rec.bucket('graph overwritten')
                rec.nontrivial = True
            elif held and key < max(held):
                rec.bucket('inserted before others')
                rec.nontrivial = True
            if op in ('insert', 'add'):
                g = build(arg)
                if len(g) == 0:
                    rec.bucket('graph without nodes')
                if op == 'insert':
                    S.insert(g, **kw)
                else:
                    S.add_snapshot(graph=g, **kw)
                held[key] = (g, None)
            else:
                arg = [tuple(e) for e in arg]
                form = given_as[0] if given_as else 'list'
                if form == 'dict' and any(len(e) == 3 for e in arg):
                    form = 'tuple'
                eb = {'list': list, 'tuple': tuple, 'iter': iter, 'dict': dict.fromkeys}[form](arg)
                if form == 'dict':
                    arg = list(eb)
                S.add_snapshot(eb, **kw)
                rec.bucket('edges given as ' + form)
                if len({e[:2] for e in arg}) < len(arg):
                    rec.bucket('edge given twice')
                want = NX[('Multi' if kw.get('multi') else '') + ('DiGraph' if kind == 'SDG' else 'Graph')]()
                want.add_edges_from(arg)
                held[key] = (None, want)
                rec.bucket('edge list' if arg else 'empty edge list')
                if kw.get('multi'):
                    rec.bucket('multi edge list')
            rec.event(op)
            self.compare(S, held, gone, '%s(%s)' % (op, args_text(kw)), rec)
        rec.state((kind, tuple(sorted(held))))

    def compare(self, S, held, gone, where, rec):
        keys = sorted(held)
        if len(S) != len(keys):
            raise Violation('after %s: len is %r, expected %d' % (where, len(S), len(keys)))
        if [tuple(k) for k in S.snapshots.keys()] != keys:
            raise Violation('after %s: intervals are %r, expected %r' % (where, list(S.snapshots.keys()), keys))
        for name, seq in (('iteration', list(S)), ('get()', S.get()),
                          ('get(indexes)', S.get(sbunch=range(len(keys))))):
            if len(seq) != len(keys):
                raise Violation('after %s: %s gives %d graphs, expected %d' % (where, name, len(seq), len(keys)))
            for k, g in zip(keys, seq):
                given, want = held[k]
                if given is not None:
                    if g is not given:
                        raise Violation('after %s: %s has not the graph given last for %r' % (where, name, k))
                elif norm(g) != norm(want):
                    raise Violation('after %s: %s gives for %r %s, expected %s'
                                    % (where, name, k, show(norm(g)), show(norm(want))))
                rec.event('graph compared')
        for k in keys:
            g = S.snapshots[k]
            if g not in S:
                raise Violation('after %s: the graph of %r is not a member' % (where, k))
        for g in gone:
            if g is not None and not any(g is h[0] for h in held.values()) and g in S:
                raise Violation('after %s: an overwritten graph is still a member' % where)
        if nx.path_graph(2) in S:
            raise Violation('after %s: a graph never inserted is a member' % where)


# ------------------------------------------------------------------------------------------------ C25
class C25(SnapCase):
    pid = 'C25'
    quick, thorough = 100000, 3400000
    required = ('index from the end', 'by window', 'by index', 'no index', 'some selected', 'none selected', 'bound cuts a snapshot',
                'bound on a boundary', 'half open window', 'bound is zero', 'both given', 'instant selected',
                'class SG', 'class SDG')
    rule = ('a case is a snapshot graph with disjoint intervals and instants inserted in random order and get() '
            'questions by window or index; the graphs returned are compared by identity; non-trivial when some but '
            'not all snapshots were returned')

    def gen(self, rng, i, tier):
        kind, labels, keys, snaps = self.base(rng, i)
        ops = []
        for _ in range(8):
            if rng.random() < .06:
                sel = dict(window(rng, keys, none=0), sbunch=rng.choice(([], [0], [0, 1])))
            else:
                sel = selection(rng, keys, len(keys))
            ops.append(sel)
        return {'kind': kind, 'snaps': snaps, 'ops': ops}

    def run(self, case, rec):
        S, held = self.load(case, rec)
        keys = [k for k, _ in held]
        for sel in case['ops']:
            where = '%s.get(%s) over %r' % (type(S).__name__, args_text(sel), keys)
            if 'sbunch' in sel and len(sel) > 1:
                try:
                    S.get(**sel)
                except ValueError:
                    rec.bucket('both given')
                    continue
                raise Violation('%s: window and indexes together were not rejected' % where)
            if off(sel, len(keys)):
                continue
            want = selected(keys, sel)
            got = [who(g, held) for g in S.get(**sel)]
            rec.event('query:get')
            if got != want:
                raise Violation('%s returned snapshots %r, expected %r' % (where, got, want))
            if 'sbunch' in sel:
                rec.bucket('by index' if sel['sbunch'] else 'no index')
                if any(i < 0 for i in sel['sbunch']):
                    rec.bucket('index from the end')
            else:
                rec.bucket('by window')
                rec.bucket('some selected' if want else 'none selected')
                if len(sel) == 1:
                    rec.bucket('half open window')
                for b in sel.values():
                    if b == 0:
                        rec.bucket('bound is zero')
                    if b in key_times(keys):
                        rec.bucket('bound on a boundary')
                    if any(k[0] < b < k[1] for k in keys):
                        rec.bucket('bound cuts a snapshot')
                if any(keys[i][0] == keys[i][1] for i in want):
                    rec.bucket('instant selected')
            if 0 < len(want) < len(keys):
                rec.nontrivial = True
        rec.state((case['kind'], tuple(keys)))


# ------------------------------------------------------------------------------------------------ C26
class C26(SnapCase):
    pid = 'C26'
    shared_instants = False
    quick, thorough = 28000, 960000
    required = ('values of a split snapshot', 'split at start', 'split at end', 'both bounds in one snapshot', 'by index', 'nothing in the window',
                'nodes', 'edges', 'repeated updates', 'bound on a boundary', 'half open window', 'class SG', 'class SDG')
    rule = ('a case is a snapshot graph with disjoint snapshots and a sequence of add_nodes_from/add_edges_from calls '
            'by window, index or neither; intervals and contents of all snapshots are compared after each; '
            'non-trivial when a snapshot was split')

    def gen(self, rng, i, tier):
        kind, labels, keys, snaps = self.base(rng, i)
        keys = list(keys)
        ops = []
        cur = list(keys)
        for _ in range(rng.choice((1, 1, 2, 3, 5))):
            sel = selection(rng, cur, len(cur))
            attrs = V.attrs(rng, .5, SATTR)
            if rng.random() < .5:
                xs = [(n, V.attrs(rng, 1, SATTR)) if rng.random() < .4 else n
                      for n in rng.sample(labels, rng.randint(1, len(labels)))]
                if rng.random() < .4:
                    xs.append('new')
                # a tuple label of length 2 would be read by networkx as (node, data)
                xs = [x for x in xs if not (isinstance(x, tuple) and len(x) == 2 and not isinstance(x[1], dict))]
                ops.append(['nodes', xs, sel, attrs])
            else:
                es = []
                for _ in range(rng.choice((1, 1, 2, 3))):
                    e = (rng.choice(labels), rng.choice(labels))
                    es.append(e + (V.attrs(rng, 1, SATTR),) if rng.random() < .4 else e)
                ops.append(['edges', es, sel, attrs])
            cur = split_keys(cur, sel)
        return {'kind': kind, 'snaps': snaps, 'ops': ops, 'deep': rng.random() < .3}

    def run(self, case, rec):
        S, held = self.load(case, rec)
        if case.get('deep'):        # values that could be shared between the parts of a split snapshot
            for g in [g for _, g in held] + list(S.snapshots.values()):
                for _, d in list(g.nodes(data=True))[:2]:
                    d.setdefault('tags', ['t'])
                for x in list(g.edges(data=True))[:2]:
                    x[2].setdefault('path', {'at': [1]})
        model = [(k, copy.deepcopy(g)) for k, g in held]
        for n, (what, xs, sel, attrs) in enumerate(case['ops']):
            keys = [k for k, _ in model]
            if off(sel, len(keys)):
                continue
            if 'sbunch' not in sel:
                new = []
                for k, g in model:
                    parts = split_keys([k], sel)
                    if len(parts) == 3:
                        rec.bucket('both bounds in one snapshot')
                    if len(parts) > 1:
                        rec.nontrivial = True
                        if any(p[0] == sel.get('start') for p in parts[1:]):
                            rec.bucket('split at start')
                        if any(p[1] == sel.get('end') for p in parts[:-1]):
                            rec.bucket('split at end')
                    for p in parts:
                        new.append((p, copy.deepcopy(g)))
                model = new
                chosen = [i for i, (k, _) in enumerate(model) if in_win(k, sel)]
                if not chosen:
                    rec.bucket('nothing in the window')
                if len(sel) == 1:
                    rec.bucket('half open window')
                if any(b in key_times(keys) for b in sel.values()):
                    rec.bucket('bound on a boundary')
            else:
                chosen = list(sel['sbunch'])
                rec.bucket('by index')
            for i in chosen:
                g = model[i][1]
                if what == 'nodes':
                    g.add_nodes_from(copy.deepcopy(xs), **attrs)
                else:
                    g.add_edges_from(copy.deepcopy(xs), **attrs)
            rec.bucket(what)
            rec.event('update:' + what)
            if n:
                rec.bucket('repeated updates')
            getattr(S, 'add_nodes_from' if what == 'nodes' else 'add_edges_from')(copy.deepcopy(xs), **sel, **attrs)
            where = 'after %s.add_%s_from(%r, %s) on %r' % (type(S).__name__, what, xs,
                                                           args_text(dict(sel, **attrs)), keys)
            got = list(S.snapshots.items())
            if [tuple(k) for k, _ in got] != [k for k, _ in model]:
                raise Violation('%s: intervals are %r, expected %r' % (where, [k for k, _ in got], [k for k, _ in model]))
            for (k, g), (_, m) in zip(got, model):
                if norm(g) != norm(m):
                    raise Violation('%s: snapshot %r holds %s, expected %s' % (where, k, show(norm(g)), show(norm(m))))
                rec.event('snapshot compared')
            owner = {}
            for k, g in got if case.get('deep') else ():
                for d in [d for _, d in g.nodes(data=True)] + [x[2] for x in g.edges(data=True)]:
                    for v in [d.get('tags'), d.get('path'), d.get('path', {}).get('at')]:
                        if v is not None and owner.setdefault(id(v), k) != k:
                            raise Violation('%s: snapshots %r and %r share one attribute value %r'
                                            % (where, owner[id(v)], k, v))
                        if v is not None and len(got) > len(keys):
                            rec.bucket('values of a split snapshot')
        rec.state((case['kind'], tuple(k for k, _ in model)))


def split_keys(keys, sel):
    if 'sbunch' in sel:
        return list(keys)
    out = []
    for k in keys:
        cuts = sorted({b for b in (sel.get('start'), sel.get('end')) if b is not None and k[0] < b < k[1]})
        # a window that lies before its own start never cuts
        pts = [k[0]] + cuts + [k[1]]
        out += list(zip(pts, pts[1:])) if k[0] != k[1] else [k]
    return out


# ------------------------------------------------------------------------------------------------ C27
class C27(SnapCase):
    pid = 'C27'
    quick, thorough = 20000, 680000
    required = ('by window', 'by index', 'everything', 'some nodes left out', 'edge kept', 'instant', 'graph attributes',
                'empty result graph', 'class SG', 'class SDG')
    rule = ('a case is a snapshot graph and subgraph calls (nodes, absent nodes, window or indexes); class, graph '
            'attributes, intervals and induced subgraphs are compared with networkx; non-trivial when an edge was '
            'kept and a node left out')

    def gen(self, rng, i, tier):
        kind, labels, keys, snaps = self.base(rng, i)
        ops = []
        for _ in range(4):
            nb = rng.sample(labels, rng.randint(0, len(labels)))
            if rng.random() < .2:
                nb.append('absent')
            if rng.random() < .2:
                nb = set(nb)
            ops.append([nb, selection(rng, keys, len(keys))])
        return {'kind': kind, 'snaps': snaps, 'ops': ops,
                'attr': rng.choice(({}, {'name': 'x'}, {'name': '', 'k': 0}, {'a': 1}))}

    def run(self, case, rec):
        S, held = self.load(case, rec)
        keys = [k for k, _ in held]
        model = [copy.deepcopy(g) for _, g in held]
        for nb, sel in case['ops']:
            if off(sel, len(keys)):
                continue
            where = '%s.subgraph(%r, %s) over %r' % (type(S).__name__, nb, args_text(sel), keys)
            R = S.subgraph(nb, **sel)
            rec.event('query:subgraph')
            if type(R) is not type(S):
                raise Violation('%s returned a %s' % (where, type(R).__name__))
            if dict(R.graph) != case['attr'] or R.name != case['attr'].get('name', ''):
                raise Violation('%s: graph attributes are %r, expected %r' % (where, dict(R.graph), case['attr']))
            if case['attr']:
                rec.bucket('graph attributes')
            idx = sorted(set(selected(keys, sel)))
            got = list(R.snapshots.items())
            if [tuple(k) for k, _ in got] != [keys[i] for i in idx]:
                raise Violation('%s: intervals are %r, expected %r'
                                % (where, [k for k, _ in got], [keys[i] for i in idx]))
            rec.bucket('by index' if 'sbunch' in sel else 'by window' if sel else 'everything')
            for (k, g), i in zip(got, idx):
                want = model[i].subgraph(nb)
                if norm(g) != norm(want):
                    raise Violation('%s: snapshot %r is %s, expected %s' % (where, k, show(norm(g)), show(norm(want))))
                if len(want) < len(model[i]):
                    rec.bucket('some nodes left out')
                    if want.number_of_edges():
                        rec.nontrivial = True
                if want.number_of_edges():
                    rec.bucket('edge kept')
                if k[0] == k[1]:
                    rec.bucket('instant')
                if len(want) == 0:
                    rec.bucket('empty result graph')
            if [tuple(k) for k in S.snapshots.keys()] != keys or dict(S.graph) != case['attr'] or \
                    any(norm(S.snapshots[k]) != norm(m) for k, m in zip(keys, model)):
                raise Violation('%s changed the original' % where)
        rec.state((case['kind'], tuple(keys)))


# ------------------------------------------------------------------------------------------------ C28
def stat_probe(g, a=0, b='dflt'):
    return ('probe', g.number_of_nodes(), g.number_of_edges(), a, b)


def stat_weight(g, key='weight'):
    return sum(d.get(key, 0) for _, _, d in g.edges(data=True) if isinstance(d.get(key, 0), (int, float)))


def stat_none(g):
    return None


STATS = {'density': nx.density, 'edges': nx.number_of_edges, 'probe': stat_probe, 'weight': stat_weight,
         'selfloops': nx.number_of_selfloops, 'none': stat_none}


def norm_answer(x):
    if isinstance(x, nx.Graph):
        return norm(x)
    if isinstance(x, (int, float, bool, tuple, type(None))):
        return x
    return MS([(N(n), d) for n, d in x])


class C28(SnapCase):
    pid = 'C28'
    quick, thorough = 15000, 560000
    METHODS = ('number_of_nodes', 'order', 'size', 'degree', 'has_node', 'is_directed', 'is_multigraph',
               'to_directed', 'to_undirected', 'compute_network_statistic')
    required = METHODS + ('by window', 'by index', 'everything', 'weighted', 'node bunch', 'single node',
                          'keyword arguments', 'empty snapshot measured', 'asked again after a change', 'class SG', 'class SDG')
    rule = ('a case is a snapshot graph and measure calls by window, index or for all; each answer list is compared '
            'with the networkx value per selected snapshot, also after changes between the calls, and the snapshots must stay as they were; non-trivial when at '
            'least two snapshots were measured with different values')

    def gen(self, rng, i, tier):
        kind, labels, keys, snaps = self.base(rng, i, label_style=rng.choice(('int', 'neg', 'str', 'float')))
        ops = []
        for _ in range(8):
            m = rng.choice(self.METHODS)
            sel = selection(rng, keys, len(keys))
            kw = {}
            if m in ('size', 'degree') and rng.random() < .5:
                kw['weight'] = rng.choice(('weight', 'w', 'missing'))
            if m == 'degree' and rng.random() < .6:
                if rng.random() < .3:
                    kw['nbunch'] = rng.choice(labels)
                else:
                    kw['nbunch'] = rng.sample(labels, rng.randint(0, len(labels)))
            if m == 'has_node':
                kw['n'] = rng.choice(labels + ['absent', 0, ''])
            if m == 'compute_network_statistic':
                f = rng.choice(list(STATS))
                kw['nx_statistic_function'] = f
                if f == 'probe' and rng.random() < .7:
                    kw.update({k: rng.choice((0, None, 'x', 5)) for k in rng.sample(['a', 'b'], rng.randint(1, 2))})
                if f == 'weight' and rng.random() < .5:
                    kw['key'] = 'w'
            ops.append([m, sel, kw])
            if rng.random() < .35:      # change some snapshots and ask the same again
                how = rng.choice(('edges', 'edges', 'nodes', 'weights', 'drop'))
                ops.append(['change', selection(rng, keys, len(keys)),
                            {'how': how, 'nodes': [n for n in rng.sample(labels, min(2, len(labels))) if not isinstance(n, tuple)],
                             'pairs': [[rng.choice(labels), rng.choice(labels)] for _ in range(rng.randint(1, 3))],
                             'w': rng.choice(SVALS)}])
                ops.append([m, sel, kw])
        return {'kind': kind, 'snaps': snaps, 'ops': ops}

    def change(self, S, model, keys, sel, kw):
        """The same change by the snapshot graph's own methods (or in its snapshots) and to the models."""
        idx = selected(keys, sel)
        own = kw['how'] in ('edges', 'nodes')
        if own and 'sbunch' not in sel:     # a window would split snapshots
            sel, idx = {}, range(len(keys))
        if kw['how'] == 'edges':
            S.add_edges_from([tuple(p) for p in kw['pairs']], **sel, weight=kw['w'])
        elif kw['how'] == 'nodes':
            S.add_nodes_from(list(kw['nodes']), **sel, w=kw['w'])
        for i in idx:
            for g in (model[i],) if own else (model[i], S.snapshots[keys[i]]):
                if kw['how'] == 'edges':
                    g.add_edges_from([tuple(p) for p in kw['pairs']], weight=kw['w'])
                elif kw['how'] == 'nodes':
                    g.add_nodes_from(list(kw['nodes']), w=kw['w'])
                elif kw['how'] == 'weights':
                    for *_, d in g.edges(data=True):
                        d['weight'] = kw['w']
                else:
                    g.remove_nodes_from(list(kw['nodes']))

    def run(self, case, rec):
        S, held = self.load(case, rec)
        keys = [k for k, _ in held]
        model = [copy.deepcopy(g) for _, g in held]
        for m, sel, kw in case['ops']:
            if off(sel, len(keys)):
                continue
            if m == 'change':
                self.change(S, model, keys, sel, kw)
                rec.bucket('asked again after a change')
                continue
            idx = selected(keys, sel)
            kw = dict(kw)
            if m == 'degree' and 'nbunch' in kw and not isinstance(kw['nbunch'], list):
                if any(kw['nbunch'] not in model[i] for i in idx):
                    continue
                rec.bucket('single node')
            where = '%s.%s(%s) over %r' % (type(S).__name__, m, args_text(dict(sel, **kw)), keys)
            want = []
            for i in idx:
                g = model[i]
                if m == 'degree':
                    want.append(norm_answer(g.degree(kw.get('nbunch'), weight=kw.get('weight'))))
                elif m == 'has_node':
                    want.append(kw['n'] in g)
                elif m == 'compute_network_statistic':
                    k2 = {k: v for k, v in kw.items() if k != 'nx_statistic_function'}
                    want.append(norm_answer(STATS[kw['nx_statistic_function']](g, **k2)))
                else:
                    want.append(norm_answer(getattr(g, m)(**kw)))
            call = dict(kw)
            if m == 'compute_network_statistic':
                call['nx_statistic_function'] = STATS[kw['nx_statistic_function']]
                if len(kw) > 1:
                    rec.bucket('keyword arguments')
            got = getattr(S, m)(**call, **sel)
            rec.event('query:' + m)
            if not isinstance(got, list):
                raise Violation('%s did not return a list but %r' % (where, type(got).__name__))
            got = [norm_answer(x) for x in got]
            if got != want:
                raise Violation('%s answered %s, expected %s' % (where, show(tuple(got)), show(tuple(want))))
            rec.bucket(m)
            rec.bucket('by index' if 'sbunch' in sel else 'by window' if sel else 'everything')
            if kw.get('weight'):
                rec.bucket('weighted')
            if isinstance(kw.get('nbunch'), list):
                rec.bucket('node bunch')
            if any(len(model[i]) == 0 for i in idx):
                rec.bucket('empty snapshot measured')
            if len(idx) >= 2 and len(set(map(repr, want))) > 1:
                rec.nontrivial = True
            if [tuple(k) for k in S.snapshots.keys()] != keys or \
                    any(norm(S.snapshots[k]) != norm(x) for k, x in zip(keys, model)):
                raise Violation('%s changed the snapshots' % where)
        rec.state((case['kind'], tuple(keys)))


# ------------------------------------------------------------------------------------------------ C29
class C29(SnapCase):
    pid = 'C29'
    multi = 0
    empty = 0
    quick, thorough = 30000, 1000000
    required = ('other delimiter', 'other markers', 'weights', 'self-loop', 'instant', 'single node', 'isolated node',
                'edited text', 'class SG', 'class SDG')
    rule = ('a case is a snapshot graph with weighted snapshots saved and loaded with a delimiter and markers (and '
            'the text re-read with comments and blank lines put in); intervals and weighted adjacency by node position '
            'are compared; non-trivial when at least one edge was written')
    WEIGHTS = [1, 2, .5, -1, 3.25, 1e-9, 1e20, 0.1, 7, -2.5, 123456.789, 0.1 + 0.2,
               1 / 3, 12345678901234.5, -0.12345678901234567, 2 ** 53 - 1, 1e-300]

    def gen(self, rng, i, tier):
        kind = ('SG', 'SDG')[i % 2]
        labels = V.labels(rng, rng.randint(1, 6))
        snaps = []
        for k in disjoint_keys(rng, rng.choice((1, 1, 2, 3, 6))):
            nodes = rng.sample(labels, rng.randint(1, len(labels)))
            edges = []
            for _ in range(rng.choice((0, 1, 2, 4, 8))):
                a = {} if rng.random() < .35 else {'weight': rng.choice(self.WEIGHTS)}
                if rng.random() < .2:
                    a['color'] = 'red'
                edges.append((rng.choice(labels), rng.choice(labels), a))
            snaps.append([k, {'cls': 'DiGraph' if kind == 'SDG' else 'Graph', 'graph': {},
                              'nodes': [(n, {}) for n in nodes], 'edges': edges}])
        rng.shuffle(snaps)
        return {'kind': kind, 'snaps': snaps, 'delimiter': rng.choice((None, None, ',', '|', '::', '/', '_', 'x', ' ; ')),
                'markers': rng.choice((None, None, ('begin', 'stop'), ('s', 't'), ('START', 'END'), ('t0', 't1'),
                                       ('end', 'start'), ('from', 'to'), ('start', 'startend'))),
                'noise': [rng.randint(0, 5) for _ in range(rng.choice((0, 0, 1, 2, 3)))],
                'comments': rng.choice(('#', '#', '%'))}

    def run(self, case, rec):
        S, held = self.load(case, rec)
        if not held:
            return
        kw = {}
        if case['delimiter'] is not None:
            kw['delimiter'] = case['delimiter']
        if case['markers']:
            kw['start'], kw['end'] = case['markers']
        with scratch() as d:
            path = os.path.join(d, 's.txt')
            S.save_to_txt(path, **kw)
            lkw = dict(kw)
            if case['noise']:
                with open(path) as f:
                    lines = f.read().split('\n')
                c = case['comments']
                for r in case['noise']:
                    extra = ['', c + ' comment', '  ', ' ' + c + ' indented', c + 'start=1 end=2', ''][r]
                    if r == 5:
                        lines[0] = lines[0] + ' ' + c + ' note' if c not in lines[0] else lines[0]
                    else:
                        lines.insert(r % (len(lines) + 1), extra)
                with open(path, 'w') as f:
                    f.write('\n'.join(lines))
                if c != '#':
                    lkw['comments'] = c
                rec.bucket('edited text')
            L = type(S).load_from_txt(path, **lkw)
        rec.event('save and load')
        where = '%s saved and loaded with %s' % (type(S).__name__, args_text(lkw))
        if type(L) is not type(S):
            raise Violation('%s: a %s was loaded' % (where, type(L).__name__))
        got = list(L.snapshots.items())
        if [tuple(k) for k, _ in got] != [k for k, _ in held]:
            raise Violation('%s: intervals are %r, expected %r' % (where, [k for k, _ in got], [k for k, _ in held]))
        for (k, g), (_, h) in zip(got, held):
            pos = {n: i for i, n in enumerate(h.nodes)}
            if g.is_directed() != h.is_directed() or list(g.nodes) != list(range(len(h))):
                raise Violation('%s: snapshot %r has kind/nodes %s %r' % (where, k, type(g).__name__, list(g.nodes)))
            want = {}
            for u, v, a in h.edges(data=True):
                p = (pos[u], pos[v]) if h.is_directed() else frozenset((pos[u], pos[v]))
                want[p] = float(a.get('weight', 1))
            have = {}
            for u, v, a in g.edges(data=True):
                p = (u, v) if h.is_directed() else frozenset((u, v))
                if p in have:
                    raise Violation('%s: snapshot %r has a double edge %r' % (where, k, p))
                have[p] = a.get('weight', 1)
            if have != want:
                raise Violation('%s: snapshot %r has weights %r, expected %r' % (where, k, have, want))
            rec.event('snapshot compared')
            if want:
                rec.nontrivial = True
            if any('weight' in a for _, _, a in h.edges(data=True)):
                rec.bucket('weights')
            if any(u == v for u, v in h.edges()):
                rec.bucket('self-loop')
            if k[0] == k[1]:
                rec.bucket('instant')
            if len(h) == 1:
                rec.bucket('single node')
            if any(h.degree(n) == 0 for n in h):
                rec.bucket('isolated node')
        if case['delimiter']:
            rec.bucket('other delimiter')
        if case['markers']:
            rec.bucket('other markers')
        rec.state((case['kind'], tuple(k for k, _ in held)))


CHECKS = [C24, C25, C26, C27, C28, C29]
