"""C52: arguments by position and by name."""
import os
from collections import Counter

import networkx as nx

import dynetworkx as dnx

from .checks_conv import scratch
from .checks_snap import STATS
from .core import Check
from .execute import CLASSES, SNAP, Violation, args_text, norm_nx, norm_snap
from .model import INTERVAL
from .values import show

# the public signatures as documented: required names, then names with their default
_W = (('begin', None), ('end', None))
_TF, _TT = ('inclusive', (True, False)), ('inclusive', (True, True))
_DATA = (('data', False), ('default', None))
_SEL = (('sbunch', None), ('start', None), ('end', None))


def _edge_table(kind):
    iv, di = kind in INTERVAL, kind in ('IDG', 'PDG')
    inc = () if iv else (_TF,)
    last = (('overlapping', True),) if iv else (_TT if di else _TF,)
    times = (('edge_interval_data' if iv else 'edge_timestamp_data', False),)
    flags = (('multigraph', False), ('edge_data', False)) + times + (('node_data', False),)
    need = (('begin',), ('end',))
    t = {
        'add_edge': (('u',), ('v',)) + (need if iv else (('t',),)),
        'add_edges_from': (('ebunch_to_add',),),
        'add_node': (('node_for_adding',),),
        'add_nodes_from': (('nodes_for_adding',),),
        'degree': (('node', None),) + _W + (('delta', False),) + inc,
        'edges': (('u', None), ('v', None)) + _W + inc + _DATA,
        'has_edge': (('u',), ('v',)) + _W + last,
        'has_node': (('n',),) + _W + inc,
        'nodes': _W + inc + _DATA,
        'number_of_nodes': _W + inc,
        'remove_edge': (('u',), ('v',)) + _W + last,
        'remove_node': (('n',),) + _W + inc,
        'save_to_txt': (('path',), ('delimiter', ' ')),
        'to_networkx_graph': (need if iv else _W) + inc + flags,
        'to_subgraph': need + inc + flags,
        'to_snapshots': (('number_of_snapshots', False), ('length_of_snapshots', False)) + flags + (('return_length', False),),
        'to_snapshot_graph': flags,
    }
    if di:
        t['in_degree'] = t['out_degree'] = t['degree']
    if iv:
        for n in ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'):
            t[n] = _W + (_TT,)
        t['from_networkx_graph'] = (('graph',), ('begin', 'begin'), ('end', 'end'))
        t['from_snapshot_graph'] = (('snapshot_graph',), ('begin', 0), ('period', 1))
        t['load_from_txt'] = (('path',), ('delimiter', ' '), ('nodetype', int), ('intervaltype', float),
                              ('order', ('u', 'v', 'begin', 'end')), ('merge', (False, 0)), ('predict', False),
                              ('comments', '#'))
    else:
        t['from_networkx_graph'] = (('graph',), ('timestamp', 'timestamp'))
        t['load_from_txt'] = (('path',), ('delimiter', ' '), ('nodetype', int), ('timestamptype', float),
                              ('order', ('u', 'v', 't')), ('predict', False), ('comments', '#'))
    if kind == 'PDG':
        t['count_temporal_motif'] = (('sequence',), ('delta',))
    return t


def _snap_table(kind):
    t = {n: _SEL for n in ('get', 'is_directed', 'is_multigraph', 'number_of_nodes', 'order', 'to_directed', 'to_undirected')}
    t.update({
        'add_edges_from': (('ebunch',),) + _SEL,
        'add_nodes_from': (('nbunch',),) + _SEL,
        'add_snapshot': (('ebunch', None), ('graph', None), ('start', None), ('end', None), ('time', None)) +
                        ((('multi', False),) if kind == 'SDG' else ()),
        'compute_network_statistic': (('nx_statistic_function',),) + _SEL,
        'degree': (('sbunch', None), ('nbunch', None), ('start', None), ('end', None), ('weight', None)),
        'has_node': (('n',),) + _SEL,
        'insert': (('graph',), ('start', None), ('end', None), ('time', None)),
        'load_from_txt': (('path',), ('delimiter', ';'), ('comments', '#'), ('start', 'start'), ('end', 'end')),
        'save_to_txt': (('path',), ('delimiter', ';'), ('start', 'start'), ('end', 'end')),
        'size': _SEL + (('weight', None),),
        'subgraph': (('nbunch',),) + _SEL,
    })
    return t


TABLE = {k: _edge_table(k) for k in CLASSES}
TABLE.update({k: _snap_table(k) for k in SNAP})
CONVERT = {'int': int, 'float': float, 'str': str}
UPDATES = ('add_edge', 'add_edges_from', 'add_node', 'add_nodes_from', 'remove_edge', 'remove_node', 'add_snapshot', 'insert')


def same(x):
    if isinstance(x, nx.Graph):
        return norm_nx(x)
    if isinstance(x, dnx.SnapshotGraph):
        return norm_snap(x)
    if isinstance(x, tuple(CLASSES.values())):
        return type(x).__name__, same(list(x.edges(data=True))), same(list(x.nodes(data=True)))
    if isinstance(x, dict):
        return 'D', frozenset((k, same(v)) for k, v in x.items())
    if isinstance(x, tuple):
        return tuple(same(y) for y in x)
    if isinstance(x, (str, int, float)) or x is None:
        return type(x).__name__, x
    if hasattr(x, 'to_numpy'):          # table of a motif count
        return 'T', frozenset(zip(x.index, map(tuple, x.to_numpy().tolist()))), tuple(x.columns)
    if hasattr(x, '__iter__'):
        return 'L', frozenset(Counter(same(y) for y in x).items())
    return x


class C52(Check):
    pid = 'C52'
    technique = 'runtime monitoring: twin monitor: every call by name repeated on a twin with its arguments by position'
    quick, thorough = 9000, 300000
    shrink_fields = ('calls', 'base')
    required = tuple('%s.%s' % (k, n) for k in TABLE for n in TABLE[k]) + \
        ('all by position', 'some by position', 'gap filled with the default')
    rule = ('a case is two equal graphs and a list of calls with a chosen set of arguments, given by their documented '
            'names to the one and by their documented positions to the other; answers and graphs are compared after '
            'each call; non-trivial when an optional argument was given by position')

    # ------------------------------------------------------------- generation
    def gen(self, rng, i, tier):
        kind = tuple(TABLE)[i % len(TABLE)]
        names = sorted(TABLE[kind])
        base = [self.item(rng, kind) for _ in range(rng.choice((2, 4, 7, 10)))]
        calls = []
        for k in range(4):
            name = names[(i // len(TABLE) * 4 + k) % len(names)] if k < 2 else rng.choice(names)
            calls.append(self.call(rng, kind, name, base))
        return {'kind': kind, 'base': base, 'calls': calls}

    def item(self, rng, kind):
        if kind in SNAP:
            b = rng.randint(-3, 8)
            return [[self.pair(rng) for _ in range(rng.randint(1, 4))], b, b + rng.choice((0, 1, 2, 4))]
        t = rng.randint(-4, 9)
        return self.pair(rng) + ((t, t + rng.choice((0, 1, 3, 8))) if kind in INTERVAL else (t,)) + \
            ({'w': rng.randint(1, 9)} if rng.random() < .7 else {},)

    def pair(self, rng):
        return rng.randint(0, 4), rng.randint(0, 4)

    def call(self, rng, kind, name, base):
        sig = TABLE[kind][name]
        need = [p[0] for p in sig if len(p) == 1]
        kw = {p: self.value(rng, kind, name, p, base) for p in need}
        for p in [p[0] for p in sig[len(need):]]:
            if rng.random() < .55:
                kw[p] = self.value(rng, kind, name, p, base)
        self.sense(rng, kind, name, kw, base)
        given = [j for j, p in enumerate(sig) if p[0] in kw]
        split = rng.randint(len(need), given[-1] + 1) if given and rng.random() < .4 else len(sig)
        more = {'color': rng.choice(('red', 'blue'))} if name in UPDATES[:4] and rng.random() < .4 else {}
        return [name, kw, split, more]

    def value(self, rng, kind, name, p, base):
        b = rng.choice(base)
        if p in ('begin', 'end', 'start') and name not in ('from_networkx_graph', 'from_snapshot_graph', 'load_from_txt',
                                                           'save_to_txt'):
            return rng.randint(-4, 12)
        if p in ('u', 'v', 'n', 'node', 'node_for_adding'):
            x = b[0][0] if kind in SNAP else b
            return x[1] if p == 'v' else x[0]
        if p == 'ebunch_to_add':
            return [self.item(rng, kind)[:-1] for _ in range(2)]
        if p == 'ebunch':
            return [self.pair(rng) for _ in range(3)]
        if p in ('nodes_for_adding', 'nbunch'):
            return rng.sample(range(7), 3)
        if p == 'sequence':
            return rng.choice((((1, 2), (2, 3)), ((1, 2), (2, 1)), ((1, 2), (1, 3)), ((1, 2),)))
        return {
            't': rng.randint(-4, 9), 'time': rng.randint(-4, 9), 'delta': rng.choice((1, 3, 6)) if name.startswith('count') else True,
            'inclusive': rng.choice(((True, True), (False, False), (False, True), (True, False))),
            'data': rng.choice((True, 'w', 'absent')), 'default': rng.choice((7, 'none')), 'overlapping': rng.random() < .3,
            'multigraph': True, 'edge_data': True, 'edge_interval_data': True, 'edge_timestamp_data': True, 'node_data': True,
            'return_length': True, 'number_of_snapshots': rng.choice((2, 3, 4)), 'length_of_snapshots': rng.choice((1, 2, 5)),
            'delimiter': rng.choice((',', '|', '::')), 'path': 'f', 'graph': [self.pair(rng) for _ in range(3)],
            'snapshot_graph': [[self.pair(rng) for _ in range(3)] for _ in range(3)], 'period': rng.choice((2, 5, .5)),
            'nodetype': rng.choice(('str', 'float')), 'intervaltype': 'int', 'timestamptype': 'int',
            'order': rng.sample(['u', 'v'] + (['begin', 'end'] if kind in INTERVAL else ['t']), 4 if kind in INTERVAL else 3),
            'merge': (True, rng.choice((0, 1, 3))), 'predict': False, 'comments': rng.choice(('%', '//')),
            'sbunch': [rng.randrange(2) for _ in range(rng.randint(1, 3))], 'weight': 'w',
            'nx_statistic_function': 'edges', 'multi': True, 'timestamp': 'x' if name == 'from_networkx_graph' else 't',
            'begin': 'x' if name == 'from_networkx_graph' else rng.choice((3, -2, .5)),
            'end': 'y' if name == 'from_networkx_graph' else 'till', 'start': 'from',
        }[p]

    def sense(self, rng, kind, name, kw, base):
        """Turn a drawn set of arguments into a documented call."""
        a, b = ('start', 'end') if kind in SNAP else ('begin', 'end')
        if isinstance(kw.get(a), int) and isinstance(kw.get(b), int) and not name.startswith('from_') and kw[a] > kw[b]:
            kw[a], kw[b] = kw[b], kw[a]
        if 'sbunch' in kw and ('start' in kw or 'end' in kw):
            for p in (('sbunch',) if rng.random() < .5 else ('start', 'end')):
                kw.pop(p, None)
        if name in ('insert', 'add_snapshot'):
            if rng.random() < .4:
                kw['time'] = 3
                kw.pop('start', None), kw.pop('end', None)
            else:
                kw.pop('time', None)
                kw['start'], kw['end'] = sorted((rng.randint(-4, 9), rng.randint(-4, 9)))
            if name == 'add_snapshot':
                if 'graph' in kw:
                    kw.pop('ebunch', None)
                else:
                    kw['ebunch'] = [self.pair(rng) for _ in range(3)]
        if name == 'to_snapshots':
            kw.pop(rng.choice(('number_of_snapshots', 'length_of_snapshots')), None)
            if 'length_of_snapshots' not in kw:
                kw['number_of_snapshots'] = rng.choice((2, 3, 5))
        if 'overlapping' in kw:
            x = rng.choice(base)
            if not kw['overlapping']:
                kw.update(u=x[0], v=x[1], begin=x[2], end=x[3])
        if name in ('edges',) and rng.random() < .5:
            kw.pop('u', None), kw.pop('v', None)
        if 'delta' in kw and 'degree' in name:
            kw.setdefault('node', rng.choice(base)[0])

    # ------------------------------------------------------------- execution
    def make(self, kind, base):
        if kind in SNAP:
            S = SNAP[kind]()
            for es, b, e in base:
                g = nx.DiGraph() if kind == 'SDG' else nx.Graph()
                g.add_edges_from(es, w=2)
                S.insert(g, b, e)
            return S
        G = CLASSES[kind]()
        for e in base:
            G.add_edge(*e[:-1], **e[-1])
            G.add_node(e[0], **e[-1])
        return G

    def resolve(self, kind, name, kw, d):
        out = dict(kw)
        di = kind in ('IDG', 'PDG', 'SDG')
        if name == 'from_networkx_graph':
            g = nx.MultiDiGraph() if di else nx.MultiGraph()
            for j, (u, v) in enumerate(kw['graph']):
                g.add_edge(u, v, w=j, x=j, y=j + 5, begin=j + 20, end=j + 21, timestamp=j + 40)
            # an end name given alone (or a begin name) leaves the other at its default
            for _, _, a in g.edges(data=True):
                if kw.get('begin') == 'x' and 'end' not in kw:
                    a['end'] = a['x'] + 1
                if kw.get('end') == 'y' and 'begin' not in kw:
                    a['begin'] = a['y'] - 1
            out['graph'] = g
        elif 'graph' in kw:
            g = nx.DiGraph() if di else nx.Graph()
            g.add_edges_from(kw['graph'], w=3)
            out['graph'] = g
        if 'snapshot_graph' in kw:
            S = SNAP['SDG' if di else 'SG']()
            for j, es in enumerate(kw['snapshot_graph']):
                S.add_snapshot(es, start=j, end=j + 1)
            out['snapshot_graph'] = S
        for p in ('nodetype', 'intervaltype', 'timestamptype'):
            if p in kw:
                out[p] = CONVERT[kw[p]]
        if 'nx_statistic_function' in kw:
            out['nx_statistic_function'] = STATS[kw['nx_statistic_function']]
        if 'path' in kw:
            out['path'] = os.path.join(d, kw['path'])
            if name == 'load_from_txt':
                with open(out['path'], 'w') as f:
                    f.write(self.text(kind, kw))
        return out

    def text(self, kind, kw):
        c = kw.get('comments', '#')
        if kind in SNAP:
            s, e, dl = kw.get('start', 'start'), kw.get('end', 'end'), kw.get('delimiter', ';')
            rows = [dl.join(('0 1 0', '%d 0 2' % (k % 2), '0 2 0')) + ' %s=%d %s=%d' % (s, k, e, k + 2) for k in range(3)]
            if kind == 'SG':
                rows = [r.replace('0 1 0', '0 %d 0' % (k % 2)) for k, r in enumerate(rows)]
            return '\n'.join(r + ' ' + c + ' note' for r in rows) + '\n'
        order = kw.get('order', ['u', 'v'] + (['begin', 'end'] if kind in INTERVAL else ['t']))
        dl = kw.get('delimiter', ' ')
        rows = []
        for j in range(4):
            f = {'u': j % 2, 'v': 2, 'begin': j, 'end': j + 1 + j % 2, 't': j}
            rows.append(dl.join([str(f[x]) for x in order] + ['w=%d' % (j % 2)]) + ' ' + c + ' 9 9')
        return '\n'.join(rows) + '\n'

    def outcome(self, G, name, args, kw, path):
        try:
            f = (lambda *a, **k: dnx.count_temporal_motif(G, *a, **k)) if name.startswith('count') else getattr(G, name)
            x = f(*args, **kw)
            if name == 'save_to_txt':
                with open(path) as fh:
                    return 'text', fh.read()
            return 'answer', same(x)
        except (nx.NetworkXError, TypeError, ValueError, LookupError, ArithmeticError) as e:
            return 'raised', type(e).__name__

    def run(self, case, rec):
        kind = case['kind']
        G, H = self.make(kind, case['base']), self.make(kind, case['base'])
        for name, kw, split, more in case['calls']:
            if any(s >= len(G) for s in kw.get('sbunch', ())):
                continue
            if kind not in SNAP and name not in UPDATES and not name.startswith(('from_', 'load')) and not G.edges():
                continue
            sig = TABLE[kind][name]
            with scratch() as d:
                by_name = self.resolve(kind, name, kw, d)
                a = self.outcome(G, name, (), dict(by_name, **more), by_name.get('path'))
            with scratch() as d:
                rest = self.resolve(kind, name, kw, d)
                path = rest.get('path')
                last = max((j for j, p in enumerate(sig) if p[0] in kw), default=-1)
                args, gap = [], False
                for p in sig[:min(split, last + 1)]:
                    gap = gap or p[0] not in rest
                    args.append(rest.pop(p[0]) if p[0] in rest else p[1])
                b = self.outcome(H, name, args, dict(rest, **more), path)
            rec.event('call compared')
            rec.bucket('%s.%s' % (kind, name))
            if a[0] == 'raised':
                rec.event('rejected call compared')
            if gap:
                rec.bucket('gap filled with the default')
            rec.bucket('some by position' if rest else 'all by position')
            if len(args) > sum(1 for p in sig if len(p) == 1):
                rec.nontrivial = True
            text = '%s.%s(%s)' % (type(G).__name__, name, args_text(dict(kw, **more)))
            if a != b:
                raise Violation('%s by name: %s; with the first %d by position: %s'
                                % (text, show(a), len(args), show(b)))
            if a[0] == 'raised' and a[1] == 'TypeError':
                raise Violation('%s raised TypeError' % text)
            if name in UPDATES + ('add_nodes_from', 'add_edges_from') and same(G) != same(H):
                raise Violation('%s by name left %s; with the first %d by position: %s'
                                % (text, show(same(G)), len(args), show(same(H))))
            rec.state((kind, name, tuple(kw), split))


CHECKS = [C52]
