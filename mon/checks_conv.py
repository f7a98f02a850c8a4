"""C17-C23: conversions between representations, and text files."""
import os
import random
import shutil
import tempfile
from contextlib import contextmanager
from fractions import Fraction

import networkx as nx

from . import values as V
from .checks_edge import EdgeCheck, check_projection, projection_flags, size_of, time_named
from .core import Check
from .execute import CLASSES, SNAP, Violation, World, args_text, norm_edges, norm_nx, time_keys
from .gen import EXACT, Gen
from .model import EdgeModel, INTERVAL, KINDS, in_window, is_directed
from .values import MS, N, T, fz, fz_loose, show


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ C17
class C17(EdgeCheck):
    pid = 'C17'

    def gen(self, rng, i, tier):
        return time_named(rng, EdgeCheck.gen(self, rng, i, tier))

    quick, thorough = 7400, 250000
    final = 5
    probe = .1
    per_probe = 1
    profile = {'times': EXACT, 'weights': (.3, .45, .22, .03)}
    required = ('by number', 'by length', 'length returned', 'last snapshot has edges at the very end',
                'edge in several snapshots', 'length does not divide the span', 'answer: some', 'class IG',
                'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history with to_snapshots questions (by number or length, all flags) on times for '
            'which the window bounds are exact; each graph is compared with the projection of its window; '
            'non-trivial when at least two snapshots differed and were non-empty')

    def questions(self, g):
        rng = g.rng
        kw = projection_flags(rng, g.kind)
        r = rng.random()
        if r < .55:
            kw['number_of_snapshots'] = rng.choice((2, 2, 3, 4, 4, 5, 6, 7, 8, 10, 16, 32))
        else:
            L = rng.choice((.25, .5, 1, 1, 2, 3, 4, 5, 7, 1.5, 2.0, 2.5, .75, 10, 100))
            kw['length_of_snapshots'] = L
        if rng.random() < .3:
            kw['return_length'] = rng.random() < .8
        return [('q', 'to_snapshots', kw)]

    def ask(self, w, name, kw, rec):
        M = w.M
        if not M.edges:
            return
        (_, b), (_, e) = M.q_interval({})
        if not b < e:
            return
        span = e - b
        if 'number_of_snapshots' in kw:
            n = kw['number_of_snapshots']
            L = span / n
            if Fraction(L) * n != Fraction(span) or Fraction(L).denominator > 1 << 20:
                return                       # bounds would be rounded
            rec.bucket('by number')
        else:
            L = kw['length_of_snapshots']
            q = Fraction(span) / Fraction(L)
            n = -(-q.numerator // q.denominator)
            if n < 2 or n > 300:
                return
            rec.bucket('by length')
            if q.denominator != 1:
                rec.bucket('length does not divide the span')
        rec.event('query:to_snapshots')
        where = '%s.to_snapshots(%s)' % (CLASSES[w.kind].__name__, args_text(kw))
        a = w.G.to_snapshots(**kw)
        if kw.get('return_length'):
            if not (isinstance(a, tuple) and len(a) == 2):
                raise Violation('%s: no (snapshots, length) pair returned' % where)
            a, length = a
            rec.bucket('length returned')
            if length != L:
                raise Violation('%s: returned length %r, used length is %r' % (where, length, L))
        if len(a) != n:
            raise Violation('%s: %d snapshots returned, expected %d' % (where, len(a), n))
        seen = {}
        filled = 0
        for i, g in enumerate(a):
            lo, hi = b + L * i, b + L * (i + 1)
            edges = [x for x in M.edges.values()
                     if in_window(w.kind, x[2], lo, None if i == n - 1 else hi)]
            check_projection(M, g, edges, kw, '%s: snapshot %d of %d' % (where, i, n))
            filled += bool(edges)
            for x in edges:
                seen[id(x)] = seen.get(id(x), 0) + 1
            if i == n - 1 and any(x[2][0] == e for x in edges):
                rec.bucket('last snapshot has edges at the very end')
        rec.event('snapshots checked', n)
        if any(id(x) not in seen for x in M.edges.values()):
            raise Violation('%s: an edge is in no snapshot' % where)
        if any(k > 1 for k in seen.values()):
            rec.bucket('edge in several snapshots')
        if filled >= 2:
            rec.bucket('answer: some')
            rec.nontrivial = True


# ------------------------------------------------------------------------------------------------ C18
class C18(EdgeCheck):
    pid = 'C18'
    quick, thorough = 16000, 570000
    final = 2
    probe = .1
    per_probe = 1
    profile = {'weights': (.34, .46, .2, .0), 'times': V.TIME_STYLES}
    required = ('several periods', 'empty period', 'zero-length instant', 'many edges at one time', 'class IG',
                'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history with to_snapshot_graph questions (all flags); the keys must be exactly the '
            'periods between changes (and instants) and each graph the projection of its period; non-trivial when '
            'there were at least two snapshots')

    def questions(self, g):
        return [('q', 'to_snapshot_graph', projection_flags(g.rng, g.kind))]

    def ask(self, w, name, kw, rec):
        M = w.M
        rec.event('query:to_snapshot_graph')
        where = '%s.to_snapshot_graph(%s)' % (CLASSES[w.kind].__name__, args_text(kw))
        S = w.G.to_snapshot_graph(**kw)
        if M.interval_kind:
            pts = sorted({t for e in M.edges.values() if e[2][0] < e[2][1] for t in e[2]})
            keys = list(zip(pts, pts[1:]))
            inst = {(e[2][0], e[2][0]) for e in M.edges.values() if e[2][0] == e[2][1]}
            if inst:
                rec.bucket('zero-length instant')
            keys = sorted(set(keys) | inst)
        else:
            keys = [(t, t) for t in M.event_times()]
        got = list(S.snapshots.items())
        if [tuple(k) for k, _ in got] != keys:
            raise Violation('%s: snapshot intervals are %r, expected %r' % (where, [k for k, _ in got], keys))
        if len(S) != len(keys):
            raise Violation('%s: len is %r, expected %d' % (where, len(S), len(keys)))
        for (b, e), g in got:
            edges = [x for x in M.edges.values() if in_window(w.kind, x[2], b, e)]
            check_projection(M, g, edges, kw, '%s: snapshot [%r, %r)' % (where, b, e))
            if not edges:
                rec.bucket('empty period')
            if len(edges) >= 3:
                rec.bucket('many edges at one time')
        rec.event('snapshots checked', len(got))
        if len(got) >= 2:
            rec.bucket('several periods')
            rec.nontrivial = True


# ------------------------------------------------------------------------------------------------ C19
# from snapshots: also names that are parameters of add_edge
ATTR19 = ['w', 'color', 'weight', 'label', 'a b', '0', 'begin', 'u', 't']


def random_snapshot_edges(rng, labels, directed, base=None):
    """[(u, v, attrs)]: partly kept from the previous snapshot."""
    out = {}
    if base:
        for u, v, a in base:
            if rng.random() < .65:
                if not directed and rng.random() < .4:
                    u, v = v, u
                out[(u, v)] = a if rng.random() < .5 else V.attrs(rng, .6, ATTR19)
    for _ in range(rng.choice((0, 1, 1, 2, 3, 6))):
        u, v = rng.choice(labels), rng.choice(labels)
        if not directed and (v, u) in out:
            continue
        out[(u, v)] = V.attrs(rng, .5, ATTR19)
    edges = [(u, v, a) for (u, v), a in out.items()]
    rng.shuffle(edges)
    return edges


class C19(Check):
    pid = 'C19'
    quick, thorough = 35000, 1200000
    shrink_fields = ('snaps', 'windows')
    required = ('several runs of one pair', 'run longer than one snapshot', 'pair given the other way round',
                'attributes differ within a run', 'empty snapshot', 'class IG', 'class IDG', 'default begin and period')
    rule = ('a case is a sequence of snapshots (edges kept, dropped, turned round, attributes changed) with begin and '
            'period; the edges of the converted graph (listing, windows) must be exactly the runs of presence; '
            'non-trivial when some pair has a run longer than one snapshot or several runs')

    def gen(self, rng, i, tier):
        kind = INTERVAL[i % 2]
        directed = is_directed(kind)
        labels = V.labels(rng, rng.randint(1, 5))
        snaps, base = [], None
        for _ in range(rng.choice((1, 2, 3, 4, 5, 8, 12) if rng.random() < .95 else (40,))):
            if rng.random() < .12:
                edges = []
            else:
                edges = random_snapshot_edges(rng, labels, directed, base)
            if edges or rng.random() < .5:
                base = edges
            snaps.append([edges, [rng.choice(labels)] if rng.random() < .1 else []])
        kw = {}
        if rng.random() < .75:
            kw['begin'] = rng.choice((0, 0, 1, -3, 10, .5, -2.25, 10 ** 9))
        if rng.random() < .75:
            kw['period'] = rng.choice((1, 1, 2, 3, .5, .25, 10, 2.5))
        return {'kind': kind, 'snaps': snaps, 'kw': kw, 'step': rng.choice((1, 2, 5)),
                'instants': rng.random() < .2, 'windows': [rng.randint(0, 12) for _ in range(4)]}

    def run(self, case, rec):
        kind, kw = case['kind'], case['kw']
        directed = is_directed(kind)
        rec.bucket('class ' + kind)
        if not kw:
            rec.bucket('default begin and period')
        S = SNAP['SDG' if directed else 'SG']()
        M = EdgeModel(kind)
        begin, period = Fraction(kw.get('begin', 0)), Fraction(kw.get('period', 1))
        runs = {}
        for k, (edges, nodes) in enumerate(case['snaps']):
            g = nx.DiGraph() if directed else nx.Graph()
            g.add_nodes_from(nodes)
            g.add_edges_from((u, v, dict(a)) for u, v, a in edges)
            if case['instants']:
                S.insert(g, time=k * case['step'])
            else:
                S.insert(g, start=k * case['step'], end=(k + 1) * case['step'])
            if not edges:
                rec.bucket('empty snapshot')
            for u, v, a in edges:
                p = M.pair(u, v)
                rs = runs.setdefault(p, [])
                if rs and rs[-1][1] == k:
                    rs[-1][1] = k + 1
                    rec.bucket('run longer than one snapshot')
                    rec.nontrivial = True
                    if rs[-1][2] != (u, v):
                        rec.bucket('pair given the other way round')
                    if fz(rs[-1][3]) != fz(a):
                        rec.bucket('attributes differ within a run')
                else:
                    rs.append([k, k + 1, (u, v), a])
                    if len(rs) > 1:
                        rec.bucket('several runs of one pair')
                        rec.nontrivial = True
        for rs in runs.values():
            for a, b, (u, v), attr in rs:
                M.add_edge(u, v, (begin + a * period, begin + b * period), attr)
        before = [norm_nx(g) for g in S]
        G = CLASSES[kind].from_snapshot_graph(S, **kw)
        rec.event('conversion')
        if type(G) is not CLASSES[kind]:
            raise Violation('from_snapshot_graph of %s returned a %s' % (CLASSES[kind].__name__, type(G).__name__))
        w = World(kind, rec)
        w.G, w.M = G, M
        w.ask('edges', {'data': True}, 'from_snapshot_graph(%s): ' % args_text(kw))
        for k in case['windows']:
            t = float(begin + k * period)
            w.ask('edges', {'begin': t, 'end': t}, 'from_snapshot_graph(%s): ' % args_text(kw))
        if [norm_nx(g) for g in S] != before:
            raise Violation('from_snapshot_graph changed the snapshot graph')
        rec.state((kind, frozenset(M.edges)))


# ------------------------------------------------------------------------------------------------ C20
# attribute names that are names of parameters, of default time attributes, or not strings at all
ODD_KEYS = ['begin', 'end', 'timestamp', 'u', 'v', 't', 'self', 'attr', 0, (1, 2), None]


class C20(Check):
    pid = 'C20'
    quick, thorough = 70000, 2400000
    shrink_fields = ('edges', 'ops')
    required = ('multigraph', 'simple graph', 'parallel edges', 'own attribute names', 'default attribute names',
                'attribute named like a parameter or not a string', 'round trip', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is either a networkx (multi)graph converted with default or given attribute names, or a random '
            'history converted to a networkx multigraph and back; non-trivial when at least two edges were converted')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        if rng.random() < .35:
            g = Gen(rng, kind, weights=(.3, .5, .2, 0))
            return {'kind': kind, 'ops': [g.mutate() for _ in range(g.nops)]}
        labels = V.labels(rng, rng.randint(1, 7))
        times = V.Times(rng.choice(V.TIME_STYLES if kind in INTERVAL else V.TIME_STYLES + ('str',)))
        multi = rng.random() < .6
        directed = is_directed(kind)
        keys = ['w', 'color', 'weight', 'a b', '', 'ts', 'start_', 'name']
        if rng.random() < .25:  # names that mean something to the library, and names that are not strings
            keys += ODD_KEYS
        edges, seen, pairs = [], set(), set()
        for _ in range(rng.choice((0, 1, 2, 4, 8, 20)) if rng.random() < .96 else 150):
            u, v = rng.choice(labels), rng.choice(labels)
            t = times.interval(rng) if kind in INTERVAL else (times.draw(rng),)
            p = (u, v) if directed else frozenset((u, v))
            if (p, t) in seen or (not multi and p in pairs):
                continue
            seen.add((p, t))
            pairs.add(p)
            edges.append((u, v, t, V.attrs(rng, .6, keys)))
        names = None
        if rng.random() < .5:
            names = rng.choice((('start', 'stop'), ('b', 'e'), ('from', 'to'), ('end', 'begin'))) if kind in INTERVAL \
                else rng.choice((('ts',), ('when',), ('time',), ('begin',)))
        for e in edges:
            for n in names or (('begin', 'end') if kind in INTERVAL else ('timestamp',)):
                e[3].pop(n, None)
        return {'kind': kind, 'multi': multi, 'edges': edges, 'names': names, 'nodes': [rng.choice(labels)],
                'keyed': rng.random() < .3}

    def run(self, case, rec):
        kind = case['kind']
        cls = CLASSES[kind]
        rec.bucket('class ' + kind)
        w = World(kind, rec)
        if 'ops' in case:
            for op in case['ops']:
                w.apply(op)
            flags = {'edge_interval_data' if w.M.interval_kind else 'edge_timestamp_data': True}
            X = w.G.to_networkx_graph(begin=None, end=None, multigraph=True, edge_data=True, **flags)
            w.G = cls.from_networkx_graph(X)
            rec.bucket('round trip')
            where = 'round trip through networkx: '
        else:
            directed = is_directed(kind)
            X = {(False, False): nx.Graph, (False, True): nx.MultiGraph, (True, False): nx.DiGraph,
                 (True, True): nx.MultiDiGraph}[directed, case['multi']]()
            names = case['names'] or time_keys(w.M)
            kw = {}
            if case['names']:
                kw = dict(zip(('begin', 'end') if w.M.interval_kind else ('timestamp',), names))
            X.add_nodes_from(case['nodes'], tag=1)
            for k, (u, v, t, a) in enumerate(case['edges']):
                d = dict(a)
                d.update(zip(names, t))
                key = {'key': 'k%d' % k} if case['multi'] and case['keyed'] else {}
                X.add_edge(u, v, **key)
                (X[u][v][key['key']] if key else X[u][v][max(X[u][v])] if case['multi'] else X[u][v]).update(d)
                w.M.add_edge(u, v, t, a)
                if set(a) & set(ODD_KEYS):
                    rec.bucket('attribute named like a parameter or not a string')
            before = norm_nx(X)
            w.G = cls.from_networkx_graph(X, **kw)
            rec.event('conversion')
            if norm_nx(X) != before:
                raise Violation('from_networkx_graph changed the networkx graph')
            rec.bucket('multigraph' if case['multi'] else 'simple graph')
            rec.bucket('own attribute names' if case['names'] else 'default attribute names')
            if case['multi'] and len({w.M.pair(e[0], e[1]) for e in case['edges']}) < len(case['edges']):
                rec.bucket('parallel edges')
            where = 'from_networkx_graph(%s): ' % args_text(kw)
        if type(w.G) is not cls:
            raise Violation('from_networkx_graph of %s returned a %s' % (cls.__name__, type(w.G).__name__))
        w.ask('edges', {'data': True}, where)
        if w.M.edges:
            ts = w.M.event_times()
            for t in ts[:3]:
                w.ask('edges', {'begin': t, 'end': t}, where)
        if len(w.M.edges) >= 2:
            rec.nontrivial = True
        rec.state((kind, frozenset(w.M.edges)))


# ------------------------------------------------------------------------------------------------ C21
DELIMS = (' ', ' ', ',', ';', '\t', '|', '::', '/', '~')
TEXT_VALS = [0, 1, -2, 1.5, -0.25, 1e-7, 123456789, 1.23456789012e-05, 0.1 + 0.2, 98765.4321012345, 'red', 'b', 'x1', 'Blue', '-', 'v:1', 'False', '1/2', 'm/s', '5%', 'a@b', '',
             'Zo\u00eb', '\u6771\u4eac']
LOAD_VALS = TEXT_VALS + ['1e5', '+3', '.5', '7.', 'inf', '-inf', '1_000', '1_0.5', '-1', '--1', '0x10', '1e', 'Infinity', '\u0663']
TEXT_KEYS = ['w', 'color', 'weight', 'k1', 'K', 'z_z', 'timestamp']
LOAD_KEYS = TEXT_KEYS + ['u', 'v', 't', 'begin', 'end', 'self']


def text_labels(rng, nodetype, k, delim):
    if nodetype == 'int':
        pool = [0, 1, 2, 3, 10, -1, -20, 12345678901234567890]
        if rng.random() < .35:
            pool += ['a', 'Bob', 'x1', 'n-2', '1.5']
    elif nodetype == 'float':
        pool = [0.0, .5, -1.25, 3.0, 1e10, 0.1, -7.0]
    else:
        pool = ['a', 'b', 'ab', 'Bob', '0', '1', '-1', '1.0', 'x1', 'A', 'None', 'u', 'v']
        pool += ['Zo\u00eb', '\u6771\u4eac', 'a=b']
        if delim not in (' ', '\t'):
            pool += ['node 7', 'a b']
        # pieces of comment markers that are no marker
        pool += [x for x in ('a/b', '/x', '50%', 'a@b', '@') if delim not in x]
    return rng.sample(pool, min(k, len(pool)))


def parse_value(s):
    try:
        return float(s)
    except ValueError:
        return s


NODETYPES = {'int': int, 'str': str, 'float': float, 'upper': str.upper}


def convert_node(nodetype, s):
    if nodetype == 'int':
        try:
            return int(s)
        except ValueError:
            return s
    return NODETYPES[nodetype](s)


def double(s):
    return float(s) * 2


TIMETYPES = {'float': float, 'int': int, 'str': str, 'double': double}


class C21(Check):
    pid = 'C21'
    quick, thorough = 30000, 1000000
    shrink_fields = ('ops',)
    required = ('edge attributes', 'several edges', 'default delimiter', 'other delimiter', 'string labels',
                'isolated node', 'class IG', 'class IDG', 'class PG', 'class PDG')
    rule = ('a case is a random history saved and loaded with one delimiter, node type and time type; the edges of '
            'the loaded graph (listing and instants) are compared with the saved ones; non-trivial when at least two '
            'edges were saved')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        nodetype = rng.choice(('int', 'int', 'str', 'float'))
        delim = rng.choice(DELIMS)
        timetype = rng.choice(('float', 'float', 'int') + (() if kind in INTERVAL else ('str',)))
        style = {'float': rng.choice(('small', 'dyadic', 'float', 'mixed', 'zero', 'int', 'big')),
                 'int': rng.choice(('small', 'zero', 'int', 'big')), 'str': 'str'}[timetype]
        g = Gen(rng, kind, weights=(.35, .5, .15, 0), times=(style,), attr_p=rng.choice((0, .5, .8)),
                attr_keys=TEXT_KEYS, attr_vals=[x for x in TEXT_VALS if delim not in str(x)])
        g.labels = text_labels(rng, nodetype, len(g.labels), delim)
        ops = [g.mutate() for _ in range(g.nops)]
        if timetype == 'str':
            ops = [op for op in ops if not (op[0] == 'edge' and '' in op[3])
                   and not (op[0] == 'edges' and any(e[2] == '' for e in op[1]))]
        if delim == ' ' and rng.random() < .5:
            delim = None
        return {'kind': kind, 'ops': ops, 'delimiter': delim, 'nodetype': nodetype, 'timetype': timetype,
                'plain': nodetype == 'int' and timetype == 'float' and rng.random() < .5}

    def run(self, case, rec):
        kind = case['kind']
        cls = CLASSES[kind]
        w = World(kind, rec)
        for op in case['ops']:
            w.apply(op)
        M = w.M
        if not M.nodes:
            return
        skw = {} if case['delimiter'] is None else {'delimiter': case['delimiter']}
        lkw = dict(skw)
        if not case['plain']:
            lkw['nodetype'] = NODETYPES[case['nodetype']]
            lkw['intervaltype' if M.interval_kind else 'timestamptype'] = TIMETYPES[case['timetype']]
        with scratch() as d:
            path = os.path.join(d, 'g.txt')
            w.G.save_to_txt(path, **skw)
            H = cls.load_from_txt(path, **lkw)
        rec.event('save and load')
        if type(H) is not cls:
            raise Violation('load_from_txt of %s returned a %s' % (cls.__name__, type(H).__name__))
        want = MS([(M.edge_norm(e), fz_loose(e[3])) for e in M.edges.values()])
        got = MS([(x, fz_loose(dict(y))) for x, y in
                  [(_en(M, e), a) for e, a in H.edges(data=True)]])
        if got != want:
            raise Violation('%s saved and loaded with %s: loaded edges are %s, saved were %s'
                            % (cls.__name__, args_text(dict(skw, nodetype=case['nodetype'], timetype=case['timetype'])),
                               show(got), show(want)))
        for t in M.event_times()[:3]:
            a = norm_edges(M, H.edges(begin=t, end=t))
            b = M.q_edges({'begin': t, 'end': t})
            if a != b:
                raise Violation('loaded %s at %r has edges %s, expected %s' % (cls.__name__, t, show(a), show(b)))
        rec.bucket('class ' + kind)
        rec.bucket('default delimiter' if case['delimiter'] is None else 'other delimiter')
        if any(e[3] for e in M.edges.values()):
            rec.bucket('edge attributes')
        if len(M.edges) >= 2:
            rec.bucket('several edges')
            rec.nontrivial = True
        if any(isinstance(n, str) for n in M.nodes):
            rec.bucket('string labels')
        if len(M.nodes) > len({n for e in M.edges.values() for n in e[:2]}):
            rec.bucket('isolated node')
        rec.state((kind, frozenset(M.edges)))


def _en(M, e):
    n = 4 if M.interval_kind else 3
    if not isinstance(e, tuple) or len(e) != n:
        raise Violation('malformed edge in an answer: %r' % (e,))
    from .execute import norm_edge
    return (norm_edge(M, e),)[0]


# ------------------------------------------------------------------------------------------------ C22
class C22(Check):
    pid = 'C22'
    quick, thorough = 52000, 1800000
    shrink_fields = ('lines',)
    required = ('comment line', 'inline comment', 'blank line', 'indented comment line', 'attributes',
                'columns in another order', 'duration after begin', 'duration before end', 'no final newline',
                'comment marker twice', 'attribute named like a parameter', 'long file', 'letters beyond ASCII',
                'other comment marker', 'converted nodes', 'converted times', 'predict', 'class IG', 'class IDG',
                'class PG', 'class PDG')
    rule = ('a case is a generated text file (column order, delimiter, types, comments, blanks, attributes, '
            'durations) and the edges its lines describe; non-trivial when at least two edges were described')

    def gen(self, rng, i, tier):
        kind = KINDS[i % 4]
        delim = rng.choice(DELIMS)
        nodetype = rng.choice(('int', 'int', 'str', 'float', 'upper'))
        timetype = rng.choice(('float', 'float', 'int', 'double') + (() if kind in INTERVAL else ('str',)))
        comments = rng.choice(('#', '#', '%', '//', '@@', '//', '<!--')) if delim != '/' else rng.choice(('#', '@@'))
        order = None
        if kind in INTERVAL:
            r = rng.random()
            if r < .3:
                order = ['u', 'v', 'begin', 'end']
            elif r < .6:
                order = rng.sample(['u', 'v', 'begin', 'end'], 4)
            else:
                order = rng.sample(['u', 'v', rng.choice(('begin', 'end'))], 3) + \
                    [rng.choice((1, 2, 5, .5, 2.25, 0, 10) if timetype != 'int' else (1, 2, 5, 10))]
            if timetype == 'int' and not isinstance(order[3], str):
                pass
        else:
            order = rng.sample(['u', 'v', 't'], 3) if rng.random() < .6 else ['u', 'v', 't']
        labels = text_labels(rng, 'str' if nodetype == 'upper' else nodetype, rng.randint(1, 6), delim)
        T_ = V.Times({'float': rng.choice(('small', 'dyadic', 'mixed', 'zero')),
                      'double': 'dyadic', 'int': rng.choice(('small', 'zero')), 'str': 'str'}[timetype])
        lines = []
        for _ in range(rng.choice((0, 1, 2, 3, 5, 9)) if rng.random() < .98 else rng.choice((16, 40, 100, 400))):
            r = rng.random()
            if r < .08:
                lines.append(['text', ''])
            elif r < .13:
                lines.append(['text', rng.choice(('  ', '\t', ' \t '))])
            elif r < .2:
                lines.append(['text', comments + rng.choice((' comment', '', '1 2 3 4', ' a=b', comments, ' 1 2 3 ' + comments))])
            elif r < .25:
                lines.append(['text', rng.choice((' ', '\t', '   ')) + comments + ' indented'])
            else:
                t = T_.interval(rng) if kind in INTERVAL else (T_.draw(rng),)
                if t == ('',):
                    t = ('z',)
                a = V.attrs(rng, .45, LOAD_KEYS if rng.random() < .2 else TEXT_KEYS, [x for x in LOAD_VALS if delim not in str(x)])
                tail = rng.choice(('', '', '', ' ' + comments + ' note', comments, ' ' + comments + '1 2',
                                   ' ' + comments + ' a=1 ' + comments + ' b', comments + comments))
                u, v = rng.choice(labels), rng.choice(labels)
                if lines and rng.random() < .2:
                    prev = [x for x in lines if x[0] == 'edge']
                    if prev:
                        u, v, t = rng.choice(prev)[1:4]
                        if rng.random() < .4:
                            u, v = v, u
                lines.append(['edge', u, v, t, a, tail])
        return {'kind': kind, 'delimiter': delim, 'nodetype': nodetype, 'timetype': timetype, 'comments': comments,
                'order': order, 'lines': lines, 'newline': rng.random() < .8, 'predict': rng.random() < .04,
                'list_order': rng.random() < .2}

    def run(self, case, rec):
        kind = case['kind']
        cls = CLASSES[kind]
        rec.bucket('class ' + kind)
        order, delim = case['order'], case['delimiter']
        M = EdgeModel(kind)
        conv = TIMETYPES[case['timetype']]
        out = []
        if len(case['lines']) > 99:
            rec.bucket('long file')
        for ln in case['lines']:
            if ln[0] == 'text':
                out.append(ln[1])
                rec.bucket('blank line' if not ln[1].strip() else
                           'comment line' if ln[1].startswith(case['comments']) else 'indented comment line')
                continue
            _, u, v, t, a, tail = ln
            fields = {'u': str(u), 'v': str(v)}
            if kind in INTERVAL:
                fields['begin'], fields['end'] = str(t[0]), str(t[1])
                cols = [c for c in order if isinstance(c, str)]
                if len(cols) == 4:
                    times = (conv(fields['begin']), conv(fields['end']))
                    if not times[0] <= times[1]:
                        continue
                elif 'begin' in cols:
                    b = conv(fields['begin'])
                    if case['timetype'] == 'double':
                        # the converted begin is converted again together with the end: only exact for idempotent types
                        continue
                    times = (b, b + order[3])
                    rec.bucket('duration after begin')
                else:
                    e = conv(fields['end'])
                    if case['timetype'] == 'double':
                        continue
                    times = (e - order[3], e)
                    rec.bucket('duration before end')
                if times[0] > times[1]:
                    continue
            else:
                fields['t'] = str(t[0])
                cols = order
                times = (conv(fields['t']),)
            text = [fields[c] for c in cols] + ['%s=%s' % kv for kv in a.items()]
            if text[0] != text[0].lstrip() or not text[0]:
                continue
            line = delim.join(text) + tail
            if line.split(case['comments'])[0].rstrip() != delim.join(text).rstrip():
                continue
            out.append(line)
            M.add_edge(convert_node(case['nodetype'], fields['u']), convert_node(case['nodetype'], fields['v']),
                       times, {k: parse_value(str(x)) for k, x in a.items()})
            if tail:
                rec.bucket('inline comment')
            if a:
                rec.bucket('attributes')
            if tail.count(case['comments']) > 1:
                rec.bucket('comment marker twice')
            if set(a) & {'u', 'v', 't', 'begin', 'end', 'self'}:
                rec.bucket('attribute named like a parameter')
            rec.event('line described')
        text = '\n'.join(out) + ('\n' if case['newline'] and out else '')
        if not case['newline'] and out:
            rec.bucket('no final newline')
        kw = {'delimiter': delim, 'nodetype': NODETYPES[case['nodetype']]}
        kw['intervaltype' if M.interval_kind else 'timestamptype'] = conv
        if case['comments'] != '#':
            kw['comments'] = case['comments']
            rec.bucket('other comment marker')
        if order not in (['u', 'v', 'begin', 'end'], ['u', 'v', 't']):
            rec.bucket('columns in another order')
            kw['order'] = order if case['list_order'] else tuple(order)
        if case['nodetype'] in ('upper', 'float'):
            rec.bucket('converted nodes')
        if case['timetype'] in ('double', 'int', 'str'):
            rec.bucket('converted times')
        if case['predict'] and M.edges and case['timetype'] != 'str':
            kw['predict'] = True
            rec.bucket('predict')
        with scratch() as d:
            path = os.path.join(d, 'g.txt')
            with open(path, 'w') as f:
                f.write(text)
            if not text.isascii():
                rec.bucket('letters beyond ASCII')
            H = cls.load_from_txt(path, **kw)
        rec.event('load')
        if type(H) is not cls:
            raise Violation('load_from_txt of %s returned a %s' % (cls.__name__, type(H).__name__))
        want = MS([(M.edge_norm(e), fz_loose(e[3])) for e in M.edges.values()])
        got = MS([(_en(M, e), fz_loose(dict(a))) for e, a in H.edges(data=True)])
        if got != want:
            raise Violation('%s.load_from_txt(%s) of %r gave %s, expected %s'
                            % (cls.__name__, args_text({k: v for k, v in kw.items()}), text[:400], show(got), show(want)))
        for t in M.event_times()[:2]:
            if norm_edges(M, H.edges(begin=t, end=t)) != M.q_edges({'begin': t, 'end': t}):
                raise Violation('%s loaded from %r answers a window wrongly' % (cls.__name__, text[:400]))
        if len(M.edges) >= 2:
            rec.nontrivial = True
        rec.state((kind, frozenset(M.edges)))


# ------------------------------------------------------------------------------------------------ C23
class C23(Check):
    pid = 'C23'
    quick, thorough = 50000, 1700000
    shrink_fields = ('lines',)
    required = ('merged', 'merged transitively', 'gap exactly grace + 1', 'kept apart by attributes',
                'positive grace', 'merging off', 'class IG', 'class IDG', 'reversed pair')
    rule = ('a case is an interval text file in random line order with merge settings; the loaded edges must be the '
            'hulls of the linked groups; non-trivial when some lines were merged and some kept apart')

    def gen(self, rng, i, tier):
        kind = INTERVAL[i % 2]
        labels = [0, 1, 2, 'a'][:rng.choice((1, 2, 2, 3, 4))]
        lines = []
        scale = rng.choice((1, 1, 1, .5, .25))
        for _ in range(rng.choice((2, 3, 4, 6, 10, 20))):
            u, v = rng.choice(labels), rng.choice(labels)
            if rng.random() < .6:
                u, v = labels[0], labels[-1]
            if rng.random() < .2:
                u, v = v, u
            b = rng.randint(-6, 24) * scale
            L = rng.choice((1, 1, 2, 3, 8)) * scale
            a = {} if rng.random() < .6 else rng.choice(({'c': 'x'}, {'c': 'y'}, {'w': 1}, {'w': 1.0, 'c': 'x'}, {'w': 1, 'c': 'x', 'k': 'z'},
                                                               {'w': 1, 'c': 'x', 'k': 'y'}))
            a = list(a.items())
            if rng.random() < .4:  # equal attributes in another order
                rng.shuffle(a)
            if rng.random() < .2:  # an equal number written in another way
                a = [(k, '1.00' if k == 'w' else x) for k, x in a]
            lines.append([u, v, b, b + L, dict(a)])
        merge = (rng.random() < .88, rng.choice((0, 0, 1, 2, 5, .5, 1.25)))
        return {'kind': kind, 'lines': lines, 'merge': merge, 'delimiter': rng.choice((' ', ',')),
                'timetype': 'int' if scale == 1 and rng.random() < .3 else 'float', 'predict': rng.random() < .02}

    def run(self, case, rec):
        kind, (on, grace) = case['kind'], case['merge']
        cls = CLASSES[kind]
        rec.bucket('class ' + kind)
        M = EdgeModel(kind)
        groups = {}
        for u, v, b, e, a in case['lines']:
            attr = frozenset((k, parse_value(str(x))) for k, x in a.items())
            groups.setdefault((M.pair(u, v), attr), []).append((b, e, u, v))
        if on and len({p for p, _ in groups}) < len(groups):
            rec.bucket('kept apart by attributes')
        if not M.directed and len({(x[2], x[3]) for xs in groups.values() for x in xs}) > len({p for p, _ in groups}):
            rec.bucket('reversed pair')
        merged = False
        for (p, attr), xs in groups.items():
            xs = sorted(xs, key=lambda x: (x[0], x[1]))
            hulls = []
            for b, e, u, v in xs:
                if on and hulls and b - hulls[-1][1] < grace + 1:
                    if hulls[-1][4] == 2 and b - hulls[-1][5] >= grace + 1 - 1e-9:
                        rec.bucket('merged transitively')
                    hulls[-1][1] = max(hulls[-1][1], e)
                    hulls[-1][4] += 1
                    if hulls[-1][4] >= 3:
                        rec.bucket('merged transitively')
                    merged = True
                    rec.bucket('merged')
                else:
                    if hulls and b - hulls[-1][1] == grace + 1:
                        rec.bucket('gap exactly grace + 1')
                    hulls.append([b, e, u, v, 1, e])
            for b, e, u, v, _, _ in hulls:
                k = M.key(u, v, (b, e))
                if k in M.edges and not on:
                    M.add_edge(u, v, (b, e), dict(attr))
                    continue
                groups_key = (k, attr)
                if k in M.edges:
                    # same pair, same hull, other attributes: one edge cannot carry both; not a merge question
                    rec.bucket('ambiguous, skipped')
                    return
                M.add_edge(u, v, (b, e), dict(attr))
        if not on:
            # later lines update attributes of equal edges, in line order
            M = EdgeModel(kind)
            for u, v, b, e, a in case['lines']:
                M.add_edge(u, v, (b, e), {k: parse_value(str(x)) for k, x in a.items()})
            rec.bucket('merging off')
        else:
            # a line equal in pair and times to a line with other attributes collapses before merging: skip
            seen = {}
            for (p, attr), xs in groups.items():
                for x in xs:
                    if seen.setdefault((p, x[0], x[1]), attr) != attr:
                        rec.bucket('ambiguous, skipped')
                        return
            # a partial hull may coincide with an edge that has other attributes, depending on line order: skip
            for (p, attr), xs in groups.items():
                for (p2, attr2), ys in groups.items():
                    if p2 == p and attr2 != attr:
                        bs, es = {x[0] for x in xs}, {x[1] for x in xs}
                        bs2, es2 = {y[0] for y in ys}, {y[1] for y in ys}
                        if bs & bs2 and es & es2:
                            rec.bucket('ambiguous, skipped')
                            return
        if on and grace > 0:
            rec.bucket('positive grace')
        delim = case['delimiter']
        conv = TIMETYPES[case['timetype']]
        text = ''.join(delim.join([str(u), str(v), str(b), str(e)] + ['%s=%s' % kv for kv in a.items()]) + '\n'
                       for u, v, b, e, a in case['lines'])
        kw = {'delimiter': delim, 'intervaltype': conv, 'merge': (on, grace)}
        if case['predict'] and M.edges:
            kw['predict'] = True
        with scratch() as d:
            path = os.path.join(d, 'g.txt')
            with open(path, 'w') as f:
                f.write(text)
            if not text.isascii():
                rec.bucket('letters beyond ASCII')
            H = cls.load_from_txt(path, **kw)
        rec.event('load')
        if type(H) is not cls:
            raise Violation('load_from_txt of %s returned a %s' % (cls.__name__, type(H).__name__))
        want = MS([(M.edge_norm(e), fz_loose(e[3])) for e in M.edges.values()])
        got = MS([(_en(M, e), fz_loose(dict(a))) for e, a in H.edges(data=True)])
        if got != want:
            raise Violation('%s.load_from_txt(merge=(%r, %r)) of %r gave %s, expected %s'
                            % (cls.__name__, on, grace, text[:400], show(got), show(want)))
        for t in M.event_times()[:3]:
            if norm_edges(M, H.edges(begin=t, end=t)) != M.q_edges({'begin': t, 'end': t}):
                raise Violation('%s loaded with merge=(%r, %r) from %r answers a window wrongly'
                                % (cls.__name__, on, grace, text[:400]))
        if merged and len(M.edges) > 1:
            rec.nontrivial = True
        rec.state((kind, frozenset(M.edges)))


CHECKS = [C17, C18, C19, C20, C21, C22, C23]
