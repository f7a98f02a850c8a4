"""C30-C31: temporal motifs."""
from collections import Counter

import dynetworkx as dnx

from . import values as V
from .core import Check
from .execute import Violation, q_real
from .model import EdgeModel

MOTIFS = [
    ((1, 2),), ((1, 1),),
    ((1, 2), (2, 1)), ((1, 2), (1, 2)), ((1, 2), (2, 3)), ((1, 2), (1, 3)), ((1, 2), (3, 2)), ((1, 2), (3, 1)),
    ((1, 1), (1, 2)), ((1, 2), (2, 2)), ((1, 1), (1, 1)), ((1, 2), (1, 1)),
    ((1, 2), (2, 3), (3, 1)), ((1, 2), (2, 3), (1, 3)), ((1, 2), (2, 3), (2, 3)), ((1, 2), (2, 1), (1, 2)),
    ((1, 2), (2, 3), (2, 1)), ((1, 2), (3, 2), (4, 2)), ((1, 2), (1, 3), (1, 4)), ((1, 2), (2, 3), (3, 4)),
    ((1, 2), (1, 2), (1, 2)), ((1, 2), (3, 2), (1, 2)), ((1, 2), (2, 2), (2, 3)), ((1, 2), (3, 4), (2, 3)),
    ((1, 2), (2, 3), (3, 1), (1, 2)), ((1, 2), (2, 1), (1, 2), (2, 1)), ((1, 2), (2, 3), (3, 4), (4, 1)),
    ((1, 2), (3, 2), (3, 1), (2, 3)), ((1, 2), (1, 2), (2, 1), (2, 2)), ((1, 2), (3, 4), (1, 4), (3, 2)),
    ((2, 1), (1, 2)), ((3, 1), (1, 2), (2, 3)), ((5, 0), (0, 7)),
]


def random_motif(rng, long=False):
    """Connected; nodes named in a random way."""
    if rng.random() < .6 and not long:
        m = rng.choice(MOTIFS)
    else:
        n = rng.choice((1, 2, 2, 3, 3, 4)) if not long else rng.choice((2, 3, 4, 5))
        edges = [(rng.randrange(n), rng.randrange(n))]
        seen = set(edges[0])
        for _ in range(rng.choice((0, 1, 2, 2, 3)) if not long else rng.choice((4, 4, 5, 6))):
            a, b = rng.choice(sorted(seen)), rng.randrange(n)
            if rng.random() < .5:
                a, b = b, a
            seen |= {a, b}
            edges.append((a, b))
        m = tuple(edges)
    nodes = list(dict.fromkeys(x for e in m for x in e))
    r = rng.random()
    if r < .45:
        names = dict(zip(nodes, nodes))
    elif r < .6:
        names = dict(zip(nodes, range(len(nodes))))
    elif r < .75:
        names = dict(zip(nodes, ['a', 'b', 'c', 'd', 'e'][::rng.choice((1, -1))]))
    elif r < .87:
        names = dict(zip(nodes, rng.sample(range(-5, 10), len(nodes))))
    elif r < .92:           # names without an order
        names = dict(zip(nodes, rng.sample([1, 'a', (1, 2), 2.5, frozenset((1,)), frozenset((2,)), ('a', 1)], len(nodes))))
    else:
        names = dict(zip(nodes, rng.sample(['x', 'y', '', 'node', 'n0'], len(nodes))))
    return tuple((names[a], names[b]) for a, b in m)


def shape(motif):
    names = {}
    return tuple(names.setdefault(x, len(names)) for e in motif for x in e)


def enumerate_instances(edges, motif, delta):
    """Plain backtracking over the edges in time order."""
    edges = sorted(edges, key=lambda e: e[2])
    n = len(edges)
    out = {}

    def extend(i, pos, first, last, bound, used, seq):
        if pos == len(motif):
            out[seq] = out.get(seq, 0) + 1
            return
        a, b = motif[pos]
        for j in range(i, n):
            u, v, t = edges[j]
            if first is not None:
                if t <= last:
                    continue
                if t - first > delta:
                    break
            if (a == b) != (u == v):
                continue
            new = []
            ok = True
            for x, y in ((a, u), (b, v)):
                if x in bound:
                    if bound[x] != y:
                        ok = False
                        break
                elif y in used:
                    ok = False
                    break
                else:
                    bound[x] = y
                    used.add(y)
                    new.append((x, y))
            if ok:
                extend(j + 1, pos + 1, t if first is None else first, t, bound, used, seq + (u, v))
            for x, y in new:
                del bound[x]
                used.discard(y)
    extend(0, 0, None, None, {}, set(), ())
    return out


class Motif(Check):
    shrink_fields = ('edges', 'asks', 'nodes')
    technique = 'runtime monitoring: online monitor: every answer compared with exhaustive enumeration of edge sequences'

    def gen(self, rng, i, tier):
        labels = self.labels(rng)
        size = rng.choices(('tiny', 'small', 'dense', 'long', 'wide', 'flat'), (.25, .33, .2, .12, .07, .03))[0]
        unit = rng.choice((1, 1, 1, .25, .5, 10))
        t0 = rng.choice((0, 0, -5, -3, 100, 10 ** 9))
        if unit in (1, 10) and rng.random() < .08:      # no two times differ as floats
            t0 = 2 ** 60 + 1
        if size == 'tiny':
            k, n, span = rng.randint(1, 3), rng.randint(0, 6), rng.randint(1, 6)
        elif size == 'small':
            k, n, span = rng.randint(2, 5), rng.randint(4, 14), rng.randint(2, 14)
        elif size == 'dense':
            k, n, span = rng.randint(1, 3), rng.randint(10, 24), rng.randint(3, 10)
        elif size == 'long':
            k, n, span = rng.randint(3, 6), rng.randint(25, 60), rng.randint(20, 200)
        elif size == 'flat':            # nearly every pair at the same time
            k, n, span = rng.randint(2, 4), rng.randint(1, 6), rng.randint(1, 4)
        else:
            k, n, span = rng.randint(6, len(labels)), rng.randint(20, 50), rng.randint(5, 40)
        labels = labels[:max(1, min(k, len(labels)))]
        loops = rng.choice((0, .1, .3))
        asks = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            m = random_motif(rng, long=size in ('tiny', 'small') and n <= 10 and rng.random() < .3)
            d = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, span, span * 3, span / 2)) * unit
            r = rng.random()
            if t0 > 2 ** 59:
                d = int(d)
            elif r < .1:
                d = d + unit / 2
            elif r < .2:
                d = float(d)
            asks.append([m, d, rng.random() < .3])
        edges = []
        for _ in range(n):
            u, v = rng.choice(labels), rng.choice(labels)
            while u == v and len(labels) > 1 and rng.random() >= loops:
                v = rng.choice(labels)
            edges.append((u, v, t0 + rng.randint(0, span) * unit))
        if size == 'flat':
            for t in rng.sample(range(span + 1), rng.choice((1, 1, 2))):
                edges += [(u, v, t0 + t * unit) for u in labels for v in labels if rng.random() < .93]
        # instances planted on purpose, with gaps that sum to delta or just beyond
        for m, d, _ in asks:
            nodes = list(dict.fromkeys(x for e in m for x in e))
            if len(nodes) > len(labels) or rng.random() < .25:
                continue
            f = dict(zip(nodes, rng.sample(labels, len(nodes))))
            start = t0 + rng.randint(0, span) * unit
            cuts = sorted(rng.randint(0, int(d / unit)) for _ in range(len(m) - 2)) if len(m) > 1 else []
            at = [0] + [c * unit for c in cuts] + ([d + rng.choice((0, 0, 0, unit, -unit))] if len(m) > 1 else [])
            for (a, b), t in zip(m, at):
                edges.append((f[a], f[b], start + t))
        rng.shuffle(edges)
        removed = [rng.randrange(len(edges)) for _ in range(rng.choice((0, 0, 0, 1, 3)))] if edges else []
        return {'edges': edges, 'nodes': rng.sample(labels, rng.choice((0, 0, 1)) if labels else 0), 'asks': asks,
                'removed': sorted(set(removed)), 'train': rng.random() < .05}

    def labels(self, rng):
        r = rng.random()
        if r < .05:         # sets: ordered by inclusion only
            return [frozenset(x) for x in rng.sample([(), (1,), (2,), (3,), (1, 2), (2, 3), (1, 3), (1, 2, 3), (4,), (1, 4),
                                                      (5,), (4, 5), (6,)], 12)]
        if r < .1:          # no order at all
            return rng.sample([0, 1, -2, 'a', 'b', '', 2.5, (1, 2), (), ('a', 1), frozenset((1,)), V.Name(0), V.Name('a'), 'B', b'a'], 12)
        if r < .13:
            return rng.sample([(a, b) for a in (0, 1, 2, 10) for b in (0, 1, 'x')], 12)
        if r < .55:
            return rng.sample(range(-10, 40), 12) if rng.random() < .5 else list(range(12))
        if r < .75:
            return rng.sample(['a', 'b', 'ab', '', 'c', 'n10', 'n9', 'B', 'zz', '0', 'node 1', 'é', 'aa'], 12)
        if r < .85:
            return [x / 2 for x in rng.sample(range(-9, 30), 12)]
        return [x * 10 ** 9 for x in rng.sample(range(1, 40), 12)]

    def build(self, case, rec):
        G, M = dnx.ImpulseDiGraph(), EdgeModel('PDG')
        for n in case['nodes']:
            G.add_node(n)
            M.add_node(n, {})
        for e in case['edges']:
            G.add_edge(V.fresh(e[0]), V.fresh(e[1]), V.fresh(e[2]))
            M.add_edge(e[0], e[1], (e[2],), {})
        for i in case['removed']:
            if i < len(case['edges']):
                u, v, t = case['edges'][i]
                G.remove_edge(u, v, t, t)
                M.remove_edge(u, v, {'begin': t, 'end': t, 'inclusive': (True, True)})
                rec.bucket('after removals')
        if case['train'] and M.edges:
            G.generate_predictive_model()
        return G, M

    def run(self, case, rec):
        G, M = self.build(case, rec)
        before = q_real(G, M, 'state', {})
        edges = [(e[0], e[1], e[2][0]) for e in M.edges.values()]
        times = [e[2] for e in edges]
        if len(set(times)) < len(times):
            rec.bucket('tied times')
        if times and max(Counter(times).values()) > 8:
            rec.bucket('more than eight edges at a time')
        rec.state(before)
        kinds = {type(n) for n in M.nodes}
        if frozenset in kinds or V.Name in kinds or (str in kinds and int in kinds):
            rec.bucket('nodes without an order')
        for motif, delta, as_list in case['asks']:
            want = enumerate_instances(edges, motif, delta)
            arg = [list(e) for e in motif] if as_list and self.lists else motif
            total, counts, table = dnx.count_temporal_motif(G, arg, delta)
            rec.event('count_temporal_motif')
            rec.event('instances enumerated', sum(want.values()))
            where = 'count_temporal_motif(%r, %r) on %r' % (motif, delta, sorted(edges, key=lambda e: e[2])[:40])
            self.judge(where, want, total, counts, table, motif, rec)
            after = q_real(G, M, 'state', {})
            if after != before:
                raise Violation('the graph was changed by ' + where)
            self.observe(edges, motif, delta, want, rec)

    lists = False

    def observe(self, edges, motif, delta, want, rec):
        rec.bucket('motif of %d edges' % len(motif))
        rec.bucket('motif of %d nodes' % len(set(x for e in motif for x in e)))
        n = sum(want.values())
        rec.bucket('no instance' if n == 0 else 'one instance' if n == 1 else 'many instances')
        if any(a == b for a, b in motif):
            rec.bucket('motif with self-loop')
        if delta == 0:
            rec.bucket('delta zero')
        if n and len(motif) > 4:
            rec.bucket('long motif counted')
        if n:
            # does the bound delta matter?
            if 1 < len(motif) < 5:
                wider = sum(enumerate_instances(edges, motif, delta * 2 + 1).values()) if len(edges) < 25 else n
                if wider != n:
                    rec.bucket('delta binds')
                tight = [e[2] for e in edges]
                if any(abs(a - b) == delta for a in tight for b in tight):
                    rec.bucket('two edges exactly delta apart')
            rec.nontrivial = True
            rec.state((shape(motif), n, len(want)))


class C30(Motif):
    pid = 'C30'
    quick, thorough = 3400, 110000
    rule = ('a case is a directed impulse graph and motifs with a delta; total and per-instance counts are compared '
            'with a backtracking enumeration of all edge sequences; non-trivial when at least one instance exists')
    required = ('motif of 1 edges', 'motif of 2 edges', 'motif of 3 edges', 'motif of 4 edges', 'motif of 1 nodes',
                'motif of 5 edges', 'motif of 6 edges', 'motif of 4 nodes', 'motif of 5 nodes',
                'long motif counted', 'no instance', 'many instances', 'motif with self-loop', 'delta zero', 'delta binds',
                'two edges exactly delta apart', 'more than eight edges at a time', 'tied times', 'after removals',
                'nodes without an order')

    def judge(self, where, want, total, counts, table, motif, rec):
        have = {k: c for k, c in counts.items() if c}
        if have != want:
            extra = {k: c for k, c in have.items() if want.get(k) != c}
            lost = {k: c for k, c in want.items() if have.get(k) != c}
            raise Violation('wrong counts from %s: has %r, expected %r' % (where, extra, lost))
        if total != sum(want.values()):
            raise Violation('wrong total from %s: %r, expected %r' % (where, total, sum(want.values())))


class C31(Motif):
    pid = 'C31'
    quick, thorough = 3500, 120000
    rule = ('a case is a directed impulse graph and motifs with a delta; the columns, rows and cells of the '
            'participation table are recomputed from the returned counts; non-trivial when an instance was counted')
    required = ('motif of 1 edges', 'motif of 2 edges', 'motif of 3 edges', 'motif of 4 edges', 'motif of 1 nodes',
                'motif of 4 nodes', 'no instance', 'many instances', 'node in two parts', 'nodes without an order')

    def judge(self, where, want, total, counts, table, motif, rec):
        cols = list(dict.fromkeys(x for e in motif for x in e))
        if list(table.columns) != cols:
            raise Violation('wrong columns in the table of %s: %r, expected %r' % (where, list(table.columns), cols))
        counts = {k: c for k, c in counts.items() if c}
        rows = {x for k in counts for x in k}
        if len(table.index) != len(rows) or set(table.index) != rows:
            raise Violation('wrong rows in the table of %s: %r, expected %r' % (where, list(table.index), rows))
        place = [x for e in motif for x in e]
        cell = {}
        for k, c in counts.items():
            for col, x in dict(zip(place, k)).items():
                cell[x, col] = cell.get((x, col), 0) + c
        at = {x: i for i, x in enumerate(table.index)}
        grid = table.to_numpy().tolist()
        for r in rows:
            if sum((r, c) in cell for c in cols) > 1:
                rec.bucket('node in two parts')
            for j, c in enumerate(cols):
                got = grid[at[r]][j]
                rec.event('cell compared')
                if got != cell.get((r, c), 0):
                    raise Violation('wrong cell %r, %r in the table of %s: %r, expected %r'
                                    % (r, c, where, got, cell.get((r, c), 0)))
        for j, c in enumerate(cols):
            s = sum(row[j] for row in grid)
            if s != total:
                raise Violation('column %r of the table of %s sums to %r, the total is %r' % (c, where, s, total))


CHECKS = [C30, C31]
