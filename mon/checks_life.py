"""C44-C48: failing calls, copies, arguments, release and interleaved readers."""
import copy
import gc
import os
import pickle
import sys
import threading
import weakref

import networkx as nx

import dynetworkx as dnx

from . import values as V
from .checks_conv import scratch
from .checks_edge import asked_again, views
from .checks_global import any_question, answer, askable, full_view, map_kw, map_op, snap_answer, snap_history
from .checks_snap import build, disjoint_keys, graph_spec, norm, off
from .core import REPO, Check
from .execute import CLASSES, SNAP, Violation, World, args_text, call, norm_snap, q_real
from .gen import Gen
from .model import IMPULSE, INTERVAL, KINDS, EdgeModel
from .values import MS, N, T, fz, show


class Boom(Exception):
    """Raised by the user's own objects."""


# ---------------------------------------------------------------- bad values, named in cases
class Plain:
    """A hashable object without any order."""


BAD_NODE = {'list': lambda: [1], 'dict': dict, 'set': lambda: {1}, 'nested': lambda: (1, [2]), 'pair list': lambda: [7, 8]}
BAD_TIME = {'object': Plain, 'none': lambda: None, 'tuple': lambda: (1,), 'complex': lambda: 1j, 'list': lambda: [1],
            'word': lambda: 'later'}


def bad_times(style):
    out = ['object', 'none', 'tuple', 'complex', 'list']
    return out if style == 'str' else out + ['word']


def exploding(items, k):
    for x in items[:k]:
        yield x
    raise Boom('the bunch broke')


class Bomb:
    """A time whose comparisons can be counted and made to fail."""
    __slots__ = ('v',)
    left = None
    count = 0

    def __init__(self, v):
        self.v = v

    @classmethod
    def tick(cls):
        cls.count += 1
        if cls.left is not None:
            cls.left -= 1
            if cls.left < 0:
                raise Boom('comparison failed')

    def __lt__(self, o):
        self.tick()
        return self.v < o.v

    def __le__(self, o):
        self.tick()
        return self.v <= o.v

    def __gt__(self, o):
        self.tick()
        return self.v > o.v

    def __ge__(self, o):
        self.tick()
        return self.v >= o.v

    def __eq__(self, o):
        return isinstance(o, Bomb) and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Bomb(%r)' % (self.v,)


# ------------------------------------------------------------------------------------------------ C44
class C44(Check):
    pid = 'C44'
    technique = ('runtime monitoring: fault injection: calls made to fail at chosen points (bad nodes and times, broken '
                 'iterables, comparisons that raise), whole public state compared with the model afterwards')
    quick, thorough = 6000, 200000
    chunk = 10
    FAULTS = ('edge bad node', 'edge bad time', 'node bad', 'bunch breaks', 'bunch bad item', 'node bunch breaks',
              'node bunch bad item', 'question bad node', 'question bad bound', 'removal bad node', 'removal bad bound',
              'training fails')
    SNAP_FAULTS = ('snap bad time', 'snap bad ebunch', 'snap statistic fails', 'snap bad index', 'snap bunch breaks',
                   'snap bad window')
    required = FAULTS + SNAP_FAULTS + ('raised', 'comparison failed', 'went on after a failure', 'class IG', 'class IDG',
                                       'class PG', 'class PDG', 'class SG', 'class SDG')
    rule = ('a case is a history with calls in it that are made to fail; after each the whole public state must be what '
            'it was (a bunch: the items before the one that failed, or fewer) and the history goes on; non-trivial when '
            'a call failed on a graph with edges')
    assumptions = ('objects whose comparison fails are only armed during questions',)

    def gen(self, rng, i, tier):
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels, ops = snap_history(rng, kind, rng.choice(('int', 'str', 'neg')))
            out = []
            for op in ops:
                out.append(op)
                if rng.random() < .5:
                    out.append(['fault', rng.choice(self.SNAP_FAULTS), rng.randrange(10 ** 9)])
            return {'kind': kind, 'ops': out, 'labels': labels}
        kind = KINDS[i % 4]
        if i % 6 == 4:
            g = Gen(rng, kind, weights=(.4, .55, .05, 0))
            ops = []
            for _ in range(g.nops):
                ops.append(g.mutate())
            ops += [any_question(g) for _ in range(8)]
            return {'kind': kind, 'ops': ops, 'bomb': [rng.random() for _ in range(4)]}
        g = Gen(rng, kind, weights=(.5, .48, .02, 0))
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .35:
                ops.append(self.fault(g))
        ops += [self.fault(g) for _ in range(3)]
        ops.append(g.mutate())
        return {'kind': kind, 'ops': ops}

    def fault(self, g):
        rng, kind = g.rng, g.kind
        name = rng.choice(self.FAULTS)
        n = 2 if kind in INTERVAL else 1
        bad_n, bad_t = rng.choice(list(BAD_NODE)), rng.choice(bad_times(g.times.style))
        e = g.edge()
        near = e is not None and rng.random() < .6
        u, v = (e[0], e[1]) if near else g.new_pair()
        t = list(e[2]) if near and rng.random() < .6 else list(g.new_times())
        kw = {'bad_n': bad_n, 'bad_t': bad_t, 'u': u, 'v': v, 't': t, 'attr': g.attrs()}
        kw['where'] = rng.choice(('u', 'v', 'uv'))
        kw['twhere'] = rng.choice(((0,), (1,), (0, 1))) if n == 2 else (0,)
        if 'bunch' in name:
            xs = []
            for _ in range(rng.randint(0, 4)):
                if 'node' in name:
                    xs.append(rng.choice(g.labels) if rng.random() < .6 else (rng.choice(g.labels), g.attrs()))
                else:
                    xs.append(g.new_pair() + g.new_times())
            kw['items'] = xs
            kw['k'] = rng.randint(0, len(xs))
            kw['item'] = rng.choice(('node', 'time', 'length', 'none'))
        if 'question' in name:
            q = any_question(g)
            kw['q'] = q
        if 'removal' in name:
            op = g.rm_edge() if rng.random() < .6 else g.rm_node()
            kw['op'] = op
        return ('fault', name, kw)

    # ------------------------------------------------------------- running
    def run(self, case, rec):
        kind = case['kind']
        rec.bucket('class ' + kind)
        if kind in SNAP:
            return self.snapshots(case, rec)
        if 'bomb' in case:
            return self.bombs(case, rec)
        w = World(kind, rec, {'name': 'g'})
        failed = False
        for op in case['ops']:
            if op[0] == 'q':
                continue
            if op[0] != 'fault':
                w.apply(op)
                if failed:
                    rec.bucket('went on after a failure')
                    w.ask('state', {}, 'after a call that failed and a further update: ')
                continue
            failed = self.one(w, op[1], op[2], rec) or failed
        if failed:
            views(w, 'after calls that failed: ')
        rec.state((kind, frozenset(w.M.edges)))

    def attempt(self, rec, f, must=True, what=''):
        """Runs f; True when it raised."""
        try:
            f()
        except (Boom, TypeError, ValueError, LookupError, AttributeError, ArithmeticError, nx.NetworkXException):
            rec.bucket('raised')
            rec.event('call that failed')
            return True
        if must:
            raise Violation('%s was accepted' % what)
        return False

    def one(self, w, name, kw, rec):
        G, M, kind = w.G, w.M, w.kind
        had = bool(M.edges)
        u, v, t = kw['u'], kw['v'], list(kw['t'])
        bn, bt = BAD_NODE[kw['bad_n']](), BAD_TIME[kw['bad_t']]()
        what = '%s: %s' % (CLASSES[kind].__name__, name)
        where = 'after a call that failed (%s): ' % name
        if name == 'edge bad node':
            if 'u' in kw['where']:
                u = bn
            if 'v' in kw['where']:
                v = bn
            what = '%s.add_edge(%r, %r, %r)' % (CLASSES[kind].__name__, u, v, t)
            raised = self.attempt(rec, lambda: G.add_edge(u, v, *t, **kw['attr']), True, what)
        elif name == 'edge bad time':
            if not had:
                return False
            for k in kw['twhere']:
                t[k] = bt
            what = '%s.add_edge(%r, %r, %r)' % (CLASSES[kind].__name__, u, v, t)
            raised = self.attempt(rec, lambda: G.add_edge(u, v, *t, **kw['attr']), True, what)
        elif name == 'node bad':
            raised = self.attempt(rec, lambda: G.add_node(bn, **kw['attr']), True, what)
        elif name in ('bunch breaks', 'bunch bad item', 'node bunch breaks', 'node bunch bad item'):
            return self.bunch(w, name, kw, bn, bt, rec)
        elif name in ('question bad node', 'question bad bound'):
            _, q, qkw = kw['q']
            qkw = dict(qkw)
            keys = [p for p in (('u', 'v', 'n', 'node') if 'node' in name else ('begin', 'end')) if qkw.get(p) is not None]
            if not keys or not askable(M, q, qkw):
                return False
            for p in keys if kw['where'] == 'uv' else keys[:1]:
                qkw[p] = bn if 'node' in name else bt
            if 'node' in name and q == 'edges':
                for p in keys:
                    qkw[p] = [bn, u] if kw['where'] == 'v' else qkw[p]
            what = '%s.%s(%s)' % (CLASSES[kind].__name__, q, args_text(qkw))
            before = full_view(G, M)
            raised = self.attempt(rec, lambda: self.put(G, kind, q, qkw), False, what)
            if full_view(G, M) != before:
                raise Violation('%s changed what the graph answers' % what)
        elif name in ('removal bad node', 'removal bad bound'):
            op = kw['op']
            args = dict(op[-1])
            if op[0] == 'rm_edge':
                args.update(u=op[1], v=op[2])
            else:
                args.update(n=op[1])
            if 'node' in name:
                for p in [p for p in ('u', 'v', 'n') if p in args]:
                    if kw['where'] != 'v' or p != 'u':
                        args[p] = bn
            else:
                if args.get('overlapping', True) is False:
                    if bt is None:
                        return False
                    args['begin'] = bt
                else:
                    if bt is None:
                        bt = Plain()
                    for p in [('begin',), ('end',), ('begin', 'end')][kw['k'] if 'k' in kw else len(kw['attr']) % 3]:
                        args[p] = bt
                if op[0] == 'rm_node' and op[1] in M.nodes and not any(M.touches(e, op[1]) for e in M.edges.values()):
                    return False         # an isolated node goes whatever the window
            m = 'remove_edge' if op[0] == 'rm_edge' else 'remove_node'
            what = '%s.%s(%s)' % (CLASSES[kind].__name__, m, args_text(args))
            raised = self.attempt(rec, lambda: call(G, kind, m, args), False, what)
        else:
            if not had:
                return False
            # training on times it cannot handle (or on none that it cannot)
            import random
            random.seed(3)
            raised = self.attempt(rec, lambda: G.generate_predictive_model(training_size=3), False, what)
        rec.bucket(name)
        views(w, where, had and len(M.edges) < 12)
        if raised and had:
            rec.nontrivial = True
        return raised

    def put(self, G, kind, q, kw):
        kw = {k: x for k, x in kw.items()}
        if q in ('edges', 'has_edge', 'nodes', 'has_node', 'number_of_nodes'):
            x = call(G, kind, q, kw)
        elif q in ('degree', 'delta', 'uniq'):
            which = kw.pop('which', 'degree')
            if q == 'delta':
                kw['delta'] = True
            kw.pop('_pos', None)
            x = getattr(G, which)(**kw)
        elif q in ('to_subgraph', 'to_networkx_graph'):
            x = getattr(G, q)(**kw)
        else:
            return
        if not isinstance(x, (bool, int, float)) and hasattr(x, '__iter__'):
            list(x)

    def bunch(self, w, name, kw, bn, bt, rec):
        G, M, kind = w.G, w.M, w.kind
        items, k = list(kw['items']), kw['k']
        nodes = 'node' in name
        if 'breaks' in name:
            source = exploding(items, k)
        else:
            if nodes:
                bad = bn if kw['item'] != 'length' else (bn, {'w': 1})
            else:
                u, v, t = kw['u'], kw['v'], list(kw['t'])
                if kw['item'] == 'node':
                    bad = (bn, v, *t) if kw['where'] == 'u' else (u, bn, *t)
                elif kw['item'] == 'time':
                    if not M.edges and k == 0:
                        return False
                    for j in kw['twhere']:
                        t[j] = bt
                    bad = (u, v, *t)
                elif kw['item'] == 'length':
                    bad = (u, v) + tuple(t) + (1, 2)
                else:
                    bad = None
            items.insert(k, bad)
            source = items if kw['where'] != 'v' else iter(items)
        f = G.add_nodes_from if nodes else G.add_edges_from
        what = '%s.%s(%r failing at %d)' % (CLASSES[kind].__name__, f.__name__, items, k)
        raised = self.attempt(rec, lambda: f(source, **kw['attr']), True, what)
        rec.bucket(name)
        # every prefix of whole items up to the failing one is a fair outcome
        options = [copy.deepcopy(M)]
        for x in items[:k]:
            m = copy.deepcopy(options[-1])
            if nodes:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                    m.add_node(x[0], {**kw['attr'], **x[1]})
                else:
                    m.add_node(x, kw['attr'])
            else:
                m.add_edge(x[0], x[1], x[2:], kw['attr'])
            options.append(m)
        got = q_real(G, M, 'state', {})
        for m in reversed(options):
            if m.q_state() == got:
                w.M = m
                break
        else:
            raise Violation('%s left neither the graph as it was nor the items before: %s' % (what, show(got)))
        views(w, 'after a bunch that failed at item %d: ' % k, len(w.M.edges) < 12)
        if raised and w.M.edges:
            rec.nontrivial = True
        return raised

    # ------------------------------------------------------------- comparisons that raise
    def bombs(self, case, rec):
        kind = case['kind']
        Bomb.left = None
        w = World(kind, rec)
        M = w.M
        try:
            for op in case['ops']:
                if op[0] != 'q':
                    w.apply(map_op(op, time=Bomb))
                    continue
                _, name, kw = map_op(op, time=Bomb)
                if name in ('to_snapshots', 'rt_nx') or not askable(M, name, kw) or len(M.edges) > 60:
                    continue
                Bomb.count = 0
                want = q_real(w.G, M, name, kw)
                total = Bomb.count
                before = full_view(w.G, M)
                for r in case['bomb']:
                    if not total:
                        break
                    Bomb.left = int(r * total)
                    try:
                        got = q_real(w.G, M, name, kw)
                    except Exception:
                        got = None
                        rec.bucket('comparison failed')
                        rec.event('call that failed')
                    Bomb.left = None
                    if got is not None and got != want:
                        raise Violation('%s %s(%s) answered %s although a comparison of its times failed; the answer is %s'
                                        % (CLASSES[kind].__name__, name, args_text(kw), show(got), show(want)))
                    if full_view(w.G, M) != before:
                        raise Violation('%s %s(%s) changed what the graph answers when a comparison of its times failed'
                                        % (CLASSES[kind].__name__, name, args_text(kw)))
                if total:
                    rec.nontrivial = True
            views(w, 'after questions that failed: ', len(M.edges) < 30)
        finally:
            Bomb.left = None

    # ------------------------------------------------------------- snapshots
    def snapshots(self, case, rec):
        import random
        kind = case['kind']
        S = SNAP[kind](name='s')
        gcls = nx.DiGraph if kind == 'SDG' else nx.Graph

        def view():
            return (norm_snap(S), len(S), fz(dict(S.graph)), tuple(norm(g) for g in S), tuple(id(g) for g in S.get()))

        def pieces():
            return [(k, norm(g)) for k, g in S.snapshots.items()]

        def at(items, t):
            """Content at a time, however the snapshots are cut."""
            return tuple(x for k, x in items if k[0] <= t < k[1] or k[0] == k[1] == t)
        for op in case['ops']:
            if op[0] == 'insert':
                k = op[1]
                S.insert(build(op[2]), **({'time': k[0]} if k[0] == k[1] else {'start': k[0], 'end': k[1]}))
                continue
            if op[0] != 'fault':
                sel = op[2]
                if off(sel, len(S)):
                    continue
                if op[0] == 'nodes':
                    S.add_nodes_from(op[1], **sel, **op[3])
                elif op[0] == 'edges':
                    S.add_edges_from(op[1], **sel, **op[3])
                continue
            name = op[1]
            rng = random.Random(op[2])
            if not len(S):
                continue
            before, content = view(), pieces()
            bt = BAD_TIME[rng.choice([k for k in BAD_TIME if k != 'none'])]()
            bn = BAD_NODE[rng.choice(list(BAD_NODE))]()
            loose = False
            if name == 'snap bad time':
                form = rng.choice(('time', 'start', 'end', 'both'))
                kw = {'time': bt} if form == 'time' else {'start': bt if form != 'end' else 0, 'end': bt if form != 'start' else 0}
                if isinstance(bt, (list, tuple)) and form == 'both':
                    kw = {'time': bt}
                m = rng.choice(('insert', 'add_snapshot'))
                raised = self.attempt(rec, lambda: getattr(S, m)(graph=gcls([(1, 2)]), **kw), True,
                                      '%s(%s)' % (m, args_text(kw)))
            elif name == 'snap bad ebunch':
                t = rng.choice(list(S.snapshots))
                eb = rng.choice(([(1,)], [(1, 2), (bn, 2)], 5, [(1, 2), 3], exploding([(1, 2), (2, 3)], 1)))
                raised = self.attempt(rec, lambda: S.add_snapshot(eb, start=t[0], end=t[1]), True, 'add_snapshot(%r)' % (eb,))
            elif name == 'snap statistic fails':
                left = [rng.randrange(len(S))]

                def stat(g):
                    if left[0] == 0:
                        raise Boom('statistic')
                    left[0] -= 1
                    return len(g)
                raised = self.attempt(rec, lambda: S.compute_network_statistic(stat), True, 'compute_network_statistic')
            elif name == 'snap bad index':
                m = rng.choice(('get', 'degree', 'size', 'order', 'add_nodes_from', 'add_edges_from', 'number_of_nodes'))
                bad = rng.choice((len(S), len(S) + 3, 'a', None, bt))
                kw = {'sbunch': [bad]}
                if m == 'add_nodes_from':
                    kw['nbunch'] = [1]
                if m == 'add_edges_from':
                    kw['ebunch'] = [(1, 2)]
                raised = self.attempt(rec, lambda: getattr(S, m)(**kw), False, m)
            elif name == 'snap bad window':
                m = rng.choice(('get', 'degree', 'size', 'subgraph', 'add_nodes_from', 'add_edges_from', 'has_node'))
                kw = rng.choice(({'start': bt}, {'end': bt}, {'start': bt, 'end': bt}))
                if isinstance(bt, tuple):
                    return
                if m == 'add_nodes_from':
                    kw['nbunch'] = [1]
                if m == 'add_edges_from':
                    kw['ebunch'] = [(1, 2)]
                if m == 'subgraph':
                    kw['nbunch'] = [1]
                if m == 'has_node':
                    kw['n'] = 1
                raised = self.attempt(rec, lambda: getattr(S, m)(**kw), False, m)
            else:
                # a windowed update whose first item is bad may cut snapshots, but changes no content
                m = rng.choice(('add_nodes_from', 'add_edges_from'))
                keys = list(S.snapshots)
                k = rng.choice(keys)
                a = k[0] + (k[1] - k[0]) * rng.choice((0, .5, .25))
                sel = rng.choice(({'start': a}, {'end': a}, {'start': a, 'end': k[1] + 1}, {'sbunch': [keys.index(k)]}, {}))
                bad = rng.choice((exploding([], 0), [bn] if m == 'add_nodes_from' else [(1,)], 5))
                if m == 'add_nodes_from' and isinstance(bad, list) and bn == [7, 8]:
                    bad = 5
                loose = True
                raised = self.attempt(rec, lambda: getattr(S, m)(bad, **sel), False, m)
            rec.bucket(name)
            if raised:
                rec.nontrivial = True
            if raised or not loose:
                rec.event('state compared')
                if loose:
                    now = pieces()
                    ts = sorted({t for k, _ in content + now for t in k})
                    for t in ts + [(a + b) / 2 for a, b in zip(ts, ts[1:])]:
                        if at(now, t) != at(content, t):
                            raise Violation('%s: after a failed %s the content at %r is %s, before it was %s'
                                            % (SNAP[kind].__name__, name, t, show(at(now, t)), show(at(content, t))))
                elif view() != before:
                    raise Violation('%s: a failed call (%s) changed the snapshots: %s before, %s after'
                                    % (SNAP[kind].__name__, name, show(before), show(view())))


# ------------------------------------------------------------------------------------------------ C45
def copied(x, way):
    if way == 'deepcopy':
        return copy.deepcopy(x)
    if way == 'twice':
        return copy.deepcopy(pickle.loads(pickle.dumps(x)))
    return pickle.loads(pickle.dumps(x, protocol=way))


class C45(Check):
    pid = 'C45'
    technique = ('runtime monitoring: twin execution of an object and its deep or pickled copy: both followed by their own '
                 'model while updates alternate between them')
    quick, thorough = 6000, 180000
    WAYS = ('deepcopy', 2, 3, 4, 5, 'twice')
    required = ('deepcopy', 'pickle', 'trained', 'original updated', 'copy updated', 'nested values', 'class IG', 'class IDG', 'class PG',
                'class PDG', 'class SG', 'class SDG')
    rule = ('a case is a history, a copy (deepcopy or pickle), and a second history whose updates and questions go to '
            'either side; non-trivial when both sides were updated after copying a graph with edges')

    def gen(self, rng, i, tier):
        way = self.WAYS[i // 6 % len(self.WAYS)]
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels, ops = snap_history(rng, kind)
            return {'kind': kind, 'ops': ops, 'way': way, 'cut': rng.random()}
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.4, .5, .1, 0), attr_p=.5)
        ops = [g.mutate() for _ in range(g.nops)]
        if g.times.style in V.TIME_STYLES and rng.random() < .15:
            ops.append(('train', rng.randrange(10 ** 6), 3))
        g2 = copy.deepcopy(g)
        g2.rng = rng
        more = []
        for _ in range(rng.choice((4, 8, 14))):
            side = rng.random() < .5
            h = g2 if side else g
            more.append((int(side), h.mutate()))
            if rng.random() < .5:
                more.append((int(rng.random() < .5), any_question(h)))
        return {'kind': kind, 'ops': ops, 'more': more, 'way': way, 'nest': rng.choice((0, 0, 1, 3))}
    shrink_fields = ('ops', 'more')

    def run(self, case, rec):
        kind, way = case['kind'], case['way']
        rec.bucket('class ' + kind)
        rec.bucket(way if way == 'deepcopy' else 'pickle')
        if kind in SNAP:
            return self.snapshots(case, rec)
        w = World(kind, rec, {'name': 'g', 'tag': 1})
        for op in case['ops']:
            w.apply(op)
            if op[0] == 'train' and w.M.edges:
                rec.bucket('trained')
        nested = self.nest(w, case.get('nest', 0))
        x = World(kind, rec)
        x.G, x.M = copied(w.G, way), copy.deepcopy(w.M)
        if type(x.G) is not CLASSES[kind]:
            raise Violation('the copy is a %s' % type(x.G).__name__)
        word = 'copied by %s: ' % (way if isinstance(way, str) else 'pickle protocol %d' % way)
        self.meta(x.G, word)
        views(x, word, len(x.M.edges) < 30)
        sides, seen = (w, x), set()
        for side, op in case['more']:
            y = sides[side]
            if op[0] == 'q':
                if askable(y.M, op[1], op[2]) and op[1] in ('edges', 'has_edge', 'nodes', 'has_node', 'number_of_nodes', 'degree',
                                                           'delta', 'interval', 'uniq', 'state', 'len'):
                    y.ask(op[1], op[2], word)
                continue
            y.apply(op)
            seen.add(side)
            rec.bucket('copy updated' if side else 'original updated')
            sides[1 - side].ask('state', {}, word + 'after an update of the other side: ')
            y.ask('state', {}, word + 'after an update: ')
        w.G.graph['later'] = 1
        x.G.add_node('later') if kind else None
        x.M.add_node('later', {})
        for y, where in ((w, 'the original, '), (x, 'the copy, ')):
            views(y, where + word, len(y.M.edges) < 30)
        self.meta(x.G, word)
        if nested:
            rec.bucket('nested values')
            for y, z, whose in ((w, x, 'original'), (x, w, 'copy')):
                was = self.deep(z.G)
                mine = self.deep(y.G, touch=True)
                if self.deep(z.G) != was:
                    raise Violation('%schanging lists among the attributes of the %s changed the other side: %r before, %r after'
                                    % (word, whose, was, self.deep(z.G)))
                rec.event('nested values changed', len(mine))
        rec.state((kind, frozenset(w.M.edges), frozenset(x.M.edges)))
        if len(seen) == 2 and w.M.edges:
            rec.nontrivial = True

    def nest(self, w, k):
        """Lists as attributes of the graph and of some nodes and edges."""
        if not k:
            return False
        w.G.graph['deep'] = ['g']
        for n in list(w.M.nodes)[:k]:
            w.apply(('node', n, {'deep': ['n']}))
        for e in list(w.M.edges.values())[:k]:
            w.apply(('edge', e[0], e[1], e[2], {'deep': {'e': ['e']}}))
        return True

    def deep(self, G, touch=False):
        found = [G.graph.get('deep')] + [d['deep'] for _, d in G.nodes(data=True) if 'deep' in d] \
            + [d['deep']['e'] for _, d in G.edges(data=True) if 'deep' in d]
        if touch:
            for x in found:
                x.append('touched')
        return sorted(map(repr, found))

    def meta(self, G, word):
        if {k: x for k, x in G.graph.items() if k != 'deep'} != {'name': 'g', 'tag': 1} or G.name != 'g' or str(G) != 'g':
            raise Violation('%sgraph attributes %r, name %r' % (word, dict(G.graph), G.name))

    def snapshots(self, case, rec):
        kind, way = case['kind'], case['way']
        ops = case['ops']
        S = SNAP[kind](name='g', tag=1)
        p = int(case['cut'] * (len(ops) + 1))
        word = 'copied by %s: ' % way

        def step(S, op):
            if op[0] == 'insert':
                k = op[1]
                S.insert(build(op[2]), **({'time': k[0]} if k[0] == k[1] else {'start': k[0], 'end': k[1]}))
            elif off(op[2], len(S)):
                return None
            elif op[0] == 'nodes':
                S.add_nodes_from(op[1], **op[2], **op[3])
            elif op[0] == 'edges':
                S.add_edges_from(op[1], **op[2], **op[3])
            else:
                return snap_answer(S, kind, op[1], op[2], op[3])
            return norm_snap(S)
        for op in ops[:p]:
            step(S, op)
        for j, g in enumerate(S):
            g.graph['deep'] = ['g', j]
            for n, d in g.nodes(data=True):
                d['deep'] = ['n']
        C = copied(S, way)
        self.meta(C, word)
        for g in C:
            g.graph['deep'].append('touched')
            for n, d in g.nodes(data=True):
                d['deep'].append('touched')
        for j, g in enumerate(S):
            if g.graph['deep'] != ['g', j] or any(d['deep'] != ['n'] for n, d in g.nodes(data=True)):
                raise Violation('%schanging lists among the attributes of the copy changed the original' % word)
        for g in (*S, *C):
            del g.graph['deep']
            for n, d in g.nodes(data=True):
                del d['deep']
        if type(C) is not SNAP[kind]:
            raise Violation('the copy is a %s' % type(C).__name__)
        was = norm_snap(S)
        if norm_snap(C) != was:
            raise Violation('%s%s, the original %s' % (word, show(norm_snap(C)), show(was)))
        rest = list(ops[p:]) + [['nodes', ['later'], {}, {'w': 1}]]
        first = [step(S, op) for op in rest]
        rec.bucket('original updated')
        if norm_snap(C) != was:
            raise Violation('%supdating the original changed the copy: %s before, %s after' % (word, show(was), show(norm_snap(C))))
        now = norm_snap(S)
        for op, a in zip(rest, first):
            b = step(C, op)
            if a != b:
                raise Violation('%s%r gave %s on the original and %s on the copy' % (word, op, show(a), show(b)))
        rec.bucket('copy updated')
        if norm_snap(S) != now:
            raise Violation('%supdating the copy changed the original' % word)
        if len(S):
            rec.nontrivial = True


# ------------------------------------------------------------------------------------------------ C46
def frozen(x):
    """The content of an argument, graphs included."""
    if isinstance(x, nx.Graph):
        return norm(x)
    if isinstance(x, dict):
        return ('dict', tuple((fz(k), frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(frozen(y) for y in x))
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(x))
    return fz(x)


def vandalise(x):
    """Change everything that can be changed in an argument."""
    if isinstance(x, nx.Graph):
        for _, d in x.nodes(data=True):
            d['w'] = 'vandal'
        for *_, d in x.edges(data=True):
            for k in d:
                d[k] = 'vandal'
        x.graph['vandal'] = 1
        x.add_edge('vandal', 'x')
    elif isinstance(x, dict):
        for k in list(x):
            vandalise(x[k])
            x[k] = 'vandal'
        x['vandal'] = 1
    elif isinstance(x, list):
        for y in x:
            vandalise(y)
        x.reverse()
        x.append('vandal')
        if len(x) > 1:
            del x[0]
    elif isinstance(x, set):
        x.add('vandal')
        if len(x) > 1:
            x.discard(next(iter(x - {'vandal'})))
    elif isinstance(x, tuple):
        for y in x:
            vandalise(y)


class C46(Check):
    pid = 'C46'
    technique = ('runtime monitoring: argument monitor: every mutable argument is frozen before the call, compared after the '
                 'call and after later updates, then changed thoroughly while the graph is compared with its model')
    quick, thorough = 8000, 240000
    WAYS = ('edge bunch', 'node bunch', 'node dictionaries', 'nodes asked', 'constructor', 'from networkx', 'bunch kept',
            'snapshot edges', 'snapshot nodes', 'snapshot asked', 'from snapshot graph')
    required = WAYS + ('argument changed', 'class IG', 'class IDG', 'class PG', 'class PDG', 'class SG', 'class SDG')
    rule = ('a case is a history whose updates and questions are given fresh mutable arguments (lists, sets, dictionaries, '
            'networkx graphs), each compared after the call and then changed; non-trivial when an argument was changed '
            'after a call on a graph with edges')
    assumptions = ('a networkx graph given to SnapshotGraph.insert becomes the snapshot itself (documented by the tests)',)

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            kind = ('SG', 'SDG')[i // 5 % 2]
            labels = V.labels(rng, rng.randint(1, 5))
            keys = disjoint_keys(rng, rng.choice((1, 2, 3, 4)), False)
            ops = [['insert', k, graph_spec(rng, kind == 'SDG', labels, .1, .1)] for k in keys]
            for _ in range(rng.choice((2, 4, 6))):
                r = rng.random()
                a, b = sorted((rng.choice(keys)[0], rng.choice(keys)[1]))
                sel = rng.choice(({}, {'sbunch': [rng.randrange(len(keys)) for _ in range(rng.choice((1, 2, 3, 7)))]},
                                  {'start': a, 'end': b} if a < b else {}))
                pairs = [[rng.choice(labels), rng.choice(labels)] + ([V.attrs(rng, .8)] if rng.random() < .5 else [])
                         for _ in range(rng.randint(0, 3))]
                if r < .35:
                    ops.append(['edges', pairs, sel])
                elif r < .55:
                    ops.append(['nodes', [rng.choice(labels) for _ in range(rng.randint(0, 3))], sel, rng.random() < .5])
                elif r < .7:
                    ops.append(['add', pairs, keys[-1][1] + 10 + len(ops)])
                else:
                    ops.append(['ask', rng.choice(('subgraph', 'degree', 'get')), [rng.choice(labels) for _ in range(rng.randint(0, 3))], sel])
            return {'kind': kind, 'ops': ops}
        kind = KINDS[i % 4]
        g = Gen(rng, kind, weights=(.5, .48, .02, 0), attr_p=.6, mix={'edge': 30, 'edges': 25, 'nodes': 25, 'again': 8, 'rm_edge': 8,
                                                                'rm_node': 4, 'node': 6})
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .3:
                q = ('q', 'edges', dict(g.window(), u=[g.some_node() for _ in range(rng.randint(0, 3))]))
                if rng.random() < .4:
                    q[2]['v'] = [g.some_node() for _ in range(rng.randint(1, 3))]
                ops.append(q)
        return {'kind': kind, 'ops': ops, 'form': rng.choice(('list', 'lists', 'set')), 'attr': g.attrs(), 'later': rng.random() < .5}

    def run(self, case, rec):
        kind = case['kind']
        rec.bucket('class ' + kind)
        if kind in SNAP:
            return self.snapshots(case, rec)
        attr = dict(case['attr'])
        w = World(kind, rec)
        w.G = CLASSES[kind](**attr)
        G, M = w.G, w.M
        self.same(attr, frozen(case['attr']), 'the attributes given to %s' % CLASSES[kind].__name__)
        G.graph['z'] = 1
        self.same(attr, frozen(case['attr']), 'the attributes given to %s' % CLASSES[kind].__name__)
        rec.bucket('constructor')
        kept = []
        for op in case['ops']:
            if op[0] == 'edges':
                arg = self.shape([tuple(e) for e in op[1]], case['form'])
                for e in arg:
                    M.add_edge(e[0], e[1], tuple(e[2:]), op[2])
                self.give(w, 'add_edges_from', arg, op[2], kept, case, rec, 'edge bunch')
            elif op[0] == 'nodes':
                arg = [(x[0], dict(x[1])) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) else x
                       for x in op[1]]
                if any(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) for x in arg):
                    rec.bucket('node dictionaries')
                for x in arg:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                        M.add_node(x[0], {**op[2], **x[1]})
                    else:
                        M.add_node(x, op[2])
                self.give(w, 'add_nodes_from', arg, op[2], kept, case, rec, 'node bunch')
            elif op[0] == 'q':
                kw = {k: (list(x) if isinstance(x, list) else x) for k, x in op[2].items()}
                was = frozen(kw)
                w.ask('edges', kw)
                self.same(kw, was, 'the arguments of edges(%s)' % args_text(op[2]))
                for p in ('u', 'v'):
                    if p in kw:
                        vandalise(kw[p])
                w.ask('edges', op[2], 'after the node list given to an earlier question was changed: ')
                rec.bucket('nodes asked')
            else:
                w.apply(op)
                for a, was, what in kept:
                    self.same(a, was, what + ' some updates ago')
        for a, was, what in kept:
            rec.bucket('bunch kept')
            self.same(a, was, what + ' some updates ago')
            vandalise(a)
        w.ask('state', {}, 'after the arguments of earlier calls were changed: ')
        # conversions
        flag = 'edge_interval_data' if M.interval_kind else 'edge_timestamp_data'
        if M.edges:
            g = G.to_networkx_graph(None, None, multigraph=True, edge_data=True, node_data=True, **{flag: True})
            was = frozen(g)
            H = CLASSES[kind].from_networkx_graph(g)
            self.same(g, was, 'the graph given to from_networkx_graph')
            before = q_real(H, M, 'state', {})
            H.add_node('later', w=1)
            e = next(iter(M.edges.values()))
            H.add_edge(e[0], e[1], *e[2], w='later')
            self.same(g, was, 'the graph given to from_networkx_graph some updates ago')
            H = CLASSES[kind].from_networkx_graph(g)
            vandalise(g)
            if q_real(H, M, 'state', {}) != before:
                raise Violation('changing the networkx graph changed the %s made from it' % CLASSES[kind].__name__)
            rec.bucket('from networkx')
            if M.interval_kind:
                S = G.to_snapshot_graph(edge_data=True, node_data=True)
                was = (norm_snap(S), frozen(dict(S.graph)))
                H = CLASSES[kind].from_snapshot_graph(S)
                H.add_node('later', w=1)
                for u, v, b, x in H.edges()[:3]:
                    H.add_edge(u, v, b, x, w='later')
                if (norm_snap(S), frozen(dict(S.graph))) != was:
                    raise Violation('from_snapshot_graph changed the snapshot graph it was given')
                rec.bucket('from snapshot graph')
        rec.state((kind, frozenset(M.edges)))

    def shape(self, xs, form):
        if form == 'lists':
            return [list(x) for x in xs]
        if form == 'set':
            return set(xs)
        return list(xs)

    def same(self, arg, was, what):
        if frozen(arg) != was:
            raise Violation('%s changed: now %r' % (what, arg))

    def give(self, w, name, arg, attr, kept, case, rec, way):
        kw = dict(attr)
        was = frozen(arg)
        what = 'the argument of %s' % name
        getattr(w.G, name)(arg, **kw)
        rec.bucket(way)
        rec.event('argument compared')
        self.same(arg, was, what)
        if case['later']:
            kept.append((arg, was, what))
            w.ask('state', {}, 'after %s: ' % name)
            return
        vandalise(arg)
        rec.bucket('argument changed')
        if w.M.edges:
            rec.nontrivial = True
        w.ask('state', {}, 'after the argument given to %s was changed: ' % name)

    def snapshots(self, case, rec):
        kind = case['kind']
        S = SNAP[kind]()
        gcls = nx.DiGraph if kind == 'SDG' else nx.Graph
        nxp = [None, None]
        for op in case['ops']:
            if op[0] == 'insert':
                k = op[1]
                g = build(op[2])
                was = frozen(g)
                S.insert(g, **({'time': k[0]} if k[0] == k[1] else {'start': k[0], 'end': k[1]}))
                self.same(g, was, 'the graph given to insert')
                continue
            if op[0] == 'add':
                eb = [list(e) for e in op[1]]
                for e in eb:
                    if len(e) == 3:
                        e[2] = dict(e[2])
                eb = [tuple(e) for e in eb]
                was = frozen(eb)
                S.add_snapshot(eb, start=op[2], end=op[2] + 1)
                self.same(eb, was, 'the edges given to add_snapshot')
                want = norm(gcls([(e[0], e[1], dict(e[2]) if len(e) > 2 else {}) for e in op[1]]))
                vandalise(eb)
                got = norm(S.snapshots[(op[2], op[2] + 1)])
                if got != want:
                    raise Violation('after the edges given to add_snapshot were changed the snapshot is %s, expected %s'
                                    % (show(got), show(want)))
                rec.bucket('snapshot edges')
                rec.bucket('argument changed')
                continue
            sel = dict(op[3] if op[0] == 'ask' else op[2])
            if off(sel, len(S)):
                continue
            if 'sbunch' in sel:
                sel['sbunch'] = list(sel['sbunch'])
            if op[0] == 'edges':
                arg, f, way = [tuple(e[:2]) + tuple(dict(d) for d in e[2:]) for e in op[1]], S.add_edges_from, 'snapshot edges'
            elif op[0] == 'nodes':
                arg = [(n, {'w': 1}) if op[3] else n for n in op[1]]
                f, way = S.add_nodes_from, 'snapshot nodes'
            else:
                arg, way = list(op[2]), 'snapshot asked'
                f = {'subgraph': S.subgraph, 'degree': lambda nb, **k: S.degree(nbunch=nb, **k), 'get': lambda nb, **k: S.get(**k)}[op[1]]
            was = frozen([arg, sel])
            ans = f(arg, **sel)
            self.same([arg, sel], was, 'the arguments of %s' % f.__name__)
            rec.event('argument compared')
            state = norm_snap(S)
            shown = self.shown(op, ans)
            vandalise(arg)
            vandalise(sel.get('sbunch'))
            rec.bucket(way)
            rec.bucket('argument changed')
            rec.nontrivial = True
            if norm_snap(S) != state:
                raise Violation('changing the arguments of an earlier %s changed the snapshots: %s before, %s after'
                                % (op[0], show(state), show(norm_snap(S))))
            if self.shown(op, ans) != shown:
                raise Violation('changing the arguments of an earlier %s changed its answer' % op[1])

    def shown(self, op, ans):
        if op[0] != 'ask':
            return None
        if op[1] == 'subgraph':
            return norm_snap(ans)
        if op[1] == 'degree':
            return tuple(MS([(N(n), d) for n, d in x]) for x in ans)
        return tuple(norm(g) for g in ans)


# ------------------------------------------------------------------------------------------------ C47
class Obj:
    """A user's object, equal to any other with the same value; its life can be watched."""
    __slots__ = ('v', '__weakref__')

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v)

    def __eq__(self, o):
        return self.v == (o.v if isinstance(o, Obj) else o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.v < (o.v if isinstance(o, Obj) else o)

    def __le__(self, o):
        return self.v <= (o.v if isinstance(o, Obj) else o)

    def __gt__(self, o):
        return self.v > (o.v if isinstance(o, Obj) else o)

    def __ge__(self, o):
        return self.v >= (o.v if isinstance(o, Obj) else o)

    def __repr__(self):
        return 'Obj(%r)' % (self.v,)


class Val:
    __slots__ = ('v', '__weakref__')

    def __init__(self, v):
        self.v = v


def settle():
    """Once per process: what exists already (the imported libraries) is left out of later collections."""
    if not settle.done:
        settle.done = True
        gc.collect()
        gc.freeze()


settle.done = False


def reach(root):
    """How many objects hang on this one (classes, modules and functions not followed)."""
    import types
    stop = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType)
    seen = {id(root)}
    todo = [root]
    while todo:
        for x in gc.get_referents(todo.pop()):
            if id(x) not in seen and not isinstance(x, stop):
                seen.add(id(x))
                todo.append(x)
    return len(seen)


class C47(Check):
    pid = 'C47'
    technique = ('runtime monitoring: lifetime monitor: weak references to every node, time and value handed over, object '
                 'census of the graph against a freshly built equal one')
    quick, thorough = 3000, 90000
    chunk = 5
    required = ('node released', 'time released', 'value released', 'projection released', 'snapshot released', 'graph released',
                'census', 'census after churn', 'class IG', 'class IDG', 'class PG', 'class PDG', 'class SG', 'class SDG')
    rule = ('a case is a history whose nodes, times and attribute values are watched objects; whatever is not equal to '
            'something still in the graph must be gone after a garbage collection; non-trivial when something was released '
            'while edges remained')

    def gen(self, rng, i, tier):
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels = V.labels(rng, 3, 'int')
            keys = disjoint_keys(rng, rng.choice((1, 2, 3)), False)
            return {'kind': kind, 'ops': [['insert', rng.choice(keys), graph_spec(rng, kind == 'SDG', labels, .1, .1)]
                                          for _ in range(rng.choice((3, 6, 10)))]}
        kind = KINDS[i % 4]
        churn = i % 3 == 0
        g = Gen(rng, kind, weights=(.3, .6, .1, 0) if not churn else (0, .4, .6, 0), label_style='int', times=('small', 'int', 'wide'),
                attr_p=.6, attr_keys=['w', 'color', 'k'], attr_vals=[1, 2, 3],
                mix={'edge': 40, 'edges': 5, 'again': 12, 'node': 6, 'nodes': 4, 'rm_edge': 22, 'rm_node': 12})
        ops = []
        for _ in range(g.nops):
            ops.append(g.mutate())
            if rng.random() < .15:
                q = any_question(g)
                ops.append(q)
        if churn:
            # many edges come and go
            fixed = rng.random() < .5
            for k in range(rng.choice((60, 150))):
                u, v = (g.new_pair() if fixed else (1000 + k, 1000 + k % 7))
                t = g.new_times() if rng.random() < .5 else ((3 * k, 3 * k + 2) if kind in INTERVAL else (3 * k,))
                op = ('edge', u, v, t, {'w': 1})
                before = len(g.M.edges)
                g.track(op)
                ops.append(op)
                if len(g.M.edges) > before:
                    if fixed or rng.random() < .5:
                        op = ('rm_edge', u, v, {'begin': t[0], 'end': t[-1], **({'overlapping': False} if kind in INTERVAL else
                                                                               {'inclusive': (True, True)})})
                    else:
                        op = ('rm_node', u, {})
                    g.track(op)
                    ops.append(op)
            for n in [n for n in g.M.nodes if isinstance(n, int) and n >= 1000]:
                op = ('rm_node', n, {})
                g.track(op)
                ops.append(op)
        return {'kind': kind, 'ops': ops, 'churn': churn}

    def run(self, case, rec):
        kind = case['kind']
        rec.bucket('class ' + kind)
        if kind in SNAP:
            return self.snapshots(case, rec)
        settle()
        G = CLASSES[kind](name='g')
        M = EdgeModel(kind)
        watch = {'node': [], 'time': [], 'value': []}

        def node(x):
            o = Obj(x)
            watch['node'].append((weakref.ref(o), x))
            return o

        def time(x):
            o = Obj(x)
            watch['time'].append((weakref.ref(o), x))
            return o

        def attrs(a):
            out = {}
            for k, x in a.items():
                o = Val(x)
                out[k] = o
                watch['value'].append((weakref.ref(o), None))
            return out

        def drive(op):
            op = map_op(op, node, time)
            k = op[0]
            if k == 'node':
                G.add_node(op[1], **attrs(op[2]))
            elif k == 'nodes':
                G.add_nodes_from([((x[0], attrs(x[1])) if isinstance(x, tuple) else x) for x in op[1]], **attrs(op[2]))
            elif k == 'edge':
                G.add_edge(op[1], op[2], *op[3], **attrs(op[4]))
            elif k == 'edges':
                G.add_edges_from(op[1], **attrs(op[2]))
            elif k == 'rm_edge':
                call(G, kind, 'remove_edge', dict(op[3], u=op[1], v=op[2]))
            elif k == 'rm_node':
                call(G, kind, 'remove_node', dict(op[2], n=op[1]))

        def follow(op):
            k = op[0]
            if k == 'node':
                M.add_node(op[1], op[2])
            elif k == 'nodes':
                for x in op[1]:
                    if isinstance(x, tuple):
                        M.add_node(x[0], {**op[2], **x[1]})
                    else:
                        M.add_node(x, op[2])
            elif k == 'edge':
                M.add_edge(*op[1:])
            elif k == 'edges':
                for e in op[1]:
                    M.add_edge(e[0], e[1], e[2:], op[2])
            elif k == 'rm_edge':
                w = dict(op[3])
                if kind == 'PDG':
                    w.setdefault('inclusive', (True, True))
                M.remove_edge(op[1], op[2], w)
            elif k == 'rm_node':
                M.remove_node(op[1], op[2])
        since = 0
        for op in case['ops']:
            if op[0] == 'q':
                _, name, kw = op
                if not askable(M, name, kw) or name in ('to_snapshots', 'rt_nx', 'state', 'to_snapshot_graph'):
                    continue
                self.question(G, M, kind, name, map_kw(kw, node, time), rec)
                continue
            drive(op)
            follow(op)
            since += 1
            if op[0].startswith('rm') and since > 8 and not case['churn']:
                since = 0
                self.census(G, M, watch, rec)
        self.census(G, M, watch, rec)
        self.size(G, M, kind, rec, case['churn'])
        rec.state((kind, frozenset(M.edges)))
        if M.edges:
            H = G.to_networkx_graph(None, None, multigraph=True)
            r = weakref.ref(H)
            del H
            gc.collect()
            if r() is not None:
                raise Violation('%s keeps the graph that to_networkx_graph returned' % type(G).__name__)
            rec.bucket('projection released')
            S = G.to_snapshot_graph()
            rs = [weakref.ref(S)] + [weakref.ref(g) for g in S]
            del S
            gc.collect()
            if any(r() is not None for r in rs):
                raise Violation('%s keeps the snapshots that to_snapshot_graph returned' % type(G).__name__)
            rec.bucket('snapshot released')
        r = weakref.ref(G)
        drive = follow = None
        G = None
        gc.collect()
        if r() is not None:
            raise Violation('a %s that nobody refers to any more is kept alive' % CLASSES[kind].__name__)
        alive = [x for part in watch.values() for x, _ in part if x() is not None]
        if alive:
            raise Violation('%d objects outlive the %s they were given to' % (len(alive), CLASSES[kind].__name__))
        rec.bucket('graph released')

    def question(self, G, M, kind, name, kw, rec):
        q_real(G, M, name, kw)
        rec.event('query:' + name)

    def census(self, G, M, watch, rec):
        gc.collect()
        rec.event('lifetime census')
        times = set(M.event_times())
        values = sum(len(a) for a in M.nodes.values()) + sum(len(e[3]) for e in M.edges.values())
        for part, present in (('node', M.nodes), ('time', times)):
            keep = []
            for r, x in watch[part]:
                if r() is None:
                    if x not in present:
                        rec.bucket(part + ' released')
                        if M.edges:
                            rec.nontrivial = True
                    continue
                if x not in present:
                    raise Violation('%s keeps a %s that is in it no longer: %r' % (type(G).__name__, part, x))
                keep.append((r, x))
            watch[part] = keep
        keep = [(r, x) for r, x in watch['value'] if r() is not None]
        if len(keep) < len(watch['value']):
            rec.bucket('value released')
        watch['value'] = keep
        if len(keep) > values:
            raise Violation('%s keeps %d attribute values; its nodes and edges have %d' % (type(G).__name__, len(keep), values))

    def size(self, G, M, kind, rec, churn):
        H = CLASSES[kind](name='g')
        for n, a in M.nodes.items():
            H.add_node(Obj(n), **{k: Val(x) for k, x in a.items()})
        for e in M.edges.values():
            H.add_edge(Obj(e[0]), Obj(e[1]), *[Obj(t) for t in e[2]], **{k: Val(x) for k, x in e[3].items()})
        a, b = reach(G), reach(H)
        rec.bucket('census after churn' if churn else 'census')
        rec.event('objects counted', a)
        if a > 2 * b + 150:
            raise Violation('%s with %d nodes and %d edges holds %d objects; built afresh it holds %d'
                            % (type(G).__name__, len(M.nodes), len(M.edges), a, b))

    def snapshots(self, case, rec):
        kind = case['kind']
        settle()
        S = SNAP[kind]()
        live = {}
        dead = []
        for op in case['ops']:
            k = tuple(op[1])
            g = build(op[2])
            S.insert(g, start=k[0], end=k[1])
            if k in live:
                dead.append(live[k])
            live[k] = weakref.ref(g)
            del g
            gc.collect()
            rec.event('lifetime census')
            for r in dead:
                if r() is not None:
                    raise Violation('%s keeps a snapshot that was replaced' % type(S).__name__)
                rec.bucket('snapshot released')
                rec.nontrivial = True
            S.degree(), S.get(), S.size(), S.subgraph([0])
        for i, r in enumerate(live.values()):
            if r() is None:
                raise Violation('%s lost a snapshot' % type(S).__name__)
        r = weakref.ref(S)
        del S
        gc.collect()
        if r() is not None or any(x() is not None for x in live.values()):
            raise Violation('a %s that nobody refers to any more is kept alive' % SNAP[kind].__name__)
        rec.bucket('graph released')


# ------------------------------------------------------------------------------------------------ C48
LIB = REPO + '/dynetworkx/'


def preempted(f, points, other):
    """f() with other() run inside it at the given line events of the library; (answer, lines seen, times run)."""
    state = [0, 0]
    points = set(points)

    def local(frame, event, arg):
        if event == 'line':
            if state[0] in points:
                state[1] += 1
                other()
            state[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIB) else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        got = f()
    finally:
        sys.settrace(old)
    return got, state[0], state[1]


class C48(Check):
    pid = 'C48'
    technique = ('runtime monitoring: interleaving monitor: one question is run inside another at chosen lines of the library '
                 '(trace-based preemption), and threads ask at once under a tiny switch interval; each answer is compared '
                 'with the one given alone')
    quick, thorough = 3000, 90000
    chunk = 5
    required = ('preempted', 'threads', 'nested statistic', 'save', 'motif', 'edges', 'has_edge', 'nodes', 'degree', 'delta',
                'interval', 'to_subgraph', 'to_snapshots', 'class IG', 'class IDG', 'class PG', 'class PDG', 'class SG',
                'class SDG', 'trained')
    rule = ('a case is a graph and several questions; each is asked alone, then inside one another at several lines of the '
            'library and from several threads; non-trivial when a question was run inside another one whose answer is not '
            'empty')
    assumptions = ('only questions overlap; updates while a question is being answered are not promised anything',)

    def gen(self, rng, i, tier):
        if i % 6 == 5:
            kind = ('SG', 'SDG')[i // 6 % 2]
            labels, ops = snap_history(rng, kind)
            ops = [op for op in ops if op[0] == 'insert'] + [op for op in ops if op[0] in ('nodes', 'edges')] + \
                  [op for op in ops if op[0] == 'q']
            return {'kind': kind, 'ops': ops, 'points': [rng.random() for _ in range(4)], 'threads': i % 3 == 2}
        kind = KINDS[i % 4]
        words = rng.random() < .5
        g = Gen(rng, kind, weights=(.3, .6, .1, 0), **({'label_style': rng.choice(('int', 'str')), 'times': ('int', 'dyadic', 'small')}
                                                      if words else {}))
        ops = [g.mutate() for _ in range(g.nops)]
        if g.times.style in V.TIME_STYLES and rng.random() < .25:
            ops.append(('train', rng.randrange(10 ** 6), 3))
        qs = [any_question(g) for _ in range(5)]
        if words:
            qs.append(('q', rng.choice(('save', 'motif')), {}))
        return {'kind': kind, 'ops': ops + qs, 'points': [rng.random() for _ in range(4)], 'threads': i % 12 in (0, 1, 2, 3)}

    def run(self, case, rec):
        kind = case['kind']
        rec.bucket('class ' + kind)
        if kind in SNAP:
            return self.snapshots(case, rec)
        w = World(kind, rec)
        M, G = w.M, w.G
        fs = []
        for op in case['ops']:
            if op[0] != 'q':
                w.apply(op)
                if op[0] == 'train' and M.edges:
                    rec.bucket('trained')
                continue
            name, kw = op[1], op[2]
            if name in ('save', 'motif'):
                if name == 'motif' and (kind != 'PDG' or len(M.edges) > 40) or not M.nodes:
                    continue
                fs.append((name, '', self.extra(G, name)))
            elif askable(M, name, kw):
                fs.append((name, args_text(kw), lambda name=name, kw=kw: answer(G, M, name, kw)))
        self.together(CLASSES[kind].__name__, fs, case, rec)
        w.ask('state', {}, 'after interleaved questions: ')
        rec.state((kind, frozenset(M.edges)))

    def extra(self, G, name):
        def save():
            with scratch() as d:
                p = os.path.join(d, 'g.txt')
                G.save_to_txt(p)
                with open(p) as f:
                    return f.read()

        def motif():
            total, counts, table = dnx.count_temporal_motif(G, ((1, 2), (2, 3)), 3)
            return (total, fz({k: v for k, v in counts.items() if v}))
        return save if name == 'save' else motif

    def together(self, who, fs, case, rec):
        alone = []
        for name, _, f in fs:
            rec.bucket(name)
            alone.append(f())
        n = len(fs)
        for a in range(n):
            b = (a * 2 + 1) % n
            name, text, f = fs[a]
            name2, text2, f2 = fs[b]
            inner = []
            _, lines, _ = preempted(f, (), None)
            if not lines:
                continue
            points = {int(r * lines) for r in case['points']}
            got, _, ran = preempted(f, points, lambda: inner.append(f2()))
            if not ran:
                continue
            rec.bucket('preempted')
            rec.event('question inside a question', ran)
            if got != alone[a]:
                raise Violation('%s %s(%s), with %s(%s) asked in between, answered %s; alone %s'
                                % (who, name, text, name2, text2, show(got), show(alone[a])))
            for x in inner:
                if x != alone[b]:
                    raise Violation('%s %s(%s), asked while %s(%s) was being answered, answered %s; alone %s'
                                    % (who, name2, text2, name, text, show(x), show(alone[b])))
            if alone[a] not in (None, (), False, 0, MS([])):
                rec.nontrivial = True
        if case['threads'] and fs:
            self.threads(who, fs, alone, rec)

    def threads(self, who, fs, alone, rec):
        wrong = []
        start = threading.Barrier(3)

        def ask(k):
            try:
                start.wait(10)
                for r in range(3):
                    for j in range(len(fs)):
                        i = (j + k + r) % len(fs)
                        got = fs[i][2]()
                        if got != alone[i]:
                            wrong.append((i, show(got)))
                            return
            except Exception as e:
                wrong.append((i, '%s: %s' % (type(e).__name__, e)))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=ask, args=(k,)) for k in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        rec.bucket('threads')
        rec.event('questions from threads', 9 * len(fs))
        if wrong:
            i, text = wrong[0]
            raise Violation('%s %s(%s) answered %s while other threads were asking; alone %s'
                            % (who, fs[i][0], fs[i][1], text, show(alone[i])))

    def snapshots(self, case, rec):
        kind = case['kind']
        S = SNAP[kind](name='s')
        fs = []
        for op in case['ops']:
            if op[0] == 'insert':
                k = op[1]
                S.insert(build(op[2]), **({'time': k[0]} if k[0] == k[1] else {'start': k[0], 'end': k[1]}))
                continue
            sel = op[2]
            if off(sel, len(S)):
                continue
            if op[0] == 'nodes':
                S.add_nodes_from(op[1], **sel, **op[3])
            elif op[0] == 'edges':
                S.add_edges_from(op[1], **sel, **op[3])
            else:
                fs.append((op[1], args_text(dict(sel, **op[3])),
                           lambda op=op: snap_answer(S, kind, op[1], op[2], op[3])))
        before = norm_snap(S)
        self.together(SNAP[kind].__name__, fs, case, rec)
        # questions asked by the statistic while the snapshots are being gone through
        if fs:
            name, text, f = fs[0]
            alone = f()
            plain = S.compute_network_statistic(len)
            inner = []

            def stat(g):
                inner.append(f())
                return len(g)
            got = S.compute_network_statistic(stat)
            rec.bucket('nested statistic')
            if got != plain or any(x != alone for x in inner):
                raise Violation('%s: a statistic that asks %s(%s) itself got %r (expected %r) and %s'
                                % (SNAP[kind].__name__, name, text, got, plain, [show(x) for x in inner]))
        if norm_snap(S) != before:
            raise Violation('%s: interleaved questions changed the snapshots' % SNAP[kind].__name__)


CHECKS = [C44, C45, C46, C47, C48]
