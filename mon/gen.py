"""Workload generation: hostile little histories, and a few large ones."""
from .model import EdgeModel, INTERVAL
from . import values as V

SIZES = {'tiny': ((1, 3), (4, 10)), 'small': ((3, 6), (10, 26)), 'medium': ((6, 14), (40, 90)),
         'large': ((10, 40), (150, 400))}
MIX = {'edge': 46, 'edges': 5, 'again': 8, 'readd': 5, 'node': 6, 'nodes': 3, 'rm_edge': 13, 'rm_node': 5}
ADD_ONLY = {'edge': 80, 'edges': 6, 'again': 6, 'node': 5, 'nodes': 3}
FORMS = ('list', 'list', 'tuple', 'iter', 'keys')      # how a bunch is handed over
NUMERIC = tuple(s for s in V.TIME_STYLES)
EXACT = ('small', 'small', 'zero', 'int', 'dyadic', 'wide')


class Gen:
    def __init__(self, rng, kind, size=None, weights=(.34, .42, .2, .04), label_style=None, times=None,
                 zero=None, attr_p=None, mix=None, attr_keys=None, attr_vals=None):
        self.rng, self.kind = rng, kind
        self.size = size or rng.choices(('tiny', 'small', 'medium', 'large'), weights)[0]
        (n0, n1), (o0, o1) = SIZES[self.size]
        self.huge = self.size == 'large' and rng.random() < .06       # few updates with long bunches
        self.crowd = self.size in ('medium', 'large') and rng.random() < .06      # most edges between one pair
        self.labels = V.labels(rng, rng.randint(n0, n1) if not self.huge else rng.randint(110, 160), label_style)
        self.nops = rng.randint(o0, o1) if not self.huge else rng.randint(20, 50)
        styles = times or V.TIME_STYLES + V.ORDERABLE
        self.times = V.Times(rng.choice(styles))
        self.zero = rng.choice((0, .05, .2)) if zero is None else zero
        self.attr_p = rng.choice((0, .3, .7)) if attr_p is None else attr_p
        self.attr_kw = {}
        if attr_keys:
            self.attr_kw['keys'] = attr_keys
        if attr_vals:
            self.attr_kw['vals'] = attr_vals
        self.mix = dict(mix or MIX)
        if self.size == 'large':
            self.mix = {k: (v / 3 if k.startswith('rm') else v) for k, v in self.mix.items()}
        self.M = EdgeModel(kind)
        self.removed = []
        self.loop_p = rng.choice((0, .05, .2))
        # few pairs with many edges, or many pairs
        self.hub = rng.random() < .3

    # ------------------------------------------------------------- pieces
    def attrs(self):
        return V.attrs(self.rng, self.attr_p, **self.attr_kw)

    def label(self):
        if self.hub and self.rng.random() < .6:
            return self.labels[0]
        return self.rng.choice(self.labels)

    def new_times(self):
        if self.kind in INTERVAL:
            return self.times.interval(self.rng, self.zero)
        return (self.times.draw(self.rng),)

    def new_pair(self):
        if self.crowd and self.rng.random() < .85:
            u, v = self.labels[0], self.labels[-1]
            return (u, v) if self.rng.random() < .8 else (v, u)
        u = self.label()
        if self.rng.random() < self.loop_p or len(self.labels) == 1:
            return u, u
        for _ in range(5):
            v = self.rng.choice(self.labels)
            if v != u:
                return u, v
        return u, v

    def edge(self):
        """A present edge, or None."""
        if not self.M.edges:
            return None
        return self.rng.choice(list(self.M.edges.values()))

    def present(self):
        return self.rng.choice(list(self.M.nodes)) if self.M.nodes else None

    def some_node(self, absent=.08):
        r = self.rng.random()
        if r < absent or (not self.M.nodes and r < .5):
            return self.rng.choice(V.ABSENT)
        if r < .8 and self.M.nodes:
            return self.present()
        x = self.rng.choice(self.labels)
        if isinstance(x, V.COMPOUND) and x not in self.M.nodes:
            return self.rng.choice(V.ABSENT)
        return x

    def window(self, none=.1, instant=.15, half=.15, inclusive=.5, edge=None):
        """begin <= end; often on event times; sometimes open or an instant."""
        rng = self.rng
        if edge is not None and rng.random() < .6:
            known = list(edge[2])
        else:
            known = self.M.event_times() if len(self.M.edges) < 60 else [rng.choice(list(self.M.edges.values()))[2][0]]
        w = {}
        r = rng.random()
        a, b = self.times.probe(rng, known), self.times.probe(rng, known)
        if r < none:
            pass
        elif r < none + half:
            w['begin'] = a
        elif r < none + 2 * half:
            w['end'] = b
        elif r < none + 2 * half + instant:
            w['begin'] = w['end'] = a
        else:
            w['begin'], w['end'] = (a, b) if a <= b else (b, a)
        if self.kind not in INTERVAL and rng.random() < inclusive:
            w['inclusive'] = (rng.random() < .5, rng.random() < .5)
        if rng.random() < .3:
            w['_pos'] = rng.randint(0, 5)
        return w

    # ------------------------------------------------------------- updates
    def mutate(self):
        rng, M = self.rng, self.M
        if self.size == 'large' and len(M.edges) < 60 and rng.random() < .8:
            what = 'edges' if self.huge else 'edge'
        else:
            what = rng.choices(list(self.mix), list(self.mix.values()))[0]
        if what == 'again' and M.edges:
            e = self.edge()
            u, v = (e[0], e[1])
            if not M.directed and rng.random() < .5:
                u, v = v, u
            op = ('edge', u, v, e[2], self.attrs())
        elif what == 'readd' and self.removed:
            u, v, t = rng.choice(self.removed)
            op = ('edge', u, v, t, self.attrs())
        elif what == 'edges':
            op = ('edges', [self.new_pair() + self.new_times() for _ in range(self.bunch_size())], self.attrs(),
                  rng.choice(FORMS))
        elif what == 'node':
            op = ('node', rng.choice(self.labels), self.attrs())
        elif what == 'nodes':
            xs = []
            for _ in range(self.bunch_size()):
                n = rng.choice(self.labels)
                xs.append((n, self.attrs()) if rng.random() < .5 else n)
            op = ('nodes', xs, self.attrs(), rng.choice(FORMS))
        elif what == 'rm_edge':
            op = self.rm_edge()
        elif what == 'rm_node':
            op = self.rm_node()
        else:
            u, v = self.new_pair()
            e = self.edge()
            t = self.new_times()
            if e is not None and rng.random() < .3:      # share times or an end point with an existing edge
                t = e[2] if rng.random() < .5 or self.kind not in INTERVAL else self.near(e[2])
                if rng.random() < .4:
                    u, v = e[0], e[1]
            op = ('edge', u, v, t, self.attrs())
        self.track(op)
        return op

    def bunch_size(self):
        if self.huge or (self.crowd and self.rng.random() < .3):
            return self.rng.choice((20, 60, 100))
        if self.size in ('medium', 'large') and self.rng.random() < .08:
            return self.rng.choice((17, 40, 70, 130))
        return self.rng.randint(0, 4)

    def near(self, t):
        a, b = t
        c = self.times.draw(self.rng)
        r = self.rng.random()
        if r < .25 and b < c:
            return (b, c)
        if r < .5 and c < a:
            return (c, a)
        if r < .75 and a < c:
            return (a, c)
        return (min(c, b), max(c, b))

    def rm_edge(self):
        rng = self.rng
        e = self.edge()
        if e is None or rng.random() < .1:
            u, v = self.some_node(.3), self.some_node(.3)
        else:
            u, v = e[0], e[1]
            if rng.random() < .3:
                u, v = v, u
        if self.kind in INTERVAL and rng.random() < .35:
            if e is not None and rng.random() < .8:
                t = e[2]
            else:
                t = self.new_times()
            return ('rm_edge', u, v, {'begin': t[0], 'end': t[1], 'overlapping': False})
        return ('rm_edge', u, v, self.window(none=.35, edge=e))

    def rm_node(self):
        n = self.some_node(.1)
        es = [e for e in self.M.edges.values() if self.M.touches(e, n)]
        return ('rm_node', n, self.window(none=.45, edge=self.rng.choice(es) if es else None))

    def track(self, op):
        """Follow the history in a model, so that later choices can aim at what is there."""
        M = self.M
        if op[0] == 'node':
            M.add_node(op[1], op[2])
        elif op[0] == 'nodes':
            for x in op[1]:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                    M.add_node(x[0], x[1])
                else:
                    M.add_node(x, {})
        elif op[0] == 'edge':
            M.add_edge(op[1], op[2], op[3], op[4])
        elif op[0] == 'edges':
            for e in op[1]:
                M.add_edge(e[0], e[1], e[2:], {})
        elif op[0] in ('rm_edge', 'rm_node'):
            before = dict(M.edges)
            if op[0] == 'rm_edge':
                M.remove_edge(op[1], op[2], op[3])
            else:
                M.remove_node(op[1], op[2])
            for k, e in before.items():
                if k not in M.edges and len(self.removed) < 50:
                    self.removed.append(e[:3])

    # ------------------------------------------------------------- node arguments of edges()
    def node_arg(self, multi=.3):
        rng = self.rng
        if rng.random() < multi:
            xs = [self.some_node(.1) for _ in range(rng.choice((0, 1, 2, 2, 3, 4)) if rng.random() < .93 else rng.choice((7, 12, 12, 20, 45)))]
            r = rng.random()
            if r < .7:
                return xs
            if r < .85:
                return set(xs)
            t = tuple(xs)
            return t if t not in self.M.nodes and len(t) != 0 else xs
        return self.some_node(.06)

    def data_kw(self):
        rng = self.rng
        r = rng.random()
        if r < .4:
            return {}
        if r < .6:
            return {'data': True}
        keys = self.attr_kw.get('keys', V.ATTR_KEYS)
        kw = {'data': rng.choice(keys[:4] if rng.random() < .6 else keys)}
        if rng.random() < .6:
            kw['default'] = rng.choice((0, None, 'dflt', -1))
        return kw
