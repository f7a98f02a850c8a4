"""Value domains (labels, times, attributes) and normal forms of answers.

A *normal form* is a nested tuple in which every node label is tagged ('N', x)
and every time is tagged ('T', t).  Answers of the library and of the reference
model are turned into normal forms and compared with ==; the metamorphic
monitors rewrite the tags (shift a time, rename a node) instead of knowing the
shape of every answer.
"""
import datetime
from collections import Counter
from decimal import Decimal
from fractions import Fraction

inf = float('inf')


# ---------------------------------------------------------------- normal forms
def N(x):
    return ('N', x)


def T(t):
    return ('T', t)


def MS(items):
    """Multiset: order is not part of the answer, multiplicity is."""
    return ('MS', frozenset(Counter(items).items()))


def fz(v):
    """Freeze an attribute value; type and value both count."""
    if isinstance(v, dict):
        return ('D', frozenset((k, fz(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ('L', type(v).__name__, tuple(fz(x) for x in v))
    try:
        hash(v)
        return ('V', type(v).__name__, v)
    except TypeError:
        return ('V', type(v).__name__, repr(v))


def fz_loose(v):
    """Freeze, but numbers compare as numbers (text files do not keep int/float)."""
    if isinstance(v, dict):
        return ('D', frozenset((k, fz_loose(x)) for k, x in v.items()))
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return ('V', 'number', v)
    return fz(v)


def map_norm(x, node=None, time=None, pair=None):
    """Rewrite the tagged labels / times / directed pairs of a normal form."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'N':
            return ('N', node(x[1])) if node else x
        if len(x) == 2 and x[0] == 'T':
            return ('T', time(x[1])) if time else x
        if len(x) == 3 and x[0] == 'DP':
            y = ('DP', map_norm(x[1], node, time, pair), map_norm(x[2], node, time, pair))
            return ('DP', y[2], y[1]) if pair else y
        return tuple(map_norm(y, node, time, pair) for y in x)
    if isinstance(x, frozenset):
        return frozenset(map_norm(y, node, time, pair) for y in x)
    return x


def show(x, limit=700):
    """Readable text for a normal form."""
    s = _show(x)
    return s if len(s) <= limit else s[:limit] + '...'


def _show(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] in ('N', 'T'):
            return repr(x[1])
        if len(x) == 2 and x[0] == 'MS':
            out = []
            for item, cnt in x[1]:
                out.append(_show(item) + ('' if cnt == 1 else ' x%d' % cnt))
            return '{' + ', '.join(sorted(out)) + '}'
        if len(x) == 2 and x[0] == 'D':
            return '{' + ', '.join(sorted('%r: %s' % (k, _show(v)) for k, v in x[1])) + '}'
        if len(x) == 3 and x[0] == 'V':
            return repr(x[2])
        if len(x) == 3 and x[0] == 'DP':
            return '%s->%s' % (_show(x[1]), _show(x[2]))
        if len(x) == 2 and x[0] == 'UP':
            return '--'.join(sorted(_show(y) for y in x[1]))
        return '(' + ', '.join(_show(y) for y in x) + ')'
    if isinstance(x, frozenset):
        return '{' + ', '.join(sorted(_show(y) for y in x)) + '}'
    return repr(x)


# ---------------------------------------------------------------- node labels
_STR = ['', 'a', 'b', 'ab', 'ba', 'c', 'node 7', 'None', '0', '1', 'A', 'abc', 'x,y', 'é', '-', 'begin', 'long' * 20, 'long' * 20 + 'er']
_TUP = [(), (0,), (1,), (0, 1), (1, 0), ('a',), ('a', 'b'), (1, (2, 3)), ((),), (None,), (2, 3, 4)]
_FRO = [frozenset(), frozenset([0]), frozenset([0, 1]), frozenset(['a']), frozenset(['a', 'b']),
        frozenset([(1, 2)]), frozenset([2])]
LABEL_STYLES = ('int', 'int', 'int', 'neg', 'str', 'str', 'tuple', 'frozen', 'float', 'mixed', 'mixed', 'bytes', 'name')


class Name:
    """A label of the user's own class: equal by value, without an order, and iterable."""
    __slots__ = ('of',)

    def __init__(self, of):
        self.of = of

    def __eq__(self, other):
        return type(other) is Name and other.of == self.of

    def __hash__(self):
        return hash(self.of) % 5        # unequal labels often share a hash

    def __iter__(self):
        return iter((self.of,))

    def __call__(self, *a):
        raise TypeError('%r was called' % (self,))

    def __repr__(self):
        return 'Name(%r)' % (self.of,)


COMPOUND = (tuple, frozenset, bytes, Name)      # absent ones given as nodes are read as collections
_BYT = [b'', b'a', b'ab', b'\x00', b'0', b'1']


def labels(rng, k, style=None):
    """k distinct hashable labels."""
    style = style or rng.choice(LABEL_STYLES)
    if style == 'int':
        pool = list(range(k))
    elif style == 'neg':
        pool = list(range(-k, k + 1))
    elif style == 'str':
        pool = _STR + ['n%d' % i for i in range(k)]
    elif style == 'tuple':
        pool = _TUP + [(i, 'p') for i in range(k)]
    elif style == 'frozen':
        pool = _FRO + [frozenset([i, 'f']) for i in range(k)]
    elif style == 'bytes':
        pool = _BYT + [b'n%d' % i for i in range(k)]
    elif style == 'name':
        pool = [Name(i) for i in range(k)] + [Name('a'), Name(())]
    elif style == 'float':
        pool = [i / 2 for i in range(-k, k + 1)] + [1e300, 0.1, 10 ** 20]
    else:
        pool = [0, 1, -1, 2, 5] + _STR[:8] + _TUP[:8] + _FRO[:5] + _BYT[:2] + [Name(0), Name('a')] + [0.5, 1.5] + list(range(10, 10 + k))
    pool = list(dict.fromkeys(pool))
    if style == 'int' and rng.random() < .7:
        return pool[:k]
    return rng.sample(pool, min(k, len(pool)))


def fresh(x):
    """An equal object that is not the same one (where Python allows it): the library must compare, not identify."""
    t = type(x)
    if t is str:
        return (x + '#')[:-1]
    if t is tuple:
        return tuple([fresh(y) for y in x])
    if t is list:
        return [fresh(y) for y in x]
    if t is frozenset:
        return frozenset([fresh(y) for y in x])
    if t is float:
        return x * 1.0
    if t is int:
        return x + 1 - 1
    if t is Fraction:
        return Fraction(x.numerator, x.denominator)
    if t is datetime.date or t is datetime.datetime:
        return x.replace()
    if t is Decimal:
        return +x
    if t is bytes:
        return (x + b'#')[:-1]
    if t is Name:
        return Name(fresh(x.of))
    return x


ABSENT = ['absent', 987654, -987654, 'zz top', 0.123]


# ---------------------------------------------------------------- attributes
class Odd:
    """An attribute value like an array: no truth value, no hash, and comparing it gives no truth value either."""
    __slots__ = ('of',)
    __hash__ = None

    def __init__(self, of):
        self.of = of

    def __eq__(self, other):
        return Odd(0)

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __bool__(self):
        raise ValueError('the truth value of an Odd is ambiguous')

    def __repr__(self):
        return 'Odd(%r)' % (self.of,)


ATTR_KEYS = ['w', 'color', 'weight', 'label', 'a b', '', 'data', 'key', '0', 'default', 'k9']
ATTR_VALS = [0, None, '', 'red', 'blue', 1, 1.5, -1, False, True, (1, 2), 2.0, 'w', 10 ** 20, Odd(1), Odd(2)]


def attrs(rng, p=.5, keys=ATTR_KEYS, vals=ATTR_VALS):
    if rng.random() >= p:
        return {}
    ks = keys if rng.random() < .4 else keys[:3]
    return {k: rng.choice(vals) for k in rng.sample(ks, min(len(ks), rng.choice((1, 1, 1, 2, 2, 3))))}


# ---------------------------------------------------------------- times
TIME_STYLES = ('small', 'small', 'zero', 'int', 'dyadic', 'float', 'big', 'wide', 'mixed')
ORDERABLE = ('str', 'date', 'fraction', 'huge', 'open', 'decimal', 'moment')     # times are "orderable"; some cannot be added to
DATES = tuple(datetime.date(2019 + i // 3, 1 + i % 2, 1 + 7 * i % 5) for i in range(9))

MOMENTS = tuple(datetime.datetime(2020, 2, d, 23, 30) for d in (28, 1, 29))


class Times:
    """A time domain: where event times and query bounds are drawn from."""

    def __init__(self, style):
        self.style = style

    def draw(self, rng):
        s = self.style
        if s == 'small':
            return rng.randint(0, 5)
        if s == 'zero':
            return rng.randint(-3, 3)
        if s == 'int':
            return rng.randint(-6, 20)
        if s == 'dyadic':
            return rng.randint(-12, 24) / 4
        if s == 'float':
            return rng.choice((0.1, 0.2, 0.3, 0.1 + 0.2, 1.1, 2.2, -0.7, 3.3, 1e-9, 0.0, 7.25, 2 / 3, 1.23456789012e-05))
        if s == 'big':
            return 10 ** 15 + rng.randint(0, 9)
        if s == 'wide':
            return rng.randint(0, 1000)
        if s == 'mixed':
            return rng.choice((rng.randint(-2, 5), rng.randint(-8, 20) / 4, float(rng.randint(-2, 5))))
        if s == 'huge':                  # no two of them differ as floats
            return 2 ** 62 + rng.randint(0, 9)
        if s == 'fraction':
            return Fraction(rng.randint(-6, 15), rng.choice((3, 3, 7)))
        if s == 'date':
            return rng.choice(DATES)
        if s == 'open':                  # edges that never begin or never end
            return rng.choice((rng.randint(-3, 6), rng.randint(-3, 6), rng.randint(-3, 6), inf, -inf))
        if s == 'decimal':
            return Decimal(rng.randint(-9, 25)) / 10
        if s == 'moment':
            return MOMENTS[0] + datetime.timedelta(minutes=rng.randint(0, 12) * 90)
        if s == 'str':
            return rng.choice(('a', 'b', 'c', 'aa', 'd', '2020-01-01', '2020-01-02', ''))
        raise ValueError(s)

    def interval(self, rng, zero=.1):
        """begin <= end; mostly positive length, some instants, some long."""
        while True:
            r = rng.random()
            a = self.draw(rng)
            if r < zero:
                return a, a
            if r < zero + .35 and self.style not in ('str', 'float', 'date', 'decimal', 'moment'):
                step = .25 if self.style in ('dyadic', 'mixed') else 1
                return a, a + step * rng.choice((1, 1, 1, 2, 3))
            b = self.draw(rng)
            if a != b:
                return (a, b) if a < b else (b, a)

    def probe(self, rng, known=()):
        """A query bound: an event time, just beside one, or far outside."""
        r = rng.random()
        if known and r < .55:
            return rng.choice(known)
        t = self.draw(rng)
        if self.style == 'decimal':
            return t if r < .9 else rng.choice((t + Decimal('.05'), t - Decimal('.05'), 0, inf, -inf))
        if self.style == 'moment':
            return t if r < .9 else rng.choice(MOMENTS[1:]) + rng.choice((0, 1)) * datetime.timedelta(days=300)
        if self.style == 'date':
            return t if r < .9 else rng.choice((datetime.date(1, 1, 1), datetime.date(9999, 1, 1)))
        if self.style == 'str':
            return t if r < .9 else rng.choice((t + 'x', '~', ''))
        if r < .75:
            return t
        if r < .85:
            return t + .5
        if r < .92:
            return t - .5
        return rng.choice((t - 10 ** 6, t + 10 ** 6, 0, 0.0, inf, -inf))
