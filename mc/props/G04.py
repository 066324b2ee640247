"""
All the ordered pairs among 160 values (thorough: 600) built by nesting up
to 2 levels numbers (integers, floats, complex, NaN, infinities, booleans),
byte and unicode strings, None, lists, tuples, generators, dictionaries,
objects with attributes, with slots, with inherited slots, with both and
with unset slots; all the pairs of numbers with a difference around the
precision for each precision from 0 to 9; all the sets of attributes to
exclude, at any depth. Every comparison must answer, in both directions,
whether the two structures are the same, with a message if and only if they
are not.
"""
import itertools
from mclib import check
from openquake.commonlib.general import deep_eq

QUICK_SHARDS = 4
NAN = float('nan')
INF = float('inf')


class Obj(object):
    def __init__(self, **kw):
        vars(self).update(kw)


class Obj2(Obj):
    pass


class Slots(object):
    __slots__ = ['x', 'y']

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class SubSlots(Slots):
    __slots__ = ['z']


class OneSlot(object):
    __slots__ = 'x'

    def __init__(self, x):
        self.x = x


class Both(Slots):  # it has also a dictionary
    pass

CLASSES = dict((c.__name__, c) for c in (Obj, Obj2, Slots, SubSlots, OneSlot,
                                         Both))
ATOMS = [('n', 0), ('n', 1), ('n', 1.0), ('n', 1.5), ('n', -1), ('n', NAN),
         ('n', INF), ('n', -INF), ('n', 1j), ('n', 2 ** 70), ('n', True),
         ('s', ''), ('s', 'a'), ('s', 'ab'), ('s', u'a'), ('s', u'ab'),
         ('s', '1'), ('none', None)]


def nest(values):
    """Containers of one or two values"""
    values = list(values)
    for v in values:
        for kind in ('list', 'tuple', 'gen'):
            yield (kind, (v,))
        for name in ('x', 'k'):
            yield ('dict', ((name, v),))
        for cls in ('Obj', 'Obj2', 'Slots', 'OneSlot', 'SubSlots', 'Both'):
            yield ('obj', cls, (('x', v),))
        yield ('obj', 'SubSlots', (('x', v), ('z', v)))
        yield ('obj', 'Both', (('x', v), ('w', v)))
        yield ('dict', (('x', v), ('y', v)))
    for v, w in zip(values, values[1:]) + zip(values[1:], values):
        for kind in ('list', 'tuple', 'gen'):
            yield (kind, (v, w))
        yield ('dict', (('x', v), ('y', w)))
        yield ('obj', 'Obj', (('x', v), ('y', w)))
        yield ('obj', 'Slots', (('x', v), ('y', w)))
        yield ('obj', 'SubSlots', (('x', v), ('z', w)))


def empty():
    for kind in ('list', 'tuple', 'gen', 'dict'):
        yield (kind, ())
    for cls in ('Obj', 'Obj2', 'Slots', 'SubSlots', 'Both'):
        yield ('obj', cls, ())


def build(v):
    kind = v[0]
    if kind in ('n', 's', 'none'):
        return v[1]
    elif kind in ('list', 'tuple'):
        return (list if kind == 'list' else tuple)([build(x) for x in v[1]])
    elif kind == 'gen':
        return (x for x in [build(y) for y in v[1]])
    elif kind == 'dict':
        return dict((k, build(x)) for k, x in v[1])
    return CLASSES[v[1]](**dict((k, build(x)) for k, x in v[2]))


def number_eq(a, b, decimal):
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return (number_eq(a.real, b.real, decimal) and
                number_eq(a.imag, b.imag, decimal))
    if a != a or b != b:
        return a != a and b != b
    if a in (INF, -INF) or b in (INF, -INF):
        return a == b
    return abs(a - b) < 0.5 * 10 ** -decimal


def reference(a, b, decimal=7, exclude=()):
    """None if it is not specified"""
    seqs = ('list', 'tuple', 'gen')
    if a[0] in seqs and b[0] in seqs:
        if len(a[1]) != len(b[1]):
            return False
        return both(reference(x, y, decimal, exclude)
                    for x, y in zip(a[1], b[1]))
    elif a[0] != b[0]:
        return False
    elif a[0] == 'n':
        return number_eq(a[1], b[1], decimal)
    elif a[0] in ('s', 'none'):
        return a[1] == b[1]
    if a[0] == 'obj' and a[1] != b[1]:
        return False
    da = dict((k, x) for k, x in a[-1] if k not in exclude)
    db = dict((k, x) for k, x in b[-1] if k not in exclude)
    if set(da) != set(db):
        return False
    return both(reference(da[k], db[k], decimal, exclude) for k in da)


def both(values):
    return all(values)


def verify(a, b, decimal, exclude, T):
    want = reference(a, b, decimal, exclude)
    try:
        if exclude:
            got = deep_eq(build(a), build(b), decimal, list(exclude))
        elif decimal != 7:
            got = deep_eq(build(a), build(b), decimal)
        else:
            got = deep_eq(build(a), build(b))
    except RuntimeError as e:
        check(False, 'recursion', 'comparing %s and %s: %s', a, b, e)
    except Exception as e:
        check(False, 'error-' + e.__class__.__name__,
              'comparing %s and %s (%s, %s): %s %s', a, b, decimal, exclude,
              e.__class__.__name__, e)
    check(isinstance(got, tuple) and len(got) == 2 and got[0] is want,
          'wrong', 'comparing %s and %s (%s, %s): got %s, expected %s', a, b,
          decimal, exclude, got, want)
    check((got[1] == '') is want and isinstance(got[1], basestring),
          'message', 'comparing %s and %s: %s', a, b, got)
    T.step()
    T.state(a, b, decimal, exclude)
    T.outcome('equal' if want else 'different')


def universe(tier):
    some = ATOMS[1:4] + ATOMS[11:15] + ATOMS[-1:]
    if tier == 'quick':
        some = [ATOMS[1], ATOMS[12], ATOMS[14]]
    one = list(nest(some)) + list(empty())
    two = list(nest(one[::4 if tier == 'quick' else 2]))
    return ATOMS + one + two[::7 if tier == 'quick' else 3]


UNIVERSE = {}


def cases(tier):
    n = len(universe(tier))
    for i in range(n):
        yield ['pairs', tier, i]
    for decimal in range(10):
        yield ['precision', tier, decimal]
    for i in range(12):
        yield ['exclude', tier, i]


def run(case, T):
    kind, tier, i = case
    if tier not in UNIVERSE:
        UNIVERSE[tier] = universe(tier)
    if kind == 'pairs':
        a = UNIVERSE[tier][i]
        for b in UNIVERSE[tier]:
            verify(a, b, 7, (), T)
    elif kind == 'precision':
        for base in (0, 1, -3, 1000, 0.25):
            for k in (0, 0.1, 0.4, 2, 10, 1000):
                for sign in (1, -1):
                    b = base + sign * k * 10.0 ** -i
                    for wrap in (lambda v: v, lambda v: ('list', (v,)),
                                 lambda v: ('dict', (('x', v),)),
                                 lambda v: ('obj', 'Slots', (('y', (
                                     'obj', 'Obj', (('x', v),))),))):
                        x, y = wrap(('n', base)), wrap(('n', b))
                        verify(x, y, i, (), T)
                        verify(y, x, i, (), T)
    else:
        one, two = ('n', 1), ('n', 2)
        inner = [
            ('dict', (('x', one), ('y', one))),
            ('dict', (('x', one), ('y', two))),
            ('dict', (('x', one),)),
            ('dict', (('x', two), ('z', one))),
            ('obj', 'Obj', (('x', one), ('y', one))),
            ('obj', 'Obj', (('x', two), ('y', one))),
            ('obj', 'Obj', (('y', one),)),
            ('obj', 'SubSlots', (('x', one), ('z', one))),
            ('obj', 'SubSlots', (('x', two), ('z', one))),
            ('obj', 'SubSlots', (('x', one), ('z', two))),
            ('obj', 'Slots', (('x', one),)), one]
        wraps = [lambda v: v, lambda v: ('list', (v, v)),
                 lambda v: ('dict', (('w', v), ('y', one))),
                 lambda v: ('obj', 'Obj', (('w', ('list', (v,))),)),
                 lambda v: ('obj', 'Slots', (('y', v),)),
                 lambda v: ('gen', (('dict', (('x', v),)),))]
        for b in inner:
            for n in range(4):
                for exclude in itertools.combinations('xyz', n):
                    for wrap in wraps:
                        verify(wrap(inner[i]), wrap(b), 7, exclude, T)
    T.trace()
