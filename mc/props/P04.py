"""
All the sequences of up to 3 arguments (thorough: 4) over 24 values which
include equal objects of different types, mutable and unhashable ones, an
object repeated, and pickled ones; all the sequences of up to 4 arguments
(thorough: 5) which are created while they are sent and destroyed afterwards,
persistent, or already pickled, under an adversary environment which assigns
to a new object the identity of a dead one as soon as possible (the builtin
`id` is replaced and the dead objects are found with the garbage collector).
Objects with pickles of up to 12000 bytes (thorough: 40000) for the
sizes and representations.
"""
from mclib import check, seqs, same
from java.lang import System
from java.lang.ref import WeakReference
from openquake.commonlib import parallel

QUICK_SHARDS = 4
Pickled = parallel.Pickled


class Obj(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Obj) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Obj(%r)' % (self.n,)


class Old:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return self.n == other.n

    def __repr__(self):
        return 'Old(%r)' % (self.n,)

A, B = [1], [1]
VALUES = [1, 1.0, True, '1', u'1', None, (), A, B, {'a': [1, (2,)]},
          Obj(1), Obj(1), Obj(1.0), Old('x'), (1,), (1.0,), (True, u'1'),
          (True, '1'), frozenset([1]), frozenset([True]), 0.0, -0.0, Pickled([1]), Pickled(Obj(2)),
          'x\x00\xff\n' * 50]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    yield ['values', []]
    for i in range(len(VALUES)):
        for j in range(len(VALUES)):
            yield ['values', [i, j], n - 2]
    # t: temporary objects; p: a persistent one; k: a pickled one; l: a
    # temporary list
    for seq in seqs('tpkl', n + 1, 1):
        yield ['lifetimes', ''.join(seq)]
    for seq in seqs('tp', n + 4, n + 2):
        yield ['lifetimes', ''.join(seq)]
    top = 12000 if tier == 'quick' else 40000
    for start in range(0, top, 1000):
        yield ['sizes', start]


def same_value(a, b):
    return type(a) is type(b) and same(a, b) and repr(a) == repr(b)


def check_sequence(objs, out, T):
    """The pickled objects must correspond to the given ones"""
    check(isinstance(out, list) and len(out) == len(objs), 'length',
          'got %s for %s', out, objs)
    for obj, pik in zip(objs, out):
        check(isinstance(pik, Pickled), 'type', 'got %r for %r', pik, obj)
        if isinstance(obj, Pickled):
            check(pik is obj, 'again', '%r has been replaced with %r', obj,
                  pik)
            continue
        check(len(pik) == len(pik.pik), 'len', 'got the length %s for a '
              'pickle of %s bytes', len(pik), len(pik.pik))
        for _ in range(2):
            val = pik.unpickle()
            check(same_value(val, obj), 'value', 'got %r for %r', val, obj)
            if isinstance(val, list):  # a copy must be private
                check(val is not obj, 'copy', 'not a copy')
                val.append(1)
        T.step()
    for i, a in enumerate(objs):
        for j in range(i):
            if a is objs[j]:
                check(out[i] is out[j], 'once',
                      'the object %r has been pickled twice', a)
    for pik in out:
        check(sum(len(p) for p in out) == sum(len(p.pik) for p in out),
              'total', 'wrong sizes')


def run_values(T, idxs, more=0):
    for extra in seqs(range(len(VALUES)), more):
        objs = [VALUES[i] for i in idxs + extra]
        for form in (objs, tuple(objs), iter(objs)):
            out = parallel.pickle_sequence(form)
            check_sequence(objs, out, T)
            args = [o.unpickle() if isinstance(o, Pickled) else o
                    for o in objs]
            got, exc = parallel.safely_call(
                received, out, pickle=True).unpickle()
            check(exc is None and len(got) == len(args) and
                  all(same_value(a, b) for a, b in zip(got, args)),
                  'received', 'the function received %s instead of %s', got,
                  args)
        T.state(idxs, extra)
    T.trace()
    T.outcome('values')


def received(*args):
    return list(args)


class Identity(object):
    """
    A model of the identities of CPython: the identity of a dead object is
    given to the next new object
    """
    def __init__(self):
        self.refs = []  # (weak reference, identity)
        self.reused = 0

    def __call__(self, obj):
        for ref, num in self.refs:
            if ref.get() is obj:
                return num
        used = set()
        if self.refs:
            System.gc()
            for ref, num in self.refs:
                if ref.get() is not None:
                    used.add(num)
        num = 1
        while num in used:
            num += 1
        if any(n == num for _, n in self.refs):
            self.reused += 1
        self.refs = [(r, n) for r, n in self.refs if n != num]
        self.refs.append((WeakReference(obj), num))
        return num


def run_lifetimes(T, kinds):
    persistent = Obj('persistent')
    pik = Pickled(Obj('pickled'))

    def gen():
        for i, kind in enumerate(kinds):
            yield make(kind, i)

    def make(kind, i):
        if kind == 'p':
            return persistent
        elif kind == 'k':
            return pik
        elif kind == 'l':
            return [i, 'x']
        return Obj((kind, i))

    parallel.id = ident = Identity()
    try:
        out = parallel.pickle_sequence(gen())
    finally:
        del parallel.id
    objs = [make(kind, i) for i, kind in enumerate(kinds)]
    check_sequence(objs, out, T)
    T.state(kinds)
    T.trace()
    T.outcome('%d identities reused' % ident.reused)


def run_sizes(T, start):
    for n in range(start, start + 1000):
        obj = ['x' * n, 'name', Obj(1)][n % 3]
        p = Pickled(obj)
        check(len(p) == len(p.pik), 'size', 'got %s', len(p))
        name = obj.__class__.__name__
        check(repr(p) == '<Pickled %s %dK>' % (name, len(p) // 1024), 'repr',
              'got %r with %d bytes', p, len(p))
        check(same_value(p.unpickle(), obj), 'sizes-value', 'got %r',
              p.unpickle())
        T.step()
    T.state('sizes', start)
    T.trace()
    T.outcome('sizes')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
