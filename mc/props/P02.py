# coding: utf-8
"""
All the sets of failing tasks out of up to 4 (thorough: 5), with 6 kinds of
exceptions, under all the completion orders, with the distribution enabled or
not, for map_reduce, aggregate_results and wait; failures of the aggregation
function at each result. safely_call: 26 kinds of exceptions (builtin, custom,
old style, exits, interrupts, with ASCII, non-ASCII, binary, multi-line, empty
or unprintable messages) raised at depth 0 to 3 and all the values of the
result, with and without pickling.
"""
import os
import itertools
from mclib import check, fail, explore
from concurrent.futures import scheduler
from openquake.commonlib import parallel
import logging
logging.disable(logging.CRITICAL)

QUICK_SHARDS = 3


class Custom(Exception):
    pass


class Odd(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __str__(self):
        return 'a=%s b=%s' % (self.a, self.b)


class Unprintable(Exception):
    def __str__(self):
        raise ValueError('unprintable')


class Falsy(Exception):
    def __len__(self):
        return 0

    def __nonzero__(self):
        return False


class Old:
    def __str__(self):
        return 'an old style exception'


class Base(BaseException):
    pass

# name -> (factory, class, text to be found in the message)
ERRORS = dict(
    value=(lambda: ValueError('the value is 42'), ValueError,
           'ValueError: the value is 42'),
    key=(lambda: KeyError('the key'), KeyError, "KeyError: 'the key'"),
    empty=(lambda: RuntimeError(), RuntimeError, 'RuntimeError'),
    assertion=(lambda: AssertionError(''), AssertionError, 'AssertionError'),
    custom=(lambda: Custom('custom'), Custom, 'Custom: custom'),
    odd=(lambda: Odd(1, 'x'), Odd, 'Odd: a=1 b=x'),
    args=(lambda: ValueError('a', 2), ValueError, "('a', 2)"),
    percent=(lambda: ValueError('100%s %d %'), ValueError, '100%s %d %'),
    lines=(lambda: ValueError('one\ntwo'), ValueError, 'one\ntwo'),
    accented=(lambda: ValueError('citt\xc3\xa0'), ValueError, 'ValueError'),
    unicode=(lambda: ValueError(u'citt\xe0 \u2603'), ValueError,
             'ValueError'),
    ascii=(lambda: ValueError(u'plain unicode'), ValueError,
           'plain unicode'),
    binary=(lambda: ValueError('\x00\xff\xfe'), ValueError, 'ValueError'),
    unprintable=(lambda: Unprintable(), Unprintable, 'Unprintable'),
    falsy=(lambda: Falsy('falsy'), Falsy, 'Falsy'),
    old=(lambda: Old(), Old, 'an old style exception'),
    base=(lambda: Base('base'), Base, 'Base: base'),
    exit=(lambda: SystemExit(2), SystemExit, 'SystemExit: 2'),
    exit0=(lambda: SystemExit(), SystemExit, 'SystemExit'),
    interrupt=(lambda: KeyboardInterrupt(), KeyboardInterrupt,
               'KeyboardInterrupt'),
    generator=(lambda: GeneratorExit(), GeneratorExit, 'GeneratorExit'),
    stop=(lambda: StopIteration(), StopIteration, 'StopIteration'),
    ioerror=(lambda: IOError(2, 'No such file', 'x.xml'), IOError,
             'No such file'),
    decode=(lambda: UnicodeDecodeError('ascii', 'x', 0, 1, 'bad'),
            UnicodeDecodeError, 'UnicodeDecodeError'),
    long=(lambda: ValueError('x' * 5000), ValueError, 'x' * 5000),
    empty_text=(lambda: ValueError(''), ValueError, 'ValueError'))
KINDS = ['value', 'custom', 'stop', 'empty', 'exit', 'unicode']
RESULTS = [None, 0, '', 'x', [], (1, 2), {'a': [1]}, ValueError,
           ValueError('returned'), (None, ValueError), ('x', None), 1.5,
           u'citt\xe0', RuntimeError]


def deep(depth, factory):
    if depth == 0:
        raise factory()
    return deep(depth - 1, factory)


def task(kind, i):
    if kind:
        deep(i % 3, ERRORS[kind][0])
    return i


def cases(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for mask in itertools.product([0, 1], repeat=n):
            for kind in KINDS:
                for form in ('map_reduce', 'manager', 'wait'):
                    yield ['tasks', list(mask), kind, form]
        for bad in range(n):
            yield ['agg', n, bad]
    for name in sorted(ERRORS):
        for depth in range(4):
            yield ['raise', name, depth]
    for i in range(len(RESULTS)):
        yield ['return', i]


def run_tasks(T, mask, kind, form):
    n = len(mask)
    bad = sum(mask)

    def once(ch):
        scheduler.reset(ch.choose)
        seen = []

        def agg(acc, val):
            seen.append(val)
            return acc + [val]
        try:
            arglist = [(kind if m else None, i) for i, m in enumerate(mask)]
            if form == 'map_reduce':
                got = parallel.map_reduce(task, arglist, agg, [])
            else:
                tm = parallel.TaskManager(task, lambda *a: None)
                for args in arglist:
                    tm.submit(*args)
                got = (tm.aggregate_results(agg, []) if form == 'manager'
                       else tm.wait())
        except RuntimeError as e:
            check(bad, 'false-failure', 'no task failed, but got %r', e)
            msg = e.args[0]
            check(ERRORS[kind][2] in msg, 'message', 'the message is %r '
                  'with exception %s', msg, kind)
            check('in deep' in msg and 'in task' in msg, 'traceback',
                  'there is no traceback in %r', msg)
        else:
            check(not bad, 'hidden', 'tasks %s failed, but got %r completing '
                  'in order %s', mask, got, scheduler.completed)
            check(got == n if form == 'wait' else sorted(got) == range(n),
                  'results', 'got %s', got)
        # no failure is given to the aggregation as a result
        check(all(v in range(n) and not mask[v] for v in seen), 'aggregated',
              'aggregated %s', seen)
        T.state(tuple(mask), tuple(scheduler.completed))
        T.step(n)
    for disabled in (0, 1):
        os.environ.pop('OQ_NO_DISTRIBUTE', None)
        if disabled:
            os.environ['OQ_NO_DISTRIBUTE'] = '1'
        for ch in explore(once):
            T.trace()
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    T.outcome('%d failed' % bad)


def run_agg(T, n, bad):
    def once(ch):
        scheduler.reset(ch.choose)

        def agg(acc, val):
            if val == bad:
                raise Custom('in the aggregation')
            return acc
        try:
            parallel.map_reduce(task, [(None, i) for i in range(n)], agg, 0)
        except Custom:
            pass
        else:
            fail('agg-hidden', 'the aggregation failed on %d, no error', bad)
        T.step(n)
        T.state('agg', n, tuple(scheduler.completed))
    for ch in explore(once):
        T.trace()
    T.outcome('aggregation failed')


def run_raise(T, name, depth):
    factory, cls, text = ERRORS[name]
    for pickle in (False, True):
        args = [depth, factory]
        if pickle:
            args = [parallel.Pickled(depth), Unpicklable(factory)]
        try:
            res = parallel.safely_call(deep, args, pickle)
        except BaseException as e:
            fail('raised', 'safely_call raised %r for %s', e, name)
        except Old as e:
            fail('raised', 'safely_call raised %r for %s', e, name)
        if pickle:
            check(isinstance(res, parallel.Pickled), 'not-pickled',
                  'got %r', res)
            res = res.unpickle()
        check(isinstance(res, tuple) and len(res) == 2, 'pair', 'got %r', res)
        msg, exc = res
        check(exc is cls, 'class', 'got %s instead of %s', exc, cls)
        check(isinstance(msg, basestring) and text in msg, 'text',
              'the message is %r, expected to contain %r', msg, text)
        check(msg.count('in deep') == depth + 1, 'frames',
              'the traceback is %r with %d calls', msg, depth + 1)
        T.step()
        T.state(name, depth, pickle)
    T.trace()
    T.outcome('raise')


class Unpicklable(parallel.Pickled):
    """It is sent by reference"""
    def __init__(self, obj):
        self.obj = obj

    def unpickle(self):
        return self.obj


def ident(*args):
    return args[0] if len(args) == 1 else args


def run_return(T, i):
    val = RESULTS[i]
    for extra in ((), (1,), (1, 2)):
        args = (val,) + extra
        want = ident(*args)
        res = parallel.safely_call(ident, args)
        check(isinstance(res, tuple) and len(res) == 2 and res[1] is None and
              (extra or res[0] is val), 'result', 'got %r for %r', res, want)
        if extra:
            check(res[0] == want, 'result', 'got %r for %r', res, want)
        pik = parallel.safely_call(
            ident, parallel.pickle_sequence(args), pickle=True)
        check(isinstance(pik, parallel.Pickled), 'not-pickled', 'got %r', pik)
        res = pik.unpickle()
        check(len(res) == 2 and res[1] is None and
              repr(res[0]) == repr(want), 'pickled-result',
              'got %r for %r', res, want)
        T.step(2)
        T.state('return', i, extra)
    T.trace()
    T.outcome('return')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
