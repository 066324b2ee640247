"""
All the completion orders of up to 4 tasks (thorough: 5) with the schedulers
which complete tasks only while waiting and also between the submissions
(up to 3, thorough: 4), passing arguments by reference and by value, for
map_reduce and for a TaskManager, with a sum, a list of the results, results
which are false or similar to failures; arguments which are false or
None;
the distribution disabled with all the listed values of OQ_NO_DISTRIBUTE. All
the sequences of up to 5 operations (thorough: 6) on two managers for
different functions: submit, aggregate, wait, under all the completion orders.
Each execution is compared with the serial one.
"""
import os
import itertools
import operator
from mclib import check, seqs, explore
from concurrent.futures import scheduler
from openquake.commonlib import parallel
import logging
logging.disable(logging.CRITICAL)

QUICK_SHARDS = 3
VALUES = [None, '', '0', 'false', 'no', 'FALSE', 'off', '1', 'true', 'yes',
          'True', 'TRUE', 'YES', 'Yes', 'n', 'False', 'No']
# other values: pieces of the ones above, or with something added
WORDS = ['1', 'true', 'yes', '0', 'false', 'no']
NEAR = sorted(set(
    [w[i:j] for w in WORDS for i in range(len(w)) for j in range(i + 1, 9)] +
    [w + c for w in WORDS for c in '1 ,syte'] +
    [c + w for w in WORDS for c in '1 ,syte']))
DISABLED = set(['1', 'true', 'yes'])
ARGS = [(), (1,), (2, 3), (2, 3), (13,), (17, 19)]
ODD = [(None,), (None, 0, ''), ([], None, {}), (False,), ((), ((),))]
CALLS = []


def sum_all(*numbers):
    CALLS.append(('sum_all', numbers))
    return 1000 + sum(numbers) + 100000 * len(numbers)


def as_list(*numbers):
    CALLS.append(('as_list', numbers))
    return list(numbers)


def falsy(*numbers):
    CALLS.append(('falsy', numbers))
    return [False, None, 0, '', []][len(CALLS) % 5]


def special(*numbers):
    CALLS.append(('special', numbers))
    return [('a', KeyError), KeyError('x'), ('y', None), ValueError,
            (None, None)][len(CALLS) % 5]

FUNCS = dict(sum_all=sum_all, as_list=as_list, falsy=falsy, special=special)
UNORDERED = ('falsy', 'special')


def cases(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(top + 1):
        for eager in (0, 1):
            if eager and n == top:
                continue
            for by_value in (0, 1):
                for form in ('map_reduce', 'manager', 'wait'):
                    for func in sorted(FUNCS):
                        yield ['one', n, eager, by_value, form, func]
    for value in VALUES:
        for n in range(top + 1):
            for form in ('map_reduce', 'manager', 'wait'):
                yield ['env', value, n, form]
        yield ['odd', value]
    for value in NEAR:
        yield ['env', value, 1, 'manager']
    ops = ['s0', 's1', 'a0', 'a1', 'w0']
    for seq in seqs(ops, top + 1, 1):
        if not seq[-1].startswith('s') and seq[0].startswith('s'):
            yield ['two', ' '.join(seq)]


def setenv(value):
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    if value is not None:
        os.environ['OQ_NO_DISTRIBUTE'] = value


def execute(form, func, arglist):
    """The accumulated values, the calls of the aggregation"""
    log = []

    def agg(acc, val):
        check(acc == log, 'accumulator', 'the accumulator is %s, expected '
              '%s', acc, log)
        log.append(val)
        return acc + [val]
    if form == 'map_reduce':
        got = parallel.map_reduce(func, (a for a in arglist), agg, [])
        check(got == log, 'final', 'got %s instead of %s', got, log)
    else:
        tm = parallel.TaskManager(func, lambda *a: None)
        for args in arglist:
            tm.submit(*args)
        if form == 'manager':
            got = tm.aggregate_results(agg, [])
            check(got == log, 'final', 'got %s instead of %s', got, log)
        else:
            got = tm.wait()
            check(got == len(arglist), 'wait', 'wait() returned %r for %d '
                  'tasks', got, len(arglist))
            return None
    return got


def run_one(T, n, eager, by_value, form, funcname):
    setenv(None)
    func = FUNCS[funcname]
    arglist = ARGS[:n]
    del CALLS[:]
    serial = [func(*args) for args in arglist]
    count = [0]

    def once(ch):
        del CALLS[:]
        scheduler.reset(ch.choose, bool(eager), bool(by_value))
        got = execute(form, func, arglist)
        check(scheduler.submitted == n, 'submitted', '%d calls in the pool, '
              'expected %d', scheduler.submitted, n)
        check(sorted(scheduler.completed) == range(n), 'completed',
              'completed %s out of %d', scheduler.completed, n)
        check(sorted(CALLS) == sorted((funcname, a) for a in arglist),
              'calls', 'called %s', CALLS)
        if got is not None and funcname not in UNORDERED:
            check(sorted(got) == sorted(serial), 'results',
                  'got %s instead of %s completing in order %s', got, serial,
                  scheduler.completed)
        elif got is not None:
            check(len(got) == n and
                  sorted(map(repr, got)) == sorted(map(repr, serial)),
                  'results', 'got %s instead of %s', got, serial)
        if funcname == 'sum_all' and form != 'wait':
            ch2 = ch.taken

            def again(n, pos=[0]):
                pos[0] += 1
                return ch2[pos[0] - 1]
            scheduler.reset(again, bool(eager), bool(by_value))
            tot = parallel.map_reduce(func, arglist, operator.add, 7)
            check(tot == sum(serial) + 7, 'sum', 'got %s', tot)
        T.state(n, tuple(scheduler.completed))
        T.step(n)
        count[0] += 1

    for ch in explore(once):
        T.trace()
    T.outcome('%s %s: %d schedules' % (form, 'eager' if eager else 'lazy',
                                       count[0]))


def run_env(T, value, n, form):
    setenv(value)
    arglist = ARGS[:n]
    disabled = value is not None and value.lower() in DISABLED
    check(parallel.no_distribute() is disabled, 'no_distribute',
          'OQ_NO_DISTRIBUTE=%r gives %r', value, parallel.no_distribute())

    def once(ch):
        del CALLS[:]
        scheduler.reset(ch.choose)
        got = execute(form, as_list, arglist)
        want = map(list, arglist)
        if disabled:
            check(scheduler.submitted == 0, 'in-process', '%d calls in the '
                  'pool with OQ_NO_DISTRIBUTE=%s', scheduler.submitted, value)
            check(got is None or got == want, 'order', 'got %s instead of %s',
                  got, want)
            check([a for (_, a) in CALLS] == arglist, 'calls', 'called %s',
                  CALLS)
        else:
            check(scheduler.submitted == n, 'in-pool', '%d calls in the '
                  'pool with OQ_NO_DISTRIBUTE=%s', scheduler.submitted, value)
            check(got is None or sorted(got) == sorted(want), 'results',
                  'got %s instead of %s', got, want)
        T.state(value, n, form)
        T.step(n)
    for ch in explore(once):
        T.trace()
    setenv(None)
    T.outcome('disabled' if disabled else 'enabled')


def run_odd(T, value):
    """Arguments which are false or None, alone and in pairs of tasks"""
    setenv(value)
    for n in (1, 2):
        for arglist in itertools.product(ODD, repeat=n):
            for form in ('map_reduce', 'manager', 'wait'):
                for ch in explore(lambda ch: odd(arglist, form, ch)):
                    T.trace()
            T.step(n)
            T.state('odd', value, arglist)
    setenv(None)
    T.outcome('odd')


def odd(arglist, form, ch):
    del CALLS[:]
    scheduler.reset(ch.choose)
    got = execute(form, as_list, arglist)
    for res in ([c[1] for c in CALLS], got):
        check(res is None or sorted(map(repr, map(tuple, res))) ==
              sorted(map(repr, arglist)), 'arguments', 'got %s with the '
              'arguments %s', res, arglist)


def run_two(T, ops):
    for value in (None, '1'):
        setenv(value)
        for ch in explore(lambda ch: two(T, ops.split(), ch)):
            T.trace()
    setenv(None)
    T.outcome('two')


def two(T, ops, ch):
    del CALLS[:]
    scheduler.reset(ch.choose)
    funcs = [sum_all, as_list]
    tms = [parallel.TaskManager(f, lambda *a: None) for f in funcs]
    model = [[], []]  # pending arguments
    done = []
    for i, op in enumerate(ops):
        k = int(op[1])
        if op[0] == 's':
            tms[k].submit(i, k)
            model[k].append((i, k))
        else:
            args = model[k]
            model[k] = []
            done.extend(args)
            if op[0] == 'a':
                got = tms[k].aggregate_results(
                    lambda acc, val: acc + [val], [])
                want = [[1000 + sum(a) + 100000 * len(a) for a in args],
                        map(list, args)][k]
                check(sorted(got) == want, 'two-results',
                      'got %s instead of %s', got, want)
            else:
                got = tms[k].wait()
                check(got == len(args), 'two-wait', 'got %s', got)
        T.step()
        T.state(tuple(ops[:i + 1]))
    # each function is called at most once per submission
    check(len(set(CALLS)) == len(CALLS), 'two-calls', 'called %s', CALLS)
    called = set(a for (_, a) in CALLS)
    check(called.issuperset(done), 'two-lost', 'called %s instead of %s',
          called, done)
    for name, (_, k) in CALLS:
        check(name == ['sum_all', 'as_list'][k], 'two-kind',
              'called %s with the arguments of the other', name)


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
