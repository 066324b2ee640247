"""
Progress: all the numbers of tasks from 0 to 300 (thorough: 2000), calling
the generator directly and aggregating simulated tasks (up to 120), with 6
names; all the sets of failing tasks out of up to 4, under all the completion
orders, serial or distributed. The message at each completed task is compared
with the exact percentage (at an exact integer the previous one is accepted
too, because of the floating point division). Memory: all the used and
limit percentages from 0 to 100 with step 0.5, and all the sets of phases
(submission or aggregation of each of up to 4 tasks) with too much memory.
"""
import os
import re
import itertools
import logging
from mclib import check, fail, explore
from concurrent.futures import scheduler
import psutil
from openquake.commonlib import parallel

QUICK_SHARDS = 2
NAMES = ['task', 'a b', '100%', '%s', '', 'x\xc3\xa0']


def cases(tier):
    top = 300 if tier == 'quick' else 2000
    for n in range(top + 1):
        yield ['gen', n]
    for n in range(0, 121):
        yield ['manager', n, NAMES[n % len(NAMES)]]
    for n in range(1, 5):
        for mask in itertools.product([0, 1], repeat=n):
            yield ['failing', list(mask)]
    for limit in range(0, 201, 1 if tier != 'quick' else 4):
        yield ['mem', limit / 2.]
    for n in range(0, 4 if tier == 'quick' else 5):
        for mask in itertools.product([0, 1], repeat=2 * n):
            yield ['phases', n, list(mask)]


class Progress(object):
    """Check the messages of a job of `todo` tasks"""
    def __init__(self, name, todo):
        self.name, self.todo = name, todo
        self.done = -1
        self.prev = 0
        self.now = []  # messages received since the last completed task

    def __call__(self, msg, *args):
        self.now.append(msg % args if args else msg)

    def advance(self):
        """Another task was completed"""
        self.done += 1
        msgs, self.now = self.now, []
        todo, done = self.todo, self.done
        if done == 0:
            check(len(msgs) == 1 and str(todo) in re.findall(
                r'\d+', msgs[0].replace(self.name, '')) and
                self.name in msgs[0], 'spawned',
                'the first messages are %s for %d tasks', msgs, todo)
            return
        percents = []
        for msg in msgs:
            check(msg.startswith(self.name) and msg.endswith('%'), 'format',
                  'got the message %r for %r', msg, self.name)
            num = msg[len(self.name):-1].strip()
            check(num.isdigit(), 'format', 'got the message %r', msg)
            percents.append(int(num))
        if done == todo:
            check(percents == [100], 'last', 'the last messages are %s for '
                  '%d tasks', msgs, todo)
            return
        allowed = [100 * done // todo]
        if 100 * done % todo == 0:
            allowed.append(allowed[0] - 1)
        check(len(percents) <= 1, 'many', 'got %s at %d/%d', msgs, done, todo)
        if percents:
            check(percents[0] in allowed and percents[0] > self.prev,
                  'percent', 'got %s at %d/%d after %d%%', msgs, done, todo,
                  self.prev)
            self.prev = percents[0]
        else:
            check(min(allowed) <= self.prev, 'missing',
                  'no message at %d/%d after %d%%', done, todo, self.prev)


def run_gen(T, n):
    for name in NAMES[:2] if n > 20 else NAMES:
        prog = Progress(name, n)
        gen = parallel.log_percent_gen(name, n, prog)
        for done in range(n + 1):
            got = gen.next()
            check(got == done, 'yield', 'yielded %r after %d tasks', got,
                  done)
            prog.advance()
            T.step()
        T.state(n, name, prog.prev)
    T.trace()
    T.outcome('gen')


def run_manager(T, n, name):
    for disabled in (0, 1):
        setenv(disabled)
        for form in ('manager', 'default', 'wait', 'map_reduce'):
            scheduler.reset()
            prog = Progress('ident' if form == 'default' else name, n)

            def agg(acc, val):
                prog.advance()
                T.step()
                return acc + val
            if form == 'map_reduce' and name:
                orig, logging.info = logging.info, prog
                try:
                    parallel.map_reduce(ident, [(1,)] * n, agg, 0, name)
                finally:
                    logging.info = orig
            else:
                tm = (parallel.TaskManager(ident, prog) if form == 'default'
                      else parallel.TaskManager(ident, prog, name or 'x'))
                prog.name = tm.name
                for _ in range(n):
                    tm.submit(1)
                if form == 'wait':
                    tm.wait()
                    # the messages of all the tasks at once
                    last = prog.now[-1].strip() if prog.now else ''
                    check(n == 0 or last.endswith('100%'), 'wait-last',
                          'the messages are %s', prog.now)
                    continue
                tm.aggregate_results(agg, 0)
            # all the messages are attributed to the completed tasks
            prog.advance()
            check(prog.done == n, 'count', '%d results out of %d', prog.done,
                  n)
    setenv(0)
    T.state('manager', n)
    T.trace()
    T.outcome('manager')


def run_failing(T, mask):
    def once(ch):
        scheduler.reset(ch.choose)
        msgs = []
        tm = parallel.TaskManager(
            failing, lambda msg, *args: msgs.append(msg % args))
        for m in mask:
            tm.submit(m)
        try:
            tm.aggregate_results(lambda acc, res: acc, 0)
        except RuntimeError:
            check(sum(mask), 'failing', 'unexpected failure')
        else:
            check(not sum(mask), 'hidden', 'no failure with %s', mask)
        ended = [m for m in msgs if '100%' in m]
        check(len(ended) == (0 if sum(mask) else 1), 'ended',
              'with the failures %s the messages are %s', mask, msgs)
        T.state(tuple(mask), tuple(scheduler.completed))
        T.step(len(mask))
    for disabled in (0, 1):
        setenv(disabled)
        for ch in explore(once):
            T.trace()
    setenv(0)
    T.outcome('failing')


def setenv(disabled):
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    if disabled:
        os.environ['OQ_NO_DISTRIBUTE'] = '1'


def ident(x):
    return x


def failing(x):
    if x:
        raise ValueError(x)


class Warnings(object):
    """The warnings logged inside the block"""
    def __enter__(self):
        self.msgs = []
        root = logging.getLogger()
        self.level = root.level
        root.setLevel(logging.DEBUG)
        self.handlers, root.handlers = root.handlers, [self]
        return self.msgs

    def __exit__(self, *exc):
        root = logging.getLogger()
        root.handlers = self.handlers
        root.setLevel(self.level)

    level = 0

    def handle(self, record):
        if record.levelno >= logging.WARN:
            self.msgs.append(record.getMessage())


def run_mem(T, limit):
    try:
        for used in range(0, 201):
            psutil.env.percent = used / 2.
            for kw in ({'mem_percent': limit}, {}):
                top = kw.get('mem_percent', 80)
                with Warnings() as msgs:
                    parallel.check_mem_usage(**kw)
                check(len(msgs) == int(used / 2. > top), 'memory',
                      'with %s%% of the memory and limit %s: %s', used / 2.,
                      top, msgs)
                check(not msgs or '%d%%' % int(used / 2.) in msgs[0],
                      'memory-text', 'with %s%%: %s', used / 2., msgs)
            T.step()
            T.state(limit, used)
    finally:
        psutil.env.reset()
    T.trace()
    T.outcome('mem')


def run_phases(T, n, mask):
    """Too much memory while submitting or aggregating some tasks"""
    phase = [-1]
    psutil.env.percent = lambda: (
        90. if phase[0] < len(mask) and mask[phase[0]] else 80.)
    try:
        for disabled in (0, 1):
            setenv(disabled)
            scheduler.reset()
            phase[0] = -1
            counts = []

            def advance():
                counts.append(len(msgs))
                phase[0] += 1

            def task(x):
                if not disabled:
                    advance()
            with Warnings() as msgs:
                tm = parallel.TaskManager(task, lambda *a: None)
                for i in range(n):
                    advance()
                    tm.submit(i)
                tm.aggregate_results(lambda acc, val: acc, 0)
                advance()
            check(len(counts) == (n if disabled else 2 * n) + 1, 'executed',
                  'executed %d tasks', len(counts) - n - 1)
            for i, m in enumerate(mask[:len(counts) - 1]):
                num = counts[i + 1] - counts[i]
                check((num > 0) == bool(m), 'phases', '%d warnings in the '
                      'phase %d of %s', num, i, mask)
                T.step()
    finally:
        psutil.env.reset()
        setenv(0)
    T.state('phases', tuple(mask))
    T.trace()
    T.outcome('phases')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
