"""
All the histories of up to 2 uses (thorough: 3) of a monitor of 1 to 3
processes (also given twice, or as an invalid pid), each answering to every
measure with a different memory or disappearing (access denied or no such
process) at any point, all the lists of up to 3 process identifiers
(thorough: 4), with a monitored block which ends normally or raises
one of 8 kinds of exceptions,
with the default or a custom on_exit; nested monitors. Processes do not
reappear.
"""
import os
import sys
import time
import itertools
from mclib import check, seqs
import psutil
from openquake.commonlib import parallel

QUICK_SHARDS = 3
D = psutil.AccessDenied
N = psutil.NoSuchProcess


class Monitor(parallel.PerformanceMonitor):
    exits = 0

    def on_exit(self):
        self.exits += 1
        self.seen = (self.duration, self.mem, self.exc)


class Boom(Exception):
    pass


class Old:
    """An old style class"""
    def __init__(self, arg):
        self.arg = arg

ERRORS = [Boom, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration,
          Old, psutil.NoSuchProcess, psutil.AccessDenied]


def cases(tier):
    uses = 2 if tier == 'quick' else 3
    for nprocs in (1, 2, 3):
        # first failure of each process: -1 never, else number of the measure
        for u in range(1, uses + 1):
            for when in itertools.product(range(-1, 2 * u), repeat=nprocs):
                for kinds in (seqs('DN', nprocs, nprocs)
                              if tier != 'quick' or nprocs < 3
                              else [['D'] * 3, ['N'] * 3, ['D', 'N', 'D']]):
                    yield ['uses', u, list(when), ''.join(kinds)]
    for pids in seqs([11, 12, 13, 0, None, 5], 3 if tier == 'quick' else 4):
        yield ['pids', pids]
    yield ['pids', None]
    for i in range(4):
        yield ['nested', i]
    for ms in (0, 60, 350, 1200):
        yield ['sleep', ms]
    for exc in (None, 'x', ''):
        yield ['display', exc]


def seconds(dt):
    return time.mktime(dt.timetuple()) + dt.microsecond / 1E6


def answers(pid, nmeasures, when, kind):
    """The memory of each process changes by a different amount"""
    out = []
    for m in range(nmeasures):
        if when >= 0 and m >= when:
            out.append(D if kind == 'D' else N)
            break
        out.append(1000 * pid + (m * (m + 1) // 2 + 1) * 10 ** (pid - 11)
                   * (-1 if m % 3 == 2 else 1))
    return out


def run_uses(T, nuses, when, kinds):
    pids = [11 + i for i in range(len(when))]
    for raising in seqs([0, 1], nuses, nuses):
        psutil.env.reset()
        table = [answers(p, 2 * nuses, w, k)
                 for p, w, k in zip(pids, when, kinds)]
        for p, a in zip(pids, table):
            psutil.env.answers[p] = list(a)
        try:
            mon = Monitor(pids)
            for use, bad in enumerate(raising):
                error = ERRORS[(sum(when) + nuses + use) % len(ERRORS)]
                exc = error(use) if bad else None
                before = time.time()
                executed = []
                try:
                    with mon as m:
                        check(m is mon, 'enter', 'got %r', m)
                        executed.append(1)
                        start = time.time()
                        check(mon.exc is None, 'old-exc', 'the exception of '
                              'the previous block is still there')
                        if bad:
                            raise exc
                        end = time.time()
                except error as e:
                    check(bad and e is exc, 'exc', 'got %r', e)
                    end = time.time()
                else:
                    check(not bad, 'swallowed', 'the exception was hidden')
                after = time.time()
                check(executed, 'not-executed', 'the block was not executed')
                check(mon.exc is exc, 'exc-attribute', 'the attribute exc is '
                      '%r, expected %r', mon.exc, exc)
                want = []
                for values in table:
                    vals = values[2 * use: 2 * use + 2]
                    if len(vals) == 2 and all(isinstance(v, int)
                                              for v in vals):
                        want.append(vals[1] - vals[0])
                check(list(mon.mem) == want, 'mem', 'got the memory %s '
                      'instead of %s with the measures %s', list(mon.mem),
                      want, table)
                check(end - start - 0.02 <= mon.duration <=
                      after - before + 0.02, 'duration', 'got %s, expected '
                      'between %s and %s', mon.duration, end - start,
                      after - before)
                check(before - 0.02 <= seconds(mon.start_time) <=
                      start + 0.02, 'start_time', 'got %s', mon.start_time)
                check(mon.exits == use + 1, 'on_exit', 'on_exit was called '
                      '%d times', mon.exits)
                check(mon.seen == (mon.duration, mon.mem, mon.exc),
                      'on_exit-attributes', 'on_exit saw %s', mon.seen)
                T.step()
                T.state(nuses, use, when, kinds, raising, want)
        finally:
            psutil.env.reset()
        T.trace()
    T.outcome('%d of %d processes disappear' % (
        sum(w >= 0 for w in when), len(when)))


def run_pids(T, pids):
    for pid in (5, 11, 12, 13, os.getpid()):
        psutil.env.answers[pid] = [100 * pid, 100 * pid + pid]
    try:
        mon = Monitor(pids and tuple(pids) if pids != [5] else pids)
        with mon:
            pass
        if pids and not any(pids):
            want = []
        elif not pids:
            want = [os.getpid()]
        else:
            want = [p for p in pids if p]
        if len(want) == len(set(want)):
            check(list(mon.mem) == want, 'pids', 'got %s instead of %s with '
                  'pids=%s', mon.mem, want, pids)
        else:
            check(len(mon.mem) == len(want), 'pids-length', 'got %s with '
                  'pids=%s', mon.mem, pids)
        if not pids:
            psutil.env.answers[os.getpid()] = [1, 8]
            with Monitor() as mon:
                pass
            check(list(mon.mem) == [7], 'default', 'got %s', mon.mem)
    finally:
        psutil.env.reset()
    T.step()
    T.state('pids', pids)
    T.trace()
    T.outcome('pids')


def run_nested(T, bad):
    """Two monitors of the same process, one inside the other"""
    psutil.env.answers[11] = [10, 100, 1000, 10000]
    try:
        outer, inner = Monitor([11]), Monitor([11])
        try:
            with outer:
                if bad & 1:
                    try:
                        with inner:
                            raise Boom(1)
                    except Boom:
                        pass
                else:
                    with inner:
                        pass
                if bad & 2:
                    raise Boom(2)
        except Boom:
            pass
        check(list(inner.mem) == [900] and list(outer.mem) == [9990],
              'nested', 'got %s, %s', inner.mem, outer.mem)
        check(bool(inner.exc) == bool(bad & 1) and
              bool(outer.exc) == bool(bad & 2), 'nested-exc', 'got %s, %s',
              inner.exc, outer.exc)
        check(outer.duration >= inner.duration, 'nested-duration',
              'got %s, %s', inner.duration, outer.duration)
    finally:
        psutil.env.reset()
    T.step()
    T.state('nested', bad)
    T.trace()
    T.outcome('nested')


def run_sleep(T, ms):
    """The duration is in seconds, with the decimals"""
    before = time.time()
    with Monitor() as mon:
        start = time.time()
        time.sleep(ms / 1000.)
        end = time.time()
    after = time.time()
    check(end - start - 0.02 <= mon.duration <= after - before + 0.02,
          'duration', 'got %s, expected between %s and %s', mon.duration,
          end - start, after - before)
    check(before - 0.02 <= seconds(mon.start_time) <= start + 0.02,
          'start_time', 'got %s', mon.start_time)
    T.step()
    T.state('sleep', ms)
    T.trace()
    T.outcome('sleep')


class Out(object):
    def __init__(self):
        self.text = ''

    def write(self, text):
        self.text += text

    def flush(self):
        pass


def run_display(T, text):
    """The default on_exit displays the results"""
    psutil.env.answers[11] = [5, 128]
    out, orig = Out(), sys.stdout
    sys.stdout = out
    try:
        mon = parallel.PerformanceMonitor([11])
        try:
            with mon:
                if text is not None:
                    raise Boom(text)
        except Boom:
            pass
    finally:
        sys.stdout = orig
        psutil.env.reset()
    for want in (str(mon.start_time), str(mon.duration), '123'):
        check(want in out.text, 'display', '%r is not in %r', want, out.text)
    check(('Boom' in out.text) == (text is not None), 'display-exc',
          'displayed %r with the exception %r', out.text, text)
    T.step()
    T.state('display', text)
    T.trace()
    T.outcome('display')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
