"""
Stand-in for concurrent.futures: a simulated pool of processes whose
scheduling is decided by the checker.

Each submitted call is pending until the scheduler completes it. The function
`scheduler.choose(n)` is called with the number of available alternatives and
returns an index: alternatives are the pending calls (in submission order).
Calls are completed when somebody waits for them and, if `scheduler.eager` is
true, possibly also right after each submission (an extra alternative 0 being
"nothing completes now").

Arguments and results are passed by value, as between processes, when
`scheduler.by_value` is true.
"""
import cPickle

FIRST_COMPLETED = 'FIRST_COMPLETED'
FIRST_EXCEPTION = 'FIRST_EXCEPTION'
ALL_COMPLETED = 'ALL_COMPLETED'


class TimeoutError(Exception):
    pass


class CancelledError(Exception):
    pass


class Scheduler(object):
    def __init__(self):
        self.reset()

    def reset(self, choose=None, eager=False, by_value=False):
        self.choose = choose or (lambda n: 0)
        self.eager = eager
        self.by_value = by_value
        self.pending = []
        self.completed = []  # ids in order of completion
        self.submitted = 0
        self.trace = []

    def step(self):
        """Complete one of the pending calls"""
        i = self.choose(len(self.pending)) if len(self.pending) > 1 else 0
        self.pending.pop(i)._run()

    def maybe_step(self):
        """Complete zero or more of the pending calls"""
        while self.pending:
            i = self.choose(len(self.pending) + 1)
            if i == 0:
                return
            self.pending.pop(i - 1)._run()

scheduler = Scheduler()


def by_value(obj):
    """Copy an object as sending it to another process would do"""
    return cPickle.loads(cPickle.dumps(obj, cPickle.HIGHEST_PROTOCOL))


class Future(object):
    def __init__(self, fn=None, args=(), kw=None, ordinal=None):
        self._fn, self._args, self._kw = fn, args, kw or {}
        self._ordinal = ordinal
        self._done = False
        self._cancelled = False
        self._result = None
        self._exc = None
        self._callbacks = []

    def _run(self):
        args, kw = self._args, self._kw
        if scheduler.by_value:
            args, kw = by_value(args), by_value(kw)
        try:
            self._result = self._fn(*args, **kw)
            if scheduler.by_value:
                self._result = by_value(self._result)
        except BaseException as e:
            self._exc = e
        self._done = True
        scheduler.completed.append(self._ordinal)
        for cb in self._callbacks:
            cb(self)

    def _wait(self):
        while not self._done:
            if self._cancelled:
                raise CancelledError()
            scheduler.step()

    def result(self, timeout=None):
        self._wait()
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self, timeout=None):
        self._wait()
        return self._exc

    def done(self):
        return self._done or self._cancelled

    def running(self):
        return False

    def cancelled(self):
        return self._cancelled

    def cancel(self):
        if self._done:
            return False
        self._cancelled = True
        if self in scheduler.pending:
            scheduler.pending.remove(self)
        return True

    def add_done_callback(self, fn):
        if self._done:
            fn(self)
        else:
            self._callbacks.append(fn)


class Executor(object):
    def submit(self, fn, *args, **kw):
        fut = Future(fn, args, kw, scheduler.submitted)
        scheduler.submitted += 1
        scheduler.pending.append(fut)
        if scheduler.eager:
            scheduler.maybe_step()
        return fut

    def map(self, fn, *iterables, **kw):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in futs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True):
        pass

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        self.shutdown()
        return False


class ProcessPoolExecutor(Executor):
    def __init__(self, max_workers=None):
        self._max_workers = max_workers


class ThreadPoolExecutor(ProcessPoolExecutor):
    pass


def as_completed(fs, timeout=None):
    """Yield the futures in order of completion"""
    fs = list(fs)
    todo = []
    for f in fs:
        if f not in todo:
            todo.append(f)
    finished = [f for f in todo if f._done]
    # the futures already finished come in arbitrary order (it is a set)
    while finished:
        i = scheduler.choose(len(finished)) if len(finished) > 1 else 0
        f = finished.pop(i)
        todo.remove(f)
        yield f
    while todo:
        ready = [f for f in todo if f._done]
        while not ready:
            scheduler.step()
            ready = [f for f in todo if f._done]
        for f in ready:
            todo.remove(f)
            yield f


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    fs = list(fs)
    done = set()
    for f in as_completed(fs):
        done.add(f)
        if return_when == FIRST_COMPLETED:
            break
        if return_when == FIRST_EXCEPTION and f._exc is not None:
            break
    import collections
    return collections.namedtuple('DoneAndNotDoneFutures', 'done not_done')(
        done, set(fs) - done)
