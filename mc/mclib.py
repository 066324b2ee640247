"""
Explorer library: every harness of mc/props enumerates a bounded space of
executions (`cases`) and runs each of them on the real code (`run`), comparing
it step by step with a reference model.
"""
import itertools
import zlib


class Violation(Exception):
    """The code does not behave like the reference model"""
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


def fail(key, msg, *args):
    raise Violation(key, msg % args if args else msg)


def check(cond, key, msg, *args):
    if not cond:
        raise Violation(key, msg % args if args else msg)


class Tracker(object):
    """Counts what was covered by an exploration"""
    MAX_STATES = 400000

    def __init__(self):
        self.states = set()
        self.states_capped = False
        self.steps = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []

    def state(self, *key):
        """Record a state (of the implementation and of the model)"""
        r = repr(key)
        if len(self.states) < self.MAX_STATES:
            self.states.add((hash(r) & 0xffffffff) << 32 |
                            (zlib.crc32(r) & 0xffffffff))
        else:
            self.states_capped = True

    def step(self, n=1):
        """Record transitions: operations executed and compared"""
        self.steps += n

    def trace(self, n=1):
        """Record complete executions compared with the reference model"""
        self.traces += n

    def outcome(self, label):
        """Record the kind of outcome of an operation or execution"""
        label = str(label)
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)


def seqs(alphabet, maxlen, minlen=0):
    """All the sequences over the alphabet, the shortest first"""
    alphabet = list(alphabet)
    for n in range(minlen, maxlen + 1):
        for seq in itertools.product(alphabet, repeat=n):
            yield list(seq)


def prod(*args):
    for tup in itertools.product(*[list(a) for a in args]):
        yield list(tup)


def compositions(n, maxparts):
    """All the ways of writing n as a sum of positive integers"""
    if n == 0:
        yield []
    if n == 0 or maxparts == 0:
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first, maxparts - 1):
            yield [first] + rest


class Choices(object):
    """
    Systematic exploration of a nondeterministic execution: `choose(n)`
    replays a prefix of choices and takes the alternative 0 afterwards.
    """
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []

    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('diverged while replaying %s' % self.prefix)
        self.taken.append(c)
        self.arity.append(n)
        return c


def explore(execute, limit=None):
    """
    Run `execute(choices)` for all the possible choices (depth first);
    yields the Choices object of each execution.
    """
    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        ch = Choices(prefix)
        execute(ch)
        count += 1
        yield ch
        if limit and count >= limit:
            return
        for i in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            for alt in range(ch.arity[i] - 1, 0, -1):
                stack.append(ch.taken[:i] + [alt])


def same(a, b):
    """
    Equality between values of the same kind: it tells 1 from True and 1.0
    from '1.0', NaN is equal to itself
    """
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def close(a, b, rel=1e-9, abs_=1e-12):
    if a == b:
        return True
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def outcome_of(func, *args, **kw):
    """('ok', value) or ('error', exception class, exception)"""
    try:
        return ('ok', func(*args, **kw))
    except Exception as e:
        return ('error', e.__class__.__name__, e)
