"""
Stand-in for psutil (version 1.x). The environment is decided by the
checker through `env`: a dictionary pid -> list of answers (an integer is the
resident memory, an exception class is raised), consumed one per measurement,
the last being repeated; `percent` is the percentage of memory used.
"""
import collections


class Error(Exception):
    pass


class NoSuchProcess(Error):
    def __init__(self, pid, name=None, msg=None):
        Error.__init__(self, 'process no longer exists (pid=%s)' % pid)
        self.pid = pid


class AccessDenied(Error):
    def __init__(self, pid=None, name=None, msg=None):
        Error.__init__(self, '(pid=%s)' % pid)
        self.pid = pid


class TimeoutExpired(Error):
    pass


class Env(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.answers = {}
        self.percent = 10.
        self.missing = set()

env = Env()

_usage = collections.namedtuple('usage', 'total used free percent')
_mem = collections.namedtuple('meminfo', 'rss vms')


def phymem_usage():
    percent = env.percent() if callable(env.percent) else env.percent
    total = 1000
    used = int(total * percent / 100)
    return _usage(total, used, total - used, percent)


def virtual_memory():
    return phymem_usage()


class Process(object):
    def __init__(self, pid):
        if pid in env.missing:
            raise NoSuchProcess(pid)
        self.pid = pid

    def __eq__(self, other):
        return isinstance(other, Process) and self.pid == other.pid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.pid)

    def __repr__(self):
        return '<Process %s>' % self.pid

    def get_memory_info(self):
        answers = env.answers.get(self.pid)
        if answers is None:
            return _mem(1000, 2000)
        ans = answers.pop(0) if len(answers) > 1 else answers[0]
        if isinstance(ans, type) and issubclass(ans, Exception):
            raise ans(self.pid)
        return _mem(ans, ans * 2)

    memory_info = get_memory_info

    def is_running(self):
        return self.pid not in env.missing
