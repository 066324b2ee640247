"""
Explore a shard of the executions of a property. Usage:

  jython worker.py PROP TIER SHARD NSHARDS OUTFILE SECONDS [CASEFILE]
"""
import os
import sys
import json
import time
import threading
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bootstrap
bootstrap.setup()
import mclib
from java.lang import Runtime, Throwable, StackOverflowError, \
    OutOfMemoryError, Thread
from java.lang.management import ManagementFactory

MAIN = Thread.currentThread().getId()
BEAN = ManagementFactory.getThreadMXBean()


def cputime():
    return BEAN.getThreadCpuTime(MAIN) / 1e9


class Worker(object):
    def __init__(self, prop, tier, shard, nshards, out, seconds, case=None):
        self.prop = prop
        self.tier = tier
        self.shard = shard
        self.nshards = nshards
        self.out = out
        self.deadline = time.time() + seconds
        self.case = case
        self.known = set(os.environ.get('VERIF_KNOWN', '').split('\n'))
        self.tracker = mclib.Tracker()
        self.violations = []
        self.ncases = 0
        self.complete = False
        self.current = None  # (case, wall, cpu)
        self.lock = threading.Lock()
        self.written = False

    def write(self):
        with self.lock:
            if self.written:
                return
            self.written = True
            t = self.tracker
            with open(self.out + '.tmp', 'w') as f:
                json.dump(dict(
                    cases=self.ncases, states=['%x' % s for s in t.states],
                    states_capped=t.states_capped, steps=t.steps,
                    traces=t.traces, outcomes=t.outcomes, samples=t.samples,
                    violations=self.violations, complete=self.complete), f)
            os.rename(self.out + '.tmp', self.out)

    def watch(self):
        while True:
            time.sleep(1)
            cur = self.current
            if cur is None:
                continue
            case, wall, cpu = cur
            if time.time() - wall > self.wall_limit or (
                    cputime() - cpu > self.cpu_limit):
                self.violations.append(dict(
                    key='hang', case=case,
                    msg='the execution does not terminate'))
                self.write()
                Runtime.getRuntime().halt(0)

    def add(self, key, case, msg):
        for v in self.violations:
            if v['key'] == key:
                return
        self.violations.append(dict(key=key, case=case, msg=msg))

    def run(self):
        th = threading.Thread(target=self.watch)
        th.setDaemon(True)
        self.wall_limit, self.cpu_limit = 240, 120
        self.current = ('import', time.time(), cputime())
        th.start()
        try:
            self.explore()
        except Exception:
            self.add('harness', None, traceback.format_exc())
        except Throwable:
            self.add('harness', None, traceback.format_exc())
        self.current = None
        self.write()

    def explore(self):
        try:
            mod = __import__('props.' + self.prop, fromlist=['x'])
        except Exception:
            self.add('import', None, traceback.format_exc())
            return
        self.wall_limit = getattr(mod, 'WALL_LIMIT', 150)
        self.cpu_limit = getattr(mod, 'CPU_LIMIT', 60)
        if self.case is not None:
            self.run_case(mod, self.case)
            self.complete = True
            return
        known = self.known
        for i, case in enumerate(mod.cases(self.tier)):
            if i % self.nshards != self.shard:
                continue
            if self.ncases % 16 == 0 and time.time() > self.deadline:
                return
            self.run_case(mod, case)
            if any(v['key'] not in known for v in self.violations):
                return
        self.complete = True

    def run_case(self, mod, case):
        self.current = (case, time.time(), cputime())
        t = self.tracker
        try:
            mod.run(case, t)
        except mclib.Violation as e:
            self.add(e.key, case, e.msg)
        except (KeyboardInterrupt, SystemExit):
            self.add('exit', case, traceback.format_exc())
        except Exception as e:
            self.add('unexpected-%s' % e.__class__.__name__, case,
                     traceback.format_exc())
        except StackOverflowError:
            self.add('stack-overflow', case, 'unbounded recursion')
        except OutOfMemoryError:
            self.add('out-of-memory', case, 'unbounded memory consumption')
        except Throwable as e:
            self.add('java-error', case, traceback.format_exc())
        self.ncases += 1
        if self.ncases <= 3:
            t.sample(case)
        self.current = None


if __name__ == '__main__':
    prop, tier, shard, nshards, out, seconds = sys.argv[1:7]
    case = None
    if len(sys.argv) > 7:
        with open(sys.argv[7]) as f:
            case = json.load(f)['case']
    Worker(prop, tier, int(shard), int(nshards), out, float(seconds),
           case).run()
    sys.stdout.flush()
    Runtime.getRuntime().halt(0)
