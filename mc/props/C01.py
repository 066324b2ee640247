"""
All the histories of up to 3 operations (thorough: 4) over an alphabet of 21
operations, and up to 5 (thorough: 6) over a reduced one, on two file names
of an archive: write a file in one or many pieces in mode 'w' or 'w+', keep
a writer open, close it once or twice, read a file at once, by lines, in
pieces, through two interleaved readers, list the names with a prefix, test
the membership, open a missing file, close the archive and go on, close and
reopen it in each mode. Each history runs in lockstep on a memory archive, a
directory archive, a zip archive and a dictionary. A name with an open
writer is not observed: its content is only defined once closed. Then all
the sets of up to 2 (thorough: 3) files with unusual names, listed with all
the prefixes, before and after reopening the archive, and the type of
the archives with 7 names. All the histories of 4 operations (thorough: 5) on
two archives of the same or of different kinds.
"""
import os
import shutil
import itertools
from mclib import check, fail
from openquake.commonlib import csvmanager

QUICK_SHARDS = 8
A, B = 'a__X.csv', 'ab.txt'
ONE = 'x,1\r\n"y",\n'
TWO = 'last line'

FULL = [
    ('write', A, ONE), ('write', A, ''), ('write', B, TWO),
    ('write+', A, TWO), ('add', A, 'x'), ('chunks', A, TWO),
    ('hold', A, ONE), ('hold', B, TWO), ('more', A, 'more'),
    ('release', A), ('release2', A), ('read', A), ('read', B), ('lines', A),
    ('two', A), ('list',), ('in',), ('close',), ('with',),
    ('reopen', 'r+'), ('reopen', 'r')]
FEW = [('write', A, ONE), ('write', A, TWO), ('hold', A, ONE),
       ('release', A), ('two', A), ('close',), ('reopen', 'r+'),
       ('reopen', 'r')]


# operations on each of two archives
PAIR = [('hold', A, ONE), ('more', A, 'more'), ('release', A),
        ('write', A, TWO), ('close',)]


NAMES = ['.x', 'a[1]', 'a1', '[', 'a*b.csv', 'a+b', '~x', 'ab', 'a b', '-x',
         'a__b__c.csv', 'a.csv', 'axcsv', '%s', 'x.zip']


class Mem(object):
    label = 'mem'

    def __init__(self, items):
        self.archive = csvmanager.MemArchive(items)

    def reopen(self, mode):
        pass


class Disk(object):
    def __init__(self, items):
        self.path = os.path.join(os.getcwd(), self.fname)
        self.clean()
        self.archive = csvmanager.mkarchive(self.path, 'w')
        for name, data in items:
            with self.archive.open(name, 'w') as f:
                f.write(data)

    def reopen(self, mode):
        self.archive = csvmanager.mkarchive(self.path, mode)

    def clean(self):
        if os.path.isdir(self.path):
            shutil.rmtree(self.path)
        elif os.path.exists(self.path):
            os.remove(self.path)


class Dir(Disk):
    label = 'dir'
    fname = 'archive'


class Zip(Disk):
    label = 'zip'
    fname = 'archive.zip'


class Dir2(Dir):
    fname = 'archive2'


class Zip2(Zip):
    fname = 'archive2.zip'

PAIRS = [(Mem, Mem), (Dir, Dir2), (Zip, Zip2), (Mem, Zip2), (Zip, Dir2),
         (Dir, Mem)]


class Model(object):
    """The files which are in the archive"""
    def __init__(self, items):
        self.files = dict(items)
        self.held = {}
        self.readonly = False

    def enabled(self, op):
        if op[0] in ('write', 'write+', 'add', 'chunks', 'hold'):
            return op[1] not in self.held and not self.readonly
        elif op[0] in ('release', 'release2', 'more'):
            return op[1] in self.held
        elif op[0] in ('read', 'lines', 'two'):
            return op[1] not in self.held
        elif op[0] == 'list':
            return not self.held
        elif op[0] == 'reopen':
            return not (op[1] == 'r' and not self.files)
        return True


def read(impl, name, want):
    """Open a file for reading; None if it is rightly missing"""
    try:
        f = impl.archive.open(name)
    except csvmanager.NotInArchive as e:
        check(want is None, impl.label + '-missing',
              '%s: could not find %s: %s', impl.label, name, e)
        check(name in str(e), 'message', 'unclear message: %s', e)
        return
    except Exception as e:
        fail(impl.label + '-open', '%s: could not open %s: %s %s',
             impl.label, name, e.__class__.__name__, e)
    check(want is not None, impl.label + '-spurious',
          '%s: opened the missing file %s', impl.label, name)
    return f


def equal(impl, op, got, want):
    check(got == want, impl.label + '-' + op[0],
          '%s: %s: got %r, expected %r', impl.label, op, got, want)


def execute(impl, op, model, held):
    """Execute an operation on the implementation; `model` is not changed"""
    arc = impl.archive
    kind = op[0]
    if kind in ('write', 'write+'):
        with arc.open(op[1], 'w' + kind[5:]) as f:
            f.write(op[2])
    elif kind == 'add':
        if impl.label == 'mem':
            arc.add(op[1], op[2])
        else:
            with arc.open(op[1], 'w') as f:
                f.write(op[2])
    elif kind == 'chunks':
        f = arc.open(op[1], 'w')
        f.write(op[2][:3])
        f.flush()
        f.write(op[2][3:])
        f.close()
    elif kind == 'hold':
        held[op[1]] = f = arc.open(op[1], 'w')
        f.write(op[2])
    elif kind == 'more':
        held[op[1]].write(op[2])
    elif kind == 'release':
        held.pop(op[1]).close()
    elif kind == 'release2':
        f = held.pop(op[1])
        f.close()
        f.close()
    elif kind == 'close':
        arc.close()
        held.clear()
    elif kind == 'with':
        class Interrupt(Exception):
            pass
        try:
            with arc as a:
                equal(impl, op, a is arc, True)
                raise Interrupt
        except Interrupt:
            pass
        else:
            fail('with', '%s: the exception was lost', impl.label)
        held.clear()
    elif kind == 'reopen':
        arc.close()
        held.clear()
        impl.reopen(op[1])
    else:
        observe(impl, op, model)


def observe(impl, op, model):
    arc = impl.archive
    kind = op[0]
    if kind == 'list':
        for prefix in ('', 'a', 'a_', 'ab.txt', 'b'):
            got = arc.extract_filenames(prefix)
            equal(impl, op, sorted(got), sorted(
                n for n in model.files if n.startswith(prefix)))
    elif kind == 'in':
        for name in (A, B, 'a', 'missing'):
            if name not in model.held:
                equal(impl, op, name in arc, name in model.files)
    else:
        want = model.files.get(op[1])
        f = read(impl, op[1], want)
        if f is None:
            return
        lines = want.splitlines(True)
        if kind == 'read':
            equal(impl, op, f.read(), want)
            f.close()
        elif kind == 'lines':
            equal(impl, op, list(f), lines)
            f.close()
        else:
            g = read(impl, op[1], want)
            equal(impl, op, f.readline(), (lines + [''])[0])
            equal(impl, op, g.read(3), want[:3])
            equal(impl, op, f.read(), ''.join(lines[1:]))
            f.close()
            h = read(impl, op[1], want)
            equal(impl, op, g.read(), want[3:])
            equal(impl, op, h.read(), want)
            g.close()
            h.close()


def update(model, op):
    kind = op[0]
    if kind in ('write', 'write+', 'add', 'chunks'):
        model.files[op[1]] = op[2]
    elif kind == 'hold':
        model.held[op[1]] = op[2]
    elif kind == 'more':
        model.held[op[1]] += op[2]
    elif kind in ('release', 'release2'):
        model.files[op[1]] = model.held.pop(op[1])
    elif kind in ('close', 'with', 'reopen'):
        model.files.update(model.held)
        model.held.clear()
        if kind == 'reopen':
            model.readonly = op[1] == 'r'


def run_names(k, T):
    """All the sets of k files with unusual names"""
    for names in itertools.combinations(NAMES, k):
        items = [(n, 'content of ' + n) for n in names]
        impls = [Mem([]), Dir([]), Zip([])]
        for reopened in (False, True):
            for impl in impls:
                if reopened:
                    impl.archive.close()
                    impl.reopen('r+')
                else:
                    for n, data in items:
                        with impl.archive.open(n, 'w') as f:
                            f.write(data)
                for prefix in set(n[:i] for n in NAMES for i in (0, 1, 2, 99)):
                    got = impl.archive.extract_filenames(prefix)
                    equal(impl, ('list', prefix), sorted(got), sorted(
                        n for n in names if n.startswith(prefix)))
                for n in NAMES:
                    equal(impl, ('in', n), n in impl.archive, n in names)
                for n, data in items:
                    with impl.archive.open(n) as f:
                        equal(impl, ('read', n), f.read(), data)
                T.step(3)
        for impl in impls:
            impl.archive.close()
        impls[2].archive.zip.close()
        T.state(names)
        T.outcome('names')
        T.trace()


def run_types(T):
    """The type of the archive depends on the extension"""
    for name, kind in [('a.zip', 'ZipArchive'), ('a.b.zip', 'ZipArchive'),
                       ('a', 'DirArchive'), ('a.zip.d', 'DirArchive'),
                       ('zip', 'DirArchive'), ('a.zipped', 'DirArchive'),
                       ('a.d', 'DirArchive')]:
        path = os.path.join(os.getcwd(), name)
        arc = csvmanager.mkarchive(path, 'w')
        try:
            check(arc.__class__.__name__ == kind, 'archive-type',
                  '%s is a %s', name, arc.__class__.__name__)
            check(arc.name == path, 'archive-name', '%s is called %s', path,
                  arc.name)
            with arc.open('x', 'w') as f:
                f.write('1')
            arc.close()
            check(os.path.isdir(path) is (kind == 'DirArchive'),
                  'archive-file', '%s is not what it should be', name)
            with arc.open('x') as f:
                check(f.read() == '1', 'archive-content', 'wrong content')
        finally:
            arc.close()
            if kind == 'ZipArchive':
                arc.zip.close()
                os.remove(path)
            else:
                shutil.rmtree(path)
        T.step()
        T.state('type', name)
    T.trace()


def run_pair(T, p, prefix):
    """Operations on two archives which do not know each other"""
    for last in range(2 * len(PAIR)):
        ops = [(i // len(PAIR), PAIR[i % len(PAIR)]) for i in prefix + [last]]
        models = Model([]), Model([])
        ok = True
        for i, op in ops:  # dry run
            ok = ok and models[i].enabled(op)
            if ok:
                update(models[i], op)
        if not ok or len(set(i for i, _ in ops)) < 2:
            continue
        models = Model([]), Model([])
        impls = [cls([]) for cls in PAIRS[p]]
        held = {}, {}
        for i, op in ops + [(0, ('close',)), (1, ('close',))]:
            try:
                execute(impls[i], op, models[i], held[i])
            except (IOError, OSError, EOFError, ValueError, KeyError,
                    AttributeError, AssertionError, RuntimeError) as e:
                fail('pair-%s' % op[0], '%s: %s in %s raised %s %s in the '
                     'history %s of two archives', impls[i].label, op, i,
                     e.__class__.__name__, e, ops)
            update(models[i], op)
            for impl, model in zip(impls, models):
                if not model.held:
                    for op in [('list',), ('in',), ('read', A)]:
                        observe(impl, op, model)
            T.step()
        for impl in impls:
            if impl.label == 'zip':
                impl.archive.zip.close()
        T.state(p, ops)
        T.trace()
    T.outcome('pair')


def cases(tier):
    yield ['types', 0, []]
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        yield ['names', k, []]
    for p in range(len(PAIRS)):
        for ops in itertools.product(range(2 * len(PAIR)),
                                     repeat=3 if tier == 'quick' else 4):
            yield ['pair', p, list(ops)]
    full, few = (3, 5) if tier == 'quick' else (4, 6)
    for start in (0, 1):
        for n in range(1, full + 1):
            for ops in itertools.product(range(len(FULL)), repeat=n - 1):
                yield ['full', start, list(ops)]
    for n in range(full, few):
        for ops in itertools.product(range(len(FEW)), repeat=n):
            yield ['few', 0, list(ops)]


def run(case, T):
    kind, start, prefix = case
    if kind == 'types':
        return run_types(T)
    if kind == 'names':
        return run_names(start, T)
    if kind == 'pair':
        return run_pair(T, start, prefix)
    alphabet = FULL if kind == 'full' else FEW
    items = [(A, ONE)] if start else []
    for last in range(len(alphabet)):
        ops = [alphabet[i] for i in prefix + [last]]
        if not history(ops, items, T, 'history %s from %s' % (ops, items)):
            continue


def history(ops, items, T, what):
    model = Model(items)
    for op in ops:  # dry run, to skip the histories which are not enabled
        if not model.enabled(op):
            return
        update(model, op)
    model = Model(items)
    impls = [Mem(items), Dir(items), Zip(items)]
    held = [{}, {}, {}]
    for op in ops:
        for impl, h in zip(impls, held):
            try:
                execute(impl, op, model, h)
            except (IOError, OSError, EOFError, ValueError, KeyError,
                    AttributeError, AssertionError, RuntimeError) as e:
                fail('%s-%s-%s' % (impl.label, op[0], e.__class__.__name__),
                     '%s: %s raised %s %s in the %s', impl.label, op,
                     e.__class__.__name__, e, what)
            T.step()
        update(model, op)
        T.state(sorted(model.files.items()), sorted(model.held.items()))
        T.outcome(op[0])
    # the final content, as seen by the current and by a new archive
    for impl in impls:
        impl.archive.close()
    update(model, ('close',))
    for mode in (None, 'r', 'r+'):
        for impl in impls:
            if mode and (impl.label != 'mem') and (model.files or
                                                   mode == 'r+'):
                impl.reopen(mode)
            for op in [('list',), ('in',), ('read', A), ('read', B)]:
                observe(impl, op, model)
    for impl in impls:
        if impl.label == 'zip':
            impl.archive.zip.close()
    T.trace()
    return True
