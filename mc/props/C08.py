"""
Every program up to 4 operations (thorough: 6) with nested ``with`` blocks,
and up to 7 (thorough: 8) with fewer operations, over a memory, directory and
zip archive:
enter or leave, normally or with an exception, the manager of one of two
prefixes; write a record of one of two types with any of the managers
entered; convert a model into a third prefix; read or convert the finished
models; open a file of the archive and write it later; the blocks left
are closed at the end. At each reading and at the end, with a new archive, there must be exactly
the files written, with all the contents, in order.
"""
import os
import csv
import shutil
import StringIO
from mclib import check
from csvgen import GROUPS, csvfiles
from openquake.commonlib import csvmanager, records

QUICK_SHARDS = 4
FULL = [('E', 'a'), ('E', 'b'), ('W', 'a', 0), ('W', 'a', 1), ('W', 'b', 0),
        ('W', 'b', 1), ('X', ''), ('X', 'exc'), ('C', 'c'), ('C', 'n'),
        ('R', 'a'), ('O',), ('P',)]
FEW = [('E', 'a'), ('E', 'b'), ('W', 'a', 0), ('W', 'b', 0), ('X', ''),
       ('R', 'a'), ('O',), ('P',)]
TYPES = [records.DiscreteVulnerabilitySet, records.DiscreteVulnerability]
KINDS = ['mem', 'dir', 'zip']
MODEL = 'fragility_d'


class Model(object):
    """The files which are finished and the ones which are still open"""
    def __init__(self):
        self.done = {}  # name -> rows or text
        self.stack = []  # of [prefix, {type: rows}]
        self.x = None  # the text of the file x, if open
        self.level = None  # and the number of managers when it was opened
        self.count = 0

    def enabled(self, op):
        entered = [prefix for prefix, _ in self.stack]
        if op[0] == 'E':
            return op[1] not in entered
        elif op[0] == 'W':  # a file cannot be created in an inner block
            for prefix, rows in self.stack:
                if prefix == op[1]:
                    return op[2] in rows or entered[-1] == prefix
            return False
        elif op[0] == 'X':
            return bool(self.stack)
        elif op[0] == 'R':
            return op[1] not in entered
        elif op[0] == 'O':
            return self.x is None
        elif op[0] == 'P':
            return self.x is not None
        return True

    def update(self, op):
        if op[0] == 'E':
            self.stack.append([op[1], {}])
        elif op[0] == 'W':
            [rows] = [r for prefix, r in self.stack if prefix == op[1]]
            rows.setdefault(op[2], []).append(record(op, self.count))
            self.count += 1
        elif op[0] == 'X':
            self.close_x()
            prefix, rows = self.stack.pop()
            for i, recs in rows.items():
                self.done['%s__%s.csv' % (prefix, TYPES[i].__name__)] = [
                    TYPES[i].fieldnames] + recs
        elif op[0] == 'C':
            prefix = op[1]
            for rectype, rows in GROUPS[MODEL]:
                self.done['%s__%s.csv' % (prefix, rectype)] = [
                    getattr(records, rectype).fieldnames] + list(rows)
        elif op[0] == 'O':
            self.x = 'x'
            self.level = len(self.stack)
        elif op[0] == 'P':
            self.x += str(self.count)
            self.count += 1

    def close_x(self):
        if self.x is not None and self.level == len(self.stack):
            self.done['x'] = self.x
            self.x = None


def record(op, count):
    """The fields of the record to write"""
    rectype = TYPES[op[2]]
    return ['%s%d %s' % (op[1], count, name) for name in rectype.fieldnames]


class Impl(object):
    def __init__(self, kind):
        self.kind = kind
        self.path = os.path.join(
            os.getcwd(), 'nested.zip' if kind == 'zip' else 'nested')
        self.clean()
        if kind == 'mem':
            self.archive = csvmanager.MemArchive([])
        else:
            self.archive = csvmanager.mkarchive(self.path, 'w')
        self.managers = []

    def execute(self, op, model):
        arc = self.archive
        if op[0] == 'E':
            man = csvmanager.CSVManager(arc, op[1])
            man.__enter__()
            self.managers.append(man)
        elif op[0] == 'W':
            [man] = [m for m in self.managers if m.prefix == op[1]]
            man.write(TYPES[op[2]](*record(op, model.count)))
        elif op[0] == 'X':
            man = self.managers.pop()
            if op[1]:
                exc = ValueError('failure in the block')
                res = man.__exit__(ValueError, exc, None)
                check(not res, 'hidden', 'the exception is hidden: %s', res)
            else:
                man.__exit__(None, None, None)
        elif op[0] == 'C':
            if op[1] == 'c':
                man = (self.managers or [csvmanager.CSVManager(arc)])[-1]
                man.convert_from_node(node(), op[1])
            else:  # the same manager
                csvmanager.CSVManager(arc, op[1]).convert_from_node(node())
        elif op[0] == 'R':
            # the content of the finished models
            for prefix in (op[1], 'c', 'n'):
                for i, rt in enumerate(TYPES):
                    name = '%s__%s.csv' % (prefix, rt.__name__)
                    want = model.done.get(name)
                    man = csvmanager.CSVManager(arc, prefix)
                    try:
                        with man:
                            got = [rt.fieldnames] + map(list, man.read(rt))
                    except csvmanager.NotInArchive:
                        got = None
                    check(got == want, self.kind + '-read',
                          '%s: %s contains %s instead of %s', self.kind,
                          name, got, want)
        elif op[0] == 'O':
            self.f = arc.open('x', 'w')
            self.f.write('x')
        elif op[0] == 'P':
            self.f.write(str(model.count))

    def content(self):
        """name -> rows or text"""
        if self.kind != 'mem':
            self.archive = csvmanager.mkarchive(self.path, 'r')
        res = {}
        for name in self.archive.extract_filenames():
            f = self.archive.open(name)
            data = f.read()
            f.close()
            res[name] = data if name == 'x' else list(
                csv.reader(StringIO.StringIO(data)))
        return res

    def clean(self):
        if self.kind == 'dir' and os.path.exists(self.path):
            shutil.rmtree(self.path)
        elif self.kind == 'zip' and os.path.exists(self.path):
            os.remove(self.path)


NODE = []


def node():
    """The node of the model to convert"""
    if not NODE:
        arc = csvmanager.MemArchive(csvfiles(GROUPS[MODEL], 'm'))
        NODE.append(csvmanager.CSVManager(arc).convert_to_node())
    return NODE[0]


def programs(alphabet, model_ops, length):
    """All the programs starting with some operations, with that length"""
    model = Model()
    for op in model_ops:
        if not model.enabled(op):
            return
        model.update(op)
    if len(model_ops) == length:
        yield model_ops
        return
    for op in alphabet:
        if model.enabled(op):
            for prog in programs(alphabet, model_ops + [op], length):
                yield prog


def cases(tier):
    full, few = (4, 7) if tier == 'quick' else (6, 8)
    for kind, alphabet, low, high in (
            ('full', FULL, 1, full), ('few', FEW, full + 1, few)):
        for n in range(low, high + 1):
            for ops in programs(alphabet, [], max(n - 3, 0)):
                yield [kind, n, [alphabet.index(op) for op in ops]]


def run(case, T):
    kind, n, idxs = case
    alphabet = FULL if kind == 'full' else FEW
    for prog in programs(alphabet, [alphabet[i] for i in idxs], n):
        if prog[-1][0] not in 'EO':
            execute(prog, T)


def execute(prog, T):
    for kind in KINDS:
        impl = Impl(kind)
        model = Model()
        op = None
        try:
            for op in prog:
                impl.execute(op, model)
                model.update(op)
                T.step()
            while model.stack:  # leave the other blocks
                op = ('X', '')
                impl.execute(op, model)
                model.update(op)
            op = ('close',)
            impl.archive.close()
            model.close_x()
        except (IOError, OSError, EOFError, ValueError, KeyError,
                AttributeError, AssertionError, RuntimeError) as e:
            check(False, '%s-%s' % (kind, op[0]), '%s: %s raised %s %s in '
                  'the program %s', kind, op, e.__class__.__name__, e, prog)
        if kind == 'zip' and not model.done:
            impl.archive.zip.close()
            continue
        got = impl.content()
        check(got == model.done, kind, '%s: after the program %s the files '
              'are\n%s\ninstead of\n%s', kind, prog, got, model.done)
        if kind == 'zip':
            impl.archive.zip.close()
        T.outcome('%d files' % len(got))
    T.state(prog)
    T.trace()
