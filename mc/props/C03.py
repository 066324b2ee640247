"""
All the sequences of up to 2 (for some models 3, thorough: 4) read-only
operations out of 16 on
a manager of each of the five kinds of models (valid, or with a few invalid
cells) stored in memory, in a directory or in a zip archive, with and without
an explicit prefix: read a record type completely or partially, two
interleaved readings of the same file, a reading suspended and finished
later, build a table, a table set, a node,
an XML file in another archive, search for all the invalid records or the
first one, list the names, leave a with block, close the archive. Every
operation must give the same result it gives on a new manager of a new
archive, and the content of the archive must not change.
"""
import os
import shutil
import itertools
from mclib import check
from nrmlgen import canon
from csvgen import GROUPS, csvfiles
from openquake.commonlib import csvmanager, records, record

QUICK_SHARDS = 6


def mkarchive(kind, items):
    if kind == 'mem':
        return csvmanager.MemArchive(items)
    path = os.path.join(os.getcwd(), 'c03' + ('.zip' if kind == 'zip' else ''))
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.remove(path)
    arc = csvmanager.mkarchive(path, 'w')
    for name, data in items:
        with arc.open(name, 'w') as f:
            f.write(data)
    arc.close()
    if kind == 'zip':
        arc.zip.close()
    return csvmanager.mkarchive(path, 'r')


class Session(object):
    def __init__(self, kind, items, group, prefix):
        self.kind = kind
        self.arc = mkarchive(kind, items)
        self.group = group
        self.man = csvmanager.CSVManager(self.arc, prefix)
        self.pending = None
        self.first = getattr(records, group[0][0])
        self.last = getattr(records, group[-1][0])

    def finish(self):
        self.arc.close()
        if self.kind == 'zip':
            self.arc.zip.close()

    def apply(self, op):
        if op in ('leave', 'close', 'nrml'):
            self.pending = None  # the files are closed
        try:
            return ('ok', getattr(self, op)())
        except (csvmanager.NotInArchive, record.InvalidRecord, ValueError,
                KeyError, record.ForeignKeyError) as e:
            return (e.__class__.__name__, str(e))

    def read_first(self):
        return map(list, self.man.read(self.first))

    def read_last(self):
        return map(list, self.man.read(self.last))

    def partial(self):
        it = self.man.read(self.last)
        return list(it.next())

    def interleaved(self):
        a = self.man.read(self.last)
        b = self.man.read(self.last)
        return [(list(x), list(y)) for x, y in itertools.izip(a, b)]

    def suspend(self):
        it = self.man.read(self.last)
        first = list(it.next())
        self.pending = it
        return first

    def resume(self):
        # go on with the suspended reading, whatever has been done since
        if self.pending is None:
            self.suspend()
        it, self.pending = self.pending, None
        return map(list, it)

    def table(self):
        t = self.man.readtable(self.last)
        return [list(r) for r in t]

    def tableset(self):
        return [(t.recordtype.__name__, map(list, t))
                for t in self.man.get_tableset().tables]

    def node(self):
        return canon(self.man.convert_to_node())

    def nrml(self):
        out = csvmanager.MemArchive([])
        names = self.man.convert_to_nrml(out)
        return [(n, out.open(n).read()) for n in sorted(names)]

    def invalid(self):
        return map(str, self.man.find_invalid())

    def invalid1(self):
        return map(str, self.man.find_invalid(1))

    def names(self):
        return sorted(self.arc.extract_filenames()), [
            '%s__%s.csv' % (self.man.prefix, rt) in self.arc
            for rt, _ in self.group]

    def string(self):
        return sorted(str(self.man).replace(',', ' ').replace(
            '>', ' ').replace(']', ' ').replace('[', ' ').split())[:2]

    def leave(self):
        with self.man:
            return map(list, self.man.read(self.first))

    def close(self):
        self.arc.close()

OPS = ['read_first', 'read_last', 'partial', 'interleaved', 'suspend',
       'resume', 'table',
       'tableset', 'node', 'nrml', 'invalid', 'invalid1', 'names', 'string',
       'leave', 'close']


def breakit(group):
    """Put two invalid cells in the last file"""
    rectype, rows = group[-1]
    rows = [list(row) for row in rows]
    rows[0][-1] = 'invalid'
    rows[-1][-1] = '?'
    return group[:-1] + [(rectype, rows)]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for name in sorted(GROUPS):
        for kind in ('mem', 'dir', 'zip'):
            if tier == 'quick' and kind != 'mem' and name not in (
                    'vulnerability', 'gmf'):
                continue
            for explicit in (True, False):
                for broken in (False, True):
                    d = depth if tier == 'thorough' or (
                        kind == 'mem' and name == 'vulnerability' and
                        explicit != broken) else depth - 1
                    for n in range(0, d):
                        for prefix in itertools.product(
                                range(len(OPS)), repeat=n):
                            if n > 1 and (explicit and broken):
                                continue
                            yield [name, kind, explicit, broken,
                                   list(prefix)]

ALONE = {}


def run(case, T):
    name, kind, explicit, broken, head = case
    group = GROUPS[name]
    if broken:
        group = breakit(group)
    items = csvfiles(group, 'pre')
    prefix = 'pre' if explicit else ''

    def alone(op):
        key = (name, kind, explicit, broken, op)
        if key not in ALONE:
            s = Session(kind, items, group, prefix)
            ALONE[key] = s.apply(op)
            s.finish()
        return ALONE[key]
    for last in range(len(OPS)):
        seq = [OPS[i] for i in head + [last]]
        s = Session(kind, items, group, prefix)
        for op in seq:
            got = s.apply(op)
            check(got == alone(op), op,
                  '%s in %s on %s: got %s, expected %s', op, seq, case, got,
                  alone(op))
            T.step()
            T.outcome(op + ' ' + got[0])
        content = sorted((n, s.arc.open(n).read())
                         for n in s.arc.extract_filenames())
        check(content == sorted(items), 'changed',
              'the archive has been changed by %s on %s: %s', seq, case,
              content)
        s.finish()
        T.state(name, kind, explicit, broken, seq[-1])
        T.trace()
    if not head:  # what is expected from the operations alone
        want = map(list, group[0][1])
        check(not explicit or alone('read_first') == ('ok', want), 'read',
              'got %s, expected %s', alone('read_first'), want)
        if not broken:
            check(alone('invalid') == ('ok', []), 'no-invalid', 'got %s',
                  alone('invalid'))
            check(alone('node')[0] == 'ok' and alone('nrml')[0] == 'ok',
                  'convert', 'got %s and %s', alone('node'), alone('nrml'))
            ts = dict((rt, map(list, rows)) for rt, rows in group)
            got = dict(alone('tableset')[1])
            check(got == ts, 'tableset', 'got %s, expected %s', got, ts)
        else:
            check(len(alone('invalid')[1]) == (
                2 if len(group[-1][1]) > 1 else 1), 'invalid',
                'found %s', alone('invalid')[1])
