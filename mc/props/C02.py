"""
Files of records with 1 to 3 columns: all the cells of up to 2 characters
(thorough: 3) over an alphabet of 12 characters, including separators, both
quotes, line ends, percents, tabs and the bytes of a non-ASCII letter, alone
and combined by 2 and 3 (thorough: more combinations); files with 0 to 3
rows, also like the header; with and without header; on memory, directory and zip archives; all
the wrong headers obtained by removing, adding, swapping or changing a name.
Each file is written by a manager and read by another one. All the sequences
of up to 3 blocks (thorough: 4) written by the same manager, each with the
records of up to 2 of 2 types, with the readings in between; files with 3000
rows and with cells of 100000 characters.
"""
import os
import shutil
import itertools
from mclib import check, fail, seqs
from openquake.nrmllib import InvalidFile
from openquake.commonlib import csvmanager, record

QUICK_SHARDS = 4
CHARS = ['a', ',', '"', "'", '\n', '\r', ' ', ';', '%', '\t', '\\',
         '\xc3\xa8']
NAMES = ['x', 'yName', 'z']


def mktype(n):
    dic = dict((name, record.Field(str)) for name in NAMES[:n][::-1])
    # fields are sorted by order of creation
    fields = [record.Field(str) for _ in range(n)]
    for name, field in zip(NAMES, fields):
        dic[name] = field
    dic['pkey'] = record.Unique(*NAMES[:n])
    return record.MetaRecord('Rec%d' % n, (record.Record,), dic)

TYPES = dict((n, mktype(n)) for n in (1, 2, 3))


def mkarchive(kind):
    if kind == 'mem':
        return csvmanager.MemArchive([])
    path = os.path.join(os.getcwd(), 'c02' + ('.zip' if kind == 'zip' else ''))
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.remove(path)
    return csvmanager.mkarchive(path, 'w')


def texts(n):
    return [''.join(s) for s in seqs(CHARS, n)]


def cases(tier):
    quick = tier == 'quick'
    yield ['headers']
    for kind in ('mem', 'dir', 'zip'):
        yield ['rows', kind]
        yield ['large', kind]
        for header in (True, False):
            yield ['blocks', kind, header, 3 if quick else 4]
    long = texts(2 if quick else 3)
    step = 20 if quick else 40
    for header in (True, False):
        for i in range(0, len(long), step):
            yield ['cells', 'mem', header, long[i:i + step]]
        some = texts(1)
        for a in some:
            yield ['pairs', 'mem', header, a]
            for b in some if not quick else some[::3]:
                yield ['triples', 'mem', header, a, b]
    for kind in ('dir', 'zip'):
        for header in (True, False):
            for i in range(0, 157, 10):
                yield ['cells', kind, header, texts(2)[i:i + 10]]


def roundtrip(kind, header, n, rows, T):
    rt = TYPES[n]
    arc = mkarchive(kind)
    with csvmanager.CSVManager(arc, 'pre', header) as man:
        for row in rows:
            man.write(rt(*row))
    if kind != 'mem' and len(rows) % 2:  # sometimes use another archive
        arc = csvmanager.mkarchive(arc.name, 'r')
    man = csvmanager.CSVManager(arc, 'pre', header)
    fname = 'pre__Rec%d.csv' % n
    if not rows:
        check(fname not in arc, 'spurious', 'created an empty %s', fname)
        try:
            list(man.read(rt))
        except csvmanager.NotInArchive:
            pass
        else:
            fail('missing', 'read the missing file %s', fname)
        T.outcome('no file')
        return
    check(list(arc.extract_filenames()) == [fname], 'names',
          'expected %s, got %s', fname, arc.extract_filenames())
    got = list(man.read(rt))
    want = [list(row) for row in rows]
    check([list(rec) for rec in got] == want, 'content',
          '%s, header=%s: wrote %r, read %r', kind, header, want,
          [list(rec) for rec in got])
    check(all(type(rec) is rt for rec in got), 'type', 'wrong record type')
    if len(set(map(tuple, rows))) == len(rows):
        tbl = man.readtable(rt)
        check([list(rec) for rec in tbl] == want, 'table',
              '%s: wrote %r, got the table %r', kind, want, list(tbl))
        for row in rows:
            check(tbl.getrecord(*row) == row, 'getrecord',
                  'could not find %r', row)
    if not header:
        with arc.open(fname) as f:
            data = f.read()
    else:
        # what follows the header can be read without header
        with arc.open(fname) as f:
            first, data = f.read().split('\n', 1)
        check(first.strip() == ','.join(NAMES[:n]), 'header',
              'the header is %r', first)
    other = csvmanager.MemArchive([('__Rec%d.csv' % n, data)])
    got = list(csvmanager.CSVManager(other, has_header=False).read(rt))
    check([list(rec) for rec in got] == want, 'noheader',
          'without header: wrote %r, read %r', want, map(list, got))
    arc.close()
    if kind == 'zip':
        arc.zip.close()
    T.state(kind, header, n, rows)
    T.step(2 * len(rows))
    T.trace()
    T.outcome('%s header=%s' % (kind, header))


def run_headers(T):
    for n in (1, 2, 3):
        rt = TYPES[n]
        names = NAMES[:n]
        wrong = [names[:-1] or ['other'], names + ['w'], names + [''],
                 [names[0].upper()] + names[1:], [' ' + names[0]] + names[1:],
                 names[:-1] + [names[-1] + 'x'], NAMES[:n - 1] + ['a b']]
        if n > 1:
            wrong.extend(list(p) for p in itertools.permutations(names)
                         if list(p) != names)
        for header in wrong:
            for rows in ([], [['1'] * n]):
                data = ''.join(','.join(r) + '\r\n' for r in [header] + rows)
                arc = csvmanager.MemArchive([('p__Rec%d.csv' % n, data)])
                for attempt in (1, 2):
                    man = csvmanager.CSVManager(arc, 'p')
                    try:
                        list(man.read(rt))
                    except InvalidFile as e:
                        msg = str(e)
                        for part in ('p__Rec%d.csv' % n, 'line 1',
                                     str(header), str(names)):
                            check(part in msg, 'message',
                                  '%r does not contain %r', msg, part)
                    else:
                        fail('bad-header', 'header %s accepted for %s',
                             header, names)
                # without header it is an ordinary row, if it has the size
                if len(header) == n:
                    man = csvmanager.CSVManager(arc, 'p', False)
                    got = [list(r) for r in man.read(rt)]
                    check(got == [header] + rows, 'plain-row',
                          'expected %s, got %s', [header] + rows, got)
                T.step(2)
                T.state('header', header, rows)
                T.outcome('wrong header')
        for nrows in (0, 1, 2):
            data = ','.join(names) + '\r\n' + ('1,2,3'[:2 * n - 1] +
                                               '\r\n') * nrows
            arc = csvmanager.MemArchive([('p__Rec%d.csv' % n, data)])
            got = list(csvmanager.CSVManager(arc, 'p').read(rt))
            check(map(list, got) == [['1', '2', '3'][:n]] * nrows, 'rows',
                  'read %s from %r', got, data)
            T.state('good', n, nrows)
            T.outcome('good header')
    T.trace()


def run_blocks(kind, header, n, T):
    """
    Several blocks written by the same manager: a file has the content of the
    last block which wrote it
    """
    choices = [(), (1,), (2,), (1, 2), (2, 1, 2)]
    if kind == 'zip':
        choices = choices[:4]
    for seq in itertools.product(choices, repeat=n):
        if kind == 'zip' and any(set(a) & set(b) for a, b in
                                 itertools.combinations(seq, 2)):
            continue  # a file can be written only once in a zip archive
        arc = mkarchive(kind)
        man = csvmanager.CSVManager(arc, 'pre', header)
        want = {}
        for i, block in enumerate(seq):
            with man:
                for t in set(block):
                    want[t] = []
                for k, t in enumerate(block):
                    row = ['%d.%d' % (i, k)] * t
                    man.write(TYPES[t](*row))
                    want[t].append(row)
            for reader in (man, csvmanager.CSVManager(arc, 'pre', header)):
                for t in (1, 2):
                    try:
                        got = [list(rec) for rec in reader.read(TYPES[t])]
                    except csvmanager.NotInArchive:
                        got = None
                    check(got == want.get(t), 'blocks', '%s: after %s read '
                          '%s instead of %s', kind, seq[:i + 1], got,
                          want.get(t))
                    T.step()
        T.state('blocks', kind, header, seq)
        T.trace()
        arc.close()
        if kind == 'zip':
            arc.zip.close()
    T.outcome('blocks')


def run(case, T):
    kind = case[0]
    if kind == 'blocks':
        return run_blocks(case[1], case[2], case[3], T)
    elif kind == 'large':
        for header in (True, False):
            roundtrip(case[1], header, 2, [
                [str(i), ',%d"\n' % i] for i in range(3000)], T)
            roundtrip(case[1], header, 2, [['x' * 100000, '",' * 50000]], T)
        return
    if kind == 'headers':
        return run_headers(T)
    elif kind == 'rows':
        for header in (True, False):
            for n in (1, 2, 3):
                rows = [[v] * n for v in ('', 'a', 'x,"\n')]
                rows.append(NAMES[:n])  # like the header
                for k in range(5 if case[1] == 'mem' else 4):
                    for seq in itertools.product(rows, repeat=k):
                        roundtrip(case[1], header, n, list(seq), T)
    elif kind == 'cells':
        for cell in case[3]:
            roundtrip(case[1], case[2], 1, [[cell]], T)
            if case[1] == 'mem':
                roundtrip(case[1], case[2], 2, [[cell, 'z'], ['z', cell]], T)
                roundtrip(case[1], case[2], 1, [[cell], ['z'], [cell]], T)
    elif kind == 'pairs':
        for b in texts(1):
            roundtrip(case[1], case[2], 2, [[case[3], b], [b, case[3]]], T)
    elif kind == 'triples':
        for c in texts(1):
            a, b = case[3:]
            roundtrip(case[1], case[2], 3, [[a, b, c], [c, a, b]], T)
