"""
For each of the five kinds of models: every field of every file replaced by
every listed invalid text, in every row; all the pairs of such replacements
(quick: with one invalid text per field); up to 2^6 patterns of invalid rows
of a file with 6 rows; missing optional files; with header; for each search
limit from 0 to the number of errors plus one and without limit; with two
models in the same archive.
"""
import itertools
from mclib import check
from csvgen import GROUPS, INVALID, csvfiles
from openquake.commonlib import csvmanager, records

QUICK_SHARDS = 4


def spots(group, few=False):
    """All the positions which can be made invalid"""
    for i, (rectype, rows) in enumerate(group):
        names = getattr(records, rectype).fieldnames
        for r in range(len(rows)):
            for c, name in enumerate(names):
                bad = INVALID[rectype].get(name, [])
                for text in bad[:1] if few else bad:
                    yield [i, r, c, text]


def cases(tier):
    for name in sorted(GROUPS):
        group = GROUPS[name]
        yield [name, []]
        for s in spots(group):
            yield [name, [s]]
        few = list(spots(group, True))
        for pair in itertools.combinations(few, 2):
            if pair[0][:3] != pair[1][:3]:
                yield [name, list(pair)]
        if tier == 'thorough':
            for pair in itertools.product(spots(group), few):
                if pair[0][:3] < pair[1][:3]:
                    yield [name, list(pair)]
            for triple in itertools.combinations(few[::2], 3):
                yield [name, list(triple)]
    for mask in itertools.product(range(4), repeat=4 if tier == 'quick'
                                  else 6):
        yield ['mask', list(mask)]
    yield ['two', []]


def run(case, T):
    name, changes = case
    if name == 'mask':
        return run_mask(changes, T)
    if name == 'two':
        return run_two(T)
    group = [(rt, [list(row) for row in rows]) for rt, rows in GROUPS[name]]
    bad = {}
    for i, r, c, text in changes:
        group[i][1][r][c] = text
        bad.setdefault((i, r), []).append(c)
    verify(group, bad, T)


def verify(group, bad, T, prefix='pre', others=()):
    archive = csvmanager.MemArchive(
        csvfiles(group, prefix) + list(others))
    want = []
    for i, r in sorted(bad):
        rt = group[i][0]
        names = getattr(records, rt).fieldnames
        want.append(('%s__%s.csv' % (prefix, rt), r, group[i][1][r],
                     sorted(set(names[c] for c in bad[i, r])), names))
    for limit in [None] + range(len(want) + 2):
        found = csvmanager.CSVManager(archive).find_invalid(limit)
        got = [(e.fname, e.rowno, list(e.record),
                sorted(f for f, _ in e.errorlist)) for e in found]
        number = len(want) if limit is None else min(limit, len(want))
        check(len(got) == number, 'number',
              'limit=%s: found %s, expected %d of %s', limit, got, number,
              want)
        # in each file the errors are found in the order of the rows
        expected = []
        for fname in set(w[0] for w in want):
            n = len([g for g in got if g[0] == fname])
            expected.extend([w for w in want if w[0] == fname][:n])
        check(sorted(got) == sorted(w[:4] for w in expected) and
              [g for g in got if g[0] == got[0][0]] ==
              sorted(g for g in got if g[0] == got[0][0]), 'found',
              'limit=%s: found %s, expected %s', limit, got, expected)
        where = dict(((w[0], w[1]), w) for w in want)
        expected = [where[g[:2]] for g in got]
        for exc, w in zip(found, expected):
            lines = str(exc).splitlines()
            check(len(lines) == len(w[3]), 'lines', 'got %s', lines)
            for line, (field, msg) in zip(lines, exc.errorlist):
                check(line == '%s[%s]: %d,%d: %s' % (
                    w[0], field, w[1], w[4].index(field), msg), 'message',
                    'unexpected message %r', line)
        T.step()
    T.state(sorted(bad.items()), [g[0] for g in group])
    T.outcome('%d invalid' % len(want))
    T.trace()


def run_mask(mask, T):
    """Rows of Location with zero to three errors"""
    rows = []
    bad = {}
    for i, m in enumerate(mask):
        rows.append([[str(i + 1), '0', '0'], [str(i + 1), '200', str(i)],
                     [str(i + 1), '200', 'x'], ['', '', '']][m])
        if m:
            bad[0, i] = [[1], [1, 2], [0, 1, 2]][m - 1]
    verify([('Location', rows)], bad, T)


def run_two(T):
    """Two models in the same archive: all the errors are found"""
    arc = csvmanager.MemArchive(
        csvfiles([('Location', [['1', '200', '0'], ['2', '0', '0']])], 'a') +
        csvfiles([('Gmf', [['1', 'PGA', ''], ['x', 'pga', '']]),
                  ('GmfSet', [['x', 'x']])], 'b') +
        [('readme.txt', 'x'), ('c__Unknown.csv', 'x,y'),
         ('d__Location.txt', 'x')])
    found = csvmanager.CSVManager(arc).find_invalid()
    got = sorted((e.fname, e.rowno) for e in found)
    want = [('a__Location.csv', 0), ('b__Gmf.csv', 1), ('b__GmfSet.csv', 0)]
    check(got == want, 'two', 'got %s, expected %s', got, want)
    T.trace()
    T.step()
    T.outcome('two models')
    T.state('two')
