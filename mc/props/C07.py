"""
For each of the five kinds of models, all the single changes of its CSV files
and all the pairs of changes over a smaller alphabet (thorough: all the triples
over it, all the pairs with one change of the larger alphabet) out of: each cell of a key replaced by the one of any other row, by
a new text, by an empty one or by a similar one (with a blank, different
case, same number); each row repeated, moved or removed; files without rows or
missing; wrong headers, rows with more or fewer cells. The tables read from
the archive are compared with the reference: all the rows in order, or an
error of the right kind if some key is repeated or refers to nothing.
"""
import itertools
from mclib import check, fail
from csvgen import GROUPS, csvtext
from openquake.nrmllib import InvalidFile
from openquake.commonlib import csvmanager, records, record

QUICK_SHARDS = 4
# record type -> positions of the unique columns
UNIQUE = dict(
    DiscreteVulnerabilitySet=[[0]], DiscreteVulnerability=[[0, 1]],
    DiscreteVulnerabilityData=[[0, 1, 2]], FragilityDiscrete=[[0]],
    FFLimitStateDiscrete=[[0]], FFSetDiscrete=[[0]],
    FFDataDiscrete=[[0, 1, 2]], FragilityContinuous=[[0]],
    FFLimitStateContinuous=[[0]], FFSetContinuous=[[0]],
    FFDataContinuous=[[0, 1, 2]], Location=[[0], [1, 2]], Exposure=[[0]],
    CostType=[[0]], Asset=[[1]], Occupancy=[[0, 1]], Cost=[[0, 1]],
    GmfCollection=[[0, 1]], GmfSet=[[0]], Gmf=[[0, 1, 2]],
    GmfData=[[0, 1, 2, 3, 4]])
# record type -> (columns, position of the parent file, its columns)
FOREIGN = dict(DiscreteVulnerability=([0], 0, [0]),
               DiscreteVulnerabilityData=([0, 1], 1, [0, 1]))
WRONG, LONG, MISSING = 'wrong header', 'long row', 'missing file'


def key_columns(rectype):
    cols = set(c for key in UNIQUE[rectype] for c in key)
    return sorted(cols | set(FOREIGN.get(rectype, [[]])[0]))


def changes(group, few=False):
    """All the changes of a group of files"""
    for f, (rectype, rows) in enumerate(group):
        n = len(rows)
        width = len(rows[0])
        for r in range(n):
            for c in key_columns(rectype):
                old = rows[r][c]
                texts = set(row[c] for row in rows) - set([old])
                texts = sorted(texts)[:1] if few else sorted(texts)
                texts += ['new'] if few else [
                    'new', '', old + ' ', old.swapcase(), '0' + old]
                for text in texts:
                    if text != old:
                        yield ['cell', f, r, c, text]
            yield ['repeat', f, r, n]
            if not few:
                yield ['repeat', f, r, 0]
                yield ['short', f, r]
            yield ['remove', f, r]
            yield ['long', f, r]
        for r in range(n - 1):
            yield ['move', f, r]
        yield ['empty', f]
        yield ['missing', f]
        if not few:
            yield ['header', f, 0]
            yield ['header', f, width - 1]


def cases(tier):
    for name in sorted(GROUPS):
        few = list(changes(GROUPS[name], True))
        yield [name, 'single', []]
        for i in range(len(few)):
            yield [name, 'few', [i]]
        for i in range(len(list(changes(GROUPS[name])))):
            if tier != 'quick':
                yield [name, 'all', [i]]
        if tier != 'quick':
            for i, j in itertools.combinations(range(len(few)), 2):
                yield [name, 'few', [i, j]]


def apply_change(files, change):
    """files: list of [rectype, header, rows] or None"""
    kind, f = change[:2]
    rectype, header, rows = files[f]
    if header == MISSING:
        return
    if kind == 'missing':
        files[f][1] = MISSING
    elif kind == 'empty':
        del rows[:]
    elif kind == 'header':
        header[change[2]] += 'x'
    elif change[2] >= len(rows):
        return
    elif kind == 'cell':
        _, _, r, c, text = change
        if c < len(rows[r]):
            rows[r][c] = text
    elif kind == 'repeat':
        _, _, r, pos = change
        rows.insert(pos, list(rows[r]))
    elif kind == 'remove':
        del rows[change[2]]
    elif kind == 'move':
        rows.append(rows.pop(change[2]))
    elif kind == 'long':
        rows[change[2]].append('x')
    elif kind == 'short':
        rows[change[2]].pop()


def reference(files):
    """The expected tables and the possible errors with their texts"""
    tables, errors = [], []
    for rectype, header, rows in files:
        names = getattr(records, rectype).fieldnames
        table = []
        if header == MISSING:
            tables.append((rectype, table))
            continue
        if header != names:
            errors.append((InvalidFile, '__%s.csv' % rectype))
        for row in rows:
            if len(row) > len(names):
                errors.append((TypeError, ''))
            row = row[:len(names)] + [''] * (len(names) - len(row))
            if rectype in FOREIGN:
                cols, f, pcols = FOREIGN[rectype]
                key = [row[c] for c in cols]
                parent, prows = tables[f]
                if key not in [[p[c] for c in pcols] for p in prows]:
                    errors.append((record.ForeignKeyError,
                                   'table %s ' % parent))
            for cols in UNIQUE[rectype]:
                key = [row[c] for c in cols]
                if key in [[t[c] for c in cols] for t in table]:
                    errors.append((KeyError, rectype + ':'))
            table.append(row)
        tables.append((rectype, table))
    return tables, errors


def content(arc):
    res = {}
    for name in arc.extract_filenames():
        with arc.open(name) as f:
            res[name] = f.read()
    return res


def attempt(what, errors, func, *args):
    """Call the function, which can only give one of the given errors"""
    try:
        res = func(*args)
    except Exception as e:
        check(any(type(e) is cls and text in str(e) for cls, text in errors),
              'error', '%s: the error is %s: %s instead of one of %s', what,
              e.__class__.__name__, e, errors)
        return
    check(not errors, 'accepted', '%s: accepted with the errors %s', what,
          errors)
    return res


def verify(T, name, seq):
    files = [[rectype, list(getattr(records, rectype).fieldnames),
              [list(row) for row in rows]] for rectype, rows in GROUPS[name]]
    for change in seq:
        apply_change(files, change)
    tables, errors = reference(files)
    items = []
    for rectype, header, rows in files:
        if header != MISSING:
            text = csvtext(rectype, [header] + rows, False)
            items.append(('m__%s.csv' % rectype, text))
    what = '%s with the changes %s' % (name, seq)
    arc = csvmanager.MemArchive(items)
    man = csvmanager.CSVManager(arc, 'm')
    T.step()
    if not items:
        attempt(what, [(csvmanager.NotInArchive, '')], man.get_tableset)
        return
    tset = attempt(what, errors, man.get_tableset)
    T.state(name, tables)
    if errors:
        # there is no conversion either
        arc.add('m.xml', 'previous')
        before = content(arc)
        for func in (man.convert_to_node, man.convert_to_nrml):
            attempt(what, errors, func)
        check(content(arc) == before, 'touched', '%s: the files after the '
              'error are\n%s\ninstead of\n%s', what, content(arc), before)
        T.outcome(errors[0][0].__name__)
        return
    got = [(t.recordtype.__name__, map(list, t)) for t in tset.tables]
    check(sorted(got) == sorted(tables), 'tables', '%s: got the tables %s instead of %s',
          what, got, tables)
    for rectype, rows in tables:  # the keys can be found
        for row in rows:
            rec = getattr(tset, 'table' + rectype).getrecord(
                *[row[c] for c in UNIQUE[rectype][0]])
            check(list(rec) == row, 'getrecord', '%s: found %s instead of '
                  '%s', what, rec, row)
    T.outcome('loaded')


def run(case, T):
    """Apply the given changes and each of the others, or each pair"""
    name, kind, idxs = case
    few = list(changes(GROUPS[name], True))
    if kind == 'single':
        verify(T, name, [])
        for change in changes(GROUPS[name]):
            verify(T, name, [change])
    elif kind == 'few':
        seq = [few[i] for i in idxs]
        for other in few[idxs[-1] + 1:]:
            verify(T, name, seq + [other])
    else:
        seq = [list(changes(GROUPS[name]))[i] for i in idxs]
        for other in few:
            verify(T, name, seq + [other])
    T.trace()
