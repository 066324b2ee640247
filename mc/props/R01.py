"""
Histories of operations on a table with a primary key and a second unique
constraint: every table reachable with at most 3 records (over 3 ids x 3
positions, built by insertions) followed by every sequence of 2 operations
out of an alphabet of insertions, replacements, deletions, pops, removals,
extensions, reversals and insertions of records which are already in the
table (the same objects) with positions in and out of range (and every
sequence of 3 operations from the empty table, over a smaller alphabet).
After each operation the whole table and all the key lookups are compared
with a reference model (a list of distinct records). Then, for seven record
types (subtypes inheriting and adding constraints, created before and after
tables of the base type, with one to three overlapping constraints), every
sequence of 3 (thorough: 4) insertions, replacements and deletions over rows
containing empty and similar texts.
"""
import itertools
from mclib import Violation, check, fail, seqs
from openquake.commonlib import record

QUICK_SHARDS = 4


class Loc(record.Record):
    pkey = record.Unique('id')
    place = record.Unique('lon', 'lat')
    id = record.Field(str)
    lon = record.Field(float)
    lat = record.Field(float)
    note = record.Field(str)


# three fields; types with different constraints and their keys (positions)
class Base(record.Record):
    pkey = record.Unique('a')
    a = record.Field(str)
    b = record.Field(str)
    c = record.Field(str)


class Sub(Base):
    pass


class More(Base):
    other = record.Unique('b')


class Twice(More):
    last = record.Unique('c', 'b')


class Override(More):
    pkey = record.Unique('b', 'a')
    other = record.Unique('c')


class Wide(record.Record):
    pkey = record.Unique('c', 'a', 'b')
    a = record.Field(str)
    b = record.Field(str)
    c = record.Field(str)


class Overlap(record.Record):
    pkey = record.Unique('a', 'b')
    two = record.Unique('b', 'c')
    three = record.Unique('c', 'a')
    a = record.Field(str)
    b = record.Field(str)
    c = record.Field(str)

KEYS = [(Base, [(0,)]), (Sub, [(0,)]), (More, [(0,), (1,)]),
        (Twice, [(0,), (1,), (2, 1)]), (Override, [(1, 0), (2,)]),
        (Wide, [(2, 0, 1)]), (Overlap, [(0, 1), (1, 2), (2, 0)])]
ROWS = [['', '', ''], ['', 'x', ''], ['x', '', ''], ['x', 'x', ''],
        ['', '', 'x'], ['x ', '', 'x'], ['x', 'x', 'x']]


def clashes(keys, rows, row, skip=None):
    return any([r[k] for k in key] == [row[k] for k in key]
               for key in keys for i, r in enumerate(rows) if i != skip)


def run_types(n, first, T):
    """
    All the sequences of n operations: the one with index `first` on the
    empty tables, and then all the others
    """
    ops = [('append', r) for r in ROWS] + [
        ('set', i, r) for i in (0, 1) for r in ROWS] + [
            ('del', 0), ('del', 1)]
    for rt, keys in KEYS:
        # the tables of the other types are in use
        used = [record.Table(t, [t('x', 'y', 'z')]) for t, _ in KEYS]
        for tail in itertools.product(ops, repeat=n - 1):
            history = [ops[first]] + list(tail)
            t = record.Table(rt, [])
            rows = []
            for op in history:
                where = '%s %s after %s' % (rt.__name__, history, rows)
                if op[0] == 'append':
                    if clashes(keys, rows, op[1]):
                        expect(KeyError, lambda: t.append(rt(*op[1])))
                    else:
                        t.append(rt(*op[1]))
                        rows.append(op[1])
                elif op[1] >= len(rows):
                    break
                elif op[0] == 'del':
                    del t[op[1]]
                    del rows[op[1]]
                elif clashes(keys, rows, op[2], op[1]):
                    expect(KeyError, lambda: t.__setitem__(
                        op[1], rt(*op[2])))
                else:
                    t[op[1]] = rt(*op[2])
                    rows[op[1]] = op[2]
                got = [list(r.row) for r in t]
                check(got == rows, 'types', '%s: contains %s, expected %s',
                      where, got, rows)
                for row in ROWS:
                    pkey = [row[k] for k in keys[0]]
                    want = [r for r in rows
                            if [r[k] for k in keys[0]] == pkey]
                    try:
                        found = [list(t.getrecord(*pkey).row)]
                    except KeyError:
                        found = []
                    check(found == want, 'types-lookup', '%s: the key %s '
                          'gives %s, expected %s', where, pkey, found, want)
                T.step()
                T.state(rt.__name__, rows)
            T.trace()
        for (t, _), table in zip(KEYS, used):
            check([list(r.row) for r in table] == [['x', 'y', 'z']],
                  'sharing', 'another table changed')


def new(r):
    i, p = r
    return Loc(str(i), str(p // 2), str(p % 2), 'note')


class Model(object):
    """A list of records with distinct ids and distinct positions"""
    def __init__(self):
        self.recs = []

    def clash(self, rec, skip=None):
        bad = []
        for r in self.recs:
            if r is skip:
                continue
            if r.row[0] == rec.row[0]:
                bad.append('id=%s' % rec.row[0])
            if r.row[1:3] == rec.row[1:3]:
                bad.append('lon=%s,lat=%s' % tuple(rec.row[1:3]))
        return bad


def expect(kind, func):
    """Run func and return the exception if of the given kind"""
    try:
        func()
    except kind as e:
        return e
    except Exception as e:
        fail('wrong-error', 'expected %s, got %s: %s', kind.__name__,
             e.__class__.__name__, e)
    fail('no-error', 'expected %s, got no error', kind.__name__)


def check_dup(exc, clash, rec):
    msg = str(exc)
    check(any(c in msg for c in clash), 'error-message',
          'the error %r does not mention one of the duplicated keys %s',
          msg, clash)


def do_insert(t, m, pos, rec, how):
    clash = m.clash(rec)
    if clash:
        check_dup(expect(KeyError, lambda: how(rec)), clash, rec)
        return 'dup'
    how(rec)
    m.recs.insert(pos, rec)
    return 'ok'


def apply_op(t, m, op):
    name = op[0]
    n = len(m.recs)
    if name == 'append':
        return do_insert(t, m, n, new(op[1]), t.append)
    elif name == 'insert':
        return do_insert(t, m, op[2], new(op[1]),
                         lambda rec: t.insert(op[2], rec))
    elif name in ('extend', 'iadd'):
        recs = [new(r) for r in op[1]]
        good = []
        clash = None
        for rec in recs:
            clash = m.clash(rec)
            if clash:
                break
            m.recs.append(rec)

        def ext():
            if name == 'extend':
                t.extend(recs)
            else:
                t2 = t
                t2 += recs
        if clash:
            check_dup(expect(KeyError, ext), clash, rec)
            return 'dup'
        ext()
        return 'ok'
    elif name == 'set':
        i, rec = op[2], new(op[1])

        def setitem():
            t[i] = rec
        if not -n <= i < n:
            expect(IndexError, setitem)
            return 'IndexError'
        clash = m.clash(rec, m.recs[i])
        if clash:
            check_dup(expect(KeyError, setitem), clash, rec)
            return 'dup'
        setitem()
        m.recs[i] = rec
        return 'ok'
    elif name == 'del':
        i = op[1]

        def delitem():
            del t[i]
        if not -n <= i < n:
            expect(IndexError, delitem)
            return 'IndexError'
        delitem()
        del m.recs[i]
        return 'ok'
    elif name == 'pop':
        args = op[1:]
        i = args[0] if args else -1
        if not -n <= i < n:
            expect(IndexError, lambda: t.pop(*args))
            return 'IndexError'
        r = t.pop(*args)
        check(r is m.recs[i], 'pop', 'pop returned the wrong record %s', r)
        del m.recs[i]
        return 'ok'
    elif name == 'remove':
        rec = new(op[1])
        idx = [i for i, r in enumerate(m.recs) if r.row == rec.row]
        if not idx:
            expect(ValueError, lambda: t.remove(rec))
            return 'ValueError'
        t.remove(rec)
        del m.recs[idx[0]]
        return 'ok'
    elif name == 'again':  # append a record which is already there
        if not op[1] < n:
            return 'IndexError'
        return do_insert(t, m, n, m.recs[op[1]], t.append)
    elif name == 'assign':  # one which is already there, maybe in the place
        i, j = op[1:]
        if not max(i, j) < n:
            return 'IndexError'
        rec = m.recs[j]

        def assign():
            t[i] = rec
        if i == j:
            assign()
            return 'ok'
        check_dup(expect(KeyError, assign), m.clash(rec, m.recs[i]), rec)
        return 'dup'
    elif name == 'reverse':
        t.reverse()
        m.recs.reverse()
        return 'ok'
    raise AssertionError(name)


def observe(t, m, ids):
    n = len(m.recs)
    check(len(t) == n, 'length', 'len(table)=%d, expected %d', len(t), n)
    content = list(t)
    check(len(content) == n and all(
        a is b for a, b in zip(content, m.recs)), 'content',
        'the table contains %s, expected %s', [r.row for r in content],
        [r.row for r in m.recs])
    for i in ids:
        key = str(i)
        found = [r for r in m.recs if r.row[0] == key]
        try:
            got = t.getrecord(key)
        except KeyError:
            got = None
        want = found[0] if found else None
        check(got is want, 'lookup', 'the key %s gives %s, expected %s',
              key, got and got.row, want and want.row)
    for i in range(n):
        check(t[i] is m.recs[i] and t[i - n] is m.recs[i], 'getitem',
              'wrong record at index %d', i)
    return tuple(tuple(r.row[:3]) for r in m.recs)


def run_history(history, T, ids):
    t = record.Table(Loc, [])
    other = record.Table(Loc, [])
    m = Model()
    done = []
    for op in history:
        done.append(op)
        try:
            out = apply_op(t, m, op)
            st = observe(t, m, ids)
        except Violation as e:
            raise Violation(e.key, '%s\nhistory: %s' % (e.msg, done))
        T.step()
        T.outcome('%s:%s' % (op[0], out))
        T.state(st)
    # a different table of the same type is not affected
    check(len(other) == 0, 'sharing', 'the tables share their content')
    for r in m.recs:
        other.append(r)
    check(list(other) == m.recs, 'sharing', 'the tables share their content')
    T.trace()


def run_init(rows, T):
    """Create a table from a sequence of records"""
    m = Model()
    recs = [new(r) for r in rows]
    clash = None
    for rec in recs:
        clash = m.clash(rec)
        if clash:
            break
        m.recs.append(rec)
    if clash:
        check_dup(expect(KeyError, lambda: record.Table(Loc, recs)),
                  clash, rec)
        T.outcome('init:dup')
    else:
        T.state(observe(record.Table(Loc, iter(recs)), m, (1, 2, 3, 4)))
        T.outcome('init:ok')
    T.step()
    T.trace()


def alphabet(recs, positions, bulk):
    ops = [['append', r] for r in recs]
    ops += [['insert', r, p] for r in recs for p in positions if p != 99]
    ops += [['set', r, p] for r in recs for p in positions]
    ops += [['del', p] for p in positions]
    ops += [['pop'], ['pop', 0], ['pop', 1]]
    ops += [['remove', r] for r in recs]
    ops += [['extend', b] for b in bulk]
    ops += [['iadd', b] for b in bulk[:2]]
    ops += [['again', 0], ['again', 1]]
    ops += [['assign', 0, 0], ['assign', 0, 1], ['assign', 1, 0]]
    ops += [['reverse']]
    return ops


def starts(ids, places, maxlen):
    for n in range(maxlen + 1):
        for ii in itertools.permutations(ids, n):
            for pp in itertools.permutations(places, n):
                yield [['append', [i, p]] for i, p in zip(ii, pp)]

BULK = [[[1, 0], [2, 1]], [[1, 0], [1, 1]], [[3, 2], [2, 2]], []]


def config(tier, which):
    if which == 'deep':  # sequences of 3 operations from the empty table
        recs = [[1, 0], [1, 1], [2, 0], [2, 1]]
        return recs, alphabet(recs, [0, 1, -1], BULK[:2])
    if tier == 'quick':
        recs = [[1, 0], [1, 1], [2, 0], [2, 1], [3, 2]]
        return recs, alphabet(recs, [0, 1, -1, -5, 7], BULK)
    recs = [[i, p] for i in (1, 2, 3) for p in (0, 1, 2)]
    return recs, alphabet(recs, [0, 1, 2, 3, -1, -2, -5, 7], BULK)


def cases(tier):
    yield dict(init=True, n=3 if tier == 'quick' else 4)
    for first in range(3 * len(ROWS) + 2):
        yield dict(types=3 if tier == 'quick' else 4, first=first)
    if tier == 'quick':
        pre = list(starts((1, 2), (0, 1), 2)) + list(
            s + [['append', [3, 2]]] for s in starts((1, 2), (0, 1), 2))
    else:
        pre = list(starts((1, 2, 3), (0, 1, 2), 3))
    recs, ops = config(tier, 'wide')
    for start in pre:
        for op in ops:
            yield dict(start=start + [op], tier=tier, which='wide', depth=1)
    recs, ops = config(tier, 'deep')
    for op in ops:
        for op2 in ops:
            if tier == 'quick':
                yield dict(start=[op, op2], tier=tier, which='deep', depth=1)
            else:
                yield dict(start=[op, op2], tier=tier, which='deep', depth=2)


def run(case, T):
    if 'types' in case:
        return run_types(case['types'], case['first'], T)
    if 'init' in case:
        for rows in seqs([[i, p] for i in (1, 2, 3) for p in (0, 1, 2)],
                         case['n']):
            run_init(rows, T)
        return
    recs, ops = config(case['tier'], case['which'])
    for tail in itertools.product(ops, repeat=case['depth']):
        run_history(case['start'] + list(tail), T, (1, 2, 3, 4))
