"""
Histories of insertions (one by one and in bulk), deletions and replacements
on a set of five tables related by foreign keys (to primary keys, to a
secondary unique key and to two tables at once): all the sequences up to
depth 4 (quick) or 5 (thorough). After each operation the content of all the
tables is compared with a relational reference model: an insertion succeeds
if and only if every referenced record is present at that moment and no
unique key is duplicated, and otherwise it changes nothing. Then all the
sets of owners and pairs of houses with empty or similar keys, in a set of
tables with a subtype inheriting the foreign key.
"""
import itertools
from mclib import Violation, check, fail
from openquake.commonlib import record

QUICK_SHARDS = 4


class Owner(record.Record):
    pkey = record.Unique('id')
    code = record.Unique('name')
    id = record.Field(str)
    name = record.Field(str)


class House(record.Record):
    pkey = record.Unique('owner', 'number')
    fkey = record.ForeignKey(Owner.pkey, 'owner')
    owner = record.Field(str)
    number = record.Field(str)


class Room(record.Record):
    pkey = record.Unique('owner', 'number', 'room')
    fkey1 = record.ForeignKey(House.pkey, 'owner', 'number')
    fkey2 = record.ForeignKey(Owner.code, 'guest')
    owner = record.Field(str)
    number = record.Field(str)
    room = record.Field(str)
    guest = record.Field(str)


class Cottage(House):
    """Inherits the keys"""
    roof = record.Field(str)


class Tag(record.Record):
    pkey = record.Unique('text')
    fkey = record.ForeignKey(Cottage.pkey, 'x', 'y')
    text = record.Field(str)
    x = record.Field(str)
    y = record.Field(str)


class Note(record.Record):
    pkey = record.Unique('text')
    text = record.Field(str)


class Memo(record.Record):
    """The values of its foreign key look like the ones of the houses"""
    pkey = record.Unique('text', 'name')
    fkey = record.ForeignKey(Note.pkey, 'text')
    text = record.Field(str)
    name = record.Field(str)


class Estate(object):
    """A converter type"""
    @classmethod
    def recordtypes(cls):
        return [Owner, House, Note, Room, Memo]


class Village(object):
    @classmethod
    def recordtypes(cls):
        return [Owner, House, Cottage, Tag]

VALUES = ['', 'a', 'A', ' a']


def run_values(first, T):
    """
    Insertions of records with empty or similar keys and of a subtype, for
    all the owners and all the houses
    """
    for rest in itertools.product((False, True), repeat=len(VALUES) - 1):
        owners = [v for v, ok in zip(VALUES, (first,) + rest) if ok]
        for parents in itertools.product(VALUES, repeat=2):
            ts = record.TableSet(Village)
            ts.insert_all([Owner(v, 'n' + v) for v in owners])
            houses, cottages, tags = [], [], []
            for v in parents:
                for rt, rows, rec in (
                        (House, houses, House(v, 'a')),
                        (Cottage, cottages, Cottage(v, '', 'red'))):
                    key = (v, rec[1])
                    if v not in owners:
                        errors = ['ForeignKeyError']
                    elif key in rows:
                        errors = ['KeyError']
                    else:
                        errors = []
                        rows.append(key)
                    attempt(errors, lambda: ts.insert(rec))
                    T.step()
            for key in itertools.product(VALUES, ('', 'a')):
                errors = [] if key in cottages else ['ForeignKeyError']
                attempt(errors, lambda: ts.insert(Tag(repr(key), *key)))
                if not errors:
                    tags.append(key)
                T.step()
            got = [[tuple(r.row[:2]) for r in t] for t in ts.tables[1:3]] + [
                [tuple(r.row[1:]) for r in ts.tables[3]]]
            check(got == [houses, cottages, tags], 'values',
                  'owners %s: the tables contain %s, expected %s', owners,
                  got, [houses, cottages, tags])
            T.state(owners, parents)
            T.outcome('values')
            T.trace()

TYPES = [Owner, House, Note, Room, Memo]
UNIQUE = {'Owner': [(0,), (1,)], 'House': [(0, 1)], 'Note': [(0,)],
          'Room': [(0, 1, 2)], 'Memo': [(0, 1)]}
# (columns, target table, target columns)
FKEYS = {'Owner': [], 'Note': [], 'Memo': [((0,), 'Note', (0,))],
         'House': [((0,), 'Owner', (0,))],
         'Room': [((0, 1), 'House', (0, 1)), ((3,), 'Owner', (1,))]}


def key(row, cols):
    return tuple(row[c] for c in cols)


class Model(object):
    def __init__(self):
        self.rows = dict((rt.__name__, []) for rt in TYPES)

    def verdict(self, name, row):
        for cols, target, tcols in FKEYS[name]:
            if key(row, cols) not in [key(r, tcols)
                                      for r in self.rows[target]]:
                yield 'ForeignKeyError'
                break
        if self.dup(name, row):
            yield 'KeyError'

    def dup(self, name, row, skip=None):
        for cols in UNIQUE[name]:
            for i, r in enumerate(self.rows[name]):
                if i != skip and key(r, cols) == key(row, cols):
                    return True
        return False


def table(ts, name):
    return ts.tables[[rt.__name__ for rt in TYPES].index(name)]


def mk(name, row):
    return dict((rt.__name__, rt) for rt in TYPES)[name](*row)

ERR = {'ForeignKeyError': record.ForeignKeyError, 'KeyError': KeyError}


def attempt(errors, func):
    """Run func, which must raise one of the given errors, if any"""
    try:
        func()
    except Exception as e:
        check(any(isinstance(e, ERR[n]) for n in errors), 'wrong-error',
              'got %s(%s), expected %s', e.__class__.__name__, e,
              errors or 'no error')
        return e.__class__.__name__
    check(not errors, 'no-error', 'got no error, expected %s', errors)
    return 'ok'


def apply_op(ts, m, op):
    kind = op[0]
    if kind == 'ins':
        name, row = op[1:]
        errors = list(m.verdict(name, row))
        if not errors:
            m.rows[name].append(row)
        return attempt(errors, lambda: ts.insert(mk(name, row)))
    elif kind == 'all':
        errors = []
        for name, row in op[1]:
            errors = list(m.verdict(name, row))
            if errors:
                break
            m.rows[name].append(row)
        recs = [mk(name, row) for name, row in op[1]]
        return attempt(errors, lambda: ts.insert_all(iter(recs)))
    elif kind == 'del':
        name, i = op[1:]
        if i >= len(m.rows[name]):
            return 'skip'
        del m.rows[name][i]
        del table(ts, name)[i]
        return 'ok'
    elif kind == 'set':
        name, i, row = op[1:]
        if i >= len(m.rows[name]):
            return 'skip'
        t = table(ts, name)
        errors = ['KeyError'] if m.dup(name, row, i) else []
        if not errors:
            m.rows[name][i] = row

        def setitem():
            t[i] = mk(name, row)
        return attempt(errors, setitem)
    raise AssertionError(kind)


def observe(ts, m):
    check(len(ts) == len(TYPES), 'tables', 'wrong number of tables')
    state = []
    for rt in TYPES:
        name = rt.__name__
        t = table(ts, name)
        got = [list(r.row) for r in t]
        check(got == m.rows[name], 'content',
              'the table %s contains %s, expected %s', name, got,
              m.rows[name])
        check(getattr(ts, 'table' + name) is t, 'attribute',
              'wrong attribute table%s', name)
        state.append(got)
    nonempty = [t.recordtype.__name__ for t in ts]
    want = [rt.__name__ for rt in TYPES if m.rows[rt.__name__]]
    check(nonempty == want, 'iteration', 'the nonempty tables are %s, '
          'expected %s', nonempty, want)
    return state

P1, P2 = ['1', 'ann'], ['2', 'bob']
OPS = [
    ['ins', 'Owner', P1],
    ['ins', 'Owner', P2],
    ['ins', 'Owner', ['3', 'ann']],
    ['ins', 'House', ['1', 'A']],
    ['ins', 'House', ['2', 'A']],
    ['ins', 'Room', ['1', 'A', 'x', 'ann']],
    ['ins', 'Room', ['1', 'A', 'x', 'bob']],
    ['ins', 'Room', ['2', 'A', 'x', 'ann']],
    ['ins', 'Note', ['1']],
    ['del', 'Owner', 0],
    ['del', 'Owner', 1],
    ['del', 'House', 0],
    ['del', 'Room', 0],
    ['set', 'Owner', 0, ['2', 'ann']],
    ['set', 'Owner', 0, ['1', 'bob']],
    ['set', 'House', 0, ['1', 'B']],
    ['all', [['Owner', P1], ['House', ['1', 'A']],
             ['Room', ['1', 'A', 'y', 'ann']]]],
    ['all', [['House', ['2', 'A']], ['Owner', P2]]],
    ['all', [['House', ['1', 'C']], ['Memo', ['1', 'C']]]],
    ['all', [['Owner', P2], ['Owner', P2], ['House', ['2', 'B']]]],
]


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    n = len(OPS)
    for i, j in itertools.product(range(n), range(n)):
        yield dict(prefix=[i, j], depth=depth - 2)
    yield dict(prefix=[], depth=1)
    for first in (False, True):
        yield dict(values=first)


def run(case, T):
    if 'values' in case:
        return run_values(case['values'], T)
    tails = itertools.product(range(len(OPS)), repeat=case['depth'])
    for tail in tails:
        history = case['prefix'] + list(tail)
        ts = record.TableSet(Estate)
        m = Model()
        for pos, k in enumerate(history):
            try:
                out = apply_op(ts, m, OPS[k])
                if out == 'skip':
                    break
                st = observe(ts, m)
            except Violation as e:
                raise Violation(e.key, '%s\nhistory: %s' % (
                    e.msg, [OPS[h] for h in history[:pos + 1]]))
            T.step()
            T.outcome('%s:%s' % (OPS[k][0], out))
            T.state(st)
        T.trace()
