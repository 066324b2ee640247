"""
The sequence protocol of records and tables, over generated record types
with 1 to 3 (thorough: 4) fields, every pattern of field defaults, every
split of the arguments between positional and keyword, every sequence of up
to 3 assignments by index or by name of valid and invalid texts, every pair
of rows of different lengths for the comparisons, and every small class
hierarchy, also with two bases (inherited fields, keys, foreign keys,
constraints and defaults).
"""
import itertools
from mclib import check, fail, seqs
from openquake.commonlib import record, valid

QUICK_SHARDS = 2
NAMES = ['a', 'b', 'c', 'd']


def mktype(name, n, defaults=(), cast=int, bases=(record.Record,), **kw):
    dic = {}
    # fields are created in reverse alphabetic order: the order of definition
    # and not the alphabetic one counts
    fields = NAMES[:n][::-1]
    for f in fields:
        if f in defaults:
            dic[f] = record.Field(cast, default=defaults[f])
        else:
            dic[f] = record.Field(cast)
    dic['pkey'] = record.Unique(fields[0])
    dic.update(kw)
    return record.MetaRecord(name, bases, dic), fields


def raises(kind, func, *args, **kw):
    try:
        res = func(*args, **kw)
    except kind as e:
        return e
    except Exception as e:
        fail('wrong-error', 'expected %s, got %s: %s', kind,
             e.__class__.__name__, e)
    fail('no-error', 'expected %s, got %r', kind, res)


def run_init(case, T):
    n = case['n']
    values = ['1', '2', 'x', ''][:n]
    for defmask in itertools.product([None, '7', "o'k", '"%s'], repeat=n):
        defaults = dict((f, d) for f, d in zip(NAMES[:n][::-1], defmask)
                        if d is not None)
        rt, fields = mktype('Rec', n, defaults)
        check(rt.fieldnames == fields and len(rt) == n, 'fields',
              'the fields are %s, expected %s', rt.fieldnames, fields)
        for npos in range(n + 1):
            for kwmask in itertools.product([0, 1], repeat=n - npos):
                kw = dict((f, v) for f, v, m in zip(
                    fields[npos:], values[npos:], kwmask) if m)
                rec = rt(*values[:npos], **kw)
                want = values[:npos] + [kw.get(f, defaults.get(f, ''))
                                        for f in fields[npos:]]
                check(list(rec.row) == want and list(rec) == want, 'init',
                      'defaults %s, args %s, %s: got %s, expected %s',
                      defaults, values[:npos], kw, rec.row, want)
                check(len(rec) == n, 'len', 'wrong length %s', len(rec))
                for i, f in enumerate(fields):
                    check(rec[i] == want[i] and rec[f] == want[i] and
                          rec[i - n] == want[i], 'getitem',
                          'wrong field %s in %s', f, rec.row)
                raises(IndexError, lambda: rec[n])
                raises(KeyError, lambda: rec['zz'])
                check(str(rec) == ','.join(want), 'str', 'got %r', str(rec))
                other = rt(*values[:npos], **kw)
                check(other.row is not rec.row, 'sharing',
                      'the records share their content')
                T.step()
                T.state('init', defaults, npos, kw)
                T.outcome('init')
        raises(TypeError, rt, *(['1'] * (n + 1)))
        raises(TypeError, rt, zz='1')
        raises(TypeError, rt, '1', **{fields[0]: '1'})
        T.trace()


def run_set(case, T):
    n = 2
    rt, fields = mktype('Rec', n, {'a': '7'}, cast=valid.NoneOr(
        valid.positiveint))
    ops = [(i, v) for i in (0, 1, -1, 'a', 'b')
           for v in ('5', ' 5 ', '-5', 'x', '')]
    starts = [('1', '2'), ('-5', 'x')]  # possibly invalid since the beginning
    for start, seq in itertools.product(starts, itertools.product(
            ops, repeat=case['depth'])):
        rec = rt(*start)
        model = list(start)
        for i, v in (ops[case['first']],) + seq:
            idx = fields.index(i) if isinstance(i, str) else i
            if v in ('5', ' 5 ', ''):
                rec[i] = v
                model[idx] = v
                T.outcome('set ok')
            else:
                raises(ValueError, rec.__setitem__, i, v)
                T.outcome('set rejected')
            check(rec.row == model, 'setitem',
                  'after setting %r to %r: got %s, expected %s', i, v,
                  rec.row, model)
            T.step()
        for i in (2, 'zz'):
            raises((IndexError, KeyError), rec.__setitem__, i, '1')
            check(rec.row == model, 'setitem', 'changed to %s', rec.row)
        T.state('set', model)
        T.trace()


def run_eq(case, T):
    """Comparisons between sequences of any length"""
    types = [mktype('R%d' % n, n)[0] for n in range(1, 4)]
    types.append(mktype('S', 2)[0])
    rows = list(seqs(['1', '2'], 3))
    rows += [[',', ''], ['', ','], ['1,2', ''], ['1', '2,'], ['', ''],
             ['', '', ''], [',', '', ''], ['1,2'], ['1', ' 2'], [' 1', '2'],
             ['1', '2\n'], ['01', '2']]
    others_rows = rows + [[1], [1, 2], [None], [None, ''], [1., '2'],
                          ['1', None], [['1'], '2'], [True, '2']]
    for i, a in enumerate(rows):
        for rt in types:
            if len(rt) != len(a):
                continue
            rec = rt(*a)
            others = [('list', list), ('tuple', tuple)] + [
                (t.__name__, lambda b, t=t: t(*b)) for t in types]
            for b in others_rows:
                for name, conv in others:
                    if name[0] in 'RS' and len(
                            dict((t.__name__, t) for t in types)[name]
                    ) != len(b):
                        continue
                    other = conv(b)
                    want = a == b
                    got = (rec == other, rec != other)
                    check(got == (want, not want), 'eq',
                          'record %s and %s %s: (==, !=) is %s', a, name, b,
                          got)
                    T.step()
                    T.state('eq', a, name, b)
                    T.outcome('equal %s' % want)
            check(('1' in rec) == ('1' in a) and rec.count('2') ==
                  a.count('2') and list(reversed(rec)) == a[::-1],
                  'sequence', 'wrong sequence behaviour for %s', a)
            T.trace()
    # tables
    rt = types[0]
    tables = list(itertools.permutations('123', 0)) + list(
        itertools.permutations('123', 1)) + list(
        itertools.permutations('123', 2)) + list(
        itertools.permutations('123', 3))
    for a in tables:
        ta = record.Table(rt, [rt(x) for x in a])
        check(str(ta) == '\n'.join(a), 'str', 'got %r', str(ta))
        for b in tables:
            for other in (record.Table(rt, [rt(x) for x in b]),
                          [rt(x) for x in b], [[x] for x in b]):
                got = (ta == other, ta != other)
                check(got == (a == b, a != b), 'table-eq',
                      'tables %s and %s: (==, !=) is %s', a, b, got)
                T.step()
        T.trace()


def run_types(case, T):
    """Class hierarchies"""
    kind = case['kind2']
    if kind == 'reserved':
        for name in 'fields fieldnames _name2index _ntuple _ordinal'.split():
            raises(NameError, mktype, 'Bad', 2, **{name: 1})
            T.step()
        dic = dict(a=record.Field(str))
        raises(AttributeError, record.MetaRecord, 'NoKey', (record.Record,),
               dic)
        raises((AssertionError, TypeError), record.Unique, 'a', 'a')
        T.outcome('rejected types')
        T.trace()
        return

    if kind == 'mixins':
        return run_mixins(T)

    def check_positive(self):
        return self.a >= 0

    def check_small(self):
        return self.a < 10
    for own_key, own_constr, levels, extra in itertools.product(
            [False, True], [False, True], [1, 2], [0, 1]):
        class Target(record.Record):
            pkey = record.Unique('id')
            id = record.Field(str)

        class Base(record.Record):
            pkey = record.Unique('a')
            second = record.Unique('b')
            fkey = record.ForeignKey(Target.pkey, 'b')
            a = record.Field(int, default='4')
            b = record.Field(str)
            _constraints = [check_positive]
        rt = Base
        for lev in range(levels):
            dic = {}
            if extra and lev == levels - 1:
                dic['c'] = record.Field(int)
            if own_key and lev == levels - 1:
                dic['pkey'] = record.Unique('a', 'b')
            rt = record.MetaRecord('Sub%d' % lev, (rt,), dic)
        if own_constr:
            rt.add_check(check_small)
        names = ['a', 'b'] + (['c'] if extra else [])
        check(rt.fieldnames == names, 'inherited fields', 'got %s',
              rt.fieldnames)
        check(Base.fieldnames == ['a', 'b'], 'base fields',
              'the fields of the base changed to %s', Base.fieldnames)
        check(rt().row == ['4', ''] + ([''] if extra else []), 'defaults',
              'wrong defaults: %s', rt().row)
        # constraints
        for a in ('-1', '0', '10'):
            want = int(a) >= 0 and (not own_constr or int(a) < 10)
            rec = rt(a, 'x', *(['1'] if extra else []))
            check(rec.is_valid() == want, 'inherited constraints',
                  'is_valid is %s for a=%s in a record with bases', not want,
                  a)
            check(Base(a, 'x').is_valid() == (int(a) >= 0),
                  'base constraints', 'the base constraints changed')
            T.step()
        # keys
        t = record.Table(rt, [])
        tail = ['1'] if extra else []
        rows = [('1', 'x'), ('1', 'y'), ('2', 'x'), ('2', 'y')]
        for seq in itertools.permutations(rows, 3):
            t = record.Table(rt, [])
            done = []
            for row in seq:
                dup = any(r[1] == row[1] for r in done) or (
                    any(r[0] == row[0] for r in done) and not own_key)
                rec = rt(*(list(row) + tail))
                if dup:
                    raises(KeyError, t.append, rec)
                else:
                    t.append(rec)
                    done.append(row)
                T.step()
            check([tuple(r.row[:2]) for r in t] == done, 'inherited keys',
                  'the table contains %s, expected %s', [r.row for r in t], done)
            for row in rows:
                pkey = row if own_key else row[:1]
                found = [r for r in done if (r if own_key else r[:1]) == pkey]
                if found:
                    check(tuple(t.getrecord(*pkey).row[:2]) == found[0],
                          'inherited pkey', 'wrong record for %s', pkey)
                else:
                    raises(KeyError, t.getrecord, *pkey)

        # foreign keys
        class Conv(object):
            @classmethod
            def recordtypes(cls):
                return [Target, Base, rt]
        ts = record.TableSet(Conv)
        rec = rt(*(['1', 'x'] + tail))
        raises(record.ForeignKeyError, ts.insert, rec)
        raises(record.ForeignKeyError, ts.insert, Base('1', 'x'))
        ts.insert(Target('x'))
        ts.insert(rec)
        ts.insert(Base('1', 'x'))  # the tables are independent
        check([len(t) for t in ts.tables] == [1, 1, 1], 'inherited fkeys',
              'wrong tables')
        T.state('types', own_key, own_constr, levels, extra)
        T.outcome('hierarchy')
        T.trace()


def run_mixins(T):
    """Types with two bases, in all the orders of definition"""
    class Target(record.Record):
        pkey = record.Unique('id')
        id = record.Field(str)
    names = {'A': ['a1', 'a2'], 'B': ['b1', 'b2']}
    for order, bases, own, depth in itertools.product(
            ['AB', 'BA'], ['AB', 'BA'], [0, 1], [0, 1]):
        types = {}
        for n in order:
            f1, f2 = names[n]
            dic = {}
            dic[f1] = record.Field(int)
            dic[f2] = record.Field(str, default='d' + n)
            dic['pkey'] = record.Unique(f1)
            dic['other' + n] = record.Unique(f2)
            if n == 'B':
                dic['fkey'] = record.ForeignKey(Target.pkey, 'b2')
            dic['_constraints'] = [lambda self, f=f1: getattr(self, f) > 0]
            types[n] = record.MetaRecord(n, (record.Record,), dic)
        dic = {}
        if own:
            dic['c'] = record.Field(float)
        rt = record.MetaRecord('Mix', tuple(types[n] for n in bases), dic)
        if depth:
            rt = record.MetaRecord('Deep', (rt,), {})
        want = [f for n in order for f in names[n]] + ['c'] * own
        tail = ['1'] * own
        check(rt.fieldnames == want and len(rt) == len(want),
              'mixin fields', 'the fields are %s, expected %s',
              rt.fieldnames, want)

        def mk(a1, a2, b1, b2):
            return rt(a1=a1, a2=a2, b1=b1, b2=b2, **(
                {'c': '1'} if own else {}))
        row = dict(zip(want, rt().row))
        check(row == dict([('a1', ''), ('a2', 'dA'), ('b1', ''),
                           ('b2', 'dB')] + [('c', '')] * own),
              'mixin defaults', 'wrong defaults %s', row)
        for a1, b1 in itertools.product(['-1', '1', 'x'], repeat=2):
            got = mk(a1, 'p', b1, 'q').is_valid()
            check(got == (a1 == b1 == '1'), 'mixin constraints',
                  'is_valid is %s for a1=%s, b1=%s', got, a1, b1)
            T.step()
        rows = [('1', 'p', '1', 'q'), ('1', 'p2', '2', 'q2'),
                ('2', 'p', '3', 'q3'), ('3', 'p4', '1', 'q4'),
                ('4', 'p5', '4', 'q'), ('5', 'p6', '5', 'q6')]
        pkey = 0 if bases[0] == 'A' else 2
        for seq in itertools.permutations(rows, 3):
            t = record.Table(rt, [])
            done = []
            for r in seq:
                dup = any(r[i] == d[i] for d in done for i in (pkey, 1, 3))
                if dup:
                    raises(KeyError, t.append, mk(*r))
                else:
                    t.append(mk(*r))
                    done.append(r)
                T.step()
            got = [tuple(x[f] for f in ('a1', 'a2', 'b1', 'b2')) for x in t]
            check(got == done, 'mixin keys', 'got %s, expected %s', got, done)
            for r in done:
                rec = t.getrecord(r[pkey])
                check((rec['a1'], rec['b1']) == (r[0], r[2]), 'mixin pkey',
                      'wrong record %s', rec.row)

        class Conv(object):
            @classmethod
            def recordtypes(cls):
                return [Target, rt]
        ts = record.TableSet(Conv)
        raises(record.ForeignKeyError, ts.insert, mk(*rows[0]))
        ts.insert(Target('q'))
        ts.insert(mk(*rows[0]))
        check([len(t) for t in ts.tables] == [1, 1], 'mixin fkeys',
              'wrong tables')
        T.state('mixins', order, bases, own, depth)
        T.outcome('mixins')
        T.trace()


def cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        yield dict(kind='init', n=n)
    for first in range(25):
        yield dict(kind='set', first=first, depth=2 if tier == 'quick' else 3)
    yield dict(kind='eq')
    yield dict(kind='types', kind2='reserved')
    yield dict(kind='types', kind2='hierarchy')
    yield dict(kind='types', kind2='mixins')


def run(case, T):
    globals()['run_' + case['kind']](case, T)
