"""
Validity of records: for every record type of the package (and nine toy
types) all the rows obtained by giving to each field a valid or an invalid
text out of a small alphabet (at most 3 invalid fields for the wide types in
the quick tier), checking that the casting, the validity test (whole record
and field by field), the conversion to tuple, the error report and the
search of invalid records in all the sequences of up to 4 rows agree with
the reference domain of each field, also after all the assignments of up to
two fields.
"""
import itertools
from mclib import check, fail, seqs, same
from openquake.commonlib import record, records, valid

QUICK_SHARDS = 4


class Toy(record.Record):
    pkey = record.Unique('n')
    n = record.Field(int)
    x = record.Field(valid.NoneOr(float))
    kind = record.Field(valid.Choice('a', 'b'))


class Default(record.Record):
    pkey = record.Unique('n')
    n = record.Field(int, default='1')
    x = record.Field(valid.NoneOr(float), default='2')
    kind = record.Field(valid.Choice('a', 'b'), default='b')


class Single(record.Record):
    pkey = record.Unique('n')
    n = record.Field(valid.positiveint)


class Bounded(record.Record):
    pkey = record.Unique('lo')
    lo = record.Field(float)
    hi = record.Field(float)

    def check_order(self):
        return self.lo <= self.hi

    def check_positive(self):
        return self.lo >= 0

    _constraints = [check_order, check_positive]



class Inherited(Bounded):
    """A subtype with the same fields"""


class Extended(Bounded):
    """A subtype with a further field and a further constraint"""
    note = record.Field(valid.not_empty)


Extended.add_check(lambda self: self.note != 'bad')


class Deep(Extended):
    pass


class Deepest(Extended):
    more = record.Field(valid.NoneOr(int))


class Replaced(Bounded):
    """A subtype with different constraints"""
    _constraints = [lambda self: self.hi != 1]

# kind of field -> (valid pairs text, value; invalid texts)
FLOAT = ([('1.5', 1.5), ('-2', -2.)], ['', 'x'])
INT = ([('3', 3), ('-1', -1)], ['', '1.5'])
POSINT = ([('3', 3), ('0', 0)], ['-1', '1.5'])
POSFLOAT = ([('0.5', 0.5), ('0', 0.)], ['-1', 'x'])
NPOSFLOAT = ([('0.5', 0.5), ('', None)], ['-1', 'x'])
PROB = ([('0.5', 0.5), ('1', 1.)], ['1.1', '-0.1'])
STR = ([('a b', 'a b'), ('', '')], [])
NOTEMPTY = ([('RC', 'RC'), (' ', ' ')], [''])
CAT = ([('buildings', 'buildings'), ('population', 'population')],
       ['', 'Buildings'])
IMT = ([('PGA', ('PGA', None, None)), ('SA(0.1)', ('SA', 0.1, 5.0))],
       ['', 'XX'])
NAMES = ([('minor major', ['minor', 'major']), ('a', ['a'])], ['', '1a'])
LON = ([('180', 180.), ('-7.5', -7.5)], ['180.1', 'x'])
LAT = ([('90', 90.), ('-7.5', -7.5)], ['90.1', ''])
NBOOL = ([('true', True), ('', None)], ['True', 'x'])
ARTYPE = ([('aggregated', 'aggregated'), ('', None)], ['per_area', 'x'])
COSTTYPE = ([('per_area', 'per_area'), ('per_asset', 'per_asset')],
            ['', 'x'])
NCOSTTYPE = ([('per_area', 'per_area'), ('', None)], ['xx', 'x'])
NSTR = ([('km', 'km'), ('', None)], [])
NFLOAT = ([('1.5', 1.5), ('', None)], ['x'])
CHOICE_D = ([('discrete', 'discrete')], ['', 'continuous'])
CHOICE_C = ([('continuous', 'continuous')], ['', 'discrete'])

BOUNDED = [([('1', 1.), ('-1', -1.), ('2', 2.)], ['x']),
           ([('1', 1.), ('0', 0.), ('3', 3.)], ['x'])]
NOTE = ([('a', 'a'), ('bad', 'bad')], [''])

DOMAINS = [
    ('Toy', [INT, NFLOAT, ([('a', 'a'), ('b', 'b')], ['', 'ab'])]),
    ('Default', [INT, NFLOAT, ([('a', 'a'), ('b', 'b')], ['', 'ab'])]),
    ('Single', [POSINT]),
    ('Bounded', BOUNDED),
    ('Inherited', BOUNDED),
    ('Extended', BOUNDED + [NOTE]),
    ('Deep', BOUNDED + [NOTE]),
    ('Deepest', BOUNDED + [NOTE, ([('', None), ('3', 3)], ['x'])]),
    ('Replaced', BOUNDED),
    ('DiscreteVulnerabilitySet', [STR, CAT, STR, IMT]),
    ('DiscreteVulnerability', [STR, STR, STR]),
    ('DiscreteVulnerabilityData', [STR, STR, FLOAT, FLOAT, FLOAT]),
    ('FragilityDiscrete', [CHOICE_D, STR, NAMES]),
    ('FFLimitStateDiscrete', [STR]),
    ('FFSetDiscrete', [INT, NOTEMPTY, NPOSFLOAT, IMT, STR]),
    ('FFDataDiscrete', [STR, INT, FLOAT, PROB]),
    ('FragilityContinuous', [CHOICE_C, STR, NAMES]),
    ('FFLimitStateContinuous', [STR]),
    ('FFSetContinuous', [INT, NOTEMPTY, NPOSFLOAT, STR, STR, STR, FLOAT,
                         FLOAT]),
    ('FFDataContinuous', [STR, INT, STR, FLOAT]),
    ('Location', [POSINT, LON, LAT]),
    ('Exposure', [NOTEMPTY, CAT, STR, STR, ARTYPE, NSTR, NBOOL, NBOOL]),
    ('CostType', [STR, COSTTYPE, STR, NCOSTTYPE, STR]),
    ('Asset', [POSINT, STR, NOTEMPTY, POSFLOAT, NPOSFLOAT]),
    ('Occupancy', [STR, STR, POSFLOAT]),
    ('Cost', [STR, STR, POSFLOAT, NPOSFLOAT, NPOSFLOAT, NPOSFLOAT]),
    ('GmfCollection', [STR, STR]),
    ('GmfSet', [INT, NFLOAT]),
    ('Gmf', [INT, IMT, STR]),
    ('GmfData', [INT, STR, STR, FLOAT, FLOAT, FLOAT]),
]
TYPES = dict((n, globals().get(n) or getattr(records, n)) for n, _ in DOMAINS)


BOUNDS = 'Bounded Inherited Extended Deep Deepest'.split()


def constraint(name, values):
    """The reference constraint on the casted values"""
    if name == 'Exposure':
        return (values[4] is None) == (values[5] is None)
    if name in ('Extended', 'Deep', 'Deepest') and values[2] == 'bad':
        return False
    if name == 'Replaced':
        return values[1] != 1
    if values and name in BOUNDS:
        return values[0] <= values[1] and values[0] >= 0
    return True


def check_record(name, texts, T, rec=None):
    rt = TYPES[name]
    domain = dict(DOMAINS)[name]
    bad = []
    values = []
    for i, (text, (good, _)) in enumerate(zip(texts, domain)):
        found = [v for t, v in good if t == text]
        if found:
            values.append(found[0])
        else:
            bad.append(i)
    if rec is None:
        rec = rt(*texts)
    where = '%s%s' % (name, texts)
    names = rt.fieldnames
    check(len(names) == len(domain), 'fields', 'wrong fields for %s', name)
    # field by field
    for i in range(len(texts)):
        for idx in (i, names[i]):
            check(rec.is_valid(idx) == (i not in bad), 'is_valid(i)',
                  '%s: is_valid(%r) is %s', where, idx, rec.is_valid(idx))
            T.step()
    # cast
    tup, exc = rec.cast()
    if bad:
        check(tup is None and isinstance(exc, record.InvalidRecord), 'cast',
              '%s: invalid but casted to %s', where, tup)
        check(exc.record is rec, 'exc.record', '%s: wrong record', where)
        check([f for f, _ in exc.errorlist] == [names[i] for i in bad],
              'errorlist', '%s: the invalid columns are %s, got %s', where,
              [names[i] for i in bad], exc.errorlist)
        for fname, rowno in ((None, 0), (None, 7), ('x.csv', 3)):
            exc.fname, exc.rowno = fname, rowno
            pos = 0
            text = str(exc)
            for i, (_, errmsg) in zip(bad, exc.errorlist):
                prefix = '%s[%s]: %d,%d: ' % (fname or name, names[i],
                                              rowno, i)
                start = text.find(prefix + errmsg, pos)
                check(start == pos, 'error-text',
                      '%s: the error %r does not locate the column %s: %r',
                      where, text, names[i], prefix)
                pos = start + len(prefix) + len(errmsg) + 1
            check(pos == len(text) + 1, 'error-text',
                  '%s: unexpected error text %r', where, text)
        T.step(3)
        try:
            got = rec.to_tuple()
        except record.InvalidRecord as e:
            check([f for f, _ in e.errorlist] == [names[i] for i in bad],
                  'errorlist', '%s: to_tuple reports %s', where, e.errorlist)
        else:
            fail('to_tuple', '%s: invalid but casted to %s', where, got)
        try:
            ok = rec.is_valid()
        except ValueError as e:
            fail('is_valid', '%s: is_valid raised %s', where, e)
        check(ok is False, 'is_valid', '%s: is_valid() is %s', where, ok)
        T.outcome('%d invalid' % len(bad))
    else:
        check(exc is None, 'cast', '%s: valid but got %s', where, exc)
        for got in (tup, rec.to_tuple()):
            check(len(got) == len(values) and all(
                same(a, b) and type(a) is type(b) or isinstance(b, tuple)
                and tuple(a) == b for a, b in zip(got, values)),
                'values', '%s: casted to %s, expected %s', where, got, values)
            check(list(got._fields) == names, 'names',
                  '%s: wrong tuple %s', where, got)
        for i, f in enumerate(names):
            v = getattr(rec, f)
            check(v == values[i], 'attribute', '%s: .%s is %r', where, f, v)
        want = constraint(name, values)
        got = rec.is_valid()
        check(got == want, 'is_valid', '%s: is_valid() is %s, expected %s',
              where, got, want)
        T.outcome('valid' if want else 'constraint violated')
    check(list(rec.row) == texts, 'unchanged', '%s: changed to %s', where,
          rec.row)
    T.step(3)
    T.state(name, texts)
    T.trace()


def rows(domain, maxbad):
    """All the rows with at most maxbad invalid fields"""
    n = len(domain)
    for k in range(0, min(maxbad, n) + 1):
        for bad in itertools.combinations(range(n), k):
            alts = []
            for i, (good, invalid) in enumerate(domain):
                alts.append(invalid if i in bad else [t for t, _ in good])
            for row in itertools.product(*alts):
                yield list(row)


def cases(tier):
    for name, domain in DOMAINS:
        maxbad = 2 if tier == 'quick' and len(domain) > 5 else len(domain)
        first = sorted(set([t for t, _ in domain[0][0]] + domain[0][1]))
        for text in first:
            yield dict(kind='rows', name=name, first=text, maxbad=maxbad)
    for n in range(5 if tier == 'quick' else 7):
        yield dict(kind='find', n=n)
    for name, domain in DOMAINS:
        yield dict(kind='assign', name=name)


def run_assign(T, name):
    """
    Check a record before and after all the assignments of one or two fields
    """
    domain = dict(DOMAINS)[name]
    good = [[t for t, _ in d[0]] for d in domain]
    names = TYPES[name].fieldnames
    pairs = [(i, t) for i in range(len(good)) for t in good[i]]
    for k in range(2):
        base = [g[k % len(g)] for g in good]
        for i, t in pairs:
            for j, u in pairs:
                rec, texts = TYPES[name](*base), list(base)
                check_record(name, texts, T, rec)
                rec[names[i]] = texts[i] = t
                check_record(name, texts, T, rec)
                try:
                    rec[i] = (domain[i][1] or [''])[0]
                except ValueError:
                    pass
                else:
                    rec[i] = t
                rec[j] = texts[j] = u
                check_record(name, texts, T, rec)
    T.outcome('assign')


def run(case, T):
    if case['kind'] == 'assign':
        return run_assign(T, case['name'])
    if case['kind'] == 'rows':
        domain = dict(DOMAINS)[case['name']]
        for row in rows(domain, case['maxbad']):
            if row[0] == case['first']:
                check_record(case['name'], row, T)
        return
    # search of the invalid records in a sequence
    pool = [['1', '', 'a'], ['x', '', 'a'], ['1', 'y', 'z'], ['2', '3', 'b'],
            ['', '', '']]
    badcols = [[], ['n'], ['x', 'kind'], [], ['n', 'kind']]
    for seq in itertools.product(range(len(pool)), repeat=case['n']):
        recs = [Toy(*pool[k]) for k in seq]
        want = [(i, badcols[k]) for i, k in enumerate(seq) if badcols[k]]
        for arg in (recs, iter(recs), record.Table(Single, [])):
            if isinstance(arg, record.Table):
                check(list(record.find_invalid(arg)) == [], 'find_invalid',
                      'found invalid records in an empty table')
                continue
            got = []
            for e in record.find_invalid(arg):
                check(e.record is recs[e.rowno], 'find_invalid',
                      'wrong record at row %d of %s', e.rowno, seq)
                got.append((e.rowno, [f for f, _ in e.errorlist]))
            check(got == want, 'find_invalid',
                  'invalid records of %s: got %s, expected %s', list(seq),
                  got, want)
            T.step()
        # only the first
        first = next(iter(record.find_invalid(recs)), None)
        check((first and first.rowno) == (want[0][0] if want else None),
              'find_invalid', 'wrong first invalid record in %s', seq)
        T.state('find', seq)
        T.outcome('find %d' % len(want))
        T.trace()
