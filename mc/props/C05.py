"""
Archives with up to 4 groups of files: every assignment to the prefixes of
the five kinds of models or nothing (thorough: up to 5 prefixes), every order
in which the models are written; all the pairs of 25 prefixes; with a foreign file, an unknown record type
and an optional file missing; a manager for each prefix, for no prefix and
for a missing one; with headers and, for 2 prefixes, without. Every manager must read, validate and convert its own
files only, as if it were alone in the archive.
"""
import itertools
from mclib import check, fail
from nrmlgen import canon, parse_nrml
from csvgen import GROUPS, csvfiles
from openquake.commonlib import csvmanager, records, record

QUICK_SHARDS = 4
PREFIXES = ['m', 'm1', 'M', 'a-b.c', 'm 1', '1', '01', 'm.xml', 'a-b', 'm_',
            'csv', 'm.csv', ' m', 'm*', '[m]', '?', 'Location', 'm(1)',
            'a__b', 'm__', '__', 'm__Location', '', 'd/m', 'x/m']
KINDS = [None] + sorted(GROUPS)
EXTRA = [('README.txt', 'x'), ('zz__NoRecord.csv', 'a,b\r\n1,2\r\n'),
         ('yy__Location.txt', 'x'), ('a__b__Location.txt', 'x'),
         ('plain.csv', 'x'), ('m__valid.csv', 'x'), ('q__Record.csv', 'x'),
         ('q__Node.csv', 'x'), ('q__Field.csv', 'x'), ('q__Converter.csv', ''),
         ('__.csv', ''), ('q__Location.CSV', 'x'), ('q__location.csv', 'x'), ('q__Location.csv.bak', '')]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for kinds in itertools.product(range(len(KINDS)), repeat=n):
        yield ['groups', list(kinds)]
    for kinds in itertools.product(range(len(KINDS)), repeat=2):
        yield ['noheader', list(kinds)]
    for kinds in itertools.permutations(range(len(KINDS)), 3):
        yield ['order', list(kinds)]
    for i, j in itertools.combinations(range(len(PREFIXES)), 2):
        yield ['pair', [i, j]]
    yield ['noconv', []]


def variant(name, prefix):
    """The records of a model, different for each prefix"""
    i = PREFIXES.index(prefix)
    group = [(rt, [list(row) for row in rows]) for rt, rows in GROUPS[name]]
    last = group[-1][1]
    last[0][-1] = {'exposure': '0.%d', 'fragility_c': '1.%d'}.get(
        name, '0.%d') % (i + 1)
    return group

ALONE = {}


def alone(name, prefix):
    """The node of a model alone in its archive"""
    key = name, prefix
    if key not in ALONE:
        arc = csvmanager.MemArchive(csvfiles(variant(name, prefix), prefix))
        ALONE[key] = canon(csvmanager.CSVManager(arc).convert_to_node())
    return ALONE[key]


def expect(exc, func, *args):
    try:
        res = func(*args)
    except exc:
        return
    fail('no-error', 'expected %s, got %s', exc.__name__, res)


def verify(arc, models, T, what, order=list, header=True):
    """
    Check that the archive contains the given models, not mixed; `order` is
    `sorted` if the records can be in any order
    """
    man = csvmanager.CSVManager(arc, '', header)
    check(man.find_invalid() == [], 'invalid', '%s: invalid records', what)
    for prefix, name in models:
        man = csvmanager.CSVManager(arc, prefix, header)
        for rt, rows in variant(name, prefix):
            got = map(list, man.read(getattr(records, rt)))
            check(order(got) == order(rows), 'read', '%s: prefix %r: read %s, expected %s',
                  what, prefix, got, rows)
        node = canon(man.convert_to_node())
        check(node == alone(name, prefix), 'node',
              '%s: prefix %r: got %s, expected %s', what, prefix, node,
              alone(name, prefix))
        tset = man.get_tableset()
        got = dict((t.recordtype.__name__, order(map(list, t)))
                   for t in tset)
        check(got == dict((rt, order(rows)) for rt, rows in
                          variant(name, prefix)), 'tableset',
              '%s: prefix %r: got the tables %s', what, prefix, got)
        T.step(3)
    # a manager without files of its own
    for prefix in ('', 'missing'):
        if prefix in dict(models):
            continue
        man = csvmanager.CSVManager(arc, prefix, header)
        if not models:
            expect(csvmanager.NotInArchive, man.get_tableset)
            expect(csvmanager.NotInArchive, man.convert_to_node)
        elif len(models) > 1:
            expect(csvmanager.MultipleManagerError, man.convert_to_node)
        else:
            node = canon(man.convert_to_node())
            check(node == alone(models[0][1], models[0][0]), 'node-noprefix',
                  '%s: got %s', what, node)
        T.step()
    # all the models are converted, each in its file
    out = csvmanager.MemArchive([])
    names = csvmanager.CSVManager(arc, '', header).convert_to_nrml(out)
    check(sorted(names) == sorted(p + '.xml' for p, _ in models) ==
          sorted(out.extract_filenames()), 'nrml-names',
          '%s: created %s, %s', what, names, out.extract_filenames())
    for prefix, name in models:
        got = canon(parse_nrml(out.open(prefix + '.xml').read()))
        check(got == alone(name, prefix), 'nrml',
              '%s: %s.xml contains %s, expected %s', what, prefix, got,
              alone(name, prefix))
        T.step()


def run(case, T):
    kind, kinds = case
    if kind == 'noconv':
        return run_noconv(T)
    if kind == 'pair':
        return run_pair(T, *kinds)
    models = [(prefix, KINDS[k]) for prefix, k in zip(PREFIXES, kinds)
              if KINDS[k]]
    if kind == 'groups':
        items = []
        for prefix, name in models:
            items.extend(csvfiles(variant(name, prefix), prefix))
        for extra in ([], EXTRA):
            arc = csvmanager.MemArchive(items + extra)
            verify(arc, models, T, case)
    elif kind == 'noheader':
        arc = csvmanager.MemArchive([
            item for prefix, name in models for item in
            csvfiles(variant(name, prefix), prefix, header=False)])
        verify(arc, models, T, case, header=False)
        # converted from a node without headers
        arc = csvmanager.MemArchive([])
        for prefix, name in models:
            if name != 'exposure':
                node = csvmanager.CSVManager(csvmanager.MemArchive(csvfiles(
                    variant(name, prefix), prefix))).convert_to_node()
                csvmanager.CSVManager(
                    arc, 'yy', has_header=False).convert_from_node(
                        node, prefix)
        verify(arc, [m for m in models if m[1] != 'exposure'], T, case,
               sorted, header=False)
    else:
        # written by the managers, one after the other
        arc = csvmanager.MemArchive([])
        other = csvmanager.MemArchive([])
        for prefix, name in models[::-1]:
            with csvmanager.CSVManager(arc, prefix) as man:
                for rt, rows in variant(name, prefix):
                    for row in rows:
                        man.write(getattr(records, rt)(*row))
            node = csvmanager.CSVManager(arc, prefix).convert_to_node()
            got = csvmanager.CSVManager(other, 'xx').convert_from_node(
                node, prefix)
            check(got.prefix == prefix, 'prefix', 'prefix %s', got.prefix)
            T.step(2)
        verify(arc, models, T, case)
        if 'exposure' not in dict((n, p) for p, n in models):
            # the locations can be renumbered
            verify(other, models, T, case, sorted)
    T.state(models)
    T.outcome('%d models' % len(models))
    T.trace()


def run_pair(T, i, j):
    """Two models of the same or different kind"""
    for names in (('vulnerability', 'vulnerability'), ('gmf', 'exposure'),
                  ('fragility_c', 'fragility_c')):
        models = [(PREFIXES[i], names[0]), (PREFIXES[j], names[1])]
        verify(csvmanager.MemArchive(
            [item for prefix, name in models for item in csvfiles(
                variant(name, prefix), prefix)]), models, T, [i, j, names])
        T.state(models)
    T.trace()
    T.outcome('pairs')


def run_noconv(T):
    """Some tables are optional, the others are required"""
    for name in sorted(GROUPS):
        for i, (rt, rows) in enumerate(GROUPS[name]):
            group = [g for g in GROUPS[name] if g[0] == rt]
            arc = csvmanager.MemArchive(csvfiles(group, 'p'))
            man = csvmanager.CSVManager(arc, 'p')
            T.step()
            T.state(name, rt)
            if i and records.__dict__[rt].get_descriptors(record.ForeignKey):
                expect(record.ForeignKeyError, man.get_tableset)
                T.outcome('orphans')
                continue
            got = dict((t.recordtype.__name__, map(list, t))
                       for t in man.get_tableset())
            check(got == dict(group), 'partial', 'got %s, expected %s', got,
                  group)
            T.outcome('partial')
    T.trace()
