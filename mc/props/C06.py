"""
The conversion script on all the combinations of: five kinds of models (each
in the variants listed in csvgen), the output in a directory or zip archive,
new or with a previous content, the way back in the same archive or in
another one, directory or zip, new or not; archives with 1 to 3 models; each
listed invalid text in each field of each file (quick: one row per file),
with a limit to the number of errors from 1 to 2 or none, from csv and, when
possible, from xml; files with up to 3000 invalid rows; all the pairs of 16 names of
the model and 15 names of the archive.
"""
import os
import sys
import imp
import shutil
import zipfile
import itertools
import StringIO
from bootstrap import REPO
from mclib import check, fail
from nrmlgen import canon, parse_nrml
from csvgen import GROUPS, INVALID, csvfiles, csvtext
from openquake.nrmllib.node import node_to_nrml
from openquake.commonlib import csvmanager, records

QUICK_SHARDS = 4
script = imp.load_source('NRMLconvert', os.path.join(
    REPO, 'bin', 'NRMLconvert.py'))


def call(*args):
    """Run the script; returns (exit argument, what was printed)"""
    zips = []
    original = zipfile.ZipFile

    class ZipFile(original):
        def __init__(self, *a, **kw):
            original.__init__(self, *a, **kw)
            zips.append(self)
    out, sys.stdout = sys.stdout, StringIO.StringIO()
    zipfile.ZipFile = ZipFile
    try:
        try:
            script.main(*args)
            code = None
        except SystemExit as e:
            code = e.args[0]
        return code, sys.stdout.getvalue()
    finally:
        sys.stdout = out
        zipfile.ZipFile = original
        for z in zips:  # CPython does that when the script ends
            z.close()


def clean():
    assert os.path.basename(os.getcwd()).startswith('scratch')
    for name in os.listdir('.'):
        if os.path.isdir(name):
            shutil.rmtree(os.path.abspath(name))
        else:
            os.remove(name)


def content(path):
    if path.endswith('.zip'):
        z = zipfile.ZipFile(path)
        names = z.namelist()
        check(len(set(names)) == len(names), 'duplicates', 'got %s', names)
        dic = dict((n, z.read(n)) for n in names)
        z.close()
        return dic
    return dict((n, open(os.path.join(path, n)).read())
                for n in os.listdir(path))


def make(path, items):
    if path.endswith('.zip'):
        z = zipfile.ZipFile(path, 'w')
        for n, data in items:
            z.writestr(n, data)
        z.close()
    else:
        if not os.path.exists(path):
            os.mkdir(path)
        for n, data in items:
            with open(os.path.join(path, n), 'w') as f:
                f.write(data)


def node_of(items):
    return csvmanager.CSVManager(
        csvmanager.MemArchive(items)).convert_to_node()


def xml_of(items):
    out = StringIO.StringIO()
    node_to_nrml(node_of(items), out)
    return out.getvalue()


def variants(name):
    """A model with all its records and some smaller ones"""
    group = GROUPS[name]
    yield group
    if name == 'vulnerability':
        yield [(rt, rows[:1]) for rt, rows in group]
    elif name == 'exposure':
        yield [(rt, [r for r in rows if 'a1' not in r]) for rt, rows in group]
        yield [g for g in group if g[0] not in ('Occupancy', 'CostType',
                                                'Cost')]


def cases(tier):
    for name in sorted(GROUPS):
        for v in range(len(list(variants(name)))):
            for out, back in itertools.product(
                    ['o', 'o.zip'], [None, 'p', 'p.zip']):
                for old in (False, True):
                    yield ['trip', name, v, out, back, old]
    names = sorted(GROUPS)
    for n in (1, 2, 3):
        for group in itertools.combinations(names, n):
            for inp, out in itertools.product(['i', 'i.zip'],
                                              [None, 'p', 'p.zip']):
                yield ['many', list(group), inp, out]
    for name in names:
        for i, (rt, rows) in enumerate(GROUPS[name]):
            fields = getattr(records, rt).fieldnames
            for c, field in enumerate(fields):
                for k, text in enumerate(INVALID[rt].get(field, [])):
                    if tier == 'quick' and k > 1:
                        continue
                    for r in range(len(rows)) if tier != 'quick' else [
                            len(rows) - 1]:
                        yield ['bad', name, i, r, c, text]
    for i in range(len(XMLS)):
        for out in OUTS:
            yield ['names', i, out]
    for inp in OUTS:
        yield ['badname', inp]
    yield ['usage']

XMLS = ['a.b.xml', 'm.zip.xml', 'm.csv.xml', 'my model.xml', 'xml.xml',
        'M.xml', 'sub/m.xml', 'x.xml.xml', 'a__b.xml', '1.xml', 'zip.xml',
        '-.xml', 'm[1].xml', 'Location.xml', 'm__Location.xml', '.m.xml']
OUTS = ['o', 'o.zip', 'o.xml.zip', 'o.xml.d', 'zip', 'ozip', 'o.zip.d', 'xml',
        'o.csv', 'sub/o.zip', 'sub/o', 'o.ZIP', 'o [1].zip', 'm', './o.zip']


def run(case, T):
    clean()
    try:
        globals()['run_' + case[0]](T, *case[1:])
    finally:
        clean()
    T.state(case)
    T.trace()


def run_trip(T, name, v, out, back, old):
    items = csvfiles(list(variants(name))[v], 'pre')
    want = canon(node_of(items))
    xml = xml_of(items)
    with open('my-model.xml', 'w') as f:
        f.write(xml)
    if old and out == 'o':  # a directory with unrelated files
        make(out, [('old.txt', 'x')])
    elif old:
        make(out, [('old__Location.csv', 'x')])  # will be overwritten
    code, text = call('my-model.xml', out)
    check(code is None, 'exit', 'exit with %r; printed %s', code, text)
    check('Created' in text, 'created', 'printed %s', text)
    files = content(out)
    extra = set(['old.txt']) if old and out == 'o' else set()
    # the tables without records have no file
    names = set(n.replace('pre__', 'my-model__') for n, data in items
                if data.count('\n') > 1)
    check(set(files) == names | extra, 'files', 'created %s, expected %s',
          sorted(files), sorted(names))
    check(open('my-model.xml').read() == xml, 'input', 'the input changed')
    T.step()
    if old and back == 'p':
        make(back, [('other.txt', 'x')])
    elif old and back == 'p.zip':
        make(back, [('other.txt', 'x')])
    elif back == 'p':
        make(back, [])
    args = [out] if back is None else [out, back]
    code, text = call(*args)
    check(code is None, 'exit-back', 'exit with %r; printed %s', code, text)
    after = content(back or out)
    xmls = set(['my-model.xml'])
    if back is None:
        check(set(after) == set(files) | xmls, 'files-back', 'got %s',
              sorted(after))
    else:
        check(set(after) == xmls | (set(['other.txt']) if old else set()),
              'files-back', 'got %s', sorted(after))
        check(content(out) == files, 'source', 'the source was changed')
    for n in files:
        check(back or after[n] == files[n], 'source', '%s changed', n)
    got = canon(parse_nrml(after['my-model.xml']))
    check(got == want, 'roundtrip', 'got %s, expected %s', got, want)
    T.step()
    T.outcome('trip %s %s' % (out, back))


def run_many(T, names, inp, out):
    """Several models in the same archive"""
    items = []
    for n in names:
        items.extend(csvfiles(GROUPS[n], 'p-' + n))
    make(inp, items + [('note.txt', 'x')])
    if out == 'p':
        make(out, [])
    code, text = call(*([inp, out] if out else [inp]))
    check(code is None, 'many-exit', 'exit with %r; printed %s', code, text)
    files = content(out or inp)
    xmls = set('p-%s.xml' % n for n in names)
    check(set(n for n in files if n.endswith('.xml')) == xmls, 'many-files',
          'created %s, expected %s', sorted(files), sorted(xmls))
    for n in names:
        check('p-%s.xml' % n in text, 'many-text', 'printed %s', text)
        got = canon(parse_nrml(files['p-%s.xml' % n]))
        want = canon(node_of(csvfiles(GROUPS[n], 'x')))
        check(got == want, 'many', 'got %s, expected %s', got, want)
        T.step()
    T.outcome('%d models' % len(names))


def run_bad(T, name, i, r, c, text):
    """
    An invalid cell, and a second one in another file, or in the same one:
    nothing is converted
    """
    group = [(rt, [list(row) for row in rows]) for rt, rows in GROUPS[name]]
    group[i][1][r][c] = text
    total = 1
    field = getattr(records, group[i][0]).fieldnames[c]
    for limit in (None, '1', '2'):
        for inp in ('i', 'i.zip'):
            clean()
            make(inp, csvfiles(group, 'pre'))
            if limit:
                code, out = call(inp, None, limit)
            else:
                code, out = call(inp)
            check(code == 'Found %d invalid records' % total, 'bad-exit',
                  'exit with %r; printed %s', code, out)
            where = 'pre__%s.csv[%s]: %d,%d: ' % (group[i][0], field, r, c)
            check(out.startswith(where), 'bad-text',
                  'printed %r, expected %r', out, where)
            check(not any(n.endswith('.xml') for n in content(inp)),
                  'bad-converted', 'an invalid model was converted')
            T.step()
            T.outcome('bad %s' % inp)


def run_names(T, i, out):
    """A model converted back and forth, with any name"""
    inp = XMLS[i]
    name = sorted(GROUPS)[i % len(GROUPS)]
    items = csvfiles(GROUPS[name], 'pre')
    want = canon(node_of(items))
    os.mkdir('sub')
    with open(inp, 'w') as f:
        f.write(xml_of(items))
    base = os.path.basename(inp)
    here = os.listdir('.'), os.listdir('sub')
    for a, b in [(inp, out), (os.path.abspath(inp), os.path.abspath(out))]:
        code, text = call(a, b)
        check(code is None, 'exit', '%s: exit with %r; printed %s', (a, b),
              code, text)
        files = content(b)
        check(set(files) == set(n.replace('pre__', base[:-4] + '__')
                                for n, data in items), 'names',
              '%s: created %s', (a, b), sorted(files))
        check(set(os.listdir('.')) | set(os.listdir('sub')) == set(
            here[0]) | set(here[1]) | set([
                os.path.basename(out), os.path.dirname(b) or 'sub']) -
            set(['.', os.getcwd(), os.path.abspath('sub')]), 'strange-files',
            '%s: got the files %s, %s', (a, b), os.listdir('.'),
            os.listdir('sub'))
        code, text = call(b)
        check(code is None, 'exit', '%s: exit with %r; printed %s', (a, b),
              code, text)
        after = content(b)
        check(set(after) == set(files) | set([base]), 'names-back',
              '%s: created %s', (a, b), sorted(after))
        got = canon(parse_nrml(after[base]))
        check(got == want, 'names-roundtrip', '%s: got %s, expected %s',
              (a, b), got, want)
        T.step(2)
        if os.path.isdir(b):
            shutil.rmtree(os.path.abspath(b))
        else:
            os.remove(b)
    T.outcome('names')


def run_badname(T, inp):
    """Invalid records in an archive with any name"""
    os.mkdir('sub')
    make(inp, [('p__Location.csv', csvtext('Location', [['1', '0', 'x']]))])
    for out in [None] + OUTS:
        if out != inp:
            before = set(os.listdir('.')), set(os.listdir('sub'))
            code, text = call(*([inp, out] if out else [inp]))
            check(code == 'Found 1 invalid records', 'badname',
                  '%s, %s: exit with %r', inp, out, code)
            check((set(os.listdir('.')), set(os.listdir('sub'))) == before and
                  content(inp).keys() == ['p__Location.csv'],
                  'badname-files', '%s, %s: changed the files', inp, out)
            T.step()
    T.outcome('badname')


def run_usage(T):
    open('m.xml', 'w').close()
    code, text = call('m.xml')
    check(isinstance(code, str) and 'output' in code, 'usage',
          'exit with %r', code)
    # invalid records found after the conversion from xml
    for n, limit in [(2, None), (2, '2'), (1, '1'), (2, '5')]:
        clean()
        items = csvfiles(GROUPS['vulnerability'], 'x')
        with open('m.xml', 'w') as f:
            f.write(xml_of(items).replace('0.1 ', 'A ').replace(
                '0.30 ', 'B '))
        for out in ('o', 'o.zip'):
            args = ['m.xml', out] + ([limit] if limit else [])
            code, text = call(*args)
            mo = 'invalid records' in str(code)
            check(mo, 'xml-invalid', 'exit with %r; printed %s', code, text)
            if limit == '1':
                check(code == 'Found 1 invalid records', 'xml-limit',
                      'exit with %r', code)
            T.step()
    # many errors
    for bad, total in itertools.product((1, 11, 150, 3000), (0, 1, 100)):
        rows = [[str(i), '0', 'x'] for i in range(bad)] + [
            [str(i), '0', '0'] for i in range(total)]
        for limit in (None, 1, 10, 100, 2999, 3000, 10000):
            clean()
            make('i.zip' if total else 'i', [
                ('p__Location.csv', csvtext('Location', rows))])
            n = min(bad, limit or bad)
            code, text = call(*(['i.zip' if total else 'i'] + (
                [None, str(limit)] if limit else [])))
            check(code == 'Found %d invalid records' % n, 'many-errors',
                  'exit with %r, expected %d', code, n)
            check(len(text.splitlines()) == n, 'many-lines',
                  'printed %d lines instead of %d', len(text.splitlines()), n)
            T.step()
    # more errors than the limit
    for bad in itertools.product(['0', 'x'], repeat=4):
        rows = [[str(i), '0', b] for i, b in enumerate(bad)]
        for limit in (None, 1, 2, 3, 5):
            clean()
            make('i', [('p__Location.csv', csvtext('Location', rows))])
            n = bad.count('x')
            if n == 0:
                continue
            n = min(n, limit or n)
            code, text = call(*(['i', None, str(limit)] if limit else ['i']))
            check(code == 'Found %d invalid records' % n, 'limit',
                  'exit with %r, expected %d', code, n)
            got = [int(line.split(' ')[1].split(',')[0])
                   for line in text.splitlines()]
            check(got == [i for i, b in enumerate(bad) if b == 'x'][:n],
                  'limit-rows', 'printed %s for %s', text, bad)
            T.step()
    T.outcome('usage')
