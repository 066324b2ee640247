"""
Configurations: all the assignments of 8 parameters of different kinds
(texts, input files with relative or absolute path, sites, logic tree) to
none, one or another section or the defaults (thorough: 9), in configurations
given with an absolute or relative name, in the current directory or not;
all the assignments of 4 parameters to the defaults, a section or both;
all the ways of repeating a parameter in up to 3 sections; all the placements
of a stray line before the first section; all the pairs of 25 names similar
to the special ones; all the pairs of 16 unusual texts (percents, comments,
separators, quotes, blanks) as texts or paths. Logic trees: all the sequences of
up to 3 levels of 4 types and up to 3 paths over 8 (plain, repeated, in a
directory, absolute, with blanks and newlines, relative to the parent), in
the directory of the configuration, in another one or absolute.
Sites: all the sequences of up to 4 coordinates over 6 (thorough: 5).
"""
import os
import re
import shutil
import StringIO
import itertools
import ConfigParser
from mclib import check, fail, seqs
from openquake.commonlib import readini

QUICK_SHARDS = 3
BASE = os.path.join(os.getcwd(), 'i01')
ABSOLUTE = os.path.join(BASE, 'elsewhere', 'x.xml')

# parameter -> (line, expected entries)
ITEMS = [
    ('description = A long text, with: colon', 'description',
     'A long text, with: colon'),
    ('Maximum_Distance = 200.0', 'maximum_distance', '200.0'),
    ('exposure_file = exposure.xml', 'exposure_file', 'exposure.xml'),
    ('site_model_file = models/site.xml', 'site_model_file',
     'models/site.xml'),
    ('fragility_file = %s' % ABSOLUTE, 'fragility_file', ABSOLUTE),
    ('sites_csv = sites.csv', 'sites_csv', 'sites.csv'),
    ('source_model_logic_tree_file = smlt.xml',
     'source_model_logic_tree_file', 'smlt.xml'),
    ('profile = true', 'profile', 'true'),
    ('gsim_logic_tree_file = ../gmpe.xml', 'gsim_logic_tree_file',
     '../gmpe.xml')]
KEYS = ['a_file', 'my_file_list_file', 'a_file_file', 'file', 'afile',
        'a_files', '_file', 'file_a', 'a_File', 'A_FILE', 'l_file', 'fil_file',
        'e_file', 'a-file', 'a_file_', 'a_fil', 'a file', 'a _file',
        'base_file', 'inputs_file', 'source_file', 'sites_csv_file',
        'sites_csvs', 'x_sites_csv', 'sites_file']
VALUES = ['100%', '5%% of 1', '%', 'a = b', 'a: b', '[x]', 'x#1', '"q"', "'q'",
          '1, 2,3', 'a  b', '\xc3\xa8', '$HOME/x', '~/x', '0', 'None']
PATHS = ['b.xml', 'a.xml', ' a.xml ', '\n   c.xml\n  ', 'dir/a.xml',
         '/abs/z.xml', '../d.xml', 'a b.xml']
TYPES = ['sourceModel', 'gmpeModel', 'bGRRelative', 'abGRAbsolute']
COORDS = ['1.0,2.0', '-1.5,0', '1.0,2.0', '"3","4"', '1e1,2', '180,-90']
BAD = ['1.0,2.0', '1.0,2.0,3.0', '1.0', '1,2,']

NRML = '''<?xml version="1.0" encoding="utf-8"?>
<nrml xmlns:gml="http://www.opengis.net/gml"
      xmlns="http://openquake.org/xmlns/nrml/0.4">
<logicTree logicTreeID="lt1">%s</logicTree></nrml>'''


def logictree(levels):
    out = []
    for i, (typ, paths) in enumerate(levels):
        branches = ''.join(
            '<logicTreeBranch branchID="b%d%d"><uncertaintyModel>%s'
            '</uncertaintyModel><uncertaintyWeight>1.0</uncertaintyWeight>'
            '</logicTreeBranch>' % (i, j, p) for j, p in enumerate(paths))
        out.append(
            '<logicTreeBranchingLevel branchingLevelID="bl%d">'
            '<logicTreeBranchSet uncertaintyType="%s" branchSetID="bs%d">%s'
            '</logicTreeBranchSet></logicTreeBranchingLevel>' % (
                i, typ, i, branches))
    return NRML % ''.join(out)

DEFAULT_LT = logictree([('sourceModel', ['b.xml', ' a.xml', 'b.xml'])])


def cases(tier):
    n = 8 if tier == 'quick' else 9
    for head in itertools.product(range(3), repeat=4):
        yield ['items', list(head), n - 4]
    for assign in itertools.product(range(4), repeat=4):
        yield ['repeated', list(assign)]
    for i in range(4):
        yield ['stray', i]
    for types in seqs(range(len(TYPES)), 3, 1):
        yield ['smlt', types]
    for key in KEYS:
        yield ['key', key]
    for value in VALUES:
        yield ['texts', value]
    for paths in seqs(range(len(PATHS)), 3):
        yield ['paths', paths]
    for rows in seqs(range(len(COORDS)), 4 if tier == 'quick' else 5):
        if len(rows) <= 3 or rows[0] == 0 or tier != 'quick':
            yield ['sites', rows]
    for rows in seqs(range(len(BAD)), 3, 1):
        yield ['badsites', rows]
    for assign in itertools.product(range(3), repeat=4):
        yield ['defaults', list(assign)]
    for missing in ('sites_csv', 'source_model_logic_tree_file'):
        yield ['missing', missing]


def write(relpath, text):
    path = os.path.join(BASE, relpath)
    if not os.path.exists(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'w') as f:
        f.write(text)


def expected(entries, base, smlt=('a.xml', 'b.xml'), sites=()):
    """The reference parser: entries is a list of pairs key, value"""
    params, inputs = {}, {}
    for key, value in entries:
        if key == 'sites_csv':
            params['sites'] = list(sites)
        elif key.endswith('_file'):
            inputs[key[:-len('_file')]] = os.path.join(base, value)
        else:
            params[key] = value
    if 'source_model_logic_tree' in inputs:
        inputs['source'] = [os.path.join(base, p) for p in smlt]
    params['inputs'] = inputs
    params['base_path'] = base
    return params


def norm(params):
    """Parse the sites, normalize the paths"""
    params = dict(params)
    if isinstance(params.get('sites'), basestring):
        mo = re.match(r'MULTIPOINT\s*\((.*)\)$', params['sites'])
        check(mo, 'multipoint', 'the sites are %r', params['sites'])
        params['sites'] = [tuple(p.split()) for p in mo.group(1).split(',')
                           if p.strip()]
    inputs = {}
    for k, v in params.get('inputs', {}).items():
        inputs[k] = map(os.path.normpath, v) if k == 'source' \
            else os.path.normpath(v)
    params['inputs'] = inputs
    if 'base_path' in params:
        params['base_path'] = os.path.normpath(params['base_path'])
    return params


class Named(StringIO.StringIO):
    def __init__(self, text, name):
        StringIO.StringIO.__init__(self, text)
        self.name = name


def compare(T, text, relpath, want, missing=False):
    """Parse the text as a file, with a relative and an absolute path"""
    write(relpath, text)
    full = os.path.join(BASE, relpath)
    rel = os.path.relpath(full, os.getcwd())
    for name in (full, rel):
        for form in (0, 1):
            src = Named(text, name) if form else open(full)
            if not form:
                if name != full:
                    continue
            try:
                got = readini.parse_config(src)
            finally:
                src.close()
            check(isinstance(got, dict) and type(got.get('inputs')) is dict,
                  'dict', 'got %r', got)
            g, w = norm(got), norm(want)
            check(g == w, 'params', 'parsing\n%s\nas %s gives\n%s instead of '
                  '\n%s', text, name, g, w)
            T.step()


def setup():
    if os.path.exists(BASE):
        shutil.rmtree(BASE)
    for relpath in ('', 'job'):
        write(os.path.join(relpath, 'smlt.xml'), DEFAULT_LT)
        write(os.path.join(relpath, 'sites.csv'), '1,2\n3.5,-4\n')


def run_items(T, head, n):
    for tail in itertools.product(range(3), repeat=n):
        assign = head + list(tail)
        if n > 4 and sum(a > 0 for a in assign) > 6:
            continue
        secs = [[], []]
        for i, a in enumerate(assign):
            if a:
                secs[a - 1].append(ITEMS[i])
        text, entries = '', []
        for i, sec in enumerate(secs):
            text += '# a comment\n[section %d]\n' % i
            for line, key, value in sec:
                text += line + '\n'
                entries.append((key, value))
            text += '\n'
        relpath = ['job.ini', 'job/job.ini'][sum(assign) % 2]
        base = os.path.dirname(os.path.join(BASE, relpath))
        compare(T, text, relpath, expected(
            entries, base, sites=[('1', '2'), ('3.5', '-4')]))
        T.state(assign)
    T.trace()
    T.outcome('items')


def run_repeated(T, assign):
    """Each section has a different value, or none"""
    for key in ('text', 'exposure_file'):
        text, entries = '', []
        for i, a in enumerate(assign):
            text += '[sec%d]\n' % i
            if a:
                text += '%s = v%d\n' % (key, a)
                entries.append((key, 'v%d' % a))
        compare(T, text, 'job.ini', expected(entries, BASE))
        T.state(key, assign)
    T.trace()
    T.outcome('repeated')


def run_defaults(T, assign):
    """Parameters in the default section, one of two sections or both"""
    names = ['description', 'exposure_file', 'a_limit', 'MaxDist']
    lines, entries = [[], []], []
    for name, a in zip(names, assign):
        if a in (0, 2):
            lines[0].append('%s = d_%s' % (name, name))
        if a in (1, 2):
            lines[1].append('%s = s_%s' % (name, name))
        entries.append((name.lower(), ('s_' if a else 'd_') + name))
    for first in ('[x]\ny = 1\n', ''):
        for order in (0, 1):
            secs = ['[DEFAULT]\n' + '\n'.join(lines[0]),
                    '[sec]\n' + '\n'.join(lines[1])]
            if order:
                secs.reverse()
            text = first + '\n'.join(secs) + '\n'
            want = entries + ([('y', '1')] if first else [])
            compare(T, text, 'job/job.ini', expected(
                want, os.path.join(BASE, 'job')))
        T.state('defaults', assign, first)
    T.trace()
    T.outcome('defaults')


def run_key(T, key):
    """Parameters with a name like the one of an input file"""
    for other in KEYS:
        for sep in (' = ', '=', ': '):
            text = '[a]\n%s%sx.xml\n[b]\n%s%sy/z\n' % (key, sep, other, sep)
            compare(T, text, 'job/job.ini', expected(
                [(key.lower(), 'x.xml'), (other.lower(), 'y/z')],
                os.path.join(BASE, 'job')))
        T.state('key', key, other)
    T.trace()
    T.outcome('key')


def run_texts(T, value):
    """The texts are the ones of the file, without the external blanks"""
    for other in VALUES:
        for sep in ('=', ' : '):
            text = '[a]\nx%s%s\n[b]\nfirst_file%s%s\ny%s%s  \n' % (
                sep, value, sep, value, sep, other)
            compare(T, text, 'job.ini', expected(
                [('x', value), ('first_file', value), ('y', other)], BASE))
        T.state('texts', value, other)
    T.trace()
    T.outcome('texts')


def run_stray(T, where):
    lines = ['[general]', 'a = 1', '[other]', 'b_file = x']
    stray = ['x = 1', 'a_file = b', 'y: 2', 'text']
    for extra in stray:
        text = '\n'.join(lines[:where] + [extra] + lines[where:])
        try:
            got = readini.parse_config(Named(text, 'job.ini'))
        except ConfigParser.Error:
            check(where == 0 or extra == 'text', 'rejected',
                  'rejected %r', text)
        else:
            check(where and extra != 'text', 'stray', 'the configuration %r '
                  'gives %s', text, got)
        T.step()
        T.state('stray', where, extra)
    T.trace()
    T.outcome('stray')


def run_smlt(T, types):
    """All the paths are in the levels of type sourceModel"""
    for k in range(len(PATHS)):
        levels, want = [], set()
        for i, t in enumerate(types):
            paths = [PATHS[(k + i * 2 + j) % len(PATHS)] for j in range(3)]
            levels.append((TYPES[t], paths))
            if TYPES[t] == 'sourceModel':
                want.update(p.strip() for p in paths)
        smlt(T, levels, want)
    T.trace()
    T.outcome('smlt')


def smlt(T, levels, want):
    xml = logictree(levels)
    for path in ('smlt.xml', 'lt/smlt.xml', '../smlt.xml',
                 os.path.join(BASE, 'other', 'smlt.xml')):
        write(os.path.join('job', path), xml)
        text = '[a]\nsource_model_logic_tree_file=%s\nb=1' % path
        compare(T, text, 'job/job.ini', expected(
            [('source_model_logic_tree_file', path), ('b', '1')],
            os.path.join(BASE, 'job'), sorted(want)))
    T.state(levels)


def run_paths(T, idxs):
    paths = [PATHS[i] for i in idxs]
    smlt(T, [('sourceModel', paths)], set(p.strip() for p in paths))
    smlt(T, [('gmpeModel', ['x.xml']), ('sourceModel', paths)],
         set(p.strip() for p in paths))
    T.trace()
    T.outcome('paths')


def run_sites(T, rows):
    lines = [COORDS[i] for i in rows]
    want = [tuple(x.strip('"') for x in line.split(',')) for line in lines]
    for eol in ('\n', '\r\n'):
        for last in ('', eol):
            write('job/my.csv', eol.join(lines) + (last if lines else ''))
            for path in ('my.csv', os.path.join(BASE, 'job', 'my.csv'),
                         '../job/my.csv'):
                compare(T, '[a]\nsites_csv = %s' % path, 'job/job.ini',
                        expected([('sites_csv', path)],
                                 os.path.join(BASE, 'job'), sites=want))
    T.state('sites', rows)
    T.trace()
    T.outcome('sites')


def run_badsites(T, rows):
    """Rows which are not pairs of coordinates are not read partially"""
    if not any(rows):
        return
    write('job/my.csv', '\n'.join(BAD[i] for i in rows) + '\n')
    text = '[a]\nsites_csv = my.csv\n'
    try:
        got = readini.parse_config(Named(text, os.path.join(
            BASE, 'job', 'job.ini')))
    except ValueError as e:
        T.outcome(str(e)[:20])
    else:
        fail('bad-sites', 'the rows %s are read as %s',
             [BAD[i] for i in rows], got)
    T.step()
    T.state('badsites', rows)
    T.trace()


def run_missing(T, key):
    for path in ('nofile', '../nofile.xml', '/nodir/nofile'):
        text = '[a]\nb=1\n%s = %s' % (key, path)
        try:
            got = readini.parse_config(Named(text, os.path.join(
                BASE, 'job.ini')))
        except (IOError, OSError) as e:
            check(os.path.basename(path) in str(e), 'missing-name',
                  'the error is %s', e)
        else:
            fail('missing', 'got %s', got)
        T.step()
        T.state(key, path)
    T.trace()
    T.outcome('missing')


def run(case, T):
    setup()
    try:
        globals()['run_' + case[0]](T, *case[1:])
    finally:
        shutil.rmtree(BASE)
