"""
Source model logic trees: all the first levels of 1 or 2 branch sets of 3
types x 3 filters x 6 lists of models (2 of them not well formed or against
the schema); all the second levels of 7 types x 31 sets of filters, of 7
types x 26 lists of values, of 13 lists of weights x 5 lists of identifiers,
of 7 types x 6 filters x 6 values x 3 weights (pairs and triples of
violations; thorough: all the filters and values); all the pairs of branch
sets of a level over 6 types x 6 filters; third levels. Ground
motion trees: all the sequences of up to 2 levels (thorough: 3) over 19
branch sets, with 2 sets of regions, and levels of 2 branch sets. Documents
truncated at all the positions. A tree is accepted exactly when a reference
validator accepts it, with the same content, otherwise the error is one of
those of the reference, with file, base path and line.
"""
import itertools
from decimal import Decimal
from mclib import check, outcome_of
import ltgen
from openquake.commonlib import logictree

QUICK_SHARDS = 4
ASC, VOL, STA = 'Active Shallow Crust', 'Volcanic', 'Stable Shallow Crust'
SOURCES = {
    'sm1': [('point', 'p1', ASC), ('simpleFault', 's1', VOL)],
    'sm2': [('area', 'a1', VOL), ('point', 'p2', VOL)]}
FILES = dict((k, ltgen.source_model(v)) for k, v in SOURCES.items())
FILES['bad'] = FILES['sm1'].replace('</sourceModel>', '')
FILES['inv'] = FILES['sm1'].replace('<magScaleRel>WC1994</magScaleRel>',
                                    '<unknownElement>1</unknownElement>')
TRT, TYPE, SRCS = ('applyToTectonicRegionType', 'applyToSourceType',
                   'applyToSources')

TYPES = ['bGRRelative', 'maxMagGRRelative', 'maxMagGRAbsolute',
         'abGRAbsolute', 'sourceModel', 'gmpeModel', 'bGRRelative']
FILTERS = [
    {}, {TRT: ASC}, {TRT: VOL}, {TRT: STA}, {TRT: 'active shallow crust'},
    {TYPE: 'point'}, {TYPE: 'area'}, {TYPE: 'simpleFault'},
    {TYPE: 'complexFault'}, {TYPE: 'Point'}, {TYPE: 'characteristicFault'},
    {SRCS: 'p1'}, {SRCS: 's1 a1'}, {SRCS: 'zz'}, {SRCS: 'p1 zz'},
    {SRCS: 'zz p1'}, {SRCS: ''}, {SRCS: 'p'}, {SRCS: 'p1 s1 zz'},
    {SRCS: 'p1 s1 a1 zz'}, {SRCS: 'p1 s1 a1 p2'}, {SRCS: 'p1  s1 a1'},
    {SRCS: 'p1 p1'}, {TRT: ASC, SRCS: ''}, {TYPE: 'point', SRCS: ''},
    {TRT: VOL + ' '}, {TYPE: ' point'},
    {TRT: ASC, TYPE: 'point'}, {TRT: ASC, SRCS: 'p1'},
    {TYPE: 'point', SRCS: 'p1'}, {TRT: ASC, TYPE: 'point', SRCS: 'p1'}]
VALUES = [['0.5'], ['+1'], ['-.5'], ['10'], ['0'], ['abc'], ['1 2'], ['1,2'],
          ['0.5x'], ['x0.5'], ['--1'], ['1.2.3'], [''], ['+'], ['.'],
          ['1 2 3'], ['a b'], ['1 b'], ['a 1'], ['+1.5 -.2'], ['1\n2'],
          ['1', 'x'], ['x', '1'], ['1 2', '3 4'], ['1 2', '3'], ['3', '1 2']]
WEIGHTS = [['1'], ['0.9'], ['1.1'], ['0.5', '0.5'], ['0.5', '0.4'],
           ['0.7', '0.4'], ['0', '1'], ['0.3333', '0.3333', '0.3333'],
           ['0.3333', '0.3333', '0.3334'], ['0.1'] * 10,
           ['0.' + '3' * 18] * 3, ['0.5', '0.5' + '0' * 18 + '1'],
           ['0.' + '3' * 18, '0.' + '6' * 17 + '7']]
DOUBLES_F = [{}, {TRT: ASC}, {TRT: STA}, {SRCS: 'p1'}, {SRCS: 'zz'},
             {TRT: ASC, SRCS: 'p1'}]
DOUBLES_V = [['0.5'], ['abc'], ['1 2'], ['1', 'x'], ['1 2', 'x'], ['sm1']]
DOUBLES_W = [['1', '0'], ['0.5', '0.4'], ['0.2', '0.3', '0.5']]


def weights(n):
    return {1: ['1'], 2: ['0.4', '0.6'], 3: ['0.2', '0.3', '0.5']}[n]


def branches(prefix, values, ws=None, ids=None):
    ws = ws or weights(len(values))
    ids = ids or ['%s%d' % (prefix, i) for i in range(len(values))]
    return zip(ids, values, ws)


# ----------------------------- the reference ----------------------------- #

def is_float(text):
    """
    A number without exponent; the other notations are rejected now, but
    they are not part of the enumeration
    """
    digits = text[1:] if text[:1] in ('+', '-') else text
    return (digits.count('.') <= 1 and
            digits.replace('.', '').isdigit() and not digits.endswith('.'))


def common_errors(bs, l, b, seen, pos):
    errs = []
    for i, (id, _, _) in enumerate(bs['branches']):
        if id in seen:
            errs.append(('ValidationError', 'lt.xml', pos['br', l, b, i]))
        seen.add(id)
    if sum(Decimal(w) for _, _, w in bs['branches']) != 1:
        errs.append(('ValidationError', 'lt.xml', pos['bs', l, b]))
    return errs


def sm_errors(tree, pos):
    """All the violations of the rules of the source model logic trees"""
    errs = []
    known = []
    seen = set()
    for l, level in enumerate(tree):
        for b, bs in enumerate(level):
            here = ('ValidationError', 'lt.xml', pos['bs', l, b])
            type, filters = bs['type'], bs['filters']
            if l == 0 and (b > 0 or type != 'sourceModel'):
                errs.append(here)
            if l > 0 and type in ('sourceModel', 'gmpeModel'):
                errs.append(here)
            if type == 'sourceModel' and filters or len(filters) > 1:
                errs.append(here)
            if type in ('abGRAbsolute', 'maxMagGRAbsolute') and (
                    filters.keys() != [SRCS] or
                    len(filters[SRCS].split()) != 1):
                errs.append(here)
            if TRT in filters and filters[TRT] not in [s[2] for s in known]:
                errs.append(here)
            if TYPE in filters and filters[TYPE] not in [s[0] for s in known]:
                errs.append(here)
            for id in filters.get(SRCS, '').split():
                if id not in [s[1] for s in known]:
                    errs.append(here)
            for i, (id, value, _) in enumerate(bs['branches']):
                if type == 'sourceModel':
                    if value in ('bad', 'inv'):
                        errs.append(('ParsingError', value, None))
                    else:
                        known += SOURCES.get(value, [])
                else:
                    parts = value.split()
                    n = 2 if type == 'abGRAbsolute' else 1
                    if len(parts) != n or not all(map(is_float, parts)):
                        errs.append(('ValidationError', 'lt.xml',
                                     pos['val', l, b, i]))
            errs += common_errors(bs, l, b, seen, pos)
    return errs


def gmpe_errors(tree, pos, trts):
    errs = []
    seen, found = set(), set()
    for l, level in enumerate(tree):
        for b, bs in enumerate(level):
            here = ('ValidationError', 'lt.xml', pos['bs', l, b])
            trt = bs['filters'].get(TRT)
            if trt is not None and trt not in trts:
                continue
            if bs['filters'].keys() != [TRT]:
                errs.append(here)
            if trt is not None and trt in found:
                errs.append(here)
            found.add(trt)
            if bs['type'] != 'gmpeModel' or b > 0:
                errs.append(here)
            for i, (id, value, _) in enumerate(bs['branches']):
                if value not in logictree.GSIM:
                    errs.append(('ValidationError', 'lt.xml',
                                 pos['val', l, b, i]))
            errs += common_errors(bs, l, b, seen, pos)
    if set(trts) - found:
        errs.append(('ValidationError', 'lt.xml', pos['tree']))
    return errs


# ------------------------------ the checks ------------------------------- #

def check_same(bs, ref, tree, value):
    """The branch set is the one of the reference, with all its branches"""
    check(bs.uncertainty_type == ref['type'], 'type', 'the type is %s',
          bs.uncertainty_type)
    filters = dict(ref['filters'])
    if SRCS in filters:
        filters[SRCS] = filters[SRCS].split()
    check(bs.filters == filters, 'filters', 'the filters are %s, not %s',
          bs.filters, filters)
    check(len(bs.branches) == len(ref['branches']), 'branches',
          '%d branches instead of %d', len(bs.branches), len(ref['branches']))
    for br, (id, val, w) in zip(bs.branches, ref['branches']):
        exp = value(ref['type'], val)
        check(br.branch_id == id and br.weight == Decimal(w) and
              br.value == exp and type(br.value) is type(exp), 'branch',
              'the branch is %s instead of %s',
              (br.branch_id, br.weight, br.value), (id, w, exp))
        check(bs.get_branch_by_id(id) is br, 'branch-by-id',
              'another branch has the id %s', id)
        child = tree.children.get(id)
        check((br.child_branchset is None) == (child is None), 'child',
              'the child of %s is %s instead of %s', id, br.child_branchset,
              child)
        if child is not None:
            check_same(br.child_branchset, child, tree, value)


def check_error(res, errs, filename, base, text):
    check(res[0] == 'error', 'accepted', 'accepted with the errors %s:\n%s',
          errs, text)
    exc = res[2]
    where = (res[1], getattr(exc, 'filename', None),
             getattr(exc, 'lineno', None))
    check(where in errs, 'wrong-error', 'the error is %s %s instead of one '
          'of %s:\n%s', where, exc, errs, text)
    check(isinstance(exc, logictree.LogicTreeError), 'class',
          '%s is not a LogicTreeError', res[1])
    check(exc.basepath == base, 'basepath', 'the base path is %r',
          exc.basepath)
    msg = str(exc)
    check(repr(exc.filename) in msg and repr(base) in msg and (
        where[2] is None or 'line %r' % where[2] in msg) and
        exc.message and exc.message in msg, 'message',
        'the message is %s', msg)


def check_sm(T, tree, s):
    text, pos = ltgen.to_xml(tree)
    errs = sm_errors(tree, pos)
    res = outcome_of(logictree.SourceModelLogicTree, text, s.path, 'lt.xml')
    T.step()
    T.state(text)
    T.trace()
    T.outcome('accepted' if res[0] == 'ok' else res[1])
    if errs:
        check_error(res, errs, 'lt.xml', s.path, text)
        return
    check(res[0] == 'ok', 'rejected', 'rejected with %s:\n%s', res[1:], text)
    ref = ltgen.RefTree(tree)
    check_same(res[1].root_branchset, ref.root, ref, ltgen.convert)
    # the workers do not validate the tree again
    lt = logictree.SourceModelLogicTree(text, '/nonexistent', 'lt.xml', False)
    check_same(lt.root_branchset, ref.root, ref, ltgen.convert)


def gsim(type, value):
    return logictree.GSIM[value]


def check_gmpe(T, tree, trts):
    text, pos = ltgen.to_xml(tree)
    errs = gmpe_errors(tree, pos, trts)
    res = outcome_of(logictree.GMPELogicTree, trts, text, 'base', 'lt.xml')
    T.step()
    T.state(text)
    T.trace()
    T.outcome('accepted' if res[0] == 'ok' else res[1])
    if errs:
        check_error(res, errs, 'lt.xml', 'base', text)
        return
    check(res[0] == 'ok', 'rejected', 'rejected with %s:\n%s', res[1:], text)
    kept = [[bs for bs in level if bs['filters'][TRT] in trts]
            for level in tree]
    ref = ltgen.RefTree(kept)
    check_same(res[1].root_branchset, ref.root, ref, gsim)
    lt = logictree.GMPELogicTree(trts, text, 'base', 'lt.xml', False)
    check_same(lt.root_branchset, ref.root, ref, gsim)


# ------------------------------- the cases ------------------------------- #

def level0(type, filters, models, b=0):
    return ltgen.bset('s%d' % b, type, branches('m%d' % b, models), filters)

FIRST = list(itertools.product(
    ['sourceModel', 'bGRRelative', 'gmpeModel'], [{}, {TRT: ASC}, {SRCS: 'p1'}],
    [['sm1'], ['sm2'], ['sm1', 'sm2'], ['bad'], ['inv'], ['sm1', 'bad']]))
GOOD = FIRST[2]


def gmpe_sets():
    for type in ('gmpeModel', 'bGRRelative', 'sourceModel'):
        yield type, {TRT: 'A'}, ['SadighEtAl1997'], ['1']
    for f in ({TRT: 'B'}, {TRT: 'C'}, {}, {SRCS: 'x'}, {TYPE: 'area'},
              {TRT: 'A', SRCS: 'x'}, {TRT: 'A', TYPE: 'area'},
              {TRT: 'A', TYPE: 'area', SRCS: 'x'}):
        yield 'gmpeModel', f, ['SadighEtAl1997', 'ToroEtAl2002'], ['.5', '.5']
    for trt in 'AB':
        for v in (['Unknown'], ['SadighEtAl1997', 'Sadigh'],
                  ['', 'SadighEtAl1997']):
            yield 'gmpeModel', {TRT: trt}, v, weights(len(v))
        yield 'gmpeModel', {TRT: trt}, ['SadighEtAl1997'], ['0.9']

GMPES = list(gmpe_sets())


def gmpe_level(indices, l, dup=False):
    return [ltgen.bset('g%d_%d' % (l, b), t, branches(
        'x' if dup else 'x%d_%d_' % (l, b), v, w), f)
        for b, (t, f, v, w) in enumerate(GMPES[i] for i in indices)]


def cases(tier):
    for i in range(len(FIRST)):
        yield ['first', i]
    for t in range(len(TYPES)):
        yield ['filters', t]
        yield ['values', t]
    for t in range(len(TYPES) - 1):
        for f in range(len(DOUBLES_F)):
            yield ['pair', t, f]
    yield ['weights']
    full = tier != 'quick'
    for t in range(len(TYPES) - 1):
        for f in range(len(FILTERS if full else DOUBLES_F)):
            yield ['double', t, f, full]
    yield ['third']
    yield ['truncated']
    n = 2 if tier == 'quick' else 3
    for depth in range(1, n + 1):
        for seq in itertools.product(range(len(GMPES)), repeat=depth - 1):
            yield ['gmpe', list(seq)]
    yield ['gmpe2']


def run(case, T):
    with ltgen.Scratch(**FILES) as s:
        globals()['run_' + case[0]](T, s, *case[1:])


def run_first(T, s, i):
    first = level0(*FIRST[i])
    check_sm(T, [[first]], s)
    for l in (1, 2):  # a whole level after it
        check_sm(T, [[first], [ltgen.bset('r', 'bGRRelative', branches(
            'r', ['1'] * l))]], s)
    for other in FIRST:
        check_sm(T, [[first, level0(*(other + (1,)))]], s)


def valid_value(type):
    return '1 2' if type == 'abGRAbsolute' else '1'


def run_filters(T, s, t):
    for f in FILTERS:
        v = valid_value(TYPES[t])
        for models in (['sm1'], ['sm2'], ['sm1', 'sm2']):
            if TYPES[t] == 'sourceModel':
                v = 'sm1'
            check_sm(T, [[level0('sourceModel', {}, models)], [ltgen.bset(
                'r', TYPES[t], branches('r', [v, v]), f)]], s)


def run_values(T, s, t):
    filters = {SRCS: 'p1'} if TYPES[t].endswith('Absolute') else {}
    if TYPES[t] == 'sourceModel':
        return
    for v in VALUES:
        check_sm(T, [[level0(*GOOD)], [ltgen.bset(
            'r', TYPES[t], branches('r', v), filters)]], s)


def run_weights(T, s):
    for ws in WEIGHTS:
        n = len(ws)
        for ids in (None, ['r'] * n, ['m00'] + ['r%d' % i for i in range(n)],
                    ['R%d' % i for i in range(n)],
                    ['r%d' % (i % 2) for i in range(n)]):
            check_sm(T, [[level0(*GOOD)], [ltgen.bset(
                'r', 'bGRRelative', branches('r', ['1'] * n, ws, ids))]], s)
            check_sm(T, [[ltgen.bset('m', 'sourceModel', branches(
                'm', ['sm1'] * n, ws, ids))]], s)
            # branch sets of the same level, with the same identifiers
            check_sm(T, [[level0(*GOOD)], [
                ltgen.bset('r', 'bGRRelative', branches(
                    'r', ['1'] * n, ws, ids), apply=['m00']),
                ltgen.bset('q', 'bGRRelative', branches(
                    'q', ['1', '2'], ids=['q', 'r0']), apply=['m01'])]], s)
            check_gmpe(T, [[ltgen.bset('r', 'gmpeModel', branches(
                'r', ['ToroEtAl2002'] * n, ws, ids), {TRT: 'A'})]], ['A'])
            check_gmpe(T, [[ltgen.bset('r', 'gmpeModel', branches(
                'r', ['ToroEtAl2002'] * n, ws, ids), {TRT: 'A'})],
                [ltgen.bset('q', 'gmpeModel', branches(
                    'q', ['ToroEtAl2002'] * 2, ids=['q', 'r0']),
                    {TRT: 'B'})]], ['A', 'B'])


def run_double(T, s, t, f, full):
    filters = (FILTERS if full else DOUBLES_F)[f]
    for v in VALUES if full else DOUBLES_V:
        for ws in DOUBLES_W:
            values = (v * 3)[:len(ws)]
            if TYPES[t] == 'sourceModel':
                values = ['sm1'] * len(ws)
            for ids in (None, ['r', 'm00', 'r']):
                check_sm(T, [[level0(*GOOD)], [ltgen.bset(
                    'r', TYPES[t], branches('r', values, ws, ids and
                                            ids[:len(ws)]), filters)]], s)


def run_pair(T, s, t, f):
    """All the pairs of branch sets in the second or third level"""
    def bs(name, i, filters, apply):
        value = 'sm1' if TYPES[i] == 'sourceModel' else valid_value(TYPES[i])
        return ltgen.bset(name, TYPES[i], branches(name, [value, value]),
                          filters, apply=apply)
    for t2, f2 in itertools.product(range(len(TYPES) - 1), DOUBLES_F):
        check_sm(T, [[level0(*GOOD)], [bs('r', t, DOUBLES_F[f], ['m00']),
                                       bs('q', t2, f2, ['m01'])]], s)
        if f in (1, 3) and f2 in (DOUBLES_F[0], DOUBLES_F[3]):
            check_sm(T, [
                [level0(*GOOD)],
                [ltgen.bset('i', 'bGRRelative', branches('i', ['1', '2']))],
                [bs('r', t, DOUBLES_F[f], ['i1']), bs('q', t2, f2, ['i0'])]],
                s)


def run_third(T, s):
    for t, f in itertools.product(range(len(TYPES)), FILTERS):
        v = valid_value(TYPES[t])
        if TYPES[t] == 'sourceModel':
            v = 'sm1'
        for models in (['sm1'], ['sm2']):
            check_sm(T, [
                [level0('sourceModel', {}, models)],
                [ltgen.bset('r', 'bGRRelative', branches('r', ['1', '2']))],
                [ltgen.bset('q', TYPES[t], branches('q', [v, v]), f)]], s)


def run_truncated(T, s):
    text, _ = ltgen.to_xml([[level0(*GOOD)]])
    gtext, _ = ltgen.to_xml([gmpe_level([0], 0)])
    sm = logictree.SourceModelLogicTree
    gm = logictree.GMPELogicTree
    for doc, call in [
            (text, lambda t, p: sm(t, p, 'lt.xml')),
            (gtext, lambda t, p: gm(['A'], t, p, 'lt.xml'))]:
        n = len(doc.rstrip())
        for cut in range(n):
            res = outcome_of(call, doc[:cut], s.path)
            T.step()
            check_error(res, [('ParsingError', 'lt.xml', None)], 'lt.xml',
                        s.path, doc[:cut])
        for a, b in [('logicTree>', 'logicTrees>'), ('<logicTree ', '<lt '),
                     ('logicTreeBranch>', 'branch>')]:
            wrong = doc.replace(a, b)
            if a == '<logicTree ':
                wrong = wrong.replace('</logicTree>', '</lt>')
            res = outcome_of(call, wrong, s.path)
            check_error(res, [('ParsingError', 'lt.xml', None)], 'lt.xml',
                        s.path, wrong)
    # all the truncations of a source model
    n = len(FILES['sm1'].rstrip())
    for cut in range(0, n):
        s.write('cut', FILES['sm1'][:cut])
        tree = [[ltgen.bset('m', 'sourceModel', [('m0', 'cut', '1')])]]
        res = outcome_of(sm, ltgen.to_xml(tree)[0], s.path, 'lt.xml')
        T.step()
        check_error(res, [('ParsingError', 'cut', None)], 'cut', s.path,
                    'the source model\n' + FILES['sm1'][:cut])


def run_gmpe(T, s, seq):
    for last in range(len(GMPES)):
        for dup in (False, True):
            tree = [gmpe_level([i], l, dup)
                    for l, i in enumerate(seq + [last])]
            for trts in (['A'], ['A', 'B']):
                if all(bs['filters'].get(TRT) == 'C'
                       for level in tree for bs in level):
                    continue  # nothing left
                check_gmpe(T, tree, trts)


def run_gmpe2(T, s):
    for i, j in itertools.product(range(len(GMPES)), repeat=2):
        if 'C' in (GMPES[i][1].get(TRT), GMPES[j][1].get(TRT)):
            continue
        check_gmpe(T, [gmpe_level([i, j], 0)], ['A', 'B'])
        check_gmpe(T, [gmpe_level([0], 0), gmpe_level([i, j], 1)],
                   ['A', 'B'])
