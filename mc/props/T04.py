"""
All the filters (5 source types, 3 regions, 6 lists of identifiers, alone
and in pairs and triples, unknown ones) x 5 kinds of sources x 3 regions x
2 magnitude distributions x 4 uncertainties x 2 values: the decision of the
filter and the whole content of the source after; all the lists of up to 2
out of 10 similar identifiers on a source with each of them; all the pairs of
8 similar regions; all the pairs of changes out of 15 with special values. All the paths of trees of
up to 3 levels (thorough: 4) over 8 kinds of levels, applied to 5 kinds of
sources with 2 distributions, twice to different sources: in the order of
the path, only the sources which pass the filters; the functions of all the
paths are made before being used. All the lists of up to 2 of 8 similar
identifiers in the text of a tree, with 3 separators, for all the sources of
a model containing them.
"""
import copy
import itertools
from mclib import check, outcome_of
import ltgen
import srcgen
from openquake.commonlib import logictree

QUICK_SHARDS = 4
TRT, TYPE, SRCS = ('applyToTectonicRegionType', 'applyToSourceType',
                   'applyToSources')
KINDS = [('point', 'point'), ('area', 'area'), ('simple', 'simpleFault'),
         ('complex', 'complexFault'), ('char', 'characteristicFault')]
TRTS = srcgen.TRTS
VALUES = [('bGRRelative', [0.1, -0.25]), ('maxMagGRRelative', [0.5, -0.25]),
          ('maxMagGRAbsolute', [7.5, 6.0]),
          ('abGRAbsolute', [(2.0, 0.5), (-1.5, 1.25)])]
SOURCE_LISTS = [['s'], ['x', 's'], ['x'], [], ['s', 's1'], ['ss']]
OPTIONS = {TYPE: [k[1] for k in KINDS], TRT: TRTS, SRCS: SOURCE_LISTS}


def mfds():
    return [srcgen.tgr(5.0, 7.0, 0.5, 3.0, 1.0), srcgen.incr()]


def filter_sets():
    yield {}
    for n in (1, 2, 3):
        for keys in itertools.combinations([TYPE, TRT, SRCS], n):
            for vals in itertools.product(*[OPTIONS[k] for k in keys]):
                yield dict(zip(keys, vals))


def passes(filters, kind, trt, id):
    return (filters.get(TYPE, kind) == kind and
            filters.get(TRT, trt) == trt and
            id in filters.get(SRCS, [id]))


def expected_mfd(mfd, type, value):
    """The distribution is changed as documented"""
    new = copy.deepcopy(mfd)
    if type == 'bGRRelative':
        new.modify('increment_b', dict(value=value))
    elif type == 'maxMagGRRelative':
        new.modify('increment_max_mag', dict(value=value))
    elif type == 'maxMagGRAbsolute':
        new.modify('set_max_mag', dict(value=value))
    else:
        new.modify('set_ab', dict(a_val=value[0], b_val=value[1]))
    return new


LEVELS = [  # type, filters, values
    ('bGRRelative', {}, ['0.1', '-0.05']),
    ('bGRRelative', {TRT: TRTS[1]}, ['+.2', '-.1']),
    ('maxMagGRRelative', {TYPE: 'point'}, ['0.5', '-0.2']),
    ('maxMagGRRelative', {SRCS: 's s2'}, ['1', '-0.1']),
    ('maxMagGRAbsolute', {SRCS: 's'}, ['8', '6.5']),
    ('abGRAbsolute', {SRCS: 's'}, ['2 .5', '-1.5 1.25']),
    ('abGRAbsolute', {SRCS: 'zz'}, ['2 .75', '1 1']),
    ('maxMagGRRelative', {TYPE: 'area'}, ['0.25', '-0.25'])]

REGIONS = ['Volcanic', 'Volcanic ', ' Volcanic', 'volcanic', 'Volcani',
           'Volcanic Crust', u'Volcanic', '']
MORE = [('bGRRelative', [0.0, 1e-9, -0.9375, 10.0]),
        ('maxMagGRRelative', [0.0, 1e-9, -0.5, 3.0]),
        ('maxMagGRAbsolute', [10.0, 5.5, 7.0]),
        ('abGRAbsolute', [(0.0, 1.0), (0.0, 0.0625), (-9.0, 2.0), (3.0, 1.0)])]
TEXT_IDS = ['s1', 's', 'S1', '1', '11', 's-1', 'a.b', 's1s']
IDS = ['s', 's-0', 'S', '1', '01', 'a.b', '-', 's_0', u's', '']


def cases(tier):
    for k in range(len(KINDS)):
        for t in range(len(TRTS)):
            yield ['filter', k, t]
    yield ['unknown']
    for id in TEXT_IDS:
        yield ['text', id]
    for id in IDS:
        yield ['ids', id]
    for trt in REGIONS:
        yield ['regions', trt]
    for k in range(len(KINDS)):
        yield ['values', k]
    n = 3 if tier == 'quick' else 4
    for depth in range(0, n + 1):
        for seq in itertools.product(range(len(LEVELS)), repeat=depth):
            yield ['path', list(seq)]
            if depth > 1:
                yield ['open', list(seq)]


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])


def run_filter(T, k, t):
    maker, kind = KINDS[k]
    for filters in filter_sets():
        ok = passes(filters, kind, TRTS[t], 's')
        for type, values in VALUES:
            bs = logictree.BranchSet(type, dict(filters))
            for i in (0, 1):
                src = srcgen.MAKERS[maker]('s', mfds()[i], TRTS[t])
                got = bs.filter_source(src)
                T.step()
                check(got is ok, 'filter', '%s with the filters %s: %r',
                      src, filters, got)
                if i and type != 'bGRRelative' and len(filters) > 1:
                    continue
                for value in values:
                    src = srcgen.MAKERS[maker]('s', mfds()[i], TRTS[t])
                    ref = srcgen.MAKERS[maker]('s', mfds()[i], TRTS[t])
                    if ok and i == 0:
                        ref.mfd = expected_mfd(ref.mfd, type, value)
                    bs.apply_uncertainty(value, src)
                    T.step()
                    check(srcgen.snapshot(src) == srcgen.snapshot(ref),
                          'applied', '%s %s with the filters %s on %s: %s '
                          'instead of %s', type, value, filters, src,
                          src.mfd, ref.mfd)
        check(bs.filters == filters, 'filters-changed', '%s', bs.filters)
        T.state('filter', k, t, filters)
    T.trace()


def run_ids(T, id):
    """All the lists of up to 2 identifiers, similar to the one of the source
    """
    maker, kind = KINDS[0]
    type, values = VALUES[0]
    src = srcgen.MAKERS[maker](id, mfds()[0])
    for n in range(3):
        for ids in itertools.product(IDS, repeat=n):
            for form in (list, tuple):
                bs = logictree.BranchSet(type, {SRCS: form(ids)})
                got = bs.filter_source(src)
                check(got is (id in ids), 'filter-ids',
                      'the source %r with the identifiers %s: %r', id, ids,
                      got)
                T.step()
            T.state('ids', id, ids)
    T.trace()


def run_text(T, first):
    """All the lists of identifiers written in a tree"""
    with ltgen.Scratch() as s:
        s.write('sm', ltgen.source_model(
            [('point', id, TRTS[0]) for id in TEXT_IDS]))
        for ids in [[first]] + [[first, id] for id in TEXT_IDS]:
            for sep in (' ', '  ', ' \t'):
                tree = [[ltgen.bset('m', 'sourceModel', [('m0', 'sm', '1')])],
                        [ltgen.bset('b', 'bGRRelative', [('b0', '.5', '1')],
                                    {SRCS: sep.join(ids)})]]
                for validate in (True, False):
                    lt = logictree.SourceModelLogicTree(
                        ltgen.to_xml(tree)[0], s.path, 'lt.xml', validate)
                    func = lt.make_apply_uncertainties(['m0', 'b0'])
                    for id in TEXT_IDS:
                        src = srcgen.point(id, mfds()[0])
                        b_val = src.mfd.b_val
                        func(src)
                        T.step()
                        changed = src.mfd.b_val != b_val
                        check(changed is (id in ids), 'text', 'the source %r '
                              'with the identifiers %r: changed=%s', id,
                              sep.join(ids), changed)
            T.state('text', ids)
    T.trace()


def run_regions(T, trt):
    """Names of regions similar to the one of the source"""
    maker, kind = KINDS[0]
    type, values = VALUES[0]
    for other in REGIONS:
        for extra in ({}, {TYPE: 'point'}, {TYPE: 'area'}):
            src = srcgen.MAKERS[maker]('s', mfds()[0], trt)
            before = srcgen.snapshot(src)
            filters = dict(extra)
            filters[TRT] = other
            bs = logictree.BranchSet(type, filters)
            want = trt == other and extra.get(TYPE) != 'area'
            got = bs.filter_source(src)
            check(got is want, 'filter-region', 'the source of the region %r '
                  'with the filters %s: %r', trt, filters, got)
            bs.apply_uncertainty(values[0], src)
            check((srcgen.snapshot(src) != before) is want, 'region',
                  'the source of the region %r with the filters %s', trt,
                  filters)
            T.step(2)
            T.state('regions', trt, filters)
    T.trace()


def run_values(T, k):
    """All the pairs of changes, with special values, to the same source"""
    maker, kind = KINDS[k]
    changes = [(type, v) for type, values in MORE for v in values]
    for pair in itertools.product(changes, repeat=2):
        src = srcgen.MAKERS[maker]('s', mfds()[0])
        ref = srcgen.MAKERS[maker]('s', mfds()[0])
        for type, value in pair:
            mfd = src.mfd
            want = outcome_of(expected_mfd, ref.mfd, type, value)
            got = outcome_of(logictree.BranchSet(type, {}).apply_uncertainty,
                             value, src)
            check(want[0] == got[0] and (want[0] != 'error' or
                                         want[:2] == got[:2]), 'values',
                  '%s on %s: got %s, expected %s', pair, mfd, got, want)
            if want[0] == 'error':
                break
            ref.mfd = want[1]
            check(srcgen.snapshot(src) == srcgen.snapshot(ref), 'values',
                  '%s: %s instead of %s', pair, src.mfd, ref.mfd)
            T.step()
        T.state('values', k, pair)
    T.trace()


def run_unknown(T):
    for maker, kind in KINDS:
        src = srcgen.MAKERS[maker]('s', mfds()[0])
        before = srcgen.snapshot(src)
        for filters in ({TYPE: 'forest'}, {TYPE: 'Point'}, {TYPE: ''},
                        {'applyToBranches': 's'}, {'foo': 's'}):
            bs = logictree.BranchSet('bGRRelative', filters)
            for func, args in [(bs.filter_source, (src,)),
                               (bs.apply_uncertainty, (0.1, src))]:
                res = outcome_of(func, *args)
                check(res[:2] == ('error', 'AssertionError'), 'unknown',
                      'the filters %s on %s: %s', filters, src, res)
            check(srcgen.snapshot(src) == before, 'changed', 'changed')
        for type in ('foo', 'maxMag', None, 'sourceModel', 'gmpeModel'):
            bs = logictree.BranchSet(type, {})
            res = outcome_of(bs.apply_uncertainty, 0.1, src)
            check(res[:2] == ('error', 'AssertionError'), 'unknown',
                  'the uncertainty %s: %s', type, res)
            check(srcgen.snapshot(src) == before, 'changed', 'changed')
            # nothing to do for the other distributions
            other = srcgen.MAKERS[maker]('s', mfds()[1])
            bs.apply_uncertainty(0.1, other)
        T.state('unknown', kind)
    T.trace()


def make_tree(seq, opened):
    tree = [[ltgen.bset('m', 'sourceModel', [('m0', 'sm', '.5'),
                                             ('m1', 'sm', '.5')])]]
    for l, i in enumerate(seq):
        type, filters, values = LEVELS[i]
        tree.append([ltgen.bset('b%d' % l, type, [
            ('b%d%s' % (l, ['_', ''][j]), v, '0.5') for j, v in enumerate(values)],
            filters)])
    if opened:  # the last level applies only to a branch
        tree[-1][0]['apply'] = [tree[-2][0]['branches'][1][0]]
    return tree


def run_path(T, seq):
    check_tree(T, seq, False)


def run_open(T, seq):
    check_tree(T, seq, True)


def check_tree(T, seq, opened):
    tree = make_tree(seq, opened)
    lt = logictree.SourceModelLogicTree(
        ltgen.to_xml(tree)[0], '/nonexistent', 'lt.xml', False)
    ref = ltgen.RefTree(tree)
    paths = [path for path in ref.paths()
             if path[0][0] != 'm1' or len(seq) <= 1]
    funcs = [lt.make_apply_uncertainties([b[0] for b in path])
             for path in paths]
    for path, func in zip(paths, funcs):
        ids = [b[0] for b in path]
        for seq_type in (list, tuple):
            apply_uncertainties = func if seq_type is list else \
                lt.make_apply_uncertainties(tuple(ids))
            for n, (maker, kind) in enumerate(KINDS):
                if seq_type is tuple and n:
                    continue
                for i in (0, 1):
                    trt = TRTS[n % 2]
                    srcs = [srcgen.MAKERS[maker]('s', mfds()[i], trt)
                            for _ in range(3)]
                    for bs, branch in ref.steps(path)[1:]:
                        filters = dict(bs['filters'])
                        if SRCS in filters:
                            filters[SRCS] = filters[SRCS].split()
                        if i == 0 and passes(filters, kind, trt, 's'):
                            srcs[0].mfd = expected_mfd(
                                srcs[0].mfd, bs['type'],
                                ltgen.convert(bs['type'], branch[1]))
                    exp = srcgen.snapshot(srcs[0])
                    for src in srcs[1:]:  # the function can be reused
                        apply_uncertainties(src)
                        T.step()
                        check(srcgen.snapshot(src) == exp, 'path',
                              'the path %s on %s: %s instead of %s', ids,
                              src, src.mfd, srcs[0].mfd)
        check(lt.root_branchset.get_branch_by_id(ids[0]).branch_id == ids[0],
              'tree-changed', 'the tree was changed')
        T.state('path', seq, opened, ids)
    for bad in (['m2'], ['m0', 'zz']):
        if len(bad) == 2 and not seq:
            continue
        res = outcome_of(lt.make_apply_uncertainties, bad)
        check(res[:2] == ('error', 'AssertionError'), 'unknown-branch',
              'the path %s: %s', bad, res)
    T.trace()
