"""
Faults (simple and complex): all the rates of up to 5 magnitudes (thorough:
6) over 4 values including zero, with 3 bin widths and minimum magnitudes,
and all the combinations of 180 truncated distributions (thorough: 800).
Areas: the same distributions (rates of up to 3 magnitudes), with 8 grids,
3 discretizations, 1 to 3 nodal planes and depths. Faults and areas with 6
sizes up to 257 parts (thorough: all the sizes up to 300). Points and characteristic
sources are never split. All the identifiers of a model of several sources
split together are checked to be distinct.
"""
import math
import itertools
from mclib import check, seqs, close
import srcgen
from openquake.commonlib import source
from openquake.hazardlib import mfd as hmfd
from openquake.hazardlib import source as hsource

QUICK_SHARDS = 3
RATES = [0, .1, .25, 1e-8]


def cases(tier):
    n = 5 if tier == 'quick' else 6
    for rates in seqs(range(len(RATES)), n, 1):
        if any(rates):
            yield ['incr', rates]
    mins = [0., 4.125, 5.5] if tier == 'quick' else [0., 4., 4.125, 4.8, 5., 5.5]
    for min_mag in mins:
        for delta in (0., .1, .5, 1., 2.3):
            for width in ((.1, .5) if tier == 'quick'
                          else (.05, .1, .25, .5)):
                yield ['tgr', min_mag, delta, width]
    for n in (10, 11, 99, 101, 128, 257) if tier == 'quick' else range(
            6, 300):
        yield ['many', n]
    for kinds in seqs(sorted(srcgen.MAKERS), 3, 1):
        yield ['model', kinds]


def mfds(case):
    if case[0] == 'incr':
        rates = [RATES[i] for i in case[1]]
        for min_mag, width in ((5.0, .5), (0., .1), (6.505, .01)):
            yield lambda: srcgen.incr(min_mag, width, rates)
    else:
        _, min_mag, delta, width = case
        for a in (-1., 2.5, 0.):
            for b in (.5, 1.):
                yield lambda: srcgen.tgr(min_mag, min_mag + delta, width, a,
                                         b)


def same_fields(part, src, but):
    """The part has the same fields of the source, except some of them"""
    a = dict((k, v) for k, v in vars(part).items() if k not in but)
    b = dict((k, v) for k, v in vars(src).items() if k not in but)
    check(sorted(a) == sorted(b), 'fields', 'the fields are %s instead of %s',
          sorted(a), sorted(b))
    for k in a:
        check(a[k] is b[k] or type(a[k]) is type(b[k]) and
              repr(a[k]) == repr(b[k]), 'field', 'the field %s is %r instead '
              'of %r', k, a[k], b[k])


def split(T, src, discr):
    """Check that the source is unchanged, return the parts"""
    before = srcgen.snapshot(src)
    parts = []
    for part in source.split_source(src, discr):
        check(srcgen.snapshot(src) == before, 'modified', 'the source %r '
              'becomes %r while it is split', before, srcgen.snapshot(src))
        parts.append(part)
    check(srcgen.snapshot(src) == before, 'modified', 'the source %r '
          'becomes %r', before, srcgen.snapshot(src))
    ids = [p.source_id for p in parts]
    check(len(set(ids)) == len(ids), 'ids', 'the identifiers are %s', ids)
    T.step(len(parts))
    return parts


def check_rates(src, parts):
    """The total rates are the same for each magnitude"""
    total = {}
    for part in parts:
        for mag, rate in part.mfd.get_annual_occurrence_rates():
            key = round(mag, 6)
            total[key] = total.get(key, 0) + rate
    for mag, rate in src.mfd.get_annual_occurrence_rates():
        key = round(mag, 6)
        check(close(total.pop(key, 0), rate, 1e-9, 0), 'rate',
              'the rate of %s is not %s: the parts of %r are %s', mag, rate,
              src.mfd, [p.mfd for p in parts[:20]])
    check(not [r for r in total.values() if r], 'extra', 'rates %s not in '
          'the source', total)


def check_fault(T, src):
    parts = split(T, src, 10.)
    check_rates(src, parts)
    pairs = [(m, r) for m, r in src.mfd.get_annual_occurrence_rates() if r]
    check(len(parts) == len(pairs), 'number', 'got %d parts instead of %d',
          len(parts), len(pairs))
    for i, (part, (mag, rate)) in enumerate(zip(parts, pairs)):
        check(type(part) is type(src), 'class', 'got %r', part)
        same_fields(part, src, ('source_id', 'mfd', 'num_counts'))
        check(part.source_id == '%s-%d' % (src.source_id, i), 'id',
              'the identifier is %s', part.source_id)
        check(part.mfd.get_annual_occurrence_rates() == [(mag, rate)],
              'magnitude', 'the part %d has %s', i,
              part.mfd.get_annual_occurrence_rates())
        check(part.mfd.bin_width == src.mfd.bin_width, 'bin_width',
              'the bin width is %s', part.mfd.bin_width)
    check(sum(p.count_ruptures() for p in parts) == src.count_ruptures(),
          'ruptures', 'the parts have %s ruptures, the source %s',
          [p.count_ruptures() for p in parts], src.count_ruptures())
    T.state(src.__class__.__name__, repr(src.mfd))


def check_area(T, src, discr):
    parts = split(T, src, discr)
    mesh = src.polygon.discretize(discr)
    check(len(parts) == len(mesh), 'number', 'got %d parts instead of %d',
          len(parts), len(mesh))
    check_rates(src, parts)
    for i, part in enumerate(parts):
        check(type(part) is hsource.PointSource, 'class', 'got %r', part)
        same_fields(part, src, ('source_id', 'name', 'mfd', 'num_counts',
                                'location', 'polygon',
                                'area_discretization'))
        check(part.source_id == '%s-%d' % (src.source_id, i) and
              part.name == '%s-%d' % (src.name, i), 'id',
              'got %s, %s', part.source_id, part.name)
        loc = part.location
        check((loc.longitude, loc.latitude, loc.depth) == (
            mesh.lons[i], mesh.lats[i], 0), 'location', 'the part %d is in '
            '%r', i, loc)
        m = part.mfd
        check(type(m) is type(src.mfd) and m.bin_width == src.mfd.bin_width
              and m.min_mag == src.mfd.min_mag, 'mfd', 'got %r', m)
        if isinstance(m, hmfd.TruncatedGRMFD):
            check((m.max_mag, m.b_val) == (src.mfd.max_mag, src.mfd.b_val)
                  and close(m.a_val, src.mfd.a_val - math.log10(len(mesh))),
                  'tgr', 'got %r', m)
        else:
            check(all(close(r * len(mesh), s, 1e-9, 0) for r, s in zip(
                m.occurrence_rates, src.mfd.occurrence_rates)) and
                len(m.occurrence_rates) == len(src.mfd.occurrence_rates),
                'incr', 'got %r', m)
    T.state('area', repr(src.mfd), len(mesh))

GRIDS = [(1, 1, 1, 1), (2, 1, 1, 2), (1, 3, 2, 1), (4, 4, 3, 3)]


def run_mfd(T, case):
    small = case[0] == 'tgr' or len(case[1]) <= 3
    for make in mfds(case):
        for maker in (srcgen.simple, srcgen.cmplx):
            check_fault(T, maker('a source', make()))
        for maker in (srcgen.point, srcgen.char):
            src = maker('7', make())
            parts = split(T, src, 10.)
            check(len(parts) == 1 and parts[0].source_id == '7' and
                  srcgen.snapshot(parts[0]) == srcgen.snapshot(src), 'alone',
                  'a source which cannot be split gives %s', parts)
        if small:
            for nx, ny, npl, nd in GRIDS:
                for discr in (10., 5., 20.):
                    src = srcgen.area('ar', make(), srcgen.TRTS[1], nx, ny,
                                      npl, nd)
                    check_area(T, src, discr)
    T.trace()
    T.outcome(case[0])


def run_many(T, n):
    """Many magnitudes, many points"""
    rates = [.1 + i % 7 if i % 3 else 0. for i in range(n)] + [.5]
    for maker in (srcgen.simple, srcgen.cmplx):
        check_fault(T, maker('m', srcgen.incr(0., .05, rates)))
        check_fault(T, maker('m', srcgen.tgr(0., n * .05, .05)))
    for nx, ny in ((n - 1, 1), (1, n // 2), (10, n // 10)):
        check_area(T, srcgen.area('ar', srcgen.incr(), srcgen.TRTS[0], nx,
                                  ny), 10.)
    T.trace()
    T.outcome('many')


def run_model(T, kinds):
    """The parts of different sources are different"""
    srcs = [srcgen.MAKERS[k]('s%d' % i, srcgen.incr(5., .5, (.1, .2)))
            for i, k in enumerate(kinds)]
    alone = [[srcgen.snapshot(p) for p in source.split_source(s, 10.)]
             for s in srcs]
    # split in parallel
    gens = [source.split_source(s, 10.) for s in srcs]
    parts = [[] for _ in srcs]
    while any(g for g in gens):
        for i, g in enumerate(gens):
            if g:
                try:
                    parts[i].append(g.next())
                except StopIteration:
                    gens[i] = None
    check([map(srcgen.snapshot, ps) for ps in parts] == alone, 'parallel',
          'splitting %s together or alone is not the same', kinds)
    ids = [p.source_id for p in itertools.chain(*parts)]
    check(len(set(ids)) == len(ids), 'model-ids', 'got %s', ids)
    # a part can be modified without consequences on the others
    for i, ps in enumerate(parts):
        if kinds[i] in ('simple', 'complex'):
            rest = [srcgen.snapshot(p) for p in ps[1:]]
            before = srcgen.snapshot(srcs[i])
            ps[0].mfd.min_mag = 1.
            ps[0].source_id = 'x'
            ps[0].mfd.occurrence_rates[0] = 99
            check([srcgen.snapshot(p) for p in ps[1:]] == rest and
                  srcgen.snapshot(srcs[i]) == before, 'shared',
                  'changing a part of %s changes the others', kinds[i])
    T.step(len(ids))
    T.state(kinds)
    T.trace()
    T.outcome('model')


def run(case, T):
    if case[0] == 'model':
        run_model(T, case[1])
    elif case[0] == 'many':
        run_many(T, case[1])
    else:
        run_mfd(T, case)
