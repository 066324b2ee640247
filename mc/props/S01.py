"""
All the sequences of up to 4 sources (thorough: 5) over 6 kinds with
different ranges of magnitudes, each split in all the ways between the
constructor and the additions (the first source also added again at the end), with and
without initial magnitudes; all the
additions of a source of another region; all the filters of these sequences, with 7 kinds of
not None values;
all the sequences of up to 4 counts of ruptures; the order of all the pairs
and triples of collections with up to 2 sources of 6 regions.
"""
import itertools
from mclib import check, fail, seqs
import srcgen
from openquake.commonlib import source

QUICK_SHARDS = 2
TRT = srcgen.TRTS[0]
KINDS = [
    lambda id: srcgen.point(id, srcgen.incr(5.0, 0.5, (.1, .2))),
    lambda id: srcgen.area(id, srcgen.tgr(4.0, 7.0, 0.1)),
    lambda id: srcgen.simple(id, srcgen.incr(4.5, 0.1, (.1,))),
    lambda id: srcgen.cmplx(id, srcgen.tgr(5.0, 8.5, 0.5)),
    lambda id: srcgen.char(id, srcgen.incr(6.0, 1.0, (.1, .0, .3))),
    lambda id: srcgen.point(id, srcgen.incr(0.0, 0.5, (.1,)))]
# regions to be ordered
ORDER = srcgen.TRTS + ['active', 'ACTIVE SHALLOW', '']
INITIAL = [(None, None), (4.4, 6.6), (9.0, 1.0), (0.0, 0.0)]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for seq in seqs(range(len(KINDS)), n):
        yield ['update', seq]
    for seq in seqs(range(len(KINDS)), 2):
        yield ['trt', seq]
    for seq in seqs(range(len(KINDS)), n):
        yield ['ruptures', seq]
    colls = [[t, n] for t in range(len(ORDER)) for n in range(3)]
    for a in colls:
        for b in colls:
            yield ['order', a, b]


def build(seq):
    return [KINDS[k]('s%d' % i) for i, k in enumerate(seq)]


def check_stats(sc, srcs, lo, hi, what):
    check(sc.trt == TRT, 'trt', 'the TRT is %s', sc.trt)
    check(isinstance(sc.sources, list) and len(sc.sources) == len(srcs) and
          all(a is b for a, b in zip(sc.sources, srcs)), 'sources',
          '%s: the sources are %s instead of %s', what, sc.sources, srcs)
    mags = [s.mfd.get_min_max_mag() for s in srcs]
    mins = [m[0] for m in mags] + ([lo] if lo is not None else [])
    maxs = [m[1] for m in mags] + ([hi] if hi is not None else [])
    check(sc.min_mag == (min(mins) if mins else None), 'min_mag',
          '%s: min_mag is %s for %s', what, sc.min_mag, mags)
    check(sc.max_mag == (max(maxs) if maxs else None), 'max_mag',
          '%s: max_mag is %s for %s', what, sc.max_mag, mags)


def run_update(T, seq):
    for lo, hi in INITIAL if len(seq) < 3 else INITIAL[:2]:
        for cut in range(len(seq) + 1):
            srcs = build(seq)
            given = srcs[:cut]
            kw = {} if lo is None else dict(min_mag=lo, max_mag=hi)
            if cut or kw:
                sc = source.SourceCollector(TRT, given, **kw)
            else:
                sc = source.SourceCollector(TRT)
            check_stats(sc, srcs[:cut], lo, hi, 'built with %s' % given)
            check(sc.num_ruptures == 0, 'initial', '%d ruptures',
                  sc.num_ruptures)
            for i in range(cut, len(srcs)):
                sc.update(srcs[i])
                check_stats(sc, srcs[:i + 1], lo, hi, 'after %d updates' % i)
                T.step()
            if srcs:  # the same source again
                sc.update(srcs[0])
                check_stats(sc, srcs + srcs[:1], lo, hi, 'repeating a source')
            check(len(given) == cut, 'given', 'the given list was changed')
            T.state(seq[:cut], seq, lo)
    # filtering
    srcs = build(seq)
    sc = source.SourceCollector(TRT, srcs, 7, 0.5, 11.)
    for mask in itertools.product([0, 1], repeat=len(srcs)):
        seen = []

        def src_filter(src):
            seen.append(src)
            i = [j for j, s in enumerate(srcs) if s is src][0]
            return srcgen.SITES[(sum(mask) + 3 * i) % len(
                srcgen.SITES)] if mask[i] else None
        new = sc.filter_sources(src_filter)
        check(isinstance(new, source.SourceCollector) and new is not sc,
              'filter-type', 'got %r', new)
        check(len(seen) == len(srcs) and
              all(a is b for a, b in zip(seen, srcs)), 'filter-calls',
              'the filter was called with %s for %s', seen, srcs)
        kept = [s for s, m in zip(srcs, mask) if m]
        check_stats(new, kept, None, None, 'filtered with %s' % (mask,))
        check(new.num_ruptures == 0, 'filter-ruptures', 'there are %s '
              'ruptures in the filtered', new.num_ruptures)
        check_stats(sc, srcs, 0.5, 11., 'after filtering')
        new.update(KINDS[0]('new'))
        check_stats(sc, srcs, 0.5, 11., 'after changing the filtered')
        check(sc.num_ruptures == 7, 'num_ruptures', 'changed by the filter')
        T.step()
        T.state(seq, mask)
    T.trace()
    T.outcome('%d sources' % len(seq))


def run_trt(T, seq):
    srcs = build(seq)
    sc = source.SourceCollector(TRT, srcs)
    other = srcgen.point('other', srcgen.incr(1.0, 9.0, (1, 1)),
                         srcgen.TRTS[1])
    try:
        sc.update(other)
    except AssertionError:
        check_stats(sc, srcs, None, None, 'after a rejected source')
    else:
        fail('other-trt', 'a source of another TRT was added')
    try:
        source.SourceCollector(TRT, srcs + [other])
    except AssertionError:
        pass
    else:
        fail('other-trt', 'a source of another TRT was added')
    T.step(2)
    T.state('trt', seq)
    T.trace()
    T.outcome('rejected')


def run_ruptures(T, seq):
    for initial in (0, 5):
        srcs = build(seq)
        sc = source.SourceCollector(TRT, num_ruptures=initial)
        tot = initial
        for src in srcs:
            sc.update(src)
            check(sc.num_ruptures == tot, 'num_ruptures', 'got %s',
                  sc.num_ruptures)
            n = sc.update_num_ruptures(src)
            tot += src.count_ruptures()
            check(n == src.count_ruptures(), 'weight', 'got %s', n)
            check(sc.num_ruptures == tot, 'num_ruptures',
                  'got %s instead of %s', sc.num_ruptures, tot)
            T.step()
        for src in srcs:  # the current number of ruptures
            src.mfd = srcgen.incr(5.0, 0.5, (.1, .2, .3, .4, .5))
            n = sc.update_num_ruptures(src)
            tot += src.count_ruptures()
            check((n, sc.num_ruptures) == (src.count_ruptures(), tot),
                  'changed-source', 'got %s, %s instead of %s', n,
                  sc.num_ruptures, tot)
            T.step()
        T.state('ruptures', seq, initial)
    T.trace()
    T.outcome('ruptures')


def collector(t, n):
    sc = source.SourceCollector(ORDER[t])
    for i in range(n):
        sc.update(srcgen.point(str(i), srcgen.incr(), ORDER[t]))
    return sc


def run_order(T, a, b):
    x, y = collector(*a), collector(*b)
    want = (a[1], ORDER[a[0]]) < (b[1], ORDER[b[0]])
    check((x < y) is want, 'lt', '%r < %r is %s', x, y, x < y)
    check((y > x) is want, 'gt', '%r > %r is %s', y, x, y > x)
    for c in [[t, n] for t in range(3) for n in range(3)]:
        z = collector(*c)
        got = sorted([x, y, z])
        keys = [(len(s.sources), s.trt) for s in got]
        check(keys == sorted(keys), 'sorted', 'got %s', got)
        T.step()
        T.state('order', a, b, c)
    T.trace()
    T.outcome('order')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
