"""
All the sequences of up to 4 sources (thorough: 5) over 5 kinds of different
weight (points with 1 or 3 ruptures, an area, a fault, a characteristic
fault), with all the filters (returning 7 kinds
of not None values), with 9 maximum weights (integer and float,
reached exactly or not; 1 or 2 of them in turn for the longest sequences) and 2 discretizations of the areas; homogeneous and
mixed collections of 50, 100 and 300 sources. The splitting in parts is the
one decided by S03; the blocks are compared with a greedy model (tolerant to
rounding of the maximum weight).
"""
import itertools
from mclib import check, fail, seqs
import srcgen
from openquake.commonlib import source

QUICK_SHARDS = 3
TRT = srcgen.TRTS[0]
KINDS = [
    lambda id: srcgen.point(id, srcgen.incr(5.0, 0.5, (.1,))),
    lambda id: srcgen.point(id, srcgen.incr(5.0, 0.5, (.1,)), nplanes=3),
    lambda id: srcgen.area(id, srcgen.incr(5.0, 0.5, (.1, .2))),
    lambda id: srcgen.simple(id, srcgen.incr(5.0, 0.5, (.1, 0, .2))),
    lambda id: srcgen.char(id, srcgen.incr(6.0, 1.0, (.1, .2, .0, .3)))]
WEIGHTS = [1, 51, 100, 102.0, 150, 206, 250, 400.0, 10000]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for seq in seqs(range(len(KINDS)), n):
        yield ['blocks', seq]
    for num in (50, 100, 300):
        for k in list(range(5)) + [None] if num < 300 else [0, None]:
            yield ['many', num, k]


def greedy(weights, limit):
    """Lengths of the blocks"""
    blocks, tot = [], 0
    for w in weights:
        if blocks and tot + w <= limit:
            blocks[-1] += 1
            tot += w
        else:
            blocks.append(1)
            tot = w
    return blocks


def check_blocks(T, srcs, mask, max_weight, discr):
    sc = source.SourceCollector(TRT)
    for src in srcs:
        sc.update(src)
    kept = set(id for id, m in zip([s.source_id for s in srcs], mask) if m)
    seen = []

    def src_filter(src):
        seen.append(src.source_id)
        if src.source_id in kept:
            return srcgen.SITES[(len(seen) + len(kept)) % len(srcgen.SITES)]
    mags = sc.min_mag, sc.max_mag
    blocks = list(sc.gen_blocks(src_filter, max_weight, discr))
    want = []
    for src, m in zip(srcs, mask):
        if m:
            want.extend(source.split_source(src, discr))
    got = [s for block in blocks for s in block]
    what = 'with sources=%s, filter=%s, max_weight=%s' % (
        srcs[:9], mask[:9], max_weight)
    check([srcgen.snapshot(s) for s in got] ==
          [srcgen.snapshot(s) for s in want], 'content',
          '%s: got the blocks %s, expected to contain %s', what, blocks[:20],
          want[:50])
    check(seen == [s.source_id for s in srcs], 'filter-calls',
          '%s: the filter was called with %s', what, seen[:50])
    weights = [s.count_ruptures() for s in want]
    lens = map(len, blocks)
    n = len(srcs)
    limit = max_weight * float(n) / (n + 100)
    allowed = [greedy(weights, limit * f) for f in (1 - 1e-9, 1, 1 + 1e-9)]
    check(lens in allowed, 'greedy', '%s: the weights %s are grouped in '
          'blocks of length %s instead of %s', what, weights, lens,
          allowed[1])
    i = 0
    for block in blocks:
        ws = weights[i: i + len(block)]
        i += len(block)
        check(block.weight == sum(ws), 'weight', '%s: the weight of %s is '
              '%s instead of %s', what, block, block.weight, sum(ws))
        check(len(ws) == 1 or sum(ws) <= max_weight, 'heavy',
              '%s: the weight of %s is %s', what, block, block.weight)
    check(sc.num_ruptures == sum(weights), 'num_ruptures',
          '%s: num_ruptures=%s instead of %s', what, sc.num_ruptures,
          sum(weights))
    check(tuple(sc.filtered_sources) == (
        len(want), len(want) + n - sum(mask)), 'filtered_sources',
        '%s: filtered_sources=%s with %d kept and %d discarded', what,
        sc.filtered_sources, len(want), n - sum(mask))
    check([s.source_id for s in sc.sources] == [s.source_id for s in want],
          'sources', '%s: left the sources %s', what, sc.sources[:50])
    check((sc.min_mag, sc.max_mag) == mags, 'mags', 'magnitudes changed')
    T.step(len(blocks))
    T.state(n, tuple(mask), max_weight, discr, lens)


def run_blocks(T, seq):
    srcs = [KINDS[k]('s%d' % i) for i, k in enumerate(seq)]
    if not seq:
        sc = source.SourceCollector(TRT)
        try:
            list(sc.gen_blocks(lambda src: 1, 100, 10.))
        except AssertionError:
            return
        fail('empty', 'no error with an empty collection')
    before = map(srcgen.snapshot, srcs)
    for mask in itertools.product([0, 1], repeat=len(seq)):
        for max_weight in WEIGHTS if len(seq) < 4 else WEIGHTS[len(
                set(seq)) + sum(mask)::5]:
            check_blocks(T, srcs, mask, max_weight, 10.)
        if 2 in seq:
            check_blocks(T, srcs, mask, 150, 5.)
    check(map(srcgen.snapshot, srcs) == before, 'modified',
          'the sources were modified')
    T.trace()
    T.outcome('%d sources' % len(seq))


def run_many(T, num, k):
    srcs = [KINDS[i % 5 if k is None else k]('s%d' % i) for i in range(num)]
    for mod in (1, 2, 3, 7, 1000):
        mask = [int(i % mod == 0) for i in range(num)]
        for max_weight in (3, 6, 10., 25, 100):
            check_blocks(T, srcs, mask, max_weight, 10.)
    T.trace()
    T.outcome('many')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
