"""
All the source models of up to 4 sources (thorough: 5) over 3 identifiers, 3
tectonic regions (different or similar, with different magnitudes depending on the position), with
and without uncertainties changing the magnitudes; all the models of up to 12
sources with distinct identifiers distributed over 2 regions and one or two
duplicates in each position; all the pairs of kinds of sources through the
real converter and in all the orders.
"""
import itertools
from mclib import check, fail, seqs
import srcgen
import nrmlsrc
from openquake.commonlib import source
from openquake.nrmllib.hazard import parsers

QUICK_SHARDS = 3
IDS = ['a', 'A', 'a-0']
TRTS = srcgen.TRTS
SIMILAR = [['Volcanic', ' Volcanic', 'Volcanic '],
           ['Volcanic', 'volcanic', 'Vol canic'], ['', ' ', u'Volcanic'],
           ['1', '01', '1.0']]
MFDS = [(5.0, 0.5, (.1, .2)), (4.0, 0.1, (.1,)), (6.0, 1.0, (.1, .2, .3)),
        (5.0, 0.5, (.1,)), (0.0, 9.5, (.1, .1))]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for trts in seqs(range(3), n):
        yield ['model', trts]
    for num in range(1, 13):
        for trts in ([0] * num, [i % 2 for i in range(num)]):
            yield ['long', trts]
    for kinds in seqs(sorted(nrmlsrc.MAKERS), 2, 1):
        yield ['real', kinds]


def parse(models, converter, *apply):
    parsers.MODELS['/model.xml'] = models
    try:
        return source.parse_source_model('/model.xml', converter, *apply)
    finally:
        parsers.MODELS.clear()


class Raw(object):
    """What is read from the file"""
    def __init__(self, id, trt, i):
        self.id, self.trt, self.i = id, trt, i


def compare(T, ids, trts, with_apply, TRTS=TRTS):
    """Parse a model and compare with the reference"""
    raw = [Raw(id, TRTS[t], i) for i, (id, t) in enumerate(zip(ids, trts))]
    converted, applied = [], []

    def converter(src):
        converted.append(src.i)
        new = srcgen.point(src.id, srcgen.incr(*MFDS[src.i % len(MFDS)]),
                           src.trt)
        new.i = src.i
        return new

    def apply_uncertainties(src):
        applied.append(src.i)
        src.mfd.min_mag += 1 + src.i % 2
        src.mfd.bin_width *= 2
        return [None, True, False, src, 0][src.i % 5]  # ignored
    args = [apply_uncertainties] if with_apply else []
    what = 'the model %s' % zip(ids, [TRTS[t] for t in trts])
    dupl = [id for i, id in enumerate(ids) if id in ids[:i]]
    try:
        colls = parse(raw, converter, *args)
    except source.DuplicateID as e:
        check(dupl, 'false-duplicate', '%s: got %s', what, e)
        check(dupl[0] in str(e).split(), 'duplicate-name',
              '%s: the error is %s', what, e)
        T.outcome('duplicate')
        return
    finally:
        T.step(len(ids))
    check(not dupl, 'duplicate', '%s is accepted: %s', what, colls)
    n = len(ids)
    check(sorted(converted) == range(n), 'converted', '%s: converted %s',
          what, converted)
    check(sorted(applied) == (range(n) if with_apply else []), 'applied',
          '%s: uncertainties applied to %s', what, applied)
    want = {}
    for i, t in enumerate(trts):
        want.setdefault(TRTS[t], []).append(i)
    order = sorted(want, key=lambda trt: (len(want[trt]), trt))
    check(isinstance(colls, list) and [c.trt for c in colls] == order,
          'order', '%s: got %s instead of %s', what, colls, order)
    for coll in colls:
        idxs = want[coll.trt]
        check([s.i for s in coll.sources] == idxs, 'sources',
              '%s: the sources of %s are %s', what, coll.trt,
              [s.i for s in coll.sources])
        lo, hi = [], []
        for i in idxs:
            min_mag, width, rates = MFDS[i % len(MFDS)]
            if with_apply:
                min_mag += 1 + i % 2
                width *= 2
            lo.append(min_mag)
            hi.append(min_mag + width * (len(rates) - 1))
        check((coll.min_mag, coll.max_mag) == (min(lo), max(hi)), 'mags',
              '%s: the magnitudes of %s are %s-%s instead of %s-%s', what,
              coll.trt, coll.min_mag, coll.max_mag, min(lo), max(hi))
        check(coll.num_ruptures == 0, 'num_ruptures', 'got %s',
              coll.num_ruptures)
    T.state(ids, trts, with_apply, order)


def run_model(T, trts):
    for ids in itertools.product(IDS, repeat=len(trts)):
        for with_apply in (0, 1):
            compare(T, list(ids), trts, with_apply)
    ids = map(str, range(len(trts)))
    for with_apply in (0, 1):
        compare(T, ids, trts, with_apply)
        for similar in SIMILAR:
            compare(T, ids, trts, with_apply, similar)
    T.trace()
    T.outcome('%d sources' % len(trts))


def run_long(T, trts):
    ids = ['s%d' % i for i in range(len(trts))]
    compare(T, ids, trts, 1)
    for i in range(len(ids)):
        for j in range(i):
            dup = list(ids)
            dup[i] = dup[j]
            compare(T, dup, trts, 0)
            compare(T, dup[::-1], trts[::-1], 1)
    T.trace()
    T.outcome('long')


def run_real(T, kinds):
    """The real converter"""
    converter = source.NrmlHazardlibConverter(50., 2., .5, 10.)
    for t1, t2 in itertools.product(TRTS[:2], repeat=2):
        models = [nrmlsrc.MAKERS[k](id='id%d' % i, trt=t)
                  for i, (k, t) in enumerate(zip(kinds, [t1, t2]))]
        colls = parse(models, converter)
        got = dict((c.trt, map(srcgen.snapshot, c.sources)) for c in colls)
        want = {}
        for m in models:
            want.setdefault(m.trt, []).append(srcgen.snapshot(converter(m)))
        check(got == want, 'real', 'got %s instead of %s', got, want)
        T.step(len(models))
        T.state(kinds, t1, t2)
        if len(models) == 2:
            models[1].id = models[0].id
            try:
                colls = parse(models, converter)
            except source.DuplicateID:
                pass
            else:
                fail('real-duplicate', 'got %s', colls)
    T.trace()
    T.outcome('real')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
