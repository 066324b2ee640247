"""
All the ground motion trees of up to 4 levels (thorough: 5) with 1 to 2
branches for each level (3 up to the third), for all the non empty sets of
region types of the source model, as lists in two orders, sets and tuples,
with and without validation: the enumerated paths, the models assigned by
each path, the sampled paths; the path as list, tuple and realization. All
the levels with unknown region types are skipped, wherever they are. All
the levels of 3 out of 5 similar region types.
"""
import itertools
from mclib import check, outcome_of
import ltgen
from openquake.commonlib import logictree
from props.T02 import Dice

QUICK_SHARDS = 3
TRTS = ['Active Shallow Crust', 'Volcanic', 'Stable Shallow Crust',
        'Subduction Interface', 'Subduction IntraSlab']
SIMILAR = ['Volcanic', 'Volcanic ', 'volcanic', 'Volcanic Crust', ' Volcanic']
GSIMS = ['SadighEtAl1997', 'ChiouYoungs2008', 'ToroEtAl2002']
TRT = 'applyToTectonicRegionType'


def make_tree(seq, order, shift=0, TRTS=TRTS):
    return [[ltgen.bset('bs%d' % l, 'gmpeModel', [
        ('b%d_%d' % (l, i), GSIMS[(i + l + shift) % 3], w)
        for i, w in enumerate(ltgen.WEIGHTS[n][0])],
        {TRT: TRTS[order[l]]})] for l, n in enumerate(seq)]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for depth in range(1, n + 1):
        top = (1, 2, 3) if depth < n or depth < 4 else (1, 2)
        for seq in itertools.product(top, repeat=depth):
            yield ['tree', list(seq), range(depth)]
    for order in itertools.permutations(range(3)):
        yield ['tree', [2, 1, 3], list(order)]
    for order in itertools.permutations(range(4), 3):
        yield ['tree', [1, 2, 2], list(order)]
    for order in itertools.permutations(range(5), 3):
        yield ['similar', [2, 1, 2], list(order)]


def run(case, T):
    kind, seq, order = case
    TRTS = SIMILAR if kind == 'similar' else globals()['TRTS']
    for mask in range(1, 2 ** len(seq)):
        known = [TRTS[order[l]] for l in range(len(seq)) if mask & (1 << l)]
        for variant in range(2):
            check_tree(T, seq, order, known, variant, TRTS)
    # a region of the source model which is not in the tree
    tree = make_tree(seq, order, 0, TRTS)
    text, pos = ltgen.to_xml(tree)
    trts = [TRTS[i] for i in order] + ['Other']
    res = outcome_of(logictree.GMPELogicTree, trts, text, '', 'lt.xml')
    check(res[:2] == ('error', 'ValidationError') and
          res[2].lineno == pos['tree'], 'missing', 'the region Other: %s',
          res)
    T.trace()


def check_tree(T, seq, order, known, variant, TRTS):
    tree = make_tree(seq, order, variant, TRTS)
    text, _ = ltgen.to_xml(tree)
    trts = [known, known[::-1], tuple(known), set(known)][
        (len(seq) + variant + len(known)) % 4]
    lt = logictree.GMPELogicTree(trts, text, '', 'lt.xml', variant == 0)
    ref = ltgen.RefTree([[bs for bs in level if bs['filters'][TRT] in known]
                         for level in tree])
    paths = ref.paths()
    rlzs = list(lt)
    T.step(len(paths))
    T.state(seq, order, known)
    check([r.lt_path for r in rlzs] == [tuple(b[0] for b in p)
                                        for p in paths], 'paths',
          'the paths are %s instead of %s for %s', [r.lt_path for r in rlzs],
          [[b[0] for b in p] for p in paths], known)
    check(sum(r.weight for r in rlzs) == 1, 'weights', 'the sum is not 1')
    for rlz, path in zip(rlzs, paths):
        exp = dict((bs['filters'][TRT], logictree.GSIM[br[1]])
                   for bs, br in ref.steps(path))
        check(set(exp) == set(known), 'harness', 'wrong reference')
        for ids in (rlz.lt_path, list(rlz.lt_path)):
            got = lt.make_trt_to_gsim(ids)
            check(got == exp, 'trt_to_gsim',
                  'the models of %s are %s instead of %s', ids, got, exp)
            check(ids == type(ids)(rlz.lt_path), 'path-changed',
                  'the path became %s', ids)
        T.step()
    for rolls in itertools.product((0.0, 0.45, 0.99), repeat=len(known)):
        if len(known) > 2 and variant:
            break
        dice = Dice(rolls)
        value, ids = lt.sample_path(dice)
        check(dice.used == len(known) and len(ids) == len(known), 'sampling',
              'the sampled path is %s for %s', ids, known)
        check(sorted(lt.make_trt_to_gsim(ids)) == sorted(known), 'sampled',
              'the models of %s are %s', ids, lt.make_trt_to_gsim(ids))
    for bad in (['zz'] + ['b0_0'] * len(seq),):
        res = outcome_of(lt.make_trt_to_gsim, bad)
        check(res[:2] == ('error', 'AssertionError'), 'unknown-branch',
              'the path %s: %s', bad, res)
