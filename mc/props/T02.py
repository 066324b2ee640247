"""
`sample_one`, `sample`: all the assignments of weights in tenths to up to 4
branches (zero included; thorough: 5), as decimal and float numbers, each
with a grid of random numbers made of 0, the middle of each interval, both
sides of each boundary, the last number before 1; all the sequences of up to
3 of 4 random numbers for several samples; weights with a sum below 1.
`sample_path`: all the sequences of up to 3 levels of 1 to 3 branches, full
and with open ends, with all the sequences of random numbers of the grid.
Realizations: all these trees x numbers of samples x seeds, twice, against a
replay of the seed; all the interleavings of two iterations of 2 samples,
of the same tree or of two; trees read from a calculation. At the boundary between
two intervals either of them is accepted.
"""
import itertools
import random
from decimal import Decimal
from mclib import check, outcome_of, prod
import ltgen
from openquake.commonlib import logictree
from props.T01 import sm_tree, gmpe_tree

QUICK_SHARDS = 4
LAST = 1 - 2.0 ** -53
TOL = 1e-9


class Dice(object):
    """A scripted random number generator"""
    def __init__(self, rolls):
        self.rolls = list(rolls)
        self.used = 0

    def random(self):
        check(self.used < len(self.rolls), 'too-many-rolls',
              'more than %d random numbers consumed', len(self.rolls))
        self.used += 1
        return self.rolls[self.used - 1]


class Weighted(object):
    def __init__(self, name, weight):
        self.name = name
        self.weight = weight

    def __repr__(self):
        return '<%s %s>' % (self.name, self.weight)


def intervals(weights):
    acc, out = Decimal(0), []
    for w in weights:
        out.append((float(acc), float(acc + w)))
        acc += w
    return out


def allowed(weights, roll):
    """The indices of the items which can be drawn"""
    return [i for i, (lo, hi) in enumerate(intervals(weights))
            if weights[i] > 0 and lo - TOL <= roll < hi + TOL]


def grid(weights):
    out = set([0.0, LAST])
    for lo, hi in intervals(weights):
        for x in (lo - 1e-6, lo, lo + 1e-6, (lo + hi) / 2, hi - 1e-6, hi):
            if 0 <= x < 1:
                out.add(x)
    return sorted(out)


def partitions(n, total=10):
    if n == 1:
        yield [total]
        return
    for first in range(total + 1):
        for rest in partitions(n - 1, total - first):
            yield [first] + rest


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        ps = list(partitions(k))
        for i in range(0, len(ps), 40):
            yield ['one', ps[i:i + 40]]
    for k in (1, 2, 3):
        for p in partitions(k, 4):
            yield ['many', p]
    for k in (1, 2, 3):
        for total in range(0, 10, 3):
            for p in partitions(k, total):
                yield ['broken', p]
    for depth in (1, 2, 3):
        for seq in itertools.product((1, 2, 3), repeat=depth):
            for w in range(2 if depth == 3 and tier == 'quick' else 4):
                yield ['path', list(seq), w]
    for depth in (1, 2, 3):
        for seq in itertools.product((1, 2, 3), repeat=depth):
            yield ['rlz', list(seq), 1 if depth == 3 and tier == 'quick'
                   else 2]
    for seed in (0, 1, 42):
        for num in (0, 1, 5):
            yield ['hc', seed, num]


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])


def run_one(T, parts):
    for p in parts:
        for kind in (lambda x: Decimal(x) / 10, lambda x: x / 10.):
            decs = [Decimal(x) / 10 for x in p]
            items = [Weighted(i, kind(x)) for i, x in enumerate(p)]
            for roll in grid(decs):
                ok = allowed(decs, roll)
                if isinstance(items[0].weight, float) and roll == LAST and \
                        sum(i.weight for i in items) < 1:
                    continue  # rounding errors of the floats
                got = logictree.sample_one(items, Dice([roll]))
                T.step()
                check(any(got is items[i] for i in ok), 'wrong-branch',
                      '%s drawn from %s with %r', got, items, roll)
        T.state('one', p)
        T.trace()


def run_many(T, p):
    decs = [Decimal(x) / 4 for x in p]
    items = [Weighted(i, x) for i, x in enumerate(decs)]
    for n in range(4):
        for rolls in itertools.product((0.0, 0.3, 0.6, LAST), repeat=n):
            dice = Dice(rolls)
            got = logictree.sample(items, n, dice)
            T.step()
            check(dice.used == n, 'rolls', '%d random numbers used for %d '
                  'samples', dice.used, n)
            check(isinstance(got, list) and len(got) == n, 'samples',
                  '%s instead of %d samples', got, n)
            for g, roll in zip(got, rolls):
                check(any(g is items[i] for i in allowed(decs, roll)),
                      'wrong-sample', '%s drawn from %s with %s', got, items,
                      rolls)
            # an iterable which is not a list
            again = logictree.sample(tuple(items), n, Dice(rolls))
            check(again == got, 'not-repeatable', '%s after %s', again, got)
    T.state('many', p)
    T.trace()


def run_broken(T, p):
    decs = [Decimal(x) / 10 for x in p]
    items = [Weighted(i, x) for i, x in enumerate(decs)]
    total = float(sum(decs))
    for roll in (0.0, 0.15, 0.45, 0.75, 0.95):
        res = outcome_of(logictree.sample_one, items, Dice([roll]))
        T.step()
        T.outcome(res[0])
        ok = allowed(decs, roll)
        if not ok:
            check(res[0] == 'error' and res[1] == 'AssertionError',
                  'broken-weights', '%s drawn from %s with %s', res, items,
                  roll)
        else:
            check(res[0] == 'ok' and res[1] in [items[i] for i in ok],
                  'wrong-branch', '%s drawn from %s with %s', res, items,
                  roll)
    T.state('broken', p)
    T.trace()


def follow(ref, rolls):
    """All the acceptable paths, and how many numbers each one consumes"""
    out = []

    def go(bs, path):
        if bs is None:
            out.append(tuple(b[0] for b in path))
            return
        decs = [Decimal(b[2]) for b in bs['branches']]
        for i in allowed(decs, rolls[len(path)]):
            br = bs['branches'][i]
            go(ref.children.get(br[0]), path + [br])
    go(ref.root, [])
    return out


def trees(seq, w):
    """The full tree and the trees with some open ends"""
    yield sm_tree(seq, w)
    for l in range(1, len(seq)):
        if seq[l - 1] == 1:
            continue
        for i in range(seq[l - 1]):
            tree = sm_tree(seq, w)
            tree[l][0]['apply'] = [tree[l - 1][0]['branches'][i][0]]
            yield tree


def load(tree, path, **kw):
    text, _ = ltgen.to_xml(tree)
    return logictree.SourceModelLogicTree(
        text, path, 'lt.xml', validate=False, **kw)


def run_path(T, seq, w):
    for tree in trees(seq, w):
        lt = load(tree, '/nonexistent')
        ref = ltgen.RefTree(tree)
        grids = []
        for level in tree:
            decs = [Decimal(b[2]) for b in level[0]['branches']]
            grids.append([0.0, LAST] + [
                (lo + hi) / 2 for lo, hi in intervals(decs) if lo < hi])
        for rolls in itertools.product(*grids):
            dice = Dice(rolls)
            value, ids = lt.sample_path(dice)
            T.step()
            expected = follow(ref, rolls)
            check(tuple(ids) in expected, 'path',
                  'sampled %s instead of %s with %s', ids, expected, rolls)
            check(dice.used == len(ids), 'rolls',
                  '%d random numbers for %s', dice.used, ids)
            check(value == 'sm%s' % ids[0][-1], 'value',
                  '%s is the value of %s', value, ids)
        T.state('path', seq, w, repr(tree))
        T.trace()


def check_rlzs(T, lt, tree, seed, num, value):
    ref = ltgen.RefTree(tree)
    weights = [ltgen.weight(p) for p in ref.paths()]
    first = list(lt)
    second = list(lt)
    T.step()
    check(len(first) == num, 'number', '%d samples instead of %d',
          len(first), num)
    check(first == second, 'not-repeatable', '%s, then %s', first, second)
    rnd = random.Random(seed)
    valid = dict((tuple(b[0] for b in p), p) for p in ref.paths())
    for rlz in first:
        check(isinstance(rlz, tuple) and hasattr(rlz, 'lt_path') and
              hasattr(rlz, 'value') and hasattr(rlz, 'weight'),
              'realization', '%r is not a realization', rlz)
        check(isinstance(rlz.lt_path, tuple) and rlz.lt_path in valid,
              'invalid-path', '%s is not a path', rlz.lt_path)
        check(rlz.weight is None, 'weight', 'the weight is %s', rlz.weight)
        path = valid[rlz.lt_path]
        check(rlz.value == value(path[0][1]), 'value', '%s for %s',
              rlz.value, path)
        rolls = []
        for _ in path:
            rolls.append(rnd.random())
        check(rlz.lt_path in follow(ref, rolls), 'not-the-seed',
              '%s instead of %s with %s', rlz.lt_path, follow(ref, rolls),
              rolls)
    T.trace()


def run_rlz(T, seq, variants):
    for w in range(variants):
        for tree in trees(seq, w):
            for seed in (0, 1, 42, 2 ** 31 - 1, -2 ** 31):
                for num in (1, 4):
                    lt = load(tree, '/nonexistent', seed=seed,
                              num_samples=num)
                    check_rlzs(T, lt, tree, seed, num, str)
            T.state('rlz', seq, w, repr(tree))
        tree = gmpe_tree(seq, w)
        text, _ = ltgen.to_xml(tree)
        for seed in (0, 3) if len(seq) < 3 else ():
            check_interleaved(T, seq, w, seed)
        for seed in (0, 3):
            lt = logictree.GMPELogicTree(
                ['TRT%d' % i for i in range(len(seq))], text, '', 'lt.xml',
                seed=seed, num_samples=4)
            check_rlzs(T, lt, tree, seed, 4, logictree.GSIM.__getitem__)


def check_interleaved(T, seq, w, seed):
    """All the interleavings of two iterations over 2 samples each, of the
    same tree or of two trees with different seeds; another user of the global
    generator in the middle"""
    tree = sm_tree(seq, w)
    lts = [load(tree, '/nonexistent', seed=s, num_samples=2)
           for s in (seed, seed + 5)]
    want = [list(lt) for lt in lts]
    for i, j in ((0, 0), (0, 1)):
        for order in sorted(set(itertools.permutations([0, 0, 1, 1]))):
            its = [iter(lts[i]), iter(lts[j])]
            got = [[], []]
            for k in order:
                random.random()
                got[k].append(next(its[k]))
                T.step()
            check(got == [want[i], want[j]], 'interleaved', 'iterating in '
                  'the order %s gives %s instead of %s', order, got,
                  [want[i], want[j]])
        T.state('interleaved', seq, w, seed, i, j)
    T.trace()


class Calculation(object):
    def __init__(self, path, seed, num):
        self.base_path = path
        self.random_seed = seed
        self.number_of_logic_tree_samples = num
        self.inputs = {}


def run_hc(T, seed, num):
    for seq in ([2], [2, 3], [3, 1, 2]):
        tree, gtree = sm_tree(seq, 0), gmpe_tree(seq, 0)
        with ltgen.Scratch() as s:
            hc = Calculation(s.path, seed, num)
            hc.inputs['source_model_logic_tree'] = s.write(
                'sm.xml', ltgen.to_xml(tree)[0])
            hc.inputs['gsim_logic_tree'] = s.write(
                'gs.xml', ltgen.to_xml(gtree)[0])
            # the source models do not exist: they are not read again
            lt = logictree.SourceModelLogicTree.from_hc(hc)
            trts = ['TRT%d' % i for i in range(len(seq))]
            gt = logictree.GMPELogicTree.from_hc(hc, trts)
            for t, ref, val in [(lt, tree, str),
                                (gt, gtree, logictree.GSIM.__getitem__)]:
                check((t.seed, t.num_samples) == (seed, num), 'config',
                      'seed, samples = %s', (t.seed, t.num_samples))
                if num:
                    check_rlzs(T, t, ref, seed, num, val)
                else:
                    paths = [tuple(b[0] for b in p)
                             for p in ltgen.RefTree(ref).paths()]
                    check([r.lt_path for r in t] == paths, 'enumeration',
                          'the realizations are %s', list(t))
            T.state('hc', seed, num, seq)
            for missing in (0, 1):
                # the trees depend on the region types given
                if len(seq) > 1:
                    g = logictree.GMPELogicTree.from_hc(
                        hc, [t for t in trts if t != 'TRT%d' % missing])
                    for r in g:
                        check(len(r.lt_path) == len(seq) - 1, 'regions',
                              '%s with the regions %s', r.lt_path, trts)
