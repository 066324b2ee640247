"""
All the ground motion trees of up to 4 levels (thorough: 5) of 1 to 3
branches x 5 schemes of identifiers (increasing, decreasing, mixed, with
numbers not in alphabetic order, the same branch identifiers reversed) x all
the sets of region types, with the same model once or twice, from files and file-like objects: realizations,
weights, counts of branches and paths, sampling with a grid of random
numbers, repeated iterations. The order of the realizations is checked only
when the identifiers are increasing. All the violations (several branch sets
in a level, other uncertainties, repeated regions, no branches, wrong
weights, repeated keys, wrong filter) at all the positions.
"""
import itertools
from StringIO import StringIO
from decimal import Decimal
from mclib import check, outcome_of
import ltgen
from openquake.commonlib import logictree
from props.T02 import Dice

QUICK_SHARDS = 4
TRT = 'applyToTectonicRegionType'
TRTS = ['Volcanic', 'Active Shallow Crust', 'Subduction Interface',
        'Stable Shallow Crust', 'Shield']
GSIMS = ['SadighEtAl1997', 'ChiouYoungs2008', 'ToroEtAl2002']
# names of the branch sets and of the branches of the level l
SCHEMES = [
    (lambda l: 'bs%d' % (l + 1), lambda l, i: 'b%d%d' % (l + 1, i + 1)),
    (lambda l: 'bs%d' % (9 - l), lambda l, i: 'b%d%d' % (9 - l, 9 - i)),
    (lambda l: 'bs%s' % 'CADBE'[l], lambda l, i: 'b%s' % (
        'zabcdefghijklmn'[(l * 7 + i * 5) % 15])),
    (lambda l: 'bs%d' % (9 + l), lambda l, i: 'b%d' % (9 * (l + 1) + i)),
    (lambda l: 'bs%d' % (l + 1), lambda l, i: 'b%d%d' % (9 - l, 9 - i))]


def make_tree(seq, scheme, w=0):
    bs, br = SCHEMES[scheme]
    return [[ltgen.bset(bs(l), 'gmpeModel', [
        (br(l, i), GSIMS[(i + l) % (3 - w)], wt) for i, wt in enumerate(
            ltgen.WEIGHTS[n][(w + l) % len(ltgen.WEIGHTS[n])])],
        {TRT: TRTS[l]})] for l, n in enumerate(seq)]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for depth in range(1, n + 1):
        for seq in itertools.product((1, 2, 3), repeat=depth):
            for scheme in range(len(SCHEMES)):
                if depth == n and sum(seq) > 2 * n:
                    continue
                yield ['tree', list(seq), scheme]
    for depth in (1, 2, 3):
        for seq in itertools.product((1, 2), repeat=depth):
            yield ['errors', list(seq)]


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])


def run_tree(T, seq, scheme):
    for w in range(2):
        tree = make_tree(seq, scheme, w)
        text, _ = ltgen.to_xml(tree, pad='\n  ' if w else '')
        for mask in range(2 ** len(seq)):
            known = [TRTS[l] for l in range(len(seq)) if mask & (1 << l)]
            if w and mask % 2:
                known.reverse()
            T.state(seq, scheme, w, mask)
            if mask == 2 ** len(seq) - 1 and len(seq) < 3:
                with ltgen.Scratch() as s:
                    lt = logictree.GsimLogicTree(
                        s.write('lt.xml', text), TRT, known)
            else:
                lt = logictree.GsimLogicTree(
                    StringIO(text), TRT, [tuple, list, set][w + mask % 2](
                        known))
            check_lt(T, lt, [lv[0] for lv in tree
                             if lv[0]['filters'][TRT] in known], scheme)


def check_lt(T, lt, levels, scheme):
    trts = [bs['filters'][TRT] for bs in levels]
    expected = {}
    order = []
    for combo in itertools.product(*[bs['branches'] for bs in levels]):
        ids = tuple(b[0] for b in combo)
        expected[frozenset(zip(trts, ids))] = (
            dict(zip(trts, [b[1] for b in combo])), ltgen.weight(combo))
        order.append(ids)
    trt_of = dict((b[0], bs['filters'][TRT])
                  for bs in levels for b in bs['branches'])
    rlzs = list(lt)
    T.step(len(rlzs))
    check(len(rlzs) == len(expected), 'number', '%d realizations instead of '
          '%d: %s', len(rlzs), len(expected), [r.lt_path for r in rlzs])
    check(list(lt) == rlzs, 'not-repeatable', 'the realizations changed')
    positions = None
    seen = set()
    for rlz in rlzs:
        check(isinstance(rlz.lt_path, tuple) and
              len(rlz.lt_path) == len(trts), 'lt_path', 'the path is %r',
              rlz.lt_path)
        pos = [trt_of.get(id) for id in rlz.lt_path]
        positions = positions or pos
        check(pos == positions and len(set(pos)) == len(trts), 'positions',
              'the path is %s, for the regions %s, after %s', rlz.lt_path,
              pos, positions)
        key = frozenset(zip(pos, rlz.lt_path))
        check(key in expected and key not in seen, 'combination',
              'the path is %s', rlz.lt_path)
        seen.add(key)
        value, weight = expected[key]
        check(rlz.value == value, 'value', 'the models of %s are %s instead '
              'of %s', rlz.lt_path, rlz.value, value)
        check(rlz.weight == weight, 'weight', 'the weight of %s is %r '
              'instead of %s', rlz.lt_path, rlz.weight, weight)
    check(sum(r.weight for r in rlzs) == 1, 'sum', 'the sum is not 1')
    if scheme == 0:
        check([r.lt_path for r in rlzs] == order, 'order',
              'the order is %s instead of %s', [r.lt_path for r in rlzs],
              order)
    check(lt.get_num_branches() == dict(
        (bs['id'], len(bs['branches'])) for bs in levels), 'num_branches',
        'the numbers of branches are %s', lt.get_num_branches())
    check(lt.get_num_paths() == len(expected), 'num_paths',
          'the number of paths is %s instead of %d', lt.get_num_paths(),
          len(expected))
    check(dict((k, list(v)) for k, v in lt.values.items() if v) == dict(
        (bs['filters'][TRT], [b[1] for b in bs['branches']])
        for bs in levels), 'values', 'the models are %s', dict(lt.values))
    if len(rlzs) <= 12:
        acc = Decimal(0)
        for rlz in rlzs:
            if rlz.weight:
                roll = float(acc + rlz.weight / 2)
                got = logictree.sample_one(lt, Dice([roll]))
                check(got == rlz, 'sample', '%s drawn with %s instead of %s',
                      got, roll, rlz)
                T.step()
            acc += rlz.weight
    T.trace()


def reject(T, tree, known, cls, what, filter=TRT):
    text, _ = ltgen.to_xml(tree)
    res = outcome_of(logictree.GsimLogicTree, StringIO(text), filter, known)
    T.step()
    T.outcome(cls)
    check(res[:2] == ('error', cls), 'accepted', '%s with %s: %s\n%s',
          what, known, res, text)


def run_errors(T, seq):
    n = len(seq)
    trts = TRTS[:n]
    extra = ltgen.bset('x', 'gmpeModel', [('x1', GSIMS[0], '1')],
                       {TRT: 'Shield'})
    for l in range(n):
        known_sets = [trts, [trts[l]], ['Shield'] + trts]
        for known in known_sets:
            for pos in (0, 1):
                tree = make_tree(seq, 0)
                tree[l].insert(pos, extra)
                reject(T, tree, known, 'InvalidLogicTree', 'two branch sets')
            for type in ('bGRRelative', 'sourceModel', 'gmpemodel', ''):
                tree = make_tree(seq, 0)
                tree[l][0]['type'] = type
                reject(T, tree, known, 'InvalidLogicTree', 'type')
            for ws in (['0.9'], ['1.1'], ['0.5', '0.4'], ['0.7', '0.7'],
                       ['0.3333'] * 3, ['0.' + '3' * 18] * 3, ['1.0000001']):
                tree = make_tree(seq, 0)
                tree[l][0]['branches'] = [
                    ('w%d' % i, GSIMS[0], w) for i, w in enumerate(ws)]
                reject(T, tree, known, 'AssertionError', 'weights')
        for m in range(n):
            if m == l:
                continue
            tree = make_tree(seq, 0)
            tree[l][0]['filters'][TRT] = tree[m][0]['filters'][TRT]
            others = [t for t in trts if t != trts[m]]
            for known in (trts, [trts[m]], others, others[:1]):
                reject(T, tree, known, 'InvalidLogicTree', 'repeated region')
        tree = make_tree(seq, 0)
        for known in ([trts[l]] * 2, trts + [trts[l]],
                      [trts[l]] + trts):
            reject(T, tree, known, 'ValueError', 'repeated keys')
    tree = make_tree(seq, 0)
    for known in (['Shield'], ['Shield', 'x'], [trts[0].lower()]):
        reject(T, tree, known, 'InvalidLogicTree', 'no branches')
    for filter in ('applyToSources', 'applyToSourceType', '', 'x'):
        reject(T, tree, trts, 'AssertionError', 'filter', filter)
    T.state('errors', seq)
    T.trace()
