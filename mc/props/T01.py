"""
Trees built with the API: all the trees of depth up to 3 with up to 2
branches per branch set (thorough: depth 4), all the trees of depth up to 2
with up to 3 branches, and shared branch sets, each with 3 assignments of
weights. Trees read from XML: all the sequences of 1 to 3 levels (thorough:
4) of 1 to 3 branches, with up to 6 assignments of weights, with and without
validation, of source models (with 9 forms of names) and of ground motion
models: paths, order,
exact weights, the values and identifiers of the realizations, twice.
"""
import itertools
from decimal import Decimal
from mclib import check, prod
import ltgen
from openquake.commonlib import logictree

QUICK_SHARDS = 2


def shapes(depth, maxbr):
    """All the trees: a tree is a list of children (None or tree)"""
    if depth == 0:
        return []
    options = [None] + shapes(depth - 1, maxbr)
    return [list(c) for n in range(1, maxbr + 1)
            for c in itertools.product(options, repeat=n)]


def cases(tier):
    api = shapes(3, 2) if tier == 'quick' else shapes(4, 2)
    for i in range(0, len(api), 30):
        yield ['api', api[i:i + 30]]
    api = shapes(2, 3)
    for i in range(0, len(api), 30):
        yield ['api', api[i:i + 30]]
    n = 3 if tier == 'quick' else 4
    for depth in range(1, n + 1):
        for seq in itertools.product((1, 2, 3), repeat=depth):
            yield ['shared', list(seq)]
            for w in range(6 if 2 in seq else 4):
                yield ['xml', list(seq), w]


def weights(n, w):
    ws = ltgen.WEIGHTS[n]
    return ws[w % len(ws)]


def build(shape, w, name='b', ref=None):
    bs = logictree.BranchSet('sourceModel' if name == 'b' else 'bGRRelative',
                             {})
    for i, (child, weight) in enumerate(zip(shape, weights(len(shape), w))):
        br = logictree.Branch('%s%d' % (name, i), Decimal(weight), 'v%d' % i)
        bs.branches.append(br)
        if child is not None:
            br.child_branchset = build(child, w + i + 1, br.branch_id)
    return bs


def ref_paths(bs):
    for br in bs.branches:
        if br.child_branchset is None:
            yield [br]
        else:
            for p in ref_paths(br.child_branchset):
                yield [br] + p


def check_paths(T, root):
    expected = list(ref_paths(root))
    T.step(len(expected))
    T.trace()
    for time in range(2):
        got = list(root.enumerate_paths())
        check(len(got) == len(expected), 'number',
              '%d paths instead of %d', len(got), len(expected))
        total = Decimal(0)
        for (w, path), exp in zip(got, expected):
            check(list(path) == exp, 'path', 'the path is %s instead of %s',
                  [b.branch_id for b in path], [b.branch_id for b in exp])
            ew = Decimal(1)
            for br in exp:
                ew *= br.weight
            check(isinstance(w, Decimal) and w == ew, 'weight',
                  'the weight of %s is %r instead of %r',
                  [b.branch_id for b in path], w, ew)
            total += w
        check(total == 1, 'sum', 'the weights sum to %s', total)


def run(case, T):
    kind = case[0]
    if kind == 'api':
        for shape in case[1]:
            for w in range(3):
                root = build(shape, w)
                T.state('api', shape, w)
                check_paths(T, root)
    elif kind == 'shared':
        for w in range(4):
            levels = []
            for l, n in enumerate(case[1]):
                levels.append(build([None] * n, w + l, 'l%d_' % l))
            for a, b in zip(levels, levels[1:]):
                for br in a.branches:
                    br.child_branchset = b
            T.state('shared', case[1], w)
            check_paths(T, levels[0])
            # from an inner level only the deeper ones
            check_paths(T, levels[-1])
    else:
        run_xml(T, case[1], case[2])


NAMES = ['./a.xml', 'a//b.xml', 'x/../a.xml', '/abs/m.xml', 'A.XML',
         'a b.xml', '../m.xml', 'dir/', 'http://host/m.xml']
TYPES = [('bGRRelative', ['0.1', '-0.2', '+.3']),
         ('maxMagGRRelative', ['1', '0', '-1']),
         ('bGRRelative', ['1.5', '2.5', '3.5'])]
GSIMS = ['SadighEtAl1997', 'ChiouYoungs2008', 'ToroEtAl2002']


def sm_tree(seq, w):
    tree = []
    for l, n in enumerate(seq):
        type, vals = ('sourceModel', ['sm0', 'sm1', 'sm2']) if l == 0 \
            else TYPES[(l - 1) % 3]
        tree.append([ltgen.bset('bs%d' % l, type, [
            ('b%d_%d' % (l, i), vals[i], wt)
            for i, wt in enumerate(weights(n, w + l))])])
    return tree


def gmpe_tree(seq, w):
    return [[ltgen.bset('bs%d' % l, 'gmpeModel', [
        ('b%d_%d' % (l, i), GSIMS[(i + l) % 3], wt)
        for i, wt in enumerate(weights(n, w + l))],
        {'applyToTectonicRegionType': 'TRT%d' % l})]
        for l, n in enumerate(seq)]


def check_lt(T, lt, tree, value):
    ref = ltgen.RefTree(tree)
    expected = ref.paths()
    for time in range(2):
        rlzs = list(lt)
        T.step(len(expected))
        check(len(rlzs) == len(expected), 'number',
              '%d realizations instead of %d', len(rlzs), len(expected))
        for rlz, path in zip(rlzs, expected):
            ids = tuple(b[0] for b in path)
            check(isinstance(rlz, tuple) and len(rlz) == 3, 'realization',
                  'the realization is %r', rlz)
            check(isinstance(rlz.lt_path, tuple) and rlz.lt_path == ids,
                  'lt_path', 'the path is %r instead of %r', rlz.lt_path, ids)
            check(rlz.weight == ltgen.weight(path), 'weight',
                  'the weight of %s is %r', ids, rlz.weight)
            check(rlz.value == value(path[0][1]), 'value',
                  'the value of %s is %r', ids, rlz.value)
        check(sum(r.weight for r in rlzs) == 1, 'sum', 'the sum is not 1')
    T.trace()


def run_xml(T, seq, w):
    with ltgen.Scratch(**dict(('sm%d' % i, ltgen.source_model([]))
                              for i in range(3))) as s:
        tree = sm_tree(seq, w)
        text, _ = ltgen.to_xml(tree)
        names = NAMES[w % 3::3][:len(tree[0][0]['branches'])]
        for branch, name in zip(tree[0][0]['branches'], names):
            branch[1] = name  # kept as it is written
        lt = logictree.SourceModelLogicTree(
            ltgen.to_xml(tree)[0], s.path, 'lt.xml', False)
        check_lt(T, lt, tree, str)
        tree = sm_tree(seq, w)
        for validate in (True, False):
            for content in (text, text.decode('ascii')):
                lt = logictree.SourceModelLogicTree(
                    content, s.path, 'lt.xml', validate)
                T.state('sm', seq, w)
                check_lt(T, lt, tree, str)
    tree = gmpe_tree(seq, w)
    text, _ = ltgen.to_xml(tree, pad='\n\t ' if w % 2 else '')
    for validate in (True, False):
        lt = logictree.GMPELogicTree(
            ['TRT%d' % i for i in range(len(seq))], text, 'base', 'lt.xml',
            validate)
        T.state('gmpe', seq, w)
        check_lt(T, lt, tree, logictree.GSIM.__getitem__)
