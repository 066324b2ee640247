"""
Source model trees with 1 to 3 branches in the first level; second levels of
1 or 2 branch sets (thorough: 3) of 1 or 2 branches, each applied to all the
sets of up to 2 branches (known, unknown or of the same branch set) or to
all the open ends; third levels of 1 or 2 branch sets applied to all the
sets of up to 2 branches of any level or to all the open ends (thorough:
fourth levels); levels with two branch sets without parents are excluded.
With and without validation: the whole structure, the paths and their
weights, or an error with the line of a wrong branch set.
"""
import itertools
from decimal import Decimal
from mclib import check, outcome_of
import ltgen
from openquake.commonlib import logictree

QUICK_SHARDS = 4
FILES = {'sm': ltgen.source_model([('point', 'p1', 'Volcanic')])}


def apply_sets(names, maxlen=2):
    """None, the single names, the pairs in both orders"""
    out = [None]
    for n in range(1, maxlen + 1):
        out.extend(list(t) for t in itertools.permutations(names, n))
    return out


def names(level, nb):
    return ['%s%d' % ('abcd'[level], i) for i in range(nb)]


def second_levels(n0, maxsets):
    """All the second levels: lists of (apply, number of branches)"""
    targets = names(0, n0) + ['zz', 'self']
    sets = [(a, n) for a in apply_sets(targets) for n in (1, 2)]
    for k in range(1, maxsets + 1):
        for combo in itertools.product(sets, repeat=k):
            if [a for a, _ in combo].count(None) > 1:
                continue
            if k == 3 and any(n == 2 or (a and len(a) > 1)
                              for a, n in combo):
                continue
            yield [list(c) for c in combo]


def build(n0, *levels):
    """The plain tree of the given numbers and parents"""
    tree = [[ltgen.bset('s0', 'sourceModel', zip(
        names(0, n0), ['sm'] * n0, weights(n0)))]]
    for l, level in enumerate(levels):
        l += 1
        sets = []
        for b, (apply, n) in enumerate(level):
            ids = ['%s_%d' % (x, b) for x in names(l, n)]
            if apply is not None:
                apply = [ids[0] if a == 'self' else a for a in apply]
            sets.append(ltgen.bset(
                's%d_%d' % (l, b), 'bGRRelative',
                zip(ids, ['0.1', '-0.1'], weights(n)), apply=apply))
        tree.append(sets)
    return tree


def weights(n):
    return {1: ['1'], 2: ['0.25', '0.75'], 3: ['0.2', '0.3', '0.5']}[n]


def cases(tier):
    maxsets = 2 if tier == 'quick' else 3
    for n0 in (1, 2, 3):
        for l, level in enumerate(second_levels(n0, maxsets)):
            if tier == 'quick' and n0 == 3 and len(level) == 2 and l % 3:
                if not (level[0][0] is None or level[1][0] is None):
                    continue
            yield [n0, level, tier != 'quick']


def errors(tree, pos):
    """The lines of the branch sets which cannot be applied"""
    lines = []
    defined, taken, opened = set(), set(), []
    for l, level in enumerate(tree):
        new = []
        for b, bs in enumerate(level):
            ids = [x[0] for x in bs['branches']]
            defined.update(ids)
            if l:
                if bs['apply']:
                    for a in bs['apply']:
                        if a not in defined or a in taken or a not in opened:
                            lines.append(pos['bs', l, b])
                        taken.add(a)
                else:
                    taken.update(opened)
            new += ids
        opened = new
    return lines


def compare(bs, ref, tree):
    check([b.branch_id for b in bs.branches] ==
          [b[0] for b in ref['branches']], 'branches',
          'the branches are %s instead of %s',
          [b.branch_id for b in bs.branches], ref['branches'])
    for br in bs.branches:
        child = tree.children.get(br.branch_id)
        if child is None:
            check(br.child_branchset is None, 'extra-child',
                  '%s has a child', br.branch_id)
        else:
            check(br.child_branchset is not None, 'missing-child',
                  '%s has no child instead of %s', br.branch_id, child)
            compare(br.child_branchset, child, tree)


def check_tree(T, tree, path):
    text, pos = ltgen.to_xml(tree)
    lines = errors(tree, pos)
    T.state(text)
    for validate in (True, False):
        res = outcome_of(logictree.SourceModelLogicTree, text, path,
                         'lt.xml', validate)
        T.step()
        if lines:
            T.outcome(res[1] if res[0] == 'error' else 'accepted')
            check(res[:2] == ('error', 'ValidationError') and
                  res[2].lineno in lines and res[2].filename == 'lt.xml' and
                  res[2].basepath == path, 'accepted',
                  'the tree has errors in the lines %s: %s\n%s', lines, res,
                  text)
            continue
        T.outcome('valid')
        check(res[0] == 'ok', 'rejected', 'rejected with %s:\n%s', res, text)
        lt = res[1]
        ref = ltgen.RefTree(tree)
        compare(lt.root_branchset, ref.root, ref)
        paths = ref.paths()
        rlzs = list(lt)
        check([(r.lt_path, r.weight) for r in rlzs] == [
            (tuple(b[0] for b in p), ltgen.weight(p)) for p in paths],
            'paths', 'the realizations are %s instead of %s', rlzs, paths)
        check(sum(r.weight for r in rlzs) == Decimal(1), 'sum', 'not 1')
    T.trace()


def run(case, T):
    n0, level, deep = case
    with ltgen.Scratch(**FILES) as s:
        tree = build(n0, level)
        check_tree(T, tree, s.path)
        if errors(tree, ltgen.to_xml(tree)[1]):
            return
        if len(level) == 2 and level[0][1] == 2 and level[1][1] == 2 and \
                not deep:
            return
        ids = [b[0] for bs in tree[1] for b in bs['branches']]
        targets = ids + ['a0', 'self']
        thirds = [[(a, n)] for a in apply_sets(targets)
                  for n in (1, 2)]
        thirds += [[(a, 1), (b, 1)] for a in [None] + [[i] for i in targets]
                   for b in [None] + [[i] for i in targets] if a or b]
        for third in thirds:
            t = build(n0, level, third)
            check_tree(T, t, s.path)
            if deep and len(third) == 1 and not errors(
                    t, ltgen.to_xml(t)[1]):
                for a in apply_sets([b[0] for b in t[2][0]['branches']] +
                                    ids[:1] + ['a0']):
                    check_tree(T, build(n0, level, third, [(a, 1)]), s.path)
