"""
Round trips NRML -> CSV -> NRML of all the vulnerability models with 1 or 2
sets (thorough: 3), 1 or 2 functions per set, 1 to 3 intensity levels, and a
small alphabet of measure types, categories, distributions, identifiers (with
separators and quotes, shared between the sets) and numbers. All the
substitutions (see nrmlsub) of each value, and of each pair of values, of a
model with 2 sets of 2 functions, and all the models where two values, or a
group of them, are the same (nrmlsub.coincidences); models with 300 functions, sets or levels.
"""
import itertools
from mclib import seqs
from nrmlgen import Tree, roundtrip
import nrmlsub

QUICK_SHARDS = 4
IMLS = [['5.00'], ['0.1', '2E-1'], ['1', '2.5', '10']]
RATIOS = ['0.00', '0.25', '1']
COEFFS = ['0.30', '0.1', '.5']
SETID = ['PAGER', 'A,1', 'n "q"']
FUNID = ['IR', 'B;x', "it's"]
IMTS = ['PGA', 'SA(0.1)', 'MMI']


def vset(i, imls, imt, cat, loss, funs):
    nodes = [Tree('IML', dict(IMT=imt), ' '.join(imls))]
    for j, (fid, dist, shift) in enumerate(funs):
        n = len(imls)
        nodes.append(Tree(
            'discreteVulnerability',
            dict(vulnerabilityFunctionID=fid,
                 probabilisticDistribution=dist), nodes=[
                Tree('lossRatio', text=' '.join(
                    RATIOS[(k + shift) % 3] for k in range(n))),
                Tree('coefficientsVariation', text='\n ' + ' '.join(
                    '0' if (k + shift) % 3 == 0 else COEFFS[(k + j + shift) % 3]
                    for k in range(n)))]))
    return Tree('discreteVulnerabilitySet', dict(
        vulnerabilitySetID=SETID[i], assetCategory=cat, lossCategory=loss),
        nodes=nodes)


KINDS = {('discreteVulnerabilitySet', 'vulnerabilitySetID'): 'ID',
         ('discreteVulnerabilitySet', 'lossCategory'): 'ID',
         ('IML', 'IMT'): 'IMT', 'IML': 'NUM', 'lossRatio': 'POS',
         'coefficientsVariation': 'NUM',
         ('discreteVulnerability', 'vulnerabilityFunctionID'): 'ID',
         ('discreteVulnerability', 'probabilisticDistribution'): 'ID'}


UNIQUE = [('vulnerabilityModel', 'discreteVulnerabilitySet',
           ['vulnerabilitySetID']),
          ('discreteVulnerabilitySet', 'IML', []),
          ('discreteVulnerabilitySet', 'discreteVulnerability',
           ['vulnerabilityFunctionID'])]


def small(nsets=2, nfuns=2, nlevels=1):
    """A model where all the values are different"""
    return Tree('vulnerabilityModel', nodes=[
        Tree('discreteVulnerabilitySet', dict(
            vulnerabilitySetID='set%d' % i, lossCategory='loss%d' % i,
            assetCategory=['population', 'buildings'][i % 2]), nodes=[
            Tree('IML', dict(IMT='SA(%d.5)' % (i + 1)), ' '.join(
                '%d.%d' % (i + 11, k) for k in range(1, nlevels + 1)))] + [
            Tree('discreteVulnerability', dict(
                vulnerabilityFunctionID='fun%d%d' % (i, j),
                probabilisticDistribution='dist%d%d' % (i, j)), nodes=[
                Tree('lossRatio', text=' '.join(
                    '0.1%d%d%d' % (i, j, k) for k in range(nlevels))),
                Tree('coefficientsVariation', text=' '.join(
                    '0.2%d%d%d' % (i, j, k) for k in range(nlevels)))])
            for j in range(nfuns)]) for i in range(nsets)])


def variants():
    for imls, imt, cat, loss in itertools.product(
            IMLS, IMTS, ['population', 'buildings'], ['fatalities', '']):
        for funs in ([[0, 'LN', 0]], [[0, 'LN', 1], [1, 'BT', 2]],
                     [[2, 'LN', 2], [0, '', 0]]):
            yield [imls, imt, cat, loss, funs]


def cases(tier):
    allv = list(variants())
    few = allv[::7] if tier == 'quick' else allv[::2]
    for v in allv:
        yield [v]
    for v, w in itertools.product(few, few):
        yield [v, w]
    if tier == 'thorough':
        for tup in itertools.product(allv[::15], repeat=3):
            yield list(tup)
    for i in range(12):
        yield ['sub', i]
    for size in ([300, 1, 1], [1, 300, 1], [12, 12, 1]):
        yield ['big', size]
    # many sets and functions
    yield [[IMLS[1], 'PGA', 'population', 'x', [[0, 'LN', 0]]]] * 3


def run(case, T):
    if case[0] == 'sub':
        for i, (what, tree) in enumerate(itertools.chain(
                nrmlsub.substitutions(small(), KINDS),
                nrmlsub.coincidences(small(2, 2, 2), KINDS, UNIQUE))):
            if i % 12 == case[1]:
                roundtrip(tree, T, xml=i % 3 == 0, kinds=KINDS)
        return T.outcome('substitution')
    elif case[0] == 'big':
        roundtrip(small(*case[1]), T, xml=True, kinds=KINDS)
        return T.outcome('big')
    sets = []
    for i, (imls, imt, cat, loss, funs) in enumerate(case):
        sets.append(vset(i, imls, imt, cat, loss, [
            (FUNID[k], dist, shift) for k, dist, shift in funs]))
    # the order of the sets is not the alphabetic one
    roundtrip(Tree('vulnerabilityModel', nodes=sets), T, xml=True)
    T.outcome('%d sets' % len(sets))
