"""
Round trips NRML -> CSV -> NRML of all the ground motion fields: single sets
and collections with 1 or 2 sets (and one with 11 sets), each with 1 to 3
fields (any measure type, any rupture, including the same measure for two
ruptures and the same rupture in two sets) with 1 to 3 sites. All the
substitutions (see nrmlsub) of each value, and of each pair of values, of a
collection with 2 sets of 2 fields of 2 sites, and all the collections where
two values, or a group of them, are the same (nrmlsub.coincidences); collections with 300 sets,
fields or sites.
"""
import itertools
from mclib import check
from nrmlgen import Tree, roundtrip as rtrip, to_node
import nrmlsub

QUICK_SHARDS = 4
IMTS = [('PGA', None), ('SA', '0.025'), ('SA', '1'), ('MMI', None)]
SITES = [('0.0', '0.0', '0.2'), ('1.0', '-45.5', '1.4'),
         ('-180', '1.0', '1e-3')]
RUPS = ['rup|1', 'a,b "c"', '3']


def roundtrip(tree, *args):
    """The round trip plus the check that there is a record for each field"""
    from openquake.commonlib.converter import Converter
    expected = []
    for gmfset in (tree.nodes if tree.tag == 'gmfCollection' else [tree]):
        for gmf in gmfset.nodes:
            imt = gmf.attrib['IMT']
            if imt == 'SA':
                imt += '(%s)' % gmf.attrib['saPeriod']
            expected.append([gmfset.attrib.get('stochasticEventSetId'),
                             imt, gmf.attrib.get('ruptureId', '')])
    tset = Converter.from_node(to_node(tree)).tableset
    got = [list(rec) for rec in tset.tableGmf]
    if tree.tag == 'gmfSet':  # there is no stochasticEventSetId
        got = [[None] + rec[1:] for rec in got]
    check(got == expected, 'fields', 'the records of the fields are %s '
          'instead of %s', got, expected)
    rtrip(tree, *args)


def gmf(imt, rup, nsites, shift):
    name, period = IMTS[imt]
    attr = dict(IMT=name)
    if period:
        attr.update(saPeriod=period, saDamping='5')
    if rup is not None:
        attr['ruptureId'] = RUPS[rup]
    return Tree('gmf', attr, nodes=[
        Tree('node', dict(lon=lon, lat=lat,
                          gmv='%s' % (float(gmv) + shift)))
        for lon, lat, gmv in SITES[:nsites]])


def gmfset(ses, gmfs):
    attr = {}
    if ses is not None:
        attr = dict(stochasticEventSetId=str(ses),
                    investigationTime=['50.0', '1'][ses % 2])
    return Tree('gmfSet', attr, nodes=[
        gmf(imt, rup, n, i) for i, (imt, rup, n) in enumerate(gmfs)])


KINDS = {('gmfCollection', 'sourceModelTreePath'): 'ID',
         ('gmfCollection', 'gsimTreePath'): 'ID',
         ('gmfSet', 'stochasticEventSetId'): 'INT',
         ('gmfSet', 'investigationTime'): 'FLOAT',
         ('gmf', 'saPeriod'): 'PERIOD', ('gmf', 'ruptureId'): 'NOTEMPTY',
         ('node', 'lon'): 'FLOAT', ('node', 'lat'): 'FLOAT',
         ('node', 'gmv'): 'FLOAT'}


UNIQUE = [('gmfCollection', 'gmfSet', ['stochasticEventSetId']),
          ('gmfSet', 'gmf', ['IMT', 'saPeriod', 'ruptureId']),
          ('gmf', 'node', ['lon', 'lat'])]


def small(single, nsets=2, ngmfs=2, nsites=2):
    """A model where all the values are different"""
    sets = []
    for i in range(nsets):
        gmfs = []
        for j in range(ngmfs):
            gmf = Tree('gmf', dict(IMT='SA', saDamping='5', saPeriod='%d.%d' % (
                i + 1, j + 1)), nodes=[Tree('node', dict(
                    lon='1.%d%d%d' % (i, j, k), lat='2.%d%d%d' % (i, j, k),
                    gmv='3.%d%d%d' % (i, j, k))) for k in range(nsites)])
            if not single:
                gmf.attrib['ruptureId'] = 'rup%d.%d' % (i, j)
            gmfs.append(gmf)
        sets.append(Tree('gmfSet', {} if single else dict(
            stochasticEventSetId=str(i + 1),
            investigationTime='5%d.' % i), nodes=gmfs))
    if single:
        return sets[0]
    return Tree('gmfCollection', dict(
        sourceModelTreePath='path1', gsimTreePath='path2'), nodes=sets)


def cases(tier):
    for single in (True, False):
        for i in range(24):
            yield dict(sub=i, single=single)
        for size in ([300, 1, 1], [1, 300, 1], [1, 1, 300], [11, 11, 2]):
            if not single or size[0] == 1:
                yield dict(big=size, single=single)
    # single sets
    for k in (1, 2, 3):
        for imts in itertools.permutations(range(4), k):
            for sizes in itertools.product((1, 2, 3), repeat=k):
                yield dict(sets=[[[i, None, n] for i, n in zip(imts, sizes)]])
    # collections
    pairs = list(itertools.product(range(4), range(3)))
    few = pairs if tier == 'thorough' else pairs[::2]
    var = [[[i, r, n]] for i, r in pairs for n in (1, 3)]
    var += [[[i, r, n], [j, s, m]]
            for (i, r), (j, s) in itertools.permutations(few, 2)
            for n, m in ((1, 2), (2, 1))]
    for v in var:
        yield dict(sets=[v], ses=[1])
    step = 4 if tier == 'quick' else 3
    for v, w in itertools.product(var[::step], var[1::step]):
        yield dict(sets=[v, w], ses=[2, 1])
    yield dict(sets=[v for v in var[:11]], ses=list(range(1, 12)))


def run(case, T):
    drop = (('gmf', 'saDamping'),)
    if 'sub' in case:
        for i, (what, tree) in enumerate(itertools.chain(
                nrmlsub.substitutions(small(case['single']), KINDS),
                nrmlsub.coincidences(small(case['single']), KINDS,
                                     UNIQUE))):
            if i % 24 == case['sub']:
                roundtrip(tree, T, drop, i % 3 == 0, KINDS)
        return T.outcome('substitution')
    elif 'big' in case:
        roundtrip(small(case['single'], *case['big']), T, drop, True, KINDS)
        return T.outcome('big')
    if 'ses' not in case:
        tree = gmfset(None, case['sets'][0])
    else:
        tree = Tree('gmfCollection', dict(
            sourceModelTreePath='b1_b2', gsimTreePath='b1,"x"'), nodes=[
            gmfset(s, gmfs) for s, gmfs in zip(case['ses'], case['sets'])])
    roundtrip(tree, T, (('gmf', 'saDamping'),), True)
    T.outcome('%s %d' % (tree.tag, len(case['sets'])))
