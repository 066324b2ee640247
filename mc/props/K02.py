"""
Round trips NRML -> CSV -> NRML of all the fragility models, discrete and
continuous, with 1 or 2 sets of functions (and one with 11 sets), 1 to 3
limit states, 1 to 3 intensity levels, with and without the optional
attributes, over a small alphabet of measure types, units, taxonomies,
descriptions and numbers. All the substitutions (see nrmlsub) of each value,
and of each pair of values, of a discrete and of a continuous model with 2
sets and 2 limit states, and all the models where two values, or a group of
them, are the same (nrmlsub.coincidences); models with 300 sets, 40 limit states, 40 levels.
"""
import itertools
from nrmlgen import Tree, roundtrip
import nrmlsub

QUICK_SHARDS = 4
STATES = [['minor'], ['minor', 'collapse'], ['slight', 'm_2', 'collapse']]
IMLS = [['7'], ['0.1', '0.2'], ['1', '2.50', '1e1']]
POES = ['0.0', '0.09', '.5', '1', '0.99']
TAXO = ['RC/DMRF-D/LR', 'A,"b"', 'x y']
DESCR = ['Fragility model', 'one, "two"\nthree']


def discrete(ffsets, states, descr):
    nodes = [Tree('description', text='\n  %s\n' % descr),
             Tree('limitStates', text=' '.join(states))]
    for i, (imls, ndl, imt, unit) in enumerate(ffsets):
        ffs = Tree('ffs', nodes=[
            Tree('taxonomy', text=TAXO[i % 3] + ('' if i < 3 else str(i))),
            Tree('IML', dict(IMT=imt, imlUnit=unit), ' '.join(imls))])
        if ndl is not None:
            ffs.attrib['noDamageLimit'] = ndl
        for j, ls in enumerate(states):
            ffs.nodes.append(Tree('ffd', dict(ls=ls), nodes=[
                Tree('poEs', text=' '.join(
                    POES[(k + i + 2 * j) % 5] for k in range(len(imls))))]))
        nodes.append(ffs)
    return Tree('fragilityModel', dict(format='discrete'), nodes=nodes)


def continuous(ffsets, states, descr):
    nodes = [Tree('description', text=descr),
             Tree('limitStates', text='\n'.join(states))]
    for i, (ndl, typ, imt, unit, lo, hi) in enumerate(ffsets):
        ffs = Tree('ffs', nodes=[
            Tree('taxonomy', text=TAXO[i % 3] + ('' if i < 3 else str(i))),
            Tree('IML', dict(IMT=imt, imlUnit=unit, minIML=lo, maxIML=hi))])
        if ndl is not None:
            ffs.attrib['noDamageLimit'] = ndl
        if typ is not None:
            ffs.attrib['type'] = typ
        for j, ls in enumerate(states):
            ffs.nodes.append(Tree('ffc', dict(ls=ls), nodes=[
                Tree('params', dict(mean='%s.%d' % (i + 1, j),
                                    stddev='0.%d' % (j + 1)))]))
        nodes.append(ffs)
    return Tree('fragilityModel', dict(format='continuous'), nodes=nodes)

KINDS = {'description': 'DESC', 'limitStates': 'NAMES', 'taxonomy': 'TEXT',
         ('ffs', 'noDamageLimit'): 'NUM', ('ffs', 'type'): 'NOTEMPTY',
         ('IML', 'IMT'): 'IMT', ('IML', 'imlUnit'): 'ID', 'IML': 'FLOAT',
         ('IML', 'minIML'): 'FLOAT', ('IML', 'maxIML'): 'FLOAT',
         ('ffd', 'ls'): 'NAMES', ('ffc', 'ls'): 'NAMES', 'poEs': 'PROB',
         ('params', 'mean'): 'POS', ('params', 'stddev'): 'NUM'}


UNIQUE = [('fragilityModel', 'limitStates', []), ('ffs', 'IML', [])]


def small(kind, nsets=2, nstates=2, nlevels=1):
    """A model where all the values are different"""
    states = ['state%d' % i for i in range(nstates)]
    nodes = [Tree('description', text='some text'),
             Tree('limitStates', text=' '.join(states))]
    for i in range(nsets):
        ffs = Tree('ffs', dict(noDamageLimit='0.5%d' % i), nodes=[
            Tree('taxonomy', text='taxonomy %d' % i),
            Tree('IML', dict(IMT='SA(%d.5)' % (i + 1), imlUnit='g%d' % i))])
        iml = ffs.nodes[1]
        if kind == 'discrete':
            iml.text = ' '.join('%d.%d' % (i + 11, k + 1)
                                for k in range(nlevels))
        else:
            ffs.attrib['type'] = 'type%d' % i
            iml.attrib.update(minIML='0.6%d' % i, maxIML='6%d' % i)
        for j, ls in enumerate(states):
            if kind == 'discrete':
                ffs.nodes.append(Tree('ffd', dict(ls=ls), nodes=[
                    Tree('poEs', text=' '.join('0.7%d%d%d' % (i, j, k)
                                               for k in range(nlevels)))]))
            else:
                ffs.nodes.append(Tree('ffc', dict(ls=ls), nodes=[
                    Tree('params', dict(mean='8%d.%d' % (i, j),
                                        stddev='9%d.%d' % (i, j)))]))
        nodes.append(ffs)
    return Tree('fragilityModel', dict(format=kind), nodes=nodes)

NDL = [None, '0', '5', '0.05']
DVAR = list(itertools.product(IMLS, NDL, ['MMI', 'SA(0.3)'], ['g', '']))
CVAR = list(itertools.product(
    NDL, [None, 'lognormal'], ['PGA', 'SA(0.3)'], ['g', 'm/s'], ['0.1', '0'],
    ['9.9']))


def cases(tier):
    for kind in ('discrete', 'continuous'):
        for i in range(12):
            yield ['sub', kind, i]
        for size in [[300, 1, 1], [2, 40, 1], [11, 11, 11], [1, 2, 40]]:
            yield ['big', kind, size]
    for kind, var in (('discrete', DVAR), ('continuous', CVAR)):
        few = var[::7] if tier == 'quick' else var[::2]
        for s, d in itertools.product(range(3), range(2)):
            for v in var:
                yield [kind, [list(v)], s, d]
            for v, w in itertools.product(few, few):
                yield [kind, [list(v), list(w)], s, d]
            yield [kind, [list(v) for v in (var + var)[:11]], s, d]
        if tier == 'thorough':
            for tup in itertools.product(var[::6], repeat=3):
                yield [kind, [list(v) for v in tup], 2, 0]


def run(case, T):
    if case[0] == 'sub':
        for i, (what, tree) in enumerate(itertools.chain(
                nrmlsub.substitutions(small(case[1]), KINDS),
                nrmlsub.coincidences(small(case[1], 2, 2, 2), KINDS,
                                     UNIQUE))):
            if i % 12 == case[2]:
                roundtrip(tree, T, xml=i % 3 == 0, kinds=KINDS)
        return T.outcome('substitution')
    elif case[0] == 'big':
        roundtrip(small(case[1], *case[2]), T, xml=True, kinds=KINDS)
        return T.outcome('big')
    kind, ffsets, s, d = case
    tree = globals()[kind](ffsets, STATES[s], DESCR[d])
    roundtrip(tree, T, xml=True)
    T.outcome('%s %d' % (kind, len(ffsets)))
