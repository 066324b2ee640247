"""
Round trips NRML -> CSV -> NRML of all the exposure models (population and
buildings, with and without area, with 0 to 2 cost types with and without
retrofitting) with up to 2 assets (thorough: 3), each with any subset of the
declared costs, with any optional cost attribute, any subset of 3 occupancy
periods in any rotation, optional area, in shared or distinct locations; and
models with 12 assets. All the substitutions (see nrmlsub) of each value, and
of each pair of values, of a model of each category with 2 assets, and
all the models where two values, or a group of them, are the same
(nrmlsub.coincidences); models
with 600 assets in different locations, 100 cost types or 100 periods.
"""
import itertools
from nrmlgen import Tree, roundtrip
import nrmlsub

QUICK_SHARDS = 4
PERIODS = ['day', 'night', 'transit']
TYPES = [('contents', 'per_area', 'USD', None, None),
         ('business', 'aggregated', 'EUR', 'per_asset', 'YEN')]
# the same longitude, the same latitude, exchanged, the same if concatenated
LOCS = [('1', '11.5'), ('11', '1.5'), ('1', '1.5'), ('-1', '11.5'),
        ('11.5', '1')]
# optional attributes of the costs
COSTS = [None, {}, dict(deductible='.05', insuranceLimit='0.8'),
         dict(retrofitted='0'), dict(retrofitted='109', deductible='0',
                                     insuranceLimit='1')]


def exposure(category, area, ntypes, taxosource, assets):
    attr = dict(id='my,exposure', category=category)
    if taxosource:
        attr['taxonomySource'] = taxosource
    nodes = [Tree('description', text='\n Some, "text" \n')]
    anode = [Tree('area', dict(type=area, unit='square meters'))] \
        if area else []
    if category == 'buildings':
        ctypes = []
        for name, typ, unit, rtype, runit in TYPES[:ntypes]:
            a = dict(name=name, type=typ, unit=unit)
            if rtype:
                a['retrofittedType'] = rtype
                a['retrofittedUnit'] = runit
            ctypes.append(Tree('costType', a))
        nodes.append(Tree('conversions', nodes=anode + [
            Tree('costTypes', nodes=ctypes),
            Tree('deductible', dict(isAbsolute='false')),
            Tree('insuranceLimit', dict(isAbsolute='true'))]))
    elif area:
        nodes.append(Tree('conversions', nodes=anode))
    anodes = []
    for i, (loc, aarea, costs, periods) in enumerate(assets):
        a = dict(id='asset_%d' % (20 - i), number=['7', '0.5'][i % 2],
                 taxonomy='RC/"%d",x' % i)
        if aarea is not None:
            a['area'] = aarea
        lon, lat = LOCS[loc % 5]
        if loc >= 5:
            lat = str(loc)
        sub = [Tree('location', dict(lon=lon, lat=lat))]
        cnodes = []
        for k, c in enumerate(costs[:ntypes]):
            if COSTS[c] is not None:
                cnodes.append(Tree('cost', dict(
                    COSTS[c], type=TYPES[k][0], value='%d.%d' % (i, k))))
        if cnodes:
            sub.append(Tree('costs', nodes=cnodes))
        if periods:
            sub.append(Tree('occupancies', nodes=[
                Tree('occupancy', dict(period=PERIODS[p],
                                       occupants='%d' % (i * 10 + p)))
                for p in periods]))
        anodes.append(Tree('asset', a, nodes=sub))
    nodes.append(Tree('assets', nodes=anodes))
    return Tree('exposureModel', attr, nodes=nodes)

KINDS = {('exposureModel', 'id'): 'NOTEMPTY', 'description': 'DESC',
         ('exposureModel', 'taxonomySource'): 'ID',
         ('area', 'unit'): 'NOTEMPTY', ('costType', 'name'): 'ID',
         ('costType', 'unit'): 'ID',
         ('costType', 'retrofittedUnit'): 'NOTEMPTY',
         ('asset', 'id'): 'NOTEMPTY', ('asset', 'number'): 'NUM',
         ('asset', 'taxonomy'): 'NOTEMPTY', ('asset', 'area'): 'NUM',
         ('location', 'lon'): 'LON', ('location', 'lat'): 'LAT',
         ('cost', 'type'): 'ID', ('cost', 'value'): 'NUM',
         ('cost', 'retrofitted'): 'NUM', ('cost', 'deductible'): 'NUM',
         ('cost', 'insuranceLimit'): 'NUM', ('occupancy', 'period'): 'ID',
         ('occupancy', 'occupants'): 'NUM'}


UNIQUE = [('exposureModel', 'asset', ['id']),
          ('costTypes', 'costType', ['name']), ('costs', 'cost', ['type']),
          ('occupancies', 'occupancy', ['period'])]


def small(category, nassets=2, ncosts=2, nperiods=2, same=None):
    """A model where all the values are different"""
    nodes = [Tree('description', text='some text')]
    area = Tree('area', dict(type='per_asset', unit='meters'))
    costs = ['cost%d' % i for i in range(ncosts)]
    if category == 'population':
        costs = []
        nodes.append(Tree('conversions', nodes=[area]))
    else:
        nodes.append(Tree('conversions', nodes=[area, Tree(
            'costTypes', nodes=[Tree('costType', dict(
                name=c, type='aggregated', unit='unit%d' % i,
                retrofittedType='per_area', retrofittedUnit='retro%d' % i))
                for i, c in enumerate(costs)]),
            Tree('deductible', dict(isAbsolute='false')),
            Tree('insuranceLimit', dict(isAbsolute='true'))]))
    nodes.append(Tree('assets', nodes=[Tree('asset', dict(
        id='asset%d' % i, number='2%d' % i, taxonomy='taxonomy%d' % i,
        area='3%d' % i), nodes=[Tree('location', dict(
            lon='1.%d' % (1 if same == 'lon' else i + 1),
            lat='2.%d' % (1 if same == 'lat' else i + 1)))] + ([
                Tree('costs', nodes=[Tree('cost', dict(
                    type=c, value='4%d.%d' % (i, k),
                    retrofitted='5%d.%d' % (i, k),
                    deductible='6%d.%d' % (i, k),
                    insuranceLimit='7%d.%d' % (i, k)))
                    for k, c in enumerate(costs)])] if costs else []) + [
                Tree('occupancies', nodes=[Tree('occupancy', dict(
                    period='period%d' % k, occupants='8%d.%d' % (i, k)))
                    for k in range(nperiods)])])
        for i in range(nassets)]))
    return Tree('exposureModel', dict(
        id='exposure', category=category, taxonomySource='source'),
        nodes=nodes)

OCC = [[], [0], [1], [2], [1, 0], [2, 1], [0, 2], [0, 1, 2], [2, 0, 1]]


def asset_variants(category, ntypes, tier):
    costs = [[]]
    if category == 'buildings' and ntypes == 1:
        costs = [[c] for c in range(5)]
    elif category == 'buildings' and ntypes == 2:
        costs = [[a, b] for a in range(5) for b in (0, 1, 4)]
    for cost in costs:
        for occ in OCC:
            yield [0, None, cost, occ]
    for area in ('120', '0'):
        yield [0, area, costs[-1], OCC[1]]


def cases(tier):
    for category in ('population', 'buildings'):
        for i in range(24):
            yield ['sub', category, i]
        for size in ([600, 1, 1], [2, 100, 1], [2, 1, 100], [12, 12, 12]):
            yield ['big', category, size]
    for category, area, ntypes, taxo in itertools.product(
            ['population', 'buildings'], [None, 'per_asset', 'aggregated'],
            [0, 1, 2], [None, 'PAGER']):
        if category == 'population' and ntypes:
            continue
        var = list(asset_variants(category, ntypes, tier))
        if taxo or area == 'aggregated':
            var = var[::5]
        head = [category, area, ntypes, taxo]
        for v in var:
            yield head + [[v]]
        step = 1 if len(var) < 15 else len(var) // (
            10 if tier == 'quick' else 30)
        few = var[::step]
        for i, (v, w) in enumerate(itertools.product(few, few)):
            for loc in (0, 1 + i % 4):
                yield head + [[v, [loc] + w[1:]]]
        if tier == 'thorough':
            few = var[::max(1, len(var) // 9)]
            for v, w, x in itertools.product(few, few, few):
                yield head + [[v, [1] + w[1:], [0] + x[1:]]]
        yield head + [[[i] + var[i % len(var)][1:] for i in range(12)]]


def run(case, T):
    if case[0] == 'sub':
        for i, (what, tree) in enumerate(itertools.chain(
                nrmlsub.substitutions(small(case[1]), KINDS),
                nrmlsub.coincidences(small(case[1]), KINDS, UNIQUE))):
            if i % 24 == case[2]:
                roundtrip(tree, T, xml=i % 3 == 0, kinds=KINDS)
        if case[2] < 3:  # two near locations
            lons = ('location', 'lon'), ('location', 'lat')
            tree = small(case[1], 2, 1, 1, [None, 'lon', 'lat'][case[2]])
            for what, near in nrmlsub.substitutions(
                    tree, dict((k, KINDS[k]) for k in lons)):
                roundtrip(near, T, xml=True, kinds=KINDS)
        return T.outcome('substitution')
    elif case[0] == 'big':
        roundtrip(small(case[1], *case[2]), T, xml=True, kinds=KINDS)
        return T.outcome('big')
    tree = exposure(*case)
    drop = () if case[3] else (('exposureModel', 'taxonomySource'),)
    roundtrip(tree, T, drop, xml=True)
    T.outcome('%s %s %d assets' % (case[0], case[1], len(case[4])))
