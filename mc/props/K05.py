"""
CSV files of the five kinds of models, written by hand: every order of the
sets, of the functions, curves and fields, of the assets, locations, costs and
occupancies (up to 3 sets, 2 functions or 3 limit states each, 4 assets in 4
locations, some of them not used or shared), all the ways of giving one of 6
lists of intensity levels to each function. The XML model must be the one
built from the rows by the reference, and the errors be the expected ones.
"""
import itertools
from mclib import check
from nrmlgen import Tree, compare, parse_nrml, canon
from csvgen import csvfiles
from openquake.commonlib import csvmanager

QUICK_SHARDS = 4
LEVELS = [['5', '6'], ['5.0', '6.00'], ['5', '7'], ['5'], ['6'],
          ['5', '6', '7']]


def build(sets, order):
    """
    Rows of a vulnerability model; sets is a list with the levels of the
    functions of each set, and order is the order of the functions.
    """
    functions = [(i, j, levels) for i, funs in enumerate(sets)
                 for j, levels in enumerate(funs)]
    functions = [functions[k] for k in order]
    data = [['S%d' % i, 'f%d' % j, iml, '0.%d%d%d' % (i + 1, j + 1, k),
             '0.%d%d%d' % (k + 1, i + 1, j)] for i, j, levels in functions
            for k, iml in enumerate(levels)]
    return functions, data


def vulnerability(sets, set_order, fun_order, data_order):
    rows = [['S%d' % i, ['buildings', 'population'][i % 2], 'loss %d' % i,
             ['PGA', 'SA(0.%d)' % (i + 1)][i % 2]] for i in set_order]
    funs, _ = build(sets, fun_order)
    fun_rows = [['S%d' % i, 'f%d' % j, ['LN', 'BT'][(i + j) % 2]]
                for i, j, _ in funs]
    funs, data = build(sets, data_order)
    files = [('DiscreteVulnerabilitySet', rows),
             ('DiscreteVulnerability', fun_rows),
             ('DiscreteVulnerabilityData', data)]
    nodes = []
    for set_id, category, loss, imt in rows:
        levels = [lvl for i, j, lvl in funs if 'S%d' % i == set_id]
        if different(levels):
            return files, None
        subnodes = [Tree('IML', dict(IMT=imt), ' '.join(levels[-1]))]
        for fid in ['f%d' % j for i, j, _ in funs if 'S%d' % i == set_id]:
            [dist] = [d for s, f, d in fun_rows if (s, f) == (set_id, fid)]
            mine = [row for row in data if row[:2] == [set_id, fid]]
            subnodes.append(Tree('discreteVulnerability', dict(
                vulnerabilityFunctionID=fid, probabilisticDistribution=dist),
                nodes=[Tree('lossRatio', {}, ' '.join(r[3] for r in mine)),
                       Tree('coefficientsVariation', {},
                            ' '.join(r[4] for r in mine))]))
        nodes.append(Tree('discreteVulnerabilitySet', dict(
            vulnerabilitySetID=set_id, assetCategory=category,
            lossCategory=loss, IMT=imt), nodes=subnodes))
        del nodes[-1].attrib['IMT']
    return files, Tree('vulnerabilityModel', nodes=nodes)


def different(levels):
    """True if the levels are not all the same"""
    return any(map(float, lvl) != map(float, levels[0]) for lvl in levels)


LS = ['slight', 'moderate', 'complete']


def fragility(fmt, ffs, nls, order, swap, levels):
    """
    ffs are the ordinals in order, order the permutation of the curves, i.e.
    of the pairs (limit state, ordinal); levels the levels of each of them
    """
    Fmt = fmt.capitalize()
    curves = list(itertools.product(LS[:nls], sorted(ffs)))
    curves = [(ls, o, LEVELS[lvl]) for (ls, o), lvl in zip(curves, levels)]
    curves = [curves[k] for k in order]
    discrete = fmt == 'discrete'
    sets, data, nodes = [], [], []
    for o in ffs:
        ndl = ['', '0.%s' % o][int(o) % 2]
        imt = ['PGA', 'MMI'][int(o) % 2]
        if discrete:
            sets.append([o, 'T%s' % o, ndl, imt, 'g'])
        else:
            typ = ['lognormal', ''][int(o) % 2]
            sets.append([o, 'T%s' % o, ndl, typ, imt, 'g', '0.' + o, '9.' + o])
    for i, (ls, o, lvl) in enumerate(curves):
        if discrete:
            data.extend([ls, o, iml, '0.%d%d' % (i + 1, k)]
                        for k, iml in enumerate(lvl))
        else:
            rows = [[ls, o, 'mean', '1.%d' % i], [ls, o, 'stddev', '2.%d' % i]]
            data.extend(rows[::-1] if i in swap else rows)
    files = [('Fragility' + Fmt, [[fmt, 'a text', ' '.join(LS[:nls])]]),
             ('FFLimitState' + Fmt, [[ls] for ls in LS[:nls]]),
             ('FFSet' + Fmt, sets), ('FFData' + Fmt, data)]
    nodes = [Tree('description', {}, 'a text'),
             Tree('limitStates', {}, ' '.join(LS[:nls]))]
    for row in sets:
        o = row[0]
        mine = [c for c in curves if c[1] == o]
        attr = dict(noDamageLimit=row[2]) if row[2] else {}
        if discrete:
            if different([lvl for _, _, lvl in mine]):
                return files, None
            iml = Tree('IML', dict(IMT=row[3], imlUnit=row[4]),
                       ' '.join(mine[-1][2]))
        else:
            if row[3]:
                attr['type'] = row[3]
            iml = Tree('IML', dict(IMT=row[4], imlUnit=row[5],
                                   minIML=row[6], maxIML=row[7]))
        subnodes = [Tree('taxonomy', {}, row[1]), iml]
        for ls, _, lvl in mine:
            rows = [r for r in data if r[:2] == [ls, o]]
            if discrete:
                subnodes.append(Tree('ffd', dict(ls=ls), nodes=[
                    Tree('poEs', {}, ' '.join(r[3] for r in rows))]))
            else:
                subnodes.append(Tree('ffc', dict(ls=ls), nodes=[
                    Tree('params', dict(r[2:] for r in rows))]))
        nodes.append(Tree('ffs', attr, nodes=subnodes))
    return files, Tree('fragilityModel', dict(format=fmt), nodes=nodes)


TYPES = ['loss', 'contents', 'area']
PERIODS = ['night', 'day']


def exposure(category, locs, assets, types, costs, occs):
    """
    locs: permutation of the locations; assets: pairs (name, location);
    types: cost types in order; costs, occs: triples (asset, name, value)
    """
    buildings = category == 'buildings'
    loc_rows = [[str(i), '1.%d' % i, '-2.%d' % i] for i in locs]
    asset_rows = [[str(loc), name, 'T' + name, '1%d' % loc,
                   ['', '7'][loc % 2]] for name, loc in assets]
    cost_rows = [[name, typ, v] + (['', '', ''] if int(v) % 2 else
                                   ['1' + v, '.' + v, '.2' + v])
                 for name, typ, v in costs]
    occ_rows = [[name, period, v] for name, period, v in occs]
    type_rows = [[t, 'per_area', 'EUR'] + (
        ['', ''] if t == 'loss' else ['aggregated', 'USD']) for t in types]
    files = [('Exposure', [['e1', category, 'src', 'a text', 'per_asset',
                            'm2'] + (['true', 'false'] if buildings
                                     else ['', ''])]),
             ('CostType', type_rows), ('Location', loc_rows),
             ('Asset', asset_rows), ('Occupancy', occ_rows),
             ('Cost', cost_rows)]
    conv = Tree('conversions', nodes=[
        Tree('area', dict(type='per_asset', unit='m2'))])
    if buildings:
        conv.nodes.append(Tree('costTypes', nodes=[
            Tree('costType', dict(
                [('name', t[0]), ('type', t[1]), ('unit', t[2])] + (
                    [('retrofittedType', t[3]), ('retrofittedUnit', t[4])]
                    if t[3] else []))) for t in type_rows]))
        conv.nodes.append(Tree('deductible', dict(isAbsolute='true')))
        conv.nodes.append(Tree('insuranceLimit', dict(isAbsolute='false')))
    nodes = []
    for loc, name, taxonomy, number, area in asset_rows:
        attr = dict(id=name, taxonomy=taxonomy, number=number)
        if area:
            attr['area'] = area
        [(lon, lat)] = [r[1:] for r in loc_rows if r[0] == loc]
        subnodes = [Tree('location', dict(lon=lon, lat=lat))]
        mine = []
        for row in cost_rows:
            if row[0] == name and row[1] in types and buildings:
                attr2 = dict(type=row[1], value=row[2])
                if row[3]:
                    attr2.update(retrofitted=row[3], deductible=row[4],
                                 insuranceLimit=row[5])
                mine.append(Tree('cost', attr2))
        if mine:
            subnodes.append(Tree('costs', nodes=mine))
        mine = [Tree('occupancy', dict(period=row[1], occupants=row[2]))
                for row in occ_rows if row[0] == name]
        if mine:
            subnodes.append(Tree('occupancies', nodes=mine))
        nodes.append(Tree('asset', attr, nodes=subnodes))
    return files, Tree('exposureModel', dict(
        id='e1', category=category, taxonomySource='src'), nodes=[
        Tree('description', {}, 'a text'), conv, Tree('assets', nodes=nodes)])


def gmfs(set_order, field_order, nsites):
    """set_order: the ids of the sets; field_order: triples (set, imt, rup)"""
    sets = [[str(i), ['5%d.' % i, ''][i % 2]] for i in set_order]
    fields = [[str(i), imt, rup] for i, imt, rup in field_order]
    data = [f + ['1.%d' % k, '2.%d' % k, '0.%d%d' % (j + 1, k)]
            for j, f in enumerate(fields) for k in range(nsites)]
    files = [('GmfCollection', [['b1', 'b2']]), ('GmfSet', sets),
             ('Gmf', sorted(fields)), ('GmfData', data)]
    nodes = []
    for i, time in sets:
        attr = dict(stochasticEventSetId=i)
        if time:
            attr['investigationTime'] = time
        subnodes = []
        for j, f in enumerate(fields):
            if f[0] == i:
                a = dict(IMT=f[1], ruptureId=f[2])
                if f[1].startswith('SA'):
                    a.update(IMT='SA', saPeriod=f[1][3:-1], saDamping='5')
                subnodes.append(Tree('gmf', a, nodes=[
                    Tree('node', dict(lon=r[3], lat=r[4], gmv=r[5]))
                    for r in data if r[:3] == f]))
        nodes.append(Tree('gmfSet', attr, nodes=subnodes))
    return files, Tree('gmfCollection', dict(
        sourceModelTreePath='b1', gsimTreePath='b2'), nodes=nodes)


perms = lambda n: itertools.permutations(range(n))


def models(name, tier):
    """All the pairs (files, tree) of a kind of model"""
    thorough = tier == 'thorough'
    A = LEVELS[0]
    if name == 'vulnerability':
        for shape in ((1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1)):
            n = sum(shape)
            sets = [[A] * k for k in shape]
            for so in perms(len(shape)):
                for do in perms(n):
                    for fo in perms(n) if n < 4 or thorough else [
                            range(n), range(n)[::-1]]:
                        yield vulnerability(sets, so, fo, do)
            ident = range(n)
            for levels in itertools.product(LEVELS, repeat=n):
                it = iter(levels)
                sets = [[next(it) for _ in range(k)] for k in shape]
                yield vulnerability(sets, range(len(shape)), ident, ident)
                if n > 1:
                    yield vulnerability(sets, range(len(shape)), ident,
                                        ident[::-1])
    elif name in ('discrete', 'continuous'):
        sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]
        if thorough:
            sizes += [(2, 3), (3, 2)]
        for nffs, nls in sizes:
            n = nffs * nls
            for ffs in itertools.permutations(['1', '2', '10', '3'], nffs):
                for order in perms(n):
                    yield fragility(name, ffs, nls, order, [0, 2], [0] * n)
            if name == 'discrete' and n < 5:
                for levels in itertools.product(range(len(LEVELS)), repeat=n):
                    yield fragility(name, ['1', '2', '3'][:nffs], nls,
                                    range(n), [], levels)
            if name == 'continuous':
                for k in range(n + 1):
                    for swap in itertools.combinations(range(n), k):
                        yield fragility(name, ['1', '2', '3'][:nffs], nls,
                                        range(n), swap, [0] * n)
    elif name == 'exposure':
        assets = [('a', 1), ('b', 3), ('c', 3), ('10', 10)]
        costs = [('a', 'loss', '1'), ('a', 'contents', '2'),
                 ('b', 'contents', '3'), ('10', 'loss', '4')]
        occs = [('a', 'night', '1'), ('a', 'day', '2'), ('c', 'day', '3'),
                ('10', 'day', '0')]
        locs = [1, 2, 3, 10]
        for cat in ('buildings', 'population'):
            few = lambda n: [range(n), range(n)[::-1]]
            for k in range(5):
                for lo in itertools.permutations(locs):
                    yield exposure(cat, lo, assets[:k], TYPES, costs, occs)
                for sub in itertools.permutations(assets, k):
                    for lo in (locs, locs[::-1]):
                        yield exposure(cat, lo, sub, TYPES, costs, occs)
            for types in seqs_of(TYPES):
                for co in perms(4):
                    if cat == 'population':
                        continue
                    yield exposure(cat, locs, assets, types,
                                   [costs[i] for i in co
                                    if costs[i][1] in types], occs)
            for oo in perms(4):
                for k in range(5):
                    yield exposure(cat, locs, assets, TYPES,
                                   costs if cat == 'buildings' else [],
                                   [occs[i] for i in oo[:k]])
            if thorough and cat == 'buildings':
                for co, oo, ao in itertools.product(perms(4), repeat=3):
                    yield exposure(cat, locs, [assets[i] for i in ao], TYPES,
                                   [costs[i] for i in co],
                                   [occs[i] for i in oo])
    elif name == 'gmf':
        fields = [(1, 'PGA', 'r1'), (1, 'SA(0.1)', 'r1'), (1, 'PGA', 'r2'),
                  (2, 'PGA', 'r1'), (10, 'PGA', 'r1'), (2, 'SA(0.1)', '1')]
        for ids in itertools.permutations([1, 2, 10]):
            for fo in itertools.permutations(fields):
                if thorough or fo[0] == fields[0] or fo[1] == fields[0]:
                    yield gmfs(ids, fo, 1)
        for k in range(1, 4):
            for fo in itertools.permutations(fields[:4], k):
                ids = sorted(set(f[0] for f in fo), reverse=True)
                for nsites in (1, 2, 3):
                    yield gmfs(ids, fo, nsites)


def seqs_of(items):
    """All the nonempty ordered subsets"""
    for k in range(1, len(items) + 1):
        for seq in itertools.permutations(items, k):
            yield list(seq)


NPARTS = 12


def cases(tier):
    for name in ('vulnerability', 'discrete', 'continuous', 'exposure',
                 'gmf'):
        for part in range(NPARTS):
            yield [name, part, tier]


def run(case, T):
    name, part, tier = case
    for i, (files, tree) in enumerate(models(name, tier)):
        if i % NPARTS == part:
            verify(files, tree, T)
            T.outcome('%s %s' % (name, 'ok' if tree else 'error'))


DROP = (('gmf', 'saDamping'),)


def verify(files, tree, T):
    arc = csvmanager.MemArchive(csvfiles(files, 'm'))
    for func in ('convert_to_node', 'convert_to_nrml'):
        man = csvmanager.CSVManager(arc, 'm')
        try:
            res = getattr(man, func)()
        except ValueError as e:
            check(tree is None, 'rejected', '%s: the error is %s\nfiles: %s\n'
                  'instead of %s', func, e, files, tree)
            check('m.xml' not in arc, 'touched', 'converted %s', files)
        else:
            check(tree is not None, 'accepted', '%s: different levels '
                  'accepted: %s\nin the files %s', func, res, files)
            if func == 'convert_to_nrml':
                with arc.open('m.xml') as f:
                    res = parse_nrml(f.read())
            compare(tree, res, DROP, func)
        T.step()
    T.state(files)
    T.trace()
