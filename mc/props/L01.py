"""
All the vulnerability models of up to 2 sets (thorough: 3) of up to 2
functions over 3 taxonomies x 2 data (repeated taxonomies included), and
all the invalid data of one function (5 kinds) at all the positions. All the
subsets of 4 loss types x presence of the files (3 each: missing, present,
only retrofitted), with models of overlapping taxonomies, retrofitted or
not, with or without insured losses, all the subsets of 5 loss types, the files being changed between two
readings; the conversions of all the loss types.
"""
import itertools
from StringIO import StringIO
from mclib import check, outcome_of
import ltgen
from openquake.commonlib import riskloaders

QUICK_SHARDS = 3
TAXS = ['A', 'RC-2', 'W_1']
IMTS = ['PGA', 'MMI', 'SA(0.1)']
DATA = [([.1, .2], 'LN'), ([0.0, 0.25], 'BT')]
COVS = [[.3, .4], [0.0, 0.5]]
# loss ratios, coefficients which make a function invalid
INVALID = [([0.0, .2], [.3, .3]), ([.1, .2], [.3, -.1]), ([.1, .2], [.3]),
           ([.1], [.3, .3]), ([.1, .2, .3], [.1, .2, .3])]


def num(xs):
    return ' '.join(map(repr, xs))


def model(sets):
    """A model from [(imt, imls, [(taxonomy, ratios, covs, distribution)])]"""
    doc = ltgen.Doc()
    doc.add(ltgen.HEAD)
    doc.add(ltgen.NRML)
    doc.add('<vulnerabilityModel>')
    for i, (imt, imls, funcs) in enumerate(sets):
        doc.add('<discreteVulnerabilitySet vulnerabilitySetID="s%d">' % i)
        doc.add('<IML IMT="%s">%s</IML>' % (imt, num(imls)))
        for tax, ratios, covs, dist in funcs:
            doc.add('<discreteVulnerability vulnerabilityFunctionID="%s" '
                    'probabilisticDistribution="%s">' % (tax, dist))
            doc.add('<lossRatio>%s</lossRatio>' % num(ratios))
            doc.add('<coefficientsVariation>%s</coefficientsVariation>' %
                    num(covs))
            doc.add('</discreteVulnerability>')
        doc.add('</discreteVulnerabilitySet>')
    doc.add('</vulnerabilityModel>')
    doc.add('</nrml>')
    return doc.text()


def make_sets(spec):
    """spec: a list of lists of (taxonomy index, data index)"""
    return [(IMTS[i % 3], [.5 + i, 1.5 + i], [
        (TAXS[t], DATA[d][0], COVS[d], DATA[d][1]) for t, d in funcs])
        for i, funcs in enumerate(spec)]


def cases(tier):
    funcs = list(itertools.product(range(3), range(2)))
    sets = [[f] for f in funcs] + [list(p) for p in itertools.product(
        funcs, repeat=2)]
    for s in sets:
        yield ['load', [s]]
    for s in sets:
        for t in sets if tier != 'quick' else sets[::2]:
            yield ['load', [s, t]]
    if tier != 'quick':
        for s in sets[:6]:
            for t in sets[:6]:
                for u in sets:
                    yield ['load', [s, u, t]]
    yield ['conversions']
    for k in range(6):
        yield ['all', k]
    for presence in itertools.product(range(4), repeat=3):
        yield ['inputs', list(presence)]


def check_vf(vf, imt, imls, ratios, covs, dist, what):
    got = (vf.imt, list(vf.imls), list(vf.mean_loss_ratios), list(vf.covs),
           vf.distribution_name)
    check(got == (imt, imls, ratios, covs, dist), 'function',
          'the function of %s is %s instead of %s', what, got,
          (imt, imls, ratios, covs, dist))


def run(case, T):
    T.state(case)
    globals()['run_' + case[0]](T, *case[1:])
    T.trace()


def load(text):
    return dict(riskloaders.get_taxonomy_vfs(
        {'structural_vulnerability': StringIO(text)}, ['structural']))


def run_load(T, spec):
    sets = make_sets(spec)
    taxs = [f[0] for s in sets for f in s[2]]
    text = model(sets)
    res = outcome_of(load, text)
    T.step()
    if len(set(taxs)) < len(taxs):
        T.outcome('repeated')
        dup = [t for i, t in enumerate(taxs) if t in taxs[:i]]
        check(res[:2] == ('error', 'ValueError') and any(
            ('taxonomy %s.' % t) in str(res[2]) for t in dup), 'repeated',
            'the taxonomies are %s: %s', taxs, res)
        return
    T.outcome('loaded')
    check(res[0] == 'ok', 'rejected', 'rejected with %s:\n%s', res, text)
    check(sorted(res[1]) == sorted(taxs), 'taxonomies',
          'the taxonomies are %s instead of %s', sorted(res[1]), taxs)
    for imt, imls, funcs in sets:
        for tax, ratios, covs, dist in funcs:
            vfs = res[1][tax]
            check(vfs.keys() == ['structural'], 'loss-types', '%s', vfs)
            check_vf(vfs['structural'], imt, imls, ratios, covs, dist, tax)
    # all the invalid functions at all the positions
    for s, f in [(s, f) for s in range(len(sets))
                 for f in range(len(sets[s][2]))]:
        for ratios, covs in INVALID:
            new = make_sets(spec)
            tax, _, _, dist = new[s][2][f]
            new[s][2][f] = (tax, ratios, covs, dist)
            res = outcome_of(load, model(new))
            T.step()
            T.outcome('invalid')
            check(res[:2] == ('error', 'ValueError') and
                  repr(tax) in str(res[2]), 'accepted',
                  'ratios %s, coefficients %s for %s: %s', ratios, covs, tax,
                  res)
        new = make_sets(spec)
        for imls in ([2.0, 1.0], [1.0, 1.0], [-1.0, 1.0]):
            new[s] = (new[s][0], imls, new[s][2])
            res = outcome_of(load, model(new))
            check(res[:2] == ('error', 'ValueError') and any(
                repr(fn[0]) in str(res[2]) for fn in new[s][2]), 'accepted',
                'levels %s: %s', imls, res)


LOSS_TYPES = ['structural', 'nonstructural', 'contents',
              'business_interruption', 'fatalities']


def run_conversions(T):
    for lt in LOSS_TYPES + ['occupants', 'x', '']:
        ct = riskloaders.loss_type_to_cost_type(lt)
        check(ct == ('occupants' if lt == 'fatalities' else lt), 'cost-type',
              '%s for %s', ct, lt)
        back = riskloaders.cost_type_to_loss_type(lt)
        check(back == ('fatalities' if lt == 'occupants' else lt),
              'loss-type', '%s for %s', back, lt)
        if lt != 'occupants':
            check(riskloaders.cost_type_to_loss_type(ct) == lt, 'round-trip',
                  '%s becomes %s', lt, riskloaders.cost_type_to_loss_type(ct))
        T.step()


# cost type -> loss type, the taxonomies of the model
FILES = [('structural', 'structural', [0, 1]), ('contents', 'contents', [1]),
         ('occupants', 'fatalities', [0, 2])]


def run_inputs(T, presence):
    """presence: 0 missing, 1 normal, 2 retrofitted, 3 both"""
    with ltgen.Scratch() as s:
        inputs, data = {'exposure': '/nonexistent'}, {}
        for i, (p, (ct, lt, taxs)) in enumerate(zip(presence, FILES)):
            for bit, suffix in [(1, ''), (2, '_retrofitted')]:
                if p & bit:
                    sets = [(IMTS[i], [1.0, 2.0 + bit], [
                        (TAXS[t], [.1, .2 + .1 * t], [.3, .4],
                         DATA[i % 2][1]) for t in taxs])]
                    key = '%s_vulnerability%s' % (ct, suffix)
                    inputs[key] = s.write(key + '.xml', model(sets))
                    data[lt, bit == 2] = sets[0]
        # keys which do not correspond to loss types
        if presence[2] & 1:
            inputs['fatalities_vulnerability'] = '/nonexistent'
        for n in range(4):
            for lts in itertools.permutations(
                    ['structural', 'contents', 'fatalities'], n):
                for retro in (False, True):
                    check_inputs(T, inputs, data, lts, retro)
        # the files are changed, the names are the same
        for key in inputs:
            if key.startswith('occupants') or key == 'exposure':
                continue
            ct = key.split('_')[0]
            retro = key.endswith('retrofitted')
            sets = [('PGV', [.25, .5], [('NEW', [.5, .25], [.0, .1], 'LN')])]
            with open(inputs[key], 'w') as f:
                f.write(model(sets))
            data[ct, retro] = sets[0]
            check_inputs(T, inputs, data, ['structural', 'contents'], retro)


def run_all(T, k):
    """All the subsets of k of the loss types, in 2 orders"""
    with ltgen.Scratch() as s:
        inputs, data = {}, {}
        for i, lt in enumerate(LOSS_TYPES):
            for suffix in ('', '_retrofitted'):
                ct = 'occupants' if lt == 'fatalities' else lt
                sets = [(IMTS[i % 3], [1.0 + i, 7.0 + len(suffix)], [
                    (TAXS[t], [.1, .2 + .1 * t], [.3, .4], DATA[i % 2][1])
                    for t in range(3) if t != i])]
                key = '%s_vulnerability%s' % (ct, suffix)
                inputs[key] = s.write(key + '.xml', model(sets))
                data[lt, bool(suffix)] = sets[0]
        for lts in itertools.combinations(LOSS_TYPES, k):
            for retro in (False, True):
                check_inputs(T, inputs, data, lts, retro)
                check_inputs(T, inputs, data, lts[::-1], retro)
        T.state('all', k)


def check_inputs(T, inputs, data, lts, retro):
    expected = {}
    for lt in lts:
        if (lt, retro) in data:
            imt, imls, funcs = data[lt, retro]
            for tax, ratios, covs, dist in funcs:
                expected.setdefault(tax, {})[lt] = (imt, imls, ratios, covs,
                                                    dist)
    pairs = list(riskloaders.get_taxonomy_vfs(inputs, list(lts), retro))
    got = dict(pairs)
    T.step()
    check(len(got) == len(pairs), 'repeated-taxonomy', '%s', pairs)

    def compare(tax, vfs):
        check(sorted(vfs) == sorted(expected[tax]), 'loss-types',
              'the loss types of %s are %s instead of %s', tax, sorted(vfs),
              sorted(expected[tax]))
        for lt, exp in expected[tax].items():
            check_vf(vfs[lt], *(exp + ('%s, %s' % (tax, lt),)))
    check(sorted(got) == sorted(expected), 'taxonomies',
          'the taxonomies are %s instead of %s for %s', sorted(got),
          sorted(expected), lts)
    for tax in got:
        compare(tax, got[tax])
    for insured in (False, True):
        models = riskloaders.get_risk_models(inputs, list(lts), insured,
                                             retro)
        check(sorted(models) == sorted(expected), 'models',
              'the models are %s instead of %s', sorted(models),
              sorted(expected))
        for tax, rm in models.items():
            check(rm.taxonomy == tax, 'model-taxonomy', '%s for %s',
                  rm.taxonomy, tax)
            check(bool(rm.workflow.insured_losses) is insured, 'insured',
                  'insured losses: %s', rm.workflow.insured_losses)
            compare(tax, rm.workflow.vulnerability_functions)
        T.step()
