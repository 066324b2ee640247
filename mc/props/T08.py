"""
All the source models of up to 3 sources (thorough: 4) over 5 kinds, 3
regions and repeated identifiers, alone and as 2 models of the same tree, in
all the positions, with comments and nested elements, with different names or
the same name in different directories, with blanks in the identifiers: the identifiers, the
types and the region types collected, which decide the filters accepted by
the next levels; nothing is collected without validation.
"""
import itertools
from mclib import check, outcome_of
import ltgen
from openquake.commonlib import logictree

QUICK_SHARDS = 3
KINDS = ['point', 'area', 'simpleFault', 'complexFault',
         'characteristicFault']
TRTS = ['Active Shallow Crust', 'Volcanic', 'Subduction IntraSlab']
ALPHABET = [(k, i) for k in range(5) for i in range(2)]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(n):
        for seq in itertools.product(range(len(ALPHABET)), repeat=k):
            yield list(seq)


def make(seq):
    return [(KINDS[ALPHABET[a][0]], 's%d' % (i if ALPHABET[a][1] else 0),
             TRTS[(i + a) % 3]) for i, a in enumerate(seq)]


FILTERS = [('applyToSourceType', 0, KINDS + ['foo']),
           ('applyToSources', 1, ['s0', 's1', 's2', 's3']),
           ('applyToTectonicRegionType', 2, TRTS + ['Stable'])]


def check_tree(T, models, path, name='sm%d'):
    tree = [[ltgen.bset('m', 'sourceModel', [
        ('m%d' % i, name % i, w) for i, w in enumerate(
            ltgen.WEIGHTS[len(models)][0])])]]
    text, _ = ltgen.to_xml(tree)
    lt = logictree.SourceModelLogicTree(text, path, 'lt.xml')
    sources = [s for m in models for s in m]
    T.step()
    T.state(models)
    for attr, i in [('source_ids', 1), ('source_types', 0),
                    ('tectonic_region_types', 2)]:
        exp = set(s[i] for s in sources)
        check(set(getattr(lt, attr)) == exp, attr, '%s is %s instead of %s',
              attr, getattr(lt, attr), exp)
    for where in ('/nonexistent', path):  # the files may exist or not
        lt = logictree.SourceModelLogicTree(text, where, 'lt.xml', False)
        check(not lt.source_ids and not lt.source_types and
              not lt.tectonic_region_types, 'not-validated', '%s', vars(lt))
    if len(models) == 1 and len(sources) > 1:
        return
    for name, i, values in FILTERS:
        for value in values:
            t = tree + [[ltgen.bset('r', 'bGRRelative', [('r', '1', '1')],
                                    {name: value})]]
            res = outcome_of(logictree.SourceModelLogicTree,
                             ltgen.to_xml(t)[0], path, 'lt.xml')
            T.step()
            ok = value in [s[i] for s in sources]
            T.outcome(res[0])
            check(res[0] == ('ok' if ok else 'error'), 'filter',
                  '%s=%s with the sources %s: %s', name, value, sources, res)
            check(ok or res[1] == 'ValidationError', 'error', '%s', res)
    T.trace()


def run(seq, T):
    noise = '<!-- <pointSource id="zz" tectonicRegion="zz"/> -->\n '
    with ltgen.Scratch() as s:
        for last in range(len(ALPHABET)) if len(seq) < 3 else [0]:
            full = seq + [last] if len(seq) < 3 else seq
            text = ltgen.source_model(make(full))
            s.write('sm0', text.replace('  <', noise + ' <', 1))
            check_tree(T, [make(full)], s.path)
            if len(full) < 3:  # identifiers containing blanks
                blanks = [(k, id.replace('s', blank), trt) for (k, id, trt), blank
                          in zip(make(full), [' s', 's '])]
                s.write('sm0', ltgen.source_model(blanks))
                check_tree(T, [blanks], s.path)
        if seq and len(seq) <= 3:
            for cut in range(len(seq) + 1):
                models = [make(seq)[:cut], make(seq)[cut:]]
                for i, m in enumerate(models):
                    for name in ('sm%d', 'd%d/m.xml'):
                        s.write(name % i, ltgen.source_model(m))
                check_tree(T, models, s.path)
                if len(seq) < 3:
                    check_tree(T, models, s.path, 'd%d/m.xml')
