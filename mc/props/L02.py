"""
All the fragility models of 2 formats x 1 to 3 limit states (thorough: 4) x
the sequences of up to 3 taxonomies with and without a limit for no damage x
3 intensity measures: the damage states, the taxonomies, the number, order
and parameters of the functions, also when the functions of different states or
taxonomies are the same, from file names and file-like objects. If a taxonomy
is repeated its functions must be all the ones of one of its elements.
"""
import itertools
from StringIO import StringIO
from mclib import Violation, check
import ltgen
from openquake.commonlib import riskloaders
from openquake.risklib import scientific

QUICK_SHARDS = 2
TAXS = ['A', 'RC-2', 'W_1']
IMTS = ['PGA', 'SA(0.3)', 'MMI']
STATES = ['slight', 'moderate', 'extensive', 'complete']


def num(xs):
    return ' '.join(map(repr, xs))


def params(fmt, t, s, same=0):
    """Different for each taxonomy and damage state, unless same"""
    if same == 1:
        s = 1
    elif same == 2:
        t = 0
    if fmt == 'discrete':
        return [0.0625 * t, 0.0625 * t + 0.125 * s, 0.5 + 0.125 * s]
    return (1.0 + t + 0.25 * s, 0.5 + t + 0.125 * s)


def imls(t):
    return [0.25 + t, 0.5 + t, 1.0 + t]


def model(fmt, states, funcs, same):
    doc = ltgen.Doc()
    doc.add(ltgen.HEAD)
    doc.add(ltgen.NRML)
    doc.add('<fragilityModel format="%s">' % fmt)
    doc.add('<description>d</description>')
    doc.add('<limitStates>%s</limitStates>' % '\n '.join(states))
    for t, imt, ndl in funcs:
        doc.add('<ffs%s>' % (
            '' if ndl is None else ' noDamageLimit="%r"' % ndl))
        doc.add('<taxonomy> %s </taxonomy>' % TAXS[t % 3])
        if fmt == 'discrete':
            doc.add('<IML IMT="%s">%s</IML>' % (imt, num(imls(t))))
        else:
            doc.add('<IML IMT="%s" minIML="0.1" maxIML="9.9"/>' % imt)
        for s, state in enumerate(states):
            if fmt == 'discrete':
                doc.add('<ffd ls="%s"><poEs>%s</poEs></ffd>' % (
                    state, num(params(fmt, t, s, same))))
            else:
                doc.add('<ffc ls="%s"><params mean="%r" stddev="%r"/></ffc>'
                        % ((state,) + params(fmt, t, s, same)))
        doc.add('</ffs>')
    doc.add('</fragilityModel>')
    doc.add('</nrml>')
    return doc.text()


def cases(tier):
    top = 3 if tier == 'quick' else 4
    for fmt in ('discrete', 'continuous'):
        for n in range(1, top + 1):
            for k in range(0, 4):
                for taxs in itertools.permutations(range(3), k):
                    yield [fmt, n, list(taxs)]
            for taxs in ([0, 3], [3, 0], [0, 1, 3], [3, 0, 1], [1, 0, 3],
                         [0, 3, 6]):
                yield [fmt, n, taxs]


def run(case, T):
    fmt, n, taxs = case
    states = STATES[:n]
    for limits in itertools.product([None, 0.0, 0.125], repeat=len(taxs)):
        for shift, same in [(0, 0), (1, 0), (2, 0), (1, 1), (2, 2)]:
            funcs = [(t, IMTS[(i * (1 + shift // 2) + shift) % 3], ndl)
                     for i, (t, ndl) in enumerate(zip(taxs, limits))]
            text = model(fmt, states, funcs, same)
            T.state(case, limits, shift, same)
            if shift:
                check_model(T, StringIO(text), fmt, states, funcs, same)
            else:
                with ltgen.Scratch() as s:
                    check_model(T, s.write('f.xml', text), fmt, states,
                                funcs, same)
    T.trace()
    T.outcome('%s %d' % (fmt, len(taxs)))


def check_model(T, source, fmt, states, funcs, same):
    damage_states, models = riskloaders.get_damage_states_and_risk_models(
        source)
    T.step()
    check(list(damage_states) == ['no_damage'] + states, 'damage-states',
          'the damage states are %s instead of no_damage and %s',
          damage_states, states)
    names = sorted(set(TAXS[f[0] % 3] for f in funcs))
    check(sorted(models) == names, 'taxonomies',
          'the taxonomies are %s instead of %s', sorted(models), names)
    for name in names:
        errors = []
        for f in funcs:
            if TAXS[f[0] % 3] == name:
                try:
                    check_taxonomy(models[name], name, fmt, states, f, same)
                except Violation as e:
                    errors.append(e)
                else:
                    break
        else:
            raise errors[-1]


def check_taxonomy(rm, name, fmt, states, (t, imt, ndl), same):
    check(rm.taxonomy == name, 'taxonomy', '%s for %s', rm.taxonomy, name)
    check(rm.workflow.fragility_functions.keys() == ['damage'], 'keys',
          '%s', rm.workflow.fragility_functions.keys())
    ffs = rm.workflow.fragility_functions['damage']
    check(ffs.imt == imt, 'imt', 'the IMT of %s is %s instead of %s',
          name, ffs.imt, imt)
    check(isinstance(ffs, list) and len(ffs) == len(states), 'number',
          '%d functions for %s', len(ffs), states)
    for s, ff in enumerate(ffs):
        exp = params(fmt, t, s, same)
        if fmt == 'continuous':
            check(type(ff) is scientific.FragilityFunctionContinuous and
                  (ff.mean, ff.stddev) == exp, 'continuous',
                  'the function %d of %s is %s instead of %s', s,
                  name, vars(ff), exp)
            continue
        levels = imls(t)
        if ndl is not None:
            levels, exp = [ndl] + levels, [0.0] + exp
        check(type(ff) is scientific.FragilityFunctionDiscrete and
              ff.imls == levels and ff.poes == exp and
              ff.no_damage_limit == levels[0], 'discrete',
              'the function %d of %s is %s instead of %s, %s', s,
              name, vars(ff), levels, exp)
