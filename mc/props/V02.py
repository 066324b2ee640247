"""
Each text validator on: all the texts of up to 3 characters (thorough: 4)
over 16 characters (letters, digits, underscore, separators, line ends,
parentheses, dots, signs); all the texts made by a measure type, an optional
argument and a prefix or suffix; each listed word with one character
removed, doubled, changed in case or added at any position; all the choices
among up to 3 words; all of them combined with the optional wrapper.
"""
import itertools
from mclib import check, fail
from openquake.commonlib import valid

QUICK_SHARDS = 4
CHARS = ['a', 'Z', '_', '0', '1', ' ', '\n', '\t', '-', '.', '(', ')', ',',
         '%', '"', '\xc3\xa8']
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
LETTERS += LETTERS.upper() + '_'
DIGITS = '0123456789'
SPACES = ' \t\n\r\x0b\x0c'
DONT_CARE = object()


class Invalid(Exception):
    pass


def name(text):
    if not text or text[0] not in LETTERS:
        raise Invalid
    if any(c not in LETTERS + DIGITS for c in text):
        raise Invalid
    return text


def namelist(text):
    names = ['']
    for c in text:
        if c in SPACES:
            names.append('')
        else:
            names[-1] += c
    names = [name(n) for n in names if n]
    if not names:
        raise Invalid
    return names


def not_empty(text):
    if text == '':
        raise Invalid
    return text


def boolean(text):
    if text in ('0', 'false'):
        return False
    elif text in ('1', 'true'):
        return True
    raise Invalid


def imtstr(text):
    if text in ('PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI'):
        return (text, None, None)
    if text[:3] == 'SA(' and text[-1] == ')' and len(text) > 4:
        period = text[3:-1]
        parts = period.split('.')
        if len(parts) <= 2 and all(c in DIGITS + '.' for c in period):
            if not parts[0]:
                return DONT_CARE  # SA(.5)
            return ('SA', float(period), 5.0)
        try:
            float(period)
            return DONT_CARE  # SA(1e-1), SA(+1), SA( 1)
        except ValueError:
            pass
    raise Invalid


def choice(*words):
    def ref(text):
        if text not in words:
            raise Invalid
        return text
    return ref

VALIDATORS = [
    ('name', valid.name, name), ('namelist', valid.namelist, namelist),
    ('not_empty', valid.not_empty, not_empty),
    ('boolean', valid.boolean, boolean), ('IMTstr', valid.IMTstr, imtstr),
    ('category', valid.category, choice('population', 'buildings'))]
WORDS = ['a', 'per_asset', '0']
for n in (1, 2, 3):
    for words in itertools.combinations(WORDS, n):
        VALIDATORS.append(('Choice%s' % (words,), valid.Choice(*words),
                           choice(*words)))

KNOWN = ['true', 'false', 'True', 'FALSE', '0', '1', 'population',
         'buildings', 'per_asset', 'PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI',
         'SA(0.1)', 'SA(10)', 'SA(1.)', 'SA(0)', 'a b c', 'slight moderate',
         'x1 y_2', 'None', 'a' * 300, ' ' * 5, 'a\nb']


def mutants(word):
    yield word
    for i in range(len(word) + 1):
        for c in CHARS:
            yield word[:i] + c + word[i:]
        if i < len(word):
            yield word[:i] + word[i + 1:]
            yield word[:i] + word[i] + word[i:]
            yield word[:i] + word[i].swapcase() + word[i + 1:]
            for c in CHARS:
                yield word[:i] + c + word[i + 1:]
    for other in KNOWN[:12]:
        yield word + other
        yield word + ' ' + other
        yield word + '\n' + other


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for c in CHARS:
        for d in CHARS:
            yield ['chars', c + d, n - 2]
    yield ['word', '']
    for word in KNOWN:
        yield ['word', word]
    for period in ('', '0', '1', '0.1', '1.', '.5', '.', '10.25', '-1',
                   '+1', '1e-1', 'nan', 'inf', '0.1.2', '0,1', '0.1 ', ' 1',
                   '0.1,5', '1)(2', '()', '1\n', '00.10', 'x',
                   '123456789.123456789'):
        yield ['period', period]


def verify(text, T):
    for label, func, ref in VALIDATORS:
        try:
            want = ref(text)
        except Invalid:
            want = Invalid
        for f, none in ((func, False), (valid.NoneOr(func), True)):
            T.step()
            expected = None if none and text == '' else want
            try:
                got = f(text)
            except ValueError as e:
                check(expected is Invalid or expected is DONT_CARE,
                      'rejected-' + label, '%s(%r) raised %s', label, text, e)
                T.outcome('rejected')
                continue
            except Exception as e:
                fail('error-' + label, '%s(%r) raised %s: %s', label, text,
                     e.__class__.__name__, e)
            if expected is DONT_CARE:
                continue
            check(expected is not Invalid, 'accepted-' + label,
                  '%s(%r) accepted as %r', label, text, got)
            if isinstance(expected, bool) or expected is None:
                ok = got is expected
            else:
                ok = got == expected
            check(ok, 'value-' + label, '%s(%r) is %r, expected %r', label,
                  text, got, expected)
            if label == 'IMTstr' and got is not None:
                check((got.imt, got.saPeriod, got.saDamping) == expected,
                      'fields', 'got %r', got)
            T.outcome('accepted')
    T.state(text)
    T.trace()


def run(case, T):
    if case[0] == 'word':
        for text in mutants(case[1]):
            verify(text, T)
    elif case[0] == 'period':
        for imt in ('SA', 'sa', 'PGA', 'SA ', ''):
            for a, b in (('(', ')'), ('(', ''), ('', ')'), ('', ''),
                         ('((', '))'), ('[', ']'), ('(', ')x'), ('(', ') '),
                         ('(', ')\n'), ('(', '))')):
                verify(imt + a + case[1] + b, T)
    else:
        for n in range(case[2] + 1):
            for tail in itertools.product(CHARS, repeat=n):
                verify(case[1] + ''.join(tail), T)
        verify(case[1][0], T)
