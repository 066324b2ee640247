"""
Each numeric validator on: all the texts of up to 4 characters (thorough: 5)
over the alphabet "0 1 9 - + . e space n a i f x ,"; all the numbers made
of a sign, an integer part among 16 around the limits, a fraction and an
exponent; the floats at and next to each limit; the special texts (signed
infinities and NaNs in any case, hexadecimal, underscores, padding); all the
ranges between 5 limits for generic ranges; all of them combined with the
optional wrapper.
"""
import itertools
from mclib import check, fail, same
from openquake.commonlib import valid

QUICK_SHARDS = 4
CHARS = '019-+.e nif,'
INF = float('inf')


def in_range(cast, lo, hi):
    """
    Reference for the validator: the value is the one of `cast` if it is
    not outside [lo, hi] and is a number
    """
    def ref(text):
        val = cast(text)
        if not lo <= val <= hi:
            raise ValueError(text)
        return val
    return ref

RANGES = list(itertools.combinations_with_replacement(
    [-1.5, 0, 1e-300, 1, 7], 2))
VALIDATORS = [
    ('longitude', valid.longitude, in_range(float, -180, 180), float),
    ('latitude', valid.latitude, in_range(float, -90, 90), float),
    ('positiveint', valid.positiveint, in_range(int, 0, INF), (int, long)),
    ('positivefloat', valid.positivefloat, in_range(float, 0, INF), float),
    ('probability', valid.probability, in_range(float, 0, 1), float)]
for lo, hi in RANGES:
    VALIDATORS.append(('range(%s,%s)' % (lo, hi), valid.FloatRange(lo, hi),
                       in_range(float, lo, hi), float))

SPECIAL = [
    '', ' ', 'inf', '-inf', '+inf', 'INF', 'Infinity', '-Infinity', 'nan',
    'NaN', '-nan', '+nan', 'NAN', ' nan ', 'infinit', '0x10', '1_0', '1e400',
    '-1e400', '1e-400', '-1e-400', '-0', '-0.0', '+0', '00', '007', '1L',
    '1l', '1j', '1,5', '1.', '.5', '.', '1e', 'e1', '1e+', '--1', '+-1',
    ' 1', '1 ', '\t1\n', '1 1', 'None', 'True', '1.5.2', '9' * 30,
    '-' + '9' * 30, '0.' + '9' * 30, '1.' + '0' * 30 + '1', '1\x00', '%d',
    '1%s']
LIMITS = [-180, 180, -90, 90, 0, 1, -1.5, 1e-300, 7]


def neighbours(x):
    """The texts of the floats around x, 3 for each direction"""
    from java.lang import Math, Double
    res = [repr(float(x))]
    up = down = float(x)
    for _ in range(3):
        up, down = Math.nextUp(up), -Math.nextUp(-down)
        res.extend([Double.toString(up), Double.toString(down)])
    for d in ('1e-9', '1e-3', '0.5', '1', '100'):
        res.extend([repr(x + float(d)), repr(x - float(d))])
    return res


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for head in itertools.product(CHARS, repeat=2):
        yield ['chars', ''.join(head), n - 1]
    yield ['list', SPECIAL]
    for x in LIMITS:
        yield ['list', neighbours(x)]
    ints = ['', '0', '1', '2', '7', '8', '89', '90', '91', '179', '180',
            '181', '-1', '-89', '-90', '-91', '-179', '-180', '-181', '+1']
    for i in ints:
        yield ['list', [i + f + e for f in (
            '', '.', '.0', '.5', '.99999999999999999999', '.00000000001')
            for e in ('', 'e0', 'E1', 'e-1', 'e+2', 'e-320', 'e308', 'e999')]]


def verify(text, T):
    for label, func, ref, typ in VALIDATORS:
        try:
            want = ref(text)
        except ValueError:
            want = None
        for f, none in ((func, False), (valid.NoneOr(func), True)):
            T.step()
            try:
                got = f(text)
            except ValueError as e:
                check(want is None and not (none and text == ''),
                      'rejected-' + label, '%s(%r) raised %s', label, text, e)
                T.outcome('rejected')
                continue
            except Exception as e:
                fail('error-' + label, '%s(%r) raised %s: %s', label, text,
                     e.__class__.__name__, e)
            if none and text == '':
                check(got is None, 'none', 'NoneOr(%s)("") is %r', label, got)
                T.outcome('none')
                continue
            check(want is not None, 'accepted-' + label,
                  '%s(%r) accepted as %r', label, text, got)
            check(same(got, want) and isinstance(got, typ), 'value-' + label,
                  '%s(%r) is %r, expected %r', label, text, got, want)
            T.outcome('accepted')
    T.state(text)
    T.trace()


def run(case, T):
    if case[0] == 'list':
        for text in case[1]:
            verify(text, T)
    else:
        for n in range(case[2] + 1):
            for tail in itertools.product(CHARS, repeat=n):
                verify(case[1] + ''.join(tail), T)
        verify(case[1][0], T)
