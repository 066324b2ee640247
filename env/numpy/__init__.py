"""Stand-in for the tiny part of numpy used by openquake.commonlib"""
import math
from numpy import testing

nan = float('nan')
inf = float('inf')


def isnan(x):
    return x != x


def isinf(x):
    return x in (inf, -inf)


def array(seq, dtype=None):
    return list(seq)


asarray = array


def ceil(x):
    return math.ceil(x)


def allclose(a, b, rtol=1e-05, atol=1e-08):
    if not hasattr(a, '__len__'):
        a, b = [a], [b]
    return len(a) == len(b) and all(
        abs(x - y) <= atol + rtol * abs(y) for x, y in zip(a, b))


class ndarray(object):
    pass


class number(object):
    pass
