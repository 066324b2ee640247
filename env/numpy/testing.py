"""Stand-in for numpy.testing"""


def _isnan(x):
    return x != x


def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    msg = '\nArrays are not almost equal to %d decimals\n ACTUAL: %r\n ' \
        'DESIRED: %r' % (decimal, actual, desired)
    if isinstance(actual, complex) or isinstance(desired, complex):
        a, d = complex(actual), complex(desired)
        assert_almost_equal(a.real, d.real, decimal)
        assert_almost_equal(a.imag, d.imag, decimal)
        return
    if isinstance(actual, (list, tuple)):
        assert len(actual) == len(desired), msg
        for a, d in zip(actual, desired):
            assert_almost_equal(a, d, decimal)
        return
    inf = float('inf')
    if _isnan(actual) or _isnan(desired):
        if not (_isnan(actual) and _isnan(desired)):
            raise AssertionError(msg)
        return
    if actual in (inf, -inf) or desired in (inf, -inf):
        if actual != desired:
            raise AssertionError(msg)
        return
    if round(abs(desired - actual), decimal) != 0:
        raise AssertionError(msg)


def assert_equal(actual, desired, err_msg='', verbose=True):
    if actual != desired:
        raise AssertionError('%r != %r' % (actual, desired))


def assert_allclose(actual, desired, rtol=1e-07, atol=0, err_msg='',
                    verbose=True):
    if not hasattr(actual, '__len__'):
        actual, desired = [actual], [desired]
    assert len(actual) == len(desired)
    for x, y in zip(actual, desired):
        if not abs(x - y) <= atol + rtol * abs(y):
            raise AssertionError('Not equal to tolerance rtol=%s, atol=%s: '
                                 '%r, %r' % (rtol, atol, actual, desired))
