"""
distinct: all the sequences of up to 6 keys (thorough: 8) over 4 keys, given
as list, string or generator. ceil: all the quotients a / b with a from -60
to 400 (thorough: 2000) and b from 1 to 60, the quotients of halves and
quarters, quotients up to 2 ** 52 and differing from an integer by 1e-12 to
1e-3, and the non-positive divisors. str2bool: all the case variants of
the listed words with one character removed, added or changed. writetmp: all
the combinations of content (none, empty, blank, text, binary, large), directory
(default, existing, missing, nested), prefix and suffix, one or two at once;
every descriptor opened must be closed.
"""
import os
import shutil
import itertools
import tempfile
from mclib import check, fail, seqs
from openquake.commonlib import general

QUICK_SHARDS = 2
TRUE = ['true', 'yes', 't', '1']
WORDS = TRUE + ['false', 'no', 'f', '0', 'y', 'on', '', ' ', '10', '11',
                'truetrue', 'none']


def cases(tier):
    n = 6 if tier == 'quick' else 8
    for keys in seqs('abcd', 2):
        yield ['distinct', ''.join(keys), n - 2]
    top = 400 if tier == 'quick' else 2000
    for b in range(1, 61):
        yield ['ceil', b, top]
    yield ['ceilbad', 0]
    yield ['ceilsmall', 0]
    for word in WORDS:
        yield ['str2bool', word]
    for content in (None, '', 'x', 'a\nb\r\n', '\x00\xff%', '\n',
                    ' \t\r\n', '0', 'x' * 100000):
        for where in (None, 'here', 'new', 'new/nested/dir', './here',
                      './new/dir'):
            yield ['writetmp', content, where]


def run_distinct(T, head, n):
    if len(head) < 2:
        n = 0
    for k in range(n + 1):
        for tail in itertools.product('abcd', repeat=k):
            keys = head + ''.join(tail)
            want = []
            for key in keys:
                if key not in want:
                    want.append(key)
            for form in (keys, list(keys), iter(keys)):
                got = general.distinct(form)
                check(got == want, 'distinct', 'distinct(%r) is %s', keys,
                      got)
            T.step()
        T.state(head, k)
    mixed = [1, 1.0, 'a', u'a', None, (1,), (1.0,), True]
    check(general.distinct(mixed) == [1, 'a', None, (1,)], 'distinct',
          'got %s', general.distinct(mixed))


def run_ceil(T, b, top):
    for a in range(-60, top):
        want = -(-a // b)
        for x, y in ((a, b), (float(a), b), (a, float(b)), (a / 2., b / 2.),
                     (a / 4., b / 4.), (long(a), b)):
            got = general.ceil(x, y)
            check(got == want and isinstance(got, (int, long)), 'ceil',
                  'ceil(%r, %r) is %r, expected %d', x, y, got, want)
        T.step()
        T.state(a, b)


def run_ceilbad(T, _):
    for a in (-1, 0, 1, 2.5):
        for b in (0, -1, -0.5, 0.0):
            try:
                got = general.ceil(a, b)
            except AssertionError:
                T.step()
            else:
                fail('ceil-zero', 'ceil(%s, %s) is %s', a, b, got)
    T.state('bad')


def run_ceilsmall(T, _):
    """Quotients very close to an integer or very large"""
    for k in (0, 1, 2, 7, 1000):
        for eps in (1e-3, 1e-6, 1e-9, 1e-10, 1e-12):
            for sign in (-1, 1):
                a = k + sign * eps
                want = k + (1 if sign > 0 else 0)
                for b in (1, 1., .5, .25, 4):
                    got = general.ceil(a * b, b)
                    check(got == want, 'ceil', 'ceil(%r, %r) is %r, expected '
                          '%r', a * b, b, got, want)
                    T.step()
        for a in (1e-300, 1e-50, 1e-20):
            check(general.ceil(a, 1 + k) == 1 and
                  general.ceil(-a, 1 + k) == 0, 'ceil', 'wrong ceil of %s', a)
    for e in range(1, 53):
        for b in (1, 2, 4):
            for d in (-1, 0, 1):
                a = 2 ** e + d
                got = general.ceil(a, b)
                check(got == -(-a // b), 'ceil', 'ceil(%r, %r) is %r', a, b,
                      got)
                T.step()
    T.state('small')


def run_str2bool(T, word):
    words = set([word])
    for i in range(len(word) + 1):
        for c in 'ty1 ':
            words.add(word[:i] + c + word[i:])
        words.add(word[:i] + word[i + 1:])
    for w in sorted(words):
        for mask in itertools.product([0, 1], repeat=min(len(w), 5)):
            text = ''.join(c.upper() if m else c
                           for c, m in zip(w, mask)) + w[5:]
            got = general.str2bool(text)
            want = w in TRUE
            check(got is want, 'str2bool', 'str2bool(%r) is %r', text, got)
            T.step()
        T.state(w)


def run_writetmp(T, content, where):
    base = os.path.join(os.getcwd(), 'g05')
    if os.path.exists(base):
        shutil.rmtree(base)
    os.mkdir(base)
    os.mkdir(os.path.join(base, 'here'))
    opened, closed = [], []
    mkstemp, fdopen, close = tempfile.mkstemp, os.fdopen, os.close

    def my_mkstemp(*args, **kw):
        fh, path = mkstemp(*args, **kw)
        opened.append(fh)
        return fh, path

    def my_close(fh):
        closed.append(fh)
        return close(fh)

    class File(object):
        def __init__(self, fh, f):
            self.__dict__.update(fh=fh, f=f)

        def __getattr__(self, name):
            return getattr(self.f, name)

        def close(self):
            closed.append(self.fh)
            self.f.close()

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.close()

    def my_fdopen(fh, *args, **kw):
        return File(fh, fdopen(fh, *args, **kw))

    tempfile.mkstemp, os.fdopen, os.close = my_mkstemp, my_fdopen, my_close
    try:
        for prefix, suffix in itertools.product([None, '', 'p%s-'],
                                                [None, '', '.xml']):
            kw = {}
            if prefix is not None:
                kw['prefix'] = prefix
            if suffix is not None:
                kw['suffix'] = suffix
            if where is not None:
                kw['dir'] = (os.path.join('g05', where[2:])  # relative
                             if where.startswith('.') else
                             os.path.join(base, where))
            paths = [general.writetmp(content, **kw) for _ in range(2)]
            check(paths[0] != paths[1], 'same', 'the same path twice')
            for path in paths:
                with open(path, 'rb') as f:
                    data = f.read()
                check(data == (content or ''), 'content',
                      'wrote %r, expected %r', data[:50], content)
                head, name = os.path.split(path)
                check(where is None or os.path.abspath(head) ==
                      os.path.abspath(kw['dir']), 'dir',
                      'written in %s', head)
                check(name.startswith(kw.get('prefix', 'tmp')) and
                      name.endswith(kw.get('suffix', 'tmp')), 'name',
                      'got the name %s with %s', name, kw)
                os.remove(path)
            T.step(2)
            T.state(content and len(content), where, prefix, suffix)
        left = [fh for fh in opened if not any(fh is c for c in closed)]
        check(not left, 'leak', '%d descriptors out of %d were not closed '
              'with content=%r', len(left), len(opened),
              content and content[:20])
    finally:
        tempfile.mkstemp, os.fdopen, os.close = mkstemp, fdopen, close
        shutil.rmtree(base)


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
    T.outcome(case[0])
    T.trace()
