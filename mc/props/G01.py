"""
All the sequences of up to 5 items (thorough: 6) with weights among 0, 1, 2,
3, 7 and kinds among 3 (one of them equal to the default kind), for each max
weight among 1, 2, 3, 2.5, 5, 100; all the sequences of up to 4 items with
fractional weights; the items given as list, tuple, generator or string; a
negative weight at each position; all the sequences of 4 items with kinds
among 8 of different types (with equal hashes or representations, or false);
weights up to 10 ** 15 around the maximum; non-positive max weights; default weight
and kind functions on up to 12 items.
"""
import itertools
from mclib import check, fail, seqs
from openquake.commonlib.general import block_splitter

QUICK_SHARDS = 4
WEIGHTS = [0, 1, 2, 3, 7]
KINDS = ['a', 'b', 'Unspecified']
MAX = [1, 2, 3, 2.5, 5, 100]
ODD_KINDS = [-1, -2, None, '', 'None', 0, (1, 2), 'Unspecified']
BIG = 10 ** 15


def reference(items, max_weight, weight, kind):
    """Greedy blocks of the items with positive weight"""
    blocks = []
    for item in items:
        w = weight(item)
        if w == 0:
            continue
        if blocks and kind(blocks[-1][0][0]) == kind(item) and (
                blocks[-1][1] + w <= max_weight):
            blocks[-1][0].append(item)
            blocks[-1][1] += w
        else:
            blocks.append([[item], w])
    return blocks


def compare(got, want, what):
    check([list(b) for b in got] == [b[0] for b in want], 'blocks',
          '%s: got the blocks %s, expected %s', what, [list(b) for b in got],
          [b[0] for b in want])
    check([b.weight for b in got] == [b[1] for b in want], 'weights',
          '%s: got the weights %s, expected %s', what,
          [b.weight for b in got], [b[1] for b in want])


def cases(tier):
    n = 5 if tier == 'quick' else 6
    for k in range(1, n + 1):
        for kinds in itertools.product(range(3), repeat=k):
            # up to a renaming, except for the default kind
            if k == n and tier == 'quick' and kinds[0] == 1:
                continue
            yield ['items', list(kinds)]
    yield ['default', 13 if tier == 'quick' else 40]
    for max_weight in (0, -1, -0.5, 1e-9):
        yield ['max', max_weight]
    for k in ODD_KINDS:
        yield ['kinds', ODD_KINDS.index(k)]
    yield ['big', 3 if tier == 'quick' else 5]
    for k in range(1, 5):
        for weights in itertools.product([0.25, 0.5, 0.1, 1.75, 1e-9],
                                         repeat=k):
            yield ['fraction', list(weights)]


class Item(object):
    def __init__(self, i, weight, kind):
        self.i, self.w, self.k = i, weight, kind

    def __repr__(self):
        return '<%d %s %s>' % (self.i, self.w, self.k)


def get_w(item):
    return item.w


def get_k(item):
    return item.k


def run_items(kinds, T):
    n = len(kinds)
    wlist = WEIGHTS if n < 5 else WEIGHTS[:3]
    for weights in itertools.product(wlist, repeat=n):
        items = [Item(i, w, KINDS[k])
                 for i, (w, k) in enumerate(zip(weights, kinds))]
        for j, max_weight in enumerate(MAX if n < 5 else MAX[1:4]):
            form = [list, tuple, iter][(j + n) % 3](items)
            got = list(block_splitter(form, max_weight, get_w, get_k))
            compare(got, reference(items, max_weight, get_w, get_k),
                    (items, max_weight))
            T.step(n)
            T.trace()
            T.outcome('%d blocks' % len(got))
        T.state(weights, kinds)
        if n < 4 and 0 not in weights:
            # a negative weight is an error, for any position
            for pos in range(n):
                w = items[pos].w
                for items[pos].w in (-w, -0.5, -1e-9):
                    try:
                        list(block_splitter(items, 3, get_w, get_k))
                    except ValueError as e:
                        check(repr(items[pos]) in str(e), 'message',
                              'unclear message %s', e)
                    else:
                        fail('negative', 'a negative weight is accepted: %s',
                             items)
                    T.step()
                items[pos].w = w
                T.outcome('negative weight')


def run(case, T):
    kind, arg = case
    if kind == 'items':
        run_items(arg, T)
    elif kind == 'kinds':
        for kinds in itertools.product(ODD_KINDS, repeat=3):
            items = [Item(i, 1, k) for i, k in enumerate(
                (ODD_KINDS[arg],) + kinds)]
            for max_weight in (2, 10):
                compare(list(block_splitter(items, max_weight, get_w, get_k)),
                        reference(items, max_weight, get_w, get_k), items)
                T.step(4)
                T.trace()
            T.state(arg, map(repr, kinds))
        T.outcome('kinds')
    elif kind == 'big':
        for weights in seqs([1, BIG - 1, BIG, BIG + 1], arg):
            items = [Item(i, w, 'a') for i, w in enumerate(weights)]
            for max_weight in (BIG, BIG + 1, 2 * BIG):
                compare(list(block_splitter(items, max_weight, get_w, get_k)),
                        reference(items, max_weight, get_w, get_k), items)
                T.step(len(items))
                T.trace()
            T.state(weights)
        T.outcome('big')
    elif kind == 'max':
        for items in seqs('AB', 3):
            it = block_splitter(items, arg)
            try:
                got = list(it)
            except ValueError:
                check(arg <= 0, 'max-rejected', 'rejected %s', arg)
                T.outcome('ValueError')
            else:
                check(arg > 0, 'max-accepted', 'accepted max_weight=%s', arg)
                compare(got, [[[i], 1] for i in items], items)
                T.outcome('accepted')
            T.step()
            T.state(arg, items)
        T.trace()
    elif kind == 'default':
        for n in range(arg):
            for max_weight in range(1, arg + 1):
                items = ''.join(map(chr, range(65, 65 + n)))
                want = reference(items, max_weight, lambda i: 1,
                                 lambda i: 'x')
                compare(list(block_splitter(items, max_weight)), want,
                        (items, max_weight))
                compare(list(block_splitter(iter(items), max_weight)), want,
                        (items, max_weight))
                T.step(n)
                T.state(n, max_weight)
                T.trace()
        T.outcome('default')
    else:
        items = [Item(i, w, 'x') for i, w in enumerate(arg)]
        for max_weight in (0.3, 0.5, 1, 2.1):
            got = list(block_splitter(items, max_weight, get_w, get_k))
            flat = [item for b in got for item in b]
            check(flat == items, 'conserve', '%s: got %s', items, got)
            compare(got, reference(items, max_weight, get_w, get_k),
                    (items, max_weight))
            T.step(len(items))
            T.state(arg, max_weight)
        T.outcome('fraction')
        T.trace()
