"""
All the sequences of up to 5 items (thorough: 6) with weights among 0, 1, 2,
5 and 2 kinds with a positive total weight, for each hint from 1 to 7; all
the sequences of up to 14 items (thorough: 40) of weight one for each hint
up to 16 (thorough: 45); the same given as an iterator; fractional weights;
all the non-positive hints.
"""
import math
import itertools
from fractions import Fraction
from mclib import check, fail
from props.G01 import Item, get_w, get_k, reference, compare
from openquake.commonlib.general import split_in_blocks

QUICK_SHARDS = 4


def cases(tier):
    n = 5 if tier == 'quick' else 6
    for k in range(1, n + 1):
        for kinds in itertools.product('ab', repeat=k):
            if k < n or kinds[0] == 'a':
                yield ['items', list(kinds)]
    size = 14 if tier == 'quick' else 40
    for n in range(1, size + 1):
        yield ['unit', n]
    for k in (1, 2, 3):
        for weights in itertools.product(
                [0.25, 0.5, 0.125, 3.5, 1 + 2. ** -30, 2. ** -40], repeat=k):
            yield ['fraction', list(weights)]
    yield ['hint', 0]


def ceildiv(total, hint):
    return int(math.ceil(Fraction(total) / hint))


def verify(items, form, hint, T):
    total = sum(item.w for item in items)
    max_weight = ceildiv(total, hint)
    got = list(split_in_blocks(form(items), hint, get_w, get_k))
    compare(got, reference(items, max_weight, get_w, get_k),
            (items, hint))
    flat = [item for b in got for item in b]
    check(flat == [i for i in items if i.w > 0], 'conserve',
          '%s: got %s', items, got)
    for b in got:
        check(b.weight <= max_weight or len(b) == 1, 'balance',
              '%s: got %s', items, got)
    T.step(len(items))
    T.trace()
    T.outcome('%d blocks' % len(got))


def run(case, T):
    kind, arg = case
    if kind == 'items':
        for weights in itertools.product([0, 1, 2, 5], repeat=len(arg)):
            if sum(weights) == 0:
                continue
            items = [Item(i, w, k)
                     for i, (w, k) in enumerate(zip(weights, arg))]
            hints = range(1, 8) if len(arg) < 5 else [1, 2, 3, 7]
            for hint in hints:
                verify(items, iter if hint % 2 else list, hint, T)
            T.state(weights, arg)
    elif kind == 'unit':
        for hint in range(1, 17 if arg < 15 else 46):
            items = [Item(i, 1, 'a') for i in range(arg)]
            verify(items, tuple, hint, T)
            names = range(arg)
            got = list(split_in_blocks(iter(names), hint))
            want = reference(names, ceildiv(arg, hint), lambda i: 1,
                             lambda i: 'k')
            compare(got, want, (arg, hint))
            check(len(got) <= hint, 'too-many',
                  '%d items, hint %d: got %d blocks', arg, hint, len(got))
            T.state(arg, hint)
    elif kind == 'fraction':
        items = [Item(i, w, 'a') for i, w in enumerate(arg)]
        for hint in (1, 2, 3, 10):
            verify(items, list, hint, T)
            T.state(arg, hint)
    else:
        for hint in (0, -1, -10):
            for items in ([], ['a'], ['a', 'b']):
                try:
                    list(split_in_blocks(items, hint))
                except AssertionError:
                    T.outcome('AssertionError')
                else:
                    fail('hint', 'hint=%s accepted', hint)
                T.step()
                T.state('hint', hint, items)
        T.trace()
