"""
All the histories of up to 3 operations (thorough: 4) on two weighted
sequences out of 13 operations (append, insert at each position, extend with
0 to 2 pairs, reassign with the sum, add in place pairs, merge of 0 to 3
sequences, build from pairs, copy); after each operation the items, the
weights, the length, the iteration, the representation, and all the
comparisons between the two sequences and with lists are compared with two
lists of pairs.
"""
import itertools
from mclib import check, fail
from openquake.commonlib.general import WeightedSequence as WS

QUICK_SHARDS = 4
# (operation, index of the sequence)
OPS = [('append', 0), ('append', 1), ('insert0', 0), ('insert1', 0),
       ('insert-1', 1), ('insert9', 0), ('extend0', 0), ('extend2', 1),
       ('extendgen', 0), ('iadd', 1), ('sum', 0), ('sum', 1), ('merge0', 0),
       ('merge1', 0), ('merge3', 1), ('new', 0), ('zero', 1)]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(n):
        for ops in itertools.product(range(len(OPS)), repeat=k):
            yield list(ops)


def apply(op, i, real, model, fresh):
    """Change real[i] and model[i]; `fresh` makes new pairs"""
    if op == 'append':
        p = fresh()
        real[i].append(p)
        model[i].append(p)
    elif op == 'zero':
        p = (fresh()[0], 0)
        real[i].append(p)
        model[i].append(p)
    elif op.startswith('insert'):
        p = fresh()
        pos = int(op[6:])
        real[i].insert(pos, p)
        model[i].insert(pos, p)
    elif op == 'extendgen':
        ps = [fresh(), fresh()]
        real[i].extend(p for p in ps)
        model[i].extend(ps)
    elif op.startswith('extend'):
        ps = [fresh() for _ in range(int(op[6:]))]
        real[i].extend(ps)
        model[i].extend(ps)
    elif op == 'iadd':
        ps = [fresh(), fresh()]
        before = real[i]
        real[i] += ps
        check(real[i] is before, 'iadd', '+= built another sequence')
        model[i].extend(ps)
    elif op == 'sum':
        real[i] = real[0] + real[1]
        model[i] = model[0] + model[1]
    elif op == 'merge0':
        real[i] = WS.merge([])
        model[i] = []
    elif op == 'merge1':
        real[i] = WS.merge([real[i]])
        model[i] = list(model[i])
    elif op == 'merge3':
        p = fresh()
        real[i] = WS.merge(iter([real[1], real[0], WS([p])]))
        model[i] = model[1] + model[0] + [p]
    elif op == 'new':
        ps = [fresh(), fresh()]
        real[i] = WS(tuple(ps))
        model[i] = list(ps)


def verify(real, model, what):
    for r, m in zip(real, model):
        items = [p[0] for p in m]
        weight = sum(p[1] for p in m)
        check(list(r) == items, 'items', '%s: got %s, expected %s', what,
              list(r), items)
        check(r.weight == weight, 'weight', '%s: got %s, expected %s', what,
              r.weight, weight)
        check(len(r) == len(items) and bool(r) == bool(items), 'len',
              '%s: wrong length %d', what, len(r))
        for j, item in enumerate(items):
            check(r[j] == item and r[j - len(items)] == item and item in r
                  and r.index(item) == items.index(item), 'access',
                  '%s: wrong item %d of %s', what, j, r)
        check(list(reversed(r)) == items[::-1] and r[1:] == items[1:],
              'slice', '%s: wrong slices of %s', what, r)
        check('zz' not in r, 'contains', "'zz' in %s", r)
        check(repr(r) == '<WeightedSequence %s, weight=%s>' % (
            items, weight), 'repr', '%s: got %r', what, r)
    a, b = real
    ia, ib = [[p[0] for p in m] for m in model]
    wa, wb = [sum(p[1] for p in m) for m in model]
    for x, y, same in ((a, b, ia == ib), (b, a, ia == ib), (a, a, True),
                       (a, list(ia), True), (ia, a, True), (b, ia, ia == ib),
                       (a, ia + ['zz'], False), (a, [], not ia),
                       (ia[:-1], a, not ia), (a, ['zz'] * len(ia), not ia)):
        check((x == y) is same, 'eq', '%s: (%s == %s) is not %s', what, x, y,
              same)
        check((x != y) is (not same), 'ne', '%s: (%s != %s) is %s', what, x,
              y, same)
    check((a < b) is (wa < wb) and (b < a) is (wb < wa), 'lt',
          '%s: wrong ordering of %s, %s', what, a, b)
    got = [id(x) for x in sorted([a, b])]
    want = [id(a), id(b)] if not wb < wa else [id(b), id(a)]
    check(got == want, 'sorted', '%s: wrong order of %s, %s', what, a, b)


def run(case, T):
    for last in range(len(OPS)):
        real = [WS(), WS()]
        model = [[], []]
        verify(real, model, 'initially')
        replaced = []  # sequences which must not change anymore
        counter = itertools.count()

        def fresh():
            i = counter.next()
            return ('abcdefghij'[i % 3], [1, 3, 2.5, 7][i % 4])
        for k in case + [last]:
            op, i = OPS[k]
            operands = list(real)
            before = [(list(r), r.weight) for r in real]
            apply(op, i, real, model, fresh)
            for j in (0, 1):
                if real[j] is not operands[j] or j != i:
                    check((list(operands[j]), operands[j].weight) ==
                          before[j], 'operand', '%s changed its operand %s',
                          op, operands[j])
                if j == i and op in ('sum', 'merge0', 'merge1', 'merge3'):
                    replaced.append((operands[j], before[j]))
            for old, content in replaced:
                check((list(old), old.weight) == content, 'shared', 'after %s'
                      ' the sequence %s was changed by a change of its sum '
                      'or merge', [OPS[x] for x in case + [last]], old)
            verify(real, model, 'after %s' % [OPS[x] for x in case + [last]])
            T.step()
            T.outcome(op)
        T.state(model)
        T.trace()
