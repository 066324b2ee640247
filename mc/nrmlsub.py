"""
Substitutions: in a small model where all the values are different, each
value is replaced, everywhere it appears, by each of a list of unusual but
valid ones of the same kind. Pairs of values of the same kind are replaced by
values which look alike. The references between the elements are kept,
since a value is replaced everywhere.
"""
import itertools
from nrmlgen import Tree, value

POS = ['0.1234567891', '1e-10', '1234567.875', '00.50', '+1', '.5', '5.',
       '3E+2', '17', '1e5', '0.30000000000000004']
NUM = POS + ['0', '0.0']
PROB = ['0.1234567891', '1e-10', '00.50', '+1', '.5', '0', '0.0', '1.', '1',
        '0.9999999999']
LON = ['0', '-0.1234567891', '179.9999999', '-180', '180', '1e-7', '+1.50',
       '-.5', '100']
LAT = ['0', '-0.1234567891', '89.9999999', '-90', '90', '1e-7', '+1.50', '-.5']
FLOAT = NUM + ['-1', '-0.5', '-1e-3']
INT = ['10', '007', '12345678901', '99', '100']
ID = ['0', '00', '-1', '1.0', '1e1', 'nan', 'inf', ' x', 'x ', 'X', 'x',
      'a__b', 'a.b', 'A,1', '"q"', "it's", '<&>', '%s', 'None', 'a  b',
      'Id', 'id', 'SA(1)', '1_2', '(1)', '[x]', '{0}', 'a\\b', '#1', '']
NOTEMPTY = ID[:-1]
TEXT = [t for t in NOTEMPTY if t == t.strip() and '  ' not in t] + ['a b c']
DESC = TEXT + ['a  b', 'a\n  b', 'a, "b"\n\nc']
NAMES = ['A', 'a', '_', 'a1', 'Z_9', 'nan', 'None', 'e1', 'PGA', 'no_damage']
IMT = ['PGV', 'PGD', 'IA', 'RSD', 'MMI', 'SA(10)', 'SA(0.0625)', 'SA(0)',
       'SA(1.)', 'SA(0.1234567891)', 'SA(00.10)']
PERIOD = ['10', '0.0625', '0', '1.', '0.1234567891', '00.10', '1234567.5',
          '0.00001']
ALIKE = {
    'ID': [('1', '01'), ('1', '1.0'), ('a', 'A'), ('x', 'x '), ('a', 'aa'),
           ('1', '11'), ('x1', 'x10'), ('0', '00'), ('b', 'a'), ('10', '9')],
    'NAMES': [('a', 'A'), ('a', 'aa'), ('x1', 'x10'), ('b', 'a')],
    'DESC': [],
    'TEXT': [('1', '01'), ('a', 'A'), ('x1', 'x10'), ('b', 'a')],
    'POS': [('1.0000000001', '1.0000000002'), ('10', '9'), ('1', '01'),
            ('1', '1.0')],
    'INT': [('1', '11'), ('10', '9'), ('2', '1')],
    'LON': [('1.0000000001', '1.0000000002'), ('10', '9'), ('1', '-1'),
            ('1', '1.0'), ('1.000001', '1.000002')],
    'PERIOD': [('0.1000000001', '0.1000000002'), ('10', '1'), ('1', '1.0')],
    'IMT': [('SA(0.1)', 'SA(0.10)'), ('SA(1)', 'SA(10)'), ('PGA', 'PGV')]}
for kind, other in [('NOTEMPTY', 'ID'), ('NUM', 'POS'), ('FLOAT', 'POS'),
                    ('LAT', 'LON'), ('PROB', None)]:
    ALIKE[kind] = ALIKE[other] if other else [
        ('0.1000000001', '0.1000000002'), ('0.1', '.1'), ('0.2', '0.1')]


def leaves(t, kinds, where=()):
    """The values of the tree with their kind, once"""
    items = []
    for name in sorted(t.attrib):
        items.append((t.attrib[name], kinds.get((t.tag, name))))
    if t.text is not None:
        kind = kinds.get(t.tag)
        if kind in ('TEXT', 'DESC', None):
            items.append((t.text, kind))
        else:
            items.extend((v, kind) for v in t.text.split())
    for n in t.nodes:
        items.extend(leaves(n, kinds))
    seen, out = set(), []
    for item in items:
        if item[1] and item[0] not in seen:
            seen.add(item[0])
            out.append(item)
    return out


def replace(t, dic, kinds):
    """A copy of the tree with other values"""
    attrib = dict((k, dic.get(v, v) if kinds.get((t.tag, k)) else v)
                  for k, v in t.attrib.items())
    text = t.text
    kind = kinds.get(t.tag)
    if text is not None and kind:
        text = dic.get(text, text) if kind in (
            'TEXT', 'DESC') else \
            ' '.join(dic.get(v, v) for v in text.split())
    return Tree(t.tag, attrib, text,
                [replace(n, dic, kinds) for n in t.nodes])


def substitutions(tree, kinds):
    """
    Pairs (description, tree): all the single substitutions and all the
    substitutions of pairs of values of the same kind
    """
    items = leaves(tree, kinds)
    for v, kind in items:
        for new in globals()[kind]:
            yield '%s -> %r' % (v, new), replace(tree, {v: new}, kinds)
    for (v, kind), (w, other) in itertools.permutations(items, 2):
        if kind == other:
            for a, b in ALIKE[kind]:
                yield '%s, %s -> %r, %r' % (v, w, a, b), replace(
                    tree, {v: a, w: b}, kinds)

NUMBERS = ('POS', 'PROB', 'NUM', 'LAT', 'LON', 'FLOAT', 'PERIOD')
# the kinds of numbers accepted in place of other ones
FITS = {'PROB': ('PROB',), 'POS': ('POS', 'PERIOD'),
        'PERIOD': ('POS', 'PERIOD'), 'NUM': ('POS', 'PROB', 'NUM', 'PERIOD'),
        'LAT': ('LAT',), 'LON': ('LAT', 'LON'), 'FLOAT': NUMBERS}


def fits(kind, other):
    """Can a value of the first kind be used as one of the other kind?"""
    return kind == other or other in ('ID', 'NOTEMPTY', 'TEXT', 'DESC') or \
        kind in FITS.get(other, ())


def descendants(t):
    yield t
    for n in t.nodes:
        for d in descendants(n):
            yield d


def distinct(tree, unique):
    """
    Check that in each container the items of the given tags have different
    attributes (or words, if there are no names of attributes; the numbers
    must be increasing)
    """
    for container, tag, names in unique:
        for c in descendants(tree):
            if c.tag != container:
                continue
            seen = set()
            for item in descendants(c):
                if item.tag == tag:
                    for key in [tuple(item.attrib.get(n) for n in names)] \
                            if names else map(value, (item.text or '').split()):
                        if key in seen or isinstance(key, float) and \
                                seen and key < max(seen):
                            return False
                        seen.add(key)
    return True


def coincidences(tree, kinds, unique):
    """
    The trees where a value is replaced by another one of the same tree, or
    all the values of a kind, or of a place, by the first of them, if the
    values which must be different are still different
    """
    items = leaves(tree, kinds)
    dics = [('%s -> %s' % (w, v), {w: v}) for (v, kind), (w, other) in
            itertools.permutations(items, 2) if fits(kind, other)]
    for k in sorted(set(kind for _, kind in items)):
        values = [v for v, kind in items if kind == k]
        dics.append(('all ' + k, dict.fromkeys(values, values[0])))
    for place in kinds:
        values = [v for v, _ in leaves(tree, {place: kinds[place]})]
        dics.append(('all %s' % (place,), dict.fromkeys(
            values, values and values[0])))
    for what, dic in dics:
        new = replace(tree, dic, kinds)
        if distinct(new, unique):
            yield what, new


def check_same_texts(want, got, kinds, fail, path=''):
    """The values which are not numbers must be the same texts"""
    path += '/' + want.tag
    for name, v in want.attrib.items():
        if kinds.get((want.tag, name)) in TEXTUAL:
            w = got.attrib.get(name, '')
            if v != w:
                fail('text', '%s: the attribute %s is %r instead of %r',
                     path, name, w, v)
    if kinds.get(want.tag) in TEXTUAL:
        split = str.strip if kinds[want.tag] in ('TEXT', 'DESC') else str.split
        if split(want.text or '') != split(got.text or ''):
            fail('text', '%s: the text is %r instead of %r', path, got.text,
                 want.text)
    gnodes = got.children if hasattr(type(got), 'children') else got.nodes
    for n, g in zip(want.nodes, list(gnodes)):
        if n.tag in ('costs', 'occupancies'):
            continue
        check_same_texts(n, g, kinds, fail, path)

TEXTUAL = ('ID', 'DESC', 'NOTEMPTY', 'TEXT', 'NAMES', 'IMT', 'INT')
