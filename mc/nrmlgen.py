"""
Small NRML trees (tag, attributes, text, children) and their canonical form,
independent from the code under test.
"""
import os
import StringIO
from mclib import check, fail
from minixml import escape, parse

NS = 'http://openquake.org/xmlns/nrml/0.4'


class Tree(object):
    def __init__(self, tag, attrib=None, text=None, nodes=()):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.text = text
        self.nodes = list(nodes)

    def __repr__(self):
        return to_xml(self)


def to_xml(t):
    attrs = ''.join(' %s="%s"' % (k, escape(v, True))
                    for k, v in sorted(t.attrib.items()))
    return '<%s%s>%s%s</%s>' % (
        t.tag, attrs, escape(t.text) if t.text is not None else '',
        ''.join(map(to_xml, t.nodes)), t.tag)


def document(t):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<nrml xmlns="%s" '
            'xmlns:gml="http://www.opengis.net/gml">\n%s\n</nrml>\n'
            % (NS, to_xml(t)))


def to_node(t):
    from openquake.nrmllib.node import Node
    return Node(t.tag, dict(t.attrib), t.text, [to_node(n) for n in t.nodes])


def value(text):
    """A token in canonical form: numbers are compared as numbers"""
    try:
        number = float(text)
    except ValueError:
        return text
    return number if number == number else text


def tokens(text):
    return tuple(map(value, (text or '').split()))


# the order of the children is irrelevant for these elements
UNORDERED = ('costs', 'occupancies')


def canon(t, drop=()):
    """Canonical form of a Tree, of a Node or of an element"""
    if hasattr(type(t), 'children'):  # minixml element
        nodes = [c for c in t.children if not c.comment]
        tag = t.tag.split('}')[-1]
    else:
        nodes = list(t.nodes)
        tag = t.tag
    attrib = {}
    for k, v in t.attrib.items():
        check(isinstance(v, basestring), 'attribute-type',
              'the attribute %s of <%s> is not a string: %r', k, tag, v)
        if (tag, k) not in drop:
            attrib[str(k)] = value(v)
    children = [canon(n, drop) for n in nodes]
    if tag in UNORDERED:
        children = sorted(children)
    return (tag, sorted(attrib.items()),
            () if nodes else tokens(t.text), children)


def diff(a, b, path=''):
    """The first difference between two canonical trees"""
    path += '/' + a[0]
    if a[0] != b[0]:
        return '%s: got <%s>' % (path, b[0])
    if a[1] != b[1]:
        return '%s: attributes %s, got %s' % (path, a[1], b[1])
    if a[2] != b[2]:
        return '%s: text %s, got %s' % (path, a[2], b[2])
    if [c[0] for c in a[3]] != [c[0] for c in b[3]]:
        return '%s: children %s, got %s' % (
            path, [c[0] for c in a[3]], [c[0] for c in b[3]])
    for x, y in zip(a[3], b[3]):
        d = diff(x, y, path)
        if d:
            return d


def parse_nrml(data):
    """Parse the text of a NRML file and return the element inside <nrml>"""
    root = parse(data)
    check(root.tag.endswith('}nrml') and len(root.children) == 1,
          'nrml', 'not a NRML document: %r', data)
    return root.children[0]


def compare(want, got, drop, what, kinds=None):
    a, b = canon(want, drop), canon(got, drop)
    if a != b:
        fail(what, '%s: %s\nmodel: %s', what, diff(a, b), want)
    if kinds:
        from nrmlsub import check_same_texts
        check_same_texts(want, got, kinds, lambda label, msg, *args: fail(
            what, what + ': ' + msg + '\nmodel: %s', *(args + (want,))))


def roundtrip(tree, T, drop=(), xml=False, kinds=None):
    """
    NRML -> records -> CSV files -> records -> NRML must give back the tree
    """
    from openquake.commonlib import csvmanager, converter
    # in memory conversion to records and back
    conv = converter.Converter.from_node(to_node(tree))
    compare(tree, conv.to_node(), drop, 'records', kinds)
    T.step()
    # all the records are valid
    archive = csvmanager.MemArchive([])
    man = csvmanager.CSVManager(archive).convert_from_node(
        to_node(tree), 'model')
    invalid = csvmanager.CSVManager(archive).find_invalid()
    check(not invalid, 'invalid', 'invalid records: %s\nmodel: %s',
          map(str, invalid), tree)
    compare(tree, man.convert_to_node(), drop, 'csv', kinds)
    T.step(2)
    if xml:
        archive = csvmanager.MemArchive([])
        name = os.path.join(os.getcwd(), 'model.xml')
        with open(name, 'w') as f:
            f.write(document(tree))
        csvmanager.CSVManager(archive).convert_from_nrml(name)
        fnames = csvmanager.CSVManager(archive).convert_to_nrml()
        check(fnames == ['model.xml'], 'names', 'created %s', fnames)
        data = archive.open('model.xml').read()
        compare(tree, parse_nrml(data), drop, 'xml', kinds)
        T.step(2)
    T.state(canon(tree))
    T.trace()
