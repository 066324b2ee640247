# -*- coding: utf-8 -*-
"""
Stand-in for openquake.nrmllib.node: an in-memory representation of XML
hierarchies, with the interface of the original.
"""
import sys
import copy
import cStringIO
from minixml import parse, escape, XMLError
from lxml import etree
from openquake import nrmllib


def _displayattrs(attrib, expandattrs):
    if not attrib:
        return ''
    if expandattrs:
        alist = ['%s=%r' % (k, v) for k, v in attrib.iteritems()]
    else:
        alist = attrib.keys()
    return '{%s}' % ', '.join(alist)


def _display(node, indent, expandattrs, expandvals, output):
    attrs = _displayattrs(node.attrib, expandattrs)
    val = ' ' + repr(node.text) if expandvals and node.text is not None else ''
    output.write('%s%s%s%s\n' % (indent, node.tag, attrs, val))
    for sub_node in node:
        _display(sub_node, indent + '  ', expandattrs, expandvals, output)


def node_display(root, expandattrs=False, expandvals=False,
                 output=sys.stdout):
    _display(root, '', expandattrs, expandvals, output)


class Node(object):
    """
    tag, attrib, text, nodes; the subnodes can be extracted by name with the
    dot notation (the first subnode with the given name).
    """
    __slots__ = ('tag', 'attrib', 'text', 'nodes', 'lineno')

    def __init__(self, fulltag, attrib=None, text=None,
                 nodes=None, lineno=None):
        self.tag = fulltag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno
        if self.nodes and self.text is not None:
            raise ValueError(
                'A branch node cannot have a value, got %r' % self.text)

    def __getattr__(self, name):
        if name[:1] != '_':  # do not magically handle attributes
            for node in self.nodes:
                if node.tag == name:
                    return node
        raise NameError('No subnode named %r found in %r' % (name, self.tag))

    def getnodes(self, name):
        "Return the direct subnodes with name 'name'"
        for node in self.nodes:
            if node.tag == name:
                yield node

    def append(self, node):
        "Append a new subnode"
        if not isinstance(node, self.__class__):
            raise TypeError('Expected Node instance, got %r' % node)
        self.nodes.append(node)

    def to_str(self, expandattrs=True, expandvals=True):
        out = cStringIO.StringIO()
        node_display(self, expandattrs, expandvals, out)
        return out.getvalue()

    def __iter__(self):
        return iter(self.nodes)

    def __repr__(self):
        return '<%s %s %s %s>' % (
            self.tag, self.attrib, self.text, '' if not self.nodes else '...')

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def get(self, attr, value=None):
        return self.attrib.get(attr, value)

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __delitem__(self, i):
        if isinstance(i, basestring):
            del self.attrib[i]
        else:
            del self.nodes[i]

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def __getstate__(self):
        return dict((slot, getattr(self, slot))
                    for slot in self.__class__.__slots__)

    def __setstate__(self, state):
        for slot in self.__class__.__slots__:
            setattr(self, slot, state[slot])

    def __deepcopy__(self, memo):
        return Node(self.tag, dict(self.attrib), self.text,
                    copy.deepcopy(list(self.nodes), memo), self.lineno)


def to_literal(node):
    if not node.nodes:
        literal = (node.tag, node.attrib, node.text, ())
    else:
        literal = (node.tag, node.attrib, node.text,
                   map(to_literal, node.nodes))
    return literal


def node_copy(node, nodefactory=Node):
    return nodefactory(node.tag, node.attrib.copy(), node.text,
                       [node_copy(n, nodefactory) for n in node])


def striptag(tag):
    """Get the short representation of a fully qualified tag"""
    return tag.rsplit('}')[-1]


def _from_elem(elem, nodefactory):
    children = [_from_elem(c, nodefactory) for c in elem.children
                if not c.comment]
    text = elem.text
    if not children:
        # a comment splits the text in pieces
        text = (text or '') + ''.join(c.tail or '' for c in elem.children)
        text = text or None
    return nodefactory(striptag(elem.tag), dict(elem.attrib),
                       None if children else text, children,
                       lineno=elem.sourceline)


def node_from_xml(xmlfile, nodefactory=Node):
    """Convert a .xml file into a Node object (root)"""
    return _from_elem(etree.parse(xmlfile).getroot()._elem, nodefactory)


def node_from_nrml(xml, nodefactory=Node):
    """Convert a NRML file into the root `nrml` node"""
    root = _from_elem(etree.parse(xml).getroot()._elem, nodefactory)
    assert root.tag == 'nrml', root.tag
    return root


class StreamingXMLWriter(object):
    def __init__(self, stream, indent=4, encoding='utf-8', nsmap=None):
        self.stream = stream
        self.indent = indent
        self.encoding = encoding
        self.indentlevel = 0

    def _write(self, text):
        self.stream.write(' ' * (self.indent * self.indentlevel))
        self.stream.write(text + '\n')

    def start_document(self):
        self._write('<?xml version="1.0" encoding="%s"?>' % self.encoding)

    def serialize(self, node):
        items = [(n, escape(v, True)) for n, v in sorted(node.attrib.items())]
        nodes = list(node.nodes)
        if not nodes and node.text is None:
            self._write('<%s/>' % ' '.join(
                [node.tag] + ['%s="%s"' % item for item in items]))
            return
        pad = '\n' + ' ' * (self.indent * self.indentlevel)
        self._write('<%s%s%s>' % (
            node.tag, ''.join('%s%s="%s"' % ((pad,) + i) for i in items),
            pad if items else ''))
        if node.text is not None:
            txt = escape(node.text).strip()
            if txt:
                self._write(' ' * self.indent + txt)
        self.indentlevel += 1
        for subnode in nodes:
            self.serialize(subnode)
        self.indentlevel -= 1
        self._write('</%s>' % node.tag)


def node_to_xml(node, output=sys.stdout, nsmap=None):
    """Convert a Node object into a pretty .xml file"""
    w = StreamingXMLWriter(output)
    w.start_document()
    w.serialize(node)


def node_to_nrml(node, output=sys.stdout, nsmap=None):
    """Convert a node into a NRML file, open in write mode"""
    assert isinstance(node, Node), node  # better safe than sorry
    root = Node('nrml', nodes=[node])
    root['xmlns'] = nrmllib.NAMESPACE
    root['xmlns:gml'] = nrmllib.GML_NAMESPACE
    node_to_xml(root, output)
