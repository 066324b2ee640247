# -*- coding: utf-8 -*-
"""
A small non-validating XML parser, used by the stand-ins for lxml and nrmllib.

It builds light element trees with namespaces resolved to the ``{uri}local``
notation, source lines, text and tail. Everything which is not well formed
raises `XMLError`.
"""
import re


class XMLError(Exception):
    def __init__(self, msg, lineno=0, column=0):
        Exception.__init__(self, '%s, line %d, column %d'
                           % (msg, lineno, column))
        self.lineno = lineno


class Elem(object):
    __slots__ = ('tag', 'attrib', 'text', 'tail', 'children', 'parent',
                 'sourceline', 'nsmap', 'comment')

    def __init__(self, tag, attrib, sourceline, nsmap, comment=False):
        self.tag = tag
        self.attrib = attrib
        self.text = None
        self.tail = None
        self.children = []
        self.parent = None
        self.sourceline = sourceline
        self.nsmap = nsmap
        self.comment = comment


_NAME = r'[A-Za-z_][\w.\-]*(?::[A-Za-z_][\w.\-]*)?'
_ATTR = re.compile(r'\s+(%s)\s*=\s*("[^"<]*"|\'[^\'<]*\')' % _NAME)
_OPEN = re.compile(r'<(%s)' % _NAME)
_CLOSE = re.compile(r'</(%s)\s*>' % _NAME)
_END = re.compile(r'\s*(/?)>')
_ENT = re.compile(r'&([^;&<]*;?)')
_ENTITIES = {'lt;': '<', 'gt;': '>', 'amp;': '&', 'quot;': '"', 'apos;': "'"}
_DECL = re.compile(r'<\?xml\s+version\s*=\s*["\'][\d.]+["\'][^?]*\?>')


def parse(data, on_end=None):
    """Parse a bytestring, returning the root element"""
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    pos = 0
    line = [1, 0]  # current line, position up to which it was computed

    def lineno(p):
        line[0] += data.count('\n', line[1], p)
        line[1] = p
        return line[0]

    def fail(msg, p):
        raise XMLError(msg, data.count('\n', 0, p) + 1, 1)

    def decode(s, p, attribute=False):
        def repl(mo):
            name = mo.group(1)
            if name in _ENTITIES:
                return _ENTITIES[name]
            if name.startswith('#') and name.endswith(';'):
                try:
                    num = int(name[2:-1], 16) if name[1:2] == 'x' \
                        else int(name[1:-1])
                except ValueError:
                    fail('xmlParseCharRef: invalid', p)
                return unichr(num).encode('utf-8')
            fail('Entity not defined: %s' % name, p)
        if '&' in s:
            s = _ENT.sub(repl, s)
        s = s.replace('\r\n', '\n')
        if attribute:
            s = re.sub(r'[\t\n\r]', ' ', s)
        try:  # like lxml in Python 2: str when ASCII, unicode otherwise
            s.decode('ascii')
            return s
        except UnicodeDecodeError:
            try:
                return s.decode('utf-8')
            except UnicodeDecodeError:
                fail('Input is not proper UTF-8', p)

    while data[pos:pos + 1].isspace() and data.find('<?xml') != pos:
        pos += 1
    if data.startswith('<?', pos):
        mo = _DECL.match(data, pos)
        if mo is None or pos != 0:
            if not (mo and data[:pos].isspace()):
                fail('XML or text declaration not at start of entity', pos)
            fail('XML declaration allowed only at the start', pos)
        pos = mo.end()
    root = None
    current = None
    last = None  # last closed child of current
    buf = ''

    def add_text(s):
        if last is not None:
            last.tail = (last.tail or '') + s
        else:
            current.text = (current.text or '') + s
    n = len(data)
    while pos < n:
        if data[pos] != '<':
            nxt = data.find('<', pos)
            if nxt == -1:
                nxt = n
            chunk = data[pos:nxt]
            if current is None:
                if chunk.strip():
                    fail('Start tag expected, \'<\' not found' if root is None
                         else 'Extra content at the end of the document', pos)
            else:
                if ']]>' in chunk:
                    fail("Sequence ']]>' not allowed in content", pos)
                add_text(decode(chunk, pos))
            pos = nxt
            continue
        if data.startswith('<!--', pos):
            end = data.find('-->', pos + 4)
            if end == -1:
                fail('Comment not terminated', pos)
            if current is not None:
                c = Elem(None, {}, lineno(pos), {}, True)
                c.text = data[pos + 4:end]
                c.parent = current
                current.children.append(c)
                last = c
            pos = end + 3
            continue
        if data.startswith('<![CDATA[', pos):
            end = data.find(']]>', pos)
            if end == -1 or current is None:
                fail('CData section not finished', pos)
            add_text(data[pos + 9:end])
            pos = end + 3
            continue
        if data.startswith('<?', pos):
            end = data.find('?>', pos)
            if end == -1 or data.startswith('<?xml ', pos):
                fail('xmlParsePI', pos)
            pos = end + 2
            continue
        if data.startswith('</', pos):
            mo = _CLOSE.match(data, pos)
            if mo is None or current is None:
                fail('expected >', pos)
            if mo.group(1) != stack[-1][0]:
                fail('Opening and ending tag mismatch: %s and %s' % (
                    stack[-1][0], mo.group(1)), pos)
            stack.pop()
            closed = current
            current = closed.parent
            last = closed
            pos = mo.end()
            if on_end is not None:
                on_end(closed)
            continue
        mo = _OPEN.match(data, pos)
        if mo is None:
            fail('StartTag: invalid element name', pos)
        if current is None and root is not None:
            fail('Extra content at the end of the document', pos)
        start = pos
        qname = mo.group(1)
        pos = mo.end()
        attrs = []
        while True:
            mo = _ATTR.match(data, pos)
            if mo is None:
                break
            attrs.append((mo.group(1), decode(mo.group(2)[1:-1], pos, True)))
            pos = mo.end()
        mo = _END.match(data, pos)
        if mo is None:
            fail("Couldn't find end of Start Tag %s" % qname, pos)
        pos = mo.end()
        nsmap = dict(current.nsmap) if current is not None else {
            'xml': 'http://www.w3.org/XML/1998/namespace'}
        names = set()
        for k, v in attrs:
            if k in names:
                fail('Attribute %s redefined' % k, start)
            names.add(k)
            if k == 'xmlns':
                nsmap[None] = v
            elif k.startswith('xmlns:'):
                nsmap[k[6:]] = v

        def resolve(name, default):
            if ':' in name:
                prefix, local = name.split(':', 1)
                if prefix not in nsmap:
                    fail('Namespace prefix %s is not defined' % prefix, start)
                return '{%s}%s' % (nsmap[prefix], local)
            if default and nsmap.get(None):
                return '{%s}%s' % (nsmap[None], name)
            return name
        attrib = {}
        order = []
        for k, v in attrs:
            if k == 'xmlns' or k.startswith('xmlns:'):
                continue
            attrib[resolve(k, False)] = v
        # like libxml2: the line where the start tag ends
        elem = Elem(resolve(qname, True), attrib, lineno(pos), nsmap)
        elem.parent = current
        if current is not None:
            current.children.append(elem)
        else:
            root = elem
            stack = []
        if mo.group(1):  # self closing
            last = elem
            if on_end is not None:
                on_end(elem)
        else:
            stack.append((qname,))
            current = elem
            last = None
    if root is None:
        fail('Document is empty', n)
    if current is not None:
        fail('Premature end of data in tag %s' % stack[-1][0], n)
    return root


def escape(text, quote=False):
    if isinstance(text, unicode):
        text = text.encode('utf-8')
    text = str(text).replace('&', '&amp;').replace('<', '&lt;') \
        .replace('>', '&gt;')
    if quote:
        text = text.replace('"', '&quot;')
    return text
