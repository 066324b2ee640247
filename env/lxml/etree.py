# -*- coding: utf-8 -*-
"""
Stand-in for the part of lxml.etree used by openquake.commonlib.

The XMLSchema stand-in accepts the documents whose elements are all known to
the (abridged) table of NRML tags: enough to tell whether a document was
validated against a schema or not.
"""
import minixml


class LxmlError(Exception):
    pass


class Error(Exception):
    pass


class LxmlSyntaxError(LxmlError, SyntaxError):
    pass


class ParseError(LxmlSyntaxError):
    def __init__(self, msg, lineno=0):
        LxmlSyntaxError.__init__(self, msg)
        self.msg = msg
        self.lineno = lineno

    def __str__(self):
        return self.msg


class XMLSyntaxError(ParseError):
    pass


class DocumentInvalid(LxmlError):
    pass


def Comment(text=None):
    raise NotImplementedError


class _Element(object):
    """Proxy over a minixml.Elem"""

    def __init__(self, elem):
        self._elem = elem

    def __eq__(self, other):
        return isinstance(other, _Element) and self._elem is other._elem

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return id(self._elem)

    @property
    def tag(self):
        if self._elem.comment:
            return Comment
        return self._elem.tag

    @property
    def attrib(self):
        return self._elem.attrib

    @property
    def nsmap(self):
        return self._elem.nsmap

    @property
    def prefix(self):
        return None

    def _get_text(self):
        return self._elem.text

    def _set_text(self, text):
        self._elem.text = text

    text = property(_get_text, _set_text)

    @property
    def tail(self):
        return self._elem.tail

    @property
    def sourceline(self):
        return self._elem.sourceline

    def get(self, name, default=None):
        return self._elem.attrib.get(name, default)

    def set(self, name, value):
        self._elem.attrib[name] = value

    def keys(self):
        return list(self._elem.attrib)

    def items(self):
        return list(self._elem.attrib.items())

    def __len__(self):
        return len(self._elem.children)

    def __nonzero__(self):  # like lxml (with a FutureWarning)
        return len(self._elem.children) > 0

    def __iter__(self):
        return iter([_Element(c) for c in self._elem.children])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [_Element(c) for c in self._elem.children[i]]
        return _Element(self._elem.children[i])

    def getchildren(self):
        return list(self)

    iterchildren = __iter__

    def getparent(self):
        p = self._elem.parent
        return None if p is None else _Element(p)

    def getprevious(self):
        p = self._elem.parent
        if p is None:
            return None
        i = self._index(p)
        return _Element(p.children[i - 1]) if i > 0 else None

    def getnext(self):
        p = self._elem.parent
        if p is None:
            return None
        i = self._index(p)
        return _Element(p.children[i + 1]) if i + 1 < len(p.children) else None

    def _index(self, p):
        for i, c in enumerate(p.children):
            if c is self._elem:
                return i
        raise ValueError

    def remove(self, child):
        i = child._index(self._elem)
        self._elem.children.pop(i)
        child._elem.parent = None

    def clear(self, keep_tail=False):
        e = self._elem
        e.attrib = {}
        e.text = None
        e.tail = None
        e.children = []

    def getroottree(self):
        e = self._elem
        while e.parent is not None:
            e = e.parent
        return _ElementTree(_Element(e))

    def iter(self, *tags):
        def walk(e):
            if not tags or (not e.comment and any(
                    _match(t, e.tag) for t in tags)):
                yield _Element(e)
            for c in list(e.children):
                for x in walk(c):
                    yield x
        return walk(self._elem)

    def iterdescendants(self, *tags):
        it = self.iter(*tags)
        return (e for e in it if e != self)

    def itertext(self):
        def walk(e):
            if e.text and not e.comment:
                yield e.text
            for c in e.children:
                for t in walk(c):
                    yield t
                if c.tail:
                    yield c.tail
        return walk(self._elem)

    def findall(self, path, namespaces=None):
        return [_Element(e) for e in _find(self._elem, path, namespaces)]

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def find(self, path, namespaces=None):
        for e in _find(self._elem, path, namespaces):
            return _Element(e)

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path, namespaces)
        return default if e is None else (e.text or '')

    def xpath(self, path, namespaces=None):
        return _xpath(self._elem, path, namespaces)


def _match(pattern, tag):
    if pattern == '*' or pattern == tag:
        return True
    if pattern.endswith('}*'):
        return tag.startswith(pattern[:-1])
    return False


_STEPS = {}


def _steps(path, namespaces):
    """Split a path in steps (descendants, test, predicate)"""
    if not namespaces:
        if path not in _STEPS:
            _STEPS[path] = _split(path, namespaces)
        return _STEPS[path]
    return _split(path, namespaces)


def _split(path, namespaces):
    steps = []
    i = 0
    n = len(path)
    deep = False
    while i < n:
        if path.startswith('//', i):
            deep = True
            i += 2
            continue
        if path[i] == '/':
            deep = False
            i += 1
            continue
        j = i
        brace = quote = 0
        bracket = 0
        while j < n and (brace or bracket or path[j] != '/'):
            ch = path[j]
            if ch == '{':
                brace += 1
            elif ch == '}':
                brace -= 1
            elif ch == '[':
                bracket += 1
            elif ch == ']':
                bracket -= 1
            j += 1
        step = path[i:j]
        pred = None
        if '[' in step:
            step, pred = step.split('[', 1)
            pred = pred[:-1]
        if ':' in step and not step.startswith('{'):
            prefix, local = step.split(':', 1)
            if not namespaces or prefix not in namespaces:
                raise LxmlError('Undefined namespace prefix')
            step = '{%s}%s' % (namespaces[prefix], local)
        steps.append((deep, step, pred))
        deep = False
        i = j
    return steps


def _descendants(e):
    for c in e.children:
        if not c.comment:
            yield c
            for d in _descendants(c):
                yield d


def _pred(e, pred):
    if pred is None:
        return True
    if pred.startswith('@'):
        if '=' in pred:
            name, value = pred[1:].split('=', 1)
            return e.attrib.get(name.strip()) == value.strip().strip('\'"')
        return pred[1:].strip() in e.attrib
    raise NotImplementedError('predicate [%s]' % pred)


def _walk(context, steps):
    for deep, test, pred in steps:
        out = []
        seen = set()
        for e in context:
            if test == '.':
                cands = [e]
                if deep:
                    cands = [e] + list(_descendants(e))
            elif test == '..':
                cands = [e.parent] if e.parent is not None else []
            elif deep:
                cands = [d for d in _descendants(e) if _match(test, d.tag)]
            else:
                cands = [c for c in e.children
                         if not c.comment and _match(test, c.tag)]
            for c in cands:
                if id(c) not in seen and _pred(c, pred):
                    seen.add(id(c))
                    out.append(c)
        context = out
    return context


def _find(elem, path, namespaces):
    return _walk([elem], _steps(path, namespaces))


def _xpath(elem, path, namespaces):
    final = None
    if path.endswith('/text()'):
        path, final = path[:-len('/text()')], 'text'
    else:
        head, _, last = path.rpartition('/')
        if last.startswith('@'):
            path, final = head, last[1:]
    if path.startswith('/'):
        root = elem
        while root.parent is not None:
            root = root.parent
        doc = minixml.Elem('#doc', {}, 0, {})
        doc.children = [root]
        found = _walk([doc], _steps(path, namespaces))
    else:
        found = _walk([elem], _steps(path, namespaces))
    if final == 'text':
        return [e.text for e in found if e.text]
    elif final:
        return [e.attrib[final] for e in found if final in e.attrib]
    return [_Element(e) for e in found]


class _ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def find(self, path, namespaces=None):
        return self._root.find(path, namespaces)

    def findall(self, path, namespaces=None):
        return self._root.findall(path, namespaces)

    def iter(self, *tags):
        return self._root.iter(*tags)

    def xpath(self, path, namespaces=None):
        return self._root.xpath(path, namespaces)


_cache = []


def _nrmllib():
    if not _cache:  # an import is slow in Jython
        from openquake import nrmllib
        _cache.append(nrmllib)
    return _cache[0]


class XMLSchema(object):
    """
    Stand-in for a schema: rejects unknown elements in a known namespace.
    """
    loaded = []

    def __init__(self, etree=None, file=None):
        self.file = file
        self.loaded.append(file)

    def _check(self, elem):
        nrmllib = _nrmllib()
        prefix = '{%s}' % nrmllib.NAMESPACE
        if elem.comment:
            return None
        if elem.parent is None and elem.tag != prefix + 'nrml':
            return "Element '%s': No matching global declaration available " \
                "for the validation root., line %d" % (
                    elem.tag, elem.sourceline)
        if elem.tag.startswith(prefix):
            if elem.tag[len(prefix):] not in nrmllib.KNOWN_TAGS:
                return "Element '%s': This element is not expected., line " \
                    "%d" % (elem.tag, elem.sourceline)
        elif not elem.tag.startswith('{'):
            return "Element '%s': This element is not expected., line %d" % (
                elem.tag, elem.sourceline)
        return None

    def _first_error(self, root):
        stack = [root]
        while stack:
            e = stack.pop()
            msg = self._check(e)
            if msg:
                return msg
            stack.extend(reversed(e.children))

    def validate(self, tree):
        if isinstance(tree, _ElementTree):
            tree = tree.getroot()
        return self._first_error(tree._elem) is None

    __call__ = validate

    def assertValid(self, tree):
        if isinstance(tree, _ElementTree):
            tree = tree.getroot()
        msg = self._first_error(tree._elem)
        if msg:
            raise DocumentInvalid(msg)


class XMLParser(object):
    def __init__(self, schema=None, **kw):
        self.schema = schema
        self.kw = kw


def _read(source):
    if hasattr(source, 'read'):
        return source.read()
    f = open(source, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def _parse(data, schema):
    try:
        root = minixml.parse(data)
    except minixml.XMLError as e:
        raise XMLSyntaxError(str(e), e.lineno)
    if schema is not None:
        msg = schema._first_error(root)
        if msg:
            raise XMLSyntaxError(msg)
    return root


def fromstring(text, parser=None):
    if isinstance(text, unicode):
        raise ValueError('Unicode strings with encoding declaration are not '
                         'supported.')
    return _Element(_parse(text, parser.schema if parser else None))


XML = fromstring


def parse(source, parser=None):
    return _ElementTree(_Element(
        _parse(_read(source), parser.schema if parser else None)))


def iterparse(source, events=('end',), tag=None, schema=None, **kw):
    """
    Incremental parsing: the elements preceding an error are emitted. For
    simplicity the tree is built first, then emitted in document order.
    """
    ended = []
    error = None
    try:
        root = minixml.parse(_read(source), ended.append)
    except minixml.XMLError as e:
        error = XMLSyntaxError(str(e), e.lineno)
    tags = tag if isinstance(tag, (list, tuple)) else [tag]

    def gen():
        for e in ended:
            if schema is not None:
                msg = schema._check(e)
                if msg and not (e.parent is None and error):
                    raise XMLSyntaxError(msg)
            if 'end' in events and (tag is None or any(
                    _match(t, e.tag) for t in tags)):
                yield 'end', _Element(e)
        if error:
            raise error
    return gen()


def tostring(element, **kw):
    e = element._elem

    def ser(e):
        if e.comment:
            return '<!--%s-->' % e.text
        tag = e.tag.split('}')[-1]
        attrs = ''.join(' %s="%s"' % (k, minixml.escape(v, True))
                        for k, v in sorted(e.attrib.items()))
        return '<%s%s>%s%s</%s>' % (
            tag, attrs, minixml.escape(e.text or ''),
            ''.join(ser(c) + minixml.escape(c.tail or '')
                    for c in e.children), tag)
    return ser(e)
