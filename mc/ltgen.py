"""
Logic trees as plain data, their XML with the line of each element, and the
reference model of their structure.

A tree is a list of levels, a level a list of branch sets, a branch set a
dictionary with keys id, type, filters, apply (None or list of branch ids)
and branches, a list of triples (id, value, weight) of strings.
"""
import os
import shutil
import tempfile
from decimal import Decimal
from minixml import escape

NS = 'http://openquake.org/xmlns/nrml/0.4'
HEAD = '<?xml version="1.0" encoding="utf-8"?>'
NRML = '<nrml xmlns="%s" xmlns:gml="http://www.opengis.net/gml">' % NS


def bset(id, type, branches, filters=None, apply=None):
    return dict(id=id, type=type, branches=[list(b) for b in branches],
                filters=dict(filters or {}), apply=apply)


class Doc(object):
    """A document written line by line, which remembers the positions"""
    def __init__(self):
        self.lines = []
        self.pos = {}

    def add(self, text, key=None):
        self.lines.append(text)
        if key is not None:
            self.pos[key] = len(self.lines)

    def text(self):
        return '\n'.join(self.lines) + '\n'


def attrs(items):
    return ''.join(' %s="%s"' % (k, escape(v, True)) for k, v in items)


def to_xml(tree, ids=True, pad=' '):
    """The text of a tree and the lines of its elements"""
    doc = Doc()
    doc.add(HEAD)
    doc.add(NRML)
    doc.add('<logicTree logicTreeID="lt">', 'tree')
    for l, level in enumerate(tree):
        doc.add(' <logicTreeBranchingLevel branchingLevelID="bl%d">' % l,
                ('level', l))
        for b, bs in enumerate(level):
            items = [('uncertaintyType', bs['type']),
                     ('branchSetID', bs['id'])]
            items += sorted(bs['filters'].items())
            if bs['apply'] is not None:
                items.append(('applyToBranches', ' '.join(bs['apply'])))
            doc.add('  <logicTreeBranchSet%s>' % attrs(items), ('bs', l, b))
            for i, (id, value, weight) in enumerate(bs['branches']):
                doc.add('   <logicTreeBranch branchID="%s">' % id,
                        ('br', l, b, i))
                doc.add('    <uncertaintyModel>%s%s%s</uncertaintyModel>' % (
                    pad, escape(value), pad), ('val', l, b, i))
                doc.add('    <uncertaintyWeight>%s%s%s</uncertaintyWeight>' % (
                    pad, weight, pad))
                doc.add('   </logicTreeBranch>')
            doc.add('  </logicTreeBranchSet>')
        doc.add(' </logicTreeBranchingLevel>')
    doc.add('</logicTree>')
    doc.add('</nrml>')
    return doc.text(), doc.pos


def convert(type, value):
    """The uncertainty value of a valid text"""
    if type in ('sourceModel', 'gmpeModel'):
        return value
    elif type == 'abGRAbsolute':
        a, b = value.split()
        return (float(a), float(b))
    return float(value)


class RefTree(object):
    """The reference structure of a tree which is supposed to be valid"""
    def __init__(self, tree):
        self.children = {}  # branch id -> branch set
        self.root = None
        opened = []
        for level in tree:
            if not level:
                continue
            new = []
            for bs in level:
                if self.root is None:
                    self.root = bs
                else:
                    targets = opened if not bs['apply'] else bs['apply']
                    for t in targets:
                        if t not in self.children:
                            self.children[t] = bs
                new += [b[0] for b in bs['branches']]
            opened = new

    def paths(self, bs=None):
        """[[branch, ...], ...] depth first, in the order of the file"""
        out = []
        for branch in (bs or self.root)['branches']:
            child = self.children.get(branch[0])
            if child is None:
                out.append([branch])
            else:
                out.extend([branch] + p for p in self.paths(child))
        return out

    def steps(self, path):
        """The pairs (branch set, branch) of a path"""
        bs, out = self.root, []
        for branch in path:
            out.append((bs, branch))
            bs = self.children.get(branch[0])
        assert bs is None
        return out


def weight(path):
    w = Decimal(1)
    for branch in path:
        w *= Decimal(branch[2])
    return w


SOURCE = '''\
  <%(kind)sSource id="%(id)s" name="%(id)s" tectonicRegion="%(trt)s">
   <magScaleRel>WC1994</magScaleRel>
  </%(kind)sSource>'''


def source_model(sources):
    """The text of a source model with sources (kind, id, trt)"""
    doc = Doc()
    doc.add(HEAD)
    doc.add(NRML)
    doc.add(' <sourceModel name="m">')
    for kind, id, trt in sources:
        doc.add(SOURCE % dict(kind=kind, id=id, trt=trt))
    doc.add(' </sourceModel>')
    doc.add('</nrml>')
    return doc.text()


class Scratch(object):
    """A scratch directory with the given files, usable with `with`"""
    def __init__(self, **files):
        self.files = files

    def __enter__(self):
        self.path = tempfile.mkdtemp()
        for name, text in self.files.items():
            self.write(name, text)
        return self

    def write(self, name, text):
        directory = os.path.dirname(os.path.join(self.path, name))
        if not os.path.exists(directory):
            os.makedirs(directory)
        with open(os.path.join(self.path, name), 'w') as f:
            f.write(text)
        return os.path.join(self.path, name)

    def __exit__(self, *exc):
        shutil.rmtree(self.path)


# texts of weights summing to one, by number of branches
WEIGHTS = {
    1: [['1.0'], ['1']],
    2: [['0.3', '0.7'], ['0.0', '1.0'], ['.5', '5e-1'], ['1.00', '0'],
        ['0.0001234', '0.9998766'], ['0.' + '3' * 9, '0.' + '6' * 8 + '7']],
    3: [['0.2', '0.3', '0.5'], ['0.5', '0', '0.5'],
        ['0.333', '0.333', '0.334']]}
