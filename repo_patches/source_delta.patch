From c5b008e1b0784d94b4a28e3bacd5bc604b4155bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 01/45] fix: a rejected or duplicated record must not corrupt
 the unique indices of a Table

---
 openquake/commonlib/record.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..f8fc297 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -435,12 +435,11 @@ class Table(collections.MutableSequence):
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
         # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        old_record = self._records[i]
+        self._check_unique(i, new_record, old_record)
         for name, unique in self._unique_data.iteritems():
-            old_key = getattr(self._records[i], name)
-            new_key = getattr(new_record, name)
-            del unique.dict[old_key]
-            unique.dict[new_key] = new_record
+            del unique.dict[getattr(old_record, name)]
+            unique.dict[getattr(new_record, name)] = new_record
         self._records[i] = new_record
 
     def __delitem__(self, i):
@@ -459,20 +458,28 @@ class Table(collections.MutableSequence):
         (in terms of unique constraints, including the primary
         key) raises a KeyError.
         """
+        self._check_unique(position, rec)
+        for name, unique in self._unique_data.iteritems():
+            unique.dict[getattr(rec, name)] = rec
+        self._records.insert(position, rec)
+
+    def _check_unique(self, position, rec, old_record=None):
+        # raise a KeyError if there is a record different from old_record
+        # with the same keys as rec, before any change to the indices
         for name, unique in self._unique_data.iteritems():
             key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
+            known = unique.dict.get(key)
+            if known is not None and known is not old_record:
                 msg = []
-                for k, name in zip(key, unique.names):
-                    msg.append('%s=%s' % (name, k))
+                for k, field in zip(key, unique.names):
+                    msg.append('%s=%s' % (field, k))
                 raise KeyError('%s:%d:Duplicated record:%s' %
                                (self.recordtype.__name__, position,
                                 ','.join(msg)))
-        self._records.insert(position, rec)
+
+    def reverse(self):
+        """Reverse the order of the records; the keys are unchanged"""
+        self._records.reverse()
 
     def getrecord(self, *pkey):
         """
-- 
2.43.0


From fe781c46d9f50ab156c87709e06556d755c39b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 02/45] fix: records and tables of different lengths are
 different, comparing them is not an error

---
 openquake/commonlib/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index f8fc297..731a696 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,7 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
@@ -497,7 +498,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
-- 
2.43.0


From a9ad9b1f13edbf93550007e4bae46be889d51e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 03/45] fix: honor the default value of a record field

---
 openquake/commonlib/record.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 731a696..7251e9d 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -185,7 +185,7 @@ class MetaRecord(abc.ABCMeta):
         # a savvy user however can provide her own implementations
         # and they will have the precedence against the default ones
         if '__init__' not in dic:
-            dic['__init__'] = mcl.mkinit(fieldnames)
+            dic['__init__'] = mcl.mkinit(fields)
         if '_name2index' not in dic:
             dic['_name2index'] = _name2index
         if 'fields' not in dic:
@@ -214,10 +214,10 @@ class MetaRecord(abc.ABCMeta):
                 setattr(cls, n, fkey)
 
     @staticmethod
-    def mkinit(fieldnames):
+    def mkinit(fields):
         """Build the __init__ method for record subclasses"""
-        fields = ', '.join(fieldnames)
-        defaults = ', '.join("%s=''" % f for f in fieldnames)
+        defaults = ', '.join("%s=%r" % (f.name, f.default) for f in fields)
+        fields = ', '.join(f.name for f in fields)
         templ = '''def __init__(self, %s):
         self.row = [%s]
         self.init()''' % (defaults, fields)
-- 
2.43.0


From 84b051da9945a61bc76201c0aad57bd54044677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 04/45] fix: a record subclass inherits the keys and the
 constraints of its base

---
 openquake/commonlib/record.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 7251e9d..91874e9 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -194,14 +194,19 @@ class MetaRecord(abc.ABCMeta):
             dic['_ntuple'] = collections.namedtuple(name, fieldnames)
         dic['_ordinal'] = mcl._counter.next()
         if '_constraints' not in dic:
-            dic['_constraints'] = []
+            dic['_constraints'] = [
+                c for base in bases for c in getattr(base, '_constraints', [])]
         return super(MetaRecord, mcl).__new__(mcl, name, bases, dic)
 
     def __init__(cls, name, bases, dic):
         if name != 'Record':
             cls.pkey  # raise an AttributeError if pkey is not defined
-        for n, v in dic.iteritems():
-            # make a bound copy of the unbound Unique and ForeignKey constraint
+        members = {}
+        for klass in reversed(cls.__mro__):
+            members.update(vars(klass))
+        for n, v in members.iteritems():
+            # make a bound copy of the Unique and ForeignKey constraints,
+            # including the inherited ones
             if isinstance(v, Unique):
                 unique = Unique(*v.names)
                 unique.name = n
-- 
2.43.0


From 23b67c29f50c4c86cdce077df75e817cdd5ff2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 05/45] fix: all the archives raise NotInArchive when a file is
 missing

---
 openquake/commonlib/csvmanager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..3434a17 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +195,10 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        path = os.path.join(self.name, name)
+        if mode.startswith('r') and not os.path.exists(path):
+            raise NotInArchive(name)
+        return open(path, mode)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From e89abd5757b70fabc740228fbbb6221abefeca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 06/45] fix: a zip archive can be opened in update mode and is
 readable once closed

---
 openquake/commonlib/csvmanager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 3434a17..f3e4957 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -158,6 +158,9 @@ class ZipArchive(Archive):
     Thin wrapper over a ZipFile object.
     """
     def __init__(self, zipname, mode='a'):
+        if mode == 'r+':  # read and write, not supported by zipfile
+            mode = 'a'
+        self.mode = mode
         self.zip = zipfile.ZipFile(zipname, mode)
         self.name = self.zip.filename
         self.opened = set()
@@ -180,6 +183,16 @@ class ZipArchive(Archive):
         return set(i.filename for i in self.zip.infolist()
                    if i.filename.startswith(prefix))
 
+    def close(self):
+        """
+        Close the opened files and write the zip directory on disk; the
+        archive can still be used after that.
+        """
+        super(ZipArchive, self).close()
+        if self.mode != 'r':
+            self.zip.close()
+            self.zip = zipfile.ZipFile(self.name, 'a')
+
 
 class DirArchive(Archive):
     """
-- 
2.43.0


From 7834bb49d2cfacd9780b0db741067b17bb98f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 07/45] fix: opening for reading a file of a MemArchive starts
 from the beginning

---
 openquake/commonlib/csvmanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index f3e4957..0d90568 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -238,9 +238,11 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            f = self.dic[name]
         except KeyError:
             raise NotInArchive(name)
+        # read from the beginning, independently from the other readers
+        return FileObject(name, f.fileobj.getvalue())
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From b8f306dc651fcb098c1c48b5d22b5d1a728bb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 08/45] fix: the managers extracted from a manager without
 headers have no headers

---
 openquake/commonlib/csvmanager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 0d90568..a62dc41 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -336,7 +336,7 @@ class CSVManager(object):
             if recordtype is None:
                 continue
             if not prefix in managers:
-                man = self.__class__(self.archive, prefix)
+                man = self.__class__(self.archive, prefix, self.has_header)
                 man.convertertype = ct[recordtype.convertername]
                 managers[prefix] = man
         return managers.values()
@@ -416,7 +416,7 @@ class CSVManager(object):
         if prefix is None:
             man = self
         else:  # creates a new CSVManager for the given prefix
-            man = self.__class__(self.archive, prefix)
+            man = self.__class__(self.archive, prefix, self.has_header)
         convtype = converter.Converter.from_node(node)
         with man:
             for rec in convtype.node_to_records(node):
-- 
2.43.0


From 93fed9af9b43b7fca7642d81f6657e817a48c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 09/45] fix: a manager converts the files with its own prefix,
 even if there are others

---
 openquake/commonlib/csvmanager.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index a62dc41..fd2f6d7 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -341,14 +341,17 @@ class CSVManager(object):
                 managers[prefix] = man
         return managers.values()
 
-    def _getconverter(self):
+    def _getmanager(self):
         """
-        Extract the appropriate converter class to convert the files in
-        the underlying archive. Raise an error is no converter is
-        found (this happens if there are no files following the
-        naming conventions).
+        Extract the manager of the files with the current prefix or,
+        if there are none, the only manager of the underlying archive.
+        Raise an error is no manager is found (this happens if there
+        are no files following the naming conventions).
         """
         managers = self._getmanagers()
+        for man in managers:
+            if man.prefix == self.prefix:
+                return man
         if not managers:
             raise NotInArchive(
                 'Could not determine the right manager '
@@ -357,16 +360,24 @@ class CSVManager(object):
             raise MultipleManagerError(
                 'Found %d managers %s, expected 1' %
                 (len(managers), managers))
-        return managers[0].convertertype
+        return managers[0]
+
+    def _getconverter(self):
+        """
+        Extract the appropriate converter class to convert the files in
+        the underlying archive.
+        """
+        return self._getmanager().convertertype
 
     def get_tableset(self):
         """
         Return a populated TableSet from the underlying CSV files
         """
-        tset = record.TableSet(self._getconverter())
+        man = self._getmanager()
+        tset = record.TableSet(man.convertertype)
         for rectype in tset.convertertype.recordtypes():
             try:
-                tset.insert_all(self.read(rectype))
+                tset.insert_all(man.read(rectype))
             except NotInArchive:
                 # this may happen for optional tables in the tableset
                 continue
-- 
2.43.0


From f8fa0648b1f65f6e8acd517ac8f23dd1a77b90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 10/45] fix: the records of an archive can be read more than
 once

---
 openquake/commonlib/csvmanager.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index fd2f6d7..7fe8f92 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -310,7 +310,6 @@ class CSVManager(object):
         self.archive = archive
         self.prefix = prefix
         self.has_header = has_header
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
 
@@ -438,17 +437,15 @@ class CSVManager(object):
         """
         Read the records from the underlying CSV file. Returns an iterator.
         """
-        reader = self.rt2reader.get(recordtype)
-        if reader is None:
-            fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
-            self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
-            self.rt2reader[recordtype] = reader = csv.reader(f)
-            if self.has_header:
-                header = reader.next()
-                if header != recordtype.fieldnames:
-                    raise InvalidFile(
-                        '%s: line 1: got %s as header, expected %s' %
-                        (fname, header, recordtype.fieldnames))
+        fname = '%s__%s.csv' % (self.prefix, recordtype.__name__)
+        self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
+        reader = csv.reader(f)
+        if self.has_header:
+            header = reader.next()
+            if header != recordtype.fieldnames:
+                raise InvalidFile(
+                    '%s: line 1: got %s as header, expected %s' %
+                    (fname, header, recordtype.fieldnames))
         for row in reader:
             yield recordtype(*row)
 
@@ -499,7 +496,6 @@ class CSVManager(object):
 
     def __enter__(self):
         """Initialize a few dictionaries"""
-        self.rt2reader = {}
         self.rt2writer = {}
         self.rt2file = {}
         self.archive.opened = set()
-- 
2.43.0


From 4a3121d16521c72aac2d40ef5058dc14c6778bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 11/45] fix: the occupancies missing in the first asset of an
 exposure were lost

---
 openquake/commonlib/converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..f056ce8 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -387,10 +387,8 @@ class Exposure(Converter):
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
         if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
+            # extract the periods from the occupancies of all the assets
+            periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
         exp.assets.nodes = self._assetgenerator(
-- 
2.43.0


From 2e926a3dfc2529e23f9f4f1865ebd5111b447e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 12/45] fix: the area of a population exposure was lost, a
 missing area was made empty

---
 openquake/commonlib/converter.py | 18 ++++++++++--------
 openquake/commonlib/records.py   |  5 +++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index f056ce8..92dd691 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -286,19 +286,19 @@ class Exposure(Converter):
         Convert the node into a sequence of Exposure records
         """
         taxonomysource = node.attrib.get('taxonomySource', 'UNKNOWN')
+        try:
+            area = node.conversions.area
+            area_type = area['type']
+            area_unit = area['unit']
+        except NameError:
+            area_type = ''
+            area_unit = ''
         if node['category'] == 'buildings':
             for c in node.conversions.costTypes:
                 yield records.CostType(c['name'], c['type'], c['unit'],
                                        c.attrib.get('retrofittedType', ''),
                                        c.attrib.get('retrofittedUnit', ''))
             conv = node.conversions
-            try:
-                area = conv.area
-                area_type = area['type']
-                area_unit = area['unit']
-            except NameError:
-                area_type = ''
-                area_unit = ''
             yield records.Exposure(
                 node['id'],
                 node['category'],
@@ -313,7 +313,9 @@ class Exposure(Converter):
                 node['id'],
                 node['category'],
                 taxonomysource,
-                node.description.text.strip())
+                node.description.text.strip(),
+                area_type,
+                area_unit)
 
         locations = {}  # location -> id
         loc_counter = itertools.count(1)
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 5590e9f..8f4ede2 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -232,8 +232,9 @@ class Exposure(Record):
         node.append(Node('description', text=self['description']))
         if node['category'] == 'buildings':
             conv = Node('conversions')
-            conv.append(Node('area', dict(type=self['area_type'],
-                                          unit=self['area_unit'])))
+            if self['area_type']:
+                conv.append(Node('area', dict(type=self['area_type'],
+                                              unit=self['area_unit'])))
             conv.append(Node('costTypes'))
             conv.append(Node('deductible', dict(
                 isAbsolute=self['deductible_is_absolute'])))
-- 
2.43.0


From 1b3344e52b68b4d26e79af53977769d5f42888d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 13/45] fix: the records extracted from a gmfSet were invalid

---
 openquake/commonlib/converter.py | 2 +-
 openquake/commonlib/records.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 92dd691..f8da274 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -454,7 +454,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
diff --git a/openquake/commonlib/records.py b/openquake/commonlib/records.py
index 8f4ede2..7559089 100644
--- a/openquake/commonlib/records.py
+++ b/openquake/commonlib/records.py
@@ -347,7 +347,7 @@ class GmfSet(Record):
     pkey = Unique('stochasticEventSetId')
 
     stochasticEventSetId = Field(int)
-    investigationTime = Field(float)
+    investigationTime = Field(valid.NoneOr(float))
 
     def to_node(self):
         dic = {}
-- 
2.43.0


From 5305e9cc22c94787766f3576fc414756a678a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 14/45] fix: a name cannot end with a newline

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..03140c7 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -67,7 +67,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 class FloatRange(object):
-- 
2.43.0


From 9ec5bd552cb853b741d5c9369769d6706ded4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 15/45] fix: a text starting with an IMT is not an IMT

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 03140c7..c5b0100 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -162,7 +162,7 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 75a698bec94d59b1951a17ad5b31428ccae5079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 16/45] fix: the infinite negative numbers are invalid,
 checking them is not an error

---
 openquake/commonlib/valid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index c5b0100..0f0b2a4 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -133,7 +133,7 @@ def positivefloat(text):
     """String -> positive float"""
     f = float(text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 6665b930d9a7c70c7b18cf361eadf73a7d9bd7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 17/45] fix: the validators with a range reject NaN

---
 openquake/commonlib/valid.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 0f0b2a4..9b16b31 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -70,13 +70,21 @@ class Regex(object):
 name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
+def number(text):
+    """String -> float; NaN, which is out of any range, is rejected"""
+    f = float(text)
+    if f != f:
+        raise ValueError('%r is not a number' % text)
+    return f
+
+
 class FloatRange(object):
     def __init__(self, minrange, maxrange):
         self.minrange = minrange
         self.maxrange = maxrange
 
     def __call__(self, value):
-        f = float(value)
+        f = number(value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -103,7 +111,7 @@ def namelist(text):
 
 def longitude(text):
     """String -> longitude float"""
-    lon = float(text)
+    lon = number(text)
     if lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
@@ -113,7 +121,7 @@ def longitude(text):
 
 def latitude(text):
     """String -> latitude float"""
-    lat = float(text)
+    lat = number(text)
     if lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
@@ -131,7 +139,7 @@ def positiveint(text):
 
 def positivefloat(text):
     """String -> positive float"""
-    f = float(text)
+    f = number(text)
     if f < 0:
         raise ValueError('float %s < 0' % f)
     return f
-- 
2.43.0


From e5f9e4c77163bd61231666b444fff463b2577ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 18/45] fix: the items with weight zero do not split a block

---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..1576f2b 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -181,7 +181,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From 01e7ab99165238675650b5c3eb848fef498dcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 19/45] fix: weighted sequences of different lengths are
 different

---
 openquake/commonlib/general.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 1576f2b..da82862 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,7 +107,14 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
-        return all(x == y for x, y in zip(self, other))
+        return len(self) == len(other) and all(
+            x == y for x, y in zip(self, other))
+
+    def __ne__(self, other):
+        """
+        True if the items contained in self are different from the others
+        """
+        return not self == other
 
     def __repr__(self):
         """
-- 
2.43.0


From 23b68b4aae99eb80dd8a9f00432b9ce730ec765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 20/45] fix: writetmp closes the file descriptor even without
 content

---
 openquake/commonlib/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index da82862..fa7b5f5 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -332,8 +332,8 @@ def writetmp(content=None, dir=None, prefix="tmp", suffix="tmp"):
         if not os.path.exists(dir):
             os.makedirs(dir)
     fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)
+    fh = os.fdopen(fh, "w")
     if content:
-        fh = os.fdopen(fh, "w")
         fh.write(content)
-        fh.close()
+    fh.close()
     return path
-- 
2.43.0


From 1f25fabc0af5c232f57615893fec54b459bf66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 21/45] fix: deep_eq compares objects of any type without
 errors

---
 openquake/commonlib/general.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index fa7b5f5..bd05956 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -270,6 +270,7 @@ def _deep_eq(a, b, decimal, exclude=None):
 
         for key in a:
             if not key in exclude:
+                assert key in b, "The key %r is missing in %s" % (key, b)
                 _deep_eq(a[key], b[key], decimal)
 
     def _test_seq(a, b):
@@ -282,11 +283,21 @@ def _deep_eq(a, b, decimal, exclude=None):
         for i, item in enumerate(a):
             _deep_eq(item, b[i], decimal)
 
+    def _to_list(b):
+        """Convert `b`, which is compared with a sequence, into a list."""
+        is_seq = isinstance(b, (list, tuple)) or (
+            isinstance(b, collections.Iterable) and
+            not isinstance(b, (basestring, dict)) and
+            not hasattr(b, '__dict__'))
+        assert is_seq, "%s is not a sequence, as %s" % (b, a)
+        return list(b)
+
     # lists or tuples
     if isinstance(a, (list, tuple)):
-        _test_seq(a, b)
+        _test_seq(a, _to_list(b))
     # dicts
     elif isinstance(a, dict):
+        assert isinstance(b, dict), "%s is not a dict, as %s" % (b, a)
         _test_dict(a, b)
     # objects with a __dict__
     elif hasattr(a, '__dict__'):
@@ -294,10 +305,11 @@ def _deep_eq(a, b, decimal, exclude=None):
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
     # iterables (not strings)
-    elif isinstance(a, collections.Iterable) and not isinstance(a, str):
+    elif isinstance(a, collections.Iterable) and not isinstance(
+            a, basestring):
         # If there's a generator or another type of iterable, treat it as a
         # `list`. NOTE: Generators will be exhausted if you do this.
-        _test_seq(list(a), list(b))
+        _test_seq(list(a), _to_list(b))
     # objects with __slots__
     elif hasattr(a, '__slots__'):
         assert a.__class__ == b.__class__, (
@@ -312,6 +324,8 @@ def _deep_eq(a, b, decimal, exclude=None):
 
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
+            assert isinstance(b, (int, long, float, complex)), (
+                "%s is not a number, as %s" % (b, a))
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
             assert a == b, "%s != %s" % (a, b)
-- 
2.43.0


From 4ead43e3b47b32cea9fc61b0a1041a71e53e0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 22/45] fix: deep_eq excludes the given attributes at any depth

---
 openquake/commonlib/general.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index bd05956..9062b30 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -263,15 +263,16 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
+        a = dict((k, a[k]) for k in a if k not in exclude)
+        b = dict((k, b[k]) for k in b if k not in exclude)
         assert len(a) == len(b), (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
             a=a, b=b, len_a=len(a), len_b=len(b))
 
         for key in a:
-            if not key in exclude:
-                assert key in b, "The key %r is missing in %s" % (key, b)
-                _deep_eq(a[key], b[key], decimal)
+            assert key in b, "The key %r is missing in %s" % (key, b)
+            _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
@@ -281,7 +282,7 @@ def _deep_eq(a, b, decimal, exclude=None):
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
 
     def _to_list(b):
         """Convert `b`, which is compared with a sequence, into a list."""
@@ -318,13 +319,13 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
     else:
         # Objects must be primitives
 
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
-            assert isinstance(b, (int, long, float, complex)), (
+            assert isinstance(b, (int, long, float, complex, numpy.number)), (
                 "%s is not a number, as %s" % (b, a))
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
-- 
2.43.0


From 175f060924be8cdb601c96873b0a481b443ab125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 23/45] fix: deep_eq compares the inherited slots, unset slots
 are not an error

---
 openquake/commonlib/general.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 9062b30..18e1b36 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -253,6 +253,17 @@ def deep_eq(a, b, decimal=7, exclude=None):
     return True, ''
 
 
+def _attributes(obj):
+    """Dictionary of the attributes of obj, including the inherited slots."""
+    dic = dict(getattr(obj, '__dict__', {}))
+    for cls in type(obj).__mro__:
+        slots = vars(cls).get('__slots__', ())
+        for slot in ([slots] if isinstance(slots, basestring) else slots):
+            if not slot.startswith('__') and hasattr(obj, slot):
+                dic[slot] = getattr(obj, slot)
+    return dic
+
+
 def _deep_eq(a, b, decimal, exclude=None):
     """Do the actual deep comparison. If the two items up for comparison are
     not equal, a :exception:`AssertionError` is raised (to
@@ -304,7 +315,7 @@ def _deep_eq(a, b, decimal, exclude=None):
     elif hasattr(a, '__dict__'):
         assert a.__class__ == b.__class__, (
             "%s and %s are different classes") % (a.__class__, b.__class__)
-        _test_dict(a.__dict__, b.__dict__)
+        _test_dict(_attributes(a), _attributes(b))
     # iterables (not strings)
     elif isinstance(a, collections.Iterable) and not isinstance(
             a, basestring):
@@ -315,11 +326,7 @@ def _deep_eq(a, b, decimal, exclude=None):
     elif hasattr(a, '__slots__'):
         assert a.__class__ == b.__class__, (
             "%s and %s are different classes") % (a.__class__, b.__class__)
-        assert a.__slots__ == b.__slots__, (
-            "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
-        for slot in a.__slots__:
-            if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
+        _test_dict(_attributes(a), _attributes(b))
     else:
         # Objects must be primitives
 
-- 
2.43.0


From 70b4a74597fed66e1b296c771a756c7be0bb4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 24/45] fix: TaskManager.wait always failed

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From 38b9e2b25b28f0c36d19c3266fdb14c28f54f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 25/45] fix: safely_call traps also the exceptions with a
 non-ASCII message

---
 openquake/commonlib/parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..ab30188 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -90,7 +90,8 @@ def safely_call(func, args, pickle=False):
     except:
         etype, exc, tb = sys.exc_info()
         tb_str = ''.join(traceback.format_tb(tb))
-        res = '\n%s%s: %s' % (tb_str, etype.__name__, exc), etype
+        exc_str = ''.join(traceback.format_exception_only(etype, exc))
+        res = '\n%s%s' % (tb_str, exc_str.rstrip('\n')), etype
     if pickle:
         return Pickled(res)
     return res
-- 
2.43.0


From 8ca5ec4b2dbc3c94641eac83547452ec91835d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 26/45] fix: pickle_sequence could confuse objects generated on
 the fly

---
 openquake/commonlib/parallel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index ab30188..58b5fc1 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -162,10 +162,12 @@ def pickle_sequence(objects):
     :param objects: a sequence of objects to pickle
     """
     cache = {}
+    alive = []  # the id of an object can be reused once the object is dead
     out = []
     for obj in objects:
         obj_id = id(obj)
         if obj_id not in cache:
+            alive.append(obj)
             if isinstance(obj, Pickled):  # already pickled
                 cache[obj_id] = obj
             else:  # pickle the object
-- 
2.43.0


From 07b7846444b7b157a10e7252d86a26405b60551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 27/45] fix: a dead process does not break the
 PerformanceMonitor

---
 openquake/commonlib/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 58b5fc1..7c2102d 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -331,9 +331,9 @@ class PerformanceMonitor(object):
         for proc in list(self._procs):
             try:
                 rss = proc.get_memory_info().rss
-            except psutil.AccessDenied:
-                # no access to information about this process
-                # don't not try to check it anymore
+            except (psutil.AccessDenied, psutil.NoSuchProcess):
+                # no access to information about this process, or the
+                # process is dead; don't not try to check it anymore
                 self._procs.remove(proc)
             else:
                 mem.append(rss)
-- 
2.43.0


From e7abe77c4814e8304c7025e9a77b27584c4b2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 28/45] fix: the PerformanceMonitor does not subtract the
 memory of different processes

---
 openquake/commonlib/parallel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 7c2102d..395fb60 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -350,8 +350,11 @@ class PerformanceMonitor(object):
     def __exit__(self, etype, exc, tb):
         "Call .stop"
         self.exc = exc
+        # the processes can be removed by the second measure
+        start_mem = dict(zip(map(id, self._procs), self.start_mem))
         self.stop_mem = self.measure_mem()
-        self.mem = [m2 - m1 for m1, m2 in zip(self.start_mem, self.stop_mem)]
+        self.mem = [m2 - start_mem[id(proc)]
+                    for proc, m2 in zip(self._procs, self.stop_mem)]
         self.duration = time.time() - self._start_time
         self.on_exit()
 
-- 
2.43.0


From c3c5508874aff313f2061360fb316cbc65c835d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 29/45] fix: strip the paths of the source models in the logic
 tree

---
 openquake/commonlib/readini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/readini.py b/openquake/commonlib/readini.py
index 1d1f574..38d3685 100644
--- a/openquake/commonlib/readini.py
+++ b/openquake/commonlib/readini.py
@@ -21,7 +21,7 @@ def _collect_source_model_paths(smlt):
             for branch in branch_set.xpath(
                     './nrml:logicTreeBranch/nrml:uncertaintyModel',
                     namespaces=nrmllib.PARSE_NS_MAP):
-                src_paths.append(branch.text)
+                src_paths.append(branch.text.strip())
     return sorted(set(src_paths))
 
 
-- 
2.43.0


From 7c346ccd651b59bb4523a209b0d084539bd538b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 30/45] fix: a SourceCollector with sources never ended
 building itself

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From 283c902c8f9140db5432f294dd2e3058c050c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 31/45] fix: an integer maximum weight was rounded down, even
 to zero

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..ded46ed 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            max_weight * num_sources / (num_sources + 100.),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From 8d0b37342458e7924e492f86be1d0cec8b7d4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 32/45] fix: the magnitudes with rate zero duplicated a split
 source, or failed

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index ded46ed..7c766ea 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From edde54b0935e1d7e5a409e78d3f53392ae1be6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 33/45] fix: count also the sources discarded at the end of a
 collection

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 7c766ea..6d586e2 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -117,6 +117,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+        self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From e342039cdfc24fb79259fa314468722d5d69d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 34/45] fix: converting a characteristic source changed its
 planar surfaces

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 6d586e2..b33f671 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -491,8 +491,8 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
-                kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
+                kwargs = dict(planar_surface.__dict__,
+                              mesh_spacing=self.rupture_mesh_spacing)
 
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
 
-- 
2.43.0


From c77934bd22a92cc1b894bdcd2f272a67aacefa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 35/45] fix: a branch of weight zero could be sampled

---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..e73e2ce 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -106,7 +106,7 @@ def sample_one(branches, rnd):
     acc = 0
     for branch in branches:
         acc += branch.weight
-        if acc >= diceroll:
+        if acc > diceroll:
             return branch
     raise AssertionError('do weights really sum up to 1.0?')
 
-- 
2.43.0


From 7fe6bf8cad5b91be642c9495bf2d4a2ffd3b7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 36/45] fix: a branchset applied to all the open ends replaced
 the explicit ones

---
 openquake/commonlib/logictree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index e73e2ce..af933e5 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -556,7 +556,8 @@ class BaseLogicTree(object):
         to branches selectively.
         """
         for branch in self.open_ends:
-            branch.child_branchset = branchset
+            if branch.child_branchset is None:
+                branch.child_branchset = branchset
 
     def validate_tree(self, tree_node, root_branchset):
         """
-- 
2.43.0


From b8be9530b1076330d1bb6164b4866b38949587cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 37/45] fix: a skipped branching level truncated the logic tree

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index af933e5..799d6d2 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,8 +464,9 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
-        self.open_ends.clear()
-        self.open_ends.update(new_open_ends)
+        if new_open_ends:  # the branchsets have not been all skipped
+            self.open_ends.clear()
+            self.open_ends.update(new_open_ends)
 
     def parse_branchset(self, branchset_node, depth, number, validate):
         """
-- 
2.43.0


From 64642fddfb64ce114da4b9a22c686cd7bef2c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 38/45] fix: the sampled realizations have the attributes of
 the others

---
 openquake/commonlib/logictree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 799d6d2..3b6098b 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -600,7 +600,7 @@ class BaseLogicTree(object):
             rnd = random.Random(self.seed)
             for _ in xrange(self.num_samples):
                 name, sm_lt_path = self.sample_path(rnd)
-                yield name, None, tuple(sm_lt_path)
+                yield LtRealization(name, None, tuple(sm_lt_path))
         else:  # full enumeration
             for weight, smlt_path in self.root_branchset.enumerate_paths():
                 name = smlt_path[0].value
-- 
2.43.0


From 7ce618e2acf714642873cf3747cdfc42a1806e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 39/45] fix: the branches of a GsimLogicTree were mixed by an
 inconsistent sort

---
 openquake/commonlib/logictree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 3b6098b..18d4afd 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1147,8 +1147,7 @@ class GMPELogicTree(BaseLogicTree):
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
 BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+    self.bset['branchSetID'] < other.bset['branchSetID'])
 
 class InvalidLogicTree(Exception):
     pass
-- 
2.43.0


From a5fdf495f49900b07ff0dd738886caa22892dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 40/45] fix: a GMPE branchset without tectonic region type is a
 validation error

---
 openquake/commonlib/logictree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 18d4afd..886b9bc 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1022,8 +1022,8 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
-                not in self.tectonic_region_types)
+        trt = attrs.get('applyToTectonicRegionType')
+        return trt is not None and trt not in self.tectonic_region_types
 
     def make_trt_to_gsim(self, branch_ids):
         """
-- 
2.43.0


From 60cf7be64143a3af246ccc749783c7efa63423c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 41/45] fix: files named as an object of the records module
 which is not a record type are not files of records

---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 7fe8f92..c1c7f03 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -332,7 +332,8 @@ class CSVManager(object):
             if not recordcsv.endswith('.csv'):
                 continue
             recordtype = getattr(records, recordcsv[:-4], None)
-            if recordtype is None:
+            if not isinstance(recordtype, record.MetaRecord) or \
+                    recordtype is record.Record:  # not a record type
                 continue
             if not prefix in managers:
                 man = self.__class__(self.archive, prefix, self.has_header)
-- 
2.43.0


From 2a23e2bef33ab70def0948fd6896dcd3fbf252fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 42/45] fix: a prefix containing a double underscore made the
 files invisible

---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index c1c7f03..a4425e6 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -326,7 +326,7 @@ class CSVManager(object):
                 ct[name] = value
         for fname in sorted(self.archive.extract_filenames()):
             try:
-                prefix, recordcsv = fname.split('__')
+                prefix, recordcsv = fname.rsplit('__', 1)
             except ValueError:
                 continue
             if not recordcsv.endswith('.csv'):
-- 
2.43.0


From 56da1c6c396a638bcae18f5ceb097a98331a00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 43/45] fix: the XML file of a previous conversion was emptied
 when the CSV files could not be loaded

---
 openquake/commonlib/csvmanager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index a4425e6..880fcab 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -399,12 +399,13 @@ class CSVManager(object):
         for man in self._getmanagers():
             with man:
                 outname = man.prefix + '.xml'
+                # may raise an error, before touching the output file
+                node = man.get_tableset().to_node()
                 if out_archive is None:
                     out = man.archive.open(outname, 'w+')
                 else:
                     out = out_archive.open(outname, 'w+')
                 with out:
-                    node = man.get_tableset().to_node()
                     node_to_nrml(node, out)
                 fnames.append(out.name)
         return fnames
-- 
2.43.0


From a25775870025065bbbab1c489f608bbfafa03189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 44/45] fix: files open when entering another manager of the
 same archive were lost

---
 openquake/commonlib/csvmanager.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 880fcab..fc9288b 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -137,8 +137,8 @@ class TempFile(FileWrapper):
     ZipArchive objects. It automatically stores the data in the archive
     at file closing time.
     """
-    def __init__(self, arczip, arcname, mode):
-        self.arczip = arczip
+    def __init__(self, archive, arcname, mode):
+        self.archive = archive
         self.name = arcname
         self.fileobj = tempfile.NamedTemporaryFile(mode)
         self.tempname = self.fileobj.name
@@ -148,7 +148,8 @@ class TempFile(FileWrapper):
         if self.closed:  # already closed, do nothing
             return
         self.fileobj.seek(0)  # this is essential
-        self.arczip.write(self.tempname, self.name)  # save in the archive
+        # save in the archive, which may have been reopened in the meantime
+        self.archive.zip.write(self.tempname, self.name)
         self.fileobj.close()  # remove the temporary file
         self.closed = True
 
@@ -168,7 +169,7 @@ class ZipArchive(Archive):
     def _open(self, name, mode):
         if mode in ('w', 'w+', 'r+'):
             # write on a temporary file
-            return TempFile(self.zip, name, mode)
+            return TempFile(self, name, mode)
         else:
             # open for reading
             try:
@@ -312,6 +313,7 @@ class CSVManager(object):
         self.has_header = has_header
         self.rt2writer = {}
         self.rt2file = {}
+        self.outer = []  # files opened before entering the manager
 
     def _getmanagers(self):
         """
@@ -500,12 +502,17 @@ class CSVManager(object):
         """Initialize a few dictionaries"""
         self.rt2writer = {}
         self.rt2file = {}
+        self.outer.append(self.archive.opened)
         self.archive.opened = set()
         return self
 
     def __exit__(self, etype, exc, tb):
-        """Close the underlying archive"""
+        """
+        Close the underlying archive, except the files which were already
+        open when the manager was entered.
+        """
         self.archive.close()
+        self.archive.opened = self.outer.pop()
 
     def __str__(self):
         """Display the filenames managed by the CSVManager"""
-- 
2.43.0


From 2f9a0603ca7037cca67f90e008f6e5bc6cc4e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 45/45] fix: functions with different levels in the same set
 were converted as if they had the same

---
 openquake/commonlib/converter.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index f8da274..cd39264 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -39,6 +39,18 @@ def groupby(records, keyfields):
     return itertools.groupby(records, lambda r: [r[k] for k in keyfields])
 
 
+def set_imls(node, imls):
+    """
+    Store the intensity measure levels in an IML node. The functions sharing
+    the node must have the same levels, otherwise a ValueError is raised.
+    """
+    text = ' '.join(imls)
+    if node.text and map(float, node.text.split()) != map(float, imls):
+        raise ValueError('Different intensity measure levels in the same set:'
+                         ' [%s] and [%s]' % (node.text, text))
+    node.text = text
+
+
 class Converter(object):
     """
     Base class.
@@ -151,7 +163,7 @@ class Vulnerability(Converter):
             dvf.lossRatio.text = ' '.join(ratios)
             dvf.coefficientsVariation.text = ' '.join(coeffs)
             dvs_node[(set_id,)].append(dvf)
-            dvs_node[(set_id,)].IML.text = ' '.join(imls)
+            set_imls(dvs_node[(set_id,)].IML, imls)
         return Node('vulnerabilityModel', nodes=dvs_node.values())
 
 
@@ -210,8 +222,7 @@ class FragilityDiscrete(Converter):
                     [rec.iml for rec in data],
                     [rec.poe for rec in data], nodamage)
 
-            imls = ' '.join(rec['iml'] for rec in data)
-            ffs_node[(ordinal,)].IML.text = imls
+            set_imls(ffs_node[(ordinal,)].IML, [rec['iml'] for rec in data])
             poes = ' '.join(rec['poe'] for rec in data)
             n = Node('ffd', dict(ls=ls))
             n.append(Node('poEs', text=poes))
-- 
2.43.0

