From 13abfeb076204a7bf600c01ee5cfb2781d1ed775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 01/77] fix: readn: report truncated data, accept zero-length
 payloads

---
 src/hwp5/dataio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..249ce39 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -54,12 +54,14 @@ class OutOfData(Exception):
 def readn(f, size):
     data = f.read(size)
     datasize = len(data)
-    if datasize == 0:
+    if datasize < size:
         try:
             pos = f.tell()
         except IOError:
             pos = '<UNKNOWN>'
-        raise Eof(pos)
+        if datasize == 0:
+            raise Eof(pos)
+        raise OutOfData(pos)
     return data
 
 
-- 
2.43.0


From b782f61f25cc048366cb9b2b9e5541cf21c3cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 02/77] fix: recordstream: an out-of-range treegroup is an
 empty selection

---
 src/hwp5/recordstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..0963ebc 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -160,7 +160,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
             records = islice(records, range[0], range[1])
         elif 'treegroup' in kwargs:
             groups = group_records_by_toplevel(records, group_as_list=True)
-            records = nth(groups, kwargs['treegroup'])
+            records = nth(groups, kwargs['treegroup'], [])
         return records
 
     def record(self, idx):
@@ -180,7 +180,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
     def records_treegroup(self, n):
         ''' returns list of records in `n'th top-level tree '''
         groups = self.records_treegrouped()
-        return nth(groups, n)
+        return nth(groups, n, [])
 
     def other_formats(self):
         return {'.records': self.records_json().open}
-- 
2.43.0


From ca4b1f2bd3111a4b40cf069b13b207f655c87750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 03/77] fix: GeneratorReader: never return more than requested

---
 src/hwp5/utils.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..5ed4b77 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -159,23 +159,21 @@ class GeneratorReader(object):
     '''
 
     def __init__(self, gen):
-        self.gen = gen
+        self.gen = iter(gen)
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -195,25 +193,22 @@ class GeneratorTextReader(object):
     '''
 
     def __init__(self, gen):
-        self.gen = gen
+        self.gen = iter(gen)
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From dedf81a9eafff0fffce08110f7dd21966900e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 04/77] fix: generate a valid json array for an empty sequence

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 5ed4b77..f7deffb 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From 7156c77b97718fbd7d63a304f77a7727435e4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 05/77] fix: bintype: do not expand arrays beyond the data
 being read

---
 src/hwp5/bintype.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..4b82c44 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -156,6 +156,10 @@ class ERROREVENT(object):
     pass
 
 
+class REPEATEVENT(object):
+    pass
+
+
 def static_to_mutable(events):
     stack = []
     for ev, item in events:
@@ -190,10 +194,28 @@ def resolve_typedefs(typedef_events, context):
     stack = []
     selective_stack = []
 
+    def clone(events):
+        stack = []
+        for ev, item in events:
+            if ev in (STARTEVENT, None):
+                item = dict(item)
+                if ev is STARTEVENT:
+                    stack.append(item)
+            else:
+                item = stack.pop()
+            yield ev, item
+
     events = static_to_mutable(typedef_events)
     events = deque(events)
     while len(events) > 0:
         ev, item = events.popleft()
+        if ev is REPEATEVENT:
+            if item['remaining'] > 0:
+                item['remaining'] -= 1
+                events.appendleft((ev, item))
+                cloned = list(clone(item['subevents']))
+                events.extendleft(reversed(cloned))
+            continue
         if isinstance(item['type'], SelectiveType):
             if ev is STARTEVENT:
                 parent_struct = stack[-1]
@@ -259,21 +281,12 @@ def resolve_typedefs(typedef_events, context):
             endevent = subevents[-1]
             subevents = subevents[:-1]
 
-            def clone(events):
-                stack = []
-                for ev, item in events:
-                    if ev in (STARTEVENT, None):
-                        item = dict(item)
-                        if ev is STARTEVENT:
-                            stack.append(item)
-                    else:
-                        item = stack.pop()
-                    yield ev, item
+            # the items are expanded one by one, as they are read: the count
+            # comes from the data and may be arbitrarily large
+            repeat = dict(item, subevents=subevents, remaining=count)
 
             events.appendleft(endevent)
-            for _ in range(0, count):
-                cloned = list(clone(subevents))
-                events.extendleft(reversed(cloned))
+            events.appendleft((REPEATEVENT, repeat))
             events.appendleft((ev, item))
         else:
             if ev is STARTEVENT:
-- 
2.43.0


From 964b25691d7d655ea5b17d621683c365d5c3f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 06/77] fix: binmodel: report undecodable records as ParseError

---
 src/hwp5/binmodel/__init__.py                | 42 +++++++++++++-------
 src/hwp5/binmodel/tagid56_list_header.py     |  2 +-
 src/hwp5/binmodel/tagid60_shape_component.py |  2 +-
 src/hwp5/binmodel/tagid71_ctrl_data.py       |  2 +-
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..c82a26e 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -315,20 +315,31 @@ def parse_model(context, model):
 
 def raise_on_errorevent(context, events):
     binevents = list()
-    for ev, item in events:
-        yield ev, item
-        binevents.append((ev, item))
-        if ev is ERROREVENT:
-            e = item['exception']
-            msg = 'can\'t parse %s' % item['type']
-            pe = ParseError(msg)
-            pe.cause = e
-            pe.path = context.get('path')
-            pe.treegroup = context.get('treegroup')
-            pe.record = context.get('record')
-            pe.offset = item.get('bin_offset')
-            pe.binevents = binevents
-            raise pe
+
+    def parse_error(type, e, offset):
+        msg = 'can\'t parse %s' % type
+        pe = ParseError(msg)
+        pe.cause = e
+        pe.path = context.get('path')
+        pe.treegroup = context.get('treegroup')
+        pe.record = context.get('record')
+        pe.offset = offset
+        pe.binevents = binevents
+        return pe
+
+    try:
+        for ev, item in events:
+            yield ev, item
+            binevents.append((ev, item))
+            if ev is ERROREVENT:
+                raise parse_error(item['type'], item['exception'],
+                                  item.get('bin_offset'))
+    except ParseError:
+        raise
+    except Exception as e:
+        # e.g. the record refers to a parent record which is not there
+        record = context.get('record') or {}
+        raise parse_error(record.get('tagname'), e, context['stream'].tell())
 
 
 def resolve_models(context, records):
@@ -347,7 +358,8 @@ def resolve_models(context, records):
         context['type'] = RecordModel
         context['name'] = record_frame['tagname']
         yield STARTEVENT, context
-        for x in resolve_model_events(context, context['model']):
+        events = resolve_model_events(context, context['model'])
+        for x in raise_on_errorevent(context, events):
             yield x
         event, item = x
         context['value'] = item
diff --git a/src/hwp5/binmodel/tagid56_list_header.py b/src/hwp5/binmodel/tagid56_list_header.py
index 4547a28..2114eb9 100644
--- a/src/hwp5/binmodel/tagid56_list_header.py
+++ b/src/hwp5/binmodel/tagid56_list_header.py
@@ -82,7 +82,7 @@ class ListHeader(with_metaclass(ListHeaderType, RecordModel)):
         if 'parent' in context:
             context, model = context['parent']
             seen_table_body = context.get('seen_table_body', False)
-            return model['type'], seen_table_body
+            return model.get('type'), seen_table_body
     get_extension_key = staticmethod(get_extension_key)
 
 
diff --git a/src/hwp5/binmodel/tagid60_shape_component.py b/src/hwp5/binmodel/tagid60_shape_component.py
index f00e1c8..ae3e226 100644
--- a/src/hwp5/binmodel/tagid60_shape_component.py
+++ b/src/hwp5/binmodel/tagid60_shape_component.py
@@ -76,7 +76,7 @@ def parent_must_be_gso(context, values):
     # it may be a GSO model's attribute, e.g. 'child_chid'
     if 'parent' in context:
         parent_context, parent_model = context['parent']
-        return parent_model['type'] is GShapeObjectControl
+        return parent_model.get('type') is GShapeObjectControl
 
 
 def chid_is_container(context, values):
diff --git a/src/hwp5/binmodel/tagid71_ctrl_data.py b/src/hwp5/binmodel/tagid71_ctrl_data.py
index 14f6f77..965ff5f 100644
--- a/src/hwp5/binmodel/tagid71_ctrl_data.py
+++ b/src/hwp5/binmodel/tagid71_ctrl_data.py
@@ -52,5 +52,5 @@ class ControlData(with_metaclass(ControlDataType, RecordModel)):
         ''' parent model type '''
         parent = context.get('parent')
         if parent:
-            return parent[1]['type']
+            return parent[1].get('type')
     get_extension_key = classmethod(get_extension_key)
-- 
2.43.0


From 973c58a7afdd89ad2ba1e15ca71905d0c238b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 07/77] fix: xmlmodel: split texts by UTF-16 units, not by code
 points

---
 src/hwp5/xmlmodel.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..86a9a22 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -100,6 +100,20 @@ def make_ranged_shapes(shapes):
     yield (item[0], 0x7fffffff), item[1]
 
 
+def split_text_at(chunk, size):
+    ''' split text at the given size in UTF-16 code units
+
+    A character represented with a surrogate pair is not split: it belongs to
+    the former one.
+    '''
+    index = 0
+    units = 0
+    while units < size:
+        units += 2 if ord(chunk[index]) > 0xffff else 1
+        index += 1
+    return units, chunk[:index], chunk[index:]
+
+
 def split_and_shape(chunks, ranged_shapes):
     try:
         (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
@@ -125,15 +139,18 @@ def split_and_shape(chunks, ranged_shapes):
             #         vvvv
             #         ..----
             if shape_end < chunk_end:           # (2)
-                prev = ((chunk_start, shape_end),
-                        chunk[:shape_end - chunk_start])
-                nexT = ((shape_end, chunk_end),
-                        chunk[shape_end - chunk_start:])
-                (chunk_start, chunk_end), chunk = prev
+                units, former, latter = split_text_at(chunk,
+                                                      shape_end - chunk_start)
+                split_pos = chunk_start + units
+                if latter:
+                    nexT = ((split_pos, chunk_end), latter)
+                else:
+                    nexT = None
+                (chunk_start, chunk_end), chunk = ((chunk_start, split_pos),
+                                                   former)
             else:
                 nexT = None
 
-            assert chunk_end <= shape_end       # by (2)
             yield (chunk_start, chunk_end), (shape, chunk_attr), chunk
 
             if nexT is not None:
-- 
2.43.0


From 48a5cdee7a07886ac99876273cf70c7a4a8e16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 08/77] fix: xmlmodel: table rows without its own cells

---
 src/hwp5/xmlmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 86a9a22..48f0230 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -485,7 +485,10 @@ def rstbody_tablebody(event, stack, item, attributes, context):
     if event is STARTEVENT:
         rowcols = deque()
         for cols in attributes.pop('rowcols'):
-            if cols == 1:
+            if cols == 0:
+                # every cell of the row is covered by cells in the other rows
+                continue
+            elif cols == 1:
                 rowcols.append(ROW_OPEN | ROW_CLOSE)
             else:
                 rowcols.append(ROW_OPEN)
-- 
2.43.0


From 9ddea0c0178d85e06fa6389587c5806583f7fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 09/77] fix: xmlmodel: keep contents of a section without
 SectionDef

---
 src/hwp5/xmlmodel.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 48f0230..dfb7960 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -292,7 +292,12 @@ def wrap_section(event_prefixed_mac, sect_id=None):
                 started = True
             else:
                 starting_buffer.append((event, item))
-    yield ENDEVENT, sectiondef
+    if started:
+        yield ENDEVENT, sectiondef
+    else:
+        # no SectionDef at all: there is nothing to wrap with
+        for evented_item in starting_buffer:
+            yield evented_item
 
 
 class ColumnSet:
@@ -313,7 +318,7 @@ def wrap_columns(event_prefixed_mac):
                 split = Paragraph.SplitFlags(split)
 
                 if split.new_columnsdef:
-                    if stack[-1][0] is ColumnSet:
+                    if stack and stack[-1][0] is ColumnSet:
                         yield ENDEVENT, stack.pop()
 
                     columns = (ColumnSet, {}, {})
@@ -331,6 +336,9 @@ def wrap_columns(event_prefixed_mac):
 
         yield event, item
 
+    while stack:
+        yield ENDEVENT, stack.pop()
+
 
 def make_extended_controls_inline(event_prefixed_mac, stack=None):
     ''' inline extended-controls into paragraph texts '''
-- 
2.43.0


From af33502ba984301e09d237680dac38a7c0e73d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 10/77] fix: xmlformat: remove characters not allowed in XML

---
 src/hwp5/xmlformat.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..0e8c71e 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -238,6 +239,18 @@ def element(context, ma):
     yield ENDEVENT, model.__name__
 
 
+# see http://www.w3.org/TR/xml/#NT-Char
+ILLEGAL_CHARS = '\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff'
+if PY3:
+    ILLEGAL_CHARS += '\ud800-\udfff'
+RE_ILLEGAL_CHARS = re.compile('[' + ILLEGAL_CHARS + ']')
+
+
+def remove_illegal_chars(s):
+    ''' remove characters which cannot appear in XML documents '''
+    return RE_ILLEGAL_CHARS.sub('', s)
+
+
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
     for textchunk in xmlevents_to_textchunks(xmlevents):
         yield textchunk.encode(encoding)
@@ -255,13 +268,13 @@ def xmlevents_to_textchunks(xmlevents):
                 yield ' '
                 yield n
                 yield '='
+                v = remove_illegal_chars(v)
                 v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
                 yield v
             yield '>'
         elif event is Text:
-            text = escape(item)
-            text = text.replace('\x00', '')
+            text = remove_illegal_chars(item)
+            text = escape(text, {'\r': '&#13;'})
             yield text
         elif event is ENDEVENT:
             yield '</'
-- 
2.43.0


From b393c906ea594c9aacadbdd4ab0caa98eb4a72e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 11/77] fix: dataio: do not show members for which no type is
 selected

---
 src/hwp5/dataio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 249ce39..ba4fcc2 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -566,6 +566,9 @@ class StructType(CompoundType):
                 member['type'] = member['type'](context, values)
             elif isinstance(member['type'], SelectiveType):
                 member['type'] = member['type'](context, values)
+                if member['type'] is Struct:
+                    # nothing is selected
+                    continue
 
             member_version = member.get('version')
             if member_version is None or context['version'] >= member_version:
-- 
2.43.0


From fd7aa28dc6f5a8e097dc04a358d7a2af48d1f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 12/77] fix: msoleprops: missing dictionaries, missing
 properties and unknown types

A property set without a dictionary, properties of a type not supported and
missing properties are not errors.  Timestamps are computed exactly.
---
 src/hwp5/filestructure.py | 36 +++++++++++++++++++++++-------------
 src/hwp5/msoleprops.py    | 15 +++++++++++----
 src/hwp5/xmlmodel.py      |  6 ++++--
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..685dde7 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -444,70 +444,80 @@ class HwpSummaryInfo(VersionSensitiveItem):
 
     propertySet = cached_property(getHwpSummaryInfoPropertySet)
 
+    def getProperty(self, propertyIdentifier):
+        ''' value of the property; None if there is no such property '''
+        propertySet = self.propertySet
+        if propertySet is None:
+            return None
+        try:
+            return propertySet[propertyIdentifier]
+        except KeyError:
+            return None
+
     @property
     def title(self):
         from .msoleprops import PIDSI_TITLE
-        return self.propertySet[PIDSI_TITLE]
+        return self.getProperty(PIDSI_TITLE)
 
     @property
     def subject(self):
         from .msoleprops import PIDSI_SUBJECT
-        return self.propertySet[PIDSI_SUBJECT]
+        return self.getProperty(PIDSI_SUBJECT)
 
     @property
     def author(self):
         from .msoleprops import PIDSI_AUTHOR
-        return self.propertySet[PIDSI_AUTHOR]
+        return self.getProperty(PIDSI_AUTHOR)
 
     @property
     def keywords(self):
         from .msoleprops import PIDSI_KEYWORDS
-        return self.propertySet[PIDSI_KEYWORDS]
+        return self.getProperty(PIDSI_KEYWORDS)
 
     @property
     def comments(self):
         from .msoleprops import PIDSI_COMMENTS
-        return self.propertySet[PIDSI_COMMENTS]
+        return self.getProperty(PIDSI_COMMENTS)
 
     @property
     def lastSavedBy(self):
         from .msoleprops import PIDSI_LASTAUTHOR
-        return self.propertySet[PIDSI_LASTAUTHOR]
+        return self.getProperty(PIDSI_LASTAUTHOR)
 
     @property
     def revisionNumber(self):
         from .msoleprops import PIDSI_REVNUMBER
-        return self.propertySet[PIDSI_REVNUMBER]
+        return self.getProperty(PIDSI_REVNUMBER)
 
     @property
     def lastPrintedTime(self):
         from .msoleprops import PIDSI_LASTPRINTED
-        return self.propertySet[PIDSI_LASTPRINTED]
+        return self.getProperty(PIDSI_LASTPRINTED)
 
     @property
     def createdTime(self):
         from .msoleprops import PIDSI_CREATE_DTM
-        return self.propertySet[PIDSI_CREATE_DTM]
+        return self.getProperty(PIDSI_CREATE_DTM)
 
     @property
     def lastSavedTime(self):
         from .msoleprops import PIDSI_LASTSAVE_DTM
-        return self.propertySet[PIDSI_LASTSAVE_DTM]
+        return self.getProperty(PIDSI_LASTSAVE_DTM)
 
     @property
     def numberOfPages(self):
         from .msoleprops import PIDSI_PAGECOUNT
-        return self.propertySet[PIDSI_PAGECOUNT]
+        return self.getProperty(PIDSI_PAGECOUNT)
 
     @property
     def dateString(self):
         from .summaryinfo import HWPPIDSI_DATE_STR
-        return self.propertySet[HWPPIDSI_DATE_STR]
+        return self.getProperty(HWPPIDSI_DATE_STR)
 
     @property
     def numberOfParagraphs(self):
         from .summaryinfo import HWPPIDSI_PARACOUNT
-        return self.propertySet[HWPPIDSI_PARACOUNT]
+        return self.getProperty(HWPPIDSI_PARACOUNT)
 
     @property
     def plaintext_lines(self):
diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..5f7d049 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -97,7 +97,7 @@ class FILETIME(object):
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
@@ -272,8 +272,12 @@ class PropertyReader(object):
         context = {}
         propType = read_type(TypedPropertyValue, context, f)
         propType = TypedPropertyValue.fromDict(propType)
-        vt_type = vt_types[propType.code]
-        propValue = vt_type.read_value(context, f)
+        vt_type = propType.vt_type
+        if vt_type is not None:
+            propValue = vt_type.read_value(context, f)
+        else:
+            logger.warning('unsupported property type: 0x%04x', propType.code)
+            propValue = None
 
         return Property(
             desc=self.propDesc,
@@ -594,7 +598,10 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                if dictionary is not None:
+                    displayName = dictionary.get(propDesc.id, None)
+                else:
+                    displayName = None
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index dfb7960..e4569aa 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -731,13 +731,15 @@ class PropertySetStreamModelEventsGenerator(object):
         if property.idLabel is not None:
             content['id_label'] = property.idLabel
         if property.type is not None:
-            content['type'] = str(property.type.vt_type.__name__)
+            if property.type.vt_type is not None:
+                content['type'] = str(property.type.vt_type.__name__)
             content['type_code'] = '0x{:04x}'.format(property.type.code)
         if property.id == PID_DICTIONARY.id:
             events = self.getDictionaryEvents(property.value)
         else:
             events = ()
-            content['value'] = property.value
+            if property.value is not None:
+                content['value'] = property.value
         element = Property, content, self.context
         return wrap_modelevents(element, events)
 
-- 
2.43.0


From 6a2f6d08219192dd82e5c1197e0d46d2c95dd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 13/77] fix: xmlmodel: match fields within their own paragraph
 list

---
 src/hwp5/xmlmodel.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index e4569aa..aef2e13 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -420,19 +420,32 @@ def make_paragraphs_children_of_listheader(event_prefixed_mac,
 
 
 def match_field_start_end(event_prefixed_mac):
-    stack = []
+    # Fields are matched in the paragraph list in which they started:
+    # paragraph lists in the other controls have their own open fields.
+    scopes = [[]]
     for event, item in event_prefixed_mac:
         (model, attributes, context) = item
         if issubclass(model, Field):
-            for x in mfse_field(event, stack, item):
+            if event is ENDEVENT:
+                scopes.pop()
+            for x in mfse_field(event, scopes[-1], item):
                 yield x
+            if event is STARTEVENT:
+                scopes.append([])
         elif model is LineSeg:
-            for x in mfse_lineseg(event, stack, item):
+            for x in mfse_lineseg(event, scopes[-1], item):
                 yield x
         elif model is ControlChar and attributes['name'] == 'FIELD_END':
-            for x in mfse_field_end(event, stack, item):
+            for x in mfse_field_end(event, scopes[-1], item):
                 yield x
         else:
+            if issubclass(model, Control):
+                if event is STARTEVENT:
+                    scopes.append([])
+                else:
+                    scopes.pop()
+            elif issubclass(model, ListHeader) and event is STARTEVENT:
+                del scopes[-1][:]
             yield event, item
 
 
-- 
2.43.0


From 5d6161004d06e635b8f4c4f794c98bb21a928edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 14/77] fix: dataio: decode HexBytes into a string

---
 src/hwp5/dataio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index ba4fcc2..823a9aa 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -130,9 +130,13 @@ hwp2mm = lambda x: inch2mm(hwp2inch(x))  # noqa
 hwp2pt = lambda x: int((x / 100.0) * 10 + 0.5) / 10.0  # noqa
 
 
+def decode_hexbytes(bytes):
+    return b2a_hex(bytes).decode('ascii')
+
+
 class HexBytes(type):
     def __new__(mcs, size):
-        decode = staticmethod(b2a_hex)
+        decode = staticmethod(decode_hexbytes)
         return type.__new__(mcs, str('HexBytes(%d)' % size), (str,),
                             dict(fixed_size=size, decode=decode))
 
-- 
2.43.0


From f68733b17ce8111aa1f3597ad52d066f767c178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 15/77] fix: converters exit unsuccessfully on damaged
 documents

---
 src/hwp5/hwp5html.py | 1 +
 src/hwp5/hwp5odt.py  | 1 +
 src/hwp5/hwp5txt.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..d7ae124 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -365,6 +365,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From ab63a571c47a557cf3c4171afdb81c65f26ad872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 16/77] fix: xsltproc: report transformation failures

---
 src/hwp5/errors.py        |  4 ++++
 src/hwp5/plat/xsltproc.py | 16 ++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/errors.py b/src/hwp5/errors.py
index 43bb74a..0b7f2c9 100644
--- a/src/hwp5/errors.py
+++ b/src/hwp5/errors.py
@@ -41,3 +41,7 @@ class ValidationFailed(Exception):
 
 class RelaxNGValidationFailed(ValidationFailed):
     pass
+
+
+class TransformationFailed(Exception):
+    pass
diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 747f649..d7bedaf 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -24,6 +24,8 @@ from subprocess import Popen
 import logging
 import subprocess
 
+from ..errors import TransformationFailed
+
 
 logger = logging.getLogger(__name__)
 
@@ -84,10 +86,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise TransformationFailed('xsltproc', p.returncode)
+        return dict()
 
     def transform_into_stream(self, input, output):
         '''
@@ -97,10 +98,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd, stdout=output)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise TransformationFailed('xsltproc', p.returncode)
+        return dict()
 
 
 def xslt_compile(xsl_path, **params):
-- 
2.43.0


From c866ad123e92f7e3ae2e84256df22c905ff9453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 17/77] fix: openssl: report decryption failures

---
 src/hwp5/plat/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a23c299..16903bc 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -178,10 +178,13 @@ def get_aes128ecb_decrypt_openssl():
         try:
             p = Popen(args, stdout=subprocess.PIPE)
             try:
-                return p.stdout.read()
+                decrypted = p.stdout.read()
             finally:
                 p.wait()
                 p.stdout.close()
+            if p.returncode != 0:
+                raise CalledProcessError(p.returncode, args)
+            return decrypted
         finally:
             os.unlink(name)
 
-- 
2.43.0


From 795768f3c61d20ae36fefc627970fb00a931be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 18/77] fix: report failures of xmllint

---
 src/hwp5/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index f7deffb..bc049d7 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -295,7 +295,7 @@ def null_contextmanager_filter(output):
     yield output
 
 
-def output_thru_subprocess(cmd):
+def output_thru_subprocess(cmd, check=False):
     @contextmanager
     def filter(output):
         logger.debug('%r', cmd)
@@ -316,6 +316,8 @@ def output_thru_subprocess(cmd):
                 p.wait()
                 retcode = p.returncode
                 logger.debug('%r exit %d', cmd, retcode)
+            if check and retcode != 0:
+                raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
 
@@ -330,7 +332,7 @@ def xmllint(c14n=False, encode=None, format=False, nonet=True):
     if nonet:
         cmd.append('--nonet')
     cmd.append('-')
-    return output_thru_subprocess(cmd)
+    return output_thru_subprocess(cmd, check=True)
 
 
 def syntaxhighlight(mimetype):
-- 
2.43.0


From ce41d59e4936ab8709531cf2f789dd696c479548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 19/77] fix: odt: fonts without panose have no generic family

---
 src/hwp5/xsl/odt/common.xsl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2e4fe0c..82d6c1b 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -198,12 +198,14 @@
       <!-- Panose1/@serif-style -->
       <!-- 2..10 : serif(roman) -->
       <!-- 11~15 : sans-serif(swiss) -->
-      <xsl:attribute name="style:font-family-generic">
-        <xsl:choose>
-          <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
-          <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
-        </xsl:choose>
-      </xsl:attribute>
+      <xsl:if test="Panose1">
+        <xsl:attribute name="style:font-family-generic">
+          <xsl:choose>
+            <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
+            <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
+          </xsl:choose>
+        </xsl:attribute>
+      </xsl:if>
       <!-- TODO: Panose1/@proportion -->
       <xsl:attribute name="style:font-pitch">variable</xsl:attribute>
     </xsl:element>
-- 
2.43.0


From fcfaeee7990d714bcb6feb29fe5c756beb6f7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 20/77] fix: odt: rows fully covered by cells of the rows above

---
 src/hwp5/xsl/odt/common.xsl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 82d6c1b..20687c8 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -943,6 +943,14 @@
               <xsl:apply-templates />
             </table:table-cell>
           </xsl:for-each>
+          <xsl:if test="not(TableCell)">
+            <!-- 모든 열이 윗 행의 셀에 병합된 행 -->
+            <table:covered-table-cell>
+              <xsl:if test="../@cols &gt; 1">
+                <xsl:attribute name="table:number-columns-repeated"><xsl:value-of select="../@cols"/></xsl:attribute>
+              </xsl:if>
+            </table:covered-table-cell>
+          </xsl:if>
         </table:table-row>
       </xsl:for-each>
     </xsl:element>
-- 
2.43.0


From 0dad203d966d1e1519d8f1418957aad644c5422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 21/77] fix: odt: keep texts and tables inside fields, refer to
 defined span styles

---
 src/hwp5/xsl/odt/common.xsl | 62 +++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 20687c8..b7e6008 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -722,25 +722,31 @@
 
     <xsl:variable name="paragraph-id" select="@paragraph-id + 1"/>
     <xsl:for-each select="LineSeg">
-      <xsl:variable name="lineseg-pos" select="position()" />
-      <xsl:for-each select="Text">
-        <xsl:variable name="text-pos" select="position()" />
-        <xsl:variable name="style-name">
-          <xsl:text>p</xsl:text>
-          <xsl:value-of select="$paragraph-id" />
-          <xsl:text>-</xsl:text>
-          <xsl:value-of select="$lineseg-pos"/>
-          <xsl:text>-</xsl:text>
-          <xsl:value-of select="$text-pos"/>
-        </xsl:variable>
-        <xsl:apply-templates mode="style:style" select=".">
-          <xsl:with-param name="style-name" select="$style-name" />
-          <xsl:with-param name="style-charshape-id" select="$style/@charshape-id + 1" />
-        </xsl:apply-templates>
-      </xsl:for-each>
+      <xsl:apply-templates mode="style-style-for-text" select="Text|*[starts-with(local-name(), 'Field')]">
+        <xsl:with-param name="style-name-prefix" select="concat('p', $paragraph-id, '-', position())" />
+        <xsl:with-param name="style-charshape-id" select="$style/@charshape-id + 1" />
+      </xsl:apply-templates>
     </xsl:for-each>
   </xsl:template>
 
+  <xsl:template mode="style-style-for-text" match="*[starts-with(local-name(), 'Field')]">
+    <xsl:param name="style-name-prefix" />
+    <xsl:param name="style-charshape-id" />
+    <xsl:apply-templates mode="style-style-for-text" select="Text|*[starts-with(local-name(), 'Field')]">
+      <xsl:with-param name="style-name-prefix" select="concat($style-name-prefix, '-', count(preceding-sibling::*) + 1)" />
+      <xsl:with-param name="style-charshape-id" select="$style-charshape-id" />
+    </xsl:apply-templates>
+  </xsl:template>
+
+  <xsl:template mode="style-style-for-text" match="Text">
+    <xsl:param name="style-name-prefix" />
+    <xsl:param name="style-charshape-id" />
+    <xsl:apply-templates mode="style:style" select=".">
+      <xsl:with-param name="style-name" select="concat($style-name-prefix, '-', count(preceding-sibling::Text) + 1)" />
+      <xsl:with-param name="style-charshape-id" select="$style-charshape-id" />
+    </xsl:apply-templates>
+  </xsl:template>
+
   <xsl:template mode="style:style" match="Text">
     <xsl:param name="style-name" />
     <xsl:param name="style-charshape-id" />
@@ -894,29 +900,39 @@
           <xsl:with-param name="paragraph" select="."/>
         </xsl:apply-templates>
       </xsl:element>
-      <xsl:apply-templates select="LineSeg/TableControl"/>
+      <xsl:variable name="lineseg-depth" select="count(ancestor::LineSeg) + 1" />
+      <xsl:apply-templates select="LineSeg//TableControl[count(ancestor::LineSeg) = $lineseg-depth]"/>
   </xsl:template>
 
   <xsl:template match="LineSeg">
     <xsl:param name="paragraph" />
-    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar">
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(local-name(), 'Field')]">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="style-name-prefix" select="concat('p', $paragraph/@paragraph-id + 1, '-', position())"/>
+    </xsl:apply-templates>
+  </xsl:template>
+
+  <xsl:template match="*[starts-with(local-name(), 'Field')]">
+    <xsl:param name="paragraph" />
+    <xsl:param name="style-name-prefix" />
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(local-name(), 'Field')]">
       <xsl:with-param name="paragraph" select="$paragraph"/>
-      <xsl:with-param name="lineseg-pos" select="position()"/>
+      <xsl:with-param name="style-name-prefix" select="concat($style-name-prefix, '-', count(preceding-sibling::*) + 1)"/>
     </xsl:apply-templates>
   </xsl:template>
 
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
-    <xsl:param name="lineseg-pos"/>
-    <xsl:variable name="text-pos" select="position()"/>
-    <xsl:variable name="paragraph-id" select="$paragraph/@paragraph-id + 1" />
+    <xsl:param name="style-name-prefix"/>
     <xsl:variable name="style-id" select="$paragraph/@style-id + 1" />
     <xsl:variable name="style" select="/HwpDoc/DocInfo/IdMappings/Style[$style-id]" />
     <xsl:variable name="style-charshape-id" select="$style/@charshape-id + 1" />
     <xsl:element name="text:span">
       <xsl:variable name="charshape-id" select="@charshape-id + 1" />
       <xsl:if test="$style-charshape-id != $charshape-id">
-        <xsl:attribute name="text:style-name">p<xsl:value-of select="$paragraph-id"/>-<xsl:value-of select="$lineseg-pos"/>-<xsl:value-of select="$text-pos"/></xsl:attribute>
+        <xsl:attribute name="text:style-name">
+          <xsl:value-of select="concat($style-name-prefix, '-', count(preceding-sibling::Text) + 1)"/>
+        </xsl:attribute>
       </xsl:if>
       <xsl:value-of select="text()"/>
     </xsl:element>
-- 
2.43.0


From 3b5d8dd03ecf45c7974d0cf4afb1203987026120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 22/77] fix: binmodel: relative sizes of fonts are unsigned

---
 src/hwp5/binmodel/tagid21_char_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid21_char_shape.py b/src/hwp5/binmodel/tagid21_char_shape.py
index e366b7b..2748865 100644
--- a/src/hwp5/binmodel/tagid21_char_shape.py
+++ b/src/hwp5/binmodel/tagid21_char_shape.py
@@ -76,7 +76,7 @@ class CharShape(RecordModel):
         yield (LanguageStruct('LetterWidthExpansion', UINT8),
                'letter_width_expansion')
         yield LanguageStruct('LetterSpacing', INT8), 'letter_spacing'
-        yield LanguageStruct('RelativeSize', INT8), 'relative_size'
+        yield LanguageStruct('RelativeSize', UINT8), 'relative_size'
         yield LanguageStruct('Position', INT8), 'position'
         yield INT32, 'basesize',
         yield cls.Flags, 'charshapeflags',
-- 
2.43.0


From 4f31b389718e890c40adba6667bde2da50411a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 23/77] fix: html: keep texts and objects inside fields

---
 src/hwp5/xsl/hwp5html.xsl | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 1aa1344..2b3e82f 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -127,18 +127,27 @@
         </xsl:choose>
       </xsl:attribute>
       <xsl:for-each select="LineSeg">
-        <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']" />
+        <xsl:apply-templates select="." mode="inline-contents" />
       </xsl:for-each>
     </xsl:element>
-    <xsl:apply-templates select="LineSeg/TableControl[@inline='0']" />
-    <xsl:apply-templates select="LineSeg/GShapeObjectControl[@inline='0']" />
+    <xsl:variable name="lineseg-depth" select="count(ancestor::LineSeg) + 1" />
+    <xsl:apply-templates select="LineSeg//TableControl[@inline='0'][count(ancestor::LineSeg) = $lineseg-depth]" />
+    <xsl:apply-templates select="LineSeg//GShapeObjectControl[@inline='0'][count(ancestor::LineSeg) = $lineseg-depth]" />
+  </xsl:template>
+
+  <xsl:template match="*" mode="inline-contents">
+    <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(local-name(), 'Field')]" />
+  </xsl:template>
+
+  <xsl:template match="*[starts-with(local-name(), 'Field')]">
+    <xsl:apply-templates select="." mode="inline-contents" />
   </xsl:template>
 
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
-  <xsl:template match="Paragraph/LineSeg/Text">
+  <xsl:template match="Paragraph/LineSeg//Text">
     <xsl:element name="span">
-      <xsl:variable name="styleid" select="../../@style-id"/>
+      <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
       <xsl:variable name="stylename" select="$style/@name" />
       <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
@@ -435,7 +444,7 @@
   </xsl:template>
 
   <xsl:template match="TableControl|GShapeObjectControl" mode="extendedcontrol-hpos">
-    <xsl:variable name="paragraph" select="../.." />
+    <xsl:variable name="paragraph" select="ancestor::Paragraph[1]" />
     <xsl:variable name="parashape_pos" select="number($paragraph/@parashape-id) + 1" />
     <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
     <xsl:variable name="columnset" select="$paragraph/.." />
-- 
2.43.0


From c4586652d02aa620c1435cb006e4d5050e827989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 24/77] fix: olefileio: list storages which have no streams of
 their own

---
 src/hwp5/plat/olefileio.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..a0ade97 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -142,17 +142,13 @@ class OleStorage(OleStorageItem):
 
 
 def olefile_listdir(olefile, path):
+    # storages too: they may be empty or contain nothing but other storages
+    entries = olefile.listdir(streams=True, storages=True)
+
     if path == '' or path == '/':
-        # we use a list instead of a set
-        # for python 2.3 compatibility
-        yielded = []
-
-        for stream in olefile.listdir():
-            top_item = stream[0]
-            if top_item in yielded:
-                continue
-            yielded.append(top_item)
-            yield top_item
+        for entry in entries:
+            if len(entry) == 1:
+                yield entry[0]
         return
 
     if not olefile.exists(path):
@@ -160,7 +156,7 @@ def olefile_listdir(olefile, path):
     if olefile.get_type(path) != 1:
         raise IOError('%s not a storage' % path)
     path_segments = path.split('/')
-    for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+    for entry in entries:
+        if len(entry) == len(path_segments) + 1:
+            if entry[:-1] == path_segments:
+                yield entry[-1]
-- 
2.43.0


From 2d63b3c1b68f659ffacc5cf53f31d4486bb32b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 25/77] fix: filestructure: storages in BodyText, ViewText and
 Scripts are storages

---
 src/hwp5/filestructure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 685dde7..7db39fc 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -31,6 +31,7 @@ from .errors import InvalidHwp5FileError
 from .storage import ItemWrapper
 from .storage import StorageWrapper
 from .storage import ItemConversionStorage
+from .storage import is_storage
 from .storage import is_stream
 from .storage.ole import OleStorage
 from .summaryinfo import CLSID_HWP_SUMMARY_INFORMATION
@@ -263,6 +264,8 @@ class Hwp5DistDocStorage(ItemConversionStorage):
 
     def resolve_conversion_for(self, name):
         def conversion(item):
+            if is_storage(item):
+                return item
             return Hwp5DistDocStream(self.wrapped[name], None)  # TODO: version
         return conversion
 
@@ -336,6 +339,8 @@ class Sections(ItemConversionStorage):
 
     def resolve_conversion_for(self, name):
         def conversion(item):
+            if is_storage(item):
+                return item
             return self.section_class(self.wrapped[name], self.version)
         return conversion
 
-- 
2.43.0


From 8d1a333ba7d84e400e2707ea7138d38fb9e13056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 26/77] fix: unpack: names of items stay within the destination

---
 src/hwp5/storage/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..a5fef2a 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -121,6 +121,22 @@ def iter_storage_leafs(stg, basepath=''):
             yield path
 
 
+def item_filename(name):
+    ''' filename for a storage item
+
+        It's always a name of a direct child: control characters and path
+        separators are escaped, i.e. '\\x05Name' => '_05Name'
+    '''
+    special = name in (os.path.curdir, os.path.pardir)
+    separators = '/' + os.path.sep
+
+    def escape(ch):
+        if special or ch < ' ' or ch in separators:
+            return '_{:02x}'.format(ord(ch))
+        return ch
+    return ''.join(escape(ch) for ch in name)
+
+
 def unpack(stg, outbase):
     ''' unpack a storage into outbase directory
 
@@ -128,7 +144,7 @@ def unpack(stg, outbase):
         outbase: path to a directory in filesystem (should not end with '/')
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outpath = os.path.join(outbase, item_filename(name))
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,7 +153,6 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
-- 
2.43.0


From a4f57450de49927af34d09c9277838cab2ac85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 27/77] fix: ExtraItemStorage: list each name once

---
 src/hwp5/storage/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index a5fef2a..5e7c03c 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -71,7 +71,8 @@ class ItemConversionStorage(StorageWrapper):
 class ExtraItemStorage(StorageWrapper):
 
     def __iter__(self):
-        for name in self.wrapped:
+        names = list(self.wrapped)
+        for name in names:
             yield name
 
             item = self.wrapped[name]
@@ -79,7 +80,8 @@ class ExtraItemStorage(StorageWrapper):
                 other_formats = item.other_formats()
                 if other_formats:
                     for ext in other_formats:
-                        yield name + ext
+                        if name + ext not in names:
+                            yield name + ext
 
     def __getitem__(self, name):
         try:
-- 
2.43.0


From 2a1f175599c9efa52747667b1c625a9602414ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 28/77] fix: virtual streams: every opening reads anew

---
 src/hwp5/binmodel/__init__.py |  5 ++++-
 src/hwp5/recordstream.py      |  4 +++-
 src/hwp5/xmlmodel.py          | 10 ++++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index c82a26e..9ddf7d1 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -478,7 +478,10 @@ class ModelStream(recordstream.RecordStream):
 
     def other_formats(self):
         d = super(ModelStream, self).other_formats()
-        d['.models'] = self.models_json().open
+
+        def open_models(**kwargs):
+            return self.models_json().open(**kwargs)
+        d['.models'] = open_models
         return d
 
     def parse_model_events(self):
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 0963ebc..b7b05e3 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -183,7 +183,9 @@ class RecordStream(filestructure.VersionSensitiveItem):
         return nth(groups, n, [])
 
     def other_formats(self):
-        return {'.records': self.records_json().open}
+        def open_records(**kwargs):
+            return self.records_json().open(**kwargs)
+        return {'.records': open_records}
 
 
 class Sections(filestructure.Sections):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index aef2e13..4025c14 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -674,7 +674,10 @@ class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
     def other_formats(self):
         d = super(ModelEventStream, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+
+        def open_xml(**kwargs):
+            return self.xmlevents().open(**kwargs)
+        d['.xml'] = open_xml
         return d
 
 
@@ -823,7 +826,10 @@ class Sections(binmodel.Sections, XmlEventsMixin):
 
     def other_formats(self):
         d = super(Sections, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+
+        def open_xml(**kwargs):
+            return self.xmlevents().open(**kwargs)
+        d['.xml'] = open_xml
         return d
 
 
-- 
2.43.0


From e63cdff3f2c7fb702b02e48ab2d997982d2c1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 29/77] fix: record_to_json: leave the record as it is

---
 src/hwp5/recordstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index b7b05e3..1e1068a 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -114,7 +114,7 @@ def link_records(records):
 
 def record_to_json(record, *args, **kwargs):
     ''' convert a record to json '''
-    record['payload'] = list(dumpbytes(record['payload']))
+    record = dict(record, payload=list(dumpbytes(record['payload'])))
     return json.dumps(record, *args, **kwargs)
 
 
-- 
2.43.0


From 96f26c4ecc6008836aea74dfb8a77c95afedfb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 30/77] fix: recognition: corrupted compound files are not
 valid files

---
 src/hwp5/filestructure.py  | 16 +++++++++++++---
 src/hwp5/plat/olefileio.py | 10 +++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 7db39fc..f8dd8fb 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -108,11 +108,21 @@ def storage_is_hwp5file(stg):
     except KeyError:
         logger.info('stg has no FileHeader')
         return False
-    fileheader = HwpFileHeader(fileheader)
-    if fileheader.signature == HWP5_SIGNATURE:
+    try:
+        signature = HwpFileHeader(fileheader).signature
+    except EnvironmentError as e:
+        if e.errno is not None:
+            # not about the contents of the file
+            raise
+        logger.info('unreadable FileHeader: %s', e)
+        return False
+    except Exception as e:
+        logger.info('unreadable FileHeader: %s', e)
+        return False
+    if signature == HWP5_SIGNATURE:
         return True
     else:
-        logger.info('fileheader.signature = %r', fileheader.signature)
+        logger.info('fileheader.signature = %r', signature)
         return False
 
 
diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index a0ade97..733c7a5 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -112,7 +112,15 @@ class OleStorage(OleStorageItem):
             if not isOleFile(olefile):
                 errormsg = 'Not an OLE2 Compound Binary File.'
                 raise InvalidOleStorageError(errormsg)
-            olefile = OleFileIO(olefile)
+            try:
+                olefile = OleFileIO(olefile)
+            except EnvironmentError as e:
+                if e.errno is not None:
+                    # not about the contents of the file
+                    raise
+                raise InvalidOleStorageError(str(e))
+            except Exception as e:
+                raise InvalidOleStorageError(str(e))
         OleStorageItem.__init__(self, olefile, path, parent)
 
     def __iter__(self):
-- 
2.43.0


From 9c236dd9bca8f38fe485ebf76cb0f7e7372b06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 31/77] fix: msoleprops: report truncated strings

---
 src/hwp5/msoleprops.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 5f7d049..a00f792 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -35,6 +35,10 @@ from hwp5.dataio import BYTE
 from hwp5.dataio import UINT16
 from hwp5.dataio import UINT32
 from hwp5.dataio import INT32
+from hwp5.dataio import Eof
+from hwp5.dataio import OutOfData
+from hwp5.dataio import ParseError
+from hwp5.dataio import readn
 from hwp5.bintype import read_type
 
 
@@ -68,8 +72,17 @@ class VT_LPWSTR(object):
     @classmethod
     def read_value(cls, context, f):
         length = read_type(UINT32, context, f)
-        data = f.read(length * 2)
-        return data.decode('utf-16le')[:-1]  # remove null character
+        if length == 0:
+            return ''
+        offset = f.tell()
+        try:
+            data = readn(f, length * 2)
+            return data.decode('utf-16le')[:-1]  # remove null character
+        except (Eof, OutOfData, UnicodeDecodeError) as e:
+            pe = ParseError('can\'t parse %s' % cls)
+            pe.cause = e
+            pe.offset = offset
+            raise pe
 
 
 @PropertyType(code=0x0040)
-- 
2.43.0


From d86e89010bf3c239861a2786f4c64027bc1288e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 32/77] fix: summaryinfo: the property set of its own format,
 timestamps out of range

---
 src/hwp5/filestructure.py | 6 ++++--
 src/hwp5/msoleprops.py    | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f8dd8fb..6602f7e 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -35,6 +35,7 @@ from .storage import is_storage
 from .storage import is_stream
 from .storage.ole import OleStorage
 from .summaryinfo import CLSID_HWP_SUMMARY_INFORMATION
+from .summaryinfo import FMTID_HWP_SUMMARY_INFORMATION
 from .utils import GeneratorTextReader
 from .utils import cached_property
 from .utils import transcoder
@@ -436,7 +437,6 @@ class HwpSummaryInfo(VersionSensitiveItem):
     def getPropertySetStream(self):
         from .msoleprops import PropertySetFormat
         from .msoleprops import PropertySetStreamReader
-        from .summaryinfo import FMTID_HWP_SUMMARY_INFORMATION
         from .summaryinfo import HWP_PROPERTIES
 
         propertySetFormat = PropertySetFormat(
@@ -455,7 +455,9 @@ class HwpSummaryInfo(VersionSensitiveItem):
     def getHwpSummaryInfoPropertySet(self):
         stream = self.propertySetStream
         if stream.clsid == CLSID_HWP_SUMMARY_INFORMATION:
-            return stream.propertysets[0]
+            for propertySet in stream.propertysets:
+                if propertySet.fmtid == FMTID_HWP_SUMMARY_INFORMATION:
+                    return propertySet
 
     propertySet = cached_property(getHwpSummaryInfoPropertySet)
 
diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index a00f792..c8ba740 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -104,7 +104,11 @@ class FILETIME(object):
         self.value = value
 
     def __str__(self):
-        return str(self.datetime)
+        try:
+            return str(self.datetime)
+        except OverflowError:
+            # beyond the range of datetime
+            return '0x{:016x}'.format(self.value)
 
     @property
     def datetime(self):
@@ -429,7 +433,7 @@ class PropertySet(object):
 class PropertySetHeader(Struct):
 
     def __init__(self, bytesize, propDescList):
-        self.bytesize = bytesize,
+        self.bytesize = bytesize
         self.propDescList = propDescList
 
     @classmethod
-- 
2.43.0


From 2a5ccb9cb31a4aefa338e2018829f9c72b14104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 33/77] fix: bintype: report truncated flags as parse errors

---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 4b82c44..fcb0fe3 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -298,7 +298,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if 'flags_type' in item and ev is not ERROREVENT:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From 86547224e160013d5b63d85b4007775650934aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 34/77] fix: cached properties do not replace methods they are
 made of

---
 src/hwp5/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index bc049d7..b14d941 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -47,18 +47,21 @@ class cached_property(object):
         self.func = func
         self.__name__ = func.__name__
         self.__doc__ = func.__doc__
+        # not to be mixed up with the function itself, which may be a method
+        # of the object (e.g. value = cached_property(get_value))
+        self.key = '_cached_' + func.__name__
 
     def __get__(self, obj, type=None):
         if obj is None:
             return self
-        value = obj.__dict__.get(self.__name__, NIL)
+        value = obj.__dict__.get(self.key, NIL)
         if value is NIL:
             value = self.func(obj)
-            obj.__dict__[self.__name__] = value
+            obj.__dict__[self.key] = value
         return value
 
     def __set__(self, obj, value):
-        obj.__dict__[self.__name__] = value
+        obj.__dict__[self.key] = value
 
 
 def generate_json_array(tokens):
-- 
2.43.0


From ab13ceb28e76047802df0c23f57fbe9a2632219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 35/77] fix: find: exit unsuccessfully if a file can not be
 read to its end

---
 src/hwp5/proc/find.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..40ad5cb 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -93,6 +93,7 @@ def main(args):
 
     print_model = printer_from_args(args)
 
+    failed = False
     for filename in filenames:
         try:
             models = hwp5file_models(filename)
@@ -102,6 +103,9 @@ def main(args):
         except ParseError as e:
             logger.error('---- On processing %s:', filename)
             e.print_to_logger(logger)
+            failed = True
+    if failed:
+        return 1
 
 
 def find_argparser(subparsers, _):
-- 
2.43.0


From 54cec19c60f825933e78f622113550bb2f5b0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 36/77] fix: hwp5html: do not delete the document with an
 existing destination

---
 src/hwp5/hwp5html.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index f1b883a..3a0a580 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -144,6 +144,11 @@ def main():
         dest_path = args.output
         if not dest_path:
             dest_path = os.path.splitext(os.path.basename(hwp5path))[0]
+        if is_inside(hwp5path, dest_path):
+            # an existing destination is to be replaced
+            logger.error('%s: the destination contains the document itself',
+                         dest_path)
+            sys.exit(1)
         open_dest = partial(open_dir, dest_path)
 
     try:
@@ -199,6 +204,12 @@ def main_argparser():
     return parser
 
 
+def is_inside(path, dir_path):
+    path = os.path.realpath(path)
+    dir_path = os.path.realpath(dir_path)
+    return path.startswith(os.path.join(dir_path, ''))
+
+
 @contextmanager
 def open_dir(path):
     if os.path.exists(path):
-- 
2.43.0


From 5cf66572249ea8212044cc2334c0950582ba55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 37/77] fix: hwp5odt: storages and unprintable names of BinData

---
 src/hwp5/hwp5odt.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index d7ae124..29a8925 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -38,6 +38,8 @@ from .utils import mkstemp_open
 from .utils import hwp5_resources_path
 from .transforms import BaseTransform
 from .plat import get_relaxng_compile
+from .storage import is_storage
+from .storage import item_filename
 from .utils import cached_property
 
 
@@ -143,12 +145,17 @@ class ODTTransform(BaseTransform, ODFValidate):
             self.transform_xhwp5_into_package(xml_path, odtpkg)
 
         if 'BinData' in hwp5file:
-            bindata = hwp5file['BinData']
-            for name in bindata:
-                f = bindata[name].open()
-                path = 'bindata/' + name
-                mimetype = 'application/octet-stream'
-                odtpkg.insert_stream(f, path, mimetype)
+            self.insert_bindata(hwp5file['BinData'], odtpkg, 'bindata/')
+
+    def insert_bindata(self, stg, odtpkg, prefix):
+        for name in stg:
+            item = stg[name]
+            path = prefix + item_filename(name)
+            if is_storage(item):
+                self.insert_bindata(item, odtpkg, path + '/')
+            else:
+                with closing(item.open()) as f:
+                    odtpkg.insert_stream(f, path, 'application/octet-stream')
 
     @cached_property
     def transform_xhwp5_to_styles(self):
-- 
2.43.0


From a47c409d4939b42c7450b0d352613b7709e9ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 38/77] fix: records: read records from the standard input

---
 src/hwp5/proc/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..4124c3d 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -47,7 +47,11 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        if PY2:
+            stdin_binary = sys.stdin
+        else:
+            stdin_binary = sys.stdin.buffer
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From 66217e4ee57bf6fb3190f3f8b54fa2828a6a0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 39/77] fix: find: tags without a name, names of files without
 a line end

---
 src/hwp5/proc/find.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 40ad5cb..69924b3 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -68,7 +68,7 @@ from ..binmodel import Hwp5File
 from ..binmodel import model_to_json
 from ..bintype import log_events
 from ..dataio import ParseError
-from ..tagids import tagnames
+from ..recordstream import tagname
 
 
 PY2 = sys.version_info.major == 2
@@ -172,7 +172,7 @@ def filenames_from_args(args):
 
 
 def filenames_from_stdin(args):
-    return imap(lambda line: line[:-1], sys.stdin)
+    return imap(lambda line: line.rstrip('\n'), sys.stdin)
 
 
 def conditions_from_args(args):
@@ -189,7 +189,7 @@ def conditions_from_args(args):
         except ValueError:
             pass
         else:
-            tag = tagnames[tag]
+            tag = tagname(tag)
 
         def with_tag(model):
             return model['tagname'] == tag
-- 
2.43.0


From 4bc4e89d17f9676d235aec85c25ac6642620d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 40/77] fix: xml: --no-xml-decl with well-formed output

---
 src/hwp5/proc/xml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/proc/xml.py b/src/hwp5/proc/xml.py
index 437abe4..89ff8d0 100644
--- a/src/hwp5/proc/xml.py
+++ b/src/hwp5/proc/xml.py
@@ -65,8 +65,10 @@ def main(args):
     ] + ([
         xmllint(format=True),
     ] if not args.no_validate_wellformed else []))
-    open_dest = wrap_open_dest(open_dest, [
-        xmllint(encode='utf-8'),
+    # the canonical form has no XML declaration; the encoding adds one
+    open_dest = wrap_open_dest(open_dest, (
+        [xmllint(encode='utf-8')] if not args.no_xml_decl else []
+    ) + [
         xmllint(c14n=True),
     ] if not args.no_validate_wellformed else [])
 
-- 
2.43.0


From cefb56b2c659fd4c359fe8440621961986f62b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 41/77] fix: models --events: print the selected records only

---
 src/hwp5/proc/models.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/models.py b/src/hwp5/proc/models.py
index 4d95626..a66f9e4 100644
--- a/src/hwp5/proc/models.py
+++ b/src/hwp5/proc/models.py
@@ -30,6 +30,7 @@ from ..cli import parse_recordstream_name
 from ..dataio import hexdump
 from ..storage import Open2Stream
 from ..treeop import ENDEVENT
+from ..treeop import STARTEVENT
 from ..utils import generate_json_array
 from ..utils import unicode_unescape
 
@@ -40,7 +41,7 @@ PY2 = sys.version_info.major == 2
 def main(args):
     stream = stream_from_args(args)
     if args.events:
-        for event, item in stream.parse_model_events():
+        for event, item in events_from_args(args, stream):
             type = item['type'].__name__
             if event is not None:
                 if item['type'] is RecordModel:
@@ -175,6 +176,23 @@ def stream_from_args(args):
         return ModelStream(Open2Stream(lambda: stdin_binary), version)
 
 
+def events_from_args(args, stream):
+
+    def is_selected(item):
+        if args.treegroup:
+            return item['treegroup'] == int(args.treegroup)
+        if args.seqno:
+            return item['record']['seqno'] == int(args.seqno)
+        return True
+
+    selected = False
+    for event, item in stream.parse_model_events():
+        if event is STARTEVENT and item['type'] is RecordModel:
+            selected = is_selected(item)
+        if selected:
+            yield event, item
+
+
 def models_from_args(args):
 
     if args.treegroup:
-- 
2.43.0


From 4fd1d0d48bed4cb0a7a8f0b591a60eac093ac5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 42/77] fix: xml: flat format

---
 src/hwp5/xmldump_flat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..88dab23 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,16 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
-- 
2.43.0


From f953aa26acf1a536f465bff4f7ed3870fbbeb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 43/77] fix: unescape format strings with non-ASCII characters

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index b14d941..10683e9 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -132,7 +132,7 @@ def unicode_unescape(s):
     :rtype:
         unicode
     '''
-    return s.encode('utf-8').decode('unicode_escape')
+    return s.encode('latin-1', 'backslashreplace').decode('unicode_escape')
 
 
 def transcode(backend_stream, backend_encoding, frontend_encoding,
-- 
2.43.0


From 2f1da45ab37a2b1edb3de94bd23c0b1fcd2d00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 44/77] fix: syntax highlighting of output written as bytes

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 10683e9..fec6bca 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -368,7 +368,7 @@ def syntaxhighlight_pygments(mimetype):
 def make_temp_file():
     fd, name = tempfile.mkstemp()
     with unlink_path(name):
-        with os.fdopen(fd, 'w+') as f:
+        with os.fdopen(fd, 'w+b') as f:
             yield f
 
 
-- 
2.43.0


From b9e2694ab81aa9f3d56a0557dc4596983d887503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 45/77] fix: models as valid JSON: numbers which are not finite

---
 src/hwp5/binmodel/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index 9ddf7d1..982a91f 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -423,6 +423,18 @@ class ModelJsonEncoder(json.JSONEncoder):
         return json.JSONEncoder.default(self, obj)
 
 
+def finite_numbers(value):
+    ''' JSON has no notation for NaN and infinities: null '''
+    if isinstance(value, dict):
+        return dict((k, finite_numbers(v)) for k, v in value.items())
+    if isinstance(value, (list, tuple)):
+        return [finite_numbers(v) for v in value]
+    if isinstance(value, float) and (value != value or
+                                     value in (float('inf'), -float('inf'))):
+        return None
+    return value
+
+
 def model_to_json(model, *args, **kwargs):
     ''' convert a model to json '''
     kwargs['cls'] = ModelJsonEncoder
@@ -434,7 +446,7 @@ def model_to_json(model, *args, **kwargs):
         model['unparsed'] = list(dumpbytes(model['unparsed']))
     if 'binevents' in model:
         del model['binevents']
-    return json.dumps(model, *args, **kwargs)
+    return json.dumps(finite_numbers(model), *args, **kwargs)
 
 
 def chain_iterables(iterables):
-- 
2.43.0


From 19f945298551784ffa54b00dc3b2568d2c42aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 46/77] fix: zlib_raw: incremental encoder after reset and with
 empty input

---
 src/hwp5/zlib_raw_codec.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..75c7e50 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -50,20 +50,17 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
     def __init__(self, errors='strict'):
         assert errors == 'strict'
         self.errors = errors
-        self.compressobj = zlib.compressobj()
-        self.initial = True
+        self.reset()
 
     def encode(self, input, final=False):
         c = self.compressobj.compress(input)
-        if self.initial:
-            c = c[2:]
-            self.initial = False
         if final:
-            c += self.compressobj.flush()[:-4]
+            c += self.compressobj.flush()
         return c
 
     def reset(self):
-        self.compressobj = zlib.compressobj()
+        self.compressobj = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
+                                            zlib.DEFLATED, _wbits)
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From b224eb76b5dc837353c23be02dd76b0165522903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 47/77] fix: transcoded streams: complete, whatever sizes are
 read

---
 src/hwp5/utils.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index fec6bca..36d407c 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -137,11 +137,16 @@ def unicode_unescape(s):
 
 def transcode(backend_stream, backend_encoding, frontend_encoding,
               errors='strict'):
-    enc = codecs.getencoder(frontend_encoding)
-    dec = codecs.getdecoder(frontend_encoding)
-    rd = codecs.getreader(backend_encoding)
-    wr = codecs.getwriter(backend_encoding)
-    return codecs.StreamRecoder(backend_stream, enc, dec, rd, wr, errors)
+    decoder = codecs.getincrementaldecoder(backend_encoding)(errors)
+    encoder = codecs.getincrementalencoder(frontend_encoding)(errors)
+
+    def transcoded():
+        while True:
+            data = backend_stream.read(4096)
+            if not data:
+                return
+            yield encoder.encode(decoder.decode(data))
+    return TranscodedReader(transcoded(), backend_stream)
 
 
 def transcoder(backend_encoding, frontend_encoding, errors='strict'):
@@ -185,6 +190,17 @@ class GeneratorReader(object):
         self.gen = self.buffer = None
 
 
+class TranscodedReader(GeneratorReader):
+
+    def __init__(self, gen, backend_stream):
+        GeneratorReader.__init__(self, gen)
+        self.backend_stream = backend_stream
+
+    def close(self):
+        GeneratorReader.close(self)
+        self.backend_stream.close()
+
+
 class GeneratorTextReader(object):
     ''' convert a string generator into file-like reader
 
-- 
2.43.0


From 82d4b312fb6372c4c01ce13628f764f067596ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:45 +0000
Subject: [PATCH 48/77] fix: zlib_raw: stream reader to the end, truncated
 streams

---
 src/hwp5/compressed.py     | 2 ++
 src/hwp5/zlib_raw_codec.py | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/compressed.py b/src/hwp5/compressed.py
index 033bfed..d96b7cb 100644
--- a/src/hwp5/compressed.py
+++ b/src/hwp5/compressed.py
@@ -37,6 +37,8 @@ class ZLibIncrementalDecoder(codecs.IncrementalDecoder):
         c = self.decompressobj.decompress(input)
         if final:
             c += self.decompressobj.flush()
+            if not getattr(self.decompressobj, 'eof', True):
+                raise zlib.error('incomplete or truncated stream')
         return c
 
     def reset(self):
diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 75c7e50..88061a8 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -75,7 +75,10 @@ class IncrementalDecoder(codecs.IncrementalDecoder):
                 d = self.decompressobj.decompress(input)
             else:
                 d = b''
-            return d + self.decompressobj.flush()
+            d += self.decompressobj.flush()
+            if not getattr(self.decompressobj, 'eof', True):
+                raise zlib.error('incomplete or truncated stream')
+            return d
         else:
             return self.decompressobj.decompress(input)
 
@@ -124,7 +127,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From 59d24eceb66f24df55737cd1affcbc4dd229f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 49/77] fix: embedded images: do not take time quadratic in
 their size

---
 src/hwp5/xmlmodel.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 4025c14..67b94fb 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -571,14 +571,7 @@ def embed_bindata(event_prefixed_mac, bindata):
                     bin_stream.close()
                 b64 = base64.b64encode(binary)
                 b64 = b64.decode('ascii')
-                truncated = []
-                while b64:
-                    if len(b64) > 64:
-                        truncated.append(b64[:64])
-                        b64 = b64[64:]
-                    else:
-                        truncated.append(b64)
-                        b64 = ''
+                truncated = [b64[i:i + 64] for i in range(0, len(b64), 64)]
                 b64 = '\n'.join(truncated)
                 b64 = '\n' + b64 + '\n'
                 attributes['bindata']['<text>'] = b64
-- 
2.43.0


From 04571d7126e9e8b8bbd2ea10048e45cedff7d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 50/77] fix: lxml: convert documents with deeply nested tables,
 large images

---
 src/hwp5/plat/_lxml.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/_lxml.py b/src/hwp5/plat/_lxml.py
index 8ef12dc..c809e2e 100644
--- a/src/hwp5/plat/_lxml.py
+++ b/src/hwp5/plat/_lxml.py
@@ -45,6 +45,15 @@ def is_enabled():
         return True
 
 
+def huge_parser():
+    ''' Create a parser for documents with deeply nested tables, large images
+
+    :returns: a parser without limits on depths and text lengths
+    '''
+    from lxml import etree
+    return etree.XMLParser(huge_tree=True)
+
+
 def xslt(xsl_path, inp_path, out_path):
     ''' Transform XML with XSL
 
@@ -98,7 +107,7 @@ class XSLT:
         # input, output: binary stream
 
         from lxml import etree
-        source = etree.parse(input)
+        source = etree.parse(input, huge_parser())
         logger.info('_lxml.xslt(%s) start',
                     os.path.basename(self.xsl_path))
         result = self.etree_xslt(source, **self.params)
@@ -155,12 +164,12 @@ class RelaxNG:
     def validate(self, input):
         from lxml import etree
         with io.open(input, 'rb') as f:
-            doc = etree.parse(f)
+            doc = etree.parse(f, huge_parser())
         return self._validate(doc)
 
     def validate_stream(self, input):
         from lxml import etree
-        doc = etree.parse(input)
+        doc = etree.parse(input, huge_parser())
         return self._validate(doc)
 
     def _validate(self, doc):
-- 
2.43.0


From 66c5d2b99c9bf4b2cd0317819a04292d7e06471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 51/77] fix: xmllint: format documents with deeply nested
 tables, large images

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 36d407c..569c2d6 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -341,7 +341,7 @@ def output_thru_subprocess(cmd, check=False):
 
 
 def xmllint(c14n=False, encode=None, format=False, nonet=True):
-    cmd = ['xmllint']
+    cmd = ['xmllint', '--huge']
     if c14n:
         cmd.append('--c14n')
     if encode:
-- 
2.43.0


From c53cf908351f2d1af8dcea13f6fafcb4b172300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 52/77] fix: xmllint: validate output the same as the other
 implementation

---
 src/hwp5/plat/xmllint.py | 42 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 2ef1e09..bbd20d8 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -22,8 +22,12 @@ from __future__ import unicode_literals
 from contextlib import contextmanager
 from subprocess import CalledProcessError
 import logging
+import os
+import shutil
 import subprocess
+import tempfile
 
+from ..errors import ValidationFailed
 
 logger = logging.getLogger(__name__)
 
@@ -64,11 +68,7 @@ def disable():
 
 
 def relaxng(rng_path, inp_path):
-    from subprocess import Popen
-    args = [executable, '--noout', '--relaxng', rng_path, inp_path]
-    p = Popen(args)
-    p.wait()
-    return p.returncode == 0
+    return RelaxNG(rng_path).validate(inp_path)
 
 
 def relaxng_compile(rng_path):
@@ -82,16 +82,24 @@ class RelaxNG:
 
     @contextmanager
     def validating_output(self, output):
-        args = [executable, '--relaxng', self.rng_path, '-']
-        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=output)
+        fd, name = tempfile.mkstemp()
         try:
-            yield p.stdin
-        except:
-            p.stdin.close()
-            p.wait()
-            raise
-        else:
-            p.stdin.close()
-            p.wait()
-            if p.returncode != 0:
-                raise Exception('RelaxNG validation failed')
+            with os.fdopen(fd, 'wb+') as f:
+                yield f
+                f.flush()
+                if not self.validate(name):
+                    raise ValidationFailed('RelaxNG')
+                f.seek(0)
+                shutil.copyfileobj(f, output)
+        finally:
+            try:
+                os.unlink(name)
+            except Exception as e:
+                logger.warning('%s: can\'t unlink %s', e, name)
+
+    def validate(self, input):
+        args = [executable, '--huge', '--noout',
+                '--relaxng', self.rng_path, input]
+        p = subprocess.Popen(args)
+        p.wait()
+        return p.returncode == 0
-- 
2.43.0


From 907ac3725f84fb14a780657edeab94f1dcbe13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 53/77] fix: xsltproc: transform into streams of any kind

---
 src/hwp5/plat/xsltproc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index d7bedaf..e3fad47 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from subprocess import CalledProcessError
 from subprocess import Popen
 import logging
+import shutil
 import subprocess
 
 from ..errors import TransformationFailed
@@ -96,8 +97,12 @@ class XSLT:
         '''
         cmd = self.cmd + [self.xsl_path, input]
         logger.info('%r', cmd)
-        p = Popen(cmd, stdout=output)
-        p.wait()
+        p = Popen(cmd, stdout=subprocess.PIPE)
+        try:
+            shutil.copyfileobj(p.stdout, output)
+        finally:
+            p.stdout.close()
+            p.wait()
         if p.returncode != 0:
             raise TransformationFailed('xsltproc', p.returncode)
         return dict()
-- 
2.43.0


From 829a1ec506c22898164ab27c45be8e1155066300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 54/77] fix: xsltproc: transform documents with deeply nested
 tables, large images

---
 src/hwp5/plat/xsltproc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index e3fad47..55e6b7a 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -66,6 +66,13 @@ def disable():
     enabled = False
 
 
+def huge_option_supported():
+    p = Popen([executable, '--help'], stdout=subprocess.PIPE,
+              stderr=subprocess.STDOUT)
+    usage = p.communicate()[0]
+    return b'--huge' in usage
+
+
 def xslt(xsl_path, inp_path, out_path):
     xslt = XSLT(xsl_path)
     return xslt.transform(inp_path, out_path)
@@ -76,6 +83,9 @@ class XSLT:
     def __init__(self, xsl_path, **params):
         self.xsl_path = xsl_path
         self.cmd = [executable]
+        if huge_option_supported():
+            # deeply nested tables, large images
+            self.cmd.append('--huge')
         for name, value in params.items():
             self.cmd.extend(['--stringparam', name, value])
 
-- 
2.43.0


From bdbed29544473bb47739922a6f3f0ac3ef80bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 55/77] fix: gir_gsf: list names, read to the end with a
 negative size

---
 src/hwp5/plat/gir_gsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..524cc6d 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
@@ -117,7 +117,7 @@ class OleStream:
     def read(self, size=None):
         pos = self.gsfole.tell()
         totalsize = self.gsfole.size
-        if size is not None:
+        if size is not None and size >= 0:
             if pos + size > totalsize:
                 size = totalsize - pos
         else:
-- 
2.43.0


From eb882ec9e97b8fc7586acdbff21c043b9e43c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 56/77] fix: xsltproc: write empty output into files

---
 src/hwp5/plat/xsltproc.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 55e6b7a..a10d675 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -21,6 +21,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from subprocess import CalledProcessError
 from subprocess import Popen
+import io
 import logging
 import shutil
 import subprocess
@@ -93,13 +94,9 @@ class XSLT:
         '''
         >>> T.transform('input.xml', 'output.xml')
         '''
-        cmd = self.cmd + ['-o', output, self.xsl_path, input]
-        logger.info('%r', cmd)
-        p = Popen(cmd)
-        p.wait()
-        if p.returncode != 0:
-            raise TransformationFailed('xsltproc', p.returncode)
-        return dict()
+        # xsltproc -o does not write the output if it is empty
+        with io.open(output, 'wb') as f:
+            return self.transform_into_stream(input, f)
 
     def transform_into_stream(self, input, output):
         '''
-- 
2.43.0


From 5318174aabeda7be75d3b0bb77de69b115cd099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:43 +0000
Subject: [PATCH 57/77] fix: models_treegrouped: report errors with the tree
 they are in

The groups shared one parsing context, so a group which is read after the
next one has been requested reported the number of the latter.
---
 src/hwp5/binmodel/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index 982a91f..30a6e29 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -478,8 +478,8 @@ class ModelStream(recordstream.RecordStream):
         '''
         kwargs.setdefault('version', self.version)
         for group_idx, records in enumerate(self.records_treegrouped()):
-            kwargs['treegroup'] = group_idx
-            yield parse_models(kwargs, records)
+            context = dict(kwargs, treegroup=group_idx)
+            yield parse_models(context, records)
 
     def model(self, idx):
         return nth(self.models(), idx)
-- 
2.43.0


From 6d4d54d8b6f4c0ec4f5af583397bf555f86ea28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:58 +0000
Subject: [PATCH 58/77] fix: decompress_gen: read sources which give less than
 they are asked for

---
 src/hwp5/compressed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/compressed.py b/src/hwp5/compressed.py
index d96b7cb..62b0834 100644
--- a/src/hwp5/compressed.py
+++ b/src/hwp5/compressed.py
@@ -50,7 +50,7 @@ def decompress_gen(source, bufsize=4096):
     exausted = False
     while not exausted:
         input = source.read(bufsize)
-        if len(input) < bufsize:
+        if len(input) == 0:
             exausted = True
         yield dec.decode(input, exausted)
 
-- 
2.43.0


From 4cf44ea3303357e78fc9c379a1faf07c41eb71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:25 +0000
Subject: [PATCH 59/77] fix: draw long-dash borders in HTML

The style sheet declared the border style 'dahsed', which browsers drop.
---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index c8943ad..e256f2b 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -441,7 +441,7 @@
             <xsl:when test="@stroke-type = 'dotted'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'dash-dot-dot'">dashed</xsl:when>
-            <xsl:when test="@stroke-type = 'long-dash'">dahsed</xsl:when>
+            <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
             <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
             <xsl:when test="@stroke-type = 'double'">double</xsl:when>
             <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
-- 
2.43.0


From a264217a96917b24623eac07c630a1944aa1097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:25 +0000
Subject: [PATCH 60/77] fix: do not let HTML runs inherit the emphasis of their
 style

A run whose character shape is not italic, bold or underlined was shown
so, if the character shape of its paragraph's style was.
---
 src/hwp5/xsl/hwp5css-common.xsl | 59 ++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index e256f2b..edb72ec 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -280,25 +280,54 @@
         </xsl:call-template>
     </xsl:template>
 
+    <!-- runs which differ from the style of their paragraph must not
+         inherit what the style emphasizes -->
+    <xsl:variable name="style-charshapes">
+        <xsl:for-each select="//Style">
+            <xsl:variable name="charshape_pos" select="number(@charshape-id) + 1" />
+            <xsl:for-each select="//CharShape[$charshape_pos]">
+                <xsl:if test="@italic = 1"> italic</xsl:if>
+                <xsl:if test="@bold = 1"> bold</xsl:if>
+                <xsl:if test="@underline != 'none'"> line</xsl:if>
+            </xsl:for-each>
+        </xsl:for-each>
+    </xsl:variable>
+
     <xsl:template match="CharShape" mode="css-declaration">
         <xsl:call-template name="css-declaration">
             <xsl:with-param name="property">color</xsl:with-param>
             <xsl:with-param name="value"><xsl:value-of select="@text-color" /></xsl:with-param>
         </xsl:call-template>
 
-        <xsl:if test="@italic = 1">
-            <xsl:call-template name="css-declaration">
-                <xsl:with-param name="property">font-style</xsl:with-param>
-                <xsl:with-param name="value">italic</xsl:with-param>
-            </xsl:call-template>
-        </xsl:if>
+        <xsl:choose>
+            <xsl:when test="@italic = 1">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-style</xsl:with-param>
+                    <xsl:with-param name="value">italic</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+            <xsl:when test="contains($style-charshapes, 'italic')">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-style</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+        </xsl:choose>
 
-        <xsl:if test="@bold = 1">
-            <xsl:call-template name="css-declaration">
-                <xsl:with-param name="property">font-weight</xsl:with-param>
-                <xsl:with-param name="value">bold</xsl:with-param>
-            </xsl:call-template>
-        </xsl:if>
+        <xsl:choose>
+            <xsl:when test="@bold = 1">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-weight</xsl:with-param>
+                    <xsl:with-param name="value">bold</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+            <xsl:when test="contains($style-charshapes, 'bold')">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">font-weight</xsl:with-param>
+                    <xsl:with-param name="value">normal</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
+        </xsl:choose>
 
         <xsl:apply-templates select="." mode="text-decoration" />
     </xsl:template>
@@ -909,6 +938,12 @@
                 <xsl:apply-templates select="." mode="text-decoration-color" />
                 <xsl:apply-templates select="." mode="text-decoration-style" />
             </xsl:when>
+            <xsl:when test="contains($style-charshapes, 'line')">
+                <xsl:call-template name="css-declaration">
+                    <xsl:with-param name="property">text-decoration</xsl:with-param>
+                    <xsl:with-param name="value">none</xsl:with-param>
+                </xsl:call-template>
+            </xsl:when>
         </xsl:choose>
     </xsl:template>
 
-- 
2.43.0


From 9f888daff24cc82b1a39cb2faa5ab2b17a9660ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:25 +0000
Subject: [PATCH 61/77] fix: no bullets for paragraphs with other heads in HTML

numbering-bullet-id refers to a bullet only if the head of the paragraph
is one.
---
 src/hwp5/xsl/hwp5css-common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index edb72ec..d4cc5e1 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -205,7 +205,7 @@
         <xsl:variable name="parashape_pos" select="number(@parashape-id) + 1" />
         <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
         <xsl:variable name="bullet_id" select="$parashape/@numbering-bullet-id" />
-        <xsl:if test="$bullet_id &gt; 0">
+        <xsl:if test="$parashape/@head-shape = 'bullet' and $bullet_id &gt; 0">
             <xsl:text> </xsl:text>
             <xsl:text>Bullet-</xsl:text>
             <xsl:value-of select="$parashape/@numbering-bullet-id" />
-- 
2.43.0


From 0c6f72934703afa70b7678a8f828fe5f93105aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 62/77] fix: style classes of HTML whose names are no class
 names

Styles with an empty name, or one with punctuation, a leading digit or
that of another style, were given selectors which match nothing or the
wrong paragraphs.
---
 src/hwp5/xsl/hwp5css-common.xsl | 21 ++++++++++++++++++++-
 src/hwp5/xsl/hwp5html.xsl       |  6 +-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/hwp5css-common.xsl b/src/hwp5/xsl/hwp5css-common.xsl
index d4cc5e1..f69df28 100644
--- a/src/hwp5/xsl/hwp5css-common.xsl
+++ b/src/hwp5/xsl/hwp5css-common.xsl
@@ -24,7 +24,7 @@
     <xsl:template match="Style" mode="css-rule">
         <xsl:variable name="paragraph-selector">
             <xsl:text>.</xsl:text>
-            <xsl:value-of select="translate(@name, ' ', '-')"/>
+            <xsl:apply-templates select="." mode="class-name" />
         </xsl:variable>
         <xsl:variable name="spans-selector">
             <xsl:value-of select="$paragraph-selector" />
@@ -65,6 +65,25 @@
         </xsl:for-each>
     </xsl:template>
 
+    <!-- the name of the style, if it is fit for a class selector and no other
+         style has it -->
+    <xsl:template match="Style" mode="class-name">
+        <xsl:variable name="name" select="translate(@name, ' ', '-')" />
+        <xsl:variable name="unfit">!&quot;#$%&amp;&apos;()*+,./:;&lt;=&gt;?@[\]^`{|}~&#9;&#10;&#13;</xsl:variable>
+        <xsl:choose>
+            <xsl:when test="$name = ''
+                or contains('-0123456789', substring($name, 1, 1))
+                or translate($name, $unfit, '') != $name
+                or preceding-sibling::Style[translate(@name, ' ', '-') = $name]">
+                <xsl:text>style-</xsl:text>
+                <xsl:value-of select="count(preceding-sibling::Style)" />
+            </xsl:when>
+            <xsl:otherwise>
+                <xsl:value-of select="$name" />
+            </xsl:otherwise>
+        </xsl:choose>
+    </xsl:template>
+
     <xsl:template match="ParaShape" mode="css-rule">
         <xsl:variable name="paragraph-selector">
             <xsl:text>p.parashape-</xsl:text>
diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 2b3e82f..5de3ebc 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -108,12 +108,10 @@
     <xsl:element name="p">
       <xsl:variable name="styleid" select="@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
-      <xsl:variable name="stylename" select="$style/@name" />
-      <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
       <xsl:variable name="parashape_pos" select="number(@parashape-id) + 1" />
       <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
       <xsl:attribute name="class">
-        <xsl:value-of select="$stylencname" />
+        <xsl:apply-templates select="$style" mode="class-name" />
         <xsl:choose>
           <xsl:when test="$style/@parashape-id = @parashape-id">
             <xsl:apply-templates select="$style" mode="add-class-bullet" />
@@ -149,8 +147,6 @@
     <xsl:element name="span">
       <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
-      <xsl:variable name="stylename" select="$style/@name" />
-      <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
       <xsl:attribute name="class">
         <xsl:text>lang-</xsl:text>
         <xsl:value-of select="@lang" />
-- 
2.43.0


From 92b1bc835b14759e8b37ad94ab42f43687ffa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 63/77] fix: fonts of latin text in ODT

FontFace/@en counts from the first font of latin text, not from the first
font of all.
---
 src/hwp5/xsl/odt/common.xsl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index b7e6008..2c54e3a 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -543,7 +543,8 @@
   </xsl:template>
 
   <xsl:template mode="style:font-name" match="FontFace">
-    <xsl:variable name="facename-en-id" select="@en + 1"/>
+    <!-- fonts of latin text follow those of korean text -->
+    <xsl:variable name="facename-en-id" select="/HwpDoc/DocInfo/IdMappings/@ko-fonts + @en + 1"/>
     <xsl:apply-templates mode="style:font-name" select="//FaceName[$facename-en-id]" />
   </xsl:template>
 
-- 
2.43.0


From 84bab8da873c53e62d157b9a59b26b42f90bc356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 64/77] fix: do not let ODT text inherit the emphasis of its
 paragraph's style

Text whose character shape is not italic or bold was shown so, if the
character shape of its paragraph's style was.
---
 src/hwp5/xsl/odt/common.xsl | 78 ++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2c54e3a..76b4db3 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -515,6 +515,18 @@
     </xsl:choose>
   </xsl:template>
 
+  <!-- runs which differ from the style of their paragraph must not inherit
+       what the style emphasizes -->
+  <xsl:variable name="emphasis-of-styles">
+    <xsl:for-each select="/HwpDoc/DocInfo/IdMappings/Style">
+      <xsl:variable name="charshape-pos" select="@charshape-id + 1" />
+      <xsl:for-each select="../CharShape[$charshape-pos]">
+        <xsl:if test="@italic = 1"> italic</xsl:if>
+        <xsl:if test="@bold = 1"> bold</xsl:if>
+      </xsl:for-each>
+    </xsl:for-each>
+  </xsl:variable>
+
   <xsl:template mode="style:text-properties" match="CharShape">
     <xsl:element name="style:text-properties">
 
@@ -586,39 +598,69 @@
   </xsl:template>
 
   <xsl:template mode="fo:font-style" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="fo:font-style">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="fo:font-style">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="contains($emphasis-of-styles, 'italic')">
+        <xsl:attribute name="fo:font-style">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-style-asian" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="style:font-style-asian">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="style:font-style-asian">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="contains($emphasis-of-styles, 'italic')">
+        <xsl:attribute name="style:font-style-asian">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-style-complex" match="CharShape">
-    <xsl:if test="@italic = 1">
-      <xsl:attribute name="style:font-style-complex">italic</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@italic = 1">
+        <xsl:attribute name="style:font-style-complex">italic</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="contains($emphasis-of-styles, 'italic')">
+        <xsl:attribute name="style:font-style-complex">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="fo:font-weight" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="fo:font-weight">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="fo:font-weight">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="contains($emphasis-of-styles, 'bold')">
+        <xsl:attribute name="fo:font-weight">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-weight-asian" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="style:font-weight-asian">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="style:font-weight-asian">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="contains($emphasis-of-styles, 'bold')">
+        <xsl:attribute name="style:font-weight-asian">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:font-weight-complex" match="CharShape">
-    <xsl:if test="@bold = 1">
-      <xsl:attribute name="style:font-weight-complex">bold</xsl:attribute>
-    </xsl:if>
+    <xsl:choose>
+      <xsl:when test="@bold = 1">
+        <xsl:attribute name="style:font-weight-complex">bold</xsl:attribute>
+      </xsl:when>
+      <xsl:when test="contains($emphasis-of-styles, 'bold')">
+        <xsl:attribute name="style:font-weight-complex">normal</xsl:attribute>
+      </xsl:when>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:text-xxxline-style-value" match="CharShape">
-- 
2.43.0


From 2bc65ebefa29a669d2b8e55dd1b1e5dff9758306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 65/77] fix: ODT sections whose first paragraph has the shape
 of its style

Without an automatic style there was no master page, and with it no size
or margins of the section's pages.
---
 src/hwp5/xsl/odt/common.xsl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 76b4db3..a0da765 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -813,7 +813,7 @@
     <xsl:variable name="style-parashape-id" select="$style/@parashape-id + 1"/>
     <xsl:variable name="parashape-id" select="@parashape-id + 1"/>
     <xsl:variable name="parashape" select="//ParaShape[$parashape-id]"/>
-    <xsl:if test="$style-parashape-id != $parashape-id or @new-page = '1'">
+    <xsl:if test="$style-parashape-id != $parashape-id or @new-page = '1' or @new-section = '1'">
       <xsl:element name="style:style">
         <xsl:attribute name="style:family">paragraph</xsl:attribute>
         <xsl:attribute name="style:class">text</xsl:attribute>
@@ -930,7 +930,7 @@
         <xsl:variable name="parashapes" select="/HwpDoc/DocInfo/IdMappings/ParaShape" />
         <xsl:variable name="parashape" select="$parashapes[number($parashape-id)]"/>
         <xsl:choose>
-          <xsl:when test="$style-parashape-id != $parashape-id or @new-page='1'">
+          <xsl:when test="$style-parashape-id != $parashape-id or @new-page='1' or @new-section='1'">
             <xsl:attribute name="text:style-name">Paragraph-<xsl:value-of select="@paragraph-id + 1"/></xsl:attribute>
           </xsl:when>
           <xsl:otherwise>
-- 
2.43.0


From 848ba1365a565d357430343e5867f6f164271bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 66/77] fix: master pages of ODT sections without column
 definitions

The section of a paragraph was looked for two levels above it, which is
the body if there is no ColumnSet in between.
---
 src/hwp5/xsl/odt/common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index a0da765..07838df 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -823,7 +823,7 @@
         </xsl:attribute>
         <xsl:apply-templates mode="style:parent-style-name" select="$style" />
         <xsl:if test="@new-section = '1'">
-          <xsl:apply-templates mode="style:master-page-name" select="../.." />
+          <xsl:apply-templates mode="style:master-page-name" select="parent::SectionDef|parent::ColumnSet/parent::SectionDef" />
         </xsl:if>
 	<xsl:apply-templates mode="style:paragraph-properties" select="." />
       </xsl:element>
-- 
2.43.0


From 6ac521ef89e686320f587ce7ba6d0abe85dc093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 67/77] fix: lines of ODT cell borders which OpenDocument lacks

Borders with unknown line styles are not shown at all.
---
 src/hwp5/xsl/odt/common.xsl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 07838df..06b579e 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1189,7 +1189,18 @@
   </xsl:template>
 
   <xsl:template mode="fo-border-style-value" match="Border">
-    <xsl:value-of select="@stroke-type" />
+    <xsl:choose>
+      <xsl:when test="@stroke-type = 'long-dash'">dashed</xsl:when>
+      <xsl:when test="@stroke-type = 'large-dot'">dotted</xsl:when>
+      <xsl:when test="@stroke-type = 'double-2'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'double-3'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'triple'">double</xsl:when>
+      <xsl:when test="@stroke-type = 'wave'">solid</xsl:when>
+      <xsl:when test="@stroke-type = 'double-wave'">double</xsl:when>
+      <xsl:otherwise>
+        <xsl:value-of select="@stroke-type" />
+      </xsl:otherwise>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:style" match="TableControl">
-- 
2.43.0


From 1d07802c74728bf907cbab314c0a683912ff1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 68/77] fix: ODT style names which are no names or not distinct

Styles with names which are empty, start with a digit or have symbols made
the output invalid, so that the conversion was refused; two styles with
the same name became one.
---
 src/hwp5/xsl/odt/common.xsl | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 06b579e..e48a75d 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -211,10 +211,26 @@
     </xsl:element>
   </xsl:template>
 
+  <!-- names of styles must be valid and distinct, also from those in
+       office:styles -->
   <xsl:template mode="make-style-name" match="Style">
-    <xsl:call-template name="make-ncname">
-      <xsl:with-param name="str" select="@local-name" />
-    </xsl:call-template>
+    <xsl:variable name="name">
+      <xsl:call-template name="make-ncname">
+        <xsl:with-param name="str" select="@local-name" />
+      </xsl:call-template>
+    </xsl:variable>
+    <xsl:choose>
+      <xsl:when test="$name = ''
+          or contains('-.0123456789·', substring($name, 1, 1))
+          or contains('|Standard|Heading|List|Caption|Index|', concat('|', $name, '|'))
+          or preceding-sibling::Style[translate(@local-name, $ncname-prohibited, $ncname-replace) = $name]">
+        <xsl:text>Style-</xsl:text>
+        <xsl:value-of select="count(preceding-sibling::Style) + 1" />
+      </xsl:when>
+      <xsl:otherwise>
+        <xsl:value-of select="$name" />
+      </xsl:otherwise>
+    </xsl:choose>
   </xsl:template>
 
   <xsl:template mode="style:style" match="Style">
@@ -240,15 +256,17 @@
     </xsl:element>
   </xsl:template>
 
+  <!-- the last ones, symbols of KS X 1001, are left out -->
+  <xsl:variable name="ncname-prohibited"> !&quot;#$%&amp;&apos;()*+,/:;&lt;=&gt;?@[\]^`{|}~&#9;&#10;&#13;　‥…¨­―∥∼‘’“”±×÷≠≤≥∞∴°′″♂♀∠⊥⌒∂∇≡≒§※☆★○●◎◇◆□■△▲▽▼→←↑↓↔≪≫√∽∝∵∫∬∈∋⊆⊇⊂⊃∪∩∧∨⇒⇔∀∃´¸¡¿∮∑∏¤‰◁◀▷▶♤♠♡♥♧♣⊙◈▣◐◑▒▤▥▨▧▦▩♨☏☎☜☞¶†‡↕↗↙↖↘♭♩♪♬®─│┌┐┘└├┬┤┴┼━┃┏┓┛┗┣┳┫┻╋┠┯┨┷┿┝┰┥┸╂┒┑┚┙┖┕┎┍┞┟┡┢┦┧┩┪┭┮┱┲┵┶┹┺┽┾╀╁╃╄╅╆╇╈╉╊ªºⓐⓑⓒⓓⓔⓕⓖⓗⓘⓙⓚⓛⓜⓝⓞⓟⓠⓡⓢⓣⓤⓥⓦⓧⓨⓩ①②③④⑤⑥⑦⑧⑨⑩⑪⑫⑬⑭⑮½¼¾⒜⒝⒞⒟⒠⒡⒢⒣⒤⒥⒦⒧⒨⒩⒪⒫⒬⒭⒮⒯⒰⒱⒲⒳⒴⒵⑴⑵⑶⑷⑸⑹⑺⑻⑼⑽⑾⑿⒀⒁⒂¹²³</xsl:variable>
+  <xsl:variable name="ncname-replace">_________________________________</xsl:variable>
+
   <xsl:template name="make-ncname">
     <!-- see #140 -->
     <!-- see http://www.w3.org/TR/REC-xml-names/#NT-NCName -->
     <!-- see http://www.w3.org/TR/REC-xml/#NT-Name -->
     <!-- see http://stackoverflow.com/questions/1631396/what-is-an-xsncname-type-and-when-should-it-be-used -->
     <xsl:param name="str" />
-    <xsl:variable name="prohibited"> !&quot;#$%&amp;&apos;()*+,/:;&lt;=&gt;?@[\]^`{|}~</xsl:variable>
-    <xsl:variable name="replace">______________________________</xsl:variable>
-    <xsl:value-of select="translate($str, $prohibited, $replace)" />
+    <xsl:value-of select="translate($str, $ncname-prohibited, $ncname-replace)" />
   </xsl:template>
 
   <xsl:template mode="style:page-layout" match="SectionDef">
-- 
2.43.0


From 7efef567b976766fbbb479d431541a01897bbb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:23 +0000
Subject: [PATCH 69/77] fix: keep table rows without cells of their own

A row all of whose cells are covered by merged cells of the rows above it
was dropped from the document XML, so that the merged cells of the HTML and
OpenDocument tables covered wrong rows.
---
 src/hwp5/xmlmodel.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 67b94fb..cfce5d5 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -484,6 +484,7 @@ class TableRow:
 
 ROW_OPEN = 1
 ROW_CLOSE = 2
+ROW_EMPTY = 4
 
 
 def restructure_tablebody(event_prefixed_mac):
@@ -508,7 +509,7 @@ def rstbody_tablebody(event, stack, item, attributes, context):
         for cols in attributes.pop('rowcols'):
             if cols == 0:
                 # every cell of the row is covered by cells in the other rows
-                continue
+                rowcols.append(ROW_EMPTY)
             elif cols == 1:
                 rowcols.append(ROW_OPEN | ROW_CLOSE)
             else:
@@ -519,14 +520,26 @@ def rstbody_tablebody(event, stack, item, attributes, context):
         stack.append((context, rowcols))
         yield event, item
     else:
+        for x in rstbody_empty_rows(*stack[-1]):
+            yield x
         yield event, item
         stack.pop()
 
 
+def rstbody_empty_rows(table_context, rowcols):
+    while rowcols and rowcols[0] == ROW_EMPTY:
+        rowcols.popleft()
+        row = (TableRow, dict(), dict(table_context))
+        yield STARTEVENT, row
+        yield ENDEVENT, row
+
+
 def rstbody_tablecell(event, stack, item):
     table_context, rowcols = stack[-1]
     row_context = dict(table_context)
     if event is STARTEVENT:
+        for x in rstbody_empty_rows(table_context, rowcols):
+            yield x
         how = rowcols[0]
         if how & ROW_OPEN:
             yield STARTEVENT, (TableRow, dict(), row_context)
-- 
2.43.0


From e8128f32ba0d779cdf945cf40b78eb6b8bc19c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 70/77] fix: hwp5view: work on Python 3

urllib has no pathname2url on Python 3, and GLib wants the page as text.
---
 src/hwp5/hwp5view.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/hwp5view.py b/src/hwp5/hwp5view.py
index 9458dfa..a569306 100644
--- a/src/hwp5/hwp5view.py
+++ b/src/hwp5/hwp5view.py
@@ -44,7 +44,6 @@ import logging
 import os.path
 import shutil
 import sys
-import urllib
 
 from . import __version__ as version
 from .cli import init_logger
@@ -53,6 +52,10 @@ from .hwp5html import HTMLTransform
 
 
 PY3 = sys.version_info.major == 3
+if PY3:
+    from urllib.request import pathname2url
+else:
+    from urllib import pathname2url
 logger = logging.getLogger(__name__)
 locale_dir = os.path.join(os.path.dirname(__file__), 'locale')
 locale_dir = os.path.abspath(locale_dir)
@@ -127,7 +130,7 @@ def runner_factory_gi():
         base_uri = fspath2url(out_dir) + '/'
         # index_uri = fspath2url(index_path)
         with io.open(index_path, 'rb') as f:
-            content = f.read()
+            content = f.read().decode('utf-8')
 
         view = WebKit.WebView()
         # view.load_uri(index_uri)
@@ -233,4 +236,4 @@ def hwp5html(filename, out_dir):
 
 def fspath2url(path):
     path = os.path.abspath(path)
-    return 'file://' + urllib.pathname2url(path)
+    return 'file://' + pathname2url(path)
-- 
2.43.0


From e28badb10432b16b76516e3c67b96f12bb8a7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 71/77] fix: _uno: streams can be read on Python 3, and to
 their end with read(-1)

---
 src/hwp5/plat/_uno/adapters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/plat/_uno/adapters.py b/src/hwp5/plat/_uno/adapters.py
index 9c78ff9..b30e9b7 100644
--- a/src/hwp5/plat/_uno/adapters.py
+++ b/src/hwp5/plat/_uno/adapters.py
@@ -99,15 +99,15 @@ class FileFromStream(object):
 
         if hasattr(stream, 'readBytes'):
             def read(size=None):
-                if size is None:
-                    data = ''
+                if size is None or size < 0:
+                    data = b''
                     while True:
-                        bytes = uno.ByteSequence('')
+                        bytes = uno.ByteSequence(b'')
                         n_read, bytes = stream.readBytes(bytes, 4096)
                         if n_read == 0:
                             return data
                         data += bytes.value
-                bytes = uno.ByteSequence('')
+                bytes = uno.ByteSequence(b'')
                 n_read, bytes = stream.readBytes(bytes, size)
                 return bytes.value
             self.read = read
-- 
2.43.0


From 8975b64a17941dac86ee777ef88b613f3ac44d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 72/77] fix: _uno: report failed transformations

---
 src/hwp5/plat/_uno/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hwp5/plat/_uno/__init__.py b/src/hwp5/plat/_uno/__init__.py
index 050a213..7843753 100644
--- a/src/hwp5/plat/_uno/__init__.py
+++ b/src/hwp5/plat/_uno/__init__.py
@@ -25,6 +25,7 @@ import os.path
 import sys
 
 from ...errors import InvalidOleStorageError
+from ...errors import TransformationFailed
 
 
 PY3 = sys.version_info.major == 3
@@ -126,6 +127,7 @@ class XSLT(object):
             class XSLTListener(unohelper.Base, XStreamListener):
                 def __init__(self):
                     self.event = OneshotEvent()
+                    self.failure = None
 
                 def started(self):
                     logger.info('XSLT started')
@@ -136,10 +138,12 @@ class XSLT(object):
 
                 def terminated(self):
                     logger.info('XSLT terminated')
+                    self.failure = 'terminated'
                     self.event.signal()
 
                 def error(self, exception):
                     logger.error('XSLT error: %s', exception)
+                    self.failure = exception
                     self.event.signal()
 
                 def disposing(self, source):
@@ -161,6 +165,8 @@ class XSLT(object):
                 logger.info('xslt.soffice(%s) end', xsl_name)
 
             transformer.removeListener(listener)
+            if listener.failure is not None:
+                raise TransformationFailed('uno', listener.failure)
             return dict()
 
 
-- 
2.43.0


From 7437584ed20ad3eef13b9d42fa46823679c13c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 73/77] fix: jython_poifs: seek backwards and from the end,
 read(-1)

---
 src/hwp5/plat/jython_poifs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/plat/jython_poifs.py b/src/hwp5/plat/jython_poifs.py
index a85e374..833d695 100644
--- a/src/hwp5/plat/jython_poifs.py
+++ b/src/hwp5/plat/jython_poifs.py
@@ -110,7 +110,7 @@ class FileFromDocumentInputStream(object):
         import jarray
         dis = self.dis
         available = dis.available()
-        if size is None:
+        if size is None or size < 0:
             size = available
         elif size > available:
             size = available
@@ -124,15 +124,16 @@ class FileFromDocumentInputStream(object):
     def seek(self, offset, whence=0):
         dis = self.dis
         if whence == 0:
-            dis.reset()
-            dis.skip(offset)
+            pass
         elif whence == 1:
-            dis.skip(offset)
+            offset += self.tell()
         elif whence == 2:
-            dis.reset()
-            dis.skip(self.size - offset)
+            offset += self.size
         else:
             raise ValueError('invalid whence: %s', whence)
+        # skip() goes forward only
+        dis.reset()
+        dis.skip(offset)
 
     def tell(self):
         return self.size - self.dis.available()
-- 
2.43.0


From 348f8fc1c32f721732acbf3903eed04da92a5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:51 +0000
Subject: [PATCH 74/77] fix: office extension: work with the current converter
 and on Python 3

It used hwp5.hwp5odt.Converter, which is no longer there, and constructs
which Python 3 has not; failed transformations went unnoticed.
---
 pyhwp_uno/hwp5_uno/__init__.py | 73 +++++++++++++++++++---------------
 unokit/unokit/adapters.py      |  8 ++--
 unokit/unokit/util.py          | 27 +++++++------
 3 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/pyhwp_uno/hwp5_uno/__init__.py b/pyhwp_uno/hwp5_uno/__init__.py
index d1c2ce9..e72ac9c 100644
--- a/pyhwp_uno/hwp5_uno/__init__.py
+++ b/pyhwp_uno/hwp5_uno/__init__.py
@@ -17,6 +17,9 @@
 #   along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
 
+import io
+import os
+
 import uno
 import unohelper
 from unokit.services import css
@@ -97,7 +100,6 @@ def haveXSLTTransformer():
 class OneshotEvent(object):
 
     def __init__(self):
-        import os
         pin, pout = os.pipe()
         self.pin = os.fdopen(pin, 'r')
         self.pout = os.fdopen(pout, 'w')
@@ -113,6 +115,7 @@ class OneshotEvent(object):
 class XSLTListener(unohelper.Base, XStreamListener):
     def __init__(self):
         self.event = OneshotEvent()
+        self.failure = None
 
     def started(self):
         logger.info('XSLT started')
@@ -123,10 +126,12 @@ class XSLTListener(unohelper.Base, XStreamListener):
 
     def terminated(self):
         logger.info('XSLT terminated')
+        self.failure = 'terminated'
         self.event.signal()
 
     def error(self, exception):
         logger.error('XSLT error: %s', exception)
+        self.failure = exception
         self.event.signal()
 
     def disposing(self, source):
@@ -134,36 +139,42 @@ class XSLTListener(unohelper.Base, XStreamListener):
         self.event.signal()
 
 
-def xslt_with_libreoffice(xsl_path, inp_path, out_path):
-    import os.path
+def xslt_compile_with_libreoffice(xsl_path):
+    def transform(inp_path, out_file):
+        return xslt_with_libreoffice(xsl_path, inp_path, out_file)
+    return transform
+
+
+def xslt_with_libreoffice(xsl_path, inp_path, out_file):
+    from hwp5.errors import TransformationFailed
+
     xsl_path = os.path.abspath(xsl_path)
     xsl_name = os.path.basename(xsl_path)
     xsl_url = uno.systemPathToFileUrl(xsl_path)
 
     inp_path = os.path.abspath(inp_path)
-    inp_file = file(inp_path)
-    inp_strm = InputStreamFromFileLike(inp_file, dontclose=True)
-
-    out_path = os.path.abspath(out_path)
-    out_file = file(out_path, 'w')
-    out_strm = OutputStreamToFileLike(out_file, dontclose=True)
+    with io.open(inp_path, 'rb') as inp_file:
+        inp_strm = InputStreamFromFileLike(inp_file, dontclose=True)
+        out_strm = OutputStreamToFileLike(out_file, dontclose=True)
 
-    transformer = XSLTTransformer(xsl_url, '', '')
-    transformer.InputStream = inp_strm
-    transformer.OutputStream = out_strm
+        transformer = XSLTTransformer(xsl_url, '', '')
+        transformer.InputStream = inp_strm
+        transformer.OutputStream = out_strm
 
-    listener = XSLTListener()
-    transformer.addListener(listener)
+        listener = XSLTListener()
+        transformer.addListener(listener)
 
-    transformer.start()
-    logger.info('xslt.soffice(%s) start', xsl_name)
-    try:
-        listener.event.wait()
-    finally:
-        logger.info('xslt.soffice(%s) end', xsl_name)
+        transformer.start()
+        logger.info('xslt.soffice(%s) start', xsl_name)
+        try:
+            listener.event.wait()
+        finally:
+            logger.info('xslt.soffice(%s) end', xsl_name)
 
-    transformer.removeListener(listener)
-    return dict()
+        transformer.removeListener(listener)
+        if listener.failure is not None:
+            raise TransformationFailed('soffice', listener.failure)
+        return dict()
 
 
 def load_hwp5file_into_doc(hwp5file, doc, statusindicator=None):
@@ -176,28 +187,28 @@ def load_hwp5file_into_doc(hwp5file, doc, statusindicator=None):
 def convert_hwp5file_into_odtpkg(hwp5file):
     from tempfile import TemporaryFile
     tmpfile = TemporaryFile()
-    import os
-    tmpfile2 = os.fdopen( os.dup(tmpfile.fileno()), 'r')
+    tmpfile2 = os.fdopen(os.dup(tmpfile.fileno()), 'rb')
 
     from zipfile import ZipFile
     zf = ZipFile(tmpfile, 'w')
     from hwp5.hwp5odt import ODTPackage
     odtpkg = ODTPackage(zf)
     try:
-        from hwp5.hwp5odt import Converter
-        import hwp5.plat
+        from hwp5.hwp5odt import ODTTransform
 
         if haveXSLTTransformer():
-            xslt = xslt_with_libreoffice
+            xslt_compile = xslt_compile_with_libreoffice
         else:
             # we use default xslt
-            xslt = hwp5.plat.get_xslt()
+            xslt_compile = None
+
+        # Embed images: see #32 - https://github.com/mete0r/pyhwp/issues/32
+        transform = ODTTransform(xslt_compile, embedbin=True)
 
         # convert without RelaxNG validation
-        convert = Converter(xslt)
+        transform.relaxng_compile = None
 
-        # Embed images: see #32 - https://github.com/mete0r/pyhwp/issues/32
-        convert(hwp5file, odtpkg, embedimage=True)
+        transform.transform_hwp5_to_package(hwp5file, odtpkg)
     finally:
         odtpkg.close()
 
diff --git a/unokit/unokit/adapters.py b/unokit/unokit/adapters.py
index 7402afd..4d30165 100644
--- a/unokit/unokit/adapters.py
+++ b/unokit/unokit/adapters.py
@@ -99,15 +99,15 @@ class FileFromStream(object):
 
         if hasattr(stream, 'readBytes'):
             def read(size=None):
-                if size is None:
-                    data = ''
+                if size is None or size < 0:
+                    data = b''
                     while True:
-                        bytes = uno.ByteSequence('')
+                        bytes = uno.ByteSequence(b'')
                         n_read, bytes = stream.readBytes(bytes, 4096)
                         if n_read == 0:
                             return data
                         data += bytes.value
-                bytes = uno.ByteSequence('')
+                bytes = uno.ByteSequence(b'')
                 n_read, bytes = stream.readBytes(bytes, size)
                 return bytes.value
             self.read = read
diff --git a/unokit/unokit/util.py b/unokit/unokit/util.py
index 1d63ebf..868e94e 100644
--- a/unokit/unokit/util.py
+++ b/unokit/unokit/util.py
@@ -16,6 +16,7 @@
 #   You should have received a copy of the GNU Affero General Public License
 #   along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
+from __future__ import print_function
 import uno
 
 
@@ -61,28 +62,28 @@ def iterate(xenum):
 def dump(obj):
     from binascii import b2a_hex
     if hasattr(obj, 'ImplementationId'):
-        print 'Implementation Id:', b2a_hex(obj.ImplementationId.value)
-        print
+        print('Implementation Id:', b2a_hex(obj.ImplementationId.value))
+        print('')
 
     if hasattr(obj, 'ImplementationName'):
-        print 'Implementation Name:', obj.ImplementationName
-        print
+        print('Implementation Name:', obj.ImplementationName)
+        print('')
 
     if hasattr(obj, 'SupportedServiceNames'):
-        print 'Supported Services:'
+        print('Supported Services:')
         for x in obj.SupportedServiceNames:
-            print '', x
-        print
+            print('', x)
+        print('')
 
     if hasattr(obj, 'Types'):
-        print 'Types:'
+        print('Types:')
         for x in obj.Types:
-            print '', x.typeClass.value, x.typeName
-        print
+            print('', x.typeClass.value, x.typeName)
+        print('')
 
 
 def dumpdir(obj):
-    print 'dir:'
+    print('dir:')
     for e in sorted(dir(obj)):
-        print '', e
-    print
+        print('', e)
+    print('')
-- 
2.43.0


From eb7600dda73c1232ec34c7d40ecead9cd67e2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 75/77] fix: hwp5html: place objects on landscape pages, center
 them in indented paragraphs

---
 src/hwp5/xsl/hwp5html.xsl | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 5de3ebc..d909fb6 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -446,6 +446,7 @@
     <xsl:variable name="columnset" select="$paragraph/.." />
     <xsl:variable name="section" select="$columnset/.." />
     <xsl:variable name="pagedef" select="$section/PageDef" />
+    <xsl:variable name="paper-width" select="$pagedef[@orientation = 'landscape']/@height | $pagedef[not(@orientation = 'landscape')]/@width" />
     <xsl:text>/*</xsl:text>
     <xsl:text> hrelto: </xsl:text>
     <xsl:value-of select="@hrelto" />
@@ -481,7 +482,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset - $parashape/@doubled-margin-right div 2
                     - @x
                     - @margin-right - @width
@@ -504,7 +505,8 @@
                   + (문단 왼쪽 여백)                              : 문단 x 축에서 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset
+                     - $parashape/@doubled-margin-left div 2 - $parashape/@doubled-margin-right div 2) div 2
                     - @width div 2
                     + @x
                     + $parashape/@doubled-margin-left div 2
@@ -543,7 +545,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset
                     - @x
                     - @margin-right - @width
@@ -565,7 +567,7 @@
                   + (@x)                             : x만큼 오른쪽
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     " />
@@ -603,7 +605,7 @@
                   - (쪽 왼쪽 여백)                        : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - $pagedef/@right-offset
                     - @x
                     - @margin-right - @width
@@ -625,7 +627,7 @@
                   + (@x)                             : x만큼 오른쪽
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    ($pagedef/@width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
+                    ($paper-width - $pagedef/@left-offset - $pagedef/@right-offset) div 2
                     - @width div 2
                     + @x
                     " />
@@ -662,7 +664,7 @@
                   - (쪽 왼쪽 여백)                   : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width
+                    $paper-width
                     - @x
                     - @margin-right - @width
                     - $pagedef/@left-offset
@@ -684,7 +686,7 @@
                   - (쪽 왼쪽 여백)                   : 쪽 x축으로
                   -->
                   <xsl:with-param name="hwpunit" select="
-                    $pagedef/@width div 2
+                    $paper-width div 2
                     - @width div 2
                     + @x
                     - $pagedef/@left-offset
-- 
2.43.0


From 9a48cd80fd2e5409eb1e0f69340187270b9e1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 76/77] fix: hwp5odt: write mimetype as the first part of the
 package

---
 src/hwp5/hwp5odt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 29a8925..659efdb 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -24,6 +24,7 @@ from contextlib import contextmanager
 from contextlib import closing
 from functools import partial
 from io import BytesIO
+from zipfile import ZIP_STORED
 import gettext
 import io
 import logging
@@ -257,6 +258,11 @@ class ODTPackage(object):
         else:
             zipfile = path_or_zipfile
         self.zf = zipfile
+        # should be the first file of the package, not compressed
+        # (OpenDocument 1.2 part 3, 3.3)
+        self.zf.writestr('mimetype',
+                         'application/vnd.oasis.opendocument.text',
+                         ZIP_STORED)
 
     def insert_path(self, src_path, path, media_type):
         with io.open(src_path, 'rb') as f:
@@ -274,7 +280,6 @@ class ODTPackage(object):
         manifest_xml(manifest, self.files)
         manifest.seek(0)
         self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
-        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
 
         self.zf.close()
 
-- 
2.43.0


From 49f50318e79b3d857ad303f57a7640c9b91915cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 77/77] fix: recordstream: report a stream which ends within an
 extended record header

---
 src/hwp5/recordstream.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 1e1068a..95faeaa 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -27,6 +27,7 @@ from . import dataio
 from . import filestructure
 from .dataio import dumpbytes
 from .dataio import Eof
+from .dataio import OutOfData
 from .dataio import UINT32
 from .tagids import HWPTAG_BEGIN
 from .tagids import tagnames
@@ -54,11 +55,15 @@ def decode_record_header(f):
         tagid = rechdr & 0x3ff
         level = (rechdr >> 10) & 0x3ff
         size = (rechdr >> 20) & 0xfff
-        if size == 0xfff:
-            size = UINT32.read(f)
-        return (tagid, level, size)
     except Eof:
         return None
+    if size == 0xfff:
+        try:
+            size = UINT32.read(f)
+        except Eof as e:
+            # this is not the end of the records, but within a header
+            raise OutOfData(*e.args)
+    return (tagid, level, size)
 
 
 def encode_record_header(rec):
-- 
2.43.0

