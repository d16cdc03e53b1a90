From a01eea9b12181052d68ae662cf38483ccc00069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 01/57] fix: remember an encoded AMF3 integer under the integer
 that was asked for

Negative integers were cached under their two's complement value, so that an
out of range integer could be encoded instead of raising OverflowError.
---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..2aca6b3 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1571,6 +1571,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1596,7 +1598,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[key] = bytes
 
     return bytes
 
-- 
2.43.0


From 794873f4101cdc9a7eccab0f15c0bfaa8440aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 02/57] fix: decode unsigned AMF3 integers with the top bit set
 to their 29 bit value

---
 pyamf/amf3.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2aca6b3..48c2689 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1623,12 +1623,8 @@ def decode_int(stream, signed=False):
         result <<= 8
         result |= b
 
-        if result & 0x10000000 != 0:
-            if signed:
-                result -= 0x20000000
-            else:
-                result <<= 1
-                result += 1
+        if signed and result & 0x10000000 != 0:
+            result -= 0x20000000
 
     return result
 
-- 
2.43.0


From c6488e0efe16e3f6a89277bb201d1d4ebe88f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 03/57] fix: encode sparse and negative integer keys of an AMF3
 mixed array

Integer keys that do not count up from 0 raised KeyError or were decoded under
another index.
---
 pyamf/amf3.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 48c2689..522cec6 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1375,27 +1375,26 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        # Make sure the integer keys are within range
-        l = len(int_keys)
+        int_keys.sort()
 
-        for x in int_keys:
-            if l < x <= 0:
-                # treat as a string key
-                str_keys.append(x)
-                del int_keys[int_keys.index(x)]
+        # Only the integer keys that count up from 0 have a place in the dense
+        # portion of the array, the others are written as string keys
+        dense = 0
 
-        int_keys.sort()
+        while dense < len(int_keys) and int_keys[dense] == dense:
+            dense += 1
 
-        # If integer keys don't start at 0, they will be treated as strings
-        if len(int_keys) > 0 and int_keys[0] != 0:
-            for x in int_keys:
-                str_keys.append(str(x))
-                del int_keys[int_keys.index(x)]
+        str_keys.extend(int_keys[dense:])
+        del int_keys[dense:]
 
         self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
 
         for x in str_keys:
-            self.serialiseString(x)
+            if isinstance(x, python.int_types):
+                self.serialiseString(str(x))
+            else:
+                self.serialiseString(x)
+
             self.writeElement(n[x])
 
         self.stream.write_uchar(0x01)
-- 
2.43.0


From 8dd9e24e2ff9fc106dc2e6a5f025d4c6c1372b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 04/57] fix: refuse to encode an AMF3 object with an empty
 attribute name

The empty name ends the attributes, so the rest of the stream was decoded as
something else.
---
 pyamf/amf3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 522cec6..078fbd6 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1502,6 +1502,11 @@ class Encoder(codec.Encoder):
                     if type(attr) in python.int_types:
                         attr = str(attr)
 
+                    if attr == '':
+                        # marks the end of the dynamic attributes
+                        raise pyamf.EncodeError(
+                            'AMF3 objects cannot contain empty string keys')
+
                     self.serialiseString(attr)
                     self.writeElement(value)
 
-- 
2.43.0


From 355ddd7edc72f2b528bf9c97303bff543fd1d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 05/57] fix: count dates and XML in the AMF0 encoder's
 reference table

The decoder counts them, so a reference written after a date or an XML document
was decoded as another object.
---
 pyamf/amf0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..436b811 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -641,6 +641,8 @@ class Encoder(codec.Encoder):
 
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
+        self.context.addObject(d)
+
         if self.timezone_offset is not None:
             d -= self.timezone_offset
 
@@ -655,6 +657,9 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
+        # the decoder creates a reference for xml (and for dates) too
+        self.context.addObject(e)
+
         self.writeType(TYPE_XML)
 
         data = xml.tostring(e)
-- 
2.43.0


From f98036713233b388ffa74a0aac5443598cffe570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 06/57] fix: keep AMF3 typed objects out of the AMF0 encoder's
 reference table

The decoder does not count them, so a reference written after such an object was
decoded as another object.
---
 pyamf/amf0.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 436b811..6e5e4ea 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -592,19 +592,21 @@ class Encoder(codec.Encoder):
 
         @param o: The object data to be encoded to the AMF0 data stream.
         """
-        if self.writeReference(o) != -1:
-            return
-
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
 
         if alias.amf3:
+            # AMF3 elements have their own reference tables
             self.writeAMF3(o)
 
             return
 
+        if self.writeReference(o) != -1:
+            return
+
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From b49a291d71805b031b5aafa6a65002beb6c7c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 07/57] fix: keep XML documents out of the AMF3 encoder's
 string reference table

The decoder does not count them, so a string reference written after an XML
document was decoded as another string, and a repeated document could not be
decoded.
---
 pyamf/amf3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 078fbd6..d3979a5 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1552,7 +1552,12 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        data = xml.tostring(n).encode('utf-8')
+
+        # the document is always written inline, it is not part of the string
+        # reference table
+        self._writeInteger((len(data) << 1) | REFERENCE_BIT)
+        self.stream.write(data)
 
 
 def encode_int(n):
-- 
2.43.0


From ff6ff567a09b7b54819323991838e491b7a8f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 08/57] fix: refuse AMF0 attribute and class names that are
 longer than 65535 bytes

They were written with a 32 bit length that no decoder reads.
---
 pyamf/amf0.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 6e5e4ea..a5a1a62 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -491,10 +491,12 @@ class Encoder(codec.Encoder):
         l = len(s)
 
         if l > 0xffff:
-            self.stream.write_ulong(l)
-        else:
-            self.stream.write_ushort(l)
+            # the length is always a 16 bit integer here
+            raise pyamf.EncodeError(
+                'AMF0 attribute and class names cannot be longer than 65535 '
+                'bytes (got:%d)' % (l,))
 
+        self.stream.write_ushort(l)
         self.stream.write(s)
 
     def writeBytes(self, s):
-- 
2.43.0


From c9053adcda4e50a7f788ad4cd2e7553557f5d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 09/57] fix: raise ReferenceError for every unknown AMF3
 reference

Unknown references to arrays, dates, XML and byte arrays were decoded as None,
and those to strings and class definitions raised AttributeError.
---
 pyamf/amf3.py | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d3979a5..caa5fd0 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -859,6 +859,28 @@ class Decoder(codec.Decoder):
 
         return (x >> 1, x & REFERENCE_BIT == 0)
 
+    def _getString(self, ref):
+        """
+        @raise ReferenceError: Unknown reference found.
+        """
+        result = self.context.getString(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown string reference %d' % (ref,))
+
+        return result
+
+    def _getObject(self, ref):
+        """
+        @raise ReferenceError: Unknown reference found.
+        """
+        result = self.context.getObject(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown reference %d' % (ref,))
+
+        return result
+
     def readBytes(self):
         """
         Reads and returns a utf-8 encoded byte array.
@@ -866,7 +888,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            return self.context.getString(length)
+            return self._getString(length)
 
         if length == 0:
             return ''
@@ -883,7 +905,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            result = self.context.getString(length)
+            result = self._getString(length)
 
             return self.context.getStringForBytes(result)
 
@@ -904,7 +926,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObject(ref >> 1)
 
         ms = self.stream.read_double()
         result = util.get_datetime(ms / 1000.0)
@@ -927,7 +949,7 @@ class Decoder(codec.Decoder):
         size = self.readInteger(False)
 
         if size & REFERENCE_BIT == 0:
-            return self.context.getObject(size >> 1)
+            return self._getObject(size >> 1)
 
         size >>= 1
 
@@ -966,6 +988,10 @@ class Decoder(codec.Decoder):
         if is_ref:
             class_def = self.context.getClassByReference(ref)
 
+            if class_def is None:
+                raise pyamf.ReferenceError(
+                    'Unknown class reference %d' % (ref,))
+
             return class_def
 
         name = self.readBytes()
@@ -1019,12 +1045,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            obj = self.context.getObject(ref >> 1)
-
-            if obj is None:
-                raise pyamf.ReferenceError(
-                    'Unknown reference %d' % (ref >> 1,)
-                )
+            obj = self._getObject(ref >> 1)
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
@@ -1075,7 +1096,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObject(ref >> 1)
 
         xmlstring = self.stream.read(ref >> 1)
 
@@ -1109,7 +1130,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObject(ref >> 1)
 
         buffer = self.stream.read(ref >> 1)
         compressed = False
-- 
2.43.0


From 6b86189eb1d60d9075095f73e8fb180adb2c0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 10/57] fix: report a truncated element as missing data

Data that ended between two nested elements looked like a clean end of the
stream, and the stream was not rewound to the start of the outer element.
---
 pyamf/codec.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..7d7e1f8 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -393,6 +393,12 @@ class Decoder(_Codec):
 
         try:
             return func()
+        except pyamf.EOStream:
+            # the data ran out in the middle of this element, which is not a
+            # clean end of the stream
+            self.stream.seek(pos)
+
+            raise IOError('Incomplete element in the stream')
         except IOError:
             self.stream.seek(pos)
 
-- 
2.43.0


From 32a3cf6b633e317c95d76ac172b32cac6fb880aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 11/57] fix: timestamps of dates before 1970 that have
 microseconds

The fraction was subtracted from the seconds instead of added to them.
---
 pyamf/util/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..fc992e3 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,8 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
-
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    # the microseconds count forward from the whole second, before 1970 too
+    return calendar.timegm(d.utctimetuple()) + d.microsecond / 1000000.0
 
 
 def get_datetime(secs):
-- 
2.43.0


From ae6bbb020d2664ce6becf4c2c83b48863ffbfc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 12/57] fix: do not encode static attributes that are excluded

---
 pyamf/alias.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..e3158bc 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -227,8 +227,8 @@ class ClassAlias(object):
             if self.exclude_attrs:
                 self.static_attrs_set.difference_update(self.exclude_attrs)
 
-            for a in self.static_attrs_set:
-                if a not in self.static_attrs:
+            for a in self.static_attrs[:]:
+                if a not in self.static_attrs_set:
                     self.static_attrs.remove(a)
 
         if not self.exclude_attrs:
-- 
2.43.0


From 85b1c50f1397297df03bb14644786c9539b2965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 13/57] fix: compile the alias of a class that only inherits
 its synonyms

The class meta data of such a class holds None, which cannot be merged with the
inherited synonyms.
---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e3158bc..a21bea2 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -47,7 +47,7 @@ class ClassAlias(object):
         self.amf3 = kwargs.pop('amf3', None)
         self.external = kwargs.pop('external', None)
         self.dynamic = kwargs.pop('dynamic', None)
-        self.synonym_attrs = kwargs.pop('synonym_attrs', {})
+        self.synonym_attrs = kwargs.pop('synonym_attrs', None) or {}
 
         self._compiled = False
         self.anonymous = False
-- 
2.43.0


From 58cab7a3742bfd558bde8c98e3cf2c43b271b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 14/57] fix: apply every decoding filter to static attributes
 and to synonyms

Static attributes were dropped as soon as another attribute was filtered, were
set although read-only when no other attribute was received, and the exclude,
read-only and whitelist filters could be avoided with the synonym of an
attribute.
---
 pyamf/alias.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index a21bea2..430c852 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -474,6 +474,22 @@ class ClassAlias(object):
 
         changed = False
 
+        if self.synonym_attrs:
+            # all the filters below apply to the local names
+            missing = object()
+            renamed = {}
+            attrs = attrs.copy()
+
+            for k, v in self.synonym_attrs.iteritems():
+                value = attrs.pop(v, missing)
+
+                if value is missing:
+                    continue
+
+                renamed[k] = value
+
+            attrs.update(renamed)
+
         props = set(attrs.keys())
 
         if self.static_attrs:
@@ -486,8 +502,6 @@ class ClassAlias(object):
                     )
                 )
 
-            props.difference_update(self.static_attrs)
-
         if not props:
             return attrs
 
@@ -519,23 +533,11 @@ class ClassAlias(object):
                 attrs[k] = context.getObjectForProxy(v)
 
         if changed:
-            # apply all filters before synonyms
             a = {}
 
             [a.__setitem__(p, attrs[p]) for p in props]
             attrs = a
 
-        if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(v, missing)
-
-                if value is missing:
-                    continue
-
-                attrs[k] = value
-
         return attrs
 
     def applyAttributes(self, obj, attrs, codec=None):
-- 
2.43.0


From 4a74ed7fc0f089ade230e6ae34f6d23dc32c8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 15/57] fix: apply the class configuration to dict subclasses
 and sealed classes

exclude, static and dynamic had no effect when encoding an instance of a dict
subclass, and proxies and synonyms had none for a class that is not dynamic.
---
 pyamf/alias.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 430c852..6fad73d 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -398,7 +398,8 @@ class ClassAlias(object):
             self.compile()
 
         if self.is_dict:
-            return dict(obj)
+            return self._filterEncodableAttributes(
+                self._getDictAttributes(obj), codec)
 
         if self.shortcut_encode and self.dynamic:
             return obj.__dict__.copy()
@@ -417,7 +418,7 @@ class ClassAlias(object):
                 for attr in self.non_static_encodable_properties:
                     attrs[attr] = self.getAttribute(obj, attr, codec=codec)
 
-            return attrs
+            return self._filterEncodableAttributes(attrs, codec)
 
         dynamic_props = util.get_properties(obj)
 
@@ -436,6 +437,32 @@ class ClassAlias(object):
         for attr in dynamic_props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
 
+        return self._filterEncodableAttributes(attrs, codec)
+
+    def _getDictAttributes(self, obj):
+        """
+        Returns the items of C{obj}, an instance of a C{dict} subclass, that
+        are to be encoded.
+        """
+        attrs = dict(obj)
+
+        if not self.dynamic:
+            for attr in obj.keys():
+                if attr not in (self.encodable_properties or ()):
+                    del attrs[attr]
+
+        for attr in self.exclude_attrs or ():
+            attrs.pop(attr, None)
+
+        for attr in self.static_attrs or ():
+            attrs.setdefault(attr, pyamf.Undefined)
+
+        return attrs
+
+    def _filterEncodableAttributes(self, attrs, codec=None):
+        """
+        Proxies and renames the attributes that are to be encoded.
+        """
         if self.proxy_attrs is not None and attrs and codec:
             context = codec.context
 
@@ -445,6 +472,7 @@ class ClassAlias(object):
 
         if self.synonym_attrs:
             missing = object()
+            renamed = {}
 
             for k, v in self.synonym_attrs.iteritems():
                 value = attrs.pop(k, missing)
@@ -452,7 +480,9 @@ class ClassAlias(object):
                 if value is missing:
                     continue
 
-                attrs[v] = value
+                renamed[v] = value
+
+            attrs.update(renamed)
 
         return attrs
 
-- 
2.43.0


From 86d3fbda030c5103caae0eebf7a356fd0b4a1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 16/57] fix: encode static attributes that have a synonym

---
 pyamf/amf0.py | 1 +
 pyamf/amf3.py | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index a5a1a62..be53b6f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -619,6 +619,7 @@ class Encoder(codec.Encoder):
 
         if alias.static_attrs and attrs:
             for key in alias.static_attrs:
+                key = alias.synonym_attrs.get(key, key)
                 value = attrs.pop(key)
 
                 self.serialiseString(key)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index caa5fd0..1010153 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1506,10 +1506,13 @@ class Encoder(codec.Encoder):
         attrs = alias.getEncodableAttributes(obj, codec=self)
 
         if alias.static_attrs:
+            synonyms = alias.synonym_attrs
+            static_attrs = [synonyms.get(a, a) for a in alias.static_attrs]
+
             if not class_ref:
-                [self.serialiseString(attr) for attr in alias.static_attrs]
+                [self.serialiseString(attr) for attr in static_attrs]
 
-            for attr in alias.static_attrs:
+            for attr in static_attrs:
                 value = attrs.pop(attr)
 
                 self.writeElement(value)
-- 
2.43.0


From 38d35216272c6116890b620b112d672b64d11fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 17/57] fix: write the byte length of non-ASCII header names
 and response identifiers

The number of characters was written, so the envelope could not be decoded.
---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..c4a6306 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -411,6 +411,9 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    if isinstance(name, unicode):
+        name = name.encode('utf8')
+
     stream.write_ushort(len(name))
     stream.write_utf8_string(name)
 
@@ -542,6 +545,9 @@ def _write_body(name, message, stream, encoder, strict=False):
     if isinstance(message, Request):
         response = name
 
+        if isinstance(response, unicode):
+            response = response.encode('utf8')
+
     stream.write_ushort(len(response))
     stream.write_utf8_string(response)
 
-- 
2.43.0


From 37878612f6a15dcd028480306a30f161f09cccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 18/57] fix: strip only one status from the target of a
 response

---
 pyamf/remoting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index c4a6306..1c067c2 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -479,6 +479,8 @@ def _read_body(stream, decoder, strict=False, logger=None):
         status = code
         target = target[:0 - len(s)]
 
+        break
+
     data_len = stream.read_ulong()
     pos = stream.tell()
 
-- 
2.43.0


From 51832f10cdc83c7e6672df3ff5941760e1dc9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 19/57] fix: let set_required(name, False) make a header
 optional again

---
 pyamf/remoting/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 1c067c2..bdbe1b0 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -102,8 +102,11 @@ class HeaderCollection(dict):
         if idx not in self:
             raise KeyError("Unknown header %s" % str(idx))
 
-        if idx not in self.required and value:
-            self.required.append(idx)
+        if value:
+            if idx not in self.required:
+                self.required.append(idx)
+        elif idx in self.required:
+            self.required.remove(idx)
 
     def __len__(self):
         return len(self.keys())
-- 
2.43.0


From c2cebcd36d2d5ffaa276254203bede70a4f31148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 20/57] fix: build a fault for an error whose message is a
 non-ASCII byte string

The message could not be converted, and every request of the batch failed.
---
 pyamf/remoting/__init__.py | 10 ++++++++++
 pyamf/remoting/amf0.py     |  2 +-
 pyamf/remoting/amf3.py     |  6 +++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index bdbe1b0..aeb8a02 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -739,6 +739,16 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     return stream
 
 
+def get_error_text(value):
+    """
+    Returns the text of an error, or of its message, as C{unicode}.
+    """
+    try:
+        return unicode(value)
+    except UnicodeError:
+        return str(value).decode('utf-8', 'replace')
+
+
 def get_exception_from_fault(fault):
     return pyamf.ERROR_CLASS_MAP.get(fault.code, RemotingError)
 
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..3bf95bc 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -186,6 +186,6 @@ def build_fault(cls, e, tb, include_traceback=False):
 
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=remoting.get_error_text(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..14fa51c 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -77,13 +77,13 @@ def generate_error(request, cls, e, tb, include_traceback=False):
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = unicode(e.message)
+        faultString = remoting.get_error_text(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+            faultString = remoting.get_error_text(e.args[0])
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = remoting.get_error_text(details)
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From ba7aee9623fbf4c371f6daef11dbeb34f6e3fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 21/57] fix: consult the authenticator before a RemoteObject
 call

A service with an authenticator could be called without credentials through a
RemoteObject request.
---
 pyamf/remoting/amf3.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 14fa51c..7555581 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -34,6 +34,13 @@ class ServerCallFailed(BaseServerError):
     _amf_code = 'Server.Call.Failed'
 
 
+class AuthenticationError(BaseServerError):
+    """
+    The credentials of the request were not accepted.
+    """
+    _amf_code = 'AuthenticationError'
+
+
 def generate_random_id():
     return str(uuid.uuid4())
 
@@ -179,6 +186,26 @@ class RequestProcessor(object):
 
         return remoting.Response(ro_response)
 
+    def _authenticate(self, amf_request, service_request, **kwargs):
+        """
+        Authenticates the request against the service, using the credentials
+        in the headers of the AMF request (if there are any).
+        """
+        username = password = None
+
+        if amf_request.envelope and 'Credentials' in amf_request.headers:
+            cred = amf_request.headers['Credentials']
+
+            username = cred['userid']
+            password = cred['password']
+
+        return self.gateway.authenticateRequest(
+            service_request,
+            username,
+            password,
+            **kwargs
+        )
+
     def _processRemotingMessage(self, amf_request, ro_request, **kwargs):
         ro_response = generate_acknowledgement(ro_request)
 
@@ -188,6 +215,9 @@ class RequestProcessor(object):
             service_name
         )
 
+        if not self._authenticate(amf_request, service_request, **kwargs):
+            raise AuthenticationError('Authentication failed')
+
         # fire the preprocessor (if there is one)
         self.gateway.preprocessRequest(
             service_request,
-- 
2.43.0


From cf31fddb6b94999654128366c60ec583100d74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 22/57] fix: answer a malformed RemoteObject request with a
 fault

A request without a message failed every request of the batch.
---
 pyamf/remoting/amf3.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 7555581..1e6ccf5 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -96,7 +96,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -243,7 +243,11 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        try:
+            ro_request = amf_request.body[0]
+        except (IndexError, KeyError, TypeError):
+            # not a RemoteObject request, answered with a fault
+            ro_request = None
 
         try:
             body = self._getBody(amf_request, ro_request, **kwargs)
@@ -257,14 +261,15 @@ class RequestProcessor(object):
             elif self.logger:
                 self.logger.exception(
                     'Unexpected error while processing request %r',
-                    get_service_name(ro_request)
+                    getattr(ro_request, 'operation', None)
                 )
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        headers = getattr(ro_request, 'headers', None) or {}
+        dsid = headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
-- 
2.43.0


From e9243d65749e05e82e7cb3b011ec251f38465c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 23/57] fix: leave the position alone when a 24 bit integer is
 cut short

---
 pyamf/util/pure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..5f289c7 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -371,8 +371,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for b, x in zip(self._read(3), order):
+            n += (ord(b) << x)
 
         return n
 
-- 
2.43.0


From ccb41cbe8a33bb5765bd1fbdcd7b614adce50e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 24/57] fix: allow an empty stream to be added to another

---
 pyamf/util/pure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 5f289c7..97c0f16 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -622,7 +622,13 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
 
         other.seek(0)
         new.seek(0, 2)
-        new.write(other.read())
+
+        try:
+            new.write(other.read())
+        except IOError:
+            # other is empty
+            pass
+
 
         self.seek(old_pos)
         other.seek(old_other_pos)
-- 
2.43.0


From e72306c3fe913643f05b3187157da3529b865daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 25/57] fix: decompress the byte arrays the encoder compressed

---
 pyamf/amf3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 1010153..c543012 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -509,6 +509,8 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
     """
 
     _zlib_header = '\x78\x9c'
+    #: What Flash (and L{__str__}) produces.
+    _flash_header = '\x78\xda'
 
     class __amf__:
         amf3 = True
@@ -546,7 +548,7 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
 
         buf = zlib.compress(buf)
         # FIXME nick: hacked
-        return buf[0] + '\xda' + buf[2:]
+        return ByteArray._flash_header + buf[2:]
 
     def compress(self):
         """
@@ -1135,7 +1137,7 @@ class Decoder(codec.Decoder):
         buffer = self.stream.read(ref >> 1)
         compressed = False
 
-        if buffer[0:2] == ByteArray._zlib_header:
+        if buffer[0:2] in (ByteArray._zlib_header, ByteArray._flash_header):
             try:
                 buffer = zlib.decompress(buffer)
                 compressed = True
-- 
2.43.0


From b1afa779c683d2af35cb27f967f9872ada783fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 26/57] fix: keep the dense part of an AMF3 mixed array with
 negative keys

---
 pyamf/amf3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index c543012..aaa5f85 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1398,7 +1398,8 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        int_keys.sort()
+        # the negative ones last
+        int_keys.sort(key=lambda x: (x < 0, x))
 
         # Only the integer keys that count up from 0 have a place in the dense
         # portion of the array, the others are written as string keys
-- 
2.43.0


From d23b7c6d88041b2e2e872cdf67adb262c5d24092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 27/57] fix: raise UnknownClassAlias for every alias no class
 can be found for

---
 pyamf/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..f343d49 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -407,11 +407,10 @@ def load_class(alias):
 
         try:
             module = util.get_module(module)
-        except (ImportError, AttributeError):
+            klass = getattr(module, klass)
+        except (ImportError, AttributeError, ValueError):
             pass
         else:
-            klass = getattr(module, klass)
-
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
-- 
2.43.0


From c0c9a5c04a89a420a890ad9c4f33f7e4e864d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 28/57] fix: return the alias when a loaded module provides a
 ClassAlias

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index f343d49..0e9e72a 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -417,7 +417,7 @@ def load_class(alias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
+                return klass
             else:
                 raise TypeError(
                     "Expecting class type or ClassAlias from loader"
-- 
2.43.0


From a6b8d6b378aaceb91d3531eefc89ae94ff21e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 29/57] fix: inherit the dynamic setting from the closest base
 class

---
 pyamf/alias.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 6fad73d..3d8b775 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -182,10 +182,11 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        if self.dynamic is None and alias.dynamic is not None:
+        # the closest base class decides
+        if self.dynamic is None and self.inherited_dynamic is None:
             self.inherited_dynamic = alias.dynamic
 
-        if alias.sealed is not None:
+        if self.inherited_sealed is None:
             self.inherited_sealed = alias.sealed
 
         if alias.synonym_attrs:
-- 
2.43.0


From b2afd85ff746f4ff4419f8ad29cbda5aa5d65c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 30/57] fix: unwrap proxied attributes of classes with no other
 setting

---
 pyamf/alias.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 3d8b775..0f5cc74 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -291,7 +291,8 @@ class ClassAlias(object):
 
         if (self.decodable_properties or self.static_attrs or
                 self.exclude_attrs or self.readonly_attrs or
-                not self.dynamic or self.external or self.synonym_attrs):
+                not self.dynamic or self.external or self.synonym_attrs or
+                self.proxy_attrs):
             self.shortcut_decode = False
 
         self.is_dict = False
-- 
2.43.0


From b46231c25afd8df79148df7cb14e930d12c36cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 31/57] fix: unregister a class without touching other
 registrations

Unregistering deleted whatever was registered under the alias and the class
in the meantime, or failed with a KeyError halfway through.
---
 pyamf/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 0e9e72a..8b493a3 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,10 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
-        del CLASS_CACHE[x.alias]
-
-    del CLASS_CACHE[x.klass]
+    # the alias or the class may have been registered again since
+    for key in (x.alias, x.klass):
+        if CLASS_CACHE.get(key) is x:
+            del CLASS_CACHE[key]
 
     return x
 
-- 
2.43.0


From 10ae4875d68a4386542331365590bfc5cf42f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 32/57] fix: keep one entry per class when an alias type is
 registered

The entries under the alias and under the class became two different ones,
and a class registered without an alias made the registration fail.
---
 pyamf/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 8b493a3..d2246b4 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -785,16 +785,23 @@ def register_alias_type(klass, *args):
     ALIAS_TYPES[klass] = args
 
     for k, v in CLASS_CACHE.copy().iteritems():
+        if CLASS_CACHE[k] is not v:
+            # replaced together with its other key
+            continue
+
         new_alias = util.get_class_alias(v.klass)
 
         if new_alias is klass:
             meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+
+            if not v.anonymous:
+                meta['alias'] = v.alias
 
             alias_klass = klass(v.klass, **meta)
 
-            CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
+            for key in (v.alias, v.klass):
+                if CLASS_CACHE.get(key) is v:
+                    CLASS_CACHE[key] = alias_klass
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From 11785e4dd40809140faa06d821a53920b24e98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 33/57] fix: honour the XML permissions of an AMF0 decoder in
 embedded AMF3

---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index be53b6f..79fad0d 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -132,7 +132,9 @@ class Context(codec.Context):
         decoder = pyamf.get_decoder(
             pyamf.AMF3,
             stream=amf0_decoder.stream,
-            timezone_offset=amf0_decoder.timezone_offset
+            timezone_offset=amf0_decoder.timezone_offset,
+            forbid_dtd=self.forbid_dtd,
+            forbid_entities=self.forbid_entities
         )
 
         self.extra['amf3_decoder'] = decoder
-- 
2.43.0


From 5145b3bca2444395c5b5d486ea9067f55c0be330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 34/57] fix: the body count of an envelope is unsigned

A count above 32767 was read as a negative number, so that an envelope
without any of its bodies was returned, and could not be written.
---
 pyamf/remoting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index aeb8a02..d776173 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -668,7 +668,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         if required:
             msg.headers.set_required(name)
 
-    body_count = stream.read_short()
+    body_count = stream.read_ushort()
 
     for i in xrange(body_count):
         context.clear()
@@ -727,7 +727,7 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
             strict,
         )
 
-    stream.write_short(len(msg))
+    stream.write_ushort(len(msg))
 
     for name, message in msg.iteritems():
         encoder.context.clear()
-- 
2.43.0


From 6bb01788702c5dffb7702b339291fba0b6ac3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 35/57] fix: write a response whose identifier is a non-ASCII
 byte string

---
 pyamf/remoting/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index d776173..becabc7 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -533,14 +533,17 @@ def _write_body(name, message, stream, encoder, strict=False):
     if not isinstance(message, (Request, Response)):
         raise TypeError("Unknown message type")
 
-    target = None
-
     if isinstance(message, Request):
-        target = unicode(message.target)
+        target = message.target
+        suffix = ''
     else:
-        target = u"%s%s" % (name, _get_status(message.status))
+        target = name
+        suffix = _get_status(message.status)
+
+    if not isinstance(target, str):
+        target = unicode(target).encode('utf8')
 
-    target = target.encode('utf8')
+    target += suffix
 
     stream.write_ushort(len(target))
     stream.write_utf8_string(target)
-- 
2.43.0


From 7c2f05e0f3574f4f06720a23d489d1b2e5db6447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 36/57] fix: shift plain dates by the timezone offset like any
 other date

The decoder shifts every date, so a plain date came back as another time.
---
 pyamf/amf0.py | 4 ++++
 pyamf/amf3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 79fad0d..332833a 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -651,6 +651,10 @@ class Encoder(codec.Encoder):
         self.context.addObject(d)
 
         if self.timezone_offset is not None:
+            if not isinstance(d, datetime.datetime):
+                # a plain date has no time of day to subtract from
+                d = datetime.datetime.combine(d, datetime.time())
+
             d -= self.timezone_offset
 
         secs = util.get_timestamp(d)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index aaa5f85..d09eabe 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1321,6 +1321,10 @@ class Encoder(codec.Encoder):
         self.stream.write_uchar(REFERENCE_BIT)
 
         if self.timezone_offset is not None:
+            if not isinstance(n, datetime.datetime):
+                # a plain date has no time of day to subtract from
+                n = datetime.datetime.combine(n, datetime.time())
+
             n -= self.timezone_offset
 
         ms = util.get_timestamp(n)
-- 
2.43.0


From 13a156ad4035affba85bd2f037b1e05f3cc7c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 37/57] fix: answer 400 to a message that ends where a value
 should start

---
 pyamf/remoting/gateway/django.py | 2 +-
 pyamf/remoting/gateway/wsgi.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..80f6b5a 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -108,7 +108,7 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..4794122 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -87,7 +87,7 @@ class WSGIGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 95820ce9997372a754d1d904ff649d9187c778cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 38/57] fix: answer a request whose content length is missing
 or invalid

---
 pyamf/remoting/gateway/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index 4794122..3016b27 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -75,12 +75,15 @@ class WSGIGateway(gateway.BaseGateway):
         if environ['REQUEST_METHOD'] != 'POST':
             return self.badRequestMethod(environ, start_response)
 
-        body = environ['wsgi.input'].read(int(environ['CONTENT_LENGTH']))
         stream = None
         timezone_offset = self._get_timezone_offset()
 
         # Decode the request
         try:
+            # the length of an empty body may be left out
+            length = int(environ.get('CONTENT_LENGTH') or 0)
+            body = environ['wsgi.input'].read(length)
+
             request = remoting.decode(
                 body,
                 strict=self.strict,
-- 
2.43.0


From eede41ef8e33c151754f4e489acd0c84c2da1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 39/57] fix: build a fault for every error, whatever its
 message and traceback

An error whose text cannot be determined failed the whole response, and a
traceback that is not UTF-8 made it undecodable.
---
 pyamf/remoting/__init__.py | 10 +++++++---
 pyamf/remoting/amf0.py     |  5 ++++-
 pyamf/remoting/amf3.py     |  4 ++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index becabc7..61fc175 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -747,9 +747,13 @@ def get_error_text(value):
     Returns the text of an error, or of its message, as C{unicode}.
     """
     try:
-        return unicode(value)
-    except UnicodeError:
-        return str(value).decode('utf-8', 'replace')
+        try:
+            return unicode(value)
+        except UnicodeError:
+            return str(value).decode('utf-8', 'replace')
+    except Exception:
+        # as the traceback module has it
+        return u'<unprintable %s object>' % (type(value).__name__,)
 
 
 def get_exception_from_fault(fault):
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 3bf95bc..66703b0 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -182,7 +182,10 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            remoting.get_error_text(line)
+            for line in traceback.format_exception(cls, e, tb)
+        ]
 
     return remoting.ErrorFault(
         code=code,
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 1e6ccf5..6a7a204 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -78,7 +78,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = buffer.getvalue()
+        details = remoting.get_error_text(buffer.getvalue())
 
     faultDetail = None
     faultString = None
@@ -90,7 +90,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
             faultString = remoting.get_error_text(e.args[0])
 
     if details:
-        faultDetail = remoting.get_error_text(details)
+        faultDetail = details
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From ea0f082e306bd468b737a693a733f9234b7c419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 40/57] fix: leave out the root cause of a fault if it cannot
 be encoded

The response to every other request of the message was lost with it.
---
 pyamf/remoting/amf3.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 6a7a204..3b5a0d3 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -80,6 +80,14 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         details = remoting.get_error_text(buffer.getvalue())
 
+    try:
+        pyamf.encode(e, encoding=pyamf.AMF3)
+    except (SystemExit, KeyboardInterrupt):
+        raise
+    except:
+        # must not take the whole response down
+        rootCause = None
+
     faultDetail = None
     faultString = None
 
-- 
2.43.0


From 8ff76a5a9bbf2ceb9c371615813e0cd98a1d78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 41/57] fix: answer a RemoteObject request whose headers are no
 dictionary

---
 pyamf/remoting/amf3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 3b5a0d3..cbdee1d 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -276,8 +276,11 @@ class RequestProcessor(object):
 
         ro_response = body.body
 
-        headers = getattr(ro_request, 'headers', None) or {}
-        dsid = headers.get('DSId', None)
+        headers = getattr(ro_request, 'headers', None)
+        dsid = None
+
+        if isinstance(headers, dict):
+            dsid = headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
-- 
2.43.0


From 8173089d102247161e400ccb650516c3f02b67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 42/57] fix: keep the error for a request without an input
 stream

---
 pyamf/remoting/gateway/wsgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index 3016b27..2e74a28 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -75,6 +75,7 @@ class WSGIGateway(gateway.BaseGateway):
         if environ['REQUEST_METHOD'] != 'POST':
             return self.badRequestMethod(environ, start_response)
 
+        source = environ['wsgi.input']
         stream = None
         timezone_offset = self._get_timezone_offset()
 
@@ -82,7 +83,7 @@ class WSGIGateway(gateway.BaseGateway):
         try:
             # the length of an empty body may be left out
             length = int(environ.get('CONTENT_LENGTH') or 0)
-            body = environ['wsgi.input'].read(length)
+            body = source.read(length)
 
             request = remoting.decode(
                 body,
-- 
2.43.0


From 617c79c65555e884afb6c3ed92063a05dea85a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 43/57] fix: leave out the root cause of a fault if it cannot
 be decoded

---
 pyamf/remoting/amf3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index cbdee1d..e056aa1 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -81,7 +81,8 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         details = remoting.get_error_text(buffer.getvalue())
 
     try:
-        pyamf.encode(e, encoding=pyamf.AMF3)
+        stream = pyamf.encode(e, encoding=pyamf.AMF3)
+        pyamf.decode(stream, encoding=pyamf.AMF3).next()
     except (SystemExit, KeyboardInterrupt):
         raise
     except:
-- 
2.43.0


From b644aba147824c744599f999f3a365a5b0768a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 44/57] fix: accept a class alias that is non-ASCII text

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 0f5cc74..463f59b 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -37,7 +37,7 @@ class ClassAlias(object):
         self.klass = klass
         self.alias = alias
 
-        if hasattr(self.alias, 'decode'):
+        if isinstance(self.alias, bytes):
             self.alias = self.alias.decode('utf-8')
 
         self.static_attrs = kwargs.pop('static_attrs', None)
-- 
2.43.0


From bc153b801b3681c2315576cd7661d400c6b263a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 45/57] fix: leave the text after an XML element out of its
 document

---
 pyamf/xml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyamf/xml.py b/pyamf/xml.py
index 3fef97f..2638d4a 100644
--- a/pyamf/xml.py
+++ b/pyamf/xml.py
@@ -7,6 +7,8 @@ Provides XML support.
 @since: 0.6
 """
 
+import copy
+
 #: list of supported third party packages that support the C{etree}
 #: interface. At least enough for our needs anyway.
 ETREE_MODULES = [
@@ -152,6 +154,11 @@ def tostring(element, *args, **kwargs):
             '(type %r)' % (element, t)
         )
 
+    if getattr(element, 'tail', None):
+        # the text after an element is not part of it
+        element = copy.copy(element)
+        element.tail = None
+
     return etree.tostring(element, *args, **kwargs)
 
 
-- 
2.43.0


From 39c790104604eeec353e04b5145549686ff27866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 46/57] fix: read AMF0 XML documents with non-ASCII content

---
 pyamf/amf0.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 332833a..b12eea9 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -381,9 +381,10 @@ class Decoder(codec.Decoder):
         """
         Read XML.
         """
-        data = self.readLongString()
+        l = self.stream.read_ulong()
+        # the parser decodes the document itself
         root = xml.fromstring(
-            data,
+            self.stream.read(l),
             forbid_dtd=self.context.forbid_dtd,
             forbid_entities=self.context.forbid_entities,
         )
-- 
2.43.0


From 7444592ec8ab7f8e9eb6e43c8f0efe6d1c58e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 47/57] fix: encode XML with non-ASCII names

---
 pyamf/amf0.py | 2 +-
 pyamf/amf3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index b12eea9..1784993 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -674,7 +674,7 @@ class Encoder(codec.Encoder):
 
         self.writeType(TYPE_XML)
 
-        data = xml.tostring(e)
+        data = xml.tostring(e, encoding='utf-8')
 
         if isinstance(data, unicode):
             data = data.encode('utf-8')
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d09eabe..e2e2bfd 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1583,7 +1583,7 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        data = xml.tostring(n).encode('utf-8')
+        data = xml.tostring(n, encoding='utf-8')
 
         # the document is always written inline, it is not part of the string
         # reference table
-- 
2.43.0


From b74c55008e3f494cfa34d34258eb0db1b67cab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 48/57] fix: write small messages whose identifiers are no
 UUIDs

---
 pyamf/flex/messaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..6517ab6 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -200,7 +200,8 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
+                # written with the other attributes
                 continue
 
             byte |= flag
-- 
2.43.0


From 5eed668a569afcd5c8045780ab007306bb9b8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 49/57] fix: keep false values and numeric times in small
 messages

---
 pyamf/flex/messaging.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 6517ab6..65d374b 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -12,6 +12,7 @@ This module contains the message classes used with Flex Data Services.
 @since: 0.1
 """
 
+import datetime
 import uuid
 
 import pyamf.util
@@ -143,11 +144,13 @@ class AbstractMessage(object):
         """
         obj = getattr(self, attr)
 
-        if not obj:
-            return obj
+        if attr == 'headers' and not obj:
+            # what a message has if none are read
+            return None
 
         if attr in ['timestamp', 'timeToLive']:
-            return pyamf.util.get_timestamp(obj) * 1000.0
+            if isinstance(obj, datetime.date):
+                return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
                 return None
@@ -189,7 +192,7 @@ class AbstractMessage(object):
         for flag in self.SMALL_ATTRIBUTE_FLAGS:
             value = self.encodeSmallAttribute(self.SMALL_ATTRIBUTES[flag])
 
-            if value:
+            if value is not None:
                 byte |= flag
                 flag_attrs.append(value)
 
@@ -423,7 +426,7 @@ class CommandMessage(AsyncMessage):
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
-        if self.operation:
+        if self.operation is not None:
             output.writeUnsignedByte(0x01)
             output.writeObject(self.operation)
         else:
-- 
2.43.0


From f31f7646d646f32a757cf78e63b2fd5b06524fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 50/57] fix: skip the fields of small messages that are not
 known

---
 pyamf/flex/messaging.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 65d374b..8d3be2d 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -184,6 +184,8 @@ class AbstractMessage(object):
                         attr = self.SMALL_UUIDS[flag]
                         setattr(self, attr, decode_uuid(input.readObject()))
 
+                skip_fields(input, byte, 0x01 | 0x02)
+
     def __writeamf__(self, output):
         flag_attrs = []
         uuid_attrs = []
@@ -279,6 +281,8 @@ class AsyncMessage(AbstractMessage):
         if byte & 0x02:
             self.correlationId = decode_uuid(input.readObject())
 
+        skip_fields(input, byte, 0x01 | 0x02)
+
     def __writeamf__(self, output):
         AbstractMessage.__writeamf__(self, output)
 
@@ -327,6 +331,8 @@ class AcknowledgeMessage(AsyncMessage):
                 )
             )
 
+        skip_fields(input, flags[0], 0)
+
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
@@ -423,6 +429,8 @@ class CommandMessage(AsyncMessage):
         if byte & 0x01:
             self.operation = input.readObject()
 
+        skip_fields(input, byte, 0x01)
+
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
@@ -568,6 +576,15 @@ def read_flags(input):
     return flags
 
 
+def skip_fields(input, flags, known):
+    """
+    Reads the fields that C{flags} announces and this version does not know.
+    """
+    for flag in AbstractMessage.SMALL_ATTRIBUTE_FLAGS:
+        if flags & flag and not flag & known:
+            input.readObject()
+
+
 def decode_uuid(obj):
     """
     Decode a L{ByteArray} contents to a C{uuid.UUID} instance.
-- 
2.43.0


From 694bcfc0267ae89873f44253a8413b93530e5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 51/57] fix: post process AMF3 data in an AMF0 element once, as
 part of the element

The decoder of the embedded AMF3 data post processed every such value, and the
AMF0 decoder then post processed the element they are a part of.
---
 pyamf/amf0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 1784993..bd7ede0 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -137,6 +137,11 @@ class Context(codec.Context):
             forbid_entities=self.forbid_entities
         )
 
+        # the AMF3 element is a part of an AMF0 one, which is post processed as
+        # a whole once it is complete
+        decoder.context.extra = self.extra
+        decoder.finalise = lambda payload: payload
+
         self.extra['amf3_decoder'] = decoder
 
         return decoder
-- 
2.43.0


From a93393d28b139da5356bbbb031dad6aedc8ad58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 52/57] fix: run the hooks of a module whose first import
 failed after others were loaded

A failed import removed the module that was loaded last from the list of the
modules being imported, instead of its own name.
---
 pyamf/util/imports.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..de4355c 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -39,7 +39,7 @@ class ModuleFinder(object):
 
     @ivar post_load_hooks: C{dict} of C{full module path -> callable} to be
         executed when the module is imported.
-    @ivar loaded_modules: C{list} of modules that this finder has seen. Used
+    @ivar loaded_modules: C{list} of modules that this finder is loading. Used
         to stop recursive imports in L{load_module}
     @see: L{when_imported}
     @since: 0.5
@@ -84,10 +84,9 @@ class ModuleFinder(object):
 
             mod = sys.modules[name]
             self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        finally:
+            # other modules may have been loaded in the meantime
+            self.loaded_modules.remove(name)
 
         return mod
 
-- 
2.43.0


From 8b48e4cfad861d3d3421f3d305ebe7841c711b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 53/57] fix: refuse to encode modules and classes that have a
 metaclass

---
 pyamf/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 7d7e1f8..38250df 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -554,13 +554,13 @@ class Encoder(_Codec):
             return self.writeSequence
 
         # now try some types that won't encode
-        if t in python.class_types:
+        if isinstance(data, python.class_types):
             # can't encode classes
             return None
         elif isinstance(data, python.func_types):
             # can't encode code objects
             return None
-        elif isinstance(t, types.ModuleType):
+        elif isinstance(data, types.ModuleType):
             # cannot encode module objects
             return None
 
-- 
2.43.0


From 60b3e14b204ff36b571ef09bca0de0179bbad99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 54/57] fix: look up the encoder of an old style instance by
 its class

The encoder remembered for one instance was used for the instances of every
other old style class, whose custom types were confused.
---
 pyamf/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 38250df..562b7fc 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -575,6 +575,10 @@ class Encoder(_Codec):
         key = type(data)
         func = None
 
+        if key is types.InstanceType:
+            # all instances of old style classes have this type
+            key = data.__class__
+
         try:
             func = self._func_cache[key]
         except KeyError:
-- 
2.43.0


From 55c384405416311c6b27bfd34ac12d709d716476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 55/57] fix: encode a weak reference whose object is gone as
 null

---
 pyamf/adapters/_weakref.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/adapters/_weakref.py b/pyamf/adapters/_weakref.py
index ba0fbad..98a4306 100644
--- a/pyamf/adapters/_weakref.py
+++ b/pyamf/adapters/_weakref.py
@@ -20,8 +20,14 @@ class Foo(object):
 weakref_type = type(weakref.ref(Foo()))
 
 
-def get_referent(reference, **kwargs):
-    return reference()
+def get_referent(reference, encoder):
+    referent = reference()
+
+    if referent is None:
+        # returning None would leave the element out of the stream
+        encoder.writeNull(None)
+
+    return referent
 
 
 pyamf.add_type(weakref_type, get_referent)
-- 
2.43.0


From ae81c2b4c66e1f73986baae1fe59d8e0c171de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 56/57] fix: custom types registered as a list can be removed

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index d2246b4..f25b4eb 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -645,6 +645,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From cf8de45973d74c3395de0621e9a8f6910d8d4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 57/57] fix: send an identifier that starts like compressed
 data as it is

Its ByteArray counted as compressed, so the identifier was sent compressed and
could not be read back.
---
 pyamf/flex/messaging.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 8d3be2d..87013bd 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -210,7 +210,7 @@ class AbstractMessage(object):
                 continue
 
             byte |= flag
-            uuid_attrs.append(amf3.ByteArray(value.bytes))
+            uuid_attrs.append(encode_uuid(value))
 
         del attr
 
@@ -291,7 +291,7 @@ class AsyncMessage(AbstractMessage):
             output.writeObject(self.correlationId)
         else:
             output.writeUnsignedByte(0x02)
-            output.writeObject(pyamf.amf3.ByteArray(self.correlationId.bytes))
+            output.writeObject(encode_uuid(self.correlationId))
 
     def getSmallMessage(self):
         """
@@ -585,6 +585,17 @@ def skip_fields(input, flags, known):
             input.readObject()
 
 
+def encode_uuid(obj):
+    """
+    Encode a L{uuid.UUID} to the L{amf3.ByteArray} that represents it.
+    """
+    data = amf3.ByteArray(obj.bytes)
+    # these very bytes are sent, whatever they start with
+    data.compressed = False
+
+    return data
+
+
 def decode_uuid(obj):
     """
     Decode a L{ByteArray} contents to a C{uuid.UUID} instance.
-- 
2.43.0

