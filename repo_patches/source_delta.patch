From 86a2fce4ac0291d4f499d09eec6c6e675a775933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 01/75] fix: return the compiled path expression when the path
 cache is full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From 94da6c1075767e14b722e9c791d301d8ca71f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 02/75] fix: honour a slice stop of 0 and malformed slices in
 element paths

---
 flatland/schema/paths.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..96f006a 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -128,7 +128,11 @@ def tokenize(path):
 
         # [:] or [123] or [1:] or [5] etc.
         elif slice_spec:
-            tokens.append(_parse_slice(slice_spec))
+            try:
+                tokens.append(_parse_slice(slice_spec))
+            except ValueError:
+                # [-] or [1:-] etc., not an index or a slice
+                tokens.append((NAME, token))
 
         # /foo/bar[quux]/ -> 'foo', 'bar[quux]'
         elif token.startswith('[') and last_type is NAME:
@@ -184,7 +188,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 249b2bb92f142a0206c88604e169ffb32f97419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 03/75] fix: String.set returns False for undecodable byte
 strings

---
 flatland/schema/scalars.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..8f7c93b 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -180,10 +180,14 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
+        try:
+            value = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        if self.strip:
+            return value.strip()
         else:
-            return six.text_type(value)
+            return value
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From ac124b726f36b0898fc5fa5551295b0350b1c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 04/75] fix: treat malformed slices in element paths as names

---
 flatland/schema/paths.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 96f006a..4c8eab9 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -32,6 +32,7 @@ _tokenize_re = re.compile(r"""
       \[
     )
     """, re.VERBOSE)
+_slice_re = re.compile(r'-?\d+$|(?:-?\d+)?:(?:-?\d+)?(?::(?:-?\d+)?)?$')
 _unescape_re = re.compile(r"\\(/|\[|\]|\.)")
 
 
@@ -108,6 +109,10 @@ def tokenize(path):
     canonical = True
 
     for token, slice_spec in _tokenize_re.findall(path):
+        # [-] and [1:-] etc. have the look of a slice but are names
+        if slice_spec and not _slice_re.match(slice_spec):
+            slice_spec = u''
+
         if token == '/':
             # '/foo' -> TOP, 'foo'
             if last is None:
@@ -128,11 +133,7 @@ def tokenize(path):
 
         # [:] or [123] or [1:] or [5] etc.
         elif slice_spec:
-            try:
-                tokens.append(_parse_slice(slice_spec))
-            except ValueError:
-                # [-] or [1:-] etc., not an index or a slice
-                tokens.append((NAME, token))
+            tokens.append(_parse_slice(slice_spec))
 
         # /foo/bar[quux]/ -> 'foo', 'bar[quux]'
         elif token.startswith('[') and last_type is NAME:
-- 
2.43.0


From e0f591e4bd161089941003bfabc4cbffb36e42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 05/75] fix: Decimal.set returns False for NaNs it can not
 represent

---
 flatland/schema/scalars.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 8f7c93b..7ff9c72 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -250,13 +250,11 @@ class Number(Scalar):
             value = value.strip()  # decimal.Decimal doesn't like whitespace
         try:
             native = self.type_(value)
+            if not self.signed and native < 0:
+                raise AdaptationError()
         except (ValueError, TypeError, ArithmeticError):
             raise AdaptationError()
-        else:
-            if not self.signed:
-                if native < 0:
-                    raise AdaptationError()
-            return native
+        return native
 
     def serialize(self, value):
         """Generic numeric serialization.
@@ -313,6 +311,13 @@ class Decimal(Number):
     format = u'%f'
     """``u'%f'``"""
 
+    def adapt(self, value):
+        native = Number.adapt(self, value)
+        # signaling NaNs raise on any use, including formatting.
+        if isinstance(native, decimal.Decimal) and native.is_snan():
+            raise AdaptationError()
+        return native
+
 
 class Boolean(Scalar):
     """Element type for Python's ``bool``."""
-- 
2.43.0


From bba26f497e8fb681109dfd79663114684d688bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 06/75] fix: Array.set_flat ignores keys that do not address
 its members

---
 flatland/schema/containers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..e82dcd7 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -655,13 +655,12 @@ class Array(Sequence):
                "Flattened Arrays are only supported for scalar child types."
 
         if not self.name:
-            child_prefix = child_name or u''
             for key, value in pairs:
-                if prune and value == u'' and key == child_prefix:
-                    continue
                 if key == u'':
                     key = None
-                if child_name and key != child_name:
+                if key != child_name:
+                    continue
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
@@ -669,15 +668,13 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
-                m = regex.match(key)
+                m = regex.match(key or u'')
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
-                    continue
-                elif remainder and not child_name:
+                if remainder != child_name:
                     continue
-                elif prune and value == u'' and remainder == child_name:
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(remainder, value)])
                 self.append(member)
-- 
2.43.0


From c1692f5503037b03a41d02c32321811706af6113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 07/75] fix: Array.set_flat matches the flattened name exactly

---
 flatland/schema/containers.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index e82dcd7..ebbc500 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -665,18 +665,15 @@ class Array(Sequence):
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
         else:
-            regex = re.compile(u'^(%s(?:%s|$))' % (
-                re_uescape(self.name), re_uescape(sep)), re.UNICODE)
+            flat_name = self.name
+            if child_name:
+                flat_name += sep + child_name
             for key, value in pairs:
-                m = regex.match(key or u'')
-                if not m:
-                    continue
-                remainder = key[m.end():] or None
-                if remainder != child_name:
+                if key != flat_name:
                     continue
                 elif prune and value == u'':
                     continue
-                member = self.member_schema.from_flat([(remainder, value)])
+                member = self.member_schema.from_flat([(child_name, value)])
                 self.append(member)
 
 
-- 
2.43.0


From abe1a0858c2e7da83a3712902b5cb22305ae47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 08/75] fix: set_flat ignores list members keyed without a
 field name

---
 flatland/schema/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index ebbc500..d4c0d54 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -564,7 +564,8 @@ class List(Sequence):
         for key, value in pairs:
             if value == u'' and prune:
                 continue
-            m = regex.match(key)
+            # a key of None addresses the list itself, and not a member
+            m = regex.match(key) if key is not None else None
             if not m:
                 continue
             try:
@@ -829,6 +830,8 @@ class Mapping(Container, dict):
         return converted
 
     def _set_flat(self, pairs, sep):
+        # a key of None addresses the mapping itself, and not a field
+        pairs = [(key, value) for key, value in pairs if key is not None]
         if self.name is None:
             possibles = pairs  # accept all
         else:
-- 
2.43.0


From a6344bd56f77ed23f2a4ddf03bed47bc4ef67750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 09/75] fix: SparseDict.set_flat does not create fields that
 share a name prefix

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index d4c0d54..0b423cf 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -853,7 +853,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From 35cb45f050c5786d10adfc0ff559d7025228a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 10/75] fix: set_by_object sets SparseDict fields and renamed
 attributes that are omitted

---
 flatland/schema/containers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0b423cf..bf7728a 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1067,15 +1067,15 @@ class Dict(Mapping, dict):
           >>> new_user = User(**user_keywords)
 
         """
-        fields = set(six.iterkeys(self))
+        fields = set(six.iterkeys(self.field_schema_mapping))
         attributes = fields.copy()
-        if rename:
-            rename = list(to_pairs(rename))
-            attributes.update(key for key, value in rename
-                                  if value in attributes)
         if omit:
             omit = list(omit)
             attributes.difference_update(omit)
+        if rename:
+            rename = list(to_pairs(rename))
+            attributes.update(key for key, value in rename
+                                  if value in fields)
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From b9e15e1fe9f06cb9025a89c26c3a8d721248ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 11/75] fix: sequence item assignment accepts elements

---
 flatland/schema/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index bf7728a..203d7f0 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
@@ -494,9 +494,11 @@ class List(Sequence):
             value = [self._new_slot(item) for item in value]
             list.__setitem__(self, index, value)
             self._renumber()
+        elif isinstance(value, Element):
+            list.__setitem__(self, index, self._new_slot(value))
+            self._renumber()
         else:
-            slot = self[index]
-            slot.set(value)
+            self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From 1afd2665701d4ad946cf83e31c7b5e50d6b8d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 12/75] fix: List.pop returns the element and not its internal
 slot

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 203d7f0..225141e 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -517,7 +517,7 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        value = list.pop(self, index).element
         self._renumber()
         value.parent = None
         return value
-- 
2.43.0


From 82faa311a526ba2161970b31f4d14552e418374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 13/75] fix: List.sort passes elements to the key function

---
 flatland/schema/containers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 225141e..dc0db5d 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -532,7 +532,11 @@ class List(Sequence):
 
     def sort(self, cmp=None, key=None, reverse=False):
         assert cmp is None  # no cmp for list.sort in py3
-        list.sort(self, key=key, reverse=reverse)
+        if key is not None:
+            list.sort(self, key=lambda slot: key(slot.element),
+                      reverse=reverse)
+        else:
+            list.sort(self, reverse=reverse)
         self._renumber()
 
     def reverse(self):
-- 
2.43.0


From 687cfc7f3d4dc97ba51e850c433520adb33fda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 14/75] fix: += on sequences wraps plain values in elements

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index dc0db5d..649b928 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From d1dc4891c00f3884867db481552fe60463cd3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 15/75] fix: fq_name refers to array members by their index

---
 flatland/schema/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..bd184ab 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,9 +475,18 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
-            parts.append(element.name)
+            parts.append(element._path_name())
         return sep + sep.join(parts)
 
+    def _path_name(self):
+        """Return the name :meth:`el` finds this element by in its parent."""
+        if isinstance(self.parent, list):
+            # members of sequences without Slots
+            for idx, sibling in enumerate(self.parent):
+                if sibling is self:
+                    return six.text_type(str(idx))
+        return self.name
+
     def find(self, path, single=False, strict=True):
         """Find child elements by string path.
 
-- 
2.43.0


From 5f8bcedc7de0a6bbfae25db7f5abcd961439774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 16/75] fix: '..' in element paths ascends to false parents and
 from list members

---
 flatland/schema/paths.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 4c8eab9..69125fe 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -65,8 +65,13 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
-                        el = el.parent
+                    parent = el.parent
+                    # list members are children of the list, not of its
+                    # internal slots
+                    if isinstance(parent, _slot_type()):
+                        parent = parent.parent
+                    if parent is not None:
+                        el = parent
                 elif op is HERE:
                     pass
                 elif op is NAME:
@@ -100,6 +105,12 @@ class PathExpression(object):
         return 'pathexpr(%r)' % self.__unicode__()
 
 
+def _slot_type():
+    # deferred, the base module imports this one.
+    from flatland.schema.base import Slot
+    return Slot
+
+
 # TODO: glob syntax  foo/*/baz  sneep/_*/squiznart
 
 def tokenize(path):
-- 
2.43.0


From 1576a01aa07b07c86dc9f670435aa9b6c952045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 17/75] fix: DateYYYYMMDD.set clears on None and returns False
 for unadaptable values

---
 flatland/schema/compound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..21bd1d8 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -238,10 +238,11 @@ class DateYYYYMMDD(Compound, Date):
 
             for attrib, child_schema in zip(self.used, self.field_schema):
                 self[child_schema.name].set(
-                    getattr(value, attrib))
+                    None if value is None else getattr(value, attrib))
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
+            return False
 
 
 class JoinedString(Array, String):
-- 
2.43.0


From 3a6fd5e82da7fa6574ca1f3f302a7e2d98f531ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 18/75] fix: JoinedString.set does not raise and its string
 defaults are split

---
 flatland/schema/compound.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 21bd1d8..10b18f1 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -295,10 +295,16 @@ class JoinedString(Array, String):
     children_flattenable = False
 
     def set(self, value):
+        self.raw = value
         if isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-            values = list(value)
+            try:
+                values = list(value)
+            except TypeError:
+                # as Array.set
+                del self[:]
+                return False
         elif self.separator_regex:
             # a basestring, regexp separator
             values = self.separator_regex.split(value)
@@ -317,6 +323,11 @@ class JoinedString(Array, String):
             self.append(child)
         return all(success)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
-- 
2.43.0


From fcd6cf73e714d1acd1e853e4f74e730991ed13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 19/75] fix: Ref always refers to the current target element

---
 flatland/schema/scalars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 7ff9c72..ad3070c 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -10,7 +10,6 @@ from flatland.util import (
     as_mapping,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -591,7 +590,7 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @property
     def target(self):
         return self.root.el(self.target_path)
 
-- 
2.43.0


From 3e4468740c7ce98190d7a6af34d5758fc12d4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 20/75] fix: validate(recurse=False) fails if descent
 validation failed

---
 flatland/schema/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index bd184ab..46c7712 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -800,10 +800,10 @@ class Element(_BaseElement):
 
             up = self._validate(state, False)
             # an Unevaluated ascent validator does not override the results
-            # of descent validation
-            if up is not Unevaluated:
+            # of descent validation, nor does a passing one a failed descent
+            if up is not Unevaluated and self.valid:
                 self.valid = bool(up)
-            return self.valid
+            return bool(self.valid)
 
         valid = True
         elements, seen, queue = [], set(), collections.deque([self])
-- 
2.43.0


From 1e96ef06bde0001694b701dc80773dadb5ea2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 21/75] fix: pop and setdefault on properties honour
 inheritance and deletions

---
 flatland/schema/properties.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..c03afd7 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
@@ -201,15 +205,20 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        self[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 055a3725385313721c446b2be5cac9c234d78257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 22/75] fix: expand messages when the validation state is a
 string or sequence

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From 4789d43260c23593f25d362eeb24ab10be94883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 23/75] fix: MapEqual's default transform is callable

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 34ca1195c234d5c4f27e366c09c5bccb07f5b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 24/75] fix: HTTPURLValidator enforces required parts and
 rejects unparseable URLs

---
 flatland/validation/network.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..d5db309 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except Exception:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
@@ -269,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From bc7e3ea65a0271c862ff509792ab049814ca3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 25/75] fix: IsEmail rejects a newline after the domain

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index d5db309..b3bdaa3 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From 76c1220584b361a9c2162f4357cf4d8f69a6a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 26/75] fix: NANPphone formats extensions

---
 flatland/validation/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..43467ea 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,10 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]),
+                                    int(value[3:6]),
+                                    int(value[6:10]),
+                                    int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From 137cdd8e66c4aba5fcf535bdfeb942e1ffa9a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 27/75] fix: luhn10 terminates on negative numbers

---
 flatland/util/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..6535528 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -222,6 +222,7 @@ def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
     sum = 0
+    number = abs(number)
     while number:
         r = number % 100
         number //= 100
-- 
2.43.0


From e8f9c9bf06af82db3fa3455fc711be17a3b1aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 28/75] fix: NANPnpa_nxx accepts message overrides and
 errors_to

---
 flatland/validation/number.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/number.py b/flatland/validation/number.py
index dc6081b..52dfc5e 100644
--- a/flatland/validation/number.py
+++ b/flatland/validation/number.py
@@ -36,8 +36,9 @@ class NANPnpa_nxx(Validator):
         assert isinstance(nxx_element, six.string_types)
         assert isinstance(errors_to, (six.string_types, type(None)))
 
-        Validator.__init__(self, *kw)
+        Validator.__init__(self, **kw)
 
+        self.errors_to = errors_to
         self.npa = npa_element
         self.nxx = nxx_element
         self.lookup = lookup
@@ -48,7 +49,7 @@ class NANPnpa_nxx(Validator):
         nxx = element.find(self.nxx, single=True).value
 
         if self.errors_to:
-            err = element.find(self.errors_to)
+            err = element.find(self.errors_to, single=True)
         else:
             err = element
 
-- 
2.43.0


From ff0a76c10dbd41be655dcb6e801b8cc8c85a5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 29/75] fix: container length validators count sequence members

---
 flatland/validation/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..59ea22e 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,7 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
+        length = len(element)
         if self.minimum <= length <= self.maximum:
             return True
 
-- 
2.43.0


From 528b6e2f2ce4aaa25963cf2af98d75811711e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 30/75] fix: credit card types that are not accepted are
 reported and not raised

---
 flatland/ext/creditcard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..f8cab8d 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From cf55dc05f68949c1c4adf89286796cee071f079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 31/75] fix: accept 13 digit Visa numbers

---
 flatland/ext/creditcard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index f8cab8d..539ec81 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -76,7 +76,7 @@ class CreditCardNumber(Long):
 
             return self.note_error(element, state, 'not_accepted')
 
-_re_visa = re.compile(r'^4\d{12}\d{3}?$')
+_re_visa = re.compile(r'^4\d{12}(?:\d{3})?$')
 _re_mc   = re.compile(r'^5[1-5]\d{14}$')
 _re_amex = re.compile(r'^3[47]\d{13}$')
 _re_disc = re.compile(r'^6011\d{12}$')
@@ -98,7 +98,7 @@ def _card_type(number):
         return None
 
 _re_strip = re.compile(r'[^0-9]')
-_re_filler = re.compile(r'^[0-9\s-]{15,}$')
+_re_filler = re.compile(r'^[0-9\s-]{13,}$')
 
 def _from_string(number):
     if number is None:
-- 
2.43.0


From 092edfdf48c09037018be06db51b38da60a448cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 32/75] fix: Generator.tag renders form tags as their own
 methods do

---
 flatland/out/markup.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..2e2bcfb 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -7,6 +7,8 @@ import six
 
 _default_settings = {u'ordered_attributes': True}
 _static_attribute_order = [u'type', u'name', u'value']
+_form_tags = (u'form', u'input', u'textarea', u'button', u'select',
+              u'option', u'label')
 
 
 class Generator(Context):
@@ -197,10 +199,14 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        if tagname in _form_tags:
+            tag = getattr(self, tagname)
+        else:
+            tag = self._tag(tagname)
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From c4cb312eaeb02e08a96182938901e90e7435eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 33/75] fix: temporal types reject a newline after the text

---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index ad3070c..b148c2c 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -529,7 +529,7 @@ class DateTime(Temporal):
     type_ = datetime.datetime
     regex = re.compile(
         u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2}) '
-        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = (u'%(year)04i-%(month)02i-%(day)02i '
               u'%(hour)02i:%(minute)02i:%(second)02i')
     used = (u'year', u'month', u'day', u'hour', u'minute', u'second')
@@ -544,7 +544,7 @@ class Date(Temporal):
 
     type_ = datetime.date
     regex = re.compile(
-        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})$')
+        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})\\Z')
     format = u'%(year)04i-%(month)02i-%(day)02i'
     used = (u'year', u'month', u'day')
 
@@ -558,7 +558,7 @@ class Time(Temporal):
 
     type_ = datetime.time
     regex = re.compile(
-        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = u'%(hour)02i:%(minute)02i:%(second)02i'
     used = (u'hour', u'minute', u'second')
 
-- 
2.43.0


From 870bf6d7fcd5a6ed325fef34d2ce5d4c255bbf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 34/75] fix: flatten() omits the members of nested
 JoinedStrings

---
 flatland/schema/base.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 46c7712..9b4db5a 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -697,14 +697,16 @@ class Element(_BaseElement):
           [(u'contact_name', u'')]
 
         """
-        if self.flattenable:
-            pairs = [(self.flattened_name(sep), value(self))]
-        else:
-            pairs = []
-        if self.children_flattenable:
-            pairs.extend((e.flattened_name(sep), value(e))
-                         for e in self.all_children
-                         if e.flattenable)
+        pairs, seen, queue = [], set(), collections.deque([self])
+        while queue:
+            element = queue.popleft()
+            if id(element) in seen:
+                continue
+            seen.add(id(element))
+            if element.flattenable:
+                pairs.append((element.flattened_name(sep), value(element)))
+            if element.children_flattenable:
+                queue.extend(element.children)
         return pairs
 
     def set(self, value):
-- 
2.43.0


From 6c2b6ea6acbd969cbf3752336fa228ec8f8b7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 35/75] fix: list indexes in flat data are not followed by a
 newline

---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 649b928..39bbe1c 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -562,10 +562,10 @@ class List(Sequence):
             return
 
         if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
-- 
2.43.0


From 259c8c6acb8e0c8056c2dd91c19992ce4d0715db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 36/75] fix: slices of sequences that start or end before the
 first member

---
 flatland/schema/containers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 39bbe1c..0a7ed5b 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -340,7 +340,8 @@ class Sequence(Container, list):
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-        self.__setitem__(slice(i, j), value)
+        # Python 2 adds the length to negative indexes, just once
+        self.__setitem__(slice(max(0, i), max(0, j)), value)
 
     def remove(self, value):
         """Remove member with value *value*.
@@ -491,7 +492,7 @@ class List(Sequence):
         return list.__getitem__(self, index).element
 
     def __getslice__(self, i, j):
-        return self.__getitem__(slice(i, j))
+        return self.__getitem__(slice(max(0, i), max(0, j)))
 
     def __setitem__(self, index, value):
         if isinstance(index, slice):
@@ -505,7 +506,7 @@ class List(Sequence):
             self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
-        return self.__setitem__(slice(i, j), sequence)
+        return self.__setitem__(slice(max(0, i), max(0, j)), sequence)
 
     def __iter__(self):
         for i in list.__iter__(self):
@@ -518,7 +519,7 @@ class List(Sequence):
         self._renumber()
 
     def __delslice__(self, i, j):
-        return self.__delitem__(slice(i, j))
+        return self.__delitem__(slice(max(0, i), max(0, j)))
 
     def pop(self, index=-1):
         value = list.pop(self, index).element
-- 
2.43.0


From a674bc25b04659036807c665eb4963068495977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 37/75] fix: find() takes names with characters outside of the
 BMP

---
 flatland/schema/paths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 69125fe..34cf39b 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -119,7 +119,9 @@ def tokenize(path):
     last, last_type = None, None
     canonical = True
 
-    for token, slice_spec in _tokenize_re.findall(path):
+    # not findall(), which cuts tokens at astral characters in Jython
+    for match in _tokenize_re.finditer(path):
+        token, slice_spec = match.group(1), match.group(2) or u''
         # [-] and [1:-] etc. have the look of a slice but are names
         if slice_spec and not _slice_re.match(slice_spec):
             slice_spec = u''
-- 
2.43.0


From f4b39ae1cbb555d1bde7532235f4ddc265c776cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 38/75] fix: MapEqual message for elements without a label

---
 flatland/validation/scalars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index a85162b..1a950d6 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -2,6 +2,7 @@ from operator import attrgetter
 
 from flatland.util import Unspecified
 from .base import N_, Validator
+import six
 
 
 class Present(Validator):
@@ -567,7 +568,7 @@ class MapEqual(Validator):
         sample = fn(elements[0])
         if all(fn(el) == sample for el in elements[1:]):
             return True
-        labels = ', '.join(el.label for el in elements[:-1])
+        labels = u', '.join(six.text_type(el.label) for el in elements[:-1])
         last_label = elements[-1].label
         return self.note_error(element, state, 'unequal',
                                labels=labels, last_label=last_label)
-- 
2.43.0


From 400be01d393470141370e85b42388d3051a64f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 39/75] fix: plural messages with a count given as a number, or
 not numeric

---
 flatland/validation/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 32b5b59..378cf1e 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -239,14 +239,17 @@ class Validator(object):
                 'ungettext', element, state, message)
 
             single, plural, n_key = message
-            try:
-                n = format_map[n_key]
-                try:
-                    n = int(n)
-                except TypeError:
-                    pass
-            except KeyError:
+            if isinstance(n_key, six.integer_types):
                 n = n_key
+            else:
+                try:
+                    n = format_map[n_key]
+                    try:
+                        n = int(n)
+                    except (TypeError, ValueError):
+                        pass
+                except KeyError:
+                    n = n_key
 
             if ungettext:
                 message = ungettext(single, plural, n)
-- 
2.43.0


From 08d7c633605d5606786144fe0251fa92d327260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 40/75] fix: classes sharing one Properties object do not share
 their changes

---
 flatland/schema/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index c03afd7..242057c 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -144,7 +144,7 @@ class _TypeLookup(DictLike):
             if cls not in self.map:
                 if member is None or id(member) != self.descriptor_id:
                     continue
-                self.map.setdefault(cls, member.initial_set)
+                self.map.setdefault(cls, dict(member.initial_set))
             yield self.map[cls]
             if member is not None and id(member) == self.descriptor_id:
                 break
@@ -158,7 +158,7 @@ class _TypeLookup(DictLike):
         if 'properties' in self.base.__dict__:
             member = self.base.__dict__['properties']
             if id(member) == self.descriptor_id:
-                return self.map.setdefault(self.base, member.initial_set)
+                return self.map.setdefault(self.base, dict(member.initial_set))
         return self.map.setdefault(self.base, {})
 
 
-- 
2.43.0


From 80ff345ae2f41bde5fe97229f9e4ba7a957f42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:30 +0000
Subject: [PATCH 41/75] fix: u of a Dict does not depend on the order its keys
 were set in

---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0a7ed5b..d254201 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -890,9 +890,9 @@ class Mapping(Container, dict):
         pairs = ((key, value.u if isinstance(value, Container)
                                else decode_repr(value.u))
                   for key, value in six.iteritems(self))
-        return u'{%s}' % u', '.join(
+        return u'{%s}' % u', '.join(sorted(
             u"%s: %s" % (decode_repr(k), v)
-            for k, v in pairs)
+            for k, v in pairs))
 
     @property
     def value(self):
-- 
2.43.0


From da6e8b275c9439cd95bf786ee8a2e775706788d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 42/75] fix: JoinedString.set of a byte string that is not text
 returns False

---
 flatland/schema/compound.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 10b18f1..6491d07 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -305,12 +305,17 @@ class JoinedString(Array, String):
                 # as Array.set
                 del self[:]
                 return False
-        elif self.separator_regex:
-            # a basestring, regexp separator
-            values = self.separator_regex.split(value)
         else:
-            # a basestring, static separator
-            values = value.split(self.separator)
+            try:
+                if self.separator_regex:
+                    # a basestring, regexp separator
+                    values = self.separator_regex.split(value)
+                else:
+                    # a basestring, static separator
+                    values = value.split(self.separator)
+            except UnicodeDecodeError:
+                del self[:]
+                return False
 
         del self[:]
         prune = self.prune_empty
-- 
2.43.0


From afca8e0ef0de7687245764dea8aba0f466469869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 43/75] fix: JoinedString keeps members that are 0

---
 flatland/schema/compound.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 6491d07..1c65919 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -321,10 +321,12 @@ class JoinedString(Array, String):
         prune = self.prune_empty
         success = []
         for value in values:
-            if prune and not value:
-                continue
             child = self.member_schema()
-            success.append(child.set(value))
+            adapted = child.set(value)
+            # a number 0 is not blank
+            if prune and not value and child.u == u'':
+                continue
+            success.append(adapted)
             self.append(child)
         return all(success)
 
-- 
2.43.0


From 330de775ca47a7b64f358a9234109be970860fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 44/75] fix: defaults of a tree do not clear the targets of its
 Refs

---
 flatland/schema/scalars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index b148c2c..727b9be 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -566,6 +566,9 @@ class Time(Temporal):
 class Ref(Scalar):
     flattenable = False
 
+    #: A Ref has no default of its own, defaults are those of the target.
+    default = Unspecified
+
     #######################################################################
     writable = 'ignore'
 
-- 
2.43.0


From 64cb7c3613e25252bd3bd223527bff52921598c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 45/75] fix: Refs that ignore assignments do so before they
 have a target

---
 flatland/schema/scalars.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 727b9be..bd1652e 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -585,6 +585,17 @@ class Ref(Scalar):
             raise TypeError("Could not parse path %r" % name)
         return cls
 
+    def set(self, value):
+        if self.writable == 'ignore':
+            try:
+                self.target
+            except KeyError:
+                # ignored as well before the tree has the target, such as
+                # in a new member of a sequence.
+                self.raw = value
+                return True
+        return Scalar.set(self, value)
+
     def adapt(self, value):
         return self.target.adapt(value)
 
-- 
2.43.0


From 3ae05158253bd07f856b493075c7326ec0ed37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 46/75] fix: set() of Refs to compounds and containers sets the
 target

---
 flatland/schema/scalars.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index bd1652e..31043cd 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -587,14 +587,15 @@ class Ref(Scalar):
 
     def set(self, value):
         if self.writable == 'ignore':
-            try:
-                self.target
-            except KeyError:
-                # ignored as well before the tree has the target, such as
-                # in a new member of a sequence.
-                self.raw = value
-                return True
-        return Scalar.set(self, value)
+            # the tree may not have the target yet, such as in a new member
+            # of a sequence.
+            self.raw = value
+            return True
+        elif self.writable:
+            self.raw = value
+            return self.target.set(value)
+        else:
+            raise TypeError(u'Ref "%s" is not writable.' % self.name)
 
     def adapt(self, value):
         return self.target.adapt(value)
-- 
2.43.0


From 811e5920af3016a5ae2b0cf716ec4d6199dca6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:08 +0000
Subject: [PATCH 47/75] fix: void elements have no end tag in html

---
 flatland/out/markup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2e2bcfb..c23e658 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -9,6 +9,9 @@ _default_settings = {u'ordered_attributes': True}
 _static_attribute_order = [u'type', u'name', u'value']
 _form_tags = (u'form', u'input', u'textarea', u'button', u'select',
               u'option', u'label')
+# elements that have no end tag in html
+_void_tags = (u'area', u'base', u'br', u'col', u'embed', u'hr', u'img',
+              u'link', u'meta', u'param', u'source', u'track', u'wbr')
 
 
 class Generator(Context):
@@ -202,7 +205,7 @@ class Generator(Context):
         if tagname in _form_tags:
             tag = getattr(self, tagname)
         else:
-            tag = self._tag(tagname)
+            tag = self._tag(tagname, tagname in _void_tags)
         if bind is None and not attributes:
             return tag
         else:
-- 
2.43.0


From 5f93ffc02e0402f375975191909b9668a3eff243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 48/75] fix: line ends and tabs in values survive a parser

---
 flatland/out/generic.py | 3 ++-
 flatland/out/markup.py  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 422e6f8..87e49ef 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -318,4 +318,5 @@ def _markup_escape(string):
         return string. \
                replace(u'&', u'&amp;'). \
                replace(u'<', u'&lt;'). \
-               replace(u'>', u'&gt;')
+               replace(u'>', u'&gt;'). \
+               replace(u'\r', u'&#13;')
diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index c23e658..a450edf 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -322,7 +322,10 @@ def _attribute_escape(string):
                replace(u'&', u'&amp;'). \
                replace(u'<', u'&lt;'). \
                replace(u'>', u'&gt;'). \
-               replace(u'"', u'&quot;')
+               replace(u'"', u'&quot;'). \
+               replace(u'\t', u'&#9;'). \
+               replace(u'\n', u'&#10;'). \
+               replace(u'\r', u'&#13;')
 
 
 def _unicode_keyed(bytestring_keyed):
-- 
2.43.0


From 6d50378c7462abbdce131a536b31ac61f280d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 49/75] fix: html textareas keep a leading newline

---
 flatland/out/markup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index a450edf..f235b82 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -275,6 +275,10 @@ class Tag(object):
             new_contents = u''
         elif hasattr(new_contents, '__html__'):
             new_contents = _unpack(new_contents)
+        if (tagname == u'textarea' and not self._context.xml and
+            new_contents[:1] == u'\n'):
+            # html ignores the first newline in a textarea
+            new_contents = u'\n' + new_contents
         self.contents = self._markup(new_contents)
 
         if self._context['ordered_attributes']:
-- 
2.43.0


From f4dd6a3831b3c92652e59166fe875029e49eee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:01 +0000
Subject: [PATCH 50/75] fix: radio buttons and check boxes without a value are
 left alone

---
 flatland/out/generic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 87e49ef..356670d 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -130,12 +130,12 @@ def transform_value(tagname, attributes, contents, context, bind):
     if tagname == u'input':
         subtype = attributes.get(u'type', u'')
         if subtype in (u'radio', u'checkbox'):
-            if subtype == u'checkbox':
-                current = attributes.get(u'value')
-                if current is None and isinstance(bind, Boolean):
-                    attributes[u'value'] = current = bind.true
-            else:
-                current = attributes.get(u'value', u'')
+            current = attributes.get(u'value')
+            if (current is None and subtype == u'checkbox' and
+                isinstance(bind, Boolean)):
+                attributes[u'value'] = current = bind.true
+            if current is None:
+                return contents
 
             if isinstance(bind, Array):
                 toggle = current in bind
-- 
2.43.0


From 4f2aa753a8dd0afef123a8c26ca62d6955b09132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 51/75] fix: set() with an unknown setting changes none

---
 flatland/out/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index f235b82..0a04421 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -72,10 +72,11 @@ class Generator(Context):
 
         """
 
-        for key, value in settings.items():
+        for key in settings:
             if key not in self:
                 raise TypeError(
                     "%r is not a valid argument." % key)
+        for key, value in settings.items():
             if key.startswith('auto_'):
                 value = parse_trool(value)
             self[key] = value
-- 
2.43.0


From 19d38f17494f7c211718b60ab9a23c08b81430c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 52/75] fix: checked and selected compare with the u of array
 members

---
 flatland/out/generic.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 356670d..56cb04d 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -137,10 +137,7 @@ def transform_value(tagname, attributes, contents, context, bind):
             if current is None:
                 return contents
 
-            if isinstance(bind, Array):
-                toggle = current in bind
-            else:
-                toggle = current == bind.u
+            toggle = _is_value_of(bind, current)
             if toggle:
                 attributes[u'checked'] = u'checked'
             else:
@@ -162,10 +159,7 @@ def transform_value(tagname, attributes, contents, context, bind):
             value = u''
         else:
             value = contents
-        if isinstance(bind, Array):
-            toggle = value in bind
-        else:
-            toggle = bind.u == value
+        toggle = _is_value_of(bind, value)
         if toggle:
             attributes[u'selected'] = u'selected'
         else:
@@ -272,6 +266,13 @@ def _pop_toggle(key, attributes, context):
     return value, forced
 
 
+def _is_value_of(bind, value):
+    """True if *value* is the u of *bind*, or of a member if an Array."""
+    if isinstance(bind, Array):
+        return any(value == member.u for member in bind)
+    return value == bind.u
+
+
 def _generate_raw_domid(tagname, attributes, bind):
     if bind is not None:
         basis = bind.flattened_name()
-- 
2.43.0


From 68d4fd96740c6001c6f99f5d828fcaa0141f9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:14 +0000
Subject: [PATCH 53/75] fix: SparseDict.set_default sets defaults on its fields
 in place

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index d254201..0d6cd44 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1242,7 +1242,7 @@ class SparseDict(Dict):
             for schema in self.field_schema:
                 if schema.optional:
                     continue
-                self[schema.name] = schema.from_defaults()
+                self[schema.name].set_default()
         else:
             raise RuntimeError("Unknown minimum_fields setting %r" %
                                (self.minimum_fields,))
-- 
2.43.0


From ddc9f6a883827b1623b07c2a2ab59b95fb20f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:32 +0000
Subject: [PATCH 54/75] fix: a long default gives a List that many members, as
 an int does

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0d6cd44..81b4878 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -631,7 +631,7 @@ class List(Sequence):
             return
 
         del self[:]
-        if isinstance(default, int):
+        if isinstance(default, six.integer_types):
             for _ in xrange(0, default):
                 slot = self._new_slot()
                 list.append(self, slot)
-- 
2.43.0


From 08ae03fc3cc55dbada115360e0bef8f069929732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 55/75] fix: flatland.util no longer lists two names that do
 not exist

---
 flatland/util/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/flatland/util/__init__.py b/flatland/util/__init__.py
index 68fdf44..ecdb6fe 100644
--- a/flatland/util/__init__.py
+++ b/flatland/util/__init__.py
@@ -14,9 +14,7 @@ deferred_module.shadow(
             'assignable_property',
             'autodocument_from_superclasses',
             'class_cloner',
-            'decorator',
             'decode_repr',
-            'format_argspec_plus',
             'keyslice_pairs',
             'lazy_property',
             'luhn10',
-- 
2.43.0


From f7906bcb64cdbfb276ac742b3dca26bae00e9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:28 +0000
Subject: [PATCH 56/75] fix: URLCanonicalizer also rewrites the text of the
 element

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index b3bdaa3..ef62b45 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -337,5 +337,5 @@ class URLCanonicalizer(Validator):
             current = url[idx]
             url[idx] = '' if current is not None else None
 
-        element.value = self.urlparse.urlunparse(url)
+        element.set(self.urlparse.urlunparse(url))
         return True
-- 
2.43.0


From 4dedeed433d8181126730f8eebbd0ba574688c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:44 +0000
Subject: [PATCH 57/75] fix: URLCanonicalizer turned paths into hosts, and was
 not idempotent

---
 flatland/validation/network.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index ef62b45..4e110d2 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -326,16 +326,28 @@ class URLCanonicalizer(Validator):
     def validate(self, element, state):
         if not self.discard_parts:
             return True
-        try:
-            url = self.urlparse.urlparse(element.value)
-        except Exception:
-            return self.note_error(element, state, 'bad_format')
+        value = element.value
+        while True:
+            try:
+                url = self.urlparse.urlparse(value)
+            except Exception:
+                return self.note_error(element, state, 'bad_format')
+
+            url = list(url)
+            for part in self.discard_parts:
+                idx = _url_parts.index(part)
+                current = url[idx]
+                url[idx] = '' if current is not None else None
+
+            if not url[1] and url[2] and url[2].startswith('//'):
+                # without a netloc, this is still a path.
+                url[2] = '//' + url[2]
 
-        url = list(url)
-        for part in self.discard_parts:
-            idx = _url_parts.index(part)
-            current = url[idx]
-            url[idx] = '' if current is not None else None
+            canonical = self.urlparse.urlunparse(url)
+            if len(canonical) >= len(value):
+                break
+            # the remains may have discardable parts of their own.
+            value = canonical
 
-        element.set(self.urlparse.urlunparse(url))
+        element.set(canonical)
         return True
-- 
2.43.0


From d6fcca9b8416f0e37ae5d5aa9d10f417427b53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 58/75] fix: IsEmail raised for domains that the idna codec of
 Jython refuses

---
 flatland/validation/network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 4e110d2..a1f9923 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -9,6 +9,12 @@ if not six.PY3:
 else:
     from urllib import parse as urlparse
 
+try:
+    # the idna codec of Jython raises Java's own
+    from java.lang import IllegalArgumentException as IDNAError
+except ImportError:
+    IDNAError = UnicodeError
+
 from .base import N_, Validator
 
 
@@ -87,7 +93,7 @@ class IsEmail(Validator):
         try:
             # convert domain to ascii
             domain = domain.encode('idna').decode('ascii')
-        except UnicodeError:
+        except (UnicodeError, IDNAError):
             return self.note_error(element, state, 'invalid')
 
         if len(domain) > 253:
-- 
2.43.0


From ac0735cd4294554a405c751e23e80d0afd918c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:05 +0000
Subject: [PATCH 59/75] fix: CreditCardNumber raised for text of separators
 alone

---
 flatland/ext/creditcard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 539ec81..c6b193b 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,11 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    if not digits:
+        return None
+
+    return int(digits)
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0


From cdd4ed1c5adf3d46aadb15165d3bfc99c4b4acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 60/75] fix: NANPphone dropped leading zeros of international
 digits

---
 flatland/validation/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 43467ea..f4f2e62 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -28,7 +28,7 @@ class NANPphone(Validator):
 
         if not self.re_lowbit.match(value):
             # Translate to single-byte numbers.
-            value = six.text_type(str(int(value)))
+            value = u''.join(six.text_type(int(digit)) for digit in value)
 
         if len(value) < 10:
             return self.note_error(element, state, 'invalid')
-- 
2.43.0


From 513a228d33a6f280310f43c49b108bbb0a20de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 61/75] fix: x and xa lost carriage returns, tabs and newlines

---
 flatland/schema/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 9b4db5a..26e8682 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -880,7 +880,8 @@ class Element(_BaseElement):
         global xml
         if xml is None:
             import xml.sax.saxutils
-        return xml.sax.saxutils.escape(self.u)
+        # parsers read a literal carriage return as a newline
+        return xml.sax.saxutils.escape(self.u, {u'\r': u'&#13;'})
 
     @property
     def xa(self):
@@ -888,7 +889,10 @@ class Element(_BaseElement):
         global xml
         if xml is None:
             import xml.sax.saxutils
-        return xml.sax.saxutils.quoteattr(u"'" + self.u)[2:-1]
+        # and literal whitespace in attributes as spaces
+        return xml.sax.saxutils.quoteattr(
+            u"'" + self.u,
+            {u'\t': u'&#9;', u'\n': u'&#10;', u'\r': u'&#13;'})[2:-1]
 
     def __hash__(self):
         raise TypeError('%s object is unhashable', self.__class__.__name__)
-- 
2.43.0


From c93cbc649c6350d92156452c1b07a2e17e6c15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 62/75] fix: empty elements were equal to schema classes

---
 flatland/schema/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 26e8682..580cd77 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -344,10 +344,9 @@ class Element(_BaseElement):
         return element
 
     def __eq__(self, other):
-        try:
-            return self.value == other.value and self.u == other.u
-        except AttributeError:
+        if not isinstance(other, Element):
             return False
+        return self.value == other.value and self.u == other.u
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From 984e8c6521040c450c2d1868523cc0597ea8f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 63/75] fix: a compound is prepared once the whole of an
 overridden __compound_init__ has run

The super class's part marked the class as prepared, so another thread could
construct an instance in the middle of the set-up.
---
 flatland/schema/compound.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 1c65919..4505fb1 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -43,7 +43,8 @@ class _MetaCompound(type):
             lock = cls._lock
             lock.acquire()
             try:
-                if not cls.__dict__.get('_compound_prepared'):
+                if not (cls.__dict__.get('_compound_prepared') or
+                        cls.__dict__.get('_compound_preparing')):
                     cls.__compound_init__()
             finally:
                 lock.release()
@@ -64,9 +65,21 @@ def _wrap_compound_init(fn):
     if isinstance(fn, classmethod):
         fn = fn.__get__(str).__func__  # type doesn't matter here
     def __compound_init__(cls):
-        res = fn(cls)
-        cls._compound_prepared = True
-        return res
+        lock = cls._lock
+        lock.acquire()
+        try:
+            if cls.__dict__.get('_compound_preparing'):
+                # the part of a super class, called by an override
+                return fn(cls)
+            cls._compound_preparing = True
+            try:
+                res = fn(cls)
+            finally:
+                cls._compound_preparing = False
+            cls._compound_prepared = True
+            return res
+        finally:
+            lock.release()
     update_wrapper(__compound_init__, fn)
     return classmethod(__compound_init__)
 
-- 
2.43.0


From 6531c89e72c02936e8f657a385dab7b4e0256220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:55 +0000
Subject: [PATCH 64/75] fix: the Genshi settings of form:set and form:with were
 lost outside of the scope of their first use

---
 flatland/out/genshi.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..9adcdd7 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -207,10 +207,7 @@ class With(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _render_context(ctxt)
 
         if 'filters' not in self.attributes:
             attrs = self.attributes
@@ -232,10 +229,7 @@ class Set(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _render_context(ctxt)
         render_context.update(self.attributes)
         assert not directives
         return stream
@@ -258,6 +252,14 @@ class FlatlandElements(DirectiveFactory):
     ]
 
 
+def _render_context(ctxt):
+    """The rendering settings of *ctxt*, the same in all of its scopes."""
+    frame = ctxt.frames[-1]
+    if 'flatland_render_context' not in frame:
+        frame['flatland_render_context'] = Context()
+    return frame['flatland_render_context']
+
+
 def _rewrite_stream(stream, directives, ctxt, vars, bind):
     stream = list(stream)
     mutable_attrs = {}
@@ -280,13 +282,8 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
 
-    try:
-        render_context = ctxt['flatland_render_context']
-    except KeyError:
-        ctxt['flatland_render_context'] = render_context = Context()
-
     new_contents = transform(tagname.localname, mutable_attrs, contents,
-                             render_context, bind)
+                             _render_context(ctxt), bind)
 
     if new_contents is None:
         new_contents = ()
-- 
2.43.0


From 261ba30579f8c9e480184c7bfa66aa9a7dd3b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:12 +0000
Subject: [PATCH 65/75] fix: form:set did not evaluate its filters expression

---
 flatland/out/genshi.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 9adcdd7..d70d142 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -201,6 +201,14 @@ class RenderContextManipulator(TagOnly):
         TagOnly.__init__(self, transformed, template, namespaces,
                          lineno, offset)
 
+    def evaluate_attributes(self, ctxt, vars):
+        if 'filters' not in self.attributes:
+            return self.attributes
+        attrs = self.attributes.copy()
+        attrs['filters'] = _eval_expr(Expression(attrs['filters']),
+                                      ctxt, vars)
+        return attrs
+
 
 class With(RenderContextManipulator):
     _name = 'with'
@@ -208,14 +216,7 @@ class With(RenderContextManipulator):
 
     def process(self, stream, directives, ctxt, vars):
         render_context = _render_context(ctxt)
-
-        if 'filters' not in self.attributes:
-            attrs = self.attributes
-        else:
-            attrs = self.attributes.copy()
-            attrs['filters'] = _eval_expr(Expression(attrs['filters']),
-                                          ctxt, vars)
-
+        attrs = self.evaluate_attributes(ctxt, vars)
         render_context.push()
         render_context.update(attrs)
         assert not directives
@@ -230,7 +231,7 @@ class Set(RenderContextManipulator):
 
     def process(self, stream, directives, ctxt, vars):
         render_context = _render_context(ctxt)
-        render_context.update(self.attributes)
+        render_context.update(self.evaluate_attributes(ctxt, vars))
         assert not directives
         return stream
 
-- 
2.43.0


From d5d558653e6862af5d0e9b8a3f8a42bafa7676fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:28 +0000
Subject: [PATCH 66/75] fix: Genshi kept contents that a transform had emptied

---
 flatland/out/genshi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index d70d142..6a72eba 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -308,7 +308,7 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
         else:  # pragma: nocover
             sub_tag = QName('option')
         new_contents = _bind_unbound_tags(new_contents, sub_tag, bind)
-    if new_contents:
+    if new_contents or contents:
         stream[1:-1] = new_contents
     return iter(stream)
 
-- 
2.43.0


From 5d5ba7e4e9562e7012228460cd721dc155fe42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:47 +0000
Subject: [PATCH 67/75] fix: options with directives of their own were not
 bound by their select in Genshi

---
 flatland/out/genshi.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 6a72eba..32230b7 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -330,7 +330,22 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind))
+                substream = list(substream)
+                if (_is_element(substream, qname) and
+                    not any(isinstance(d, TagOnly) for d in directives)):
+                    # bind the tag along with its other directives, ahead of
+                    # any control attributes.
+                    foreign = [d for d in directives
+                               if not isinstance(d, EvaluatedLast)]
+                    local = [d for d in directives
+                             if isinstance(d, EvaluatedLast)]
+                    directives = (
+                        foreign + [Binding(u'', bind=bind)] + local)
+                    substream[1:] = _bind_unbound_tags(
+                        substream[1:], qname, bind)
+                else:
+                    substream = list(
+                        _bind_unbound_tags(substream, qname, bind))
             yield kind, (directives, substream), pos
         elif kind is START:
             if data[0] != qname or qname in data[1]:
@@ -355,6 +370,21 @@ def _bind_unbound_tags(stream, qname, bind):
             yield kind, data, pos
 
 
+def _is_element(stream, qname):
+    """True if *stream* is exactly one *qname* element."""
+    depth = 0
+    for idx, (kind, data, pos) in enumerate(stream):
+        if kind is START:
+            if idx == 0 and data[0] != qname:
+                return False
+            depth += 1
+        elif kind is END:
+            depth -= 1
+        if depth == 0:
+            return idx > 0 and idx == len(stream) - 1
+    return False
+
+
 def _simplify_stream(stream, ctxt, vars):
     # consumes stream, send a list
     parts = []
-- 
2.43.0


From e15e4129404aaa2195dedc20ecd4c6fee2be6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:02 +0000
Subject: [PATCH 68/75] fix: interpolated contents and attributes of Genshi
 tags lost markup, lists and None

---
 flatland/out/genshi.py | 74 +++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 32230b7..44f1a11 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -1,7 +1,15 @@
 from __future__ import absolute_import
 from collections import deque
 
-from genshi.core import Namespace, QName, END, START, TEXT
+from genshi.core import (
+    Markup,
+    Namespace,
+    QName,
+    END,
+    START,
+    TEXT,
+    _ensure,
+)
 from genshi.template.base import (
     DirectiveFactory,
     EXPR,
@@ -278,7 +286,10 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
     for qname, value in attrs:
         if qname.namespace is None:
             if not isinstance(value, six.text_type):
-                value = _simplify_stream(value, ctxt, vars)
+                value = _interpolate_attribute(value, ctxt, vars)
+                if value is None:
+                    attrs -= qname
+                    continue
                 attrs |= ((qname, value),)
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
@@ -386,26 +397,43 @@ def _is_element(stream, qname):
 
 
 def _simplify_stream(stream, ctxt, vars):
-    # consumes stream, send a list
-    parts = []
-    for idx, (kind, data, pos) in enumerate(stream):
-        if kind is TEXT:
-            parts.append(data)
-        elif kind is EXPR:
+    """Evaluate *stream* to text, or to a list of events if it has others."""
+    events = _evaluate(stream, ctxt, vars)
+    if any(kind is not TEXT for kind, _, _ in events):
+        return events
+    parts = [data for _, data, _ in events]
+    if any(isinstance(data, Markup) for data in parts):
+        return Markup(u'').join(parts)
+    return u''.join(parts)
+
+
+def _interpolate_attribute(stream, ctxt, vars):
+    """Evaluate *stream* to text, or to None if it has none, as Genshi does."""
+    parts = [six.text_type(data)
+             for kind, data, _ in _evaluate(stream, ctxt, vars)
+             if kind is TEXT]
+    return u''.join(parts) if parts else None
+
+
+def _evaluate(stream, ctxt, vars):
+    """Expand expressions up to the first event that is not text."""
+    events, pending = [], deque(stream)
+    while pending:
+        kind, data, pos = pending.popleft()
+        if kind is EXPR:
             value = _eval_expr(data, ctxt, vars)
-            if hasattr(value, '__html__'):
-                value = _unpack(value)
-            if hasattr(value, '__next__') or hasattr(value, 'next'):
-                while hasattr(value, '__next__') or hasattr(value, 'next'):
-                    value = list(value)
-                    value = _simplify_stream(value, ctxt, vars)
-                if not isinstance(value, six.text_type):
-                    stream[idx:idx + 1] = value
-                else:
-                    stream[idx] = (TEXT, value, pos)
-            elif not isinstance(value, six.text_type):
-                value = six.text_type(value)
-            parts.append(value)
+            if value is None:
+                continue
+            elif hasattr(value, '__html__'):
+                events.append((TEXT, Markup(_unpack(value)), pos))
+            elif isinstance(value, six.text_type):
+                events.append((TEXT, value, pos))
+            elif hasattr(value, '__iter__') and not isinstance(value, str):
+                pending.extendleft(reversed(list(_ensure(value))))
+            else:
+                events.append((TEXT, six.text_type(value), pos))
         else:
-            return stream
-    return u''.join(parts)
+            events.append((kind, data, pos))
+            if kind is not TEXT:
+                break
+    return events + list(pending)
-- 
2.43.0


From 4b95a39fd5ada1f65a68271070f8ccf7f1cd3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:18 +0000
Subject: [PATCH 69/75] fix: a bound Genshi tag removed by py:strip raised an
 error

---
 flatland/out/genshi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 44f1a11..89a837f 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -271,6 +271,9 @@ def _render_context(ctxt):
 
 def _rewrite_stream(stream, directives, ctxt, vars, bind):
     stream = list(stream)
+    if not _is_element(stream):
+        # the tag itself was removed (py:strip)
+        return iter(stream)
     mutable_attrs = {}
 
     for control_attribute in directives:
@@ -381,12 +384,12 @@ def _bind_unbound_tags(stream, qname, bind):
             yield kind, data, pos
 
 
-def _is_element(stream, qname):
-    """True if *stream* is exactly one *qname* element."""
+def _is_element(stream, qname=None):
+    """True if *stream* is exactly one element, of *qname* if given."""
     depth = 0
     for idx, (kind, data, pos) in enumerate(stream):
         if kind is START:
-            if idx == 0 and data[0] != qname:
+            if idx == 0 and qname is not None and data[0] != qname:
                 return False
             depth += 1
         elif kind is END:
-- 
2.43.0


From 9f03ed4fa6efe0e66b3bf780e94e7ec9f7699b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 70/75] fix: lists and arrays of empty names, and empty names
 in lists, survive flattening

---
 flatland/schema/containers.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 81b4878..4fb2ff0 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -562,15 +562,18 @@ class List(Sequence):
         if not pairs:
             return
 
-        if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
+        if self.name is not None:
+            regex = re.compile(u'^%s(\\d+)(%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
+            regex = re.compile(u'^(\\d+)(%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
         prune = self.prune_empty
+        # the name of a member or its children may be empty
+        named = (self.member_schema.name is not None or
+                 issubclass(self.member_schema, Mapping))
 
         for key, value in pairs:
             if value == u'' and prune:
@@ -586,7 +589,9 @@ class List(Sequence):
                 # aren't valid data for us.
                 pass
             else:
-                child_key = key[len(m.group(0)):] or None
+                child_key = key[len(m.group(0)):]
+                if not child_key and not (m.group(2) and named):
+                    child_key = None
                 indexes[index].append((child_key, value))
 
         if not indexes:
@@ -666,9 +671,9 @@ class Array(Sequence):
         assert not issubclass(self.member_schema, Container), \
                "Flattened Arrays are only supported for scalar child types."
 
-        if not self.name:
+        if self.name is None:
             for key, value in pairs:
-                if key == u'':
+                if key == u'' and child_name is None:
                     key = None
                 if key != child_name:
                     continue
@@ -678,7 +683,7 @@ class Array(Sequence):
                 self.append(member)
         else:
             flat_name = self.name
-            if child_name:
+            if child_name is not None:
                 flat_name += sep + child_name
             for key, value in pairs:
                 if key != flat_name:
-- 
2.43.0


From f0eb20ac96720fe9aa9f8e8417e5cd3bee2a18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:30 +0000
Subject: [PATCH 71/75] fix: date parts made for a super class do not keep its
 optional setting

DateYYYYMMDD.using(optional=True)() failed validation once a plain
DateYYYYMMDD had been instantiated in the process.
---
 flatland/schema/compound.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 4505fb1..6f1ec70 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -208,15 +208,24 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    #: the fields that were not declared, made by __compound_init__
+    _made_fields = ()
+
     @classmethod
     def __compound_init__(cls):
         assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
-            return
 
         fields = list(cls.field_schema)
         optional = cls.optional
 
+        # not the fields made for a super class that had another setting
+        while (fields and fields[-1] in cls._made_fields and
+               fields[-1].optional != optional):
+            fields.pop()
+
+        made = [field for field in fields if field in cls._made_fields]
+        declared = len(fields) - len(made)
+
         if len(fields) == 0:
             fields.append(Integer.named(u'year').using(format=u'%04i',
                                                        optional=optional))
@@ -227,7 +236,9 @@ class DateYYYYMMDD(Compound, Date):
             fields.append(Integer.named(u'day').using(format=u'%02i',
                                                       optional=optional))
 
-        cls.field_schema = fields
+        if declared < 3:
+            cls._made_fields = tuple(fields[declared:])
+            cls.field_schema = fields
 
     #if any(not field.name for field in fields):
     #    raise TypeError("Child fields of %s %r must be named." %
-- 
2.43.0


From 718860391c4517e91e8bebc871e7cfa2626f77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:38 +0000
Subject: [PATCH 72/75] fix: *= on a sequence gives each repetition its own
 members

---
 flatland/schema/containers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 4fb2ff0..ec64a80 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -312,6 +312,15 @@ class Sequence(Container, list):
         self.extend(iterable)
         return self
 
+    def __imul__(self, count):
+        # each repetition is made of new elements
+        values = [child.value for child in self.children]
+        if count < 1:
+            del self[:]
+        for _ in xrange(1, count):
+            self.extend(values)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From ddbc7d047df8dcb64ac510dadde3d1ad6dfd322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:38 +0000
Subject: [PATCH 73/75] fix: index() of sequences takes the bounds of
 list.index()

---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index ec64a80..4263882 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -364,7 +364,7 @@ class Sequence(Container, list):
             value = self.member_schema(value=value)
         list.remove(self, value)
 
-    def index(self, value):
+    def index(self, value, *bounds):
         """Return first index of *value*.
 
         If *value* is not an instance of :attr:`member_schema`, it will be
@@ -374,7 +374,7 @@ class Sequence(Container, list):
         """
         if not isinstance(value, Element):
             value = self.member_schema(value=value)
-        return list.index(self, value)
+        return list.index(self, value, *bounds)
 
     def count(self, value):
         """Return number of occurrences of *value*.
-- 
2.43.0


From b8a401f2be6d799243574428b2f27b6d3975152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:38 +0000
Subject: [PATCH 74/75] fix: + and * of a List give elements, and not its slots

---
 flatland/schema/containers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 4263882..bfd02ad 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -521,6 +521,17 @@ class List(Sequence):
         for i in list.__iter__(self):
             yield i.element
 
+    def __add__(self, other):
+        return list(self) + (other[:] if isinstance(other, list) else other)
+
+    def __radd__(self, other):
+        return other + list(self)
+
+    def __mul__(self, count):
+        return list(self) * count
+
+    __rmul__ = __mul__
+
     def __delitem__(self, index):
         # Optimizing __delitem__ or pop when removing only the last item
         # doesn't seem worth it.
-- 
2.43.0


From 3253b1502b1d97849ae929c5c5ef7be6af8f7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:23 +0000
Subject: [PATCH 75/75] fix: a sequence extended with itself ends

---
 flatland/schema/containers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index bfd02ad..3e93247 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -305,6 +305,8 @@ class Sequence(Container, list):
         they will be wrapped in a new element of that type before extending.
 
         """
+        if iterable is self:
+            iterable = [child.value for child in self.children]
         for value in iterable:
             self.append(value)
 
@@ -491,10 +493,6 @@ class List(Sequence):
     def append(self, value):
         list.append(self, self._new_slot(value))
 
-    def extend(self, iterable):
-        for v in iterable:
-            self.append(v)
-
     def __getitem__(self, index):
         if isinstance(index, slice):
             return [item.element for item in list.__getitem__(self, index)]
-- 
2.43.0

