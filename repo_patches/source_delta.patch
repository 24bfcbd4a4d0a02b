From 0a0d65ef6db228e7f3832b5e50bda95c7af39e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 01/49] fix: lists of structs: keep the whole content of items
 having another layout

---
 capnpy/list.py                  |  9 ++---
 capnpy/segment/_copy_list.py    | 58 ++++++++++++++++++++++++---------
 capnpy/segment/_copy_pointer.py |  6 ++--
 capnpy/segment/builder.pxd      |  2 +-
 capnpy/segment/builder.py       |  8 +++--
 capnpy/segment/builder.pyx      |  8 +++--
 6 files changed, 58 insertions(+), 33 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 84c4702..d6072a8 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -297,13 +297,8 @@ class StructItemType(ItemType):
     def item_repr(self, item):
         return item.shortrepr()
 
-    def write_item(self, builder, pos, item):
-        structcls = self.structcls
-        if not isinstance(item, structcls):
-            raise TypeError("Expected an object of type %s, got %s instead" %
-                            (self.structcls.__name__, item.__class__.__name__))
-        p = item._as_pointer(0)
-        builder.copy_inline_struct(pos, item._seg, p, 0)
+    # there is no write_item: the layout of a list of structs depends on all
+    # its items, see _copy_from_list_of_structs
 
 
 class TextItemType(ItemType):
diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index 3e671e2..1e7530b 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -12,13 +12,12 @@ if not cython.compiled:
     from capnpy import ptr
     from capnpy.segment.builder import SegmentBuilder
     from capnpy.list import ItemType, StructItemType
+    Struct = object # we cannot import it, because of circular imports
     if PY3: long = int
 
 @cython.ccall
 @cython.locals(builder=SegmentBuilder, pos=long, item_type=ItemType,
-               item_length=long, size_tag=long, item_count=long, body_length=long,
-               struct_item_type=StructItemType,
-               data_size=long, ptrs_size=long, total_words=long, tag=long)
+               item_length=long, size_tag=long, item_count=long, body_length=long)
 def copy_from_list(builder, pos, item_type, lst):
     if lst is None:
         builder.write_int64(pos, 0)
@@ -29,20 +28,47 @@ def copy_from_list(builder, pos, item_type, lst):
     item_count = len(lst)
     body_length = item_length * item_count
     if size_tag == ptr.LIST_SIZE_COMPOSITE:
-        # alloc the list and write the tag
-        struct_item_type = item_type
-        data_size = struct_item_type.static_data_size
-        ptrs_size = struct_item_type.static_ptrs_size
-        total_words = (data_size+ptrs_size) * item_count
-        pos = builder.alloc_list(pos, size_tag, total_words,
-                                 body_length + 8) # +8 is for the tag
-        tag = ptr.new_struct(item_count, data_size, ptrs_size)
-        builder.write_int64(pos, tag)
-        pos += 8
-    else:
-        # alloc the list, no tag
-        pos = builder.alloc_list(pos, size_tag, item_count, body_length)
+        _copy_from_list_of_structs(builder, pos, item_type, lst)
+        return
     #
+    # alloc the list, no tag
+    pos = builder.alloc_list(pos, size_tag, item_count, body_length)
     for item in lst:
         item_type.write_item(builder, pos, item)
         pos += item_length
+
+
+@cython.cfunc
+@cython.locals(builder=SegmentBuilder, pos=long, item_type=StructItemType, structitem=Struct,
+               item_count=long, data_size=long, ptrs_size=long, total_words=long,
+               tag=long)
+def _copy_from_list_of_structs(builder, pos, item_type, lst):
+    # all the items of a list share the same layout, but each of the objects
+    # we are given has its own: e.g., it can be bigger than what we know from
+    # our schema, if it was created by using a newer schema. So, use a layout
+    # which is big enough for all of them
+    items = list(lst)
+    item_count = len(items)
+    data_size = item_type.static_data_size
+    ptrs_size = item_type.static_ptrs_size
+    for item in items:
+        if not isinstance(item, item_type.structcls):
+            raise TypeError("Expected an object of type %s, got %s instead" %
+                            (item_type.structcls.__name__, item.__class__.__name__))
+        structitem = item
+        data_size = max(data_size, structitem._data_size)
+        ptrs_size = max(ptrs_size, structitem._ptrs_size)
+    #
+    # alloc the list and write the tag
+    total_words = (data_size+ptrs_size) * item_count
+    pos = builder.alloc_list(pos, ptr.LIST_SIZE_COMPOSITE, total_words,
+                             (total_words+1) * 8) # +1 is for the tag
+    tag = ptr.new_struct(item_count, data_size, ptrs_size)
+    builder.write_int64(pos, tag)
+    pos += 8
+    #
+    for item in items:
+        structitem = item
+        builder.copy_inline_struct(pos, structitem._seg, structitem._as_pointer(0), 0,
+                                   data_size)
+        pos += (data_size+ptrs_size) * 8
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 9739110..846f755 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -124,8 +124,8 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
-               data_size=long, ptrs_size=long, ds=long)
-def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
+               dst_data_size=long, data_size=long, ptrs_size=long, ds=long)
+def _copy_struct_inline(src, p, src_pos, dst, dst_pos, dst_data_size):
     # this does the same as _copy_struct, but instead of allocating space for
     # it, it fills an already-allocated space (useful e.g. for writing structs
     # into lists).
@@ -145,7 +145,7 @@ def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
     ds = data_size*8
     check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
-    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
+    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos + dst_data_size*8)
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index aeb48bd..758dc23 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -42,5 +42,5 @@ cdef class SegmentBuilder(object):
                             Py_ssize_t src_pos)
     cpdef copy_from_struct(self, Py_ssize_t dst_pos, type structcls, Struct value)
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos)
+                             long p, Py_ssize_t src_pos, long dst_data_size)
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 968a0ed..87b800d 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -117,15 +117,17 @@ class SegmentBuilder(object):
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    def copy_inline_struct(self, dst_pos, src, p, src_pos):
+    def copy_inline_struct(self, dst_pos, src, p, src_pos, dst_data_size):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, which must be big enough. The
+             ptrs section starts after dst_data_size words, which can be more
+             than the data_size of p
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_data_size)
 
     def copy_from_list(self, pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9d05030..eacb9b3 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -185,15 +185,17 @@ cdef class SegmentBuilder(object):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos):
+                             long p, Py_ssize_t src_pos, long dst_data_size):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, which must be big enough. The
+             ptrs section starts after dst_data_size words, which can be more
+             than the data_size of p
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, dst_data_size)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
-- 
2.43.0


From 1e0e1509cd037374f793e7509aebb14b69e3c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 02/49] fix: dumps() of a struct with no data and no pointers
 wrote a null root

---
 capnpy/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/message.py b/capnpy/message.py
index 84ba1b7..6fd370c 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -158,6 +158,9 @@ def dumps(obj, fastpath=True):
         # difference seems negligible, for small objects at least.
         start = obj._data_offset
         p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
+        if p == 0:
+            # "empty" struct: use an offset of -1 to tell it from a NULL ptr
+            p = ptr.new_struct(-1, 0, 0)
         return obj._seg.dump_message(p, start, end)
     else:
         builder = SegmentBuilder()
-- 
2.43.0


From f6e95531acc93664d2956679aaebb39463e5f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 03/49] fix: an object which contains an "empty" struct was
 never considered compact

---
 capnpy/segment/endof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 6494cb4..55fd9e6 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -50,6 +50,9 @@ def _endof_ptrs(seg, offset, ptrs_size, current_end):
         p = seg.read_ptr(p_offset)
         if not p:
             continue
+        if p == ptr.new_struct(-1, 0, 0):
+            # "empty" struct: no space has been allocated for it
+            continue
         new_start = ptr.deref(p, p_offset)
         if new_start != current_end:
             return -1
-- 
2.43.0


From fe7d25ef2425b9a2d793f417f7dbf6f8e9db84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 04/49] fix: dumping a list of structs followed by unused words
 wrote a bad pointer

---
 capnpy/list.py           | 5 ++++-
 capnpy/segment/endof.pxd | 2 +-
 capnpy/segment/endof.py  | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index d6072a8..4771c7d 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -74,7 +74,10 @@ class List(Blob):
         return self._item_type.read_item(self, i)
 
     def _get_end(self):
-        p = ptr.new_list(0, self._size_tag, self._item_count)
+        count = self._item_count
+        if self._size_tag == ptr.LIST_SIZE_COMPOSITE:
+            count = count*self._item_length // 8 # number of words
+        p = ptr.new_list(0, self._size_tag, count)
         return endof(self._seg, p, self._offset-8)
 
     def _get_slice(self):
diff --git a/capnpy/segment/endof.pxd b/capnpy/segment/endof.pxd
index 547b944..a81a4fc 100644
--- a/capnpy/segment/endof.pxd
+++ b/capnpy/segment/endof.pxd
@@ -12,7 +12,7 @@ cdef long _endof_ptrs(Segment seg, long offset, long ptrs_size,
 cdef long _endof_struct(Segment seg, long p, long offset,
                        long data_size, long ptrs_size)
 
-@cython.locals(item_size=long, i=long)
+@cython.locals(item_size=long, i=long, end=long)
 cdef long _endof_list_composite(Segment seg, long p, long offset,
                                long count, long data_size, long ptrs_size)
 
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 55fd9e6..5fd9ad6 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -68,7 +68,10 @@ def _endof_struct(seg, p, offset, data_size, ptrs_size):
 def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size):
     item_size = (data_size+ptrs_size)*8
     offset += 8 # skip the tag
-    end = offset + (item_size)*count
+    # the list can be bigger than the sum of its items
+    end = offset + ptr.list_item_count(p)*8
+    if offset + item_size*count > end:
+        return -1
     if ptrs_size == 0:
         return end
     #
-- 
2.43.0


From 6358d6fdb612e445173914e8908ae46b0f8e3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 05/49] fix: _hash.strhash() could read past the end of the
 buffer

---
 capnpy/_hash.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 0ba3521..1b63f7b 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -23,9 +23,11 @@ cdef int PY3 = PY_MAJOR_VERSION == 3
 
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
-    if start >= maxlen or size == 0:
+    if start < 0:
+        return hash(a[start:start+size])
+    if start >= maxlen or size <= 0:
         return 0
-    if size > maxlen:
+    if size > maxlen-start:
         size = maxlen-start
 
     cdef const unsigned char* p = a
-- 
2.43.0


From ef9e42cb46f8dbd04d9ff448d0c813a4d297b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 06/49] fix: the hash of a null unicode key was the hash of an
 empty text

---
 capnpy/struct_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 82c2d27..a43e576 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -255,7 +255,9 @@ class Struct(Blob):
     def _hash_text_unicode(self, offset, default_=hash(None)):
         # XXX: this is not a "fast hash" at all, it creates an unicode and the
         # computes the hash on it
-        u = self._read_text_unicode(offset, default_=b'')
+        u = self._read_text_unicode(offset)
+        if u is None:
+            return default_
         return hash(u)
 
     def _read_data(self, offset, default_=None, additional_size=0):
-- 
2.43.0


From 8a387133554ee15daeb21851265b30d258e4c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 07/49] fix: AnyPointer.is_struct() & co. did not follow far
 pointers

---
 capnpy/anypointer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/capnpy/anypointer.py b/capnpy/anypointer.py
index e701396..9972b8f 100644
--- a/capnpy/anypointer.py
+++ b/capnpy/anypointer.py
@@ -9,16 +9,22 @@ class AnyPointer(object):
         self.struct_ = struct_
         self.offset = offset
 
-    def is_struct(self):
+    def _read_ptr(self):
         p = self.struct_._read_fast_ptr(self.offset)
+        if ptr.kind(p) == ptr.FAR:
+            _, p = self.struct_._read_far_ptr(self.offset)
+        return p
+
+    def is_struct(self):
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.STRUCT
 
     def is_list(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.LIST
 
     def is_text(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return (ptr.kind(p) == ptr.LIST and
                 ptr.list_size_tag(p) == ptr.LIST_SIZE_8)
 
-- 
2.43.0


From 93a328c76b444494ae021f2be833ef888b3fc821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 08/49] fix: FileLikeAdapter.readline() returned a method
 instead of a line

---
 capnpy/filelike.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/filelike.py b/capnpy/filelike.py
index 831ae11..0af2a40 100644
--- a/capnpy/filelike.py
+++ b/capnpy/filelike.py
@@ -53,4 +53,4 @@ class FileLikeAdapter(FileLike):
         return self._read(size)
 
     def readline(self):
-        return self._readline
+        return self._readline()
-- 
2.43.0


From 558d18ec407f0d92f4ef4ab0ac377819c024a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 09/49] fix: capnpy decode crashed at the end of the stream

---
 capnpy/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/__main__.py b/capnpy/__main__.py
index 812f9f8..a889685 100644
--- a/capnpy/__main__.py
+++ b/capnpy/__main__.py
@@ -57,7 +57,7 @@ def decode(args, options):
         while True:
             try:
                 obj = load(f, cls)
-            except ValueError:
+            except EOFError:
                 break
             print(obj.shortrepr())
             i += 1
-- 
2.43.0


From d38b0578c544be9e9cc81093e380f68d843f5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 10/49] fix: crash when importing two schemas with the same
 base name

---
 capnpy/compiler/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 60bf342..acc690d 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -130,7 +130,7 @@ class ModuleGenerator(object):
         name = '_%s_capnp' % name
         if name in self.importnames.values():
             # avoid name clashes
-            name = '%s_%s' % (name, len(self.filenames))
+            name = '%s_%s' % (name, len(self.importnames))
         self.importnames[fname] = name
         return name
 
-- 
2.43.0


From 59c839c6ba1b813e33405d96c55c28770fdb383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 11/49] fix: equality of lists compared the raw memory instead
 of the items

---
 capnpy/list.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 4771c7d..97fb059 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -80,13 +80,6 @@ class List(Blob):
         p = ptr.new_list(0, self._size_tag, count)
         return endof(self._seg, p, self._offset-8)
 
-    def _get_slice(self):
-        # XXX: investigate whether it is faster to user memoryview for
-        # comparing the memory without doing a full copy
-        start = self._offset
-        end = self._get_end()
-        return self._seg.buf[start:end]
-
     def _equals(self, other):
         if not self._item_type.can_compare():
             raise TypeError("Cannot compare lists of structs.")
@@ -96,7 +89,7 @@ class List(Blob):
             return False
         return (self._item_count == other._item_count and
                 self._item_type.get_type() == other._item_type.get_type() and
-                self._get_slice() == other._get_slice())
+                list(self) == list(other))
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
@@ -363,7 +356,10 @@ class ListItemType(ItemType):
         self.size_tag = ptr.LIST_SIZE_PTR
 
     def get_type(self):
-        return ('list', self.inner_item_type)
+        return ('list', self.inner_item_type.get_type())
+
+    def can_compare(self):
+        return self.inner_item_type.can_compare()
 
     def read_item(self, lst, i):
         offset = lst._offset + (i*8)
-- 
2.43.0


From 8cf1cea9dbbbf20db037af9968a330824db9ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 12/49] fix: copying a pointer to a negative offset read out of
 bounds

---
 capnpy/segment/_copy_pointer.h  | 3 ++-
 capnpy/segment/_copy_pointer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.h b/capnpy/segment/_copy_pointer.h
index 1bc687c..3a402e0 100644
--- a/capnpy/segment/_copy_pointer.h
+++ b/capnpy/segment/_copy_pointer.h
@@ -7,7 +7,8 @@ static PyObject* RAISE_OUT_OF_BOUNDS(Py_ssize_t, Py_ssize_t);
     (Py_INCREF(Py_None), Py_None);                                      \
     {                                                                   \
         /* _PyString_GET_SIZE is included from _util.h */               \
-        if ((offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
+        if ((offset) < 0 ||                                             \
+            (offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
             /* raise and return error */                                \
             return RAISE_OUT_OF_BOUNDS(size, offset);                   \
         }                                                               \
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 846f755..69869d4 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -38,7 +38,7 @@ if not cython.compiled:
     # it. However, we can trick Cython by calling it _check_bounds and
     # 'rename' it later by modifying globals(). Bah.
     def _check_bounds(src, size, offset):
-        if offset+size > len(src.buf):
+        if offset < 0 or offset+size > len(src.buf):
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     def _read_int64_fast(src, offset):
-- 
2.43.0


From 3e4b84851224b858a9d7601ab6145752dd79bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 13/49] fix: copying a list of structs did not check that the
 items fit in its body

---
 capnpy/segment/_copy_pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 69869d4..fe8e07e 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -201,6 +201,8 @@ def _copy_list_composite(src, p, src_pos, dst, dst_pos):
     count = ptr.offset(tag)
     data_size = ptr.struct_data_size(tag)
     ptrs_size = ptr.struct_ptrs_size(tag)
+    if count < 0 or count*(data_size+ptrs_size) > total_words:
+        raise IndexError('The items of the list do not fit in its body')
     #
     # allocate the list and copy the whole body at once
     dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_COMPOSITE, total_words, body_length)
-- 
2.43.0


From 88ceefa2acd5977da47ab8f751cc55edefcf2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 14/49] fix: copying a malformed message allocated memory
 before checking the bounds, and ignored allocation failures

---
 capnpy/segment/_copy_pointer.py | 6 +++---
 capnpy/segment/builder.pxd      | 2 +-
 capnpy/segment/builder.pyx      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index fe8e07e..1a93def 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -114,8 +114,8 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
         dst.write_int64(dst_pos, ptr.new_struct(-1, 0, 0))
         return
     ds = data_size*8
-    dst_pos = dst.alloc_struct(dst_pos, data_size, ptrs_size)
     check_bounds(src, ds, src_pos)
+    dst_pos = dst.alloc_struct(dst_pos, data_size, ptrs_size)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
     _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
 
@@ -163,8 +163,8 @@ def _copy_list_primitive(src, p, src_pos, dst, dst_pos):
     else:
         body_length = count * ptr.list_item_length(size_tag)
     #
-    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
 
 
@@ -177,8 +177,8 @@ def _copy_list_ptr(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     count = ptr.list_item_count(p)
     body_length = count*8
-    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     check_bounds(src, body_length, src_pos)
+    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     _copy_many_ptrs(count, src, src_pos, dst, dst_pos)
 
 
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index 758dc23..6199d64 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -14,7 +14,7 @@ cdef class SegmentBuilder(object):
                                      # cbuf; the next allocation will start at
                                      # this position
 
-    cdef void _resize(self, Py_ssize_t minlen)
+    cdef int _resize(self, Py_ssize_t minlen) except -1
     cpdef Py_ssize_t get_length(self)
     cpdef as_string(self)
 
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index eacb9b3..f49a248 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -8,7 +8,7 @@ from capnpy.struct_ cimport Struct
 from capnpy.list cimport List, ItemType, StructItemType
 
 cdef extern from "Python.h":
-    int PyByteArray_Resize(object o, Py_ssize_t len)
+    int PyByteArray_Resize(object o, Py_ssize_t len) except -1
     char* PyByteArray_AS_STRING(object o)
 
 cdef extern from "_util.h":
@@ -29,7 +29,7 @@ cdef class SegmentBuilder(object):
         self.cbuf = PyByteArray_AS_STRING(self.buf)
         self.end = 0
 
-    cdef void _resize(self, Py_ssize_t minlen):
+    cdef int _resize(self, Py_ssize_t minlen) except -1:
         # exponential growth of the buffer. By using this formula, we grow
         # faster at the beginning (where the constant plays a major role) and
         # slower when the buffer it's already big (where length >> 1 plays a
-- 
2.43.0


From 3e49dbd6d2c5b1dcd61b2bf60a7cd941534494a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 15/49] fix: dumping or copying a message with cyclic pointers
 overflowed the C stack

---
 capnpy/segment/_copy_pointer.py |  6 ++++++
 capnpy/segment/builder.pxd      |  2 ++
 capnpy/segment/builder.py       |  1 +
 capnpy/segment/builder.pyx      |  1 +
 capnpy/segment/endof.pxd        | 10 +++++-----
 capnpy/segment/endof.py         | 29 +++++++++++++++++------------
 6 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 1a93def..15c5e81 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -93,11 +93,17 @@ def copy_pointer(src, p, src_pos, dst, dst_pos):
                i=long, p=long, offset=long)
 def _copy_many_ptrs(n, src, src_pos, dst, dst_pos):
     check_bounds(src, n*8, src_pos)
+    # don't let cyclic pointers overflow the C stack. If we get an exception we
+    # stop building, so there is no need of a finally: to decrement the depth
+    if dst.depth >= 10000:
+        raise RuntimeError('maximum recursion depth exceeded')
+    dst.depth += 1
     for i in range(n):
         offset = i*8
         p = read_int64_fast(src, src_pos + offset)
         if p != 0:
             copy_pointer(src, p, src_pos + offset, dst, dst_pos + offset)
+    dst.depth -= 1
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index 6199d64..f87e455 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -13,6 +13,8 @@ cdef class SegmentBuilder(object):
     cdef readonly Py_ssize_t end     # index of the current end position of
                                      # cbuf; the next allocation will start at
                                      # this position
+    cdef long depth                  # current nesting level, see
+                                     # _copy_many_ptrs
 
     cdef int _resize(self, Py_ssize_t minlen) except -1
     cpdef Py_ssize_t get_length(self)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 87b800d..9647e2e 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -9,6 +9,7 @@ class SegmentBuilder(object):
 
     def __init__(self, length=None):
         self.buf = bytearray()
+        self.depth = 0 # current nesting level, see _copy_many_ptrs
 
     def get_length(self):
         return len(self.buf)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index f49a248..cf3ac7d 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -28,6 +28,7 @@ cdef class SegmentBuilder(object):
         self.buf = bytearray(self.length)
         self.cbuf = PyByteArray_AS_STRING(self.buf)
         self.end = 0
+        self.depth = 0
 
     cdef int _resize(self, Py_ssize_t minlen) except -1:
         # exponential growth of the buffer. By using this formula, we grow
diff --git a/capnpy/segment/endof.pxd b/capnpy/segment/endof.pxd
index a81a4fc..685c4e2 100644
--- a/capnpy/segment/endof.pxd
+++ b/capnpy/segment/endof.pxd
@@ -2,23 +2,23 @@ import cython
 from capnpy cimport ptr
 from capnpy.segment.segment cimport Segment
 
-cpdef long endof(Segment seg, long p, long offset) except -2
+cpdef long endof(Segment seg, long p, long offset, long depth=*) except -2
 
 @cython.locals(i=long, p_offset=long, p=long)
 cdef long _endof_ptrs(Segment seg, long offset, long ptrs_size,
-                     long current_end)
+                     long current_end, long depth)
 
 @cython.locals(end=long)
 cdef long _endof_struct(Segment seg, long p, long offset,
-                       long data_size, long ptrs_size)
+                       long data_size, long ptrs_size, long depth)
 
 @cython.locals(item_size=long, i=long, end=long)
 cdef long _endof_list_composite(Segment seg, long p, long offset,
-                               long count, long data_size, long ptrs_size)
+                               long count, long data_size, long ptrs_size, long depth)
 
 @cython.locals(count=long, end=long)
 cdef long _endof_list_ptr(Segment seg, long p, long offset,
-                         long count)
+                         long count, long depth)
 
 cdef long _endof_list_primitive(Segment seg, long p, long offset,
                                long item_size, long count)
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 5fd9ad6..99b3dc2 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -1,6 +1,6 @@
 from capnpy import ptr
 
-def endof(seg, p, offset):
+def endof(seg, p, offset, depth=0):
     """
     Check whether the given object is compact, and in that case compute its
     end boundary. If it's not compact, return -1.
@@ -14,13 +14,18 @@ def endof(seg, p, offset):
       3. its children are compact
 
       4. there are no FAR pointers
+
+    Objects which are nested too deeply are considered not compact, so that
+    malformed messages cannot overflow the C stack.
     """
+    if depth > 10000:
+        return -1
     kind = ptr.kind(p)
     offset = ptr.deref(p, offset)
     if kind == ptr.STRUCT:
         data_size = ptr.struct_data_size(p)
         ptrs_size = ptr.struct_ptrs_size(p)
-        return _endof_struct(seg, p, offset, data_size, ptrs_size)
+        return _endof_struct(seg, p, offset, data_size, ptrs_size, depth)
     elif kind == ptr.LIST:
         item_size = ptr.list_size_tag(p)
         count = ptr.list_item_count(p)
@@ -30,9 +35,9 @@ def endof(seg, p, offset):
             data_size = ptr.struct_data_size(tag)
             ptrs_size = ptr.struct_ptrs_size(tag)
             return _endof_list_composite(seg, p, offset,
-                                         count, data_size, ptrs_size)
+                                         count, data_size, ptrs_size, depth)
         elif item_size == ptr.LIST_SIZE_PTR:
-            return _endof_list_ptr(seg, p, offset, count)
+            return _endof_list_ptr(seg, p, offset, count, depth)
         elif item_size == ptr.LIST_SIZE_BIT:
             return _endof_list_bit(seg, p, offset, count)
         else:
@@ -42,7 +47,7 @@ def endof(seg, p, offset):
     else:
         assert False, 'unknown ptr kind'
 
-def _endof_ptrs(seg, offset, ptrs_size, current_end):
+def _endof_ptrs(seg, offset, ptrs_size, current_end, depth):
     i = 0
     while i < ptrs_size:
         p_offset = offset + i*8
@@ -56,16 +61,16 @@ def _endof_ptrs(seg, offset, ptrs_size, current_end):
         new_start = ptr.deref(p, p_offset)
         if new_start != current_end:
             return -1
-        current_end = endof(seg, p, p_offset)
+        current_end = endof(seg, p, p_offset, depth+1)
     #
     return current_end
 
-def _endof_struct(seg, p, offset, data_size, ptrs_size):
+def _endof_struct(seg, p, offset, data_size, ptrs_size, depth):
     offset += data_size*8
     current_end = offset + (ptrs_size*8)
-    return _endof_ptrs(seg, offset, ptrs_size, current_end)
+    return _endof_ptrs(seg, offset, ptrs_size, current_end, depth)
 
-def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size):
+def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size, depth):
     item_size = (data_size+ptrs_size)*8
     offset += 8 # skip the tag
     # the list can be bigger than the sum of its items
@@ -78,16 +83,16 @@ def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size):
     i = 0
     while i < count:
         item_offset = offset + (item_size)*i + (data_size*8)
-        end = _endof_ptrs(seg, item_offset, ptrs_size, end)
+        end = _endof_ptrs(seg, item_offset, ptrs_size, end, depth)
         if end == -1:
             return -1
         i += 1
     #
     return end
 
-def _endof_list_ptr(seg, p, offset, count):
+def _endof_list_ptr(seg, p, offset, count, depth):
     end = offset + 8*count
-    return _endof_ptrs(seg, offset, count, end)
+    return _endof_ptrs(seg, offset, count, end, depth)
 
 def _endof_list_primitive(seg, p, offset, item_size, count):
     item_size = ptr.list_item_length(item_size)
-- 
2.43.0


From fc3c8e5047efb9cfb236bb8641b6eca4698b60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 16/49] fix: shortrepr() and hash() of a message with cyclic
 pointers overflowed the C stack

---
 capnpy/_hash.py            |   1 +
 capnpy/_hash.pyx           |  13 +++++
 capnpy/compiler/request.py |   5 ++
 capnpy/compiler/struct_.py | 115 +++++++++++++++++++++----------------
 capnpy/struct_.py          |   3 +-
 5 files changed, 85 insertions(+), 52 deletions(-)

diff --git a/capnpy/_hash.py b/capnpy/_hash.py
index 69f3870..d85217b 100644
--- a/capnpy/_hash.py
+++ b/capnpy/_hash.py
@@ -1,5 +1,6 @@
 inthash = hash
 longhash = hash
+objhash = hash
 __tuplehash_for_tests = hash
 
 def strhash(s, start, size):
diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 1b63f7b..bf30ae9 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -6,6 +6,8 @@ types. The idea is that if you have C variables, you can compute fast hashes
 
 cdef extern from "Python.h":
     int PY_MAJOR_VERSION
+    int Py_EnterRecursiveCall(const char*) except -1
+    void Py_LeaveRecursiveCall()
 
 cdef extern from "_hash.h":
     ctypedef struct _Py_HashSecret_t:
@@ -21,6 +23,17 @@ cdef extern from "_hash.h":
 cdef int PY3 = PY_MAJOR_VERSION == 3
 
 
+def objhash(obj):
+    """
+    Same as hash(obj), but protect against the overflow of the C stack
+    """
+    Py_EnterRecursiveCall(b" in __hash__")
+    try:
+        return hash(obj)
+    finally:
+        Py_LeaveRecursiveCall()
+
+
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
     if start < 0:
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 2167290..b99cf20 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -76,6 +76,11 @@ class RequestedFile:
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
         #
         if m.pyx:
+            # used to avoid overflowing the C stack if a message contains
+            # cyclic pointers
+            m.w('cdef extern from "Python.h":')
+            m.w('    int _Py_EnterRecursiveCall_ "Py_EnterRecursiveCall" (const char*) except -1')
+            m.w('    void _Py_LeaveRecursiveCall_ "Py_LeaveRecursiveCall" ()')
             m.w("from capnpy cimport _hash")
             all_types = [t.name for t in Types.__all__ if t is not Types.text]
             all_types += ['text_bytes', 'text_unicode']
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 432003c..2011d86 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -211,41 +211,50 @@ class Node__Struct:
         #     return "(%s)" % ", ".join(parts)
         #
         with m.block('{cpdef} shortrepr(self):') as ns:
-            fields = self.get_struct_fields() or []
-            ns.w('parts = []')
-            for f in fields:
-                ns.pyname = m.py_field_name(f)
-                ns.capname = m.capnp_field_name(f)
-                if f.is_nullable(m):
-                    # if 'x' is nullable, obj.x returns either None or the
-                    # value, while obj._x returns the underlying capnproto
-                    # group
-                    assert f.is_group()
-                    ns.pyname = '_' + ns.pyname
-                #
-                ns.fieldrepr = self._shortrepr_for_field(m, ns, f)
-                ns.append = ns.format('parts.append("{capname} = %s" % {fieldrepr})')
-                ns.is_default_field = bool(f.discriminantValue == 0)
-                #
-                if f.is_part_of_union() and f.is_pointer():
-                    # normally, null fields are never shown. However, in case
-                    # of unions, the currently-tagged field is always shown
-                    # (and if it's null we simply show its default value).
-                    # HOWEVER, if the tagged field is the default one AND if
-                    # it's null, we don't show anything; see
-                    # test_union_set_but_null_pointer for examples.
-                    ns.ww("""
-                    if self.is_{pyname}() and (self.has_{pyname}() or
-                                              not {is_default_field}):
-                        {append}
-                    """)
-                elif f.is_part_of_union():
-                    ns.w("if self.is_{pyname}(): {append}")
-                elif f.is_pointer():
-                    ns.w("if self.has_{pyname}(): {append}")
-                else:
-                    ns.w("{append}")
-            ns.w('return "(%s)" % ", ".join(parts)')
+            if not m.pyx:
+                self._emit_repr_body(m, ns)
+                return
+            ns.w('_Py_EnterRecursiveCall_(b" in shortrepr")')
+            with ns.block('try:') as ns:
+                self._emit_repr_body(m, ns)
+            ns.w('finally: _Py_LeaveRecursiveCall_()')
+
+    def _emit_repr_body(self, m, ns):
+        fields = self.get_struct_fields() or []
+        ns.w('parts = []')
+        for f in fields:
+            ns.pyname = m.py_field_name(f)
+            ns.capname = m.capnp_field_name(f)
+            if f.is_nullable(m):
+                # if 'x' is nullable, obj.x returns either None or the
+                # value, while obj._x returns the underlying capnproto
+                # group
+                assert f.is_group()
+                ns.pyname = '_' + ns.pyname
+            #
+            ns.fieldrepr = self._shortrepr_for_field(m, ns, f)
+            ns.append = ns.format('parts.append("{capname} = %s" % {fieldrepr})')
+            ns.is_default_field = bool(f.discriminantValue == 0)
+            #
+            if f.is_part_of_union() and f.is_pointer():
+                # normally, null fields are never shown. However, in case
+                # of unions, the currently-tagged field is always shown
+                # (and if it's null we simply show its default value).
+                # HOWEVER, if the tagged field is the default one AND if
+                # it's null, we don't show anything; see
+                # test_union_set_but_null_pointer for examples.
+                ns.ww("""
+                if self.is_{pyname}() and (self.has_{pyname}() or
+                                          not {is_default_field}):
+                    {append}
+                """)
+            elif f.is_part_of_union():
+                ns.w("if self.is_{pyname}(): {append}")
+            elif f.is_pointer():
+                ns.w("if self.has_{pyname}(): {append}")
+            else:
+                ns.w("{append}")
+        ns.w('return "(%s)" % ", ".join(parts)')
 
     def _shortrepr_for_field(self, m, ns, f):
         if f.is_float32():
@@ -310,22 +319,26 @@ class Node__Struct:
         with m.code.block('def __hash__(self):') as ns:
             ns.n = len(fieldnames)
             ns.w('cdef long h[{n}]')
-            # compute the hash of each field
-            for ns.i, fname in enumerate(fieldnames):
-                f = fields[fname]
-                ns.fname = m.py_field_name(f)
-                if f.is_text_bytes(m):
-                    ns.offset = f.slot.offset * f.slot.get_size()
-                    ns.w('h[{i}] = self._hash_text_bytes({offset})')
-                if f.is_text_unicode(m):
-                    ns.offset = f.slot.offset * f.slot.get_size()
-                    ns.w('h[{i}] = self._hash_text_unicode({offset})')
-                else:
-                    ns.hash = self._fasthash_for_field(f)
-                    ns.w('h[{i}] = {hash}(self.{fname})')
-            #
-            # compute the hash of the whole tuple
-            ns.w('return _hash.tuplehash(h, {n})')
+            ns.w('_Py_EnterRecursiveCall_(b" in __hash__")')
+            with ns.block('try:') as ns:
+                ns.n = len(fieldnames)
+                # compute the hash of each field
+                for ns.i, fname in enumerate(fieldnames):
+                    f = fields[fname]
+                    ns.fname = m.py_field_name(f)
+                    if f.is_text_bytes(m):
+                        ns.offset = f.slot.offset * f.slot.get_size()
+                        ns.w('h[{i}] = self._hash_text_bytes({offset})')
+                    if f.is_text_unicode(m):
+                        ns.offset = f.slot.offset * f.slot.get_size()
+                        ns.w('h[{i}] = self._hash_text_unicode({offset})')
+                    else:
+                        ns.hash = self._fasthash_for_field(f)
+                        ns.w('h[{i}] = {hash}(self.{fname})')
+                #
+                # compute the hash of the whole tuple
+                ns.w('return _hash.tuplehash(h, {n})')
+            ns.w('finally: _Py_LeaveRecursiveCall_()')
         #
         # XXX this is a hack/workaround for what it looks like a Cython bug:
         # apparently, we need to redefine __richcmp__ together with __hash__,
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index a43e576..a660599 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -10,6 +10,7 @@ from capnpy.segment.segment import Segment, MultiSegment
 from capnpy.segment.endof import endof
 from capnpy.segment.builder import SegmentBuilder
 from capnpy.util import magic_setattr, decode_maybe
+from capnpy._hash import objhash
 
 class Undefined(object):
     def __repr__(self):
@@ -317,7 +318,7 @@ class Struct(Blob):
                         "Use the $Py.key annotation to enable it")
 
     def __hash__(self):
-        return hash(self._key())
+        return objhash(self._key())
 
     def _equals(self, other):
         if isinstance(other, Struct) or isinstance(other, tuple):
-- 
2.43.0


From 592f208d4b78ba8cf5dfe1211b8bf3477d7beeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 17/49] fix: crash when reading or writing a float field with
 an explicit default

---
 capnpy/compiler/field.py     | 15 +++++++++++++++
 capnpy/compiler/fieldtree.py |  4 ++++
 capnpy/compiler/request.py   |  4 ++++
 capnpy/compiler/structor.py  | 10 ++++++++++
 capnpy/schema_extended.py    | 21 +++++++++++++++++++++
 capnpy/util.py               | 13 +++++++++++++
 6 files changed, 67 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index e561511..5e5fac0 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -67,6 +67,10 @@ class Field__Slot:
             """)
 
     def _emit_primitive(self, m, ns, name):
+        float_default = self.slot.get_float_default_bits()
+        if float_default:
+            self._emit_float_with_default(m, ns, name, float_default)
+            return
         ns.typename = '_Types.%s' % self.slot.type.which()
         ns.default_ = self.slot.defaultValue.as_pyobj()
         ns.ifmt = "ord(%r)" % self.slot.get_fmt()
@@ -78,6 +82,17 @@ class Field__Slot:
             return value
         """)
 
+    def _emit_float_with_default(self, m, ns, name, default_bits):
+        # floats are XORed with their default by looking at their bits
+        ns.default_ = default_bits
+        ns.typename = str(self.slot.type.which())
+        ns.ifmt = "ord(%r)" % self.slot.get_float_bits_type().fmt
+        m.def_property(ns, name, """
+            {ensure_union}
+            value = self._read_primitive({offset}, {ifmt})
+            return _bits_to_{typename}(value ^ {default_})
+        """)
+
     def _emit_bool(self, m, ns, name):
         byteoffset, bitoffset = divmod(self.slot.offset, 8)
         ns.offset = byteoffset
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index ff4c3b9..5d21981 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -116,6 +116,10 @@ class Node(AbstractNode):
             return '_undefined'
         elif f.is_slot():
             default_val = f.slot.defaultValue.as_pyobj()
+            if f.is_float32() or f.is_float64():
+                # the repr of inf and nan is not a valid expression
+                typename = str(f.slot.type.which())
+                return '_bits_to_%s(%d)' % (typename, f.slot.get_float_default_bits())
             return str(default_val)
         elif f.is_nullable(m):
             ann = f.is_nullable(m)
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index b99cf20..f743b16 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -71,6 +71,10 @@ class RequestedFile:
         m.w("from capnpy.util import data_repr as _data_repr")
         m.w("from capnpy.util import float32_repr as _float32_repr")
         m.w("from capnpy.util import float64_repr as _float64_repr")
+        m.w("from capnpy.util import float32_to_bits as _float32_to_bits")
+        m.w("from capnpy.util import float64_to_bits as _float64_to_bits")
+        m.w("from capnpy.util import bits_to_float32 as _bits_to_float32")
+        m.w("from capnpy.util import bits_to_float64 as _bits_to_float64")
         m.w("from capnpy.util import extend_module_maybe as _extend_module_maybe")
         m.w("from capnpy.util import check_version as _check_version")
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index fc84d4f..2f9f393 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -187,6 +187,16 @@ class Structor(object):
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
+        float_default = node.f.slot.get_float_default_bits()
+        if float_default:
+            ns.default_ = float_default
+            ns.type = str(node.f.slot.type.which())
+            ns.bits_type = node.f.slot.get_float_bits_type().name
+            ns.offset = self.slot_offset(node.f)
+            ns.w('builder.write_{bits_type}(pos + {offset}, '
+                 '_{type}_to_bits({arg}) ^ {default_})')
+            return
+        #
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index f553541..c3e52f1 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -1,6 +1,7 @@
 from capnpy.type import Types as _Types
 from capnpy import annotate
 from capnpy.annotate import TextType
+from capnpy.util import float32_to_bits, float64_to_bits
 
 @Type.__extend__
 class Type:
@@ -142,6 +143,26 @@ class Field_slot:
         elif self.type.is_enum():
             return 'h'
 
+    def get_float_bits_type(self):
+        """
+        The unsigned integer type which has the same size as this float
+        """
+        if self.type.is_float32():
+            return _Types.uint32
+        return _Types.uint64
+
+    def get_float_default_bits(self):
+        """
+        The bits of the explicit default of a float field. Return 0 if it's
+        not a float or if there is no explicit default
+        """
+        if self.hadExplicitDefault:
+            if self.type.is_float32():
+                return float32_to_bits(self.defaultValue.float32)
+            elif self.type.is_float64():
+                return float64_to_bits(self.defaultValue.float64)
+        return 0
+
     def get_typename(self):
         if self.type.is_primitive():
             return str(self.type.which())
diff --git a/capnpy/util.py b/capnpy/util.py
index 9969389..221c2bf 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -1,4 +1,5 @@
 import sys
+import struct
 import py
 import six
 
@@ -85,6 +86,18 @@ def check_version(modname, version):
                'Please recompile.').format(v1=version, v2=capnpy.__version__)
         raise ImportError(msg)
 
+def float32_to_bits(x):
+    return struct.unpack('<I', struct.pack('<f', x))[0]
+
+def float64_to_bits(x):
+    return struct.unpack('<Q', struct.pack('<d', x))[0]
+
+def bits_to_float32(bits):
+    return struct.unpack('<f', struct.pack('<I', bits))[0]
+
+def bits_to_float64(bits):
+    return struct.unpack('<d', struct.pack('<Q', bits))[0]
+
 def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
-- 
2.43.0


From 6c5fee5acadb48d841fd800179476080d4cd9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 18/49] fix: shortrepr() did not escape backslashes and control
 chars, and crashed on lists of Data

---
 capnpy/list.py |  5 ++++-
 capnpy/util.py | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 97fb059..210f788 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -7,7 +7,8 @@ from capnpy.type import Types, BuiltinType
 from capnpy.blob import Blob, PYX
 from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe,
-                         encode_maybe, text_bytes_repr, text_unicode_repr)
+                         encode_maybe, text_bytes_repr, text_unicode_repr,
+                         data_repr)
 from capnpy.segment.endof import endof
 
 class List(Blob):
@@ -320,6 +321,8 @@ class TextItemType(ItemType):
         return lst._seg.read_str(p, offset, None, self.additional_size)
 
     def item_repr(self, item):
+        if self.additional_size == 0:
+            return data_repr(item)
         return text_bytes_repr(item)
 
     def write_item(self, builder, pos, item):
diff --git a/capnpy/util.py b/capnpy/util.py
index 221c2bf..243dccb 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -101,12 +101,20 @@ def bits_to_float64(bits):
 def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
+# same escapes as "capnp decode"
+_text_escapes = {i: u'\\%03o' % i for i in list(range(32)) + [127]}
+_text_escapes.update({ord('\a'): u'\\a', ord('\b'): u'\\b', ord('\t'): u'\\t',
+                      ord('\n'): u'\\n', ord('\v'): u'\\v', ord('\f'): u'\\f',
+                      ord('\r'): u'\\r', ord('"'): u'\\"', ord("'"): u"\\'",
+                      ord('\\'): u'\\\\'})
+
 def text_unicode_repr(s):
-    s = s.replace('"', r'\"')
-    s = s.replace("'", r"\'")
-    return u'"%s"' % s
+    # the null items of a list are shown as empty
+    s = s or u''
+    return u'"%s"' % s.translate(_text_escapes)
 
 def data_repr(s):
+    s = s or b''
     s = repr(s).lstrip('b')
 
     if six.PY2:
-- 
2.43.0


From 09596e5da56a1dfd1361a21802b24dc4eff92889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 19/49] fix: enums and union tags were read as signed integers

---
 capnpy/compiler/field.py    | 2 +-
 capnpy/compiler/struct_.py  | 4 ++--
 capnpy/compiler/structor.py | 2 +-
 capnpy/list.py              | 2 +-
 capnpy/schema_extended.py   | 4 ++--
 capnpy/struct_.py           | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 5e5fac0..5f1c5d8 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -112,7 +112,7 @@ class Field__Slot:
         ns.newf = '_new'
         m.def_property(ns, name, """
             {ensure_union}
-            value = self._read_int16({offset})
+            value = self._read_int16({offset}) & 0xffff # enums are unsigned
             if {default_} != 0:
                 value = (value ^ {default_})
             return {enumcls}.{newf}(value)
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 2011d86..37f861a 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -133,7 +133,7 @@ class Node__Struct:
             # are already fast
             ns.ww("""
                 cpdef long __which__(self) except -1:
-                    return self._read_int16({tag_offset})
+                    return self._read_int16({tag_offset}) & 0xffff
                 cpdef which(self):
                     return {compile_name}._new(self.__which__())
             """)
@@ -144,7 +144,7 @@ class Node__Struct:
             ns.i = i
             ns.ww("""
                 def is_{item}(self):
-                    return self._read_int16({tag_offset}) == {i}
+                    return (self._read_int16({tag_offset}) & 0xffff) == {i}
             """)
         ns.w()
 
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 2f9f393..f908025 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -71,7 +71,7 @@ class Structor(object):
             ns.ifmt  = 'ord(%r)' % Types.int16.fmt
             with ns.block('if {varname} is not _undefined:'):
                 ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_int16({offset}, {tagval})')
+                ns.w('builder.write_uint16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
diff --git a/capnpy/list.py b/capnpy/list.py
index 210f788..cc73a08 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -258,7 +258,7 @@ class PrimitiveItemType(ItemType):
 class EnumItemType(PrimitiveItemType):
 
     def __init__(self, enumcls):
-        PrimitiveItemType.__init__(self, Types.int16)
+        PrimitiveItemType.__init__(self, Types.uint16)
         self.enumcls = enumcls
 
     def get_type(self):
diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index c3e52f1..e0cabea 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -141,7 +141,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'q'
         elif self.type.is_enum():
-            return 'h'
+            return 'H'
 
     def get_float_bits_type(self):
         """
@@ -169,7 +169,7 @@ class Field_slot:
         elif self.type.is_pointer():
             return 'int64'
         elif self.type.is_enum():
-            return 'int16'
+            return 'uint16'
 
     def get_size(self):
         # XXX: even more hackish, we need a better way
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index a660599..8c7b0a0 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -168,7 +168,7 @@ class Struct(Blob):
     def __which__(self):
         if self.__tag_offset__ is None:
             raise TypeError("Cannot call which() on a non-union type")
-        return self._read_int16(self.__tag_offset__)
+        return self._read_int16(self.__tag_offset__) & 0xffff # tags are unsigned
 
     def _as_pointer(self, offset):
         """
-- 
2.43.0


From 226cfdefe2a2fedc6d37343a8eb4db0770c52db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 20/49] fix: fields called "pos" or "builder" broke the
 generated constructor

---
 capnpy/compiler/structor.py | 53 +++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index f908025..56acaf3 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -34,14 +34,15 @@ class Structor(object):
         ## generate a constructor which looks like this
         ## @staticmethod
         ## def __new(x=0, y=0, z=None):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(24)
-        ##     builder.write_int64(pos + 0, x)
-        ##     builder.write_int64(pos + 8, y)
-        ##     builder.alloc_text(pos + 16, z)
-        ##     return builder.as_string()
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(24)
+        ##     _builder.write_int64(_pos + 0, x)
+        ##     _builder.write_int64(_pos + 8, y)
+        ##     _builder.alloc_text(_pos + 16, z)
+        ##     return _builder.as_string()
         #
-        # the parameters have the same order as fields
+        # (the local variables start with an underscore to avoid clashing with
+        # the parameters, which have the same name and order as the fields)
         code = self.m.code
         argnames = self.argnames
         if len(argnames) != len(set(argnames)):
@@ -50,15 +51,15 @@ class Structor(object):
         code.w('@staticmethod')
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
-            ns.cdef_var('_SegmentBuilder', 'builder')
-            ns.cdef_var('long', 'pos')
-            ns.w('builder = _SegmentBuilder()')
-            ns.w('pos = builder.allocate({length})')
+            ns.cdef_var('_SegmentBuilder', '_builder')
+            ns.cdef_var('long', '_pos')
+            ns.w('_builder = _SegmentBuilder()')
+            ns.w('_pos = _builder.allocate({length})')
             for union in self.fieldtree.all_unions():
                 ns.w('{union}__curtag = None', union=union.varname)
             for node in self.fieldtree.children:
                 self.handle_node(node)
-            ns.w('return builder.as_string()')
+            ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
         if node.f.is_part_of_union():
@@ -71,7 +72,7 @@ class Structor(object):
             ns.ifmt  = 'ord(%r)' % Types.int16.fmt
             with ns.block('if {varname} is not _undefined:'):
                 ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_uint16({offset}, {tagval})')
+                ns.w('_builder.write_uint16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
@@ -106,8 +107,8 @@ class Structor(object):
         # def __init__(self, position, ...):
         #     ...
         #     position_x, position_y = position
-        #     builder.write_...(..., position_x)
-        #     builder.write_...(..., position_y)
+        #     _builder.write_...(..., position_x)
+        #     _builder.write_...(..., position_y)
         #     ...
         #
         # 1. unpack the tuple into various indepented variables
@@ -149,31 +150,31 @@ class Structor(object):
             self.handle_node(child)
 
     def handle_text_bytes(self, node):
-        self.m.code.w('builder.alloc_text(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_text(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_text_unicode(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.alloc_text(pos + {offset}, _encode_maybe({arg}))')
+        ns.w('_builder.alloc_text(_pos + {offset}, _encode_maybe({arg}))')
 
     def handle_data(self, node):
-        self.m.code.w('builder.alloc_data(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_data(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_struct(self, node):
         ## @staticmethod
         ## def __new(x=0, y=<some struct>):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(16)
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(16)
         ##     ...
-        ##     builder.copy_from_struct(pos+8, SomeStruct, y)
+        ##     _builder.copy_from_struct(_pos+8, SomeStruct, y)
         ns = self.m.code.new_scope()
         ns.fname = node.varname
         ns.offset = self.slot_offset(node.f)
         ns.structname = node.f.slot.type.runtime_name(self.m)
-        ns.w('builder.copy_from_struct(pos + {offset}, {structname}, {fname})')
+        ns.w('_builder.copy_from_struct(_pos + {offset}, {structname}, {fname})')
 
     def handle_list(self, node):
         options = self.m.options(node.f)
@@ -182,7 +183,7 @@ class Structor(object):
         ns.offset = self.slot_offset(node.f)
         t = node.f.slot.type.list.elementType
         ns.list_item_type = t.list_item_type(self.m, options)
-        ns.w('builder.copy_from_list(pos + {offset}, {list_item_type}, {fname})')
+        ns.w('_builder.copy_from_list(_pos + {offset}, {list_item_type}, {fname})')
 
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
@@ -193,7 +194,7 @@ class Structor(object):
             ns.type = str(node.f.slot.type.which())
             ns.bits_type = node.f.slot.get_float_bits_type().name
             ns.offset = self.slot_offset(node.f)
-            ns.w('builder.write_{bits_type}(pos + {offset}, '
+            ns.w('_builder.write_{bits_type}(_pos + {offset}, '
                  '_{type}_to_bits({arg}) ^ {default_})')
             return
         #
@@ -203,7 +204,7 @@ class Structor(object):
         #
         ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.write_{type}(pos + {offset}, {arg})')
+        ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_bool(self, node):
         ns = self.m.code.new_scope()
@@ -212,4 +213,4 @@ class Structor(object):
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
-        ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
+        ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
-- 
2.43.0


From e968a512acb9e8ad48d6da75b99295242e463710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 21/49] fix: constructor clobbered fields named like the
 members of a group, and $Py.nullable did not work with convertCase=false

---
 capnpy/annotate_extended.py  |  2 +-
 capnpy/compiler/field.py     |  5 +++--
 capnpy/compiler/fieldtree.py | 10 ++++++++++
 capnpy/compiler/structor.py  | 12 ++++++++----
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/capnpy/annotate_extended.py b/capnpy/annotate_extended.py
index 20a145f..af98eec 100644
--- a/capnpy/annotate_extended.py
+++ b/capnpy/annotate_extended.py
@@ -14,7 +14,7 @@ class nullable:
         group = field.group.get_node(m)
         if len(group.struct.fields) != 2:
             error()
-        f_is_null, f_value = group.struct.fields
+        f_is_null, f_value = group.get_struct_fields()
         if (f_is_null.name != b'isNull' or
             f_value.name != b'value'):
             error('nullable groups must have exactly two fields: '
diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 5f1c5d8..52046b0 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -242,11 +242,12 @@ class Field__Group:
         ns.name = name
         nullable = self.is_nullable(m)
         if nullable:
-            nullable.check(m)
+            _, f_is_null, _ = nullable.check(m)
             ns.privname = '_' + name
+            ns.is_null = m.py_field_name(f_is_null)
             m.def_property(ns, name, """
                 g = self.{privname}
-                if g.is_null:
+                if g.{is_null}:
                     return None
                 return g.value
             """)
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index 5d21981..b3683b9 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -56,10 +56,20 @@ class FieldTree(AbstractNode):
         self.children = []
         prefix = None
         self._add_children(m, fields, prefix, field_force_default)
+        self._ensure_unique_varnames()
 
     def __repr__(self):
         return '<FieldTree>'
 
+    def _ensure_unique_varnames(self):
+        # the first level are the names of the arguments and cannot be changed
+        seen = set([node.varname for node in self.children])
+        for child in self.children:
+            for node in child.allnodes():
+                while node.varname in seen:
+                    node.varname += '_'
+                seen.add(node.varname)
+
     def all_unions(self):
         if self.union:
             yield self.union
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 56acaf3..5bb4d56 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -134,17 +134,21 @@ class Structor(object):
         #
         value_node = node.children[1]
         assert value_node.f.name == b'value' # sanity check
+        is_null_node = node.children[0]
+        assert is_null_node.f.name == b'isNull' # sanity check
         ns = self.m.code.new_scope()
         ns.fname = node.varname
+        ns.is_null = is_null_node.varname
+        ns.value = value_node.varname
         ns.value_default = value_node.default
         ns.ww(
         """
             if {fname} is None:
-                {fname}_is_null = 1
-                {fname}_value = {value_default}
+                {is_null} = 1
+                {value} = {value_default}
             else:
-                {fname}_is_null = 0
-                {fname}_value = {fname}
+                {is_null} = 0
+                {value} = {fname}
         """)
         for child in node.children:
             self.handle_node(child)
-- 
2.43.0


From ac93fd528c837758d73432e265123bbfa3b2f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 22/49] fix: enums and unions with a member called "name" could
 not be printed

---
 capnpy/enum.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/capnpy/enum.py b/capnpy/enum.py
index 894ceb0..16bc8e4 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -4,18 +4,21 @@ class BaseEnum(int):
     __slots__ = ()
     __members__ = ()
 
-    @property
-    def name(self):
+    def _get_name(self):
         try:
             return self.__members__[self]
         except IndexError:
             return 'unknown<%d>' % self
 
+    # self.name cannot be used internally, because it is overridden if there
+    # is an enumerant which is called "name"
+    name = property(_get_name)
+
     def __repr__(self):
-        return '<%s.%s: %d>' % (self.__class__.__name__, self.name, self)
+        return '<%s.%s: %d>' % (self.__class__.__name__, self._get_name(), self)
 
     def __str__(self):
-        return self.name
+        return self._get_name()
 
 def fill_enum(cls):
     for i, member in enumerate(cls.__members__):
-- 
2.43.0


From aec8fa9f4a096a8075d9ba05c130736700ec3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 23/49] fix: shortrepr() of enums: names as in the schema, also
 inside lists

---
 capnpy/compiler/enum.py    |  3 ++-
 capnpy/compiler/module.py  |  9 +++++++--
 capnpy/compiler/struct_.py |  4 +++-
 capnpy/enum.py             | 10 ++++++++++
 capnpy/list.py             |  3 +++
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/capnpy/compiler/enum.py b/capnpy/compiler/enum.py
index d070d64..392b220 100644
--- a/capnpy/compiler/enum.py
+++ b/capnpy/compiler/enum.py
@@ -14,7 +14,8 @@ class Node__Enum:
     def emit_declaration(self, m):
         name =  self.compile_name(m)
         items = [m.py_field_name(item) for item in self.get_enum_enumerants()]
-        m.declare_enum(name, self.shortname(m), self.id, items)
+        capnp_items = [m.capnp_field_name(item) for item in self.get_enum_enumerants()]
+        m.declare_enum(name, self.shortname(m), self.id, items, capnp_items)
         m.w('_{name}_list_item_type = _EnumItemType({name})', name=name)
         m.w()
 
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index acc690d..900631f 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -169,11 +169,14 @@ class ModuleGenerator(object):
             return name + '_'
         return name
 
-    def declare_enum(self, compile_name, name, capnpy_id, items):
+    def declare_enum(self, compile_name, name, capnpy_id, items, capnp_items=None):
         # this method cannot go on Node__Enum because it's also called by
         # Node__Struct (for __tag__)
-        items = list(map(repr, items))
         ns = self.code.new_scope()
+        ns.capnp_members = None
+        if capnp_items is not None and capnp_items != items:
+            ns.capnp_members = tuple(capnp_items)
+        items = list(map(repr, items))
         ns.name = compile_name
         ns.capnpy_id = capnpy_id
         ns.members = "(%s,)" % (', '.join(items))
@@ -184,6 +187,8 @@ class ModuleGenerator(object):
         with ns.block("class {name}(_BaseEnum):"):
             ns.w("__capnpy_id__ = {capnpy_id}")
             ns.w("__members__ = {members}")
+            if ns.capnp_members:
+                ns.w("__capnp_members__ = {capnp_members}")
             ns.w("@staticmethod")
             with ns.block('def _new(x):') as ns:
                 ns.w('return {name}(x)')
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 37f861a..d482324 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -261,8 +261,10 @@ class Node__Struct:
             return ns.format('_float32_repr(self.{pyname})')
         elif f.is_float64():
             return ns.format('_float64_repr(self.{pyname})')
-        if f.is_primitive() or f.is_enum():
+        if f.is_primitive():
             return ns.format('self.{pyname}')
+        elif f.is_enum():
+            return ns.format('self.{pyname}.shortrepr()')
         elif f.is_bool():
             return ns.format('str(self.{pyname}).lower()')
         elif f.is_void():
diff --git a/capnpy/enum.py b/capnpy/enum.py
index 16bc8e4..4af74ec 100644
--- a/capnpy/enum.py
+++ b/capnpy/enum.py
@@ -3,6 +3,7 @@ from capnpy.util import magic_setattr
 class BaseEnum(int):
     __slots__ = ()
     __members__ = ()
+    __capnp_members__ = None # set only if they are different than __members__
 
     def _get_name(self):
         try:
@@ -14,6 +15,15 @@ class BaseEnum(int):
     # is an enumerant which is called "name"
     name = property(_get_name)
 
+    def shortrepr(self):
+        """
+        The name of the enumerant as written in the schema
+        """
+        members = self.__capnp_members__
+        if members is not None and self < len(members):
+            return members[self]
+        return self._get_name()
+
     def __repr__(self):
         return '<%s.%s: %d>' % (self.__class__.__name__, self._get_name(), self)
 
diff --git a/capnpy/list.py b/capnpy/list.py
index cc73a08..4abb218 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -268,6 +268,9 @@ class EnumItemType(PrimitiveItemType):
         value = PrimitiveItemType.read_item(self, lst, i)
         return self.enumcls(value)
 
+    def item_repr(self, item):
+        return item.shortrepr()
+
 
 class StructItemType(ItemType):
 
-- 
2.43.0


From cf9fb30c77f2b87e5a8a1ed5c895ee86be488e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 24/49] fix: groups which contain only void fields did not
 compile

---
 capnpy/compiler/field.py     | 4 ++--
 capnpy/compiler/fieldtree.py | 2 ++
 capnpy/compiler/structor.py  | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 52046b0..99b1666 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -279,13 +279,13 @@ class Field__Group:
         tree = FieldTree(m, groupnode)
         argnames, params = tree.get_args_and_params()
         #
-        ns.argnames = m.code.args(argnames)
+        ns.argtuple = '(%s)' % ''.join([arg + ', ' for arg in argnames])
         ns.params = m.code.params(params)
         ns.capitalname = ns.name.capitalize()
         ns.ww("""
             @staticmethod
             def {capitalname}({params}):
-                return {argnames},
+                return {argtuple}
         """)
         ns.w()
 
diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index b3683b9..4e55456 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -143,6 +143,8 @@ class Node(AbstractNode):
         else:
             assert f.is_group()
             items = [child.default for child in self.children]
+            if not items:
+                return '()'
             return '(%s,)' % ', '.join(items)
 
 
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 5bb4d56..ad2053c 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -115,8 +115,8 @@ class Structor(object):
         ns = self.m.code.new_scope()
         ns.group = node.varname
         argnames = [child.varname for child in node.children]
-        ns.args = self.m.code.args(argnames)
-        ns.w('{args}, = {group}')
+        ns.args = '(%s)' % ''.join([arg + ', ' for arg in argnames])
+        ns.w('{args} = {group}')
         #
         # 2. recursively handle all the children
         for child in node.children:
-- 
2.43.0


From fc02ebdc6f5e23d93a77489424b865e478f70e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 25/49] fix: groups called none, true or false did not compile

---
 capnpy/compiler/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 99b1666..3e1732d 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -281,7 +281,7 @@ class Field__Group:
         #
         ns.argtuple = '(%s)' % ''.join([arg + ', ' for arg in argnames])
         ns.params = m.code.params(params)
-        ns.capitalname = ns.name.capitalize()
+        ns.capitalname = m._mangle_name(ns.name.capitalize())
         ns.ww("""
             @staticmethod
             def {capitalname}({params}):
-- 
2.43.0


From 11c1144d88080b31ee01d78bfb6195106ce08e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 26/49] fix: new structs were not compact if the order of the
 fields differs from the order of the pointers

---
 capnpy/compiler/structor.py | 48 +++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index ad2053c..e9dd7df 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -30,6 +30,9 @@ class Structor(object):
             offset += self.data_size*8
         return offset
 
+    def slot_offset_of_node(self, node):
+        return self.slot_offset(node.f)
+
     def emit(self):
         ## generate a constructor which looks like this
         ## @staticmethod
@@ -57,8 +60,13 @@ class Structor(object):
             ns.w('_pos = _builder.allocate({length})')
             for union in self.fieldtree.all_unions():
                 ns.w('{union}__curtag = None', union=union.varname)
+            self.ptr_nodes = []
             for node in self.fieldtree.children:
                 self.handle_node(node)
+            # the children must be in the same order as their pointers, else
+            # the message is not compact
+            for node in sorted(self.ptr_nodes, key=self.slot_offset_of_node):
+                self.handle_ptr_node(node)
             ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
@@ -83,16 +91,8 @@ class Structor(object):
             self.handle_nullable(node)
         elif f.is_group():
             self.handle_group(node)
-        elif f.is_text_bytes(self.m):
-            self.handle_text_bytes(node)
-        elif f.is_text_unicode(self.m):
-            self.handle_text_unicode(node)
-        elif f.is_data():
-            self.handle_data(node)
-        elif f.is_struct():
-            self.handle_struct(node)
-        elif f.is_list():
-            self.handle_list(node)
+        elif f.is_text_any() or f.is_data() or f.is_struct() or f.is_list():
+            self.ptr_nodes.append(node) # see handle_ptr_node
         elif f.is_primitive() or f.is_enum():
             self.handle_primitive(node)
         elif f.is_bool():
@@ -103,6 +103,34 @@ class Structor(object):
             self.m.code.w("raise NotImplementedError('Unsupported field type: {f}')",
                           f=node.f.shortrepr())
 
+    def handle_ptr_node(self, node):
+        # if we are inside one or more unions, check that we are active
+        conds = []
+        n = node
+        while n.parent is not None:
+            if n.f.is_part_of_union():
+                conds.insert(0, '%s is not _undefined' % n.varname)
+            n = n.parent
+        if conds:
+            with self.m.code.block('if {cond}:', cond=' and '.join(conds)):
+                self._handle_ptr_node(node)
+        else:
+            self._handle_ptr_node(node)
+
+    def _handle_ptr_node(self, node):
+        f = node.f
+        if f.is_text_bytes(self.m):
+            self.handle_text_bytes(node)
+        elif f.is_text_unicode(self.m):
+            self.handle_text_unicode(node)
+        elif f.is_data():
+            self.handle_data(node)
+        elif f.is_struct():
+            self.handle_struct(node)
+        else:
+            assert f.is_list()
+            self.handle_list(node)
+
     def handle_group(self, node):
         # def __init__(self, position, ...):
         #     ...
-- 
2.43.0


From 50f4edac0aa96ea08e042477eddb5fcbd155e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 27/49] fix: the length of a malformed list of structs could be
 negative, which crashed repr() and len()

---
 capnpy/list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 4abb218..ca56940 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -43,7 +43,8 @@ class List(Blob):
         if size_tag == ptr.LIST_SIZE_COMPOSITE:
             tag = self._seg.read_ptr(self._offset)
             self._tag = tag
-            self._item_count = ptr.offset(tag)
+            # same bits as the offset, but unsigned
+            self._item_count = ptr.offset(tag) & 0x3fffffff
             self._item_length = (ptr.struct_data_size(tag)+ptr.struct_ptrs_size(tag))*8
             self._item_offset = 8
         else:
-- 
2.43.0


From d0de04650b7eefc12467e6ded2f4f10d4cde63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 28/49] fix: dumping or copying a far pointer which points to
 itself overflowed the C stack

---
 capnpy/segment/_copy_pointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 15c5e81..5d35ece 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -83,6 +83,9 @@ def copy_pointer(src, p, src_pos, dst, dst_pos):
             return _copy_list_primitive(src, p, src_pos, dst, dst_pos)
     elif kind == ptr.FAR:
         src_pos, p = src.read_far_ptr(src_pos)
+        if ptr.kind(p) == ptr.FAR:
+            # without this check, we would recurse forever if it points to itself
+            raise ValueError('The landing pad of a far pointer is a far pointer')
         return copy_pointer(src, p, src_pos, dst, dst_pos)
 
 
-- 
2.43.0


From 7dd6d46f264d5c33229e9faa9da078925b43504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 29/49] fix: hash() of lists depended on their address in pure
 Python mode

---
 capnpy/blob.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/blob.py b/capnpy/blob.py
index b9c9fab..d2f0a85 100644
--- a/capnpy/blob.py
+++ b/capnpy/blob.py
@@ -112,5 +112,7 @@ try:
     Blob.__le__ = Blob.__dict__['_cmp_error']
     Blob.__gt__ = Blob.__dict__['_cmp_error']
     Blob.__ge__ = Blob.__dict__['_cmp_error']
+    # normally this is done automatically if the class defines __eq__
+    Blob.__hash__ = None
 except TypeError:
     pass
-- 
2.43.0


From d58e5fe98eb52d416247b645c760fd5a623cb08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 30/49] fix: schemas with several py groups failed to compile
 at random

---
 capnpy/schema_extended.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index e0cabea..eb48282 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -210,7 +210,8 @@ class Node__Struct(Node):
         node_id = parent_id + hash(field_void.name) % 10000
         # Need a better way to get a UID.
         # Todo: Use proper md5
-        assert node_id not in m.allnodes
+        while node_id in m.allnodes:
+            node_id = (node_id + 1) % 2**64
 
         # There shouldn't be any unions inside the group.
         # So do not have to deal with discriminantCount
-- 
2.43.0


From 11a969f2e38fb898001faa289d5b098122692572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 31/49] fix: get_*() of inactive Text and Data union members
 returned the bytes of another member

---
 capnpy/compiler/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index 3e1732d..a156ef3 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -126,6 +126,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_bytes({offset}, default_=b"")
         """)
         ns.w()
@@ -139,6 +140,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_text_unicode({offset}, default_=b"")
         """)
         ns.w()
@@ -152,6 +154,7 @@ class Field__Slot:
         """)
         ns.ww("""
             {cpdef} get_{name}(self):
+                {ensure_union}
                 return self._read_data({offset}, default_=b"")
         """)
         ns.w()
-- 
2.43.0


From 19227d39cd1319a97f9fdc4c121524111846d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 32/49] fix: printing a struct with a nullable group inside an
 union raised AttributeError

---
 capnpy/compiler/struct_.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index d482324..b6b7d6d 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -224,6 +224,7 @@ class Node__Struct:
         ns.w('parts = []')
         for f in fields:
             ns.pyname = m.py_field_name(f)
+            ns.is_method = 'is_' + ns.pyname
             ns.capname = m.capnp_field_name(f)
             if f.is_nullable(m):
                 # if 'x' is nullable, obj.x returns either None or the
@@ -244,12 +245,12 @@ class Node__Struct:
                 # it's null, we don't show anything; see
                 # test_union_set_but_null_pointer for examples.
                 ns.ww("""
-                if self.is_{pyname}() and (self.has_{pyname}() or
+                if self.{is_method}() and (self.has_{pyname}() or
                                           not {is_default_field}):
                     {append}
                 """)
             elif f.is_part_of_union():
-                ns.w("if self.is_{pyname}(): {append}")
+                ns.w("if self.{is_method}(): {append}")
             elif f.is_pointer():
                 ns.w("if self.has_{pyname}(): {append}")
             else:
-- 
2.43.0


From eea79d91ef7199914d7ee096affb90f396530917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 33/49] fix: a Bool argument stored other bits when it was not
 exactly True or False

---
 capnpy/compiler/structor.py | 2 +-
 capnpy/segment/builder.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index e9dd7df..5c3da12 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -244,5 +244,5 @@ class Structor(object):
         ns.byteoffset, ns.bitoffset = divmod(node.f.slot.offset, 8)
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
-            ns.w('{arg} ^= {default_}')
+            ns.w('{arg} = (not not {arg}) ^ {default_}')
         ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 9647e2e..6800d4d 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -55,7 +55,8 @@ class SegmentBuilder(object):
 
     def write_bool(self, byteoffset, bitoffset, value):
         current = struct.unpack_from('B', self.buf, byteoffset)[0]
-        current |= (value << bitoffset)
+        if value:
+            current |= (1 << bitoffset)
         struct.pack_into('B', self.buf, byteoffset, current)
 
     def write_slice(self, i, src, start, n):
-- 
2.43.0


From 7ac2ad98b4a95297c30b299cd6bb71408581bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 34/49] fix: in pyx mode, loading a schema with the basename of
 another one returned the other module

---
 capnpy/compiler/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/compiler.py b/capnpy/compiler/compiler.py
index b99615d..5710418 100644
--- a/capnpy/compiler/compiler.py
+++ b/capnpy/compiler/compiler.py
@@ -87,8 +87,10 @@ class BaseCompiler(object):
         if self.annotate:
             import Cython.Compiler.Options
             Cython.Compiler.Options.annotate = True
+        # build in the directory of pyxfile: schemas with the same basename but
+        # in different directories must not share the same dll
         dll = pyx_to_dll(str(pyxfile),
-                         pyxbuild_dir=str(self.tmpdir),
+                         pyxbuild_dir=pyxfile.dirname,
                          setup_args=dict(
                              include_dirs=self.include_dirs,
                          ))
-- 
2.43.0


From e1ab91f699f6b53b798397fb0ddebdacdf83a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 35/49] fix: an offset close to the largest int was read
 outside of the buffer

---
 capnpy/packing.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/packing.pyx b/capnpy/packing.pyx
index 30ba213..6d4e982 100644
--- a/capnpy/packing.pyx
+++ b/capnpy/packing.pyx
@@ -36,7 +36,7 @@ cdef char* as_cbuf(object buf, Py_ssize_t* length, bint rw=0) except NULL:
             raise TypeError("Expected str or bytearray")
 
 cdef checkbound(int size, Py_ssize_t length, int offset):
-    if offset < 0 or offset + size > length:
+    if offset < 0 or offset > length - size:
         raise IndexError('Offset out of bounds: %d' % offset)
 
 cpdef unpack_primitive(char ifmt, object buf, int offset):
-- 
2.43.0


From 4c283447060334483e61dd77776a70a1f8171afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 36/49] fix: the value of inf, nan and enum constants, and
 names which are python keywords

The generated code used the repr() of inf and nan, which is not a valid
expression; constants of enum types were plain integers; and a constant,
annotation or type whose name is a python keyword did not compile.
---
 capnpy/compiler/node.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 65e3638..45df883 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -1,8 +1,10 @@
+import math
 from capnpy.struct_ import Struct
 from capnpy.list import VoidItemType
 from capnpy.schema import (Node, Node__Enum, Node__Const, Node__Annotation,
                            Enumerant)
 from capnpy import annotate
+from capnpy.util import float64_to_bits
 from capnpy.compiler.util import as_identifier
 
 # The implementation of each node is divided in three parts:
@@ -75,7 +77,7 @@ class Node:
         if self.is_file():
             filename = as_identifier(self.displayName)
             return m.importnames[filename]
-        return as_identifier(name)
+        return m._mangle_name(as_identifier(name))
 
     def _fullname(self, m, sep):
         parent = self.get_parent(m)
@@ -174,7 +176,15 @@ class Node__Const:
         else:
             # for primitive types
             val = self.const.value.as_pyobj()
-            ns.constdecl = repr(val)
+            if self.const.type.is_enum():
+                # emit an instance of the enum, not just its numerical value
+                enum_type = m.allnodes[self.const.type.enum.typeId]
+                ns.constdecl = '%s(%d)' % (enum_type.compile_name(m), val)
+            elif isinstance(val, float) and (math.isinf(val) or math.isnan(val)):
+                # the repr() of inf and nan is not a valid python expression
+                ns.constdecl = '_bits_to_float64(%d)' % float64_to_bits(val)
+            else:
+                ns.constdecl = repr(val)
         #
         ns.w('{varname} = {constdecl}')
 
-- 
2.43.0


From bb3a499242592924ca6b411e7e74d3279cb90d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 37/49] fix: new_x() could select x also in the union of a
 group

---
 capnpy/compiler/fieldtree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/fieldtree.py b/capnpy/compiler/fieldtree.py
index 4e55456..1896ec0 100644
--- a/capnpy/compiler/fieldtree.py
+++ b/capnpy/compiler/fieldtree.py
@@ -105,18 +105,20 @@ class Node(AbstractNode):
         self.varname = m.py_field_name(f)
         if prefix:
             self.varname = '%s_%s' % (prefix, self.varname)
-        self._init_children(m, field_force_default)
+        self._init_children(m)
         #
         # self.default is a *string* containing a Python repr of the default
         # value
         self.default = self._get_default(m)
 
-    def _init_children(self, m, field_force_default):
+    def _init_children(self, m):
         self.children = []
         if self.f.is_group():
             group = self.f.group.get_node(m)
+            # the forced default is a member of the outermost union, never of
+            # the group (which might contain a field which looks the same)
             self._add_children(m, group.get_struct_fields(), prefix=self.varname,
-                               field_force_default=field_force_default)
+                               field_force_default=None)
             if group.struct.is_union():
                 self.union = Union(self.varname, group.struct.discriminantOffset*2)
 
-- 
2.43.0


From 19ab8d084254ef54fc86c9cb1b14c472f167eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:19 +0000
Subject: [PATCH 38/49] fix: copying lists of 2**28 or more items, and negative
 offsets, with the pure python packing functions

The compiled functions return pointers as signed 64 bit integers, while the
pure python ones returned unsigned integers, which could not be written into a
segment. Moreover, pack_into() accepted negative offsets.
---
 capnpy/packing.py | 4 +++-
 capnpy/ptr.py     | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/capnpy/packing.py b/capnpy/packing.py
index c15d0fb..3edcb93 100644
--- a/capnpy/packing.py
+++ b/capnpy/packing.py
@@ -40,13 +40,15 @@ def pack_message_header(segment_count, segment_size, p):
     This assumes that segment_count == 1
     """
     assert segment_count == 1
-    return struct.pack('iiQ', segment_count-1, segment_size, p)
+    return struct.pack('iiq', segment_count-1, segment_size, p)
 
 def pack_int64(value):
     return struct.pack('q', value)
 
 def pack_into(ifmt, buf, offset, value):
     fmt = '<' + mychr(ifmt)
+    if offset < 0:
+        raise IndexError('Offset out of bounds: %d' % offset)
     try:
         struct.pack_into(fmt, buf, offset, value)
     except struct.error as e:
diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index a0d9145..88341fb 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -39,7 +39,7 @@ LIST_SIZE_COMPOSITE = 7
 
 def new_generic(kind, offset, extra):
     p = 0
-    p |= extra << 32
+    p |= as_signed(extra, 32) << 32 # the compiled version uses signed longs
     p |= offset << 2
     p |= kind
     return p
@@ -80,7 +80,7 @@ def deref(ptr, ofs):
 
 def new_struct(offset, data_size, ptrs_size):
     p = 0
-    p |= ptrs_size << 48
+    p |= as_signed(ptrs_size, 16) << 48
     p |= (data_size << 32 & 0xffff00000000)
     p |= (offset << 2 & 0xfffffffc)
     p |= STRUCT
@@ -118,7 +118,7 @@ def struct_ptrs_size(ptr):
 
 def new_list(ptr_offset, size_tag, item_count):
     p = 0
-    p |= item_count << 35
+    p |= as_signed(item_count, 29) << 35
     p |= (size_tag << 32 & 0x700000000)
     p |= (ptr_offset << 2 & 0xfffffffc)
     p |= LIST
@@ -154,7 +154,7 @@ def list_item_length(size_tag):
 
 def new_far(landing_pad, offset, target):
     p = 0
-    p |= target << 32
+    p |= as_signed(target, 32) << 32
     p |= (offset << 3 & 0xfffffff8)
     p |= (landing_pad << 2 & 0x4)
     p |= FAR
-- 
2.43.0


From 1e9c9f61cce97bfc0f875deba07b15114f3a8f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 39/49] fix: lists of nested structs and enums of an imported
 schema, in the python mode

---
 capnpy/compiler/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/misc.py b/capnpy/compiler/misc.py
index 60ba886..69eeb6d 100644
--- a/capnpy/compiler/misc.py
+++ b/capnpy/compiler/misc.py
@@ -47,7 +47,8 @@ class Type:
                 use_prebuilt_item_type = False
         else:
             if self.is_struct() or self.is_enum():
-                use_prebuilt_item_type = True
+                node = self.get_node(m)
+                use_prebuilt_item_type = not node.is_imported(m)
                 prebuilt_compile_name = self.compile_name(m, prefix='_')
             else:
                 use_prebuilt_item_type = False
-- 
2.43.0


From 7b627da1db86890f3b4ed80c573ef077fea3dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 40/49] fix: constants called str, and fields and constants
 called property, staticmethod or classmethod in the python mode

---
 capnpy/compiler/field.py    |  3 ++-
 capnpy/compiler/module.py   | 13 ++++++++++++-
 capnpy/compiler/request.py  |  4 ++++
 capnpy/compiler/struct_.py  |  4 ++--
 capnpy/compiler/structor.py |  2 +-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/capnpy/compiler/field.py b/capnpy/compiler/field.py
index a156ef3..3d2a575 100644
--- a/capnpy/compiler/field.py
+++ b/capnpy/compiler/field.py
@@ -285,8 +285,9 @@ class Field__Group:
         ns.argtuple = '(%s)' % ''.join([arg + ', ' for arg in argnames])
         ns.params = m.code.params(params)
         ns.capitalname = m._mangle_name(ns.name.capitalize())
+        ns.decorator = m.builtin_decorator('staticmethod')
         ns.ww("""
-            @staticmethod
+            {decorator}
             def {capitalname}({params}):
                 return {argtuple}
         """)
diff --git a/capnpy/compiler/module.py b/capnpy/compiler/module.py
index 900631f..c9b5688 100644
--- a/capnpy/compiler/module.py
+++ b/capnpy/compiler/module.py
@@ -219,13 +219,24 @@ class ModuleGenerator(object):
             data_size=s._data_size,
             ptrs_size=s._ptrs_size)
 
+    def builtin_decorator(self, name):
+        """
+        The decorators which are used inside the body of a generated class.
+
+        In py mode we refer to them through a private alias, so that they keep
+        working even if there is a field or a constant with the same name.
+        """
+        if self.pyx:
+            return '@%s' % name
+        return '@_%s' % name
+
     def def_property(self, ns, name, src):
         if self.pyx:
             with ns.block('property {name}:', name=name):
                 with ns.block('def __get__(self):'):
                     ns.ww(src)
         else:
-            ns.w('@property')
+            ns.w(self.builtin_decorator('property'))
             with ns.block('def {name}(self):', name=name):
                 ns.ww(src)
         ns.w()
diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index f743b16..4e17d71 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -79,6 +79,10 @@ class RequestedFile:
         m.w("from capnpy.util import check_version as _check_version")
         m.w("from capnpy.util import encode_maybe as _encode_maybe")
         #
+        if not m.pyx:
+            # see ModuleGenerator.builtin_decorator
+            for name in ('property', 'staticmethod', 'classmethod'):
+                m.w('_{name} = {name}', name=name)
         if m.pyx:
             # used to avoid overflowing the C stack if a message contains
             # cyclic pointers
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index b6b7d6d..dab3854 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -195,7 +195,7 @@ class Node__Struct:
             if f not in fields:
                 argnames.append((m.py_field_name(f), '_undefined'))
         #
-        ns.w('@classmethod')
+        ns.w(m.builtin_decorator('classmethod'))
         with ns.def_(name, ['cls'] + params):
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, argnames)
@@ -267,7 +267,7 @@ class Node__Struct:
         elif f.is_enum():
             return ns.format('self.{pyname}.shortrepr()')
         elif f.is_bool():
-            return ns.format('str(self.{pyname}).lower()')
+            return ns.format('("true" if self.{pyname} else "false")')
         elif f.is_void():
             return '"void"'
         elif f.is_text_bytes(m):
diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index 5c3da12..ee3f767 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -51,7 +51,7 @@ class Structor(object):
         if len(argnames) != len(set(argnames)):
             raise ValueError("Duplicate field name(s): %s" % argnames)
         #
-        code.w('@staticmethod')
+        code.w(self.m.builtin_decorator('staticmethod'))
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
             ns.cdef_var('_SegmentBuilder', '_builder')
-- 
2.43.0


From 68b0fa16aacefc2b862a62aa2bdd2caf6a714967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:13 +0000
Subject: [PATCH 41/49] fix: list constants nested in a struct, whose items are
 structs which are defined later

---
 capnpy/compiler/struct_.py | 13 ++++++++-----
 capnpy/list.py             | 11 ++++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index dab3854..3c6a167 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -43,12 +43,20 @@ class Node__Struct:
         ns = m.code.new_scope()
         ns.name = self.compile_name(m)
         ns.dotname = self.runtime_name(m)
+        ns.data_size = self.struct.dataWordCount
+        ns.ptrs_size = self.struct.pointerCount
         if m.pyx:
             ns.w("cdef class {name}(_Struct)")
         else:
             ns.w("class {name}(_Struct): pass")
             ns.w("{name}.__name__ = '{dotname}'")
         #
+        # this must be emitted before the definitions, because it might be
+        # needed by the list constants which are nested inside any struct
+        ns.cdef_item_type = 'cdef _StructItemType ' if m.pyx else ''
+        ns.w("{cdef_item_type}_{name}_list_item_type = "
+             "_StructItemType({name}, {data_size}, {ptrs_size})")
+        #
         self._emit_union_tag_declaration(m)
         ns.w()
 
@@ -88,11 +96,6 @@ class Node__Struct:
             self._emit_repr(m)
             self._emit_key_maybe(m)
         ns.w()
-        if m.pyx:
-            ns.w("cdef _StructItemType _{name}_list_item_type = _StructItemType({name})")
-        else:
-            ns.w("_{name}_list_item_type = _StructItemType({name})")
-        ns.w()
 
     def emit_reference_as_child(self, m):
         if self.is_nested(m) and not self.struct.isGroup:
diff --git a/capnpy/list.py b/capnpy/list.py
index ca56940..c167568 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -275,10 +275,15 @@ class EnumItemType(PrimitiveItemType):
 
 class StructItemType(ItemType):
 
-    def __init__(self, structcls):
+    def __init__(self, structcls, data_size=None, ptrs_size=None):
+        # the sizes are given by the generated code, which needs the item type
+        # also before the definition of the class
+        if data_size is None:
+            data_size = structcls.__static_data_size__
+            ptrs_size = structcls.__static_ptrs_size__
         self.structcls = structcls
-        self.static_data_size = structcls.__static_data_size__
-        self.static_ptrs_size = structcls.__static_ptrs_size__
+        self.static_data_size = data_size
+        self.static_ptrs_size = ptrs_size
         self.item_length = (self.static_data_size+self.static_ptrs_size)*8
         self.size_tag = ptr.LIST_SIZE_COMPOSITE
 
-- 
2.43.0


From 81457c0c4ffcc5faf388d56d97e43ec07ce8c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:31 +0000
Subject: [PATCH 42/49] fix: annotations nested in a struct are attributes of
 it, and do not clash with each other

---
 capnpy/compiler/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capnpy/compiler/node.py b/capnpy/compiler/node.py
index 45df883..861d672 100644
--- a/capnpy/compiler/node.py
+++ b/capnpy/compiler/node.py
@@ -106,9 +106,14 @@ class Node:
 @Node__Annotation.__extend__
 class Node__Annotation:
 
+    def emit_reference_as_child(self, m):
+        if self.is_nested(m):
+            m.w("{shortname} = {name}", shortname=self.shortname(m),
+                name=self.compile_name(m))
+
     def emit_declaration(self, m):
         ns = m.code.new_scope()
-        ns.name = self.shortname(m)
+        ns.name = self.compile_name(m)
         ns.id = self.id
         ns.targets_file = self.annotation.targetsFile
         ns.targets_const = self.annotation.targetsConst
-- 
2.43.0


From 95d6815e5d48c5b956cc710495bf4c90d0965ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:38 +0000
Subject: [PATCH 43/49] fix: fields called self or cls

---
 capnpy/compiler/struct_.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 3c6a167..26014fc 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -164,11 +164,12 @@ class Node__Struct:
         ctor = Structor(m, self, self.struct.fields)
         ctor.emit()
         ns.w()
-        with ns.def_('__init__', ['self'] + ctor.params):
+        with ns.def_('__init__', ['_self'] + ctor.params):
+            # _self, because there might be a field called self
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, ctor.argnames)
             ns.w('_buf = {call}', call=call)
-            ns.w('self._init_from_buffer(_buf, 0, {data_size}, {ptrs_size})')
+            ns.w('_self._init_from_buffer(_buf, 0, {data_size}, {ptrs_size})')
         ns.w()
 
     def _emit_ctors_union(self, m, ns):
@@ -180,9 +181,9 @@ class Node__Struct:
                 self._emit_one_ctor_union(m, ns, fields, tag_field)
 
     def _emit_one_ctor_union(self, m, ns, fields, tag_field):
-        ## def new_foo(cls, x=0, y=0):
+        ## def new_foo(_cls, x=0, y=0):
         ##     buf = MyStruct.__new(x=x, y=y, foo=None)
-        ##     return cls.from_buffer(buf, 0, ..., ...)
+        ##     return _cls.from_buffer(buf, 0, ..., ...)
         tag_name = m.py_field_name(tag_field)
         name = 'new_' + tag_name
         fieldtree = FieldTree(m, fields, field_force_default=tag_field)
@@ -199,11 +200,11 @@ class Node__Struct:
                 argnames.append((m.py_field_name(f), '_undefined'))
         #
         ns.w(m.builtin_decorator('classmethod'))
-        with ns.def_(name, ['cls'] + params):
+        with ns.def_(name, ['_cls'] + params):
             newfunc = '{clsname}.__new'.format(clsname=self.compile_name(m))
             call = m.code.call(newfunc, argnames)
             ns.w('buf = {call}', call=call)
-            ns.w('return cls.from_buffer(buf, 0, {data_size}, {ptrs_size})')
+            ns.w('return _cls.from_buffer(buf, 0, {data_size}, {ptrs_size})')
         ns.w()
 
     def _emit_repr(self, m):
-- 
2.43.0


From 4871091421244febf60b6c6afd4f7c9a38efb5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:32 +0000
Subject: [PATCH 44/49] fix: the node id of a $Py.group must not depend on
 hash()

---
 capnpy/schema_extended.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capnpy/schema_extended.py b/capnpy/schema_extended.py
index eb48282..4cb1d52 100644
--- a/capnpy/schema_extended.py
+++ b/capnpy/schema_extended.py
@@ -1,3 +1,4 @@
+import zlib
 from capnpy.type import Types as _Types
 from capnpy import annotate
 from capnpy.annotate import TextType
@@ -207,7 +208,10 @@ class Node__Struct(Node):
         displayNamePrefixLength = len(parent.displayName) + 1
         scopeId = parent_id
 
-        node_id = parent_id + hash(field_void.name) % 10000
+        # the id must not depend on hash(), because the one which is written in
+        # the generated code is computed again by the reflection data, usually
+        # by another process
+        node_id = (parent_id + zlib.crc32(field_void.name) % 10000) % 2**64
         # Need a better way to get a UID.
         # Todo: Use proper md5
         while node_id in m.allnodes:
-- 
2.43.0


From cc80d0c2ad9924a4df8588d835de0d68bea6a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 45/49] fix: ptr.new_generic with a negative offset overwrote
 the upper half of the pointer

---
 capnpy/ptr.h  | 2 +-
 capnpy/ptr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/ptr.h b/capnpy/ptr.h
index 4218476..775dc62 100644
--- a/capnpy/ptr.h
+++ b/capnpy/ptr.h
@@ -29,7 +29,7 @@ enum _PTR_LIST_SIZE {
 #define CAST_AS_SIGNED(x, bits) (((long)x) << (LONGBITS-bits) >> (LONGBITS-bits))
 
 // generic pointer
-#define PTR_NEW_GENERIC(kind, offset, extra) ((extra)<<32 | (offset)<<2 | (kind))
+#define PTR_NEW_GENERIC(kind, offset, extra) ((extra)<<32 | ((offset)<<2 & 0xfffffffc) | (kind))
 #define PTR_KIND(ptr) ((ptr) & 0x3)
 #define PTR_OFFSET(ptr) (CAST_AS_SIGNED((ptr)>>2 & 0x3fffffff, 30))
 #define PTR_EXTRA(ptr) ((ptr)>>32)
diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index 88341fb..7c6dd61 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -40,7 +40,7 @@ LIST_SIZE_COMPOSITE = 7
 def new_generic(kind, offset, extra):
     p = 0
     p |= as_signed(extra, 32) << 32 # the compiled version uses signed longs
-    p |= offset << 2
+    p |= (offset << 2 & 0xfffffffc)
     p |= kind
     return p
 
-- 
2.43.0


From a2bb34ea8b1c250f3b5241cb2e7967331eeb5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 46/49] fix: the bounds check of the segment reader overflowed
 for huge offsets

---
 capnpy/segment/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capnpy/segment/base.pyx b/capnpy/segment/base.pyx
index 5e6e531..7078bae 100644
--- a/capnpy/segment/base.pyx
+++ b/capnpy/segment/base.pyx
@@ -14,7 +14,7 @@ cdef extern from "_util.h":
 cpdef uint32_t unpack_uint32(bytes buf, Py_ssize_t offset) except? 0xffffffff:
     cdef const char *cbuf = _PyString_AS_STRING(buf)
     cdef Py_ssize_t buflen = _PyString_GET_SIZE(buf)
-    if offset < 0 or offset + 4 > buflen:
+    if offset < 0 or offset > buflen - 4:
         raise IndexError('Offset out of bounds: %d' % (offset+4))
     return (<uint32_t*>(cbuf+offset))[0]
 
@@ -41,7 +41,7 @@ cdef class BaseSegment(object):
         # consider adding a read_int64_fast or similar method, which does
         # *not* do the check.
         cdef Py_ssize_t buflen = _PyString_GET_SIZE(self.buf)
-        if offset < 0 or offset + size > buflen:
+        if offset < 0 or offset > buflen - size:
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     @cython.final
-- 
2.43.0


From 5c1a064d3d44254e4a87a50ce708f96d98fdbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 47/49] fix: invalidate the attribute cache of the classes
 modified by __extend__

In pyx mode, an attribute which had already been looked up was still found as
it was before (missing, or already freed: a crash).
---
 capnpy/_util.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/capnpy/_util.pyx b/capnpy/_util.pyx
index d88b2df..ab6c657 100644
--- a/capnpy/_util.pyx
+++ b/capnpy/_util.pyx
@@ -1,5 +1,6 @@
 cdef extern from "Python.h":
     int PyObject_GenericSetAttr(object o, object attr_name, object v) except -1
+    void PyType_Modified(type o)
 
 cdef object SLOTS = set(
     ("__str__", "__repr__", "__getattribute__", "__getattr__",
@@ -32,16 +33,20 @@ cpdef setattr_builtin(type o, object attr, object value):
     __special__ methods this way, so in that case a TypeError is raised
     """
     #
-    # the function type_setattro, defined in typeobject.c, does three things:
+    # the function type_setattro, defined in typeobject.c, does four things:
     #   1. complain if the type is not an heap type
     #   2. set the attr by calling PyObject_GenericSetAttr
-    #   3. update_slot(), which fixes things in case we set a special method
+    #   3. PyType_Modified(), which invalidates the cache of the attributes
+    #   4. update_slot(), which fixes things in case we set a special method
     #
     # The goal here is to bypass (1), so that we can set attrs also on Cython
     # types. However, there is no chance to call update_slot(), so we complain
     # in case we set e __special__ method. What is left is simply a call to
-    # PyObject_GenericSetAttr, which modifies o->tp_dict.
+    # PyObject_GenericSetAttr, which modifies o->tp_dict, and to
+    # PyType_Modified: else, attributes which were already looked up would
+    # still be found as they were (or, even worse, after they are freed).
     if attr in SLOTS:
         raise TypeError("Cannot set special methods on builtin types: %s" % attr)
     PyObject_GenericSetAttr(o, attr, value)
+    PyType_Modified(o)
 
-- 
2.43.0


From 0e1167a7a54330687f907f29e9284289ed2ef921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 48/49] fix: refuse the special methods of Python 3 in
 __extend__ of compiled classes

They were silently ignored, instead of raising TypeError as the others.
---
 capnpy/_util.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/_util.pyx b/capnpy/_util.pyx
index ab6c657..0c48866 100644
--- a/capnpy/_util.pyx
+++ b/capnpy/_util.pyx
@@ -21,7 +21,9 @@ cdef object SLOTS = set(
      "__itruediv__", "__index__", "__len__", "__getitem__", "__setitem__",
      "__delitem__", "__len__", "__add__", "__mul__", "__rmul__", "__getitem__",
      "__getslice__", "__setitem__", "__delitem__", "__setslice__",
-     "__delslice__", "__contains__", "__iadd__", "__imul__"))
+     "__delslice__", "__contains__", "__iadd__", "__imul__",
+     "__bool__", "__next__", "__matmul__", "__rmatmul__", "__imatmul__",
+     "__await__", "__aiter__", "__anext__"))
 
 
 cpdef setattr_builtin(type o, object attr, object value):
-- 
2.43.0


From a6ba37e399dc7e9cadef53cbf2419bd18b762500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:47 +0000
Subject: [PATCH 49/49] fix: print the header of print_buffer on the given
 stream and print bytes in Python 3

BufferPrinter wrote its header on sys.stdout whatever its stream was, and
printbuf(human=False) and 'python -m capnpy.printer' failed in Python 3, where
the items of a bytes object are integers.
---
 capnpy/printer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/capnpy/printer.py b/capnpy/printer.py
index 38a3f78..6a0cb11 100644
--- a/capnpy/printer.py
+++ b/capnpy/printer.py
@@ -21,11 +21,10 @@ class BufferPrinter(object):
         self.stream = stream or sys.stdout
 
     def pyrepr(self, s):
-        ch = s[0]
-        if ch.isalnum():
+        if s[:1].isalnum():
             return repr(s)
         else:
-            body = ''.join((r'\x%02x' % ord(ch)) for ch in s)
+            body = ''.join((r'\x%02x' % ch) for ch in six.iterbytes(s))
             return "'%s'" % body
 
     def hex(self, s):
@@ -134,7 +133,7 @@ class BufferPrinter(object):
             fmt = '{addr:>5}  {hex:24}  {string:8}  {ptr:23} {float64:>11}  {int64}'
             header = fmt.format(addr='Offset', hex=' Hex view', string='ASCII',
                                 ptr='Pointer', float64='float64', int64='int64')
-            print(Color.set(Color.yellow, header))
+            print(Color.set(Color.yellow, header), file=self.stream)
 
         if end is None:
             end = len(self.buf)
@@ -157,7 +156,7 @@ if __name__ == '__main__':
     ##        '\x01\x00\x00\x00\x82\x00\x00\x00'    # ptrlist
     ##        'hello capnproto\0')                  # string
     pipe =  '--pipe' in sys.argv
-    buf = sys.stdin.read()
+    buf = getattr(sys.stdin, 'buffer', sys.stdin).read()
     if pipe:
         out = sys.stderr
     else:
@@ -165,4 +164,4 @@ if __name__ == '__main__':
     p = BufferPrinter(buf, stream=out)
     p.printbuf(human=True)
     if pipe:
-        sys.stdout.write(buf)
+        getattr(sys.stdout, 'buffer', sys.stdout).write(buf)
-- 
2.43.0

