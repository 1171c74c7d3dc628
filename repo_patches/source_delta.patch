From b30f7bd4e34255a5158d58b325e055e8bb7d9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 01/64] fix: OutputStream.writeBit() places bits in the same
 order as writeBits()

Every bit but the last of a byte was written mirrored: in big endian the
first bit went to the least significant position.
---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..057b56c 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -48,9 +48,9 @@ class OutputStream(object):
         else:
             if state:
                 if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
                     self._byte |= (1 << (7 - self._bit_pos))
+                else:
+                    self._byte |= (1 << self._bit_pos)
             self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
-- 
2.43.0


From 731e6c84dbc6701b280fb4f7e24aed2f77718a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 02/64] fix: OutputStream.writeInteger() writes signed integers
 in two's complement

It used an excess representation, which no reader of the library decodes.
---
 hachoir/stream/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 057b56c..365aeda 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -106,8 +106,9 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
-        if signed:
-            value += 1 << (size_byte * 8 - 1)
+        if signed and value < 0:
+            # two's complement
+            value += 1 << (size_byte * 8)
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From 9fa5cff09a01a26cb2f1c0187da0fb08128edb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 03/64] fix: StringOutputStream() holds bytes, readBytes()
 reads at the address

---
 hachoir/stream/output.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 365aeda..b499a49 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,4 +1,4 @@
-from io import StringIO
+from io import BytesIO
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
@@ -163,13 +163,14 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
             except IOError as err:
-                if err[0] == EBADF:
+                if err.errno == EBADF:
                     raise OutputStreamError(
                         "Stream doesn't support read() operation")
+                raise
         finally:
             self._output.seek(oldpos)
 
@@ -178,7 +179,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From 31787178ad6536da9686309f057f387395bdbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:24 +0000
Subject: [PATCH 04/64] fix: Dict.replace() refuses a new key which already
 exists

---
 hachoir/core/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/core/dict.py b/hachoir/core/dict.py
index c55e3f4..d8c7fa3 100644
--- a/hachoir/core/dict.py
+++ b/hachoir/core/dict.py
@@ -120,6 +120,8 @@ class Dict(object):
         {'two': 'deux', 'three': 4}
         """
         index = self._index[oldkey]
+        if oldkey != newkey and newkey in self._index:
+            raise UniqKeyError("Replace error: key '%s' already exists" % newkey)
         self._value_list[index] = new_value
         if oldkey != newkey:
             del self._index[oldkey]
-- 
2.43.0


From a3923058a76ce0f1844de64973f4ceece5e8583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 05/64] fix: InputSubStream.read() does not read past the end
 of the sub-stream

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..810ef32 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -491,6 +491,8 @@ class InputSubStream(InputStream):
         self.stream = None
 
     def read(self, address, size):
+        if self._size is not None and self._size < address + size:
+            raise ReadStreamError(size, address)
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From 6c0ee59f2a3f38d033c72e537099d465204f1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 06/64] fix: InputSubStream accepts a stream of unknown size

---
 hachoir/stream/input.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 810ef32..77d5cfd 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -474,7 +474,7 @@ class InputSubStream(InputStream):
             offset = 0
         if size is None and stream.size is not None:
             size = stream.size - offset
-        if size <= 0:
+        if size is not None and size <= 0:
             raise ValueError("InputSubStream: offset is outside input stream")
         self.stream = stream
         self._offset = offset
@@ -484,8 +484,12 @@ class InputSubStream(InputStream):
         InputStream.__init__(self, source=source, size=size, **args)
         self.stream.askSize(self)
 
-    _current_size = property(lambda self: min(
-        self._size, max(0, self.stream._current_size - self._offset)))
+    def __current_size(self):
+        size = max(0, self.stream._current_size - self._offset)
+        if self._size is None:
+            return size
+        return min(self._size, size)
+    _current_size = property(__current_size)
 
     def close(self):
         self.stream = None
-- 
2.43.0


From a0b55bc0b517f30e1a18badce01ee5db8e2a6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 07/64] fix: FileFromInputStream refuses negative positions and
 keeps its offset when reading before the end

---
 hachoir/stream/input.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 77d5cfd..cbb7306 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -57,15 +57,17 @@ class FileFromInputStream:
             while self._size is None:
                 self.stream._feed(max(self.stream._current_size << 1, 1 << 16))
             self._from_end = False
-            self._offset += self._size
+            self._offset = max(0, self._offset + self._size)
         return self._offset
 
     def seek(self, pos, whence=0):
         if whence == 0:
+            if pos < 0:
+                raise ValueError("negative seek position %r" % (pos,))
             self._from_end = False
             self._offset = pos
         elif whence == 1:
-            self._offset += pos
+            self._offset = max(0, self.tell() + pos)
         elif whence == 2:
             self._from_end = True
             self._offset = pos
@@ -78,6 +80,8 @@ class FileFromInputStream:
             if shift:
                 raise InputStreamError("TODO: handle non-byte-aligned data")
             return data
+        if size is not None and size < 0:
+            size = None
         if self._size or size is not None and not self._from_end:
             # We don't want self.tell() to read anything
             # and the size must be known if we read until the end.
@@ -109,8 +113,10 @@ class FileFromInputStream:
                     bs = self._size - self._offset
                     if not bs:
                         data = data[0] + data[1]
-                        d = len(data) - max_size
-                        return data[d:d + size]
+                        d = max(0, len(data) - max_size)
+                        data = data[d:d + size]
+                        self._offset += len(data) - min(self._size, max_size)
+                        return data
         else:
             # TODO: not tested
             data = []
-- 
2.43.0


From 455f093474ac6de140ae82128616fbad7e5bb056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 08/64] fix: FragmentedStream.read() accepts an empty window

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index cbb7306..c097f87 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -560,6 +560,8 @@ class FragmentedStream(InputStream):
         return False
 
     def read(self, address, size):
+        if not size:
+            return 0, b'', False
         assert size > 0
         missing = self._feed(address + size)
         if missing:
-- 
2.43.0


From 8d712aecea6ebc07e48efe5debb15f8a9ee21615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 09/64] fix: FileFromInputStream.read() returns nothing beyond
 the end of a stream of unknown size

---
 hachoir/stream/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index c097f87..d62d4d7 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -127,7 +127,7 @@ class FileFromInputStream:
                 self._offset += len(d)
                 if self._size:
                     size = self._size - self._offset
-                    if not size:
+                    if size <= 0:
                         return b''.join(data)
 
 
-- 
2.43.0


From 55eb411eb870ea09b27690c4bae6ec66ca566891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 10/64] fix: FragmentedStream does not read past its declared
 size

---
 hachoir/stream/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index d62d4d7..291db8d 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -533,7 +533,7 @@ class FragmentedStream(InputStream):
 
     def _feed(self, end):
         if self._current_size < end:
-            if self.checked:
+            if self._size is not None and self._size < end:
                 raise ReadStreamError(end - self._size, self._size)
             a, fa, fs = self.fragments[-1]
             while self.stream.sizeGe(fa + min(fs, end - a)):
-- 
2.43.0


From 083cb8e97ebd91a59d3fad9f00e7be703891ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 11/64] fix: FragmentedStream of a single fragment accepts a
 smaller declared size

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 291db8d..738b1d0 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -526,6 +526,8 @@ class FragmentedStream(InputStream):
         InputStream.__init__(self, **args)
         if not self.next:
             self._current_size = data.size
+            if self._size is not None:
+                self._current_size = min(self._current_size, self._size)
             self._setSize()
 
     def close(self):
-- 
2.43.0


From 00a8fe92da54aba06aaf0839e51b1991634dfbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:11 +0000
Subject: [PATCH 12/64] fix: InputIOStream.file() does not share the file
 offset of the stream

A duplicated descriptor shares its offset with the stream: reading the one
corrupts the next reads of the other. Use the file view on the stream.
---
 hachoir/stream/input.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 738b1d0..222b7a3 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -443,15 +443,6 @@ class InputIOStream(InputStream):
             raise ReadStreamError(8 * size, 8 * address, 8 * got)
         return shift, data, missing
 
-    def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
-        return InputStream.file(self)
-
 
 class StringInputStream(InputStream):
 
-- 
2.43.0


From a33f956294dcac4c5dfbd5e7f9de07af6bfa72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 13/64] fix: InputPipe.read() does not read its input again
 after the end, and keeps its size

---
 hachoir/stream/input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 222b7a3..5407069 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -377,6 +377,9 @@ class InputPipe(object):
     def read(self, size):
         end = self.address + size
         for i in range(len(self.buffers), (end >> self.buffer_size) + 1):
+            if self.size is not None:
+                # the end of the input was already met
+                break
             data = self._input.read(1 << self.buffer_size)
             if len(data) < 1 << self.buffer_size:
                 self.size = (len(self.buffers) << self.buffer_size) + len(data)
-- 
2.43.0


From b0120d5dd59eb274f4ddad3a6e06b981c692277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 14/64] fix: searchBytes() works on a stream whose size is
 discovered while searching

---
 hachoir/stream/input.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 5407069..da5f848 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -269,12 +269,18 @@ class InputStream(Logger):
                     if todo <= 0:
                         return None
                     size = todo
-            data = self.readBytes(start_address, size)
-            if end_address is None and self._size:
+            shift, data, missing = self.read(start_address, 8 * size)
+            if shift:
+                raise InputStreamError("TODO: handle non-byte-aligned data")
+            if self._size and (end_address is None or self._size < end_address):
+                # the end of the stream has just been found
                 end_address = self._size
-                size = (end_address - start_address) >> 3
-                assert size > 0
+                size = min(size, (end_address - start_address) >> 3)
+                if size <= 0:
+                    return None
                 data = data[:size]
+            if missing and len(data) < size:
+                raise ReadStreamError(8 * size, start_address)
             start_address += 8 * size
             buffer = buffer[len(buffer) - length + 1:] + data
             found = buffer.find(needle)
-- 
2.43.0


From 496a3f2a2b8568815c513aff36ca9c24e95f1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 15/64] fix: getgaps() ignores empty blocks and stays inside
 the range

---
 hachoir/field/seekable_field_set.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 4448f42..315bb60 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -14,6 +14,11 @@ def getgaps(start, length, blocks):
     blocks = sorted(blocks, key=lambda b: b[0])
     end = start + length
     for s, l in blocks:
+        if l <= 0:
+            # an empty block covers nothing
+            continue
+        if s >= end:
+            break
         if s > start:
             yield (start, s - start)
             start = s
-- 
2.43.0


From e3aba83c60731494090b685cb9709f8a4f655e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 16/64] fix: seekable field sets without field, or with a
 position beyond the end, can be finished

---
 hachoir/field/seekable_field_set.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hachoir/field/seekable_field_set.py b/hachoir/field/seekable_field_set.py
index 315bb60..a176930 100644
--- a/hachoir/field/seekable_field_set.py
+++ b/hachoir/field/seekable_field_set.py
@@ -63,15 +63,18 @@ class RootSeekableFieldSet(GenericFieldSet):
         self._field_generator = None
 
         # If last field is too big, delete it
-        while self._size < self._current_size:
-            field = self._deleteField(len(self._fields) - 1)
+        while len(self._fields):
+            field = self._fields.values[-1]
+            if field.address + field.size <= self._size:
+                break
+            self._deleteField(len(self._fields) - 1)
             message.append("delete field %s" % field.path)
-        assert self._current_size <= self._size
 
         blocks = [(x.absolute_address, x.size) for x in self._fields]
         fields = []
-        self._size = max(self._size, max(
-            a + b for a, b in blocks) - self.absolute_address)
+        if blocks:
+            self._size = max(self._size, max(
+                a + b for a, b in blocks) - self.absolute_address)
         for start, length in getgaps(self.absolute_address, self._size, blocks):
             self.seekBit(start, relative=False)
             field = createRawField(self, length, "unparsed[]")
-- 
2.43.0


From 6df73b81289ac5f8a19ad5670f6978a5b2ee076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:07 +0000
Subject: [PATCH 17/64] fix: looking up a field finds the fields added by the
 repair; arrays look up fields instead of caching them

---
 hachoir/field/fake_array.py        | 32 +++++-------------------------
 hachoir/field/generic_field_set.py |  3 +++
 2 files changed, 8 insertions(+), 27 deletions(-)

diff --git a/hachoir/field/fake_array.py b/hachoir/field/fake_array.py
index 0f8cbb8..b9e1613 100644
--- a/hachoir/field/fake_array.py
+++ b/hachoir/field/fake_array.py
@@ -24,28 +24,16 @@ class FakeArray:
             self.fieldset = fieldset
             self.name = name
         self._format = "%s[%%u]" % self.name
-        self._cache = {}
-        self._known_size = False
-        self._max_index = -1
 
     def __bool__(self):
         "Is the array empty or not?"
-        if self._cache:
-            return True
-        else:
-            return (0 in self)
+        return (0 in self)
 
     def __len__(self):
         "Number of fields in the array"
-        total = self._max_index + 1
-        if not self._known_size:
-            for index in itertools.count(total):
-                try:
-                    self[index]
-                    total += 1
-                except MissingField:
-                    break
-        return total
+        for index in itertools.count(0):
+            if index not in self:
+                return index
 
     def __contains__(self, index):
         try:
@@ -59,17 +47,7 @@ class FakeArray:
         Get a field of the array. Returns a field, or raise MissingField
         exception if the field doesn't exist.
         """
-        try:
-            value = self._cache[index]
-        except KeyError:
-            try:
-                value = self.fieldset[self._format % index]
-            except MissingField:
-                self._known_size = True
-                raise
-            self._cache[index] = value
-            self._max_index = max(index, self._max_index)
-        return value
+        return self.fieldset[self._format % index]
 
     def __iter__(self):
         """
diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..80eb385 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -338,6 +338,9 @@ class GenericFieldSet(BasicFieldSet):
         except Exception as err:
             if self._fixFeedError(err) is False:
                 raise
+        if field_name in self._fields:
+            # field added by the repair of the field set
+            return self._fields[field_name]
         return None
 
     def readMoreFields(self, number):
-- 
2.43.0


From f8da3dad518560305beb373f19865c1e6a5e9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:58 +0000
Subject: [PATCH 18/64] fix: iterating a field set does not skip the last field
 when it stops the parser

---
 hachoir/field/generic_field_set.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 80eb385..df5bdf5 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -391,21 +391,24 @@ class GenericFieldSet(BasicFieldSet):
                     yield field
                     done += 1
         except StopIteration:
-            field = self._stopFeeding()
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
+            new_fields = self._stopFeeding()
         except Exception as err:
-            field = self._fixFeedError(err)
-            if isinstance(field, Field):
-                yield field
-            elif hasattr(field, '__iter__'):
-                for f in field:
-                    yield f
-            elif field is False:
+            new_fields = self._fixFeedError(err)
+            if new_fields is False:
                 raise
+        else:
+            return
+        # The fields added by the repair, and before them the last field if
+        # it was added by _addField() when it stopped the parser
+        if new_fields is None:
+            added = 0
+        elif isinstance(new_fields, Field):
+            added = 1
+        else:
+            added = len(new_fields)
+        done = min(done, len(self._fields) - added)
+        for field in self._fields.values[done:]:
+            yield field
 
     def _isDone(self):
         return (self._field_generator is None)
-- 
2.43.0


From 65bff27a2f039d13ce56447a18d1ea56a45ded39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:58 +0000
Subject: [PATCH 19/64] fix: a duplicate field is renamed until its name is
 free

---
 hachoir/field/generic_field_set.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index df5bdf5..544eee2 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -190,13 +190,14 @@ class GenericFieldSet(BasicFieldSet):
                 raise ParserError("Field %s is too large!" % field.path)
 
         self._current_size += field.size
-        try:
-            self._fields.append(field._name, field)
-        except UniqKeyError as err:
-            self.warning("Duplicate field name " + str(err))
-            field._name += "[]"
-            self.setUniqueFieldName(field)
-            self._fields.append(field._name, field)
+        while True:
+            try:
+                self._fields.append(field._name, field)
+                break
+            except UniqKeyError as err:
+                self.warning("Duplicate field name " + str(err))
+                field._name += "[]"
+                self.setUniqueFieldName(field)
         if ask_stop:
             raise StopIteration()
 
-- 
2.43.0


From 33883fc3a71e753e5622bbb0d924c46bef165a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 20/64] fix: an empty field set in a stream of unknown size is
 refused with a parser error

---
 hachoir/field/generic_field_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 544eee2..92eb581 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -184,7 +184,7 @@ class GenericFieldSet(BasicFieldSet):
         # No more place?
         dsize = self._checkSize(field._address + field.size, False)
         if (dsize is not None and dsize < 0) or (field.is_field_set and field.size <= 0):
-            if self.autofix and self._current_size:
+            if dsize is not None and self.autofix and self._current_size:
                 self._fixFieldSize(field, field.size + dsize)
             else:
                 raise ParserError("Field %s is too large!" % field.path)
-- 
2.43.0


From d2f23c92910c8aa08dc71f2829471c11c7082e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:07 +0000
Subject: [PATCH 21/64] fix: a refused field replacement leaves the field set
 unchanged

---
 hachoir/field/generic_field_set.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 92eb581..1d15bce 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -462,27 +462,26 @@ class GenericFieldSet(BasicFieldSet):
             raise ParserError("Unable to replace %s: "
                               "new field(s) hasn't same size (%u bits instead of %u bits)!"
                               % (name, total_size, old_field.size))
+        # Check all names before changing anything
+        names = set()
+        for field in new_fields:
+            if field._name.endswith("[]"):
+                self.setUniqueFieldName(field)
+            if field.name in names \
+                    or (field.name != name and field.name in self._fields):
+                raise ParserError(
+                    "Unable to replace %s: name \"%s\" is already used!"
+                    % (name, field.name))
+            names.add(field.name)
         field = new_fields[0]
-        if field._name.endswith("[]"):
-            self.setUniqueFieldName(field)
         field._address = old_field.address
-        if field.name != name and field.name in self._fields:
-            raise ParserError(
-                "Unable to replace %s: name \"%s\" is already used!"
-                % (name, field.name))
         self._fields.replace(name, field.name, field)
         self.raiseEvent("field-replaced", old_field, field)
         if 1 < len(new_fields):
             index = self._fields.index(new_fields[0].name) + 1
             address = field.address + field.size
             for field in new_fields[1:]:
-                if field._name.endswith("[]"):
-                    self.setUniqueFieldName(field)
                 field._address = address
-                if field.name in self._fields:
-                    raise ParserError(
-                        "Unable to replace %s: name \"%s\" is already used!"
-                        % (name, field.name))
                 self._fields.insert(index, field.name, field)
                 self.raiseEvent("field-inserted", index, field)
                 index += 1
-- 
2.43.0


From b08a25e092475272748fc2fc42b19cb56e429974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 22/64] fix: a description computed as None is not computed
 again at every read

---
 hachoir/field/field.py   | 2 ++
 hachoir/parser/parser.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hachoir/field/field.py b/hachoir/field/field.py
index baa8680..6a4d91d 100644
--- a/hachoir/field/field.py
+++ b/hachoir/field/field.py
@@ -96,6 +96,8 @@ class Field(Logger):
                 if isinstance(self._description, str):
                     self._description = makePrintable(
                         self._description, "ISO-8859-1")
+                elif self._description is None:
+                    self._description = ""
             except Exception as err:
                 self.error("Error getting description: " + str(err))
                 self._description = ""
diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a00bf76..32ab3dd 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -76,6 +76,8 @@ class HachoirParser(object):
                 self._description = self.createDescription()
                 if isinstance(self._description, str):
                     self._description = makeUnicode(self._description)
+                elif self._description is None:
+                    self._description = self.PARSER_TAGS["description"]
             except Exception as err:
                 error("Error getting description of %s: %s"
                       % (self.path, str(err)))
-- 
2.43.0


From 181a2beeaf3945c40cdfbca9699956694e606753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 23/64] fix: the link to the first fragment of a file has a
 value

---
 hachoir/field/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..dbdb092 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -93,7 +93,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
-- 
2.43.0


From c16598775cd532aac7fdbacc4621bab93e9138df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 24/64] fix: the terminator of a UTF-16 or UTF-32 string is
 aligned on a character

The terminator uses the byte order of the charset, and the BOM is read
after the length prefix and before the terminator is searched.
---
 hachoir/field/string_field.py | 88 ++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 32 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..81b9758 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -145,25 +145,21 @@ class GenericString(Bytes):
             self._content_size = nbytes   # content length in bytes
             self._size = nbytes * 8
             self._content_offset = 0
+            bom_size = self._readBOM()
         else:
             # Format with a suffix: Find the end of the string
             if self._format in self.SUFFIX_FORMAT:
                 self._content_offset = 0
+                bom_size = self._readBOM()
 
                 # Choose the suffix
                 suffix = self.suffix_str
 
                 # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
+                length = self._findSuffix(suffix)
                 if length is None:
                     raise FieldError("Unable to find end of string %s (format %s)!"
                                      % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
-                    #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
-                    #   search returns length=5, whereas real lenght is 6
-                    length = alignValue(length, len(suffix))
 
                 # Compute sizes
                 self._content_size = length  # in bytes
@@ -182,25 +178,13 @@ class GenericString(Bytes):
                     self.absolute_address, prefix_size * 8, self._parent.endian)
                 self._content_size = value   # in bytes
                 self._size = (prefix_size + value) * 8
+                bom_size = self._readBOM()
 
-        # For UTF-16 and UTF-32, choose the right charset using BOM
-        if self._charset in self.UTF_CHARSET:
-            # Charset requires a BOM?
-            bomsize, endian = self.UTF_CHARSET[self._charset]
-            if endian == "BOM":
-                # Read the BOM value
-                nbytes = bomsize // 8
-                bom = self._parent.stream.readBytes(
-                    self.absolute_address, nbytes)
-
-                # Choose right charset using the BOM
-                bom_endian = self.UTF_BOM[bomsize]
-                if bom not in bom_endian:
-                    raise FieldError("String %s has invalid BOM (%s)!"
-                                     % (self.path, repr(bom)))
-                self._charset = bom_endian[bom]
-                self._content_size -= nbytes
-                self._content_offset += nbytes
+        # The BOM is not part of the content
+        if self._content_size < bom_size:
+            raise FieldError("String %s is too small for a BOM!" % self.path)
+        self._content_size -= bom_size
+        self._content_offset += bom_size
 
         # Compute length in character if possible
         if self._character_size:
@@ -208,17 +192,57 @@ class GenericString(Bytes):
         else:
             self._length = None
 
+    def _readBOM(self):
+        """
+        If the charset requires a BOM, choose the right charset using the BOM.
+        Return the size of the BOM in bytes.
+        """
+        bomsize, endian = self.UTF_CHARSET.get(self._charset, (8, None))
+        if endian != "BOM":
+            return 0
+
+        # Read the BOM value
+        nbytes = bomsize // 8
+        bom = self._parent.stream.readBytes(
+            self.absolute_address + self._content_offset * 8, nbytes)
+
+        # Choose right charset using the BOM
+        bom_endian = self.UTF_BOM[bomsize]
+        if bom not in bom_endian:
+            raise FieldError("String %s has invalid BOM (%s)!"
+                             % (self.path, repr(bom)))
+        self._charset = bom_endian[bom]
+        return nbytes
+
+    def _findSuffix(self, suffix):
+        """
+        Find the first suffix which is aligned on a character.
+        Return the length of the string before the suffix in bytes,
+        or None if there is no suffix.
+        """
+        length = 0
+        while True:
+            found = self._parent.stream.searchBytesLength(
+                suffix, False, self.absolute_address + length * 8)
+            if found is None:
+                return None
+            length += found
+            aligned = alignValue(length, len(suffix))
+            if aligned == length:
+                return length
+            # Ignore a suffix inside two characters
+            #   u"\u0100abc" => b"\1\0" + b"\0a\0b\0c" (UTF-16-BE)
+            length = aligned
+
     @staticmethod
     def staticSuffixStr(format, charset, endian):
         if format not in GenericString.SUFFIX_FORMAT:
             return ''
-        suffix = GenericString.SUFFIX_FORMAT[format]
-        if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
-            suffix = suffix[suffix_size]
-        else:
-            suffix = suffix[8]
-        return suffix[endian]
+        suffix_size, charset_endian = GenericString.UTF_CHARSET.get(
+            charset, (8, None))
+        suffix = GenericString.SUFFIX_FORMAT[format][suffix_size]
+        # The byte order of the charset wins over the one of the parent
+        return suffix.get(charset_endian) or suffix.get(endian, suffix[BIG_ENDIAN])
 
     def _getSuffixStr(self):
         return self.staticSuffixStr(
-- 
2.43.0


From c53318f5786892c275cd2614f970bac297274cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 25/64] fix: exact conversion of Windows timestamps and
 durations

The value of a timestamp or duration in units of 100 ns does not go
through a float anymore. A too long duration in milliseconds is refused
with ValueError, as other values out of range.
---
 hachoir/core/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 43575f2..4b24c2b 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -533,7 +533,7 @@ def durationWin64(value):
         raise TypeError("an integer or float is required")
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
-    return timedelta(microseconds=value / 10)
+    return timedelta(microseconds=value // 10)
 
 
 def durationMillisWin64(value):
@@ -550,7 +550,10 @@ def durationMillisWin64(value):
         raise TypeError("an integer or float is required")
     if value < 0:
         raise ValueError("value have to be a positive or nul integer")
-    return timedelta(microseconds=value * 1000)
+    try:
+        return timedelta(microseconds=value * 1000)
+    except OverflowError:
+        raise ValueError("duration too long (value=%s)" % value)
 
 
 # Start of 64-bit Windows timestamp: 1st January 1600 at 00:00
-- 
2.43.0


From 80ccea8d41c87b9eccf4f45bec6c03ab33beb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 26/64] fix: an editable integer accepts exactly the values of
 its size

The range of a signed 8-bit integer was -256..255, other sizes than 8, 16
and 32 bits failed, a new field was not checked, and an integer whose
size is not a whole number of bytes was truncated.
---
 hachoir/editor/typed_field.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..6b6d2f7 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -212,16 +212,7 @@ class EditableCharacter(EditableFixedField):
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
+
 
     def __init__(self, parent, name, *args):
         if args:
@@ -230,32 +221,34 @@ class EditableInteger(EditableFixedField):
                     "Wrong argument count, EditableInteger constructor prototype is: "
                     "(parent, name, [signed, size, value])")
             size = args[1]
-            value = args[2]
-            assert isinstance(value, int)
         else:
             size = None
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, size)
+        EditableFixedField.__init__(self, parent, name, None, size)
         if args:
             self._signed = args[0]
+            self._setValue(args[2])
             self._is_altered = True
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
 
     def _setValue(self, value):
+        if not isinstance(value, int):
+            raise TypeError("EditableInteger needs an integer")
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval = 0
+            maxval = (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
         self._value = value
 
     def _write(self, output):
-        output.writeInteger(
-            self.value, self._signed, self._size // 8, self._parent.endian)
+        # Two's complement
+        value = self._value % (1 << self._size)
+        output.writeBits(self._size, value, self._parent.endian)
 
 
 class EditableTimestampMac32(EditableFixedField):
-- 
2.43.0


From b49c1a4f6f9d49aea343dacbc4797ddcd7ad14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 27/64] fix: an editable string writes what is parsed back

Writing an edited Pascal string failed, the BOM was lost but counted, a
value containing the terminator was accepted and a new field was not
checked.
---
 hachoir/editor/typed_field.py | 51 ++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 6b6d2f7..76681ed 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -133,56 +133,75 @@ class EditableString(EditableField):
     }
 
     def __init__(self, parent, name, *args, **kw):
-        if len(args) == 2:
-            value = args[1]
-            assert isinstance(value, bytes)  # TODO: support Unicode
-        elif not args:
-            value = None
-        else:
+        if len(args) not in (0, 2):
             raise TypeError(
                 "Wrong argument count, EditableString constructor prototype is:"
                 "(parent, name, [format, value])")
-        EditableField.__init__(self, parent, name, value)
+        EditableField.__init__(self, parent, name)
         if len(args) == 2:
             self._charset = kw.get('charset', None)
             self._format = args[0]
+            self._bom = b""
+            char_size, endian = GenericString.UTF_CHARSET.get(
+                self._charset, (8, None))
+            if endian == "BOM":
+                for bom, charset in GenericString.UTF_BOM[char_size].items():
+                    if GenericString.UTF_CHARSET[charset][1] == self._parent.endian:
+                        self._bom = bom
+                        self._charset = charset
             if self._format in GenericString.PASCAL_FORMATS:
                 self._prefix_size = GenericString.PASCAL_FORMATS[self._format]
             else:
                 self._prefix_size = 0
             self._suffix_str = GenericString.staticSuffixStr(
                 self._format, self._charset, self._parent.endian)
+            self._setValue(args[1])
             self._is_altered = True
         else:
             orig = self._parent._getOriginalField(name)
             self._charset = orig.charset
             self._format = orig.format
-            self._prefix_size = orig.content_offset
+            self._prefix_size = GenericString.PASCAL_FORMATS.get(self._format, 0)
             self._suffix_str = orig.suffix_str
+            # Keep the BOM, it is between the prefix and the text
+            self._bom = self._parent.input.stream.readBytes(
+                orig.absolute_address + self._prefix_size * 8,
+                orig.content_offset - self._prefix_size)
 
     def _setValue(self, value):
-        size = len(value)
+        if not isinstance(value, bytes):
+            raise TypeError("EditableString needs bytes")  # TODO: support Unicode
+        size = len(self._bom) + len(value)
         if self._format in self.MAX_SIZE and self.MAX_SIZE[self._format] < size:
             raise ValueError("String is too big")
-        assert isinstance(value, bytes)
+        if self._format == "fixed" and not size:
+            raise ValueError("A fixed string cannot be empty")
+        if self._suffix_str:
+            # The string ends at the first suffix aligned on a character
+            step = len(self._suffix_str)
+            if len(value) % step:
+                raise ValueError("Last character is truncated")
+            for pos in range(0, len(value), step):
+                if value[pos:pos + step] == self._suffix_str:
+                    raise ValueError("String contains its terminator")
         self._value = value
 
     def _computeSize(self):
-        return (self._prefix_size + len(self._value) + len(self._suffix_str)) * 8
+        return (self._prefix_size + len(self._bom) + len(self._value)
+                + len(self._suffix_str)) * 8
 
     def _write(self, output):
         if self._format in GenericString.SUFFIX_FORMAT:
-            output.writeBytes(self._value)
+            output.writeBytes(self._bom + self._value)
             output.writeBytes(self._suffix_str)
         elif self._format == "fixed":
-            output.writeBytes(self._value)
+            output.writeBytes(self._bom + self._value)
         else:
             assert self._format in GenericString.PASCAL_FORMATS
             size = GenericString.PASCAL_FORMATS[self._format]
-            output.writeInteger(len(self._value), False,
+            output.writeInteger(len(self._bom) + len(self._value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
+            output.writeBytes(self._bom + self._value)
 
 
 class EditableCharacter(EditableFixedField):
-- 
2.43.0


From 147b2f8b714fcf92c8a49f480a0933ed9f1a603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 28/64] fix: an editable character can be written

It was written as text instead of a byte, a character without a byte was
accepted, and the constructor never accepted a value.
---
 hachoir/editor/typed_field.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 76681ed..3d5c214 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -208,26 +208,24 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
-            value = args[0]
-            if not isinstance(value, str) or len(value) != 1:
-                raise TypeError("EditableCharacter needs a character")
-        else:
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, 8)
+        EditableFixedField.__init__(self, parent, name, None, 8)
         if args:
+            self._setValue(args[0])
             self._is_altered = True
 
     def _setValue(self, value):
         if not isinstance(value, str) or len(value) != 1:
             raise TypeError("EditableCharacter needs a character")
+        if 255 < ord(value):
+            raise ValueError("Invalid character, must be in range 0..255")
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBits(self._size, ord(self._value), self._parent.endian)
 
 
 class EditableInteger(EditableFixedField):
-- 
2.43.0


From 93cd5075e149f695541b902238251563abf56341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 29/64] fix: a new editable Macintosh timestamp keeps its value

The constructor asked for three arguments and did not check nor write
the value. The value is the second which is written.
---
 hachoir/editor/typed_field.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 3d5c214..e9d5499 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -273,17 +273,20 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
-            value = args[0]
-            assert isinstance(value, datetime)
-        else:
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, 32)
+        EditableFixedField.__init__(self, parent, name, None, 32)
+        if args:
+            self._setValue(args[0])
+            self._is_altered = True
 
     def _setValue(self, value):
+        if not isinstance(value, datetime):
+            raise TypeError("EditableTimestampMac32 needs a datetime")
+        # The resolution is one second
+        value = value.replace(microsecond=0)
         if not (self.minval <= value <= self.maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (self.minval, self.maxval))
-- 
2.43.0


From 55b5e0099cf05e83c07765e06520377e930c03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 30/64] fix: a new editable bytes field is checked and written

A new field was not altered: writing it looked for it in the original
field set. A text was accepted, and failed while writing.
---
 hachoir/editor/typed_field.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index e9d5499..0a3045d 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -112,7 +112,15 @@ class EditableBits(EditableFixedField):
 
 class EditableBytes(EditableField):
 
+    def __init__(self, parent, name, value=None):
+        EditableField.__init__(self, parent, name)
+        if value is not None:
+            self._setValue(value)
+            self._is_altered = True
+
     def _setValue(self, value):
+        if not isinstance(value, bytes):
+            raise TypeError("EditableBytes needs bytes")
         if not value:
             raise ValueError(
                 "Unable to set empty string to a EditableBytes field")
-- 
2.43.0


From 6f87bee010fd0b4ed83d22f7bec022fc7a27d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 31/64] fix: editable bits are integers

A number which is not whole was accepted, and failed while writing.
---
 hachoir/editor/typed_field.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 0a3045d..d3f8583 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -90,17 +90,16 @@ class EditableBits(EditableFixedField):
                     "Wrong argument count, EditableBits constructor prototype is: "
                     "(parent, name, [size, value])")
             size = args[0]
-            value = args[1]
-            assert isinstance(value, int)
         else:
             size = None
-            value = None
-        EditableFixedField.__init__(self, parent, name, value, size)
+        EditableFixedField.__init__(self, parent, name, None, size)
         if args:
             self._setValue(args[1])
             self._is_altered = True
 
     def _setValue(self, value):
+        if not isinstance(value, int):
+            raise TypeError("EditableBits needs an integer")
         if not (0 <= value < (1 << self._size)):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (0, (1 << self._size) - 1))
-- 
2.43.0


From 8aaf5e7e461c15457b03392a6a79deba2b402733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 32/64] fix: fields inserted at the same place keep their order

Fields inserted at the end were reversed the second time. Fields inserted
after another one were lost when a field was then inserted after the
same one, came before it if others were inserted before it, and failed
after the last field.
---
 hachoir/editor/fieldset.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..4919fa8 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -103,11 +103,12 @@ class EditableFieldSet(object):
                         "Field name '%s' already exists" % field.name)
 
         # Input have already inserted field?
-        if key in self._inserted:
-            if next:
-                self._inserted[key].extend(reversed(new_fields))
-            else:
-                self._inserted[key].extendleft(reversed(new_fields))
+        if key is None and next:
+            # Insert at the end
+            self._inserted.setdefault(None, deque()).extend(new_fields)
+            return
+        if key in self._inserted and not next:
+            self._inserted[key].extendleft(reversed(new_fields))
             return
 
         # Whould like to insert in inserted fields?
@@ -135,11 +136,11 @@ class EditableFieldSet(object):
                     key = None
 
             # Check that field names are not in input
-            if key not in self.input:
+            elif key not in self.input:
                 raise MissingField(self, key)
 
-        # Insert in original input
-        self._inserted[key] = deque(new_fields)
+        # Insert in original input, before fields already inserted here
+        self._inserted.setdefault(key, deque()).extendleft(reversed(new_fields))
 
     def _getDescription(self):
         return self.input.description
-- 
2.43.0


From 1b693660d0ed0f06f8131adabaedc0b64bc3e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 33/64] fix: inserting into an array does not rename the
 original fields

The name of an inserted field was taken from the fields of the input
which were not parsed yet.
---
 hachoir/editor/fieldset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 4919fa8..759bb5b 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -78,6 +78,8 @@ class EditableFieldSet(object):
         # Set unique field name
         for field in new_fields:
             if field._name.endswith("[]"):
+                # Parse all fields: the input field set chooses its names first
+                len(self.input)
                 self.input.setUniqueFieldName(field)
 
         # Check that there is no duplicate in inserted fields
-- 
2.43.0


From 59f3d86af52f1fa80599dad42c43275cf4d67d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 34/64] fix: deleting an inserted or unknown field of an edited
 field set

Deleting an unknown or inserted field was accepted: the length was
wrong, and the inserted field was still written.
---
 hachoir/editor/fieldset.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 759bb5b..b4402f6 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -266,11 +266,20 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
-            raise MissingField(self, name)
-        self._deleted.add(name)
-        if name in self._fields:
-            del self._fields[name]
+        if self.input is not None \
+                and name in self.input and name not in self._deleted:
+            self._deleted.add(name)
+            if name in self._fields:
+                del self._fields[name]
+            return
+        for key, fields in self._inserted.items():
+            for field in fields:
+                if field.name == name:
+                    fields.remove(field)
+                    if not fields:
+                        del self._inserted[key]
+                    return
+        raise MissingField(self, name)
 
     def writeInto(self, output):
         """
-- 
2.43.0


From eed72f3f4a687bf54b470581e42b71484071bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 35/64] fix: length, path and iteration of a new field set

A new field set has no input field set: its length failed, and writing
it while it is empty raised StopIteration.
---
 hachoir/editor/fieldset.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index b4402f6..6895722 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,5 +1,5 @@
 from hachoir.core.dict import UniqKeyError
-from hachoir.field import MissingField, Float32, Float64, FakeArray
+from hachoir.field import MissingField, Float32, Float64, FakeArray, joinPath
 from hachoir.editor import createEditableField, EditorError
 from collections import deque  # Python 2.4
 import weakref  # Python 2.1
@@ -131,6 +131,8 @@ class EditableFieldSet(object):
 
             # Get next field. Use None if we are at the end.
             if next:
+                if self.input is None:
+                    raise MissingField(self, key)
                 index = self.input[key].index + 1
                 try:
                     key = self.input[index].name
@@ -138,7 +140,7 @@ class EditableFieldSet(object):
                     key = None
 
             # Check that field names are not in input
-            elif key not in self.input:
+            elif self.input is None or key not in self.input:
                 raise MissingField(self, key)
 
         # Insert in original input, before fields already inserted here
@@ -246,7 +248,8 @@ class EditableFieldSet(object):
         if isinstance(key, int):
             raise EditorError("Integer index are not supported")
 
-        if (key in self._deleted) or (key not in self.input):
+        if self.input is None \
+                or (key in self._deleted) or (key not in self.input):
             raise MissingField(self, key)
         if key not in self._fields:
             field = self.input[key]
@@ -350,11 +353,15 @@ class NewFieldSet(EditableFieldSet):
         self._name = name
         self._endian = parent.endian
 
+    def __len__(self):
+        return sum(len(new) for new in self._inserted.values())
+
     def __iter__(self):
-        if None in self._inserted:
-            return iter(self._inserted[None])
-        else:
-            raise StopIteration()
+        return iter(self._inserted.get(None, ()))
+
+    def _getPath(self):
+        return joinPath(self._parent.path, self._name)
+    path = property(_getPath)
 
     def _getName(self):
         return self._name
-- 
2.43.0


From d6af653213e2691a68a1bbb170522420a57c5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 36/64] fix: reset of an edited field set with unedited fields

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 6895722..5abf4da 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
-- 
2.43.0


From 9527921c039f755941f22d5853767b3ad5002e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 37/64] fix: an edited part of a float field is written

The float was not altered. Its value could not be read.
---
 hachoir/editor/fieldset.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5abf4da..b64dc9b 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -317,9 +317,15 @@ class EditableFloat(EditableFieldSet):
     _value = None
 
     def _isAltered(self):
-        return (self._value is not None)
+        return (self._value is not None) or EditableFieldSet._isAltered(self)
     is_altered = property(_isAltered)
 
+    def _getSize(self):
+        if self._value is not None:
+            return self.input.size
+        return EditableFieldSet._getSize(self)
+    size = property(_getSize)
+
     def writeInto(self, output):
         if self._value is not None:
             self._write(output)
@@ -332,9 +338,13 @@ class EditableFloat(EditableFieldSet):
         output.writeBytes(raw)
 
     def _setValue(self, value):
-        self.parent._is_altered = True
         self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        return self.input.value
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
-- 
2.43.0


From c4ddcc5f89ac57a01c9c5af93484e4059a957c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 38/64] fix: copy unedited fields to an output which is not
 aligned

After a change of a number of bits, the next fields are written at
addresses which are not whole bytes. The address of a field set which is
copied may also be unaligned.
---
 hachoir/editor/field.py    | 7 +------
 hachoir/editor/fieldset.py | 8 ++------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/hachoir/editor/field.py b/hachoir/editor/field.py
index f3d43c0..7a92bdb 100644
--- a/hachoir/editor/field.py
+++ b/hachoir/editor/field.py
@@ -59,11 +59,6 @@ class FakeField(object):
     is_altered = property(_isAltered)
 
     def writeInto(self, output):
-        size = self.size
         addr = self._parent._getFieldInputAddress(self._name)
         input = self._parent.input
-        stream = input.stream
-        if size % 8 or addr % 8:
-            output.copyBitsFrom(stream, addr, size, input.endian)
-        else:
-            output.copyBytesFrom(stream, addr, size // 8)
+        output.copyBitsFrom(input.stream, addr, self.size, input.endian)
diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index b64dc9b..24d5b52 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -292,12 +292,8 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
-                output.copyBitsFrom(input.stream,
-                                    input.absolute_address, input.size, input.endian)
-            else:
-                output.copyBytesFrom(input.stream,
-                                     input.absolute_address, input.size // 8)
+            output.copyBitsFrom(input.stream,
+                                input.absolute_address, input.size, input.endian)
         else:
             # Altered: call writeInto() method of each field
             realaddr = 0
-- 
2.43.0


From 6385cb730f8d00bda314f5db1c2687a97bc9cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 39/64] fix: copy any number of bits

More than config.max_bit_length bits at an unaligned address failed with
AssertionError.
---
 hachoir/stream/output.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index b499a49..04d8787 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -116,11 +116,13 @@ class OutputStream(object):
         if (nb_bits % 8) == 0 and (address % 8) == 0 and (self._bit_pos % 8) == 0:
             self.copyBytesFrom(input, address, nb_bits // 8)
         else:
-            # Arbitrary limit (because we should use a buffer, like copyBytesFrom(),
-            # but with endianess problem
-            assert nb_bits <= config.max_bit_length
-            data = input.readBits(address, nb_bits, endian)
-            self.writeBits(nb_bits, data, endian)
+            # Copy by blocks of bits
+            while 0 < nb_bits:
+                count = min(nb_bits, config.max_bit_length)
+                data = input.readBits(address, count, endian)
+                self.writeBits(count, data, endian)
+                address += count
+                nb_bits -= count
 
     def copyBytesFrom(self, input, address, nb_bytes):
         if (address % 8):
-- 
2.43.0


From 8ccbc9e1659219afe1d7cafea1cc88639af872cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:31 +0000
Subject: [PATCH 40/64] fix: insert a field after the last one

The input field set raises MissingField, not IndexError.
---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 24d5b52..2c2740e 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -136,7 +136,7 @@ class EditableFieldSet(object):
                 index = self.input[key].index + 1
                 try:
                     key = self.input[index].name
-                except IndexError:
+                except MissingField:
                     key = None
 
             # Check that field names are not in input
-- 
2.43.0


From 06396c72a77a6bee8abf370135b02a5c7043f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 41/64] fix: insert before a field which replaces a deleted one

The name is the one of the inserted field, not of the deleted field.
---
 hachoir/editor/fieldset.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 2c2740e..c7c184e 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -109,9 +109,6 @@ class EditableFieldSet(object):
             # Insert at the end
             self._inserted.setdefault(None, deque()).extend(new_fields)
             return
-        if key in self._inserted and not next:
-            self._inserted[key].extendleft(reversed(new_fields))
-            return
 
         # Whould like to insert in inserted fields?
         if key:
-- 
2.43.0


From 9fab03adf13646212ce70cb1e4cfe2ef6c1ad6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:12 +0000
Subject: [PATCH 42/64] fix: limitedTime keeps the alarm of the caller

The pending alarm was cancelled, and the alarm handler was not restored
when the alarm went off just after the function ended.
---
 hachoir/core/timeout.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/hachoir/core/timeout.py b/hachoir/core/timeout.py
index 9bc4d3e..5f0641f 100644
--- a/hachoir/core/timeout.py
+++ b/hachoir/core/timeout.py
@@ -40,18 +40,30 @@ def fixTimeout(second):
 
 if not IMPLEMENTATION:
     try:
-        from signal import signal, alarm, SIGALRM
+        from signal import signal, alarm, setitimer, SIGALRM, ITIMER_REAL
+        from time import monotonic
 
         # signal.alarm() implementation
         def limitedTime(second, func, *args, **kw):  # noqa
             second = fixTimeout(second)
-            old_alarm = signal(SIGALRM, signalHandler)
+            # Suspend the alarm of the caller, if any
+            delay, interval = setitimer(ITIMER_REAL, 0)
+            start = monotonic()
             try:
-                alarm(second)
-                return func(*args, **kw)
+                old_alarm = signal(SIGALRM, signalHandler)
+                try:
+                    try:
+                        alarm(second)
+                        return func(*args, **kw)
+                    finally:
+                        # The alarm can still go off before this line
+                        alarm(0)
+                finally:
+                    signal(SIGALRM, old_alarm)
             finally:
-                alarm(0)
-                signal(SIGALRM, old_alarm)
+                if delay:
+                    delay -= monotonic() - start
+                    setitimer(ITIMER_REAL, max(delay, 1e-6), interval)
 
         IMPLEMENTATION = "signal.alarm()"
     except ImportError:
-- 
2.43.0


From 57be88b71d59f893487fa52c1394610841dfe3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:12 +0000
Subject: [PATCH 43/64] fix: limitedMemory restores the memory limit

The limit is in bytes, not in pages, and the hard limit is kept.
---
 hachoir/core/memory.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..9139eec 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -53,10 +53,7 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
+            return getrlimit(RLIMIT_AS)[0]
         except ValueError:
             return None
 
@@ -64,7 +61,8 @@ try:
         if max_mem is None:
             max_mem = -1
         try:
-            setrlimit(RLIMIT_AS, (max_mem, -1))
+            # Keep the hard limit
+            setrlimit(RLIMIT_AS, (max_mem, getrlimit(RLIMIT_AS)[1]))
             return True
         except ValueError:
             return False
-- 
2.43.0


From c71693384bc4a31a9aa7a322f58aa2143582dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 44/64] fix: escape the special characters of a range of
 characters

---
 hachoir/regex/regex.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 207cd26..46a8638 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -446,10 +446,21 @@ class RegexRangeItem:
         assert issubclass(value.__class__, RegexRangeItem)
         return (self.cmin <= value.cmin) and (value.cmax <= self.cmax)
 
+    @staticmethod
+    def _escape(code):
+        """
+        Convert a character code to string:
+        prefix the special characters of a range by an antislash.
+        """
+        char = chr(code)
+        if char in "\\^[]-":
+            char = "\\" + char
+        return char
+
     def __str__(self, **kw):
-        cmin = chr(self.cmin)
+        cmin = self._escape(self.cmin)
         if self.cmin != self.cmax:
-            cmax = chr(self.cmax)
+            cmax = self._escape(self.cmax)
             if (self.cmin + 1) == self.cmax:
                 return "%s%s" % (cmin, cmax)
             else:
@@ -550,13 +561,13 @@ class RegexRange(Regex):
 
     def _str(self, **kw):
         content = [str(item) for item in self.ranges]
-        if "-" in content:
-            content.remove("-")
+        if "\\-" in content:
+            content.remove("\\-")
             suffix = "-"
         else:
             suffix = ""
-        if "]" in content:
-            content.remove("]")
+        if "\\]" in content:
+            content.remove("\\]")
             prefix = "]"
         else:
             prefix = ""
-- 
2.43.0


From a37d4195848c48041aa5f43e60da3b7455da1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 45/64] fix: a dot matches a newline when searching patterns

---
 hachoir/regex/regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 46a8638..70098ec 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -257,7 +257,8 @@ class Regex:
             "Class %s has no method _eq()" % self.__class__.__name__)
 
     def compile(self, **kw):
-        return re.compile(self.__str__(**kw))
+        # '.' matches any character, including a newline
+        return re.compile(self.__str__(**kw), re.DOTALL)
 
     def findPrefix(self, regex):
         """
-- 
2.43.0


From fe6f15414fb3807aad8cfa29f7821314d8d82ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 46/64] fix: report the regular expression of the whole match

---
 hachoir/regex/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/pattern.py b/hachoir/regex/pattern.py
index e525663..99a282b 100644
--- a/hachoir/regex/pattern.py
+++ b/hachoir/regex/pattern.py
@@ -44,7 +44,7 @@ class RegexPattern(Pattern):
         return "<RegexPattern '%s'>" % self
 
     def match(self, data):
-        return self.compiled_regex.match(data)
+        return self.compiled_regex.fullmatch(data)
 
     def _getCompiledRegex(self):
         if self._compiled_regex is None:
-- 
2.43.0


From db9f6373bee2cbcf16de0df3e36f7cb4eedff0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 47/64] fix: offset of the magic of a Git pack file

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..511c024 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -216,7 +216,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
-- 
2.43.0


From d12845828475de8248e7612d03ef106e963886b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 48/64] fix: search parsers which have the same magic

---
 hachoir/subfile/pattern.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index a2b1d7b..7489340 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -23,14 +23,24 @@ class HachoirPatternMatching(PatternMatching):
         # Create string patterns
         for parser in parser_list:
             for (magic, offset) in parser.getParserTags().get("magic", ()):
-                self.addString(magic.decode('latin1'), (offset, parser))
+                self.addMagic(magic.decode('latin1'), (offset, parser))
 
         # Create regex patterns
         for parser in parser_list:
             for (regex, offset) in parser.getParserTags().get("magic_regex", ()):
-                self.addRegex(regex.decode('latin1'), (offset, parser))
+                self.addRegex(regex.decode('latin1'), [(offset, parser)])
         self.commit()
 
+    def addMagic(self, magic, user):
+        """
+        Add a string pattern: different parsers may have the same magic.
+        """
+        if magic in self.string_dict:
+            self.string_dict[magic].user.append(user)
+        else:
+            self.addString(magic, [user])
+
     def search(self, data):
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
-            yield (item.user[1], start * 8 - item.user[0])
+            for offset, parser in item.user:
+                yield (parser, start * 8 - offset)
-- 
2.43.0


From 362724074e4f3c4176923ab6ecca34632d50c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 49/64] fix: load the parsers before using them to search
 subfiles

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From fff3af09c17022f886a65694669d13565c5ab12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 50/64] fix: search subfiles over the border of two slices

---
 hachoir/subfile/pattern.py | 8 +++++++-
 hachoir/subfile/search.py  | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/pattern.py b/hachoir/subfile/pattern.py
index 7489340..c5be503 100644
--- a/hachoir/subfile/pattern.py
+++ b/hachoir/subfile/pattern.py
@@ -40,7 +40,13 @@ class HachoirPatternMatching(PatternMatching):
         else:
             self.addString(magic, [user])
 
-    def search(self, data):
+    def search(self, data, size=None):
+        """
+        Search patterns in data, only the ones which start in the first
+        size bytes if size is set.
+        """
         for start, stop, item in PatternMatching.search(self, data.decode('latin1')):
+            if size is not None and size <= start:
+                break
             for offset, parser in item.user:
                 yield (parser, start * 8 - offset)
diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7a1313..6a38c5a 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -179,8 +179,11 @@ class SearchSubfile:
         start = offset
         end = start + self.slice_size
         end = min(end, self.size)
-        data = self.stream.readBytes(start, (end - start) // 8)
-        for parser_cls, offset in self.patterns.search(data):
+        # Read the patterns which begin in this interval and end after it
+        data_end = end + max(self.patterns.max_length - 1, 0) * 8
+        data_end = min(data_end, self.size)
+        data = self.stream.readBytes(start, (data_end - start) // 8)
+        for parser_cls, offset in self.patterns.search(data, (end - start) // 8):
             offset += start
             # Skip invalid offset
             if offset < 0:
-- 
2.43.0


From a30751efdb64a9d6967d9f2dac6a906e9f07aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 51/64] fix: search on a byte after a subfile of any size

---
 hachoir/subfile/search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index 6a38c5a..0906b06 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -1,5 +1,5 @@
 from hachoir.stream import InputSubStream
-from hachoir.core.tools import humanFilesize, humanDuration
+from hachoir.core.tools import alignValue, humanFilesize, humanDuration
 from hachoir.core.memory import limitedMemory
 from hachoir.subfile.data_rate import DataRate
 from hachoir.subfile.output import Output
@@ -212,7 +212,7 @@ class SearchSubfile:
             # Set next offset
             if parser.content_size is not None\
                     and skipSubfile(parser):
-                self.next_offset = offset + parser.content_size
+                self.next_offset = alignValue(offset + parser.content_size, 8)
                 if end <= self.next_offset:
                     break
 
-- 
2.43.0


From 35826f6444e48bc2037a59269a5d0d1a7318e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:59 +0000
Subject: [PATCH 52/64] fix: try parsers in the order of the list

---
 hachoir/parser/guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..ff87cb3 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -19,7 +19,7 @@ class QueryParser(object):
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
-        self.parsers = set(self.db)
+        self.parsers = list(self.db)
         parsers = []
         for tag in tags:
             if not self.parsers:
-- 
2.43.0


From 55e2c75a54d22e37e7d4caafaa70f77e534244be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:59 +0000
Subject: [PATCH 53/64] fix: only parsers chosen by identifier or class skip
 the validation

---
 hachoir/parser/guess.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index ff87cb3..74e5204 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -15,7 +15,8 @@ class QueryParser(object):
     other = None
 
     def __init__(self, tags):
-        self.validate = True
+        # Parsers which are used without validation
+        self.forced = []
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
@@ -55,7 +56,7 @@ class QueryParser(object):
             for parser in parsers:
                 self.parsers.remove(parser)
         elif tag[0] == "class":
-            self.validate = False
+            self.forced.append(tag[1])
             return [tag[1]]
         elif tag[0] == "args":
             self.parser_args = tag[1]
@@ -70,13 +71,13 @@ class QueryParser(object):
                     values = iter(byname.values())
                 else:
                     values = byname.get(tag[1], ()),
-                if key == "id" and values:
-                    self.validate = False
                 for value in values:
                     for parser in value:
                         if parser in self.parsers:
                             parsers.append(parser)
                             self.parsers.remove(parser)
+                if key == "id" and tag[1] is not None:
+                    self.forced += parsers
         return parsers
 
     def parse(self, stream, fallback=True):
@@ -97,7 +98,8 @@ class QueryParser(object):
         warn = warning
         for parser in self.parsers:
             try:
-                parser_obj = parser(stream, validate=self.validate)
+                validate = parser not in self.forced
+                parser_obj = parser(stream, validate=validate)
                 if self.parser_args:
                     for key, value in self.parser_args.items():
                         setattr(parser_obj, key, value)
-- 
2.43.0


From cbbaa160ac8469f7fbaf59c5c26246235911ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:59 +0000
Subject: [PATCH 54/64] fix: don't reuse a parser which was not validated

---
 hachoir/parser/guess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 74e5204..9fa68d0 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -88,10 +88,7 @@ class QueryParser(object):
         if parser is not None:
             if parser.__class__ in self.parsers:
                 return parser
-        parser = self.doparse(stream, fallback)
-        if parser is not None:
-            stream._cached_parser = weakref.ref(parser)
-        return parser
+        return self.doparse(stream, fallback)
 
     def doparse(self, stream, fallback=True):
         fb = None
@@ -103,6 +100,9 @@ class QueryParser(object):
                 if self.parser_args:
                     for key, value in self.parser_args.items():
                         setattr(parser_obj, key, value)
+                if validate:
+                    # Only a parser which was validated can be reused
+                    stream._cached_parser = weakref.ref(parser_obj)
                 return parser_obj
             except ValidateError as err:
                 if fallback and self.fallback:
-- 
2.43.0


From 6686469da33543edd4cb2936a015818c3b8759b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:59 +0000
Subject: [PATCH 55/64] fix: refuse a parser with invalid tags before adding it

---
 hachoir/parser/parser_list.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/parser_list.py b/hachoir/parser/parser_list.py
index cf6b1d0..e319b46 100644
--- a/hachoir/parser/parser_list.py
+++ b/hachoir/parser/parser_list.py
@@ -20,15 +20,15 @@ class ParserList(object):
         if name in ("magic",):
             return True
         elif name == "min_size":
-            return - value < 0 or "Invalid minimum size (min_size)"
+            return isinstance(value, int) and 0 < value or "Invalid minimum size (min_size)"
         elif name == "description":
             return isinstance(value, str) and bool(value) or "Invalid description"
         elif name == "category":
             if value not in self.VALID_CATEGORY:
-                return "Invalid category: %r" % value
+                return "Invalid category: %r" % (value,)
         elif name == "id":
             if type(value) is not str or not self.ID_REGEX.match(value):
-                return "Invalid identifier: %r" % value
+                return "Invalid identifier: %r" % (value,)
             parser = self.bytag[name].get(value)
             if parser:
                 return "Duplicate parser id: %s already used by %s" % \
@@ -38,6 +38,10 @@ class ParserList(object):
             value = tuple(value)
         elif not isinstance(value, tuple):
             value = value,
+        try:
+            hash(value)
+        except TypeError:
+            return "Invalid value for tag %s: %r" % (name, value)
         return name, value
 
     def validParser(self, parser, tags):
@@ -55,7 +59,7 @@ class ParserList(object):
             return "MIME type is not a tuple"
         for mime in mimes:
             if not isinstance(mime, str):
-                return "MIME type %r is not an unicode string" % mime
+                return "MIME type %r is not an unicode string" % (mime,)
 
         return ""
 
-- 
2.43.0


From 5057b48dbf8ca360640a697538f2f01b7a27e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:37 +0000
Subject: [PATCH 56/64] fix: refuse NaN in the filters of metadata

---
 hachoir/metadata/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/filter.py b/hachoir/metadata/filter.py
index a507047..f1104a1 100644
--- a/hachoir/metadata/filter.py
+++ b/hachoir/metadata/filter.py
@@ -16,9 +16,10 @@ class Filter:
     def __call__(self, value):
         if not isinstance(value, self.types):
             return True
-        if self.min is not None and value < self.min:
+        # "not <=" and not ">": refuse also NaN
+        if self.min is not None and not self.min <= value:
             return False
-        if self.max is not None and self.max < value:
+        if self.max is not None and not value <= self.max:
             return False
         return True
 
-- 
2.43.0


From 3542ac2ff60454228c3fc2adb1652479dabb152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:09 +0000
Subject: [PATCH 57/64] fix: shorten the escapes of a text, not of its encoded
 form

---
 hachoir/core/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/core/tools.py b/hachoir/core/tools.py
index 4b24c2b..cf987e2 100644
--- a/hachoir/core/tools.py
+++ b/hachoir/core/tools.py
@@ -320,11 +320,11 @@ def makePrintable(data, charset, quote=None, smart=True):
         data = "(empty)"
     else:
         data = ""
-    data = data.encode(charset, "backslashreplace")
+    data = str(data.encode(charset, "backslashreplace"), charset)
     if smart:
         # Replace \x00\x01 by \0\1
-        data = re.sub(br"\\x0([0-7])(?=[^0-7]|$)", br"\\\1", data)
-    return str(data, charset)
+        data = re.sub(r"\\x0([0-7])(?=[^0-7]|$)", r"\\\1", data)
+    return data
 
 
 def makeUnicode(text):
-- 
2.43.0


From 0bbb9c862d7ce814e14c4da38c35a5b35ca6b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:09 +0000
Subject: [PATCH 58/64] fix: don't modify a regex when another one is made of
 it

---
 hachoir/regex/regex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 70098ec..2370fd0 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -662,8 +662,7 @@ class RegexAnd(Regex):
             return total
         new_item = self.content[-1]._and(regex)
         if new_item:
-            self.content[-1] = new_item
-            return self
+            return RegexAnd(self.content[:-1] + [new_item])
         return RegexAnd(self.content + [regex])
 
     def _str(self, **kw):
-- 
2.43.0


From e71e89a72e0da5694cbb143266977e6c33291c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:09 +0000
Subject: [PATCH 59/64] fix: group a repetition or an anchor which is repeated

---
 hachoir/regex/regex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 2370fd0..04d66bb 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -883,7 +883,9 @@ class RegexRepeat(Regex):
 
     def _str(self, **kw):
         text = str(self.regex)
-        if self.regex.__class__ == RegexAnd \
+        # "a+?" and "^*" don't have the meaning of "(a+)?" and "(^)*"
+        if self.regex.__class__ in (RegexAnd, RegexRepeat) \
+                or isinstance(self.regex, RegexEmpty) \
                 or (self.regex.__class__ == RegexString and 1 < len(self.regex.text)):
             text = "(%s)" % text
         if self.min == 0 and self.max == 1:
-- 
2.43.0


From 67bea341954bfcff3356841390b465e47e28eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:09 +0000
Subject: [PATCH 60/64] fix: maximum length of a repetition of something
 unlimited

---
 hachoir/regex/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 04d66bb..4a343d6 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -876,8 +876,9 @@ class RegexRepeat(Regex):
             return None
 
     def maxLength(self):
-        if self.max is not None:
-            return self.regex.maxLength() * self.max
+        length = self.regex.maxLength()
+        if self.max is not None and length is not None:
+            return length * self.max
         else:
             return None
 
-- 
2.43.0


From d1a8c57459d8212fcee8a2cfb34ed0b8e79318bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:09 +0000
Subject: [PATCH 61/64] fix: a complemented character class is not a single
 value

---
 hachoir/regex/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/regex/regex.py b/hachoir/regex/regex.py
index 4a343d6..f7a382a 100644
--- a/hachoir/regex/regex.py
+++ b/hachoir/regex/regex.py
@@ -59,7 +59,7 @@ def matchSingleValue(regex):
     if cls == RegexAnd:
         return all(matchSingleValue(item) for item in regex)
     if cls == RegexRange:
-        return len(regex.ranges) == 1 and len(regex.ranges[0]) == 1
+        return not regex.exclude and len(regex.ranges) == 1 and len(regex.ranges[0]) == 1
     return False
 
 
-- 
2.43.0


From ba0e1230423cef43b8203d7097820e847cd1f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:29 +0000
Subject: [PATCH 62/64] fix: decompress the content of a bzip2 file

The decompressor was given text instead of bytes when there is no new data:
reading the stream of the file raised TypeError.
---
 hachoir/parser/archive/bzip2_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/bzip2_parser.py b/hachoir/parser/archive/bzip2_parser.py
index 2e91d69..b52b174 100644
--- a/hachoir/parser/archive/bzip2_parser.py
+++ b/hachoir/parser/archive/bzip2_parser.py
@@ -22,11 +22,11 @@ try:
         def __init__(self, stream):
             self.bzip2 = BZ2Decompressor()
 
-        def __call__(self, size, data=''):
+        def __call__(self, size, data=b''):
             try:
                 return self.bzip2.decompress(data)
             except EOFError:
-                return ''
+                return b''
 
     has_deflate = True
 except ImportError:
-- 
2.43.0


From d1d74400566b8dfb7dc2483cc790001151a6f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:29 +0000
Subject: [PATCH 63/64] fix: size of a static field set derived from another
 one

Until its first instance was created, the class told the size of its base
class, and a class with the name of its base class did so forever.
---
 hachoir/field/static_field_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hachoir/field/static_field_set.py b/hachoir/field/static_field_set.py
index d5cb43e..547a417 100644
--- a/hachoir/field/static_field_set.py
+++ b/hachoir/field/static_field_set.py
@@ -16,6 +16,12 @@ class StaticFieldSet(FieldSet):
     format = None  # You have to redefine this class variable
     _class = None
 
+    def __init_subclass__(cls, **kw):
+        # The size of the base class is not the one of this class
+        super().__init_subclass__(**kw)
+        cls._class = None
+        cls.static_size = cls._computeStaticSize
+
     def __new__(cls, *args, **kw):
         assert cls.format is not None, "Class attribute 'format' is not set"
         if cls._class is not cls.__name__:
-- 
2.43.0


From 6f59234c90b1353a8c43752dc8bf28e2b82b486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:26 +0000
Subject: [PATCH 64/64] fix: refuse a float which its field cannot hold

Setting an editable float to what is no number, or too large, was accepted
and writing the field set failed later.
---
 hachoir/editor/fieldset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index c7c184e..50f0e10 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -331,6 +331,11 @@ class EditableFloat(EditableFieldSet):
         output.writeBytes(raw)
 
     def _setValue(self, value):
+        # Check that the field can hold the value
+        try:
+            struct.pack(self.input.struct_format, value)
+        except (struct.error, OverflowError) as err:
+            raise ValueError("Invalid float value: %s" % err)
         self._value = value
 
     def _getValue(self):
-- 
2.43.0

