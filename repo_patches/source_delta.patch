From 1d21917f75ee832d898ac9764447cd8a21b5419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 01/39] fix: keep the value of zero-length strings and padding

'st @ 0' returned a NullSerializer, which handles no values, so char[0],
pad[0] and every empty char[uint*], char[NET] and unicode equivalent could
not be packed or unpacked.
---
 structured/serializers/structs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..3aec7f0 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -188,6 +188,10 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         if not isinstance(other, int):
             return NotImplemented
         elif other == 0:
+            if combine_strings:
+                # A zero-length string still holds one (empty) value
+                byte_order, fmt = self._split_format
+                return type(self)(f'0{fmt[-1]}', byte_order)
             return NullSerializer()
         elif other < 0:
             raise ValueError('count must be non-negative')
-- 
2.43.0


From 6ef4ed78e883daf055fc345e65e1e5699c712314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 02/39] fix: size of a terminated string unpacked at an offset

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..87998f6 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -227,7 +227,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end + 1 - offset
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From 1a51eafb5cc414cb36adf1072adab24e3bfc13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 03/39] fix: do not terminate an already terminated string
 again

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 87998f6..4a56298 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -196,7 +196,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if not raw_data.endswith(self.terminator):
             # Insert terminator if needed
             raw_data += self.terminator
         count = len(raw_data)
-- 
2.43.0


From 31da3c6527cf1a0607b925cbf5e6a2e7ab483924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 04/39] fix: position after a terminated string read in short
 chunks

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 4a56298..9a1a37f 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -239,7 +239,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 offset = chunk.find(self.terminator)
                 if offset == -1:
                     out.write(chunk)
-                    size += READ_SIZE
+                    size += len(chunk)
                 else:
                     out.write(chunk[:offset])
                     size += offset + 1
-- 
2.43.0


From 563bd013a2997cc3ab25968432bac8097523b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 05/39] fix: no stray padding between an array's count and its
 items

---
 structured/serializers/arrays.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..aac940c 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -246,29 +246,26 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        # NOTE: The items are packed separately from their count, since
+        # unpacking doesn't expect any alignment bytes between the two.
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        size = self.count_serializer.size
+        serializer.pack_into(buffer, offset + size, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
-        serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From 70b7977a7c7cd47dd5f0e89a7b75f20b610f44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 06/39] fix: counted array of basic items after another
 variable-size field

---
 structured/serializers/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index aac940c..194bf9b 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From 1fc32785ecc14b5c014ddca0c84215f09f1a6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 07/39] fix: unpack_from of every serializer defaults to offset
 0

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 structured/serializers/tuples.py  | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 194bf9b..c13ff65 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -147,7 +147,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -216,7 +216,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -275,7 +275,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 3aec7f0..277b1a6 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -247,7 +247,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..702faff 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -58,7 +58,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
         return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
         return (
             self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
         )
-- 
2.43.0


From cb905c5018c44fc032a6d18c5acb8db368d896aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 08/39] fix: unpack the contents of a tuple completely, and
 report its size

---
 structured/serializers/tuples.py | 43 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 702faff..504cf02 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -28,42 +28,53 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
-    def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+    def unpack(self, buffer: ReadableBuffer) -> tuple[tuple[Unpack[Ts]]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
-    ) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
-
-    def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+    ) -> tuple[tuple[Unpack[Ts]]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (values,)
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[tuple[Unpack[Ts]]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (values,)
-- 
2.43.0


From 35cfa6ce9cbcbaccb5bb4e978a9e026069ac0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 09/39] fix: apply the byte order to the contents of tuples

---
 structured/serializers/tuples.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 504cf02..77f0d38 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -8,6 +8,7 @@ __all__ = [
 ]
 
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +17,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -30,6 +32,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self.serializer = sum(serializers, NullSerializer())
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From c41dcc8823b96903e948260998231720f0e0f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 10/39] fix: store and check the data size of arrays of basic
 items

---
 structured/hint_types/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..e62d056 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -105,7 +105,8 @@ class array(Generic[S, T], list[T], requires_indexing):
             )
         # All good, check for specializations for struct.Struct unpackable
         if (
-            isinstance(item_serializer, StructSerializer)
+            header.data_size is None
+            and isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
         ):
             if isinstance(header.count, int):
-- 
2.43.0


From 3c6a8b22ae183ea224ccff554c32d0073172b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 11/39] fix: conditional fields of every type, and their size

---
 structured/serializers/conditional.py | 55 +++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..0f3bdb9 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -48,6 +48,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             False: SkipSerializer(default),
         }
         self.num_values = serializer.num_values
+        self.size = 0
         if serializer.num_values != len(default):
             expected = len(default)
             raise ValueError(
@@ -63,11 +64,57 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         defaults = self.serializers[False].values
         return type(self)(serializer, self.condition, defaults)
 
-    def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+    def prepack(self, partial_object: Any) -> Self:
+        self._partial_object = partial_object
+        return self
 
-    def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+    def preunpack(self, partial_object: Any) -> Self:
+        self._partial_object = partial_object
+        return self
+
+    def _select(self, packing: bool) -> Serializer[Unpack[Ts]]:
+        partial_object = self._partial_object
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        if packing:
+            return serializer.prepack(partial_object)
+        else:
+            return serializer.preunpack(partial_object)
+
+    def pack(self, *values: Unpack[Ts]) -> bytes:
+        serializer = self._select(True)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
+
+    def pack_into(
+        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
+    ) -> None:
+        serializer = self._select(True)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
+
+    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
+        serializer = self._select(True)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
+
+    def unpack(self, buffer: ReadableBuffer) -> tuple[Unpack[Ts]]:
+        serializer = self._select(False)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return values
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[Unpack[Ts]]:
+        serializer = self._select(False)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return values
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[Unpack[Ts]]:
+        serializer = self._select(False)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return values
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From 503388f689db5cbedfb2837e29004c54a38af4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 12/39] fix: conditional padding is padding

---
 structured/structured.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..0e0cb7a 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,12 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import (
+    ConditionalSerializer,
+    NullSerializer,
+    Serializer,
+    StructSerializer,
+)
 from .type_checking import (
     Any,
     BinaryIO,
@@ -46,6 +51,8 @@ from .utils import StructuredAlias, attrgetter, zips
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From 3065bea54c038fa8c1a312465463e34fc36eb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 13/39] fix: refuse truncated length-prefixed strings

---
 structured/serializers/strings.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9a1a37f..1e9ad39 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -112,7 +111,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        return struct.unpack_from(f'{count}s', buffer, self.st.size)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -125,8 +124,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_from(buffer, offset)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
-        return st.unpack_from(buffer, offset + self.st.size)
+        return struct.unpack_from(f'{count}s', buffer, offset + self.st.size)
 
     def unpack_read(self, readable: BinaryIO) -> tuple:
         """Unpack a dynamically sized bytestring from a file-like object.
@@ -136,8 +134,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_read(readable)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
-        return st.unpack_read(readable)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 class ConsumingCharSerializer(Serializer[bytes]):
@@ -315,7 +312,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return struct.unpack_from(f'{count}s', buffer, size)
 
     def unpack_from(
         self,
@@ -343,7 +340,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From c7edb674d95241db247f5b27b404c5db43068de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 14/39] fix: read-to-end strings are bytes, and never resize a
 buffer

---
 structured/serializers/strings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 1e9ad39..7af2eeb 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -157,7 +157,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
@@ -166,11 +166,11 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-        return (buffer,)
+        return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        return (bytes(buffer[offset:]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From 643ee48817ad3d6ea448ed2cd8f0ecc1ffbdaa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 15/39] fix: size of text when its decoder uses the same
 serializer

---
 structured/serializers/strings.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 7af2eeb..ec94ada 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -365,32 +365,39 @@ class UnicodeSerializer(Serializer[str]):
         self.serializer = char_serializer
         self.encoder = encoder
         self.decoder = decoder
+        self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def pack(self, *values: Unpack[tuple[str]]) -> bytes:
-        return self.serializer.pack(self.encoder(values[0]))
+        data = self.serializer.pack(self.encoder(values[0]))
+        self.size = self.serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[str]]
     ) -> None:
         self.serializer.pack_into(buffer, offset, self.encoder(values[0]))
+        self.size = self.serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[str]]) -> None:
         self.serializer.pack_write(writable, self.encoder(values[0]))
+        self.size = self.serializer.size
+
+    def _decode(self, data: bytes) -> tuple[str]:
+        # NOTE: only update the size after decoding, a custom decoder may use
+        # this serializer itself.
+        size = self.serializer.size
+        value = self.decoder(data).rstrip('\0')
+        self.size = size
+        return (value,)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[str]:
-        return (self.decoder(self.serializer.unpack(buffer)[0]).rstrip('\0'),)
+        return self._decode(self.serializer.unpack(buffer)[0])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[str]:
-        return (
-            self.decoder(self.serializer.unpack_from(buffer, offset)[0]).rstrip('\0'),
-        )
+        return self._decode(self.serializer.unpack_from(buffer, offset)[0])
 
     def unpack_read(self, readable: BinaryIO) -> tuple[str]:
-        return (self.decoder(self.serializer.unpack_read(readable)[0]).rstrip('\0'),)
+        return self._decode(self.serializer.unpack_read(readable)[0])
-- 
2.43.0


From 79608ee58d8a7ec525b3ea0ccbd4af0d3f3cd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 16/39] fix: apply the byte order to the length prefix of text

---
 structured/serializers/strings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index ec94ada..a4fd9b0 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -367,6 +367,10 @@ class UnicodeSerializer(Serializer[str]):
         self.decoder = decoder
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        serializer = self.serializer.with_byte_order(byte_order)
+        return type(self)(serializer, self.encoder, self.decoder)
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From cb0798a2398cb0195773f88510a0572d60dc4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 17/39] fix: a union with a read-to-end default must be last

---
 structured/serializers/unions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..c8c8ddb 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -54,7 +54,10 @@ class AUnion(Serializer):
         self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
-        for serializer in self.result_map.values():
+        serializers = list(self.result_map.values())
+        if self.default is not None:
+            serializers.append(self.default)
+        for serializer in serializers:
             if serializer.is_final():
                 return serializer.get_final()
 
-- 
2.43.0


From 7a447d1e028c2040917a009caef1e95d2457a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 18/39] fix: apply the byte order to the members of unions

---
 structured/serializers/unions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index c8c8ddb..74f3283 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -11,8 +11,10 @@ __all__ = [
     'LookaheadDecider',
 ]
 
+import copy
 import os
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -53,6 +56,16 @@ class AUnion(Serializer):
         }
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = copy.copy(self)
+        if self.default is not None:
+            new.default = self.default.with_byte_order(byte_order)
+        new.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        return new
+
     def get_final(self) -> Optional[Serializer]:
         serializers = list(self.result_map.values())
         if self.default is not None:
@@ -193,6 +206,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = super().with_byte_order(byte_order)
+        new.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return new
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 6fea5b368bb8a24651ec25f67e6f90fa06a0e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 19/39] fix: look ahead with any type, tuples included

---
 structured/serializers/unions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 74f3283..14f0a5a 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -233,22 +233,25 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
-- 
2.43.0


From ce65592afe196ad0d402c7bcbb4b1d2975e5edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 20/39] fix: union members see the right object when a decider
 uses the same type

---
 structured/serializers/unions.py | 33 +++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 14f0a5a..4b32c68 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -38,6 +38,7 @@ class AUnion(Serializer):
     """
 
     num_values: ClassVar[int] = 1
+    decider: Callable[[Any], Any]
     result_map: dict[Any, Serializer]
     default: Optional[Serializer]
     _last_serializer: Optional[Serializer]
@@ -91,6 +92,13 @@ class AUnion(Serializer):
         self._partial_object = partial_object
         return self
 
+    def decide(self, packing: bool) -> Serializer:
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        # The decider may have used this serializer itself
+        self._partial_object = partial_object
+        return self.get_serializer(result, packing)
+
     def get_serializer(self, decider_result: Any, packing: bool) -> Serializer:
         """Given a target used to decide, return a serializer used to unpack."""
         if self.default is None:
@@ -143,10 +151,6 @@ class LookbackDecider(AUnion):
         super().__init__(result_map, default)
         self.decider = decider
 
-    def decide(self, packing: bool) -> Serializer:
-        result = self.decider(self._partial_object)
-        return self.get_serializer(result, packing)
-
     def pack(self, *values: Any) -> bytes:
         serializer = self.decide(True)
         data = serializer.pack(*values)
@@ -214,43 +218,46 @@ class LookaheadDecider(AUnion):
         return new
 
     def pack(self, *values: Any) -> bytes:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.decide(True)
         data = serializer.pack(*values)
         self.size = serializer.size
         return data
 
     def pack_into(self, buffer: WritableBuffer, offset: int, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.decide(True)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.decide(True)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_read(readable))[0]
+        self._partial_object = partial_object
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
-- 
2.43.0


From 121e95bb59ece472df91527cc64224e564b5246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 21/39] fix: array items see the right object when they contain
 the same type

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index c13ff65..d7666bf 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From 92ef8af0ceabbf15d59099450a267ac6c29d82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 22/39] fix: unpack self-containing records in place, or with a
 field named cls

---
 structured/serializers/self.py | 9 ++++++---
 structured/structured.py       | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..81ddd1c 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -7,7 +7,7 @@ __all__ = [
 ]
 
 
-from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, annotated
+from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, Union, annotated
 from .api import Serializer
 from .structured import StructuredSerializer
 
@@ -24,8 +24,11 @@ class SelfSerializer(Serializer[Structured]):
     def prepack(self, partial_object: Structured) -> Serializer:
         return StructuredSerializer(type(partial_object))
 
-    def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+    def preunpack(self, partial_object: Union[_Proxy, Structured]) -> Serializer:
+        # NOTE: When unpacking into an existing object, partial_object is that
+        # object instead of a proxy.
+        cls = getattr(partial_object, '_Proxy__cls', type(partial_object))
+        return StructuredSerializer(cls)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index 0e0cb7a..fbc8baf 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -481,7 +481,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__cls = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From 4a121a66cef2488b69736361d06838942c0e90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 23/39] fix: a generic field type keeps the byte order of its
 class

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..1cbfb9d 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From a4eff7afed8618103564de56a1ebdb14e7bec9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 24/39] fix: fields redeclared while specialising a generic
 class

---
 structured/structured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index fbc8baf..643eb63 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -391,6 +391,8 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
+                # Fields redeclared by this class override the specialized ones
+                annotations |= get_annotations(cls)
                 update_annotations(cls, annotations)
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
-- 
2.43.0


From 3856de026bdbeb10fadf1b160d049cc36ef9ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 25/39] fix: fields redeclared by an intermediate generic class

---
 structured/structured.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 643eb63..ced2ff9 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -469,7 +469,14 @@ class Structured(metaclass=StructuredMeta):
             args = get_args(alias)
             args = (tvar_map.get(arg, arg) for arg in args)
             super_annotations = base._get_specialization_hints(*args)
-            all_annotations.append(super_annotations)
+            all_annotations.append(
+                # Fields redeclared by this class override those of its base
+                {
+                    attr: hint
+                    for attr, hint in super_annotations.items()
+                    if attr not in cls_annotations
+                }
+            )
         return reduce(operator.or_, reversed(all_annotations))
 
 
-- 
2.43.0


From 53be1b803c482f24ff2bc897d56c6978d0db384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 26/39] fix: partially specialised or repeated generic
 arguments of a field type

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 1cbfb9d..6728055 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -106,7 +106,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From 431d4c2d0bd09a1a52f5c32364e9295928dbdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 27/39] fix: generic types nested in arrays, tuples and other
 generic types

---
 structured/hint_types/arrays.py      |  7 +++++--
 structured/hint_types/tuples.py      |  3 ++-
 structured/serializers/structured.py |  8 +++++---
 structured/utils.py                  | 12 +++++++++++-
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index e62d056..db3b616 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -21,7 +21,7 @@ from ..serializers import (
     StructSerializer,
 )
 from ..type_checking import Annotated, Generic, Optional, S, Self, T, TypeVar, annotated
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, unresolved
 from .basic_types import _SizeTypes
 
 
@@ -90,7 +90,10 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
         header, item_type = args
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
+        item_type = unresolved(item_type)
+        if isinstance(header, StructuredAlias) or isinstance(
+            item_type, (TypeVar, StructuredAlias)
+        ):
             return StructuredAlias(cls, (header, item_type))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..39a1ce5 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -4,12 +4,13 @@ Provides transformations for tuple type hints into serializers.
 
 from ..serializers import Serializer, TupleSerializer
 from ..type_checking import Any, Tuple, TypeVar, annotated, get_tuple_args, istuple
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, unresolved
 
 
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
+            tuple_args = tuple(map(unresolved, tuple_args))
             if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
                 return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 6728055..1718a40 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -21,7 +21,7 @@ from ..type_checking import (
     get_origin,
     safe_issubclass,
 )
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, unresolved
 from .api import Serializer
 
 if TYPE_CHECKING:
@@ -87,9 +87,11 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         if safe_issubclass(base_type, Structured):
             return StructuredSerializer(base_type)
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
-            spec_args = get_args(base_type)
+            spec_args = tuple(map(unresolved, get_args(base_type)))
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if all(
+                not isinstance(arg, (TypeVar, StructuredAlias)) for arg in spec_args
+            ):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..ddca55a 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -7,7 +7,7 @@ import sys
 import warnings
 from functools import wraps
 
-from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar
+from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar, annotated
 
 if sys.version_info < (3, 10):
     from typing import overload
@@ -102,6 +102,16 @@ class StructuredAlias:
             return self.cls[resolved]  # type: ignore
 
 
+def unresolved(hint: Any) -> Any:
+    """Get the TypeVar or StructuredAlias for a hint which can't be fully
+    resolved yet.  Any other hints are returned as is.
+    """
+    transformed = annotated.transform(hint)
+    if isinstance(transformed, (TypeVar, StructuredAlias)):
+        return transformed
+    return hint
+
+
 # nice deprecation warnings, ideas taken from Trio
 class StructuredDeprecationWarning(FutureWarning):
     """Warning emitted if you use deprecated Structured functionality. This
-- 
2.43.0


From 6529b34c4de77a3bd96af6e67c4bd33e3008c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 28/39] fix: pack length-prefixed strings with any byte order

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index a4fd9b0..cdcec6c 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -70,7 +70,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        st = self.st + (_single_char @ count).with_byte_order(self.st.byte_order)
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From 642619793ea933ff9c8d72bd37c11c0de62ab5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 29/39] fix: refuse to join custom-type serializers of
 different byte orders

---
 structured/serializers/structs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 277b1a6..5f9e39d 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -284,7 +284,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return super().__add__(other)
         byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
         return type(self)(fmt, byte_order, actions)
@@ -297,7 +302,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return NotImplemented
         byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
+        byte_order2, rfmt = self._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{other} + {self}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
         return type(self)(fmt, byte_order, actions)  # type: ignore
-- 
2.43.0


From 44d3360307c89898157061fa12b89bd0750aa497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 30/39] fix: padding in classes with postponed annotations

---
 structured/structured.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index ced2ff9..0226d72 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -181,8 +181,22 @@ class MetaDict(dict):
 
     _unique_id: ClassVar[Iterator[int]] = count()
 
+    @staticmethod
+    def _evaluate(annotation: str) -> Any:
+        """Evaluate a postponed annotation (`from __future__ import annotations`)
+        in the class body that's making it.
+        """
+        class_body = sys._getframe(2)
+        try:
+            return eval(annotation, class_body.f_globals, class_body.f_locals)
+        except Exception:
+            # Not defined yet, so it can't be told apart from other annotations
+            return annotation
+
     def __setitem__(self, key, value):
-        if key == '_' and ispad(value):
+        if key == '_' and ispad(
+            self._evaluate(value) if isinstance(value, str) else value
+        ):
             # Generate a unique name, we'll use ones that are invalid attribute
             # names so they won't accidentally overwrite anything a use sets.
             key = f'{next(self._unique_id)}_pad_'
-- 
2.43.0


From d3b8c86a5c3880b32214abce56021a23cbd7179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 31/39] fix: array hints do not carry a type variable of the
 library

---
 structured/hint_types/arrays.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index db3b616..45ff759 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -114,11 +114,11 @@ class array(Generic[S, T], list[T], requires_indexing):
         ):
             if isinstance(header.count, int):
                 return Annotated[
-                    list[T], StaticStructArraySerializer(header.count, item_serializer)
+                    list, StaticStructArraySerializer(header.count, item_serializer)
                 ]
             else:
                 return Annotated[
-                    list[T], DynamicStructArraySerializer(header.count, item_serializer)
+                    list, DynamicStructArraySerializer(header.count, item_serializer)
                 ]
         # General array serializer
         if isinstance(header.count, int):
@@ -136,6 +136,6 @@ class array(Generic[S, T], list[T], requires_indexing):
             else:
                 header_serializer = header.count + header.data_size
         return Annotated[
-            list[T],
+            list,
             ArraySerializer[T](header_serializer, item_serializer, static_length),
         ]
-- 
2.43.0


From 6129bed946fb7466b5257a259a6044b4c56504be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 32/39] fix: padding annotated with a string within postponed
 annotations

---
 structured/structured.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 0226d72..9bc5f0a 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -182,21 +182,23 @@ class MetaDict(dict):
     _unique_id: ClassVar[Iterator[int]] = count()
 
     @staticmethod
-    def _evaluate(annotation: str) -> Any:
+    def _evaluate(annotation: Any) -> Any:
         """Evaluate a postponed annotation (`from __future__ import annotations`)
-        in the class body that's making it.
+        or one given as a string, in the class body that's making it.
         """
         class_body = sys._getframe(2)
         try:
-            return eval(annotation, class_body.f_globals, class_body.f_locals)
+            while isinstance(annotation, str):
+                annotation = eval(
+                    annotation, class_body.f_globals, class_body.f_locals
+                )
         except Exception:
             # Not defined yet, so it can't be told apart from other annotations
-            return annotation
+            pass
+        return annotation
 
     def __setitem__(self, key, value):
-        if key == '_' and ispad(
-            self._evaluate(value) if isinstance(value, str) else value
-        ):
+        if key == '_' and ispad(self._evaluate(value)):
             # Generate a unique name, we'll use ones that are invalid attribute
             # names so they won't accidentally overwrite anything a use sets.
             key = f'{next(self._unique_id)}_pad_'
-- 
2.43.0


From 5e552b64bc92307aa26ff3664d6aca8fc1f2ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 33/39] fix: an attribute may be named self

---
 structured/structured.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 9bc5f0a..b59ca67 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -133,7 +133,7 @@ def gen_init(
     """Generates an __init__ method for a class.  `args` should be a mapping of
     arguments to type annotations to be used in the method definition.
 
-    :param args: Mapping of argument names to argument type annotations, including self.
+    :param args: Mapping of argument names to argument type annotations, excluding self.
     :param globalsns: Any globals needed to be accessed by this method.
     :param localsns: Any locals needed to be accessed by this method.
     :return: The generated __init__, without __qualname__set.
@@ -141,8 +141,12 @@ def gen_init(
     if localsns is None:
         localsns = {}
     local_vars = ', '.join(localsns.keys())
+    # There might be an attribute named 'self'
+    self_name = 'self'
+    while self_name in args:
+        self_name += '_'
     # Transform types to strings
-    args_items = []
+    args_items = [self_name]
     for name, annotation in args.items():
         if union_args := get_union_args(annotation):
             union_text = ', '.join(arg.__name__ for arg in union_args)
@@ -161,8 +165,8 @@ def gen_init(
     # Inner function text
     args_txt = ', '.join(args_items)
     def_txt = f' def __init__({args_txt}) -> None:'
-    body_lines = [f'  self.{name} = {name}' for name in args.keys() if name != 'self']
-    body_lines.append('  self.__post_init__()')
+    body_lines = [f'  {self_name}.{name} = {name}' for name in args.keys()]
+    body_lines.append(f'  {self_name}.__post_init__()')
     body_txt = '\n'.join(body_lines)
     inner_txt = f'{def_txt}\n{body_txt}'
     # Outer creation function
@@ -414,16 +418,13 @@ class Structured(metaclass=StructuredMeta):
         typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
         # Which variables show up in the __init__
-        # Need to ensure 'self' shows up first
         typehints = get_type_hints(cls)
-        init_vars = {'self': Self}
-        init_vars |= {
+        init_vars = {
             attr: typehints.get(attr, Any)
             for attr in applicable_typehints
             if not ispad(applicable_typehints[attr])
         }
-        # But also don't want 'self' to show up in attrs
-        attrs = tuple(init_vars.keys())[1:]
+        attrs = tuple(init_vars.keys())
         serializer = sum(
             applicable_typehints.values(), NullSerializer()
         ).with_byte_order(byte_order)
-- 
2.43.0


From 9dcab530e21a921bd160e6208530fa96792096f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 34/39] fix: joining struct formats keeps all of the second
 format

The pattern splitting the second format matched its rest lazily and
without an anchor, so everything after the first (folded) code was lost:
StructSerializer('B') + StructSerializer('BBi') was '2B'.
---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 5f9e39d..caf34f2 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -56,7 +56,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)$')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From fb4a9167c6285d44d3e37cfd2b7791cbc7629f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 35/39] fix: a union member may return an iterator from unpack

---
 structured/serializers/unions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 4b32c68..228f337 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -169,21 +169,21 @@ class LookbackDecider(AUnion):
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
-        return value
+        return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
-        return value
+        return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
-        return value
+        return values
 
 
 class LookaheadDecider(AUnion):
@@ -239,7 +239,7 @@ class LookaheadDecider(AUnion):
         result = tuple(read_ahead.unpack(buffer))[0]
         self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
@@ -249,7 +249,7 @@ class LookaheadDecider(AUnion):
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
@@ -260,6 +260,6 @@ class LookaheadDecider(AUnion):
         self._partial_object = partial_object
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From 1c92e1c37e2fea305b67e69c7aa031fe1a34b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 36/39] fix: a hint argument is not mistaken for an equal one
 of another type

---
 structured/hint_types/arrays.py  | 4 ++--
 structured/hint_types/strings.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 45ff759..af12e0e 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,7 +9,7 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
+from functools import cache, lru_cache
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -52,7 +52,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)  # 1 and 1.0 are not the same argument
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..964045f 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import lru_cache, partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)  # 1 and 1.0 are not the same argument
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -143,7 +143,7 @@ class unicode(str, requires_indexing):
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)  # 1 and 1.0 are not the same argument
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
-- 
2.43.0


From 465fef0b378a709b583640e4b421617d69b4b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 37/39] fix: specialise classes which are generic only through
 their bases

---
 structured/structured.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index b59ca67..2a0c68b 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -453,7 +453,9 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        # Without an explicit `Generic` base, a class is generic in the TypeVars
+        # of its other bases
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
             if (origin := get_origin(base)) is Generic:
                 tvars = get_args(base)
-- 
2.43.0


From c9394fbcf68cff73150406faa33dd50e5368e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 38/39] fix: packing a custom type may use the array it is
 packed in

---
 structured/serializers/arrays.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index d7666bf..81ac5ea 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -253,13 +253,15 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         items = values[0]
         # NOTE: The items are packed separately from their count, since
         # unpacking doesn't expect any alignment bytes between the two.
-        serializer = self.item_serializer * len(items)
-        self.size = self.count_serializer.size + serializer.size
-        return serializer, items
+        # And their size is only set once they're packed, packing custom types
+        # may use this serializer itself.
+        return self.item_serializer * len(items), items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
+        data = self.count_serializer.pack(len(items)) + serializer.pack(*items)
+        self.size = len(data)
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
@@ -268,6 +270,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         size = self.count_serializer.size
         serializer.pack_into(buffer, offset + size, *items)
         self.count_serializer.pack_into(buffer, offset, len(items))
+        self.size = size + serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
         writable.write(self.pack(*values))
-- 
2.43.0


From 6b908ff182da296f0b113a72bf6034fd9b91e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 39/39] fix: a tuple of another length than its hint is refused
 instead of packed without the rest

---
 structured/serializers/tuples.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 77f0d38..96d45db 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -42,7 +42,15 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self._partial_obj = partial_object
         return self
 
+    def _check_length(self, values: tuple[Unpack[Ts]]) -> None:
+        if len(values) != self.serializer.num_values:
+            raise ValueError(
+                f'Tuple length {len(values)} does not match its type hint, expected '
+                f'{self.serializer.num_values}'
+            )
+
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         data = serializer.pack(*values)
         self.size = serializer.size
@@ -51,11 +59,13 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
-- 
2.43.0

