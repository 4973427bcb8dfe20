From cdac6905a58602d1214b8c9339b0be47ab3cd4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 01/26] fix: pad short logical record segments instead of
 refusing to write them

Records (or last segments) shorter than 12 bytes get flagged pad bytes, and every accepted
visible record length (20 and up) can be used.
---
 .../logical_record/logical_record_bytes.py    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..0200cb5 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -69,26 +69,27 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
             is_last=is_last
         )
 
-        size = n_bytes + 4  # adding header size - 4 bytes
+        size = max(n_bytes, 12) + 4  # segment body cannot be shorter than 12 bytes; adding header size - 4 bytes
         if size % 2:
             # total segment size must be even; if the number of bytes is odd, add a padding byte
             size += 1
+
+        n_pad_bytes = size - 4 - n_bytes
+        if n_pad_bytes:
             segment_attributes.has_padding = True
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            # add the promised padding; the last pad byte holds the number of all pad bytes
+            new_bts += self.padding * (n_pad_bytes - 1) + RepC.USHORT.convert(n_pad_bytes)
 
         return new_bts, size
 
@@ -108,19 +109,19 @@ class LogicalRecordBytes:
         """
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < 12:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than 12 (got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
+            if 0 < future_remaining_size < 12 and n_bytes + future_remaining_size >= 24:
                 # the next segment would be shorter than 12 bytes, and this is not allowed
                 # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
+                # (if there are too few bytes for two segments of at least 12 bytes, the next one is padded instead)
                 n_bytes -= (12 - future_remaining_size)
                 future_remaining_size = 12
 
-- 
2.43.0


From b1855597eecd27d050a4bfb62ac2dae74108565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 02/26] fix: keep no-format payloads as they are, leaving
 minimum-length padding to the segments

---
 .../logical_record/iflr_types/no_format_frame_data.py  | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From c642dd113cb95c8fe8312282e84df052aad76883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 03/26] fix: apply from_idx when slicing a structured source
 array directly

---
 src/dliswriter/utils/source_data_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..8059fa4 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -330,7 +330,9 @@ class NumpyDataWrapper(SourceDataWrapper):
         """
 
         if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
+            if stop is None:
+                stop = self._n_rows
+            return self._data_source[self._from_idx + start:self._from_idx + stop]
 
         return super().load_chunk(start, stop)
 
-- 
2.43.0


From 65a9eb7208304ff52528595d095458e200efac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 04/26] fix: load input data in native byte order so that
 big-endian sources are not written byte-swapped

---
 src/dliswriter/utils/source_data_wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 8059fa4..6f5909f 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -108,6 +108,8 @@ class SourceDataWrapper(ABC):
             # determine the numpy number dtype
             number_type = known_dtypes.get(dtype_name, dset_row0.dtype)
             ReprCodeConverter.validate_numpy_dtype(number_type)
+            # the chunks are always in the native byte order; byte-swapping is done when frame data are written
+            number_type = np.dtype(number_type).newbyteorder('=')
 
             # determine the dtype of the data set (2- or 3-tuple)
             dt = (dtype_name, number_type)
-- 
2.43.0


From 2086e3d35f7b7bfbbe5b9c1e9e6e350bdc6e2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 05/26] fix: refuse source datasets with different numbers of
 rows

---
 src/dliswriter/utils/source_data_wrappers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 6f5909f..a65bdf6 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -175,6 +175,13 @@ class SourceDataWrapper(ABC):
 
         return chunk
 
+    def _check_row_counts(self) -> None:
+        """Check that all the data sets to be loaded have the same number of rows."""
+
+        row_counts = {name: self._data_source[name].shape[0] for name in self._mapping.values()}
+        if len(set(row_counts.values())) > 1:
+            raise ValueError(f"All data sets must have the same number of rows; got {row_counts}")
+
     def make_chunked_generator(self, chunk_rows: Union[int, None]) -> Generator:
         """Define a generator yielding consecutive chunks of input data with the specified size.
 
@@ -186,6 +193,8 @@ class SourceDataWrapper(ABC):
             Structured numpy.ndarray objects with the consecutive chunks of the source data.
         """
 
+        self._check_row_counts()
+
         if chunk_rows is None:
             chunk_rows = self._n_rows
             n_full_chunks = 1
-- 
2.43.0


From 2df9b1a120d1219d8af5168db9681f0da3e2c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 06/26] fix: refuse row windows outside of the data and
 non-positive input chunk sizes

---
 src/dliswriter/file/multi_frame_data.py      | 2 ++
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..a3922bc 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Input chunk size must be a positive number of rows; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index a65bdf6..87637e1 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,6 +50,10 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
-- 
2.43.0


From 3023e4239625e5636d9dfed3c291a9ffabd2629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 07/26] fix: derive frame index metadata from the values
 written, without integer overflow or NaN spacing

---
 src/dliswriter/logical_record/eflr_types/frame.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..c1e3eaa 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -99,6 +99,8 @@ class FrameItem(EFLRItem):
 
         index_channel: ChannelItem = self.channels.value[0]
         index_data = data[index_channel.name][:]
+        # describe the values which will actually be written - i.e. after casting, if any
+        index_data = index_data.astype(data.dtype[index_channel.name].base, copy=False)
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
@@ -118,6 +120,8 @@ class FrameItem(EFLRItem):
             if index_data.ndim != 1:
                 raise RuntimeError(f"Index channel's data must be 1-dimensional; got {index_data.ndim} dimensions "
                                    f"for {index_channel} of {self}")
+            if index_data.shape[0] < 2:
+                return  # neither spacing nor direction can be determined from a single row
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
             if spacing is None:
@@ -143,7 +147,8 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
-        diff = np.diff(index_data)
+        # compute the differences in a type wide enough to avoid wrapping around (integers) or overflow (floats)
+        diff = np.diff(index_data.astype(np.float64 if index_data.dtype.kind == 'f' else np.int64))
         diff_unique = np.unique(diff)
 
         if (diff_unique == 0).all():
@@ -157,7 +162,7 @@ class FrameItem(EFLRItem):
 
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
-            return diff_unique[0], direction
+            return (diff_unique[0] if np.isfinite(diff_unique[0]) else None), direction
 
         # if not, check if these are minor deviations (can be attributed to numerical accuracy) or not
         median_diff = np.median(diff).item()  # mypy complains that median_diff is a numpy array...
-- 
2.43.0


From 7b3d1d6473193d84859b68cdc1e6bb434a0fd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 08/26] fix: do not reuse cached bytes for values which are
 equal but not identical or for objects which have changed

---
 .../logical_record/core/eflr/eflr_item.py         |  3 +--
 src/dliswriter/utils/internal/struct_writer.py    | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..16f4ade 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING, Any, Union, Optional, Generator
 import numpy as np
 
@@ -158,7 +157,7 @@ class EFLRItem:
 
         return super().__setattr__(key, value)
 
-    @cached_property
+    @property
     def obname(self) -> bytes:
         """Create OBNAME bytes of this item - bytes used to identify an item in the file.
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..e4d2763 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -137,6 +137,10 @@ _struct_dict = {
 
 
 @lru_cache(maxsize=65536)
+def _write_struct_cached(representation_code: RepresentationCode, value: Any) -> bytes:
+    return _write_struct(representation_code, value)
+
+
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
@@ -148,6 +152,17 @@ def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
         Value converted to bytes depending on representation_code and RP66 V1 spec.
     """
 
+    # Values of other types cannot be cached: they can compare equal and still have different representations
+    # (e.g. 0.0 and -0.0) or - like EFLR items - change over time.
+    if type(value) in (str, int):
+        return _write_struct_cached(representation_code, value)
+
+    return _write_struct(representation_code, value)
+
+
+def _write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
+    """Convert a value to bytes according to the RP66 V1 spec, without caching."""
+
     func = _struct_dict.get(representation_code, None)  # get a converter corresponding to the repr code
     if func:
         return func(value)  # type: ignore  # that's the point, we're calling for any type
-- 
2.43.0


From a2ef18b8ebdab7211806217f658261ecbcaa9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 09/26] fix: encode IDENT values, names, labels, units, and set
 types with a one-byte length; refuse longer ones

---
 .../logical_record/core/attribute/attribute.py  |  6 +++---
 .../logical_record/core/eflr/eflr_set.py        |  6 +++---
 src/dliswriter/utils/internal/struct_writer.py  | 17 +++++++++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index e4d2763..7d9f113 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -73,10 +73,19 @@ def write_struct_ascii(value: Any) -> bytes:
     The first bytes are the number of characters in the value (converted to str).
     """
 
-    value_str = str(value)
+    value_str = value if isinstance(value, str) else str(value)
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as bytes, preceded by its length (a single byte)."""
+
+    value_str = value if isinstance(value, str) else str(value)
+    if len(value_str) > 255:
+        raise ValueError(f"Value cannot be longer than 255 characters; got {len(value_str)}: '{value_str}'")
+    return RepresentationCode.USHORT.convert(len(value_str)) + value_str.encode('ascii')
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +108,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +121,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +137,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From 333fd54ed0fd52f59b7fdb73dd24141c1696a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 10/26] fix: mark attributes with empty value lists as absent

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 16f4ade..d86bbad 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -171,7 +171,7 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
-- 
2.43.0


From 1d33d50aba09b6dde2995f5eab8ba39b85e4e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 11/26] fix: refuse lists for single-valued attributes and
 non-text values for IDENT attributes

---
 .../logical_record/core/attribute/attribute.py           | 2 ++
 src/dliswriter/logical_record/core/attribute/subtypes.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 933f1c5..56e5247 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -188,6 +188,8 @@ class Attribute:
             if not isinstance(value, (list, tuple)):
                 value = [value]
             return [self.converter(v) for v in value]
+        if isinstance(value, (list, tuple)):
+            raise TypeError(f"{self} accepts only a single value; got {type(value)}: {value}")
         return self.converter(value)
 
     @property
diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..d25fe35 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -360,6 +360,15 @@ class IdentAttribute(Attribute):
 
         super().__init__(*args, **kwargs)
 
+        if not self._converter:
+            self._converter = self._check_string
+
+    @staticmethod
+    def _check_string(v: Optional[str]) -> Optional[str]:
+        if v is not None and not isinstance(v, str):
+            raise TypeError(f'Expected a str, got {type(v)}: {v}')
+        return v
+
 
 class PropertiesAttribute(IdentAttribute):
     """Model an attribute representing properties of DLIS objects - Channel, Computation, and Process."""
-- 
2.43.0


From 66bd71f6a4eb24207f6e601d383809aff106a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 12/26] fix: refuse numbers which would be silently rounded:
 integers beyond float precision and numpy fractions as status

---
 .../logical_record/core/attribute/subtypes.py  | 18 ++++++++++++++----
 src/dliswriter/utils/internal/struct_writer.py |  4 ++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index d25fe35..9877935 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -1,5 +1,5 @@
 import logging
-from numbers import Number
+from numbers import Integral, Number
 from datetime import datetime
 from typing import Union, Optional, Any, overload
 
@@ -14,6 +14,16 @@ from dliswriter.utils.internal.types import number_type, dtime_or_number_type
 logger = logging.getLogger(__name__)
 
 
+def _to_float(value: number_type) -> float:
+    """Convert a number to float. Refuse integers which do not have an exact floating-point representation."""
+
+    result = float(value)
+    if isinstance(value, Integral) and int(value) != result:
+        raise ValueError(f"{value} cannot be represented exactly as a floating-point number")
+
+    return result
+
+
 class EFLRAttribute(Attribute):
     """Define an attribute whose value(s) is/are EFLRObject instances.
 
@@ -140,7 +150,7 @@ class DTimeAttribute(Attribute):
             return value
 
         if isinstance(value, Number) and self._allow_float:
-            return float(value)
+            return _to_float(value)
 
         if not isinstance(value, str):
             raise TypeError(f"Expected a datetime object, number, or str; got {type(value)}: {value}")
@@ -247,7 +257,7 @@ class NumericAttribute(Attribute):
         if not isinstance(value, Number):
             raise TypeError(f"Cannot convert a {type(value)} object ({value}) to float")
 
-        return float(value)
+        return _to_float(value)
 
     def _convert_number(self, value: number_type) -> number_type:
         """Convert a provided value according to the attribute's representation code (or as a float)."""
@@ -306,7 +316,7 @@ class StatusAttribute(Attribute):
         if isinstance(val, bool):
             return int(val)
 
-        if isinstance(val, float) and val % 1:
+        if isinstance(val, Number) and val % 1:
             raise ValueError(f"Status cannot be a fraction; got {val}")
 
         val = int(val)
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 7d9f113..226619a 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -176,4 +176,8 @@ def _write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     if func:
         return func(value)  # type: ignore  # that's the point, we're calling for any type
 
+    if isinstance(value, int) and representation_code in (RepresentationCode.FSINGL, RepresentationCode.FDOUBL):
+        if representation_code.decode_bytes(representation_code.convert(value))[0] != value:
+            raise ValueError(f"{value} cannot be represented exactly as {representation_code.name}")
+
     return representation_code.convert(value)  # if no converter was found, use the one built in the enum
-- 
2.43.0


From 4c445a3802a085b6da6d209ee642ebbe2086ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 13/26] fix: register an item with its set only after all of
 its attributes have been accepted

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 10 ++++++----
 src/dliswriter/logical_record/eflr_types/channel.py  |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index d86bbad..e34f207 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -60,19 +60,21 @@ class EFLRItem:
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
-        self._parent.register_item(self)
 
         #: origin reference value, common for records sharing origin
         self._origin_reference: Union[int, None] = self._validate_origin_reference(origin_reference, allow_none=True)
 
-        #: copy number of the item - ith EFLRItem of the same name and type
-        self._copy_number = self._compute_copy_number()
-
         for attribute in self.attributes.values():
             attribute.parent_eflr = self
 
         self.set_attributes(**{k: v for k, v in kwargs.items() if v is not None})
 
+        # only register the item once all of its attributes have been accepted
+        self._parent.register_item(self)
+
+        #: copy number of the item - ith EFLRItem of the same name and type
+        self._copy_number = self._compute_copy_number()
+
     @property
     def parent(self) -> "EFLRSet":
         """EFLRSet instance that this EFLRItem is a part of."""
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..df5edf2 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -73,11 +73,11 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self.minimum_value = NumericAttribute('minimum_value', representation_code=RepC.FDOUBL, multivalued=True)
         self.maximum_value = NumericAttribute('maximum_value', representation_code=RepC.FDOUBL, multivalued=True)
 
-        super().__init__(name, parent=parent, **kwargs)
-
         self._dataset_name: Union[str, None] = dataset_name
         self._set_cast_dtype(cast_dtype)
 
+        super().__init__(name, parent=parent, **kwargs)
+
     @property
     def dataset_name(self) -> str:
         """Name of the data corresponding to this channel in the SourceDataWrapper."""
-- 
2.43.0


From 0e6ba537580859a03656d844fe1591707c62fb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 14/26] fix: reject sets shared between logical files; forget
 sets left empty by rejected calls

---
 src/dliswriter/file/eflr_sets_dict.py         | 27 +++++++++++++++++--
 src/dliswriter/file/file.py                   |  2 ++
 .../logical_record/core/eflr/eflr_set.py      |  6 ++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..008414f 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -34,7 +34,20 @@ class EFLRSetsDict(defaultdict):
         self[eflr_set.__class__][eflr_set.set_name] = eflr_set
 
     def try_add_set(self, eflr_set: EFLRSet) -> bool:
-        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise."""
+        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise.
+
+        A set holding objects of one logical file cannot be used in another one; a RuntimeError is raised in such case.
+        """
+
+        self._remove_empty_sets()
+
+        owner = eflr_set.sets_dict
+        if owner is not None and owner is not self:
+            if eflr_set.n_items:
+                raise RuntimeError(f"{eflr_set} is already used in another logical file; please use a different "
+                                   f"set name for the objects of this type")
+            owner._remove_empty_sets()
+        eflr_set.sets_dict = self
 
         if eflr_set.set_name in self[eflr_set.__class__]:
             return False
@@ -42,6 +55,16 @@ class EFLRSetsDict(defaultdict):
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
             return True
 
+    def _remove_empty_sets(self) -> None:
+        """Remove sets to which no items have been added (because creating the items failed)."""
+
+        for eflr_set_type, eflr_set_dict in list(self.items()):
+            for set_name, eflr_set in list(eflr_set_dict.items()):
+                if not eflr_set.n_items:
+                    del eflr_set_dict[set_name]
+            if not eflr_set_dict:
+                del self[eflr_set_type]
+
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
         """Given an EFLRSet subclass and name, either retrieve a relevant EFLRSet from the structure or create it.
 
@@ -69,5 +92,5 @@ class EFLRSetsDict(defaultdict):
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        for value in self.get(eflr_set_type, {}).values():
             yield from value.get_all_eflr_items()
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..d92074d 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -116,6 +116,8 @@ class DLISFile:
         for idx_lf, logical_file in enumerate(self.logical_files):
             yield logical_file.file_header_item.parent
 
+            logical_file._eflr_sets._remove_empty_sets()
+
             yield from logical_file._eflr_sets[eflr_types.OriginSet].values()
 
             for set_type, set_dict in logical_file._eflr_sets.items():
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..151c53f 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,11 +1,14 @@
 import logging
-from typing import Optional
+from typing import Optional, TYPE_CHECKING
 
 from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
 
+if TYPE_CHECKING:
+    from dliswriter.file.eflr_sets_dict import EFLRSetsDict
+
 
 logger = logging.getLogger(__name__)
 
@@ -30,6 +33,7 @@ class EFLRSet(LogicalRecord):
 
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
+        self.sets_dict: "Optional[EFLRSetsDict]" = None  # EFLRSetsDict of the logical file which this set belongs to
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
-- 
2.43.0


From 63b7225d10850fcf2c3d0888eca3818834639917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 15/26] fix: include file headers in the number of logical
 records

---
 src/dliswriter/file/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index d92074d..8ed787f 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -167,7 +167,7 @@ class DLISFile:
                 ]
             )
 
-        n = 0
+        n = len(self.logical_files)  # one file header per logical file
         for eflr_set_type in self._eflr_sets:
             n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
 
-- 
2.43.0


From 3222c28e3d6f10b51a538d65efb9f4446ff4eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 16/26] fix: respect explicit origin reference 0; only assign
 the first origin to objects of the same logical file

---
 src/dliswriter/file/file.py | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 8ed787f..da209bb 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -313,6 +313,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _get_origin_reference(self, origin_reference: Optional[int]) -> Optional[int]:
+        """Return the provided origin reference or - if it is None - the reference of the defining origin."""
+
+        return self.default_origin_reference if origin_reference is None else origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -375,7 +380,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ax
@@ -451,7 +456,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -530,7 +535,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -672,7 +677,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -762,7 +767,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         if data is not None:
@@ -827,7 +832,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -899,7 +904,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -1016,7 +1021,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return eq
@@ -1129,7 +1134,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return fr
@@ -1175,7 +1180,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return g
@@ -1275,7 +1280,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ln
@@ -1326,7 +1331,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -1375,7 +1380,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return nf
@@ -1406,7 +1411,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1548,7 +1553,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1584,11 +1589,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
@@ -1649,7 +1649,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1772,7 +1772,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1848,7 +1848,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1900,7 +1900,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return sp
@@ -1961,7 +1961,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return t
@@ -2051,7 +2051,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return w
@@ -2112,7 +2112,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return z
-- 
2.43.0


From c7f100be3d694ac6d80d6bba2136bc6640aa4050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 17/26] fix: make sure that objects are uniquely identified and
 that references resolve within the logical file

---
 src/dliswriter/file/file.py                   | 34 +++++++++++++++++++
 .../iflr_types/no_format_frame_data.py        |  5 +++
 2 files changed, 39 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index da209bb..5344a14 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -2123,6 +2123,40 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_identities_and_references()
+
+    def _check_identities_and_references(self) -> None:
+        """Make sure that all objects of the file can be told apart and all references can be resolved in this file.
+
+        Copy numbers are assigned anew, because objects might have been renamed after they had been created.
+        """
+
+        items: list[EFLRItem] = [self.file_header_item]
+        for set_type in self._eflr_sets:
+            counts: dict[str, int] = {}
+            for item in self._eflr_sets.get_all_items_for_set_type(set_type):
+                item._copy_number = counts.get(item.name, 0)
+                counts[item.name] = item._copy_number + 1
+                items.append(item)
+
+        item_ids = {id(item) for item in items}
+        origin_references = {o.origin_reference for o in self.origins}
+
+        for item in items:
+            if item.origin_reference not in origin_references:
+                raise RuntimeError(f"Origin reference of {item} is {item.origin_reference}; there is no such Origin in "
+                                   f"the logical file (available origin references: {origin_references})")
+
+            for attr in item.attributes.values():
+                values = attr.value if isinstance(attr.value, (list, tuple)) else [attr.value]
+                for value in attr.flatten_list(values):
+                    if isinstance(value, EFLRItem) and id(value) not in item_ids:
+                        raise RuntimeError(f"{value}, referenced in {attr}, is not a part of the logical file")
+
+        for nf_data in self._no_format_frame_data:
+            if id(nf_data.no_format_object) not in item_ids:
+                raise RuntimeError(f"{nf_data.no_format_object}, to which no-format data have been added, "
+                                   f"is not a part of the logical file")
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index b9de52f..8264d4a 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -15,6 +15,11 @@ class NoFormatFrameData(IFLR):
 
         super().__init__()
 
+        if not isinstance(no_format_object, NoFormatItem):
+            raise TypeError(f"Expected a NoFormatItem; got {type(no_format_object)}: {no_format_object}")
+        if not isinstance(data, (str, bytes, bytearray)):
+            raise TypeError(f"Expected str, bytes, or bytearray; got {type(data)}: {data}")
+
         self.no_format_object = no_format_object
         self.data = data
 
-- 
2.43.0


From c06032b2577615e317e47b67022dc1d177b19e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 18/26] fix: correct the spelling of the 'Panel' equipment type

---
 src/dliswriter/utils/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/enums.py b/src/dliswriter/utils/enums.py
index c971d3e..fc1b0e9 100644
--- a/src/dliswriter/utils/enums.py
+++ b/src/dliswriter/utils/enums.py
@@ -179,7 +179,7 @@ class EquipmentType(ValidatorEnum):
     NUCLEAR_DETECTOR = "Nuclear-Detector"
     PACKER = "Packer"
     PAD = "Pad"
-    PANE = "Pane"
+    PANE = "Panel"
     POSITIONING = "Positioning"
     PRINTER = "Printer"
     RADIOACTIVE_SOURCE = "Radioactive-Source"
-- 
2.43.0


From 42e0b87709cd48bd41f16e34d48ad655438cf2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 19/26] fix: warn about names outside of the high-compatibility
 character set

---
 src/dliswriter/utils/internal/value_checkers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..10007b3 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,8 +1,10 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
+logger = logging.getLogger(__name__)
 
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
@@ -18,10 +20,12 @@ def validate_string(s: str) -> str:
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
+        if not global_config.high_compat_mode:
+            logger.warning(f"Strings other than uppercase characters, digits, dashes, and underscores might cause "
+                           f"issues in some viewer software; got {repr(s)}")
+            return s
+
         raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
                          f"dashes, and underscores; got {repr(s)}")
 
-- 
2.43.0


From 96a363e6884b9e7a8dd3d3e2e22a5a2da308e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 20/26] fix: refuse to write a file without logical files, with
 improper file headers, or with several sets of the same type and name

---
 src/dliswriter/file/file.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 5344a14..57d97eb 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -178,6 +178,21 @@ class DLISFile:
 
         return SizedGenerator(self.generator(multi_frame_data_objects), size=n)
 
+    def _check_logical_files(self) -> None:
+        """Check that there are any logical files and that each of them has its own file header and sets."""
+
+        if not self.logical_files:
+            raise RuntimeError("No logical files defined")
+
+        headers = [lf.file_header_item.parent for lf in self.logical_files]
+        if any(header.n_items != 1 for header in headers) or len({id(header) for header in headers}) < len(headers):
+            raise RuntimeError("Each logical file should have its own header set with a single header object in it")
+
+        for lf in self.logical_files:
+            sets = [(s.set_type, s.set_name or None) for st in lf._eflr_sets.values() for s in st.values() if s.n_items]
+            if len(set(sets)) < len(sets):
+                raise RuntimeError(f"Types and names of the sets of a logical file should be unique; got {sets}")
+
     def write(
         self,
         dlis_file_name: file_name_type,
@@ -205,6 +220,8 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            self._check_logical_files()
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From c8ff1f07d473a3829b48c62d43dd27bed6c95653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 21/26] fix: do not let values determined in one write affect
 the next ones

---
 src/dliswriter/file/file.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 57d97eb..a14c0d7 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,7 +3,7 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
-from typing import Any, Union, Optional, TypeVar, Generator
+from typing import Any, Callable, Union, Optional, TypeVar, Generator
 import numpy as np
 from timeit import timeit
 from datetime import timedelta, datetime
@@ -178,6 +178,27 @@ class DLISFile:
 
         return SizedGenerator(self.generator(multi_frame_data_objects), size=n)
 
+    def _store_item_state(self) -> Callable[[], None]:
+        """Store the current state of all objects in the file. Return a function which brings that state back."""
+
+        attrs = []
+        channels = []
+        for lf in self.logical_files:
+            for eflr_set_type in lf._eflr_sets:
+                for item in lf._eflr_sets.get_all_items_for_set_type(eflr_set_type):
+                    attrs.extend((attr, attr._value, attr._units) for attr in item.attributes.values())
+                    if isinstance(item, eflr_types.ChannelItem):
+                        channels.append((item, item._cast_dtype))
+
+        def restore() -> None:
+            for attr, value, units in attrs:
+                attr._value = value
+                attr._units = units
+            for channel, cast_dtype in channels:
+                channel._cast_dtype = cast_dtype
+
+        return restore
+
     def _check_logical_files(self) -> None:
         """Check that there are any logical files and that each of them has its own file header and sets."""
 
@@ -241,7 +262,13 @@ class DLISFile:
                 logical_records, output_chunk_size=output_chunk_size
             )
 
-        exec_time = timeit(timed_func, number=1)
+        restore_items = self._store_item_state()
+        try:
+            exec_time = timeit(timed_func, number=1)
+        finally:
+            # values determined for this particular write should not affect any further writes
+            restore_items()
+
         logger.info(
             f"DLIS file created in {timedelta(seconds=exec_time)} ({exec_time} seconds)"
         )
@@ -2256,9 +2283,8 @@ class LogicalFile:
             data = {}
 
         if isinstance(data, dict):
-            self._data_dict = self._data_dict | data
             data_object = DictDataWrapper(
-                self._data_dict,
+                self._data_dict | data,
                 mapping=fr.channel_name_mapping,
                 known_dtypes=fr.known_channel_dtypes_mapping,
                 from_idx=from_idx,
-- 
2.43.0


From f2c50d412d4b6876181ad07f167fa8ebba10d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 22/26] fix: refuse storage unit sequence numbers which are not
 positive integers

---
 src/dliswriter/logical_record/misc/storage_unit_label.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..31f06dc 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -72,6 +72,9 @@ class StorageUnitLabel:
             Logical Records - other objects handled in the same loops as the SUL.
         """
 
+        if not isinstance(self.sequence_number, int) or self.sequence_number < 1:
+            raise ValueError(f"Sequence number must be a positive integer; got {self.sequence_number}")
+
         # Storage Unit Sequence Number
         _susn_as_bytes = get_ascii_bytes(str(self.sequence_number), 4)
 
-- 
2.43.0


From 654895f3673f5a0b5c6261ee5f636d81dac22e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 23/26] fix: reference the source of a computation by its type
 and name, as its type is not fixed

---
 src/dliswriter/logical_record/eflr_types/computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 52ad2fd..9990518 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -5,7 +5,7 @@ from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, DimensionedIt
 from dliswriter.logical_record.eflr_types.axis import AxisSet
 from dliswriter.logical_record.eflr_types.zone import ZoneSet
 from dliswriter.logical_record.eflr_types.long_name import LongNameSet
-from dliswriter.utils.internal.internal_enums import EFLRType
+from dliswriter.utils.internal.internal_enums import EFLRType, RepresentationCode as RepC
 from dliswriter.logical_record.core.attribute import (EFLRAttribute, NumericAttribute, DimensionAttribute,
                                                       EFLROrTextAttribute, PropertiesAttribute)
 
@@ -33,7 +33,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
         self.axis = EFLRAttribute('axis', object_class=AxisSet, multivalued=True)
         self.zones = EFLRAttribute('zones', object_class=ZoneSet, multivalued=True)
         self.values = NumericAttribute('values', multivalued=True, multidimensional=True)
-        self.source = EFLRAttribute('source')
+        self.source = EFLRAttribute('source', representation_code=RepC.OBJREF)
 
         super().__init__(name, parent=parent, **kwargs)
 
-- 
2.43.0


From 899b8a0618a1a9ecf3fd7d3ec2c51e34ef9cd85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 24/26] fix: keep the element limit and long name of a channel
 as specified by the user

---
 src/dliswriter/logical_record/eflr_types/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index df5edf2..ae6bc57 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -139,7 +139,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
@@ -197,7 +197,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From 291e931c91c1eaaa7e60fccb1bb43a9dfb15dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 25/26] fix: check the names at write in high-compatibility
 mode, as they might have been changed after objects were created

---
 src/dliswriter/file/file.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index a14c0d7..4b3362a 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -22,6 +22,7 @@ from dliswriter.utils.internal.types import (
     AttrDict,
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
+from dliswriter.utils.internal.value_checkers import validate_string
 from dliswriter.utils import enums
 from dliswriter.logical_record.core.eflr import EFLRItem, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
@@ -205,6 +206,9 @@ class DLISFile:
         if not self.logical_files:
             raise RuntimeError("No logical files defined")
 
+        # names might have been changed since they were last validated
+        validate_string(self.storage_unit_label.set_identifier)
+
         headers = [lf.file_header_item.parent for lf in self.logical_files]
         if any(header.n_items != 1 for header in headers) or len({id(header) for header in headers}) < len(headers):
             raise RuntimeError("Each logical file should have its own header set with a single header object in it")
@@ -2186,6 +2190,9 @@ class LogicalFile:
         item_ids = {id(item) for item in items}
         origin_references = {o.origin_reference for o in self.origins}
 
+        for name in (self.file_header.header_id, *(item.name for item in items)):
+            validate_string(name)  # names might have been changed since the objects were created
+
         for item in items:
             if item.origin_reference not in origin_references:
                 raise RuntimeError(f"Origin reference of {item} is {item.origin_reference}; there is no such Origin in "
-- 
2.43.0


From b7ac46fbef03e926daab06c6f44aaec36c3f8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:17 +0000
Subject: [PATCH 26/26] fix: refuse truth values as storage unit and file
 header sequence numbers

They were written as the text 'True' into a numeric field.
---
 src/dliswriter/logical_record/eflr_types/file_header.py  | 2 +-
 src/dliswriter/logical_record/misc/storage_unit_label.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..6301f4c 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -43,7 +43,7 @@ class FileHeaderItem(EFLRItem):
         if len(header_id) > self.header_id_length_limit:
             raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
 
-        if not isinstance(sequence_number, int):
+        if not isinstance(sequence_number, int) or isinstance(sequence_number, bool):
             raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
         if not 0 < sequence_number <= self.max_sequence_number:
             raise ValueError(f"Sequence number must be a positive integer not larger than {self.max_sequence_number}; "
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 31f06dc..cfd5b5e 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -72,7 +72,8 @@ class StorageUnitLabel:
             Logical Records - other objects handled in the same loops as the SUL.
         """
 
-        if not isinstance(self.sequence_number, int) or self.sequence_number < 1:
+        if (not isinstance(self.sequence_number, int) or isinstance(self.sequence_number, bool)
+                or self.sequence_number < 1):
             raise ValueError(f"Sequence number must be a positive integer; got {self.sequence_number}")
 
         # Storage Unit Sequence Number
-- 
2.43.0

