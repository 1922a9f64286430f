From bfdce871a6d71a4fe3045b227469e102e148b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:30 +0000
Subject: [PATCH 01/37] fix: pairwise() of an empty iterable yields nothing
 instead of raising RuntimeError

---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From f99f2b5f87911c79dfe327c105843996150ba696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 02/37] fix: unpack header fields by name, so fields declared
 out of offset order are not swapped

---
 segpy/packer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..1c787f0 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -221,7 +221,9 @@ class BijectiveHeaderPacker(HeaderPacker):
         return self._structure.pack(*values)
 
     def _unpack(self, values):
-        return self._header_format_class(*values)
+        # The values are in order of increasing offset, which is not necessarily the order of declaration.
+        kwargs = {names[0]: value for names, value in zip(self._field_name_allocations, values)}
+        return self._header_format_class(**kwargs)
 
 
 class SurjectiveHeaderPacker(HeaderPacker):
-- 
2.43.0


From c50ba776c588237313ca7b8f6f51c33c21e35185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 03/37] fix: include inherited fields when pickling headers

---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From f6faade4d3498bb9d767c2fd966fe199c3f5ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 04/37] fix: preserve blank lines in
 format_extended_textual_header()

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..267bf3d 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -723,7 +723,7 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From 4ca378b3862a3591d7c6abd2f4fc99fc3504ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 05/37] fix: make_sorted_distinct_sequence(sense=None) no
 longer loses the items of an iterator

---
 segpy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..0c6cbdf 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -397,9 +397,9 @@ def make_sorted_distinct_sequence(iterable, sense=SortSense.ascending):
     elif sense is None:
         items = list(iterable)
         if is_sorted(items, reverse=True, distinct=True):
-            sorted_seq = ReversedSequenceView(SortedFrozenSet(iterable))
+            sorted_seq = ReversedSequenceView(SortedFrozenSet(items))
         else:
-            sorted_seq = SortedFrozenSet(iterable)
+            sorted_seq = SortedFrozenSet(items)
     else:
         raise TypeError("sense {} is neither a SortSense nor None".format(sense))
 
-- 
2.43.0


From 76ef865bef8fad62f365d777a613635d9ceea8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 06/37] fix: catalog_traces() never reports progress greater
 than one

---
 segpy/toolkit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 267bf3d..c0fca41 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -388,7 +388,8 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        # The final trace may be declared to extend beyond the end of the file
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -410,13 +411,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + ((1 - _READ_PROPORTION) / 4))
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + ((1 - _READ_PROPORTION) / 2))
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + ((1 - _READ_PROPORTION) * 3 / 4))
 
     line_catalog = line_catalog_builder.create()
 
-- 
2.43.0


From adf0d1e723d80b70ad179b714a9fe5b52a7eed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 07/37] fix: inability to create the cache directory no longer
 prevents reading

---
 segpy/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..54b27c0 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -196,8 +196,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
-- 
2.43.0


From 6fb537e84ee2151a66fdd7802d4e1003de66918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 08/37] fix: files without a usable name, or opened by a bytes
 path, can be read with caching enabled

---
 segpy/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 0c6cbdf..fb5e6d9 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -265,9 +265,13 @@ def filename_from_handle(fh):
         be determined.
     """
     try:
-        return fh.name
+        name = fh.name
     except AttributeError:
         return UNKNOWN_FILENAME
+    if isinstance(name, int):
+        # An anonymous file, for which the name is only a file descriptor
+        return UNKNOWN_FILENAME
+    return os.fsdecode(name) if isinstance(name, bytes) else name
 
 
 def now_millis():
-- 
2.43.0


From d068fae8b79e45e0fb9b10396cf28d70f0def7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 09/37] fix: a pickled reader refers to its file by absolute
 path

---
 segpy/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 54b27c0..2bd2bba 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -384,7 +384,8 @@ class SegYReader(Dataset):
 
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_file_name'] = filename
+        # Relative file names would be sensitive to subsequent changes of working directory
+        state['_file_name'] = os.path.abspath(filename)
         state['_file_pos'] = file_pos
         state['_file_mode'] = file_mode
         del state['_fh']
-- 
2.43.0


From 6eecc04c99300afccce68ef2cd79248bd5d59896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 10/37] fix: IBMFloats are equal exactly when their values are
 equal

---
 segpy/ibm_float.py | 37 ++-----------------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7612c8d..2463c02 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -321,41 +321,8 @@ class IBMFloat(Real):
         if not isinstance(rhs, IBMFloat):
             return NotImplemented
 
-        if lhs._data == rhs._data:
-            return True
-
-        lhs_sign = lhs.signbit
-        rhs_sign = rhs.signbit
-
-        if lhs_sign != rhs_sign:
-            return False
-
-        nlhs = lhs.try_normalize()
-        nrhs = rhs.try_normalize()
-
-        if not (nlhs.is_subnormal() or nrhs.is_subnormal()):
-            # Both of the numbers are normalised
-            return nlhs._data == nrhs._data
-
-        # Either or both of the numbers are subnormal
-        lhs_exp16 = nlhs.exp16
-        rhs_exp16 = nrhs.exp16
-
-        lhs_mantissa = nlhs.int_mantissa
-        rhs_mantissa = nrhs.int_mantissa
-
-        if lhs_exp16 < rhs_exp16:
-            delta_exp16 = rhs_exp16 - lhs_exp16
-            lhs_mantissa >>= 4 * delta_exp16
-            lhs_exp16 += delta_exp16
-
-        if lhs_exp16 > rhs_exp16:
-            delta_exp16 = lhs_exp16 - rhs_exp16
-            rhs_mantissa >>= 4 * delta_exp16
-            rhs_exp16 += delta_exp16
-
-        assert lhs_exp16 == rhs_exp16
-        return lhs_mantissa == rhs_mantissa
+        # There can be more than one representation of the same value
+        return lhs._data == rhs._data or lhs.as_integer_ratio() == rhs.as_integer_ratio()
 
     @property
     def exp16(self):
-- 
2.43.0


From ef41415bfcfb184eacdda0e1f3b8be1f68f5a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 11/37] fix: data can be read with trace header formats without
 line numbers, such as TraceHeaderRev0

---
 segpy/toolkit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index c0fca41..a3513c7 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -365,15 +365,20 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     if not callable(progress_callback):
         raise TypeError("catalog_traces(): progress callback must be callable")
 
+    # Revision 0 trace headers have neither inline nor crossline numbers
+    has_line_numbers = (hasattr(trace_header_format, 'inline_number')
+                        and hasattr(trace_header_format, 'crossline_number'))
+
     class CatalogSubFormat(metaclass=SubFormatMeta,
                            parent_format=trace_header_format,
                            parent_field_names=(
                                'file_sequence_num',
                                'ensemble_num',
                                'num_samples',
+                           ) + ((
                                'inline_number',
                                'crossline_number',
-                           )):
+                           ) if has_line_numbers else ())):
         pass
 
     trace_header_packer = make_header_packer(CatalogSubFormat, endian)
@@ -401,9 +406,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         samples_bytes = num_samples * bps
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
-        line_catalog_builder.add((trace_header.inline_number,
-                                  trace_header.crossline_number),
-                                 trace_number)
+        if has_line_numbers:
+            line_catalog_builder.add((trace_header.inline_number,
+                                      trace_header.crossline_number),
+                                     trace_number)
         cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
         pos_begin = pos_end
@@ -419,7 +425,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog = cdp_catalog_builder.create()
     progress_callback(_READ_PROPORTION + ((1 - _READ_PROPORTION) * 3 / 4))
 
-    line_catalog = line_catalog_builder.create()
+    line_catalog = line_catalog_builder.create() if has_line_numbers else None
 
     progress_callback(1)
 
-- 
2.43.0


From 224a0ba6c0ef1065097147ce3ff2c5760fdad34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:11 +0000
Subject: [PATCH 12/37] fix: headers containing the known erroneous variants of
 SEG Y revision 1 can be read

---
 segpy/revisions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segpy/revisions.py b/segpy/revisions.py
index 2c87910..0a44fa0 100644
--- a/segpy/revisions.py
+++ b/segpy/revisions.py
@@ -19,6 +19,11 @@ class SegYRevision(IntEnum):
     REVISION_0 = 0x0000
     REVISION_1 = 0x0100
 
+    @classmethod
+    def _missing_(cls, value):
+        # Common, but erroneous, variants are seen in the wild
+        return VARIANTS.get(value) if isinstance(value, int) else None
+
 
 VARIANTS = {
     SegYRevision.REVISION_0: SegYRevision.REVISION_0,  # Ensure that SEGY_REVISION_0 maps to itself
-- 
2.43.0


From 2e8e6a8fda667dd3425aa1c8c06d9dd0375b02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:11 +0000
Subject: [PATCH 13/37] fix: non-negative trace header fields can be extracted
 to numpy arrays

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..50bbb5c 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -4,9 +4,12 @@ import numpy
 
 NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
+                'nnint32': numpy.dtype('u4'),
                 'int16':   numpy.dtype('i2'),
+                'nnint16': numpy.dtype('u2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint8':  numpy.dtype('u1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From 9b3f8b4e7e31f115284b50ae1a1b68172a044244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:11 +0000
Subject: [PATCH 14/37] fix: empty and single-item subsets of a range are
 recognised as subsets

---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..916a7a5 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -4,11 +4,13 @@ from segpy.util import make_sorted_distinct_sequence
 def is_range_superset_of_range(superset_range, subset_range):
     """Are all the elements of subset_range elements of superset_range?
     """
-    if subset_range.start not in superset_range:
+    if len(subset_range) == 0:
+        return True
+    if subset_range[0] not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
+    if len(subset_range) > 1 and subset_range.step % superset_range.step != 0:
         return False
-    if subset_range[-1] > superset_range[-1]:
+    if subset_range[-1] not in superset_range:
         return False
     assert set(subset_range).issubset(set(superset_range))
     return True
-- 
2.43.0


From 89509e088a89d8d10c9ccec3c88501b9cd29f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:11 +0000
Subject: [PATCH 15/37] fix: extract_trace() accepts any trace index, and
 traces of any length

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..77ebdc3 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -165,15 +165,13 @@ def extract_trace(reader, trace_index, sample_numbers):
     Returns:
         A one-dimensional array.
     """
-    if not reader.has_trace_index(trace_index):
-        raise ValueError("Inline number {} not present in {}".format(trace_index, reader))
+    if not (0 <= trace_index < reader.num_traces()):
+        raise ValueError("Trace index {} not present in {}".format(trace_index, reader))
 
-    sample_numbers = ensure_superset(range(0, reader.max_num_trace_samples()), sample_numbers)
+    sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
 
-    trace_sample_start = sample_numbers[0]
-    trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
-    trace_samples = reader.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
-    arr = np.fromiter((trace_samples[sample_number - trace_sample_start] for sample_number in sample_numbers),
+    trace_samples = reader.trace_samples(trace_index)
+    arr = np.fromiter((trace_samples[sample_number] for sample_number in sample_numbers),
                       make_dtype(reader.data_sample_format))
     return arr
 
-- 
2.43.0


From 7570a1e6cadb2ed198ea2bd4e9a9646a5bb8c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 16/37] fix: inlines and crosslines with traces of differing
 lengths can be extracted

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 77ebdc3..1fa1a8e 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -232,7 +232,7 @@ def extract_inline_3d(reader_3d, inline_number, xline_numbers=None, sample_numbe
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0:
         _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array)
     else:
         _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numbers, sample_numbers, array)
@@ -246,11 +246,10 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < num_trace_samples:
+                    array[xline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -262,7 +261,8 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            trace_sample_values = trace_samples[source_slice]
+            array[xline_index, :len(trace_sample_values)] = trace_sample_values
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -321,7 +321,7 @@ def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_number
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0:
         _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array)
     else:
         _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbers, sample_numbers, array)
@@ -335,11 +335,10 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < num_trace_samples:
+                    array[inline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -351,7 +350,8 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            trace_sample_values = trace_samples[source_slice]
+            array[inline_index, :len(trace_sample_values)] = trace_sample_values
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
-- 
2.43.0


From d69917d1c183104864ab72d6a19c4c0341c1506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 17/37] fix: timeslices of traces with differing lengths can be
 extracted

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 1fa1a8e..10b078e 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -405,6 +405,9 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
         AttributeError: If the the named fields do not exist in the trace header definition.
     """
 
+    if not (0 <= sample_number < reader_3d.max_num_trace_samples()):
+        raise ValueError("Sample number {} not present in {}".format(sample_number, reader_3d))
+
     inline_numbers = ensure_superset(reader_3d.inline_numbers(), inline_numbers)
     xline_numbers = ensure_superset(reader_3d.xline_numbers(), xline_numbers)
     shape = (len(inline_numbers), len(xline_numbers))
@@ -417,6 +420,8 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
             inline_xline_number = (inline_number, xline_number)
             if reader_3d.has_trace_index(inline_xline_number):
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
+                if sample_number >= reader_3d.num_trace_samples(trace_index):
+                    continue
                 trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
                 array[inline_index, xline_index] = trace_samples[0]
     return array
-- 
2.43.0


From fcc6de68e3dfff74600b7e3d6427cf5407318135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:28 +0000
Subject: [PATCH 18/37] fix: cached readers are not used with changed
 definitions of the header formats

---
 segpy/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 2bd2bba..ac3e228 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -142,7 +142,9 @@ def create_reader(
     cache_file_path = None
 
     if cache_directory is not None:
-        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian)
+        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian,
+                             _header_format_fields(binary_reel_header_format),
+                             _header_format_fields(trace_header_format))
         seg_y_path = filename_from_handle(fh)
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
@@ -159,6 +161,12 @@ def create_reader(
     return reader
 
 
+def _header_format_fields(header_format):
+    """Obtain the fields of a header format, so readers cached with an earlier definition of the format are not used.
+    """
+    return [getattr(header_format, name) for name in header_format.ordered_field_names()]
+
+
 def _locate_cache_file(seg_y_path, cache_directory, sha1):
     """Determine the location of the cache file.
 
-- 
2.43.0


From fc521af60e07058715c3170af4d042ccf42be2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:46 +0000
Subject: [PATCH 19/37] fix: datum elevations at receiver groups below the
 vertical datum (i.e. negative) are valid

---
 segpy/trace_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/trace_header.py b/segpy/trace_header.py
index 65a3f26..ca20cd1 100644
--- a/segpy/trace_header.py
+++ b/segpy/trace_header.py
@@ -327,7 +327,7 @@ class TraceHeaderRev0(Header):
         "Source depth below surface (a positive number). The elevation_scalar applies to this value.")
 
     datum_elevation_at_receiver_group = field(
-        NNInt32, offset=53, default=0, documentation=
+        Int32, offset=53, default=0, documentation=
         "Source depth below surface (a positive number). The elevation_scalar applies to this value.")
 
     datum_elevation_at_source = field(
-- 
2.43.0


From 0163d3a33a86b8ddf7f928a1593c65915657b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:11 +0000
Subject: [PATCH 20/37] fix: floor division of IBMFloats equals that of the
 numbers they represent

---
 segpy/ibm_float.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 2463c02..7742b94 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -396,10 +396,10 @@ class IBMFloat(Real):
             return self
 
     def __floordiv__(self, rhs):
-        return floor(float(self) / float(rhs))
+        return floor(float(self) // float(rhs))
 
     def __rfloordiv__(self, lhs):
-        return floor(float(lhs) / float(self))
+        return floor(float(lhs) // float(self))
 
     def __truediv__(self, rhs):
         # Python's 64-bit float has much more precision than this
-- 
2.43.0


From c07d27da53a439c161a98b9859af6811649adce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:34 +0000
Subject: [PATCH 21/37] fix: file handles with an empty name or the name None,
 such as spooled temporary files, are unnamed

---
 segpy/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/util.py b/segpy/util.py
index fb5e6d9..51eebc7 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -271,6 +271,9 @@ def filename_from_handle(fh):
     if isinstance(name, int):
         # An anonymous file, for which the name is only a file descriptor
         return UNKNOWN_FILENAME
+    if not name:
+        # A file-like object without an underlying file
+        return UNKNOWN_FILENAME
     return os.fsdecode(name) if isinstance(name, bytes) else name
 
 
-- 
2.43.0


From f841bb439647c0417140ef65dfe5b950880f8323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:34 +0000
Subject: [PATCH 22/37] fix: readers of archive members, which cannot be
 reopened by name and mode, are not pickled or cached

---
 segpy/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segpy/reader.py b/segpy/reader.py
index ac3e228..0ed44f7 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -387,6 +387,10 @@ class SegYReader(Dataset):
                             .format(self.__class__.__name__, filename))
         file_pos = self._fh.tell()
         file_mode = self._fh.mode
+        if not (isinstance(file_mode, str) and 'b' in file_mode):
+            # For example, a member of an archive
+            raise TypeError("Cannot pickle {} object where file handle has mode {!r}"
+                            .format(self.__class__.__name__, file_mode))
 
         _ = self.max_num_trace_samples()
 
-- 
2.43.0


From 7b7a4ece7b784a79a5c4c4ad8a94edea96e58ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 23/37] fix: cache entries which exist but cannot be read, or
 disappear meanwhile, do not prevent reading

---
 segpy/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 0ed44f7..c1b4e50 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -234,10 +234,15 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
         TypeError: If the pickle could be read, but did not contain a SegYReader.
     """
 
-    if not (cache_file_path.exists() and cache_file_path.is_file()):
+    try:
+        if not (cache_file_path.exists() and cache_file_path.is_file()):
+            return None
+        pickle_file = cache_file_path.open('rb')
+    except OSError as os_error:
+        log.warn("Could not read cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
         return None
 
-    with cache_file_path.open('rb') as pickle_file:
+    with pickle_file:
         try:
             reader = pickle.load(pickle_file)
         except Exception as unpickling_error:
-- 
2.43.0


From abb63a9718f49baf8448f993864ed9f2370702db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:44 +0000
Subject: [PATCH 24/37] fix: names of header attributes which are not fields
 are refused as keyword arguments

---
 segpy/header.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index dc9bdb2..d4ffc90 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -31,13 +31,10 @@ class BaseHeader:
             setattr(self, keyword, arg)
 
         for keyword, arg in kwargs.items():
-            try:
-                getattr(self, keyword)
-            except AttributeError as e:
+            if not isinstance(getattr(type(self), keyword, None), NamedField):
                 raise TypeError("{!r} is not a recognised field name for {!r}"
-                                .format(keyword, self.__class__.__name__)) from e
-            else:
-                setattr(self, keyword, arg)
+                                .format(keyword, self.__class__.__name__))
+            setattr(self, keyword, arg)
 
     _ordered_field_names = tuple()
 
-- 
2.43.0


From 03e8073ba161317cd3c2b9a939df1cec14fd52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 25/37] fix: the file position is restored also when detecting
 the encoding fails

---
 segpy/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 51eebc7..bd7f4e4 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -534,9 +534,11 @@ def collect_attributes(derived_class, base_class, predicate):
 @contextmanager
 def restored_position_seek(fh, pos):
     original = fh.tell()
-    fh.seek(pos)
-    yield
-    fh.seek(original)
+    try:
+        fh.seek(pos)
+        yield
+    finally:
+        fh.seek(original)
 
 
 def cmp(x, y):
-- 
2.43.0


From b5603fe2353d4b47d20ae7db091629430991335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 26/37] fix: is_sorted() with a key is determined by the keys
 of ranges and SortedFrozenSets

---
 segpy/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index bd7f4e4..18e745c 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -335,16 +335,16 @@ def is_sorted(iterable, key=None, reverse=False, distinct=False):
         key = identity
     if reverse:
         if distinct:
-            if isinstance(iterable, range) and iterable.step < 0:
+            if key is identity and isinstance(iterable, range) and iterable.step < 0:
                 return True
             op = operator.gt
         else:
             op = operator.ge
     else:
         if distinct:
-            if isinstance(iterable, range) and iterable.step > 0:
+            if key is identity and isinstance(iterable, range) and iterable.step > 0:
                 return True
-            if isinstance(iterable, SortedFrozenSet):
+            if key is identity and isinstance(iterable, SortedFrozenSet):
                 return True
             op = operator.lt
         else:
-- 
2.43.0


From a2fd1abe042f8f34e649a40c908ef43cf7c6fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 27/37] fix: make_sorted_distinct_sequence() of values which
 are not integers

---
 segpy/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/util.py b/segpy/util.py
index 18e745c..adfa02b 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -1,4 +1,5 @@
 import hashlib
+import numbers
 import operator
 import time
 import os
@@ -443,6 +444,8 @@ def compress_sorted_sequence_to_range(sorted_sequence):
         An ordered sequence which may be a range or may be
         the unaltered argument.
     """
+    if not all(isinstance(item, numbers.Integral) for item in sorted_sequence):
+        return sorted_sequence
     if len(sorted_sequence) == 1:
         return single_item_range(sorted_sequence[0])
     stride = measure_stride(sorted_sequence)
-- 
2.43.0


From d82205e8dcf7c2f78b2d63ed8f04dd34f1624d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 28/37] fix: progress when writing a dataset which reorders or
 selects traces does not decrease or exceed one

---
 segpy/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/writer.py b/segpy/writer.py
index 5a1ddb9..9dbf65c 100644
--- a/segpy/writer.py
+++ b/segpy/writer.py
@@ -53,9 +53,9 @@ def write_segy(fh,
 
     num_traces = dataset.num_traces()
 
-    for trace_index in dataset.trace_indexes():
+    for num_written, trace_index in enumerate(dataset.trace_indexes()):
         write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
         write_trace_samples(fh, dataset.trace_samples(trace_index), dataset.data_sample_format, endian=endian)
-        progress_callback(trace_index / num_traces)
+        progress_callback(num_written / num_traces)
 
     progress_callback(1)
-- 
2.43.0


From 57af727eb453ade4beba348544ae31bbdd07d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 29/37] fix: reversed() of a ReversedSequenceView is an
 iterator

---
 segpy/reversed_sequence_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reversed_sequence_view.py b/segpy/reversed_sequence_view.py
index 1ee4769..58e9cec 100644
--- a/segpy/reversed_sequence_view.py
+++ b/segpy/reversed_sequence_view.py
@@ -23,7 +23,7 @@ class ReversedSequenceView(Sequence):
         return self._sequence.count(item)
 
     def __reversed__(self):
-        return self._sequence
+        return iter(self._sequence)
 
     def index(self, item):
         # TODO: Add support for start and stop
-- 
2.43.0


From b67a372d72fa080858c72566afa0e10ff63a7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 30/37] fix: membership tests of SortedFrozenSets with values
 which are not comparable with the items

---
 segpy/sorted_frozen_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segpy/sorted_frozen_set.py b/segpy/sorted_frozen_set.py
index 0d3f89b..c44420d 100644
--- a/segpy/sorted_frozen_set.py
+++ b/segpy/sorted_frozen_set.py
@@ -40,7 +40,11 @@ class SortedFrozenSet(Sequence, Set):
 
     def index(self, item):
         # TODO: Add support for start and stop
-        index = bisect_left(self._items, item)
+        try:
+            index = bisect_left(self._items, item)
+        except TypeError:
+            # Not comparable with the items, so not one of them
+            raise ValueError("{} not found".format(repr(item)))
         if (index != len(self._items)) and self._items[index] == item:
             return index
         raise ValueError("{} not found".format(repr(item)))
-- 
2.43.0


From 6a624cb5ab2a76255cda1e1966aabd92c64aba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:07 +0000
Subject: [PATCH 31/37] fix: masked timeslices and selected samples of IBM
 floats can be extracted

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 10b078e..15fb3a5 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -249,7 +249,7 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
             trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < num_trace_samples:
-                    array[xline_index, sample_index] = trace_samples[sample_number]
+                    array[xline_index, sample_index] = array.dtype.type(trace_samples[sample_number])
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -338,7 +338,7 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
             trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < num_trace_samples:
-                    array[inline_index, sample_index] = trace_samples[sample_number]
+                    array[inline_index, sample_index] = array.dtype.type(trace_samples[sample_number])
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -423,7 +423,7 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
                 if sample_number >= reader_3d.num_trace_samples(trace_index):
                     continue
                 trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                array[inline_index, xline_index] = trace_samples[0]
+                array[inline_index, xline_index] = array.dtype.type(trace_samples[0])
     return array
 
 
-- 
2.43.0


From f81863c016cbe019f05cd931f7fb2c04d84cb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:06 +0000
Subject: [PATCH 32/37] fix: the exit status of the command line is not lost

---
 segpy/__main__.py | 4 +++-
 segpy/cli.py      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/segpy/__main__.py b/segpy/__main__.py
index fe1517d..e91ab35 100644
--- a/segpy/__main__.py
+++ b/segpy/__main__.py
@@ -1,3 +1,5 @@
+import sys
+
 from segpy import cli
 
-cli.main()
+sys.exit(cli.main())
diff --git a/segpy/cli.py b/segpy/cli.py
index e337904..87b1b89 100644
--- a/segpy/cli.py
+++ b/segpy/cli.py
@@ -106,7 +106,7 @@ def report(args):
 def main(argv=None):
     if argv is None:
         argv = sys.argv[1:]
-    commands(argv)
+    return commands(argv)
 
 
 __doc__ = commands.top_level_doc
-- 
2.43.0


From 319989467fcb7752c873ef054bc92e3a02f9432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 33/37] fix: catalog_traces() of an empty file has no traces

It raised ZeroDivisionError when reporting progress.
---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index a3513c7..200a156 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -394,7 +394,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
 
     for trace_number in count():
         # The final trace may be declared to extend beyond the end of the file
-        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / max(length, 1))
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
-- 
2.43.0


From 52a86adcbb088cb8e92f7920105c760376c323ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 34/37] fix: IBMFloats are ordered exactly among integers and
 fractions

---
 segpy/ibm_float.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7742b94..c5e4b7c 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -478,23 +478,27 @@ class IBMFloat(Real):
 
     def __lt__(self, rhs):
         # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) < float(rhs)
+        # 32-bit IBM float and is much faster, so delegate. It is
+        # compared exactly with numbers of other types.
+        return float(self) < rhs
 
     def __le__(self, rhs):
         # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) <= float(rhs)
+        # 32-bit IBM float and is much faster, so delegate. It is
+        # compared exactly with numbers of other types.
+        return float(self) <= rhs
 
     def __gt__(self, rhs):
         # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) > float(rhs)
+        # 32-bit IBM float and is much faster, so delegate. It is
+        # compared exactly with numbers of other types.
+        return float(self) > rhs
 
     def __ge__(self, rhs):
         # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) >= float(rhs)
+        # 32-bit IBM float and is much faster, so delegate. It is
+        # compared exactly with numbers of other types.
+        return float(self) >= rhs
 
     def __ceil__(self):
         t = trunc(self)
-- 
2.43.0


From fe9b850e5aa7de817654d8df8731cf82b5ed3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 35/37] fix: warnings about the cache are logged without a
 deprecated method

---
 segpy/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index c1b4e50..c57774a 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -210,10 +210,10 @@ def _save_reader_to_cache(reader, cache_file_path):
             try:
                 pickle.dump(reader, cache_file)
             except (AttributeError, pickle.PicklingError, TypeError) as pickling_error:
-                log.warn("Could not pickle {} because {}".format(reader, pickling_error))
+                log.warning("Could not pickle {} because {}".format(reader, pickling_error))
                 pass
     except OSError as os_error:
-        log.warn("Could not cache {} because {}".format(reader, os_error))
+        log.warning("Could not cache {} because {}".format(reader, os_error))
 
 
 def _load_reader_from_cache(cache_file_path, seg_y_path):
@@ -239,7 +239,7 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
             return None
         pickle_file = cache_file_path.open('rb')
     except OSError as os_error:
-        log.warn("Could not read cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
+        log.warning("Could not read cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
         return None
 
     with pickle_file:
@@ -250,8 +250,8 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
             try:
                 cache_file_path.unlink()
             except OSError as os_error:
-                log.warn("Could not remove stale cache entry {} for {} because {}"
-                         .format(cache_file_path, seg_y_path, os_error))
+                log.warning("Could not remove stale cache entry {} for {} because {}"
+                            .format(cache_file_path, seg_y_path, os_error))
             else:
                 log.info("Removed stale cache entry {} for {}".format(cache_file_path, seg_y_path))
             return None
-- 
2.43.0


From 74fd463556b8496dc049be3f877b5d024af2c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 36/37] fix: restoring a reader neither creates nor truncates
 its file

---
 segpy/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index c57774a..a345673 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -404,7 +404,8 @@ class SegYReader(Dataset):
         # Relative file names would be sensitive to subsequent changes of working directory
         state['_file_name'] = os.path.abspath(filename)
         state['_file_pos'] = file_pos
-        state['_file_mode'] = file_mode
+        # The file must be neither created nor truncated when the reader is restored
+        state['_file_mode'] = 'rb'
         del state['_fh']
         return state
 
-- 
2.43.0


From 2254b29429c4672c835b05b046074bec33dddc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 37/37] fix: refuse to pickle readers of members of tar
 archives with TypeError

A handle with a name but without a mode raised AttributeError.
---
 segpy/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index a345673..a448606 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -391,7 +391,7 @@ class SegYReader(Dataset):
             raise TypeError("Cannot pickle {} object where file handle has filename {!r}"
                             .format(self.__class__.__name__, filename))
         file_pos = self._fh.tell()
-        file_mode = self._fh.mode
+        file_mode = getattr(self._fh, 'mode', None)
         if not (isinstance(file_mode, str) and 'b' in file_mode):
             # For example, a member of an archive
             raise TypeError("Cannot pickle {} object where file handle has mode {!r}"
-- 
2.43.0

