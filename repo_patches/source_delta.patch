From ba5bf8e920bec2a5e386b9ea87619b702522c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 01/49] fix: use the frame width, not the height, to bin
 non-square frames

---
 python/stempy/io/sparse_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..d48c7a5 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -630,10 +630,10 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From ce3ceda3e3893bb141dd94f4e98b4c5479af5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 02/49] fix: keep extra frames that all have the same length
 when splitting duplicates

---
 python/stempy/io/compatibility.py | 4 +++-
 python/stempy/io/sparse_array.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/compatibility.py b/python/stempy/io/compatibility.py
index 32ccc85..88af7c2 100644
--- a/python/stempy/io/compatibility.py
+++ b/python/stempy/io/compatibility.py
@@ -53,7 +53,9 @@ def convert_data_v1_to_v2(data, scan_positions, scan_shape):
         new_size = ret.shape[0] + len(extra_rows)
         new_data = np.empty(new_size, dtype=object)
         new_data[:ret.shape[0]] = ret
-        new_data[ret.shape[0]:] = extra_rows
+        for i, row in enumerate(extra_rows, ret.shape[0]):
+            # One by one, as equally long rows would become a 2D array
+            new_data[i] = row
         new_scan_positions = np.append(scan_positions,
                                        extra_scan_positions)
 
diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index d48c7a5..5d11503 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -661,7 +661,9 @@ class SparseArray:
             new_size = rows.shape[0] + len(extra_rows)
             new_data = np.empty(new_size, dtype=object)
             new_data[:rows.shape[0]] = rows
-            new_data[rows.shape[0]:] = extra_rows
+            for i, row in enumerate(extra_rows, rows.shape[0]):
+                # One by one, as equally long rows would become a 2D array
+                new_data[i] = row
             new_scan_positions = np.append(new_scan_positions,
                                            extra_scan_positions)
 
-- 
2.43.0


From 8b7ba1bb2c167582164cb3a6e4a43ff0493ded1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 03/49] fix: SparseArray.max() of a scan position without
 counts is 0

---
 python/stempy/io/sparse_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 5d11503..6ca081f 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,8 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                # The max is zero if there are no counts
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
-- 
2.43.0


From 9ae8af1498e2ee0b3dbc409b53780ad705d53abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 04/49] fix: honour the requested dtype in SparseArray.min(),
 max() and mean()

---
 python/stempy/io/sparse_array.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 6ca081f..614ea96 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -42,6 +42,13 @@ def _default_full_expansion(func):
             expanded = self[:]
         finally:
             self.sparse_slicing = prev_sparse_slicing
+
+        dtype = kwargs.get('dtype')
+        if name in ('max', 'min') and dtype is not None:
+            # The numpy versions of these do not take a dtype
+            kwargs = {k: v for k, v in kwargs.items() if k != 'dtype'}
+            return getattr(expanded, name)(*args, **kwargs).astype(dtype)
+
         return getattr(expanded, name)(*args, **kwargs)
     return wrapper
 
@@ -453,7 +460,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -464,7 +471,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -554,7 +561,7 @@ class SparseArray:
             summed[:] /= mean_length
         else:
             # It's a scalar
-            summed /= mean_length
+            summed = np.dtype(dtype).type(summed / mean_length)
 
         return summed
 
@@ -1067,6 +1074,13 @@ class SparseArray:
         return False
 
 
+def _max_value(dtype):
+    if np.issubdtype(dtype, np.integer):
+        return np.iinfo(dtype).max
+
+    return np.finfo(dtype).max
+
+
 def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
-- 
2.43.0


From ad682cd0ea98cb9410d85a84ce166e96025bb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 05/49] fix: keep the counts of every copy when a frame index
 is selected repeatedly

---
 python/stempy/io/sparse_array.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 614ea96..6155bde 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -977,12 +977,21 @@ class SparseArray:
             new_indices = np.arange(len(valid_flat_frame_indices))
             new_frame_indices_map[valid_flat_frame_indices] = new_indices
 
+            # The same frame index may have been selected more than once
+            has_repeats = (len(np.unique(valid_flat_frame_indices)) !=
+                           len(valid_flat_frame_indices))
+
             # Allocate the new data
             new_data = np.empty(new_frames.shape, dtype=object)
 
             # Now set it
             for i, scan_frames in enumerate(new_frames):
                 for j, sparse_frame in enumerate(scan_frames):
+                    if has_repeats:
+                        new_data[i, j] = np.flatnonzero(
+                            np.isin(valid_flat_frame_indices, sparse_frame))
+                        continue
+
                     new_frame = new_frame_indices_map[sparse_frame]
                     new_data[i, j] = copy.deepcopy(new_frame[new_frame >= 0])
         else:
-- 
2.43.0


From 19ffd1d92416520a819fd1f5423bf1fa34e63df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 06/49] fix: let an ellipsis in a SparseArray index stand for
 all missing axes

---
 python/stempy/io/sparse_array.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 6155bde..4b19ba1 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -829,6 +829,21 @@ class SparseArray:
             # Wrap it with a tuple to simplify
             slices = (slices,)
 
+        if any(x is None for x in slices):
+            raise IndexError('Adding new axes is not supported')
+
+        if any(x is Ellipsis for x in slices):
+            # Replace the ellipsis with the slices that it stands for
+            if sum(x is Ellipsis for x in slices) > 1:
+                raise IndexError('Only one ellipsis is allowed')
+
+            i = next(i for i, x in enumerate(slices) if x is Ellipsis)
+            num_used = sum(np.ndim(x) if np.ndim(x) > 1 else 1
+                           for x in slices if x is not Ellipsis)
+            num_missing = max(self.ndim - num_used, 0)
+            slices = (slices[:i] + (NONE_SLICE,) * num_missing +
+                      slices[i + 1:])
+
         if not slices:
             # It's an empty tuple
             return tuple(), tuple()
-- 
2.43.0


From 889463469eed2e29ff46af528f3cfb9c3d07e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 07/49] fix: compute the row of an event with the frame width
 in com_sparse()

---
 python/stempy/image/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..040ea4d 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -409,7 +409,7 @@ def com_v1_kernel(
     replace_nans: bool = True,
 ) -> np.ndarray:
     num_scans = scan_shape[0] * scan_shape[1]
-    frame_x, frame_y = frame_shape
+    frame_y = frame_shape[1]
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
 
@@ -417,11 +417,11 @@ def com_v1_kernel(
         return com.reshape((2, *scan_shape))
 
     # Decode coordinates
-    if frame_x & (frame_x - 1) == 0:  # power of 2
-        shift = int(np.log2(frame_x))
+    if frame_y & (frame_y - 1) == 0:  # power of 2
+        shift = int(np.log2(frame_y))
         x = (all_events_concat >> shift).astype(np.float32)
     else:
-        x = (all_events_concat // frame_x).astype(np.float32)
+        x = (all_events_concat // frame_y).astype(np.float32)
 
     if frame_y & (frame_y - 1) == 0:
         mask = frame_y - 1
@@ -529,7 +529,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
+            x = ev // array.frame_shape[1]
             y = ev % array.frame_shape[1]
             mm0 = len(ev)
             
-- 
2.43.0


From 34cf5d3982f8046a36bc3cdfac1ebe7f9ca579c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 08/49] fix: virtual_darkfield() with non-square frames, 1D
 scans and narrow dtypes

---
 python/stempy/image/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 040ea4d..6b4a703 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -836,11 +836,10 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     if isinstance(radii, (int, float)):
          radii = (radii,)
 
-    rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
+    rs_image = np.zeros((array.num_scans,), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
-            ev_cols = ev % array.frame_shape[1]
+            ev_rows, ev_cols = np.unravel_index(ev, array.frame_shape)
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
                 rs_image[ii] += len(np.where(dist < rr)[0])
-- 
2.43.0


From 6f5c85cef9df805454677833275bdd4b4ddc6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 09/49] fix: repair bad sectors in the first row and column too

---
 python/stempy/image/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 6b4a703..2e8e121 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -637,8 +637,10 @@ def filter_bad_sectors(com, cut_off):
     x, y = np.where(_)
 
     for ii, jj in zip(x, y):
-        com[0, ii, jj] = np.nanmedian(com[0, ii - 1:ii + 2, jj - 1:jj + 2])
-        com[1, ii, jj] = np.nanmedian(com[1, ii - 1:ii + 2, jj - 1:jj + 2])
+        # Stay inside the scan: a negative start would count from the end
+        window = (slice(max(ii - 1, 0), ii + 2), slice(max(jj - 1, 0), jj + 2))
+        com[0, ii, jj] = np.nanmedian(com[0][window])
+        com[1, ii, jj] = np.nanmedian(com[1][window])
     return com
 
 def com_dense(frames):
-- 
2.43.0


From a11b2799c66782a278e0240a540776d769590bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 10/49] fix: save electron counts correctly when all frames
 have equally many events

---
 python/stempy/io/sparse_array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 4b19ba1..a5ea1bc 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -283,7 +283,12 @@ class SparseArray:
             frames.attrs['Nx'] = self.frame_shape[0]
             frames.attrs['Ny'] = self.frame_shape[1]
 
-            frames[...] = data.ravel()
+            flat_data = data.ravel()
+            if len({len(x) for x in flat_data}) == 1:
+                # h5py only recognizes rows of equal length in a 2D array
+                flat_data = np.stack(flat_data).astype(np.uint32)
+
+            frames[...] = flat_data
 
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
-- 
2.43.0


From 54fb98ec11984e464e26642231131a4ac4290534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 11/49] fix: get_scan_path() must not return a file of another
 scan, id or suffix

---
 python/stempy/contrib/__init__.py | 37 ++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index a63d631..0543dcf 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -1,3 +1,4 @@
+import re
 from enum import Enum
 from pathlib import Path
 from typing import Optional, Tuple
@@ -71,19 +72,29 @@ def get_scan_path_version_0(
             else f"data_scan{scan_num}*electrons{file_suffix.value}.{filetype}"
         )
 
-    file_path = list(directory.glob(file_pattern))
-
-    check_only_one_filepath(file_path)
+    # The wildcards also match longer numbers and other suffixes. Only keep the
+    # files whose name really contains what was asked for.
+    matches = []
+    for path in directory.glob(file_pattern):
+        name_num = re.search(r"(?:^|_)scan(\d+)(?=[_.])", path.name)
+        name_id = re.search(r"_id(\d+)(?=[_.])", path.name)
+        name_num = int(name_num.group(1)) if name_num else None
+        name_id = int(name_id.group(1)) if name_id else None
+        if scan_id is not None and name_id != scan_id:
+            continue
+        if scan_num is not None and name_num not in (scan_num, None):
+            continue
+        if file_suffix == FileSuffix.STANDARD and any(
+            path.stem.endswith(s.value) for s in FileSuffix if s.value
+        ):
+            continue
+        matches.append(
+            (path, scan_num if name_num is None else name_num, name_id)
+        )
 
-    file_path = file_path[0]
-    spl = file_path.name.split("_")
-    for part in spl:
-        if "id" in part:
-            scan_id = int(part[2:])
-        elif "scan" in part:
-            scan_num = int(part[4:])
+    check_only_one_filepath(matches)
 
-    return file_path, scan_num, scan_id
+    return matches[0]
 
 
 def get_scan_path_version_1(
@@ -134,6 +145,10 @@ def get_scan_path_version_1(
         )
 
     file_path = list(directory.glob(file_pattern))
+    if scan_id is not None and scan_num is not None:
+        # The pattern only contains the scan id
+        ending = f"_{str(scan_num).zfill(5)}{file_suffix.value}"
+        file_path = [x for x in file_path if x.stem.endswith(ending)]
     check_only_one_filepath(file_path)
     file_path = file_path[0]
     spl = file_path.stem.split("_")
-- 
2.43.0


From 882bac4503812e61f4bd28ac0d90064fa8c2340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 12/49] fix: refuse sector files whose name gives no valid
 sector number

---
 stempy/reader.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..f8ce71f 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -538,19 +538,27 @@ void SectorStreamReader::openFiles()
 #endif
 
   for (auto& file : m_files) {
-    auto stream = new std::ifstream();
+    auto sector = extractSector(file);
+
+    // The sector determines where the data is placed in the frame, so it must
+    // be one of the detector's
+    if (sector < 0 || sector > 3) {
+      ostringstream msg;
+      msg << "Unable to determine the sector (0 - 3) from the file name: "
+          << file;
+      throw invalid_argument(msg.str());
+    }
+
+    auto stream = std::make_unique<std::ifstream>();
     stream->open(file, ios::in | ios::binary);
 
     if (!stream->is_open()) {
-      delete stream;
       ostringstream msg;
       msg << "Unable to open file: " << file;
       throw invalid_argument(msg.str());
     }
 
-    auto sector = extractSector(file);
-
-    m_streams.emplace_back(stream, sector);
+    m_streams.emplace_back(stream.release(), sector);
   }
 }
 
-- 
2.43.0


From 2638edb4f3a55138dcac3d47b4af254c49a11d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 13/49] fix: treat a truncated record of a sector file as
 missing, in every sector reader

---
 stempy/reader.cpp | 73 ++++++++++++++++++++++++++++++++++++++++-------
 stempy/reader.h   | 49 +++++++++++++++++++++++++------
 2 files changed, 103 insertions(+), 19 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index f8ce71f..dbccbad 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -432,6 +432,13 @@ Block SectorStreamReader::read()
       }
 
       auto header = readHeader();
+      // A truncated header, so there is no more data in this file. The stream
+      // will be removed when we get to it again.
+      if (!*stream) {
+        m_streamsIterator++;
+        continue;
+      }
+
       for (unsigned i = 0; i < header.imagesInBlock; i++) {
         auto pos = header.imageNumbers[i];
         auto& frame = m_frameCache[pos];
@@ -455,7 +462,13 @@ Block SectorStreamReader::read()
                     0);
         }
 
-        readSectorData(frame.block, sector);
+        // A sector that is only partially in the file is a missing sector
+        if (!readSectorData(frame.block, sector)) {
+          if (frame.sectorCount == 0) {
+            m_frameCache.erase(pos);
+          }
+          break;
+        }
         frame.sectorCount++;
 
         if (frame.sectorCount == 4) {
@@ -488,7 +501,7 @@ Block SectorStreamReader::read()
   return Block();
 }
 
-void SectorStreamReader::readSectorData(std::ifstream& stream, Block& block,
+bool SectorStreamReader::readSectorData(std::ifstream& stream, Block& block,
                                         int sector)
 {
   if (version() == 4) {
@@ -496,14 +509,34 @@ void SectorStreamReader::readSectorData(std::ifstream& stream, Block& block,
   } else {
     readSectorDataVersion5(stream, block, sector);
   }
+
+  if (!stream) {
+    // The file ends within the sector, don't leave part of it in the frame
+    clearSectorData(block, sector);
+    return false;
+  }
+
+  return true;
 }
 
-void SectorStreamReader::readSectorData(Block& block, int sector)
+bool SectorStreamReader::readSectorData(Block& block, int sector)
 {
   auto& sectorStream = *m_streamsIterator;
   auto& stream = sectorStream.stream;
 
-  readSectorData(*stream.get(), block, sector);
+  return readSectorData(*stream.get(), block, sector);
+}
+
+void SectorStreamReader::clearSectorData(Block& block, int sector)
+{
+  auto dimensions = version() == 4 ? SECTOR_DIMENSIONS_VERSION_4
+                                   : SECTOR_DIMENSIONS_VERSION_5;
+  auto frameX = version() == 4 ? sector * dimensions.first : 0;
+  auto frameY = version() == 4 ? 0 : sector * dimensions.second;
+  for (unsigned y = frameY; y < frameY + dimensions.second; y++) {
+    auto row = block.data.get() + y * FRAME_DIMENSIONS.first + frameX;
+    std::fill(row, row + dimensions.first, 0);
+  }
 }
 
 void SectorStreamReader::readSectorDataVersion4(std::ifstream& stream,
@@ -596,10 +629,18 @@ void SectorStreamReader::readAll(Functor func)
         break;
       }
       auto header = readHeader(stream);
-      auto skip = [&stream, &header]() {
+      // Truncated header
+      if (!stream) {
+        break;
+      }
+      // Skip over the data, returns false if it isn't completely in the file.
+      auto skip = [&stream, &header]() -> bool {
         auto dataSize = header.frameDimensions.first *
                         header.frameDimensions.second * header.imagesInBlock;
-        stream.seekg(dataSize * sizeof(uint16_t), stream.cur);
+        // We can seek past the end of the file, so read the last byte.
+        stream.seekg(dataSize * sizeof(uint16_t) - 1, stream.cur);
+        stream.get();
+        return static_cast<bool>(stream);
       };
 
       auto block = [&stream, &header]() -> Block {
@@ -626,15 +667,16 @@ float SectorStreamReader::dataCaptured()
                                                   auto& skip, auto& block) {
     (void)block;
     (void)sector;
-    numberOfSectors++;
-    scanDimensions = header.scanDimensions;
-    skip();
+    if (skip()) {
+      numberOfSectors++;
+      scanDimensions = header.scanDimensions;
+    }
   };
 
   readAll(func);
 
   auto expectedNumberOfSectors =
-    scanDimensions.first * scanDimensions.second * 4;
+    static_cast<uint64_t>(scanDimensions.first) * scanDimensions.second * 4;
 
   return static_cast<float>(numberOfSectors) / expectedNumberOfSectors;
 }
@@ -874,12 +916,23 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
     auto& stream = sectorStream.stream;
     auto sector = sectorStream.sector;
 
+    stream->seekg(0, stream->end);
+    auto fileSize = stream->tellg();
+    stream->seekg(0);
+
     while (stream->peek() != EOF) {
       // First read the header
       auto header = readHeader(*stream);
       auto dataSize = header.frameDimensions.first *
                       header.frameDimensions.second * header.imagesInBlock;
 
+      // The last record may be truncated, then the sector is missing.
+      if (!*stream ||
+          fileSize - stream->tellg() <
+            static_cast<std::streamoff>(dataSize * sizeof(uint16_t))) {
+        break;
+      }
+
       auto imageNumber = header.imageNumbers[0];
       auto& frameMaps = m_scanMap[imageNumber];
 
diff --git a/stempy/reader.h b/stempy/reader.h
index 4292a91..c5335f6 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -245,7 +245,9 @@ protected:
   std::vector<SectorStream> m_streams;
 
   Header readHeader(std::ifstream& stream);
-  void readSectorData(std::ifstream& stream, Block& block, int sector);
+  // Returns false, and leaves the sector zero, if the file ends before the end
+  // of the sector.
+  bool readSectorData(std::ifstream& stream, Block& block, int sector);
 
 private:
   std::vector<std::string> m_files;
@@ -258,7 +260,8 @@ private:
   bool atEnd() const { return m_streams.empty(); }
 
   Header readHeader();
-  void readSectorData(Block& block, int sector);
+  bool readSectorData(Block& block, int sector);
+  void clearSectorData(Block& block, int sector);
   template <typename T>
   std::istream& read(T& value);
   template <typename T>
@@ -404,6 +407,13 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 
         // First read the header
         auto header = readHeader(*stream);
+        // A truncated header, so there is no more data in this file. Return
+        // the stream to the queue, it will be removed when we get to it again.
+        if (!*stream) {
+          std::unique_lock<std::mutex> queueLock(m_queueMutex);
+          m_streamQueue.push(streamQueueEntry);
+          continue;
+        }
 
         std::vector<Block> blocks;
         for (unsigned j = 0; j < header.imagesInBlock; j++) {
@@ -441,7 +451,10 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
             }
           }
 
-          readSectorData(*stream, frame.block, sector);
+          // A sector that is only partially in the file is a missing sector
+          if (!readSectorData(*stream, frame.block, sector)) {
+            break;
+          }
 
           // Now now have the complete frame
           if (++frame.sectorCount == 4) {
@@ -635,9 +648,12 @@ void SectorStreamMultiPassThreadedReader::processFrame(
     if (sectorLocation.sectorStream != nullptr) {
       auto sectorStream = sectorLocation.sectorStream;
       std::unique_lock<std::mutex> lock(*sectorStream->mutex.get());
+      // An earlier read may have reached the end of the file
+      sectorStream->stream->clear();
       sectorStream->stream->seekg(sectorLocation.offset);
-      readSectorData(*sectorStream->stream, b, j);
-      sectors++;
+      if (readSectorData(*sectorStream->stream, b, j)) {
+        sectors++;
+      }
     }
   }
 
@@ -695,10 +711,24 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
     return;
   }
 
-  auto stream = m_streams[0].stream.get();
-  auto header = readHeader(*stream);
-  // Reset the stream
-  stream->seekg(0);
+  // Use the first file that has one
+  Header header;
+  bool found = false;
+  for (auto& sectorStream : m_streams) {
+    auto stream = sectorStream.stream.get();
+    header = readHeader(*stream);
+    found = static_cast<bool>(*stream);
+    // Reset the stream
+    stream->clear();
+    stream->seekg(0);
+    if (found) {
+      break;
+    }
+  }
+
+  if (!found) {
+    throw std::invalid_argument("None of the files has a complete header.");
+  }
 
   // Resize the vector to hold the frame sector locations for the scan
   m_scanMapSize = header.scanDimensions.first * header.scanDimensions.second;
@@ -746,6 +776,7 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 
   // Reset the streams
   for (auto& sectorStream : this->m_streams) {
+    sectorStream.stream->clear();
     sectorStream.stream->seekg(0);
   }
 
-- 
2.43.0


From 12a97df5caa01b4c19dd950c38c37897d95164e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 14/49] fix: refuse image numbers outside of the scan in the
 multi-pass reader

The exception is raised once all the workers have ended, they use objects of
the caller.
---
 stempy/reader.cpp |  6 +++++
 stempy/reader.h   | 56 ++++++++++++++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index dbccbad..f9b7845 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -934,6 +934,12 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
       }
 
       auto imageNumber = header.imageNumbers[0];
+      if (imageNumber >= m_scanMap.size()) {
+        std::ostringstream msg;
+        msg << "Image number " << imageNumber << " is outside of the scan: "
+            << "there are " << m_scanMap.size() << " scan positions.";
+        throw invalid_argument(msg.str());
+      }
       auto& frameMaps = m_scanMap[imageNumber];
 
       // Protect initialization of the map with the correct mutex
diff --git a/stempy/reader.h b/stempy/reader.h
index c5335f6..d6d608d 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -351,6 +351,10 @@ protected:
   // The futures associated with the worker threads
   std::vector<std::future<void>> m_futures;
 
+  // Wait for all the worker threads, and rethrow the first exception one of
+  // them ended with, if any.
+  void waitForWorkers();
+
 private:
   // Protect access to frame cache
   std::mutex m_cacheMutex;
@@ -378,6 +382,21 @@ private:
   bool nextStream(StreamQueueEntry& entry);
 };
 
+inline void SectorStreamThreadedReader::waitForWorkers()
+{
+  // The workers use objects of the caller, so all of them have to be finished
+  // before an exception is passed on.
+  auto futures = std::move(m_futures);
+  m_futures.clear();
+
+  for (auto& future : futures) {
+    future.wait();
+  }
+  for (auto& future : futures) {
+    future.get();
+  }
+}
+
 template <typename Functor>
 std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
@@ -484,11 +503,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   }
 
   // Return a future that is resolved once the processing is complete
-  auto complete = std::async(std::launch::deferred, [this]() {
-    for (auto& future : this->m_futures) {
-      future.get();
-    }
-  });
+  auto complete =
+    std::async(std::launch::deferred, [this]() { waitForWorkers(); });
 
   return complete;
 }
@@ -762,9 +778,21 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
     m_futures.emplace_back(m_pool->enqueue([this]() { readHeaders(); }));
   }
 
+  auto resetStreams = [this]() {
+    for (auto& sectorStream : this->m_streams) {
+      sectorStream.stream->clear();
+      sectorStream.stream->seekg(0);
+    }
+  };
+
   // Wait for all files to be processed
-  for (auto& future : this->m_futures) {
-    future.get();
+  try {
+    waitForWorkers();
+  } catch (...) {
+    // Don't leave a partial map behind
+    m_scanMap.clear();
+    resetStreams();
+    throw;
   }
 
 #ifdef USE_MPI
@@ -775,12 +803,7 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 #endif
 
   // Reset the streams
-  for (auto& sectorStream : this->m_streams) {
-    sectorStream.stream->clear();
-    sectorStream.stream->seekg(0);
-  }
-
-  m_futures.clear();
+  resetStreams();
 
   // Reset counter
   m_processed = m_scanMapOffset;
@@ -855,11 +878,8 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
   }
 
   // Return a future that is resolved once the processing is complete
-  auto complete = std::async(std::launch::deferred, [this]() {
-    for (auto& future : this->m_futures) {
-      future.get();
-    }
-  });
+  auto complete =
+    std::async(std::launch::deferred, [this]() { waitForWorkers(); });
 
   return complete;
 }
-- 
2.43.0


From 3fe47537a429dd87cf129de81123a4af5eba59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 15/49] fix: let the multi-pass reader be read more than once

---
 stempy/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index d6d608d..e1b36b6 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -871,6 +871,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
   initializePool();
   initializeScanMap();
 
+  // Start again from the first position
+  m_futures.clear();
+  m_processed = m_scanMapOffset;
+
   // Now enqueue lambda's to read the frames and run processing
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(
-- 
2.43.0


From b9f0b353db0c3dfe32414b763cac09e3c69bd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 16/49] fix: don't look at the streams of the threaded reader
 without their mutex

Also don't leave the other workers waiting for the stream of one that failed.
---
 stempy/reader.h | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index e1b36b6..47ab651 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -378,10 +378,21 @@ private:
   std::priority_queue<StreamQueueEntry, std::vector<StreamQueueEntry>,
                       StreamQueueComparison> m_streamQueue;
 
+  // Set when a worker thread has failed, so that the others don't wait for its
+  // stream.
+  std::atomic<bool> m_failed = { false };
+
   void initNumberOfThreads();
   bool nextStream(StreamQueueEntry& entry);
+  bool haveStreams();
 };
 
+inline bool SectorStreamThreadedReader::haveStreams()
+{
+  std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+  return !m_streams.empty();
+}
+
 inline void SectorStreamThreadedReader::waitForWorkers()
 {
   // The workers use objects of the caller, so all of them have to be finished
@@ -402,6 +413,12 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
   m_pool = std::make_unique<ThreadPool>(m_threads);
 
+  // Drop what is left of an earlier call
+  m_futures.clear();
+  m_streamQueue = decltype(m_streamQueue)();
+  m_frameCache.clear();
+  m_failed = false;
+
   auto streamsIterator = m_streams.begin();
 
   while (streamsIterator != m_streams.end()) {
@@ -413,8 +430,19 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   // Create worker threads
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(m_pool->enqueue([this, &func]() {
+      struct FailureGuard
+      {
+        std::atomic<bool>& failed;
+        bool finished;
+        ~FailureGuard()
+        {
+          if (!finished) {
+            failed = true;
+          }
+        }
+      } failureGuard{ m_failed, false };
 
-      while (!m_streams.empty()) {
+      while (haveStreams() && !m_failed) {
         // Get the next stream to read from
         StreamQueueEntry streamQueueEntry;
 
@@ -499,6 +527,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           func(b);
         }
       }
+
+      failureGuard.finished = true;
     }));
   }
 
-- 
2.43.0


From 868211dfae7525a8f056e41b031b16df2453f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 17/49] fix: mark the frames of the threaded reader as complete

electronCount() reads the mark, which was an access outside of an empty
vector.
---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 47ab651..b4414d5 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -481,6 +481,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
               frame.block.header.scanDimensions = header.scanDimensions;
               frame.block.header.imagesInBlock = 1;
               frame.block.header.imageNumbers.push_back(pos);
+              // Only complete frames are processed
+              frame.block.header.complete.push_back(true);
               frame.block.header.frameNumber = frameNumber;
               frame.block.header.frameDimensions = FRAME_DIMENSIONS;
               std::shared_ptr<uint16_t> data;
-- 
2.43.0


From d4d3bf57f59926fbe7ed3a03cd11b1590e7cca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 18/49] fix: keep a frame alive while a repeated sector of it
 is read

A file with a repeated record made a thread use a frame that another one had
already completed and removed from the cache.
---
 stempy/reader.cpp |  6 +++---
 stempy/reader.h   | 28 ++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index f9b7845..ee59d4f 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -441,7 +441,8 @@ Block SectorStreamReader::read()
 
       for (unsigned i = 0; i < header.imagesInBlock; i++) {
         auto pos = header.imageNumbers[i];
-        auto& frame = m_frameCache[pos];
+        auto framePtr = cachedFrame(pos);
+        auto& frame = *framePtr;
 
         // Do we need to allocate the frame
         if (frame.block.header.version == 0) {
@@ -491,8 +492,7 @@ Block SectorStreamReader::read()
   // Now  return the partial frames
   if (!m_frameCache.empty()) {
     auto iter = m_frameCache.begin();
-    auto& frame = (*iter).second;
-    auto block = frame.block;
+    auto block = (*iter).second->block;
     m_frameCache.erase(iter);
 
     return block;
diff --git a/stempy/reader.h b/stempy/reader.h
index b4414d5..a80b279 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -239,9 +239,22 @@ protected:
   {
     Block block;
     std::atomic<int> sectorCount = { 0 };
+    // Bit mask of the sectors that have been found, used by threaded readers
+    std::atomic<unsigned> sectors = { 0 };
     std::mutex mutex;
   };
-  std::map<uint32_t, Frame> m_frameCache;
+  std::map<uint32_t, std::shared_ptr<Frame>> m_frameCache;
+
+  // Returns the frame with the key, which is added if it isn't in the cache.
+  std::shared_ptr<Frame> cachedFrame(uint32_t key)
+  {
+    auto& frame = m_frameCache[key];
+    if (!frame) {
+      frame = std::make_shared<Frame>();
+    }
+    return frame;
+  }
+
   std::vector<SectorStream> m_streams;
 
   Header readHeader(std::ifstream& stream);
@@ -468,9 +481,20 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           auto frameNumber = header.frameNumber;
 
           std::unique_lock<std::mutex> cacheLock(m_cacheMutex);
-          auto& frame = m_frameCache[frameNumber];
+          // Share the ownership, the frame leaves the cache once complete
+          auto framePtr = cachedFrame(frameNumber);
+          auto& frame = *framePtr;
           cacheLock.unlock();
 
+          // Ignore repeated sectors, another thread may be reading the first.
+          auto sectorBit = 1u << sector;
+          if (frame.sectors.fetch_or(sectorBit) & sectorBit) {
+            stream->seekg(header.frameDimensions.first *
+                            header.frameDimensions.second * sizeof(uint16_t),
+                          stream->cur);
+            break;
+          }
+
           // Do we need to allocate the frame, use a double check lock
           if (std::atomic_load(&frame.block.data) == nullptr) {
             std::unique_lock<std::mutex> lock(frame.mutex);
-- 
2.43.0


From e46a7ca7d3b857581c42f62414625230968ba04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 19/49] fix: check the header of a stream block against the
 file before using it

A truncated block was completed with the start of the next file, and the sizes
of a corrupt version 1 header were used as they are.
---
 stempy/reader.cpp | 44 +++++++++++++++++++++++++++++++++++++-------
 stempy/reader.h   |  2 ++
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index ee59d4f..c1274ce 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -47,7 +47,7 @@ Header::Header(Dimensions2D frameDimensions_, uint32_t imageNumInBlock_,
 }
 
 Block::Block(const Header& h)
-  : header(h), data(new uint16_t[h.frameDimensions.first *
+  : header(h), data(new uint16_t[static_cast<size_t>(h.frameDimensions.first) *
                                  h.frameDimensions.second * h.imagesInBlock],
                     std::default_delete<uint16_t[]>())
 {}
@@ -111,16 +111,29 @@ istream & StreamReader::read(T* value, streamsize size){
 
   m_stream.read(reinterpret_cast<char*>(value), size);
 
-  // If we are at the end of the file, open up the next file
-  // and try again.
+  // Blocks don't continue in the next file, so we are in a truncated block.
+  // Carry on with the next file afterwards.
   if (m_stream.eof()) {
     openNextFile();
-    return read(value, size);
+    throw EofException();
   }
 
   return m_stream;
 }
 
+void StreamReader::checkAvailable(uint64_t size)
+{
+  auto current = m_stream.tellg();
+  m_stream.seekg(0, m_stream.end);
+  auto available = static_cast<uint64_t>(m_stream.tellg() - current);
+  m_stream.seekg(current);
+
+  if (available < size) {
+    openNextFile();
+    throw EofException();
+  }
+}
+
 Header StreamReader::readHeaderVersion1() {
 
   Header header;
@@ -137,6 +150,13 @@ Header StreamReader::readHeaderVersion1() {
   // Skip over 6 - 10 - reserved
   index += 5;
 
+  // There is only space for this many image numbers in the header
+  if (header.imagesInBlock > 1024u - index) {
+    ostringstream msg;
+    msg << "Invalid number of images in block: " << header.imagesInBlock;
+    throw invalid_argument(msg.str());
+  }
+
   // Now get the image numbers
   header.imageNumbers.resize(header.imagesInBlock);
   copy(headerData + index,
@@ -253,10 +273,20 @@ Block StreamReader::read()
         throw invalid_argument(ss.str());
     }
 
-    Block b(header);
+    // Make sure the file has the whole block before we allocate memory for it,
+    // the header may have arbitrary dimensions. Note that the product of the
+    // dimensions may not fit in 64 bits.
+    auto frameSize = static_cast<uint64_t>(header.frameDimensions.first) *
+                     header.frameDimensions.second;
+    const auto maxSize = static_cast<uint64_t>(1) << 62;
+    if (header.imagesInBlock != 0 &&
+        frameSize > maxSize / sizeof(uint16_t) / header.imagesInBlock) {
+      throw invalid_argument("Invalid frame dimensions in header.");
+    }
+    auto dataSize = frameSize * header.imagesInBlock;
+    checkAvailable(dataSize * sizeof(uint16_t));
 
-    auto dataSize = b.header.frameDimensions.first *
-                    b.header.frameDimensions.second * b.header.imagesInBlock;
+    Block b(header);
     read(b.data.get(), dataSize * sizeof(uint16_t));
 
     return b;
diff --git a/stempy/reader.h b/stempy/reader.h
index a80b279..b6ecd65 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -184,6 +184,8 @@ private:
   template<typename T>
   std::istream & read(T* value, std::streamsize size);
   std::istream& skip(std::streamoff pos);
+  // Throws an EofException if there is less than size bytes left in the file
+  void checkAvailable(uint64_t size);
   short sector() { return m_sector; };
 };
 
-- 
2.43.0


From 0aed2db4ac21d3fc854ff899cc4313db36c504e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 20/49] fix: forget partial frames when a sector reader is
 reset

---
 stempy/reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index c1274ce..c005502 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -633,6 +633,7 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From 25686896b9cfac921807f5c11b084174f6c8f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 21/49] fix: apply the row dark correction to the rows of
 non-square frames

---
 stempy/electron.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..0c79849 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,8 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
-- 
2.43.0


From d7bfc1614ba94c78a2c7b29bbf27a7f1bde31921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 22/49] fix: count electrons without a dark reference, which is
 optional

---
 stempy/electron.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 0c79849..10756f3 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -478,10 +478,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
-          if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
-          } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+          static_if<dark>([&]() { frame[j] -= darkReference[j]; })();
+
+          if (!std::is_integral<FrameType>::value) {
+            frame[j] *= gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From d3f7e4b71ae3675e4ca5dea9a4765a813f87bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 23/49] fix: refuse image numbers outside of the scan when
 counting electrons

---
 stempy/electron.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 10756f3..c1150e0 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -405,6 +405,17 @@ std::vector<uint32_t> maximalPoints(const std::vector<FrameType>& frame,
   return events;
 }
 
+inline void checkImageNumber(uint32_t imageNumber,
+                             size_t numberOfScanPositions)
+{
+  if (imageNumber >= numberOfScanPositions) {
+    std::ostringstream msg;
+    msg << "Image number " << imageNumber << " is outside of the scan: there "
+        << "are " << numberOfScanPositions << " scan positions.";
+    throw std::invalid_argument(msg.str());
+  }
+}
+
 template <typename InputIt, typename FrameType, bool dark>
 ElectronCountedData electronCount(InputIt first, InputIt last,
                                   const ElectronCountOptionsClassic& options)
@@ -443,15 +454,23 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
 
   // Matrix to hold electron events.
   // Assume only one frame per scan.
-  Events events(scanDimensions.first * scanDimensions.second);
+  Events events(static_cast<size_t>(scanDimensions.first) *
+                scanDimensions.second);
   for (size_t i = 0; i < events.size(); ++i) {
     events[i].resize(1);
   }
 
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    if (block.header.frameDimensions != frameDimensions) {
+      throw std::invalid_argument(
+        "The blocks have different frame dimensions.");
+    }
+
     auto data = block.data.get();
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
+      checkImageNumber(block.header.imageNumbers[i], events.size());
+
       auto frameStart =
         data + i * frameDimensions.first * frameDimensions.second;
       std::vector<FrameType> frame(frameStart,
@@ -620,6 +639,8 @@ ElectronCountedData electronCount(Reader* reader,
     auto data = b.data.get();
     auto frameDimensions = b.header.frameDimensions;
     for (unsigned i = 0; i < b.header.imagesInBlock; i++) {
+      checkImageNumber(b.header.imageNumbers[i], events.size());
+
       auto frameStart =
         data + i * frameDimensions.first * frameDimensions.second;
       std::vector<FrameType> frame(frameStart,
@@ -746,7 +767,13 @@ ElectronCountedData electronCount(Reader* reader,
     scanDimensions = sampleBlocks[0].header.scanDimensions;
   }
 
-  auto numberOfScanPositions = scanDimensions.first * scanDimensions.second;
+  // Raise an exception if we still don't have valid rows and columns
+  if (scanDimensions.first == 0 || scanDimensions.second == 0) {
+    throw std::invalid_argument("No scan image size provided.");
+  }
+
+  auto numberOfScanPositions =
+    static_cast<size_t>(scanDimensions.first) * scanDimensions.second;
   events.resize(numberOfScanPositions);
   // Allocate mutexes to protect the event vector at each scan position
   positionMutexes.reset(new std::mutex[numberOfScanPositions]);
-- 
2.43.0


From 6ac25e2035a6dfd6f26fc164f21e4d044abb6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 24/49] fix: lock the scan position when adding the events of
 sample blocks

The worker threads may be adding events to the same position.
---
 stempy/electron.cpp | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index c1150e0..01b898a 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -783,37 +783,16 @@ ElectronCountedData electronCount(Reader* reader,
   lock.unlock();
   sampleCondition.notify_all();
 
-  // lambda to process sample and incomplete blocks
-  auto countExtraBlock = [&events, &backgroundThreshold, &xRayThreshold,
-                          darkReference, gain, applyRowDarkSubtraction,
-                          optimizedMean, applyRowDarkUseMean] (Block& b) {
-    auto data = b.data.get();
-    auto frameDimensions = b.header.frameDimensions;
-    for (unsigned j = 0; j < b.header.imagesInBlock; j++) {
-      auto frameStart =
-        data + j * frameDimensions.first * frameDimensions.second;
-      std::vector<FrameType> frame(frameStart,
-                                   frameStart + frameDimensions.first *
-                                                  frameDimensions.second);
-      auto frameEvents = electronCount<FrameType, dark>(
-        frame, frameDimensions, darkReference, backgroundThreshold,
-        xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
-        applyRowDarkUseMean);
-      auto position = b.header.imageNumbers[j];
-      events[position].push_back(std::move(frameEvents));
-    }
-  };
-
-  // Count the sample blocks
+  // Count the sample blocks, the workers are already counting theirs
   for (auto i = 0; i < thresholdNumberOfBlocks; i++) {
     auto& b = sampleBlocks[i];
-    countExtraBlock(b);
+    countBlock(b);
   }
 
   // Count the incomplete blocks
   for (size_t i = 0; i < incompleteBlocks.size(); i++) {
     auto& b = incompleteBlocks[i];
-    countExtraBlock(b);
+    countBlock(b);
   }
 
   // Make sure all threads are finished before returning the result
-- 
2.43.0


From 968e2501f53c1537eb5ef36613141427dcb2978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 25/49] fix: end electron_count when the thresholds can't be
 calculated

It waited forever if there were fewer complete frames than sample blocks, if a
worker failed or if the fit didn't converge.
---
 stempy/electron.cpp | 86 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 9 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 01b898a..cab60d4 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -623,6 +623,17 @@ ElectronCountedData electronCount(Reader* reader,
   // The blocks that where not used for samples as they are incomplete
   std::vector<Block> incompleteBlocks;
 
+  // Set when all data has been read (protected by the sample mutex)
+  bool readFinished = false;
+
+  // Set when the threshold can't be calculated, so there will be no counting.
+  std::atomic<bool> aborted = { false };
+
+  if (thresholdNumberOfBlocks < 1) {
+    throw std::invalid_argument(
+      "At least one block is needed to calculate the thresholds.");
+  }
+
 #ifdef USE_MPI
   int rank, worldSize;
   initMpiWorldRank(worldSize, rank);
@@ -664,10 +675,14 @@ ElectronCountedData electronCount(Reader* reader,
 
   auto counter = [&events, &electronCounting, &sampleMutex, &sampleCondition,
                   &sampleBlocks, &incompleteBlocks, thresholdNumberOfBlocks,
-                  &countBlock](Block& b) {
+                  &aborted, &countBlock](Block& b) {
     // If we are still collecting sample block for calculating the threshold
     if (!electronCounting) {
       std::unique_lock<std::mutex> sampleLock(sampleMutex);
+      if (aborted) {
+        return;
+      }
+
       if (sampleBlocks.size() <
           static_cast<unsigned>(thresholdNumberOfBlocks)) {
 
@@ -689,9 +704,12 @@ ElectronCountedData electronCount(Reader* reader,
       // We have our samples, so we should wait for the threshold to be
       // calculated in the main thread, before we can start counting.
       else {
-        sampleCondition.wait(sampleLock, [&electronCounting]() {
-          return electronCounting.load();
+        sampleCondition.wait(sampleLock, [&electronCounting, &aborted]() {
+          return electronCounting.load() || aborted.load();
         });
+        if (!electronCounting) {
+          return;
+        }
         // Make sure we count the block.
         countBlock(b);
       }
@@ -702,14 +720,64 @@ ElectronCountedData electronCount(Reader* reader,
     }
   };
 
-  auto done = reader->readAll(counter);
+  auto read = reader->readAll(counter);
+
+  // Wait for the end of the read in another thread, as there may be fewer
+  // blocks than we need to calculate the threshold.
+  auto done = std::async(std::launch::async, [&]() {
+    auto notifyFinished = [&]() {
+      std::unique_lock<std::mutex> sampleLock(sampleMutex);
+      readFinished = true;
+      sampleLock.unlock();
+      sampleCondition.notify_all();
+    };
+
+    try {
+      read.get();
+    } catch (...) {
+      notifyFinished();
+      throw;
+    }
+    notifyFinished();
+  });
+
+  // If we leave with an exception the workers mustn't wait for the threshold.
+  // This goes out of scope before done, whose destructor waits for them.
+  struct AbortGuard
+  {
+    std::mutex& mutex;
+    std::condition_variable& condition;
+    std::atomic<bool>& aborted;
+    ~AbortGuard()
+    {
+      {
+        std::unique_lock<std::mutex> abortLock(mutex);
+        aborted = true;
+      }
+      condition.notify_all();
+    }
+  } abortGuard{ sampleMutex, sampleCondition, aborted };
 
   // Wait for enough blocks to come in to calculate the threshold.
   std::unique_lock<std::mutex> lock(sampleMutex);
-  sampleCondition.wait(lock, [&sampleBlocks, thresholdNumberOfBlocks]() {
-    return sampleBlocks.size() ==
-           static_cast<unsigned>(thresholdNumberOfBlocks);
-  });
+  sampleCondition.wait(
+    lock, [&sampleBlocks, thresholdNumberOfBlocks, &readFinished]() {
+      return readFinished ||
+             sampleBlocks.size() ==
+               static_cast<unsigned>(thresholdNumberOfBlocks);
+    });
+
+  if (sampleBlocks.size() < static_cast<unsigned>(thresholdNumberOfBlocks)) {
+    lock.unlock();
+    // Report what went wrong with the read, if anything
+    done.get();
+
+    std::ostringstream msg;
+    msg << "There are only " << sampleBlocks.size() << " complete frames, "
+        << thresholdNumberOfBlocks
+        << " are needed to calculate the thresholds.";
+    throw std::invalid_argument(msg.str());
+  }
 
   auto calculateThreshold = true;
 
@@ -796,7 +864,7 @@ ElectronCountedData electronCount(Reader* reader,
   }
 
   // Make sure all threads are finished before returning the result
-  done.wait();
+  done.get();
 
 #ifdef USE_MPI
   gatherEvents(worldSize, rank, events);
-- 
2.43.0


From cc591f43b04e8f0634d4f21f6790d49b0a54ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 26/49] fix: calculate the thresholds from untruncated samples

Samples below the dark reference wrapped around, those with a gain lost their
fraction, and a histogram that didn't start at the smallest sample was written
outside of its bounds. Also refuse samples that can't give a histogram.
---
 stempy/electronthresholds.cpp | 68 ++++++++++++++++++++++++-----------
 stempy/electronthresholds.h   |  4 +--
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..b4f8410 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -3,7 +3,10 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
+#include <stdexcept>
+#include <type_traits>
 
 #include <Eigen/Dense>
 #include <unsupported/Eigen/LevenbergMarquardt>
@@ -77,16 +80,33 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const float gain[])
 {
+  if (blocks.empty() || numberOfSamples < 1) {
+    throw std::invalid_argument(
+      "At least one block and one sample are needed.");
+  }
+
   auto frameDimensions = blocks[0].header.frameDimensions;
+  for (auto& block : blocks) {
+    if (block.header.frameDimensions != frameDimensions ||
+        block.header.imagesInBlock == 0) {
+      throw std::invalid_argument(
+        "The blocks must have frames, of the same dimensions.");
+    }
+  }
+
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
   // Setup random number engine
   std::random_device randomDevice;
   std::default_random_engine randomEngine(randomDevice());
 
-  int numberSamplePixels =
-    frameDimensions.first * frameDimensions.second * numberOfSamples;
-  std::vector<FrameType> samples(numberSamplePixels, 0);
+  size_t numberSamplePixels =
+    static_cast<size_t>(numberOfPixels) * numberOfSamples;
+  // The dark reference may be larger than the pixel, so we need a signed type
+  using SampleType =
+    typename std::conditional<std::is_integral<FrameType>::value, int32_t,
+                              FrameType>::type;
+  std::vector<SampleType> samples(numberSamplePixels, 0);
   for (int i = 0; i < numberOfSamples; i++) {
     std::uniform_int_distribution<int> randomBlockDist(0, blocks.size() - 1);
     auto randomBlockIndex = randomBlockDist(randomEngine);
@@ -100,21 +120,18 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      auto value = blockData[randomFrameIndex * numberOfPixels + j];
+      SampleType value = blockData[randomFrameIndex * numberOfPixels + j];
+
+      static_if<dark>(
+        [&]() { value -= static_cast<SampleType>(darkReference[j]); })();
 
       // This will be evaluated a compile time.
-      if (std::is_integral<FrameType>::value) {
-        static_if<dark>(
-          [&]() { value -= static_cast<int16_t>(darkReference[j]); })();
-      }
       // if not integral type then we know we have gain and need to multiple
-      else {
-        static_if<dark>(
-          [&]() { value -= static_cast<float>(darkReference[j]); })();
+      if (!std::is_integral<FrameType>::value) {
         value *= gain[j];
       }
 
-      samples[i * numberOfPixels + j] = value;
+      samples[static_cast<size_t>(i) * numberOfPixels + j] = value;
     }
   }
 
@@ -127,13 +144,24 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   // Now generate a histograms
   auto minMax = std::minmax_element(samples.begin(), samples.end());
   auto minSample = *minMax.first;
-  auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
-  auto maxBin = std::min(static_cast<int>(maxSample),
-                         static_cast<int>(mean + xrayThreshold * stdDev));
-  auto minBin = std::max(static_cast<int>(minSample),
-                         static_cast<int>(mean - xrayThreshold * stdDev));
+  auto maxSample = static_cast<SampleType>(std::ceil(*minMax.second));
+  // Only convert to int once we have the limits, the products may not fit
+  auto maxEdge =
+    std::min<double>(maxSample, mean + xrayThreshold * stdDev);
+  auto minEdge =
+    std::max<double>(minSample, mean - xrayThreshold * stdDev);
+  const auto maxInt = std::numeric_limits<int>::max() / 2;
+  if (!(maxEdge - minEdge > 0 && minEdge > -maxInt && maxEdge < maxInt)) {
+    throw std::runtime_error(
+      "The range of the samples is empty or too large for a histogram");
+  }
+  auto maxBin = static_cast<int>(maxEdge);
+  auto minBin = static_cast<int>(minEdge);
 
   auto numberOfBins = maxBin - minBin;
+  if (numberOfBins < 1) {
+    throw std::runtime_error("The samples are all in the same histogram bin");
+  }
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
@@ -143,12 +171,12 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   }
 
   // Bin the values
-  for (int i = 0; i < numberSamplePixels; i++) {
-    auto binIndex = static_cast<int>(samples[i] - minBin);
+  for (size_t i = 0; i < numberSamplePixels; i++) {
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (samples[i] < minBin || samples[i] >= maxBin) {
       continue;
     }
+    auto binIndex = static_cast<int>(samples[i] - minBin);
     histogram[binIndex] += 1;
   }
 
diff --git a/stempy/electronthresholds.h b/stempy/electronthresholds.h
index cdd3bc2..748dc2c 100644
--- a/stempy/electronthresholds.h
+++ b/stempy/electronthresholds.h
@@ -17,8 +17,8 @@ struct CalculateThresholdsResults
   double backgroundThreshold = 0.0;
   double xRayThreshold = 0.0;
   int numberOfSamples = 0;
-  FrameType minSample = 0;
-  FrameType maxSample = 0;
+  double minSample = 0;
+  double maxSample = 0;
   double mean = 0.0;
   double variance = 0.0;
   double stdDev = 0.0;
-- 
2.43.0


From 6d1ac27deb2fd297a9a3ca3b31be17648ca55a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 27/49] fix: refuse image numbers outside of the scan in the
 dense images

---
 stempy/image.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..8df7633 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -119,6 +119,37 @@ STEMValues calculateSTEMValuesParallel(
 }
 #endif
 
+namespace {
+
+// The images of all blocks must have the dimensions of those of the first one
+template <typename BlockType>
+void checkFrameDimensions(const BlockType& block,
+                          const Dimensions2D& frameDimensions)
+{
+  if (block.header.frameDimensions != frameDimensions) {
+    ostringstream msg;
+    msg << "Frame dimensions differ between blocks!";
+    throw invalid_argument(msg.str());
+  }
+}
+
+// The image numbers are used as offsets into the scan
+template <typename BlockType>
+void checkImageNumbers(const BlockType& block,
+                       const Dimensions2D& scanDimensions)
+{
+  auto numberOfPositions = scanDimensions.first * scanDimensions.second;
+  for (auto imageNumber : block.header.imageNumbers) {
+    if (imageNumber >= numberOfPositions) {
+      ostringstream msg;
+      msg << "Image number " << imageNumber << " is outside of the scan!";
+      throw invalid_argument(msg.str());
+    }
+  }
+}
+
+} // namespace
+
 // These should be ran by separate threads
 namespace {
 #ifdef VTKm
@@ -235,6 +266,8 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
     // Move the block into the thread by copying... CUDA 10.1 won't allow
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
+    checkFrameDimensions(b, frameDimensions);
+    checkImageNumbers(b, scanDimensions);
 
     for (size_t i = 0; i < masks.size(); ++i) {
       auto& image = images[i];
@@ -352,6 +385,7 @@ Image<double> calculateAverage(InputIt first, InputIt last)
   uint64_t numberOfImages = 0;
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    checkFrameDimensions(block, frameDimensions);
     auto blockData = block.data.get();
     numberOfImages += block.header.imagesInBlock;
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
@@ -545,6 +579,8 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
     // Move the block into the thread by copying... CUDA 10.1 won't allow
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
+    checkFrameDimensions(b, frameDimensions);
+    checkImageNumbers(b, scanDimensions);
     // Instead of calling _runCalculateSTEMValues directly, we use a
     // lambda so that we can explicity delete the block. Otherwise,
     // the block will not be deleted until the threads are destroyed.
@@ -593,6 +629,7 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
   uint64_t numberOfImages = 0;
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    checkFrameDimensions(block, frameDimensions);
     auto blockData = block.data.get();
     numberOfImages += block.header.imagesInBlock;
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
-- 
2.43.0


From 8c81a0ab82443873a7e357bb72fdc78b7b4141f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 28/49] fix: keep the radial sum alive until its worker threads
 have ended

---
 stempy/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index 8df7633..b0012cf 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -562,8 +562,10 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
   // We benchmarked this on a 10 core computer, and typically found
   // 2 threads to be ideal.
   int numThreads = 2;
-  ThreadPool pool(numThreads);
+  // This must outlive the pool, its threads may still be running if the reader
+  // throws.
   RadialSum<uint64_t> radialSum(scanDimensions, maxRadius + 1);
+  ThreadPool pool(numThreads);
 
 #ifdef VTKm
   // We need the reinterpret_cast as vtkm currently doesn't support atomic
-- 
2.43.0


From 7ce5710adce38c4c94d721212cb6d184698ffee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 29/49] fix: don't overflow the squared radii of an annular
 mask

---
 stempy/mask.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stempy/mask.cpp b/stempy/mask.cpp
index 47bf6b9..7934b5f 100644
--- a/stempy/mask.cpp
+++ b/stempy/mask.cpp
@@ -18,8 +18,9 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
   if (center.second < 0)
     center.second = static_cast<int>(round(dimensions.second / 2.0));
 
-  innerRadius = static_cast<int>(pow(innerRadius, 2.0));
-  outerRadius = static_cast<int>(pow(outerRadius, 2.0));
+  // The squares may not fit into an int
+  auto innerRadius2 = pow(innerRadius, 2.0);
+  auto outerRadius2 = pow(outerRadius, 2.0);
 
   for (uint32_t i = 0; i < numberOfElements; ++i) {
     // Ensure these are signed ints so we don't underflow below
@@ -27,7 +28,7 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
     int y = i / dimensions.first;
 
     auto d = pow((x - center.first), 2.0) + pow((y - center.second), 2.0);
-    mask[i] = d >= innerRadius && d < outerRadius ? 0xFFFF : 0;
+    mask[i] = d >= innerRadius2 && d < outerRadius2 ? 0xFFFF : 0;
   }
 
   return mask;
-- 
2.43.0


From 98de410ff5c11051242fc3b24f4b1dec8e7820b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 30/49] fix: make the last edge of the histogram bins exactly
 the maximum

---
 stempy/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index b0012cf..c4c33ea 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -327,9 +327,11 @@ std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
 
   std::vector<double> container;
   // push all the intermediate values
-  for (int i = 0; i <= numBins; i++) {
+  for (int i = 0; i < numBins; i++) {
     container.push_back(min + i * length);
   }
+  // The last edge is exactly the maximum, or it wouldn't be in any bin
+  container.push_back(max);
 
   return container;
 }
-- 
2.43.0


From 5775ccd72e33d30b312962875f90fdf1ebb20f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 31/49] fix: refuse events outside of the frame or the scan in
 the sparse images

---
 stempy/image.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/stempy/image.h b/stempy/image.h
index bf95608..118767e 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -4,6 +4,8 @@
 #include "mask.h"
 
 #include <memory>
+#include <sstream>
+#include <stdexcept>
 #include <vector>
 
 namespace stempy {
@@ -92,6 +94,30 @@ namespace stempy {
       throw std::invalid_argument(msg.str());
     }
 
+    // The scan positions and the events are used as offsets
+    auto numberOfPositions =
+      static_cast<size_t>(scanDimensions.first) * scanDimensions.second;
+    if (sparseData.size() > numberOfPositions) {
+      std::ostringstream msg;
+      msg << "There are more scan positions than the scan has!";
+      throw std::invalid_argument(msg.str());
+    }
+
+    auto numberOfPixels =
+      static_cast<size_t>(frameDimensions.first) * frameDimensions.second;
+    for (const auto& frames : sparseData) {
+      for (const auto& events : frames) {
+        const auto* positions = events.data();
+        for (size_t k = 0; k < static_cast<size_t>(events.size()); ++k) {
+          if (positions[k] >= numberOfPixels) {
+            std::ostringstream msg;
+            msg << "Event " << positions[k] << " is outside of the frame!";
+            throw std::invalid_argument(msg.str());
+          }
+        }
+      }
+    }
+
     std::vector<STEMImage> images;
     std::vector<uint16_t*> masks;
     for (size_t i = 0; i < innerRadii.size(); ++i) {
-- 
2.43.0


From 6fc86f4a92e52daa8996b8c82f8c4e66aefab3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 32/49] fix: accept a dark reference in
 maximum_diffraction_pattern()

---
 python/image.cpp                | 19 +++++++++++++++++--
 python/stempy/image/__init__.py |  5 ++++-
 stempy/image.cpp                | 17 +++++++++++------
 stempy/image.h                  |  2 +-
 4 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..ffe1207 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -255,6 +255,16 @@ PYBIND11_MODULE(_image, m)
     });
 
   py::class_<Image<double>>(m, "_image_double", py::buffer_protocol())
+    .def(py::init(
+      [](py::array_t<double, py::array::c_style | py::array::forcecast> a) {
+        if (a.ndim() != 2) {
+          throw std::invalid_argument("The array must have two dimensions.");
+        }
+        Image<double> image({ static_cast<uint32_t>(a.shape(1)),
+                              static_cast<uint32_t>(a.shape(0)) });
+        std::copy(a.data(), a.data() + a.size(), image.data.get());
+        return image;
+      }))
     .def_buffer([](Image<double>& i) {
       return py::buffer_info(
         i.data.get(),                            /* Pointer to buffer */
@@ -590,7 +600,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(StreamReader::iterator, StreamReader::iterator,
-                          const Image<float>&)) &
+                          const Image<double>&)) &
           maximumDiffractionPattern<StreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -599,7 +609,7 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(SectorStreamReader::iterator,
-                          SectorStreamReader::iterator, const Image<float>&)) &
+                          SectorStreamReader::iterator, const Image<double>&)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
@@ -607,6 +617,11 @@ PYBIND11_MODULE(_image, m)
                           SectorStreamReader::iterator)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        (Image<double>(*)(PyReader::iterator, PyReader::iterator,
+                          const Image<double>&)) &
+          maximumDiffractionPattern<PyReader::iterator>,
+        py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(PyReader::iterator, PyReader::iterator)) &
           maximumDiffractionPattern<PyReader::iterator>,
diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2e8e121..e2a1f93 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -389,7 +389,10 @@ def maximum_diffraction_pattern(reader, darkreference=None):
     :rtype: stempy.image.ImageArray
     """
     if darkreference is not None:
-        darkreference = darkreference._image
+        # Don't use darkreference._image: arrays derived from the one which
+        # calculate_average() returned still refer to the original image.
+        if not isinstance(darkreference, _image._image_double):
+            darkreference = _image._image_double(darkreference)
         image = _image.maximum_diffraction_pattern(reader.begin(), reader.end(), darkreference)
     else:
         image = _image.maximum_diffraction_pattern(reader.begin(), reader.end())
diff --git a/stempy/image.cpp b/stempy/image.cpp
index c4c33ea..db96f9e 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -622,7 +622,7 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
 
 template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                        const Image<float>& darkreference)
+                                        const Image<double>& darkreference)
 {
   auto frameDimensions = first->header.frameDimensions;
   auto numDetectorPixels = frameDimensions.first * frameDimensions.second;
@@ -649,6 +649,11 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
 
   // If we have been given a darkreference substract it
   if (darkreference.dimensions.first > 0) {
+    if (darkreference.dimensions != frameDimensions) {
+      ostringstream msg;
+      msg << "The dark reference doesn't have the dimensions of the frames!";
+      throw invalid_argument(msg.str());
+    }
     for (unsigned i = 0; i < numDetectorPixels; i++) {
       maxDiffPattern.data.get()[i] -= darkreference.data.get()[i];
     }
@@ -661,7 +666,7 @@ template <typename InputIt>
 Image<double> maximumDiffractionPattern(InputIt first, InputIt last)
 {
   // Create empty dark reference
-  Image<float> dark;
+  Image<double> dark;
 
   return maximumDiffractionPattern(first, last, dark);
 }
@@ -715,16 +720,16 @@ template RadialSum<uint64_t> radialSum(PyReader::iterator first,
 
 template Image<double> maximumDiffractionPattern(
   StreamReader::iterator first, StreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   vector<Block>::iterator first, vector<Block>::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   SectorStreamReader::iterator first, SectorStreamReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(
   PyReader::iterator first, PyReader::iterator last,
-  const Image<float>& darkreference);
+  const Image<double>& darkreference);
 template Image<double> maximumDiffractionPattern(StreamReader::iterator first,
                                                  StreamReader::iterator last);
 template Image<double> maximumDiffractionPattern(vector<Block>::iterator first,
diff --git a/stempy/image.h b/stempy/image.h
index 118767e..66ca52b 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -162,7 +162,7 @@ namespace stempy {
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
-                                          const Image<float>& darkreference);
+                                          const Image<double>& darkreference);
 
   template <typename InputIt>
   Image<double> maximumDiffractionPattern(InputIt first, InputIt last);
-- 
2.43.0


From af9ed6d7436933a17fbf795f0235147dd379c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 33/49] fix: pass contiguous arrays to C++, and don't free them
 without the GIL

---
 python/image.cpp | 66 ++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index ffe1207..88e52d0 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -18,6 +18,12 @@ using namespace stempy;
 // we may want to rethink in this is in the future.
 namespace stempy {
 
+// The data of these is accessed using a pointer, so it must be contiguous
+using FloatArray =
+  py::array_t<float, py::array::c_style | py::array::forcecast>;
+using EventArray =
+  py::array_t<uint32_t, py::array::c_style | py::array::forcecast>;
+
 template <typename T>
 py::array_t<T> vectorToPyArray(std::vector<T>&& v)
 {
@@ -47,7 +53,7 @@ struct ElectronCountedDataPyArray
     frameDimensions = other.frameDimensions;
   }
 
-  std::vector<std::vector<py::array_t<uint32_t>>> data;
+  std::vector<std::vector<EventArray>> data;
   ElectronCountedMetadata metadata;
 
   Dimensions2D scanDimensions = { 0, 0 };
@@ -56,10 +62,10 @@ struct ElectronCountedDataPyArray
 
 struct ElectronCountOptionsClassicPy
 {
-  py::array_t<float> darkReference;
+  FloatArray darkReference;
   double backgroundThreshold = DBL_MIN;
   double xRayThreshold = DBL_MAX;
-  py::array_t<float> gain;
+  FloatArray gain;
   Dimensions2D scanDimensions = { 0, 0 };
   bool applyRowDarkSubtraction = false;
   float optimizedMean = 0;
@@ -94,12 +100,12 @@ struct ElectronCountOptionsClassicPy
 
 struct ElectronCountOptionsPy
 {
-  py::array_t<float> darkReference;
+  FloatArray darkReference;
   int thresholdNumberOfBlocks = 1;
   int numberOfSamples = 20;
   double backgroundThresholdNSigma = 4;
   double xRayThresholdNSigma = 10;
-  py::array_t<float> gain;
+  FloatArray gain;
   Dimensions2D scanDimensions = { 0, 0 };
   bool verbose = false;
   bool applyRowDarkSubtraction = false;
@@ -137,7 +143,7 @@ struct ElectronCountOptionsPy
 
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
@@ -147,9 +153,9 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const FloatArray& gain)
 {
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -160,7 +166,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, Image<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, const FloatArray& gain)
 {
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -172,7 +178,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, int numberOfSamples,
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
-  py::array_t<float> gain)
+  const FloatArray& gain)
 {
 
   return calculateThresholds<BlockType, float, false>(
@@ -182,23 +188,23 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 // Only dark reference
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 
 // Gain and darkreference
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const FloatArray& gain);
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, const FloatArray& gain);
 
 template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
@@ -216,7 +222,7 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
 
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
-  const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
+  const std::vector<std::vector<EventArray>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
@@ -414,7 +420,7 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
+          const std::vector<std::vector<EventArray>>&,
           const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
@@ -504,25 +510,25 @@ PYBIND11_MODULE(_image, m)
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<Block>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, const FloatArray&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, const FloatArray&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const FloatArray&, int, double,
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              const FloatArray&, int, double,
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
@@ -539,34 +545,34 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<Block>&, py::array_t<float>, int, double, double)) &
+          vector<Block>&, const FloatArray&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<PyBlock>&, py::array_t<float>, int, double, double)) &
+          vector<PyBlock>&, const FloatArray&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
   // Calculate thresholds, with gain and without darkreference
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
-- 
2.43.0


From 4443315d4dd6d8de43519af77dabab41a4902610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 34/49] fix: use the row stride of non-square frames for the
 block buffers

---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..d3893bf 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From d459c0a55991a5884cb45765eda399a7a12dbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 35/49] fix: check and make contiguous the data of the Python
 reader

---
 python/pyreader.cpp | 14 +++++++++++---
 python/pyreader.h   |  8 ++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..e81cc0d 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -3,11 +3,11 @@
 
 namespace stempy {
 
-PyBlock::PyBlock(py::array_t<uint16_t> pyarray)
+PyBlock::PyBlock(PixelArray pyarray)
 {
   // Since this is the constructor, this should not be deleting anything
   // Otherwise, we might would need py::gil_scoped_acquire gil
-  this->data.array.reset(new py::array_t<uint16_t>(std::move(pyarray)));
+  this->data.array.reset(new PixelArray(std::move(pyarray)));
 }
 
 PyReader::PyReader(py::object pyDataSet, std::vector<uint32_t>& imageNumbers,
@@ -38,7 +38,15 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  PixelArray pyarray = getItems(sliceIndex);
+
+  if (pyarray.ndim() != 3) {
+    throw std::invalid_argument("The data must have three dimensions.");
+  }
+  if (static_cast<uint32_t>(pyarray.shape(0)) != upperBound - m_currIndex ||
+      m_imageNumbers.size() < upperBound) {
+    throw std::invalid_argument("There are fewer images than expected.");
+  }
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
diff --git a/python/pyreader.h b/python/pyreader.h
index c7ae8de..6ff6fe7 100644
--- a/python/pyreader.h
+++ b/python/pyreader.h
@@ -11,6 +11,10 @@ namespace py = pybind11;
 
 namespace stempy {
 
+// The pixels are accessed using a pointer, so they must be contiguous
+using PixelArray =
+  py::array_t<uint16_t, py::array::c_style | py::array::forcecast>;
+
 struct PYBIND11_EXPORT DataHolder
 {
   DataHolder() = default;
@@ -63,7 +67,7 @@ struct PYBIND11_EXPORT DataHolder
     this->array.reset();
   }
 
-  std::shared_ptr<py::array_t<uint16_t>> array;
+  std::shared_ptr<PixelArray> array;
 };
 
 struct PYBIND11_EXPORT PyBlock
@@ -71,7 +75,7 @@ struct PYBIND11_EXPORT PyBlock
   Header header;
   DataHolder data;
   PyBlock() = default;
-  PyBlock(py::array_t<uint16_t> pyarray);
+  PyBlock(PixelArray pyarray);
 };
 
 class PYBIND11_EXPORT PyReader
-- 
2.43.0


From c6a203a7a7fa957a541892dace4baf04f633ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 36/49] fix: use the current data and shapes of sparse arrays
 for STEM images

---
 python/stempy/image/__init__.py  | 6 +++---
 python/stempy/io/sparse_array.py | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index e2a1f93..860e28d 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,14 +80,14 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
@@ -341,7 +341,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index a5ea1bc..a3bfda3 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -376,11 +376,17 @@ class SparseArray:
                              f'{self.frame_shape} into shape {frame_shape}')
 
         # If we made it here, we can perform the reshaping...
+        self._forget_electron_counted_data()
         self.scan_shape = scan_shape
         self.frame_shape = frame_shape
 
         return self
 
+    def _forget_electron_counted_data(self):
+        # stempy.image.electron_count() attaches the C++ object, which no
+        # longer matches once the array is modified.
+        self.__dict__.pop('_electron_counted_data', None)
+
     def ravel_scans(self):
         """Reshape the SparseArray so the scan shape is flattened
 
@@ -607,6 +613,7 @@ class SparseArray:
                 new_data[scan_position] = np.concatenate(self.data[to_change])
 
         if in_place:
+            self._forget_electron_counted_data()
             self.scan_shape = new_scan_shape
             self.data = new_data
             return self
@@ -706,6 +713,7 @@ class SparseArray:
 
         new_frame_shape = tuple(x // bin_factor for x in self.frame_shape)
         if in_place:
+            self._forget_electron_counted_data()
             self.data = new_data
             self.frame_shape = new_frame_shape
             return self
-- 
2.43.0


From 3375a8d3a6288740cb85b4b94b403f7b565ac4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 37/49] fix: count electrons with the dark reference that was
 passed, not its origin

---
 python/stempy/image/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 860e28d..341f049 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -276,9 +276,6 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
         for i in range(threshold_num_blocks):
             blocks.append(next(reader))
 
-        if darkreference is not None and hasattr(darkreference, '_image'):
-            darkreference = darkreference._image
-
         args = [[b._block for b in blocks]]
         if darkreference is not None:
             args.append(darkreference)
-- 
2.43.0


From a4addb40c30a0ad4b61004c7ffe4e24be3766428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 38/49] fix: don't take the median of an empty side in the row
 dark correction

With frames that are one column wide the left side is empty, and the median
read the first element of an empty vector.
---
 stempy/electron.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index cab60d4..fb16d17 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -280,6 +280,11 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
   }
 
   auto apply = [&](size_t start, size_t stop) {
+    // The left side is empty if there is only one column
+    if (start == stop) {
+      return;
+    }
+
     auto statResult = statFunc(frame, start, stop);
 
     for (size_t i = start; i < stop; ++i) {
-- 
2.43.0


From 2e269c4d5ce6c4b7ac1b713a16d449f2a5bd65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 39/49] fix: keep a reader alive while an iterator of it is in
 use

---
 python/io.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index d3893bf..36fdca0 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -72,7 +72,8 @@ PYBIND11_MODULE(_io, m)
     .def("read", (Block(StreamReader::*)()) & StreamReader::read)
     .def("reset", &StreamReader::reset)
     .def("begin",
-         (StreamReader::iterator(StreamReader::*)()) & StreamReader::begin)
+         (StreamReader::iterator(StreamReader::*)()) & StreamReader::begin,
+         py::keep_alive<0, 1>())
     .def("end",
          (StreamReader::iterator(StreamReader::*)()) & StreamReader::end);
 
@@ -84,7 +85,8 @@ PYBIND11_MODULE(_io, m)
                   uint32_t>())
     .def("read", (PyBlock(PyReader::*)()) & PyReader::read)
     .def("reset", &PyReader::reset)
-    .def("begin", (PyReader::iterator(PyReader::*)()) & PyReader::begin)
+    .def("begin", (PyReader::iterator(PyReader::*)()) & PyReader::begin,
+         py::keep_alive<0, 1>())
     .def("end", (PyReader::iterator(PyReader::*)()) & PyReader::end);
 
   py::class_<SectorStreamReader::iterator>(m, "_sector_reader_iterator")
@@ -99,7 +101,8 @@ PYBIND11_MODULE(_io, m)
   sectorReader.def("reset", &SectorStreamReader::reset);
   sectorReader.def("begin",
                    (SectorStreamReader::iterator(SectorStreamReader::*)()) &
-                     SectorStreamReader::begin);
+                     SectorStreamReader::begin,
+                   py::keep_alive<0, 1>());
   sectorReader.def("end",
                    (SectorStreamReader::iterator(SectorStreamReader::*)()) &
                      SectorStreamReader::end);
-- 
2.43.0


From e6f863fecb61fe5d6e29a3ec56e4617a81e07120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 40/49] fix: guard sector locations against repeated sectors in
 other files

---
 stempy/reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index c005502..de158d0 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -973,11 +973,11 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
       }
       auto& frameMaps = m_scanMap[imageNumber];
 
-      // Protect initialization of the map with the correct mutex
+      // Protect the map with the correct mutex, also while the location is
+      // written, as another file may have the same sector.
       std::unique_lock<std::mutex> lock(
         *m_scanPositionMutexes[imageNumber].get());
       auto& frameMap = frameMaps[header.frameNumber];
-      lock.unlock();
       auto& sectorLocation = frameMap[sector];
 
       sectorLocation.sector = sector;
@@ -986,6 +986,7 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
       sectorLocation.streamIndex = sectorStreamIndex;
 #endif
       sectorLocation.offset = stream->tellg();
+      lock.unlock();
       stream->seekg(dataSize * sizeof(uint16_t), stream->cur);
     }
   }
-- 
2.43.0


From 8c3f6a497b62c331614a84c597c01d1d9540e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 41/49] fix: refuse to calculate thresholds of frames without
 pixels

---
 stempy/electronthresholds.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index b4f8410..0110767 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -95,6 +95,9 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   }
 
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
+  if (numberOfPixels == 0) {
+    throw std::invalid_argument("The frames have no pixels.");
+  }
 
   // Setup random number engine
   std::random_device randomDevice;
-- 
2.43.0


From 7ff2c16b52693042679c5fe21adb8521ebe78521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 42/49] fix: division by zero when writing a data cube with a
 scan width of zero

---
 stempy/reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index de158d0..c0fa61d 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -797,6 +797,9 @@ void SectorStreamReader::toHdf5DataCubeFormat(h5::H5ReadWrite& writer)
                          b.header.frameDimensions.first };
     for (unsigned i = 0; i < b.header.imagesInBlock; i++) {
       auto pos = b.header.imageNumbers[0];
+      if (b.header.scanDimensions.first == 0) {
+        throw std::runtime_error("The scan has no columns.");
+      }
       auto offset = i * FRAME_DIMENSIONS.first * FRAME_DIMENSIONS.second;
       auto x = pos % b.header.scanDimensions.first;
       auto y = pos / b.header.scanDimensions.first;
-- 
2.43.0


From cafb4557b2193b363809a0f38176734d13051f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 43/49] fix: find the neighbours in frames with more than 65535
 rows or columns

The coordinates were truncated to 16 bits: a frame of 65536 rows divided by
zero, and larger ones were compared with the wrong pixels.
---
 stempy/electron.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index fb16d17..0efc16e 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -334,7 +334,7 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
 }
 
 // Implementation of modulus that "wraps" for negative numbers
-inline uint16_t mod(uint16_t x, uint16_t y)
+inline uint32_t mod(uint32_t x, uint32_t y)
 {
   return ((x % y) + y) % y;
 }
-- 
2.43.0


From ddcc10ebd084bdcd86126e8e8cc54da8c3bc2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 44/49] fix: crop the flyback column of electron count files of
 version 1 and 2

The rows of these files are not in the order of the scan positions, and there
can be more or fewer than one per position, so taking the rows of the other
columns by their index gave other positions' events, or failed.
---
 python/stempy/io/sparse_array.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index a3bfda3..1c0f84d 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -202,7 +202,9 @@ class SparseArray:
             scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
-            if keep_flyback:
+            if keep_flyback or version < 3:
+                # The rows of older files need not be in the order of the
+                # scan positions. They are cropped after the conversion.
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
             else:
@@ -246,6 +248,13 @@ class SparseArray:
             }
             data = convert_data_format(**kwargs)
 
+            if not keep_flyback and version < 3:
+                # Crop the flyback column
+                num = data.shape[1]
+                data = data.reshape((*scan_shape, num))[:, :-1]
+                scan_shape = (scan_shape[0], scan_shape[1] - 1)
+                data = data.reshape((np.prod(scan_shape), num))
+
         kwargs = {
             'data': data,
             'scan_shape': scan_shape,
-- 
2.43.0


From c27b065fb2909f5251df16708c9edf42f45da348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 45/49] fix: free the masks of STEM images when the computation
 throws

---
 stempy/image.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index db96f9e..47b86b2 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -236,7 +236,8 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
   auto frameDimensions = first->header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
-  vector<uint16_t*> masks;
+  // Declared before the pool, whose threads use them
+  vector<std::unique_ptr<uint16_t[]>> masks;
 
 #ifdef VTKm
   // Only transfer the masks once
@@ -244,12 +245,12 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
 #endif
 
   for (size_t i = 0; i < innerRadii.size(); ++i) {
-    masks.push_back(
+    masks.emplace_back(
       createAnnularMask(frameDimensions, innerRadii[i], outerRadii[i], center));
 
 #ifdef VTKm
     maskHandles.push_back(
-      vtkm::cont::make_ArrayHandle(masks.back(), numberOfPixels));
+      vtkm::cont::make_ArrayHandle(masks.back().get(), numberOfPixels));
 #endif
   }
 
@@ -286,7 +287,7 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
           b.data.reset();
         }));
 #else
-      const auto& mask = masks[i];
+      auto* mask = masks[i].get();
       futures.emplace_back(
         pool.enqueue([b, numberOfPixels, mask, &image]() mutable {
           _runCalculateSTEMValues(b.data.get(), b.header.imageNumbers,
@@ -303,9 +304,6 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
   for (auto& future : futures)
     future.get();
 
-  for (const auto* p : masks)
-    delete[] p;
-
   return images;
 }
 
-- 
2.43.0


From c81635cd10398edef0edb4301b441d4fdb50b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 46/49] fix: close the data type of string attributes

---
 h5cpp/h5readwrite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index aa11199..5681aaf 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -961,6 +961,7 @@ bool H5ReadWrite::setAttribute<const char*>(const string& path,
   HIDCloser dataSpaceCloser(dataSpaceId, H5Sclose);
 
   hid_t dataType = H5Tcopy(H5T_C_S1);
+  HIDCloser dataTypeCloser(dataType, H5Tclose);
   herr_t status = H5Tset_size(dataType, H5T_VARIABLE);
 
   if (status < 0) {
-- 
2.43.0


From 1a4b981eece32e26788aaf583346fb4ce540adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:53 +0000
Subject: [PATCH 47/49] fix: attributes of several values are not read as one

---
 h5cpp/h5readwrite.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index 5681aaf..d300347 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -104,6 +104,15 @@ public:
     return info.num_attrs > 0;
   }
 
+  // The values of an attribute are only read into a buffer for one value
+  bool hasOneElement(hid_t attr)
+  {
+    hid_t dataSpaceId = H5Aget_space(attr);
+    HIDCloser dataSpaceCloser(dataSpaceId, H5Sclose);
+
+    return H5Sget_simple_extent_npoints(dataSpaceId) == 1;
+  }
+
   bool attribute(const string& path, const string& name, void* value,
                  hid_t dataTypeId, hid_t memTypeId)
   {
@@ -130,6 +139,11 @@ public:
       return false;
     }
 
+    if (!hasOneElement(attr)) {
+      cerr << "Attribute " << path << name << " is not a single value." << endl;
+      return false;
+    }
+
     return H5Aread(attr, memTypeId, value) >= 0;
   }
 
@@ -637,6 +651,10 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
     cerr << path << name << " is not a string" << endl;
     return result;
   }
+  if (!m_impl->hasOneElement(attr)) {
+    cerr << path << name << " is not a single string" << endl;
+    return result;
+  }
   char* tmpString;
   int is_var_str = H5Tis_variable_str(type);
   if (is_var_str > 0) { // if it is a variable-length string
@@ -644,7 +662,8 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
       cerr << "Failed to read attribute " << path << " " << name << endl;
       return result;
     }
-    result = tmpString;
+    if (tmpString)
+      result = tmpString;
     free(tmpString);
   } else if (is_var_str == 0) { // If it is not a variable-length string
     // it must be fixed length since the "is a string" check earlier passed.
-- 
2.43.0


From 470d88bcda925940677dffa7c5d39b63831afa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 48/49] fix: ranks without sample blocks get the dimensions
 from rank 0

---
 stempy/electron.cpp     | 14 ++++++++++++--
 stempy/electron.h       |  1 +
 stempy/electron_mpi.cpp | 13 +++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 0efc16e..247d5f1 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -833,11 +833,21 @@ ElectronCountedData electronCount(Reader* reader,
 #endif
 
   // Now setup  electron count output
-  auto frameSize = sampleBlocks[0].header.frameDimensions;
+  Dimensions2D frameSize = { 0, 0 };
+  Dimensions2D headerScanDimensions = { 0, 0 };
+  if (!sampleBlocks.empty()) {
+    frameSize = sampleBlocks[0].header.frameDimensions;
+    headerScanDimensions = sampleBlocks[0].header.scanDimensions;
+  }
+
+#ifdef USE_MPI
+  // A rank may not have any sample blocks, rank 0 has all of them
+  broadcastDimensions(frameSize, headerScanDimensions);
+#endif
 
   // If we haven't been provided with width and height, try the header.
   if (scanDimensions.first == 0 || scanDimensions.second == 0) {
-    scanDimensions = sampleBlocks[0].header.scanDimensions;
+    scanDimensions = headerScanDimensions;
   }
 
   // Raise an exception if we still don't have valid rows and columns
diff --git a/stempy/electron.h b/stempy/electron.h
index 4b9fd5f..36881a1 100644
--- a/stempy/electron.h
+++ b/stempy/electron.h
@@ -81,6 +81,7 @@ void gatherBlocks(int worldSize, int rank, std::vector<Block>& blocks);
 void gatherEvents(int worldSize, int rank, Events& events);
 void broadcastThresholds(double& background, double& xRay,
                          double& optimizedMean);
+void broadcastDimensions(Dimensions2D& frame, Dimensions2D& scan);
 
 #endif
 }
diff --git a/stempy/electron_mpi.cpp b/stempy/electron_mpi.cpp
index bf9463c..df089c6 100644
--- a/stempy/electron_mpi.cpp
+++ b/stempy/electron_mpi.cpp
@@ -197,6 +197,19 @@ void broadcastThresholds(double& background, double& xRay,
   optimizedMean = thresholds[2];
 }
 
+void broadcastDimensions(Dimensions2D& frame, Dimensions2D& scan)
+{
+  std::vector<uint32_t> dimensions = { frame.first, frame.second, scan.first,
+                                       scan.second };
+
+  // Broadcast the dimensions
+  MPI_Bcast(dimensions.data(), dimensions.size(), MPI_UINT32_T, 0,
+            MPI_COMM_WORLD);
+
+  frame = { dimensions[0], dimensions[1] };
+  scan = { dimensions[2], dimensions[3] };
+}
+
 int getSampleBlocksPerRank(int worldSize, int rank, int thresholdNumberOfBlocks)
 {
   auto sampleBlocksPerRank = thresholdNumberOfBlocks / worldSize;
-- 
2.43.0


From ddd846b92e9a99e016d6318d0dbe35183930e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 49/49] fix: the first header isn't read again on ranks without
 scan positions

---
 stempy/reader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index b6ecd65..0eefece 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -780,7 +780,8 @@ inline void SectorStreamMultiPassThreadedReader::initializePool()
 
 inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
 {
-  if (m_scanMapSize != 0) {
+  // With MPI the part of the scan of this rank may be empty
+  if (m_scanMapSize != 0 || !m_scanMap.empty()) {
     // We must have already read the first header. Don't do it again.
     return;
   }
-- 
2.43.0

