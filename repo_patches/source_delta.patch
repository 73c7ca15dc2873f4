From 4c5fe246a38302c580d6ee940d927827a04a0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 01/73] fix: keep all copies of a frame pixel selected
 repeatedly when slicing a SparseArray

---
 python/stempy/io/sparse_array.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 497f13b..623f183 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -970,9 +970,19 @@ class SparseArray:
             # Allocate the new data
             new_data = np.empty(new_frames.shape, dtype=object)
 
+            # An advanced index may select the same pixel more than once, in
+            # which case one old index maps to several new ones.
+            has_repeats = (len(np.unique(valid_flat_frame_indices)) !=
+                           len(valid_flat_frame_indices))
+
             # Now set it
             for i, scan_frames in enumerate(new_frames):
                 for j, sparse_frame in enumerate(scan_frames):
+                    if has_repeats:
+                        new_data[i, j] = np.flatnonzero(
+                            np.isin(valid_flat_frame_indices, sparse_frame))
+                        continue
+
                     new_frame = new_frame_indices_map[sparse_frame]
                     new_data[i, j] = copy.deepcopy(new_frame[new_frame >= 0])
         else:
-- 
2.43.0


From ed8bde908b4fa392bcec24addc236616134f7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 02/73] fix: SparseArray.max over the frame axes with positions
 that have no events

---
 python/stempy/io/sparse_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 623f183..84891f1 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -421,7 +421,7 @@ class SparseArray:
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
-                ret[i] = np.max(counts)
+                ret[i] = np.max(counts, initial=0)
             return ret.reshape(self.scan_shape)
 
     @_arithmethic_decorators
-- 
2.43.0


From 8404e27272931c69d74adbbbb3e4841b6d84b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 03/73] fix: SparseArray.min with a floating point dtype

---
 python/stempy/io/sparse_array.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 84891f1..1aa2948 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -452,7 +452,7 @@ class SparseArray:
             dtype = self.dtype
 
         if self._is_scan_axes(axis):
-            ret = np.full(self._frame_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._frame_shape_flat, _max_value(dtype), dtype)
             expanded = np.empty(self._frame_shape_flat, dtype)
             for scan_frames in self.data:
                 expanded[:] = 0
@@ -463,7 +463,7 @@ class SparseArray:
             return ret.reshape(self.frame_shape)
 
         if self._is_frame_axes(axis):
-            ret = np.full(self._scan_shape_flat, np.iinfo(dtype).max, dtype)
+            ret = np.full(self._scan_shape_flat, _max_value(dtype), dtype)
             for i, scan_frames in enumerate(self.data):
                 concatenated = np.concatenate(scan_frames)
                 unique, counts = np.unique(concatenated, return_counts=True)
@@ -1078,6 +1078,11 @@ def _is_none_slice(x):
     return isinstance(x, slice) and x == NONE_SLICE
 
 
+def _max_value(dtype):
+    info = np.finfo if np.issubdtype(dtype, np.inexact) else np.iinfo
+    return info(dtype).max
+
+
 def _warning(msg):
     print(f'Warning: {msg}', file=sys.stderr)
 
-- 
2.43.0


From 90a7d4ff8d38578b369adbafed202a990319a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 04/73] fix: accept dtype in SparseArray.min/max for axes that
 need a full expansion

---
 python/stempy/io/sparse_array.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 1aa2948..e6beebd 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -42,7 +42,15 @@ def _default_full_expansion(func):
             expanded = self[:]
         finally:
             self.sparse_slicing = prev_sparse_slicing
-        return getattr(expanded, name)(*args, **kwargs)
+
+        if name not in ('min', 'max'):
+            return getattr(expanded, name)(*args, **kwargs)
+
+        # The min/max of numpy do not take a dtype. Convert the result.
+        axis, *dtype = args
+        dtype = dtype[0] if dtype else kwargs.pop('dtype', None)
+        ret = getattr(expanded, name)(axis, **kwargs)
+        return ret if dtype is None else ret.astype(dtype)
     return wrapper
 
 
-- 
2.43.0


From 46671baf60339bb593438c06d53b20d8dc3682e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 05/73] fix: SparseArray.bin_scans with one scan dimension

---
 python/stempy/io/sparse_array.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index e6beebd..c72ffde 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -587,19 +587,17 @@ class SparseArray:
         # No need to modify the data, just the scan shape and the scan
         # positions.
         new_scan_shape = tuple(x // bin_factor for x in self.scan_shape)
-        all_positions = self.scan_positions
-        all_positions_reshaped = all_positions.reshape(
-            new_scan_shape[0], bin_factor, new_scan_shape[1], bin_factor)
+        all_positions = self.scan_positions.reshape(self.scan_shape)
 
         new_data_shape = (np.prod(new_scan_shape),
-                          bin_factor**2 * self.num_frames_per_scan)
+                          bin_factor**len(self.scan_shape) *
+                          self.num_frames_per_scan)
         new_data = np.empty(new_data_shape, dtype=object)
-        for i in range(new_scan_shape[0]):
-            for j in range(new_scan_shape[1]):
-                idx = i * new_scan_shape[1] + j
-                scan_position = all_positions[idx]
-                to_change = all_positions_reshaped[i, :, j, :].ravel()
-                new_data[scan_position] = np.concatenate(self.data[to_change])
+        for i, idx in enumerate(np.ndindex(*new_scan_shape)):
+            to_bin = tuple(slice(x * bin_factor, (x + 1) * bin_factor)
+                           for x in idx)
+            to_change = all_positions[to_bin].ravel()
+            new_data[i] = np.concatenate(self.data[to_change])
 
         if in_place:
             self.scan_shape = new_scan_shape
-- 
2.43.0


From 3fb542f57ceb2d6181cf000a7d92d36f6b089528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 06/73] fix: SparseArray.bin_frames for frames that are not
 square

---
 python/stempy/io/sparse_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index c72ffde..68c6f69 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -636,10 +636,10 @@ class SparseArray:
         # Ravel the data for easier manipulation in this function
         data = self.data.ravel()
 
-        rows = data // self.frame_shape[0] // bin_factor
+        rows = data // self.frame_shape[1] // bin_factor
         cols = data % self.frame_shape[1] // bin_factor
 
-        rows *= (self.frame_shape[0] // bin_factor)
+        rows *= (self.frame_shape[1] // bin_factor)
         rows += cols
 
         new_data = rows
-- 
2.43.0


From 864cb44787004579f6471fde82cf3ca5669f5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 07/73] fix: return the requested dtype from SparseArray.mean
 over all axes

---
 python/stempy/io/sparse_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 68c6f69..bd788ce 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -561,7 +561,7 @@ class SparseArray:
             summed[:] /= mean_length
         else:
             # It's a scalar
-            summed /= mean_length
+            summed = np.true_divide(summed, mean_length, dtype=dtype)
 
         return summed
 
-- 
2.43.0


From 59e4350f4c2f067008f55fb8c89417eaabbfe3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 08/73] fix: write every frame of a SparseArray to HDF5 when
 all have the same length

---
 python/stempy/io/sparse_array.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index bd788ce..f47ad8b 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -284,7 +284,14 @@ class SparseArray:
             frames.attrs['Nx'] = self.frame_shape[0]
             frames.attrs['Ny'] = self.frame_shape[1]
 
-            frames[...] = data.ravel()
+            flat = np.empty(data.size, dtype=coordinates_type)
+            for i, frame in enumerate(data.ravel()):
+                flat[i] = np.ascontiguousarray(frame, dtype=np.uint32)
+
+            # Do not assign via frames[...], since h5py would try to combine
+            # the frames into one array if they all have the same length.
+            if flat.size:
+                frames.id.write(h5py.h5s.ALL, h5py.h5s.ALL, flat)
 
             # Write out the metadata
             save_dict_to_h5(self.metadata, f.require_group('metadata'))
-- 
2.43.0


From 4d322a886f8340ac3e0c017dcf1aa8dd682bacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 09/73] fix: drop the right frames when loading older files
 without the flyback column

---
 python/stempy/io/sparse_array.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index f47ad8b..2d05a25 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -203,7 +203,11 @@ class SparseArray:
             scan_shape = [scan_positions_group.attrs[x] for x in ['Nx', 'Ny']]
             frame_shape = [frames.attrs[x] for x in ['Nx', 'Ny']]
 
-            if keep_flyback:
+            # The frames of older versions are not sorted by scan position.
+            # The flyback column can only be cropped after the conversion.
+            crop_converted = not keep_flyback and version < 3
+
+            if keep_flyback or crop_converted:
                 data = frames[()] # load the full data set
                 scan_positions = scan_positions_group[()]
             else:
@@ -247,6 +251,11 @@ class SparseArray:
             }
             data = convert_data_format(**kwargs)
 
+        if crop_converted:
+            data = data.reshape((*scan_shape, data.shape[1]))[:, :-1]
+            scan_shape = data.shape[:2]
+            data = data.reshape((np.prod(scan_shape), data.shape[2]))
+
         kwargs = {
             'data': data,
             'scan_shape': scan_shape,
-- 
2.43.0


From 8ea37037492e3f2d4eeb5dc597f2026a45980878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 10/73] fix: com_sparse of data with one scan dimension

---
 python/stempy/image/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 2f79621..7bd338c 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -408,7 +408,7 @@ def com_v1_kernel(
     init_center: Union[Tuple[int, int], None] = None,
     replace_nans: bool = True,
 ) -> np.ndarray:
-    num_scans = scan_shape[0] * scan_shape[1]
+    num_scans = np.prod(scan_shape)
     frame_x, frame_y = frame_shape
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
@@ -569,9 +569,9 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
     com = com.reshape((2, *array.scan_shape))
     
     if replace_nans:
-        com_mean = np.nanmean(com, axis=(1,2))
-        np.nan_to_num(com[0,:,:], nan=com_mean[0], copy=False)
-        np.nan_to_num(com[1,:,:], nan=com_mean[1], copy=False)
+        com_mean = np.nanmean(com.reshape((2, -1)), axis=1)
+        np.nan_to_num(com[0], nan=com_mean[0], copy=False)
+        np.nan_to_num(com[1], nan=com_mean[1], copy=False)
     
     return com
 
-- 
2.43.0


From 9dd582c2484c6c448bd9d3aae85550586412e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 11/73] fix: com_sparse for frames that are not square

---
 python/stempy/image/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 7bd338c..9e7a193 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -409,7 +409,7 @@ def com_v1_kernel(
     replace_nans: bool = True,
 ) -> np.ndarray:
     num_scans = np.prod(scan_shape)
-    frame_x, frame_y = frame_shape
+    frame_y = frame_shape[1]
 
     com = np.full((2, num_scans), np.nan, dtype=np.float32)
 
@@ -417,11 +417,11 @@ def com_v1_kernel(
         return com.reshape((2, *scan_shape))
 
     # Decode coordinates
-    if frame_x & (frame_x - 1) == 0:  # power of 2
-        shift = int(np.log2(frame_x))
+    if frame_y & (frame_y - 1) == 0:  # power of 2
+        shift = int(np.log2(frame_y))
         x = (all_events_concat >> shift).astype(np.float32)
     else:
-        x = (all_events_concat // frame_x).astype(np.float32)
+        x = (all_events_concat // frame_y).astype(np.float32)
 
     if frame_y & (frame_y - 1) == 0:
         mask = frame_y - 1
@@ -529,7 +529,7 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
         ev = np.hstack(frames)
 
         if len(ev) > 0:
-            x = ev // array.frame_shape[0]
+            x = ev // array.frame_shape[1]
             y = ev % array.frame_shape[1]
             mm0 = len(ev)
             
-- 
2.43.0


From 537a6887490a02ac1a3de8403e2ea25a37665386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 12/73] fix: com_sparse distances overflow with small or
 unsigned event types

---
 python/stempy/image/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 9e7a193..31e773a 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -526,7 +526,8 @@ def _com_sparse_v0(array, crop_to=None, init_center=None, replace_nans=True):
     for scan_position, frames in enumerate(array.data):
         # Combine the sparse arrays into one array.
         # This takes care of multiple frames per probe position
-        ev = np.hstack(frames)
+        # Use signed integers that do not overflow in the distances below.
+        ev = np.hstack(frames).astype(np.int64)
 
         if len(ev) > 0:
             x = ev // array.frame_shape[1]
-- 
2.43.0


From af15c82e46fcc8a43c567e6b2cc445d683593608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 13/73] fix: virtual_darkfield for frames that are not square

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 31e773a..1f5ed60 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -840,7 +840,7 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
-            ev_rows = ev // array.frame_shape[0]
+            ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
                 dist = np.sqrt((ev_rows - cc_1)**2 + (ev_cols - cc_0)**2)
-- 
2.43.0


From bd20a2b3194f2eeb5ed549e13923a04de80494e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 14/73] fix: virtual_darkfield distances overflow with small or
 unsigned event types

---
 python/stempy/image/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 1f5ed60..308e7b3 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -840,6 +840,8 @@ def virtual_darkfield(array, centers_x, centers_y, radii):
     rs_image = np.zeros((array.shape[0] * array.shape[1],), dtype=array.dtype)
     for ii, events in enumerate(array.data):
         for ev in events:
+            # Signed, so that the distances to the centers cannot wrap around
+            ev = ev.astype(np.int64)
             ev_rows = ev // array.frame_shape[1]
             ev_cols = ev % array.frame_shape[1]
             for cc_0, cc_1, rr in zip(centers_x, centers_y, radii):
-- 
2.43.0


From 2c54a06fb64492ff1f8f7f3084b1bd6ae237393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 15/73] fix: filter_bad_sectors at the first row and column of
 the scan

---
 python/stempy/image/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 308e7b3..1181ea5 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -638,8 +638,10 @@ def filter_bad_sectors(com, cut_off):
     x, y = np.where(_)
 
     for ii, jj in zip(x, y):
-        com[0, ii, jj] = np.nanmedian(com[0, ii - 1:ii + 2, jj - 1:jj + 2])
-        com[1, ii, jj] = np.nanmedian(com[1, ii - 1:ii + 2, jj - 1:jj + 2])
+        # The window is cut off at the edges of the scan
+        i0, j0 = max(ii - 1, 0), max(jj - 1, 0)
+        com[0, ii, jj] = np.nanmedian(com[0, i0:ii + 2, j0:jj + 2])
+        com[1, ii, jj] = np.nanmedian(com[1, i0:ii + 2, j0:jj + 2])
     return com
 
 def com_dense(frames):
-- 
2.43.0


From 6f62e36740ec387e7a0e52550f0743c5f4528510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 16/73] fix: get_scan_path with version 0 names matched longer
 scan numbers and other suffixes

---
 python/stempy/contrib/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index a63d631..96ea247 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -1,3 +1,4 @@
+import re
 from enum import Enum
 from pathlib import Path
 from typing import Optional, Tuple
@@ -73,6 +74,18 @@ def get_scan_path_version_0(
 
     file_path = list(directory.glob(file_pattern))
 
+    # The patterns also match longer numbers and, with an id, other suffixes
+    number = f"_id0*{scan_id}" if scan_id is not None else f"_scan0*{scan_num}"
+    other_suffixes = tuple(
+        s.value for s in FileSuffix if s.value and s != file_suffix
+    )
+    file_path = [
+        p
+        for p in file_path
+        if re.search(number + r"(?!\d)", p.name)
+        and not p.stem.endswith(other_suffixes)
+    ]
+
     check_only_one_filepath(file_path)
 
     file_path = file_path[0]
-- 
2.43.0


From 01c9d8f7506ba86fa15a269412f745573a91c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 17/73] fix: get_scan_path accepts the directory as a string,
 as documented

---
 python/stempy/contrib/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/stempy/contrib/__init__.py b/python/stempy/contrib/__init__.py
index 96ea247..198d06b 100644
--- a/python/stempy/contrib/__init__.py
+++ b/python/stempy/contrib/__init__.py
@@ -192,6 +192,7 @@ def get_scan_path(
         scan_num and scan_id as a tuple.
     """
 
+    directory = Path(directory)
     versions_to_try = [1, 0] if version is None else [version]
     version_functions = {
         0: lambda: get_scan_path_version_0(
-- 
2.43.0


From 7a86afde5431ccc2cbbaa62e7c886ea01705880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 18/73] fix: the threaded reader did not set the complete flag
 that electron counting reads

---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index 4292a91..b9df2de 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -426,6 +426,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
               frame.block.header.imageNumbers.push_back(pos);
               frame.block.header.frameNumber = frameNumber;
               frame.block.header.frameDimensions = FRAME_DIMENSIONS;
+              // Only complete frames are passed on
+              frame.block.header.complete.push_back(true);
               std::shared_ptr<uint16_t> data;
 
               data.reset(
-- 
2.43.0


From 36870556e86ac9ad32b6ad74213ccfc2b6447730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 19/73] fix: data race between the threaded reader's workers on
 the list of streams

---
 stempy/reader.cpp | 6 ++++++
 stempy/reader.h   | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 7e0a090..47163f3 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -795,6 +795,12 @@ void SectorStreamThreadedReader::initNumberOfThreads()
   }
 }
 
+bool SectorStreamThreadedReader::streamsLeft()
+{
+  std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+  return !m_streams.empty();
+}
+
 bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
 {
   {
diff --git a/stempy/reader.h b/stempy/reader.h
index b9df2de..fdf27d2 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -373,6 +373,8 @@ private:
 
   void initNumberOfThreads();
   bool nextStream(StreamQueueEntry& entry);
+  // Whether there are streams which have not been read to their end
+  bool streamsLeft();
 };
 
 template <typename Functor>
@@ -392,7 +394,7 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(m_pool->enqueue([this, &func]() {
 
-      while (!m_streams.empty()) {
+      while (streamsLeft()) {
         // Get the next stream to read from
         StreamQueueEntry streamQueueEntry;
 
-- 
2.43.0


From 76da45a96b3e33b65cc8d41f2396d2f9d6daa75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 20/73] fix: reading all blocks again with a threaded reader

---
 stempy/reader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index fdf27d2..be7c214 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -381,6 +381,8 @@ template <typename Functor>
 std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 {
   m_pool = std::make_unique<ThreadPool>(m_threads);
+  // The futures of an earlier pass are of no use any more
+  m_futures.clear();
 
   auto streamsIterator = m_streams.begin();
 
@@ -821,6 +823,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
   initializePool();
   initializeScanMap();
 
+  // Start at the first frame, with no futures left from an earlier pass
+  m_processed = m_scanMapOffset;
+  m_futures.clear();
+
   // Now enqueue lambda's to read the frames and run processing
   for (int i = 0; i < m_threads; i++) {
     m_futures.emplace_back(
-- 
2.43.0


From c792a32ed2e21d7d8dbbb4ca2a835259fb2615c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 21/73] fix: wait for all workers of a threaded reader before
 passing on an exception

---
 stempy/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index be7c214..24199b5 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -478,6 +478,10 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // All have to be done before an exception of one of them is passed on
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
@@ -835,6 +839,10 @@ std::future<void> SectorStreamMultiPassThreadedReader::readAll(Functor& func)
 
   // Return a future that is resolved once the processing is complete
   auto complete = std::async(std::launch::deferred, [this]() {
+    // All have to be done before an exception of one of them is passed on
+    for (auto& future : this->m_futures) {
+      future.wait();
+    }
     for (auto& future : this->m_futures) {
       future.get();
     }
-- 
2.43.0


From 5a6728deeaba72718067e6aa02ca8f3587deac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 22/73] fix: SectorStreamReader::reset kept partial frames of
 what was read before

---
 stempy/reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 47163f3..6ee173b 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -562,6 +562,8 @@ void SectorStreamReader::reset()
     }
   }
   m_streams.clear();
+  // Forget the partial frames of what has been read so far
+  m_frameCache.clear();
   openFiles();
   m_streamsIterator = m_streams.begin();
 }
-- 
2.43.0


From 1018d22c62d8c1a0d20448eabba4b0080013f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 23/73] fix: row dark subtraction for frames that are not
 square

---
 stempy/electron.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f9e73df..0c79849 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -242,8 +242,8 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
                   double xRayThreshold, const float globalDark[],
                   const float gain[], bool useMean)
 {
-  auto height = frameDimensions.first;
-  auto width = frameDimensions.second;
+  auto width = frameDimensions.first;
+  auto height = frameDimensions.second;
 
   // If the width is an odd number, give the right side the extra one
   auto leftSize = width / 2;
-- 
2.43.0


From eb84b19c503140ebe352248a36b259cb4946995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 24/73] fix: row dark subtraction of rows that are all zero,
 with a gain

---
 stempy/electron.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 0c79849..ba9a90c 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -295,8 +295,9 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
         frame[i] *= gain[i];
       }
 
-      // Threshold the electron events
-      if (frame[i] <= backgroundThreshold || frame[i] >= xRayThreshold) {
+      // Threshold the electron events. This also clears the values which are
+      // not a number, because all pixels of this side of the row are zero.
+      if (!(frame[i] > backgroundThreshold && frame[i] < xRayThreshold)) {
         frame[i] = 0;
       }
     }
-- 
2.43.0


From 08a6aa78cbc3e7542d1bac328ae4979992b2fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 25/73] fix: row stride of blocks with frames that are not
 square

---
 python/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index 5e6c875..d3893bf 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -37,7 +37,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
@@ -58,7 +58,7 @@ PYBIND11_MODULE(_io, m)
           b.header.frameDimensions.first }, /* Buffer dimensions */
         { sizeof(uint16_t) * b.header.frameDimensions.second *
             b.header.frameDimensions.first,
-          sizeof(uint16_t) * b.header.frameDimensions.second,
+          sizeof(uint16_t) * b.header.frameDimensions.first,
           sizeof(uint16_t) } /* Strides (in bytes) for each index */
       );
     });
-- 
2.43.0


From 8cafe73ac1db5dc58d8316a4ec2d6e9ff6ab02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 26/73] fix: threaded electron counting added the events of
 sample blocks without the lock of their position

---
 stempy/electron.cpp | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index ba9a90c..3b2cecd 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -757,37 +757,16 @@ ElectronCountedData electronCount(Reader* reader,
   lock.unlock();
   sampleCondition.notify_all();
 
-  // lambda to process sample and incomplete blocks
-  auto countExtraBlock = [&events, &backgroundThreshold, &xRayThreshold,
-                          darkReference, gain, applyRowDarkSubtraction,
-                          optimizedMean, applyRowDarkUseMean] (Block& b) {
-    auto data = b.data.get();
-    auto frameDimensions = b.header.frameDimensions;
-    for (unsigned j = 0; j < b.header.imagesInBlock; j++) {
-      auto frameStart =
-        data + j * frameDimensions.first * frameDimensions.second;
-      std::vector<FrameType> frame(frameStart,
-                                   frameStart + frameDimensions.first *
-                                                  frameDimensions.second);
-      auto frameEvents = electronCount<FrameType, dark>(
-        frame, frameDimensions, darkReference, backgroundThreshold,
-        xRayThreshold, gain, applyRowDarkSubtraction, optimizedMean,
-        applyRowDarkUseMean);
-      auto position = b.header.imageNumbers[j];
-      events[position].push_back(std::move(frameEvents));
-    }
-  };
-
   // Count the sample blocks
   for (auto i = 0; i < thresholdNumberOfBlocks; i++) {
     auto& b = sampleBlocks[i];
-    countExtraBlock(b);
+    countBlock(b);
   }
 
   // Count the incomplete blocks
   for (size_t i = 0; i < incompleteBlocks.size(); i++) {
     auto& b = incompleteBlocks[i];
-    countExtraBlock(b);
+    countBlock(b);
   }
 
   // Make sure all threads are finished before returning the result
-- 
2.43.0


From 0b6325deeb8b7dad0c9179c9c466b6d06b37cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 27/73] fix: threaded electron counting never returned with too
 few blocks, or when the thresholds failed

---
 stempy/electron.cpp | 71 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 3b2cecd..9672c99 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -605,6 +605,11 @@ ElectronCountedData electronCount(Reader* reader,
   // The blocks that where not used for samples as they are incomplete
   std::vector<Block> incompleteBlocks;
 
+  // Set when there are no more blocks to come, and when the counting is given
+  // up. Both are protected by the sample mutex.
+  bool allRead = false;
+  bool aborted = false;
+
 #ifdef USE_MPI
   int rank, worldSize;
   initMpiWorldRank(worldSize, rank);
@@ -643,8 +648,8 @@ ElectronCountedData electronCount(Reader* reader,
   };
 
   auto counter = [&events, &electronCounting, &sampleMutex, &sampleCondition,
-                  &sampleBlocks, &incompleteBlocks, thresholdNumberOfBlocks,
-                  &countBlock](Block& b) {
+                  &sampleBlocks, &incompleteBlocks, &aborted,
+                  thresholdNumberOfBlocks, &countBlock](Block& b) {
     // If we are still collecting sample block for calculating the threshold
     if (!electronCounting) {
       std::unique_lock<std::mutex> sampleLock(sampleMutex);
@@ -669,9 +674,14 @@ ElectronCountedData electronCount(Reader* reader,
       // We have our samples, so we should wait for the threshold to be
       // calculated in the main thread, before we can start counting.
       else {
-        sampleCondition.wait(sampleLock, [&electronCounting]() {
-          return electronCounting.load();
+        sampleCondition.wait(sampleLock, [&electronCounting, &aborted]() {
+          return electronCounting.load() || aborted;
         });
+        // There are no thresholds to count the block with.
+        if (!electronCounting) {
+          return;
+        }
+        sampleLock.unlock();
         // Make sure we count the block.
         countBlock(b);
       }
@@ -682,14 +692,50 @@ ElectronCountedData electronCount(Reader* reader,
     }
   };
 
-  auto done = reader->readAll(counter);
+  auto reading = reader->readAll(counter);
+
+  // Resolved once all blocks have been read. Its destructor waits for this, so
+  // that the workers are done with our variables when we leave with an
+  // exception.
+  auto done = std::async(
+    std::launch::async, [&reading, &sampleMutex, &sampleCondition, &allRead]() {
+      reading.wait();
+      {
+        std::unique_lock<std::mutex> sampleLock(sampleMutex);
+        allRead = true;
+      }
+      sampleCondition.notify_all();
+      reading.get();
+    });
+
+  // Lets the workers go which wait for the thresholds, should there be none.
+  std::shared_ptr<void> releaseWorkers(
+    nullptr,
+    [&sampleMutex, &sampleCondition, &electronCounting, &aborted](void*) {
+      {
+        std::unique_lock<std::mutex> sampleLock(sampleMutex);
+        aborted = !electronCounting;
+      }
+      sampleCondition.notify_all();
+    });
 
-  // Wait for enough blocks to come in to calculate the threshold.
+  // Wait for enough blocks to come in to calculate the threshold, or for the
+  // end if there are less.
   std::unique_lock<std::mutex> lock(sampleMutex);
-  sampleCondition.wait(lock, [&sampleBlocks, thresholdNumberOfBlocks]() {
-    return sampleBlocks.size() ==
-           static_cast<unsigned>(thresholdNumberOfBlocks);
-  });
+  sampleCondition.wait(
+    lock, [&sampleBlocks, &allRead, thresholdNumberOfBlocks]() {
+      return allRead || sampleBlocks.size() ==
+                          static_cast<unsigned>(thresholdNumberOfBlocks);
+    });
+
+  if (sampleBlocks.empty()) {
+    // An exception of the workers tells more
+    if (allRead) {
+      lock.unlock();
+      done.get();
+    }
+    throw std::invalid_argument("No blocks to calculate the thresholds from!");
+  }
 
   auto calculateThreshold = true;
 
@@ -758,8 +804,7 @@ ElectronCountedData electronCount(Reader* reader,
   sampleCondition.notify_all();
 
   // Count the sample blocks
-  for (auto i = 0; i < thresholdNumberOfBlocks; i++) {
-    auto& b = sampleBlocks[i];
+  for (auto& b : sampleBlocks) {
     countBlock(b);
   }
 
@@ -770,7 +815,7 @@ ElectronCountedData electronCount(Reader* reader,
   }
 
   // Make sure all threads are finished before returning the result
-  done.wait();
+  done.get();
 
 #ifdef USE_MPI
   gatherEvents(worldSize, rank, events);
-- 
2.43.0


From 23d0eeb72ec5ae0fc480406d4bc7c4ba7cbe41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 28/73] fix: electron counting with image numbers outside of
 the scan

---
 stempy/electron.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 9672c99..6ece513 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -453,6 +453,10 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
     auto block = std::move(*first);
     auto data = block.data.get();
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
+      if (block.header.imageNumbers[i] >= events.size()) {
+        throw std::invalid_argument("Image number outside of the scan.");
+      }
+
       auto frameStart =
         data + i * frameDimensions.first * frameDimensions.second;
       std::vector<FrameType> frame(frameStart,
@@ -638,6 +642,9 @@ ElectronCountedData electronCount(Reader* reader,
         applyRowDarkUseMean);
 
       auto position = b.header.imageNumbers[i];
+      if (position >= events.size()) {
+        throw std::invalid_argument("Image number outside of the scan.");
+      }
       auto& eventsForPosition = events[position];
       // Find the mutex for this position and lock it
       auto& mutex = positionMutexes[position];
-- 
2.43.0


From 142cee2d76b3461ad62c90e89b7cf3fe43bf5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 29/73] fix: electron counting of a serial reader without dark
 reference

---
 stempy/electron.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 6ece513..9f34a1a 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -483,10 +483,11 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // Subtract darkfield reference and apply gain if we have one, this
           // will be based on our template type, it can be evaluated a compile
           // time.
+          auto darkValue = dark ? darkReference[j] : 0.0f;
           if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkReference[j];
+            frame[j] -= darkValue;
           } else {
-            frame[j] = (frame[j] - darkReference[j]) * gain[j];
+            frame[j] = (frame[j] - darkValue) * gain[j];
           }
           // Threshold the electron events
           if (frame[j] <= backgroundThreshold || frame[j] >= xRayThreshold) {
-- 
2.43.0


From d58370203d71b23d84c441f3be0427d9bb25a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 30/73] fix: histogram of the threshold samples when they do
 not vary, and out of range

---
 stempy/electronthresholds.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 20d3396..ee23d45 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -128,12 +128,17 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto minMax = std::minmax_element(samples.begin(), samples.end());
   auto minSample = *minMax.first;
   auto maxSample = static_cast<FrameType>(std::ceil(*minMax.second));
-  auto maxBin = std::min(static_cast<int>(maxSample),
-                         static_cast<int>(mean + xrayThreshold * stdDev));
-  auto minBin = std::max(static_cast<int>(minSample),
-                         static_cast<int>(mean - xrayThreshold * stdDev));
+  // Compare as double, the products can be too large for an int
+  auto maxBin = static_cast<int>(
+    std::min<double>(maxSample, mean + xrayThreshold * stdDev));
+  auto minBin = static_cast<int>(
+    std::max<double>(minSample, mean - xrayThreshold * stdDev));
 
   auto numberOfBins = maxBin - minBin;
+  if (!std::isfinite(stdDev) || numberOfBins < 1) {
+    throw std::runtime_error("The samples do not vary, no thresholds can be "
+                             "calculated from them.");
+  }
   std::vector<double> histogram(numberOfBins, 0.0);
   std::vector<double> bins(numberOfBins);
 
@@ -146,7 +151,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   for (int i = 0; i < numberSamplePixels; i++) {
     auto binIndex = static_cast<int>(samples[i] - minBin);
     // Skip values outside range
-    if (binIndex >= numberOfBins) {
+    if (binIndex < 0 || binIndex >= numberOfBins) {
       continue;
     }
     histogram[binIndex] += 1;
-- 
2.43.0


From 5bf35713a99edbbeb06ff0a614200fef27c3a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 31/73] fix: thresholds with a gain were calculated from
 truncated values

---
 stempy/electronthresholds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index ee23d45..6cd6c42 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -100,7 +100,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      auto value = blockData[randomFrameIndex * numberOfPixels + j];
+      FrameType value = blockData[randomFrameIndex * numberOfPixels + j];
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
-- 
2.43.0


From d7c3ff85bd107d28caa90be3989edfb4c8da475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 32/73] fix: pixels below the dark reference wrapped around in
 electron counting

---
 stempy/electron.cpp           | 22 ++++++++++++++++++----
 stempy/electronthresholds.cpp |  7 +++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 9f34a1a..89ac0dc 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -284,7 +284,14 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
 
     for (size_t i = start; i < stop; ++i) {
       // Apply global dark if needed
-      static_if<applyGlobalDark>([&]() { frame[i] -= globalDark[i]; })();
+      static_if<applyGlobalDark>([&]() {
+        // Don't wrap around below zero
+        if (std::is_integral<FrameType>::value) {
+          frame[i] -= std::min<float>(frame[i], globalDark[i]);
+        } else {
+          frame[i] -= globalDark[i];
+        }
+      })();
 
       // Apply row dark algorithm
       frame[i] *= optimizedMean / statResult;
@@ -485,7 +492,8 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
           // time.
           auto darkValue = dark ? darkReference[j] : 0.0f;
           if (std::is_integral<FrameType>::value) {
-            frame[j] -= darkValue;
+            // Don't wrap around below zero
+            frame[j] -= std::min<float>(frame[j], darkValue);
           } else {
             frame[j] = (frame[j] - darkValue) * gain[j];
           }
@@ -548,8 +556,14 @@ std::vector<uint32_t> electronCount(
          j++) {
       // Subtract darkfield reference and apply gain if we have one, this will
       // be based on our template type, it can be evaluated a compile time.
-      static_if<dark>(
-        [&]() { frame[j] -= static_cast<FrameType>(darkReference[j]); })();
+      static_if<dark>([&]() {
+        auto darkValue = static_cast<FrameType>(darkReference[j]);
+        // Don't wrap around below zero
+        if (std::is_integral<FrameType>::value && frame[j] < darkValue) {
+          darkValue = frame[j];
+        }
+        frame[j] -= darkValue;
+      })();
 
       if (!std::is_integral<FrameType>::value) {
         frame[j] *= gain[j];
diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index 6cd6c42..cfc1ad2 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -104,8 +104,11 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
-        static_if<dark>(
-          [&]() { value -= static_cast<int16_t>(darkReference[j]); })();
+        static_if<dark>([&]() {
+          auto darkValue = static_cast<uint16_t>(darkReference[j]);
+          // Don't wrap around below zero
+          value = value > darkValue ? value - darkValue : 0;
+        })();
       }
       // if not integral type then we know we have gain and need to multiple
       else {
-- 
2.43.0


From 2a4e7f3f89aa330323492c2f7c0774426d81c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 33/73] fix: numpy arrays that are not contiguous were read as
 if they were

---
 python/image.cpp    | 65 ++++++++++++++++++++++++---------------------
 python/pyreader.cpp |  5 +++-
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 894caad..6e2cf3b 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -18,6 +18,11 @@ using namespace stempy;
 // we may want to rethink in this is in the future.
 namespace stempy {
 
+// Arrays whose data can be used without looking at strides
+using FloatArray = py::array_t<float, py::array::c_style | py::array::forcecast>;
+using EventArray =
+  py::array_t<uint32_t, py::array::c_style | py::array::forcecast>;
+
 template <typename T>
 py::array_t<T> vectorToPyArray(std::vector<T>&& v)
 {
@@ -56,10 +61,10 @@ struct ElectronCountedDataPyArray
 
 struct ElectronCountOptionsClassicPy
 {
-  py::array_t<float> darkReference;
+  FloatArray darkReference;
   double backgroundThreshold = DBL_MIN;
   double xRayThreshold = DBL_MAX;
-  py::array_t<float> gain;
+  FloatArray gain;
   Dimensions2D scanDimensions = { 0, 0 };
   bool applyRowDarkSubtraction = false;
   float optimizedMean = 0;
@@ -94,12 +99,12 @@ struct ElectronCountOptionsClassicPy
 
 struct ElectronCountOptionsPy
 {
-  py::array_t<float> darkReference;
+  FloatArray darkReference;
   int thresholdNumberOfBlocks = 1;
   int numberOfSamples = 20;
   double backgroundThresholdNSigma = 4;
   double xRayThresholdNSigma = 10;
-  py::array_t<float> gain;
+  FloatArray gain;
   Dimensions2D scanDimensions = { 0, 0 };
   bool verbose = false;
   bool applyRowDarkSubtraction = false;
@@ -137,7 +142,7 @@ struct ElectronCountOptionsPy
 
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, FloatArray darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
@@ -147,9 +152,9 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, py::array_t<float> darkReference,
+  std::vector<BlockType>& blocks, FloatArray darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, FloatArray gain)
 {
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -160,7 +165,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, Image<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain)
+  double xRayThresholdNSigma, FloatArray gain)
 {
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -172,7 +177,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, int numberOfSamples,
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
-  py::array_t<float> gain)
+  FloatArray gain)
 {
 
   return calculateThresholds<BlockType, float, false>(
@@ -182,23 +187,23 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 // Only dark reference
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, FloatArray darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, FloatArray darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 
 // Gain and darkreference
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<Block>& blocks, py::array_t<float> darkReference,
+  std::vector<Block>& blocks, FloatArray darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, FloatArray gain);
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<PyBlock>& blocks, py::array_t<float> darkReference,
+  std::vector<PyBlock>& blocks, FloatArray darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, py::array_t<float> gain);
+  double xRayThresholdNSigma, FloatArray gain);
 
 template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
@@ -216,7 +221,7 @@ ElectronCountedDataPyArray electronCount(Reader* reader,
 
 // Explicitly instantiate version for py::array_t
 template std::vector<STEMImage> createSTEMImages(
-  const std::vector<std::vector<py::array_t<uint32_t>>>& sparseData,
+  const std::vector<std::vector<EventArray>>& sparseData,
   const std::vector<int>& innerRadii, const std::vector<int>& outerRadii,
   Dimensions2D scanDimensions, Dimensions2D frameDimensions,
   Coordinates2D center);
@@ -404,8 +409,8 @@ PYBIND11_MODULE(_image, m)
     py::call_guard<py::gil_scoped_release>());
   m.def("create_stem_images",
         (vector<STEMImage>(*)(
-          const std::vector<std::vector<py::array_t<uint32_t>>>&,
-          const vector<int>&, const vector<int>&, Dimensions2D, Dimensions2D,
+          const std::vector<std::vector<EventArray>>&, const vector<int>&,
+          const vector<int>&, Dimensions2D, Dimensions2D,
           Coordinates2D)) &
           createSTEMImages,
         py::call_guard<py::gil_scoped_release>());
@@ -494,25 +499,25 @@ PYBIND11_MODULE(_image, m)
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<Block>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, FloatArray)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, Image<float>&, int,
-                                          double, double, py::array_t<float>)) &
+                                          double, double, FloatArray)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              FloatArray, int, double,
+                                              double, FloatArray)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&,
-                                              py::array_t<float>, int, double,
-                                              double, py::array_t<float>)) &
+                                              FloatArray, int, double,
+                                              double, FloatArray)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
@@ -529,34 +534,34 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<Block>&, py::array_t<float>, int, double, double)) &
+          vector<Block>&, FloatArray, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<PyBlock>&, py::array_t<float>, int, double, double)) &
+          vector<PyBlock>&, FloatArray, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
   // Calculate thresholds, with gain and without darkreference
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, FloatArray)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, FloatArray)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, FloatArray)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, py::array_t<float>)) &
+                                              double, FloatArray)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index d287510..e0efbbf 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -38,7 +38,10 @@ PyBlock PyReader::read()
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
-  py::array_t<uint16_t> pyarray = getItems(sliceIndex);
+  // The data is used without looking at strides
+  py::array_t<uint16_t> pyarray =
+    py::array_t<uint16_t, py::array::c_style | py::array::forcecast>(
+      getItems(sliceIndex));
 
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
-- 
2.43.0


From 99685bf21aec72c2616cbc2ca939a0e140b80dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 34/73] fix: maximum_diffraction_pattern with a dark reference

---
 python/image.cpp                | 30 ++++++++++++++++++++++--------
 python/stempy/image/__init__.py |  5 +++--
 stempy/image.cpp                |  4 ++++
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 6e2cf3b..65f82de 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -243,6 +243,24 @@ ElectronCountedDataPyArray electronCountPy(Params&&... params)
   return electronCount(std::forward<Params>(params)...);
 }
 
+// The dark reference comes as an array
+template <typename InputIt>
+Image<double> maximumDiffractionPatternPy(InputIt first, InputIt last,
+                                          FloatArray darkReference)
+{
+  if (darkReference.ndim() != 2) {
+    throw std::invalid_argument("The dark reference must be two dimensional.");
+  }
+
+  Image<float> dark({ static_cast<uint32_t>(darkReference.shape(1)),
+                      static_cast<uint32_t>(darkReference.shape(0)) });
+  std::copy(darkReference.data(), darkReference.data() + darkReference.size(),
+            dark.data.get());
+
+  py::gil_scoped_release release;
+  return maximumDiffractionPattern(first, last, dark);
+}
+
 PYBIND11_MODULE(_image, m)
 {
   py::class_<Image<uint64_t>>(m, "_image_uint64", py::buffer_protocol())
@@ -594,24 +612,20 @@ PYBIND11_MODULE(_image, m)
           createSTEMImages<PyReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
-        (Image<double>(*)(StreamReader::iterator, StreamReader::iterator,
-                          const Image<float>&)) &
-          maximumDiffractionPattern<StreamReader::iterator>,
-        py::call_guard<py::gil_scoped_release>());
+        &maximumDiffractionPatternPy<StreamReader::iterator>);
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(StreamReader::iterator, StreamReader::iterator)) &
           maximumDiffractionPattern<StreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
   m.def("maximum_diffraction_pattern",
-        (Image<double>(*)(SectorStreamReader::iterator,
-                          SectorStreamReader::iterator, const Image<float>&)) &
-          maximumDiffractionPattern<SectorStreamReader::iterator>,
-        py::call_guard<py::gil_scoped_release>());
+        &maximumDiffractionPatternPy<SectorStreamReader::iterator>);
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(SectorStreamReader::iterator,
                           SectorStreamReader::iterator)) &
           maximumDiffractionPattern<SectorStreamReader::iterator>,
         py::call_guard<py::gil_scoped_release>());
+  m.def("maximum_diffraction_pattern",
+        &maximumDiffractionPatternPy<PyReader::iterator>);
   m.def("maximum_diffraction_pattern",
         (Image<double>(*)(PyReader::iterator, PyReader::iterator)) &
           maximumDiffractionPattern<PyReader::iterator>,
diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 1181ea5..adb6270 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -383,13 +383,14 @@ def maximum_diffraction_pattern(reader, darkreference=None):
     :type reader: stempy.io.reader
     :param darkreference: the dark reference to subtract, potentially generated
                           via stempy.image.calculate_average().
-    :type darkreference: stempy.image.ImageArray or stempy::Image<double>
+    :type darkreference: stempy.image.ImageArray, numpy.ndarray or
+                         stempy::Image<double>
 
     :return: the maximum diffraction pattern.
     :rtype: stempy.image.ImageArray
     """
     if darkreference is not None:
-        darkreference = darkreference._image
+        darkreference = safe_array(darkreference, copy=False)
         image = _image.maximum_diffraction_pattern(reader.begin(), reader.end(), darkreference)
     else:
         image = _image.maximum_diffraction_pattern(reader.begin(), reader.end())
diff --git a/stempy/image.cpp b/stempy/image.cpp
index b2bb117..034042e 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -608,6 +608,10 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
 
   // If we have been given a darkreference substract it
   if (darkreference.dimensions.first > 0) {
+    if (darkreference.dimensions != frameDimensions) {
+      throw invalid_argument(
+        "The dark reference does not match the frame dimensions.");
+    }
     for (unsigned i = 0; i < numDetectorPixels; i++) {
       maxDiffPattern.data.get()[i] -= darkreference.data.get()[i];
     }
-- 
2.43.0


From 8b0a81b8d3cbbec4ac606609315c559e6aed9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 35/73] fix: electron counting of a serial reader with a dark
 reference from calculate_average

---
 python/stempy/image/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index adb6270..c8b34fa 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -276,9 +276,6 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
         for i in range(threshold_num_blocks):
             blocks.append(next(reader))
 
-        if darkreference is not None and hasattr(darkreference, '_image'):
-            darkreference = darkreference._image
-
         args = [[b._block for b in blocks]]
         if darkreference is not None:
             args.append(darkreference)
-- 
2.43.0


From 18e00144e54e160aef02852b7e79db5523d7f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 36/73] fix: STEM histograms left out the maximum when the last
 bin edge was rounded down

---
 stempy/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index 034042e..923afb7 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -294,9 +294,11 @@ std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
 
   std::vector<double> container;
   // push all the intermediate values
-  for (int i = 0; i <= numBins; i++) {
+  for (int i = 0; i < numBins; i++) {
     container.push_back(min + i * length);
   }
+  // Rounding must not leave the maximum out
+  container.push_back(max);
 
   return container;
 }
-- 
2.43.0


From b36fd5105cfb7de68291b70e1d525a6730bbd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 37/73] fix: STEM images and electron counting swapped the
 frame shape

---
 python/stempy/image/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index c8b34fa..8b94405 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -80,7 +80,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
-                                         input.frame_shape, center)
+                                         input.frame_shape[::-1], center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
@@ -338,7 +338,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     kwargs = {
         'data': np_data,
         'scan_shape': data.scan_dimensions[::-1],
-        'frame_shape': data.frame_dimensions,
+        'frame_shape': data.frame_dimensions[::-1],
         'metadata': {'electron_counting': metadata},
     }
     array = SparseArray(**kwargs)
-- 
2.43.0


From 99a680161112df4bbd2ee73f9a1194cb212c0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 38/73] fix: STEM images of counted data with one event list
 per position

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 8b94405..3246b40 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -87,7 +87,7 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         data = input.data
         if data.ndim == 1:
             data = data[:, np.newaxis]
-        imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
+        imgs = _image.create_stem_images(data, inner_radii, outer_radii,
                                          input.scan_dimensions,
                                          input.frame_dimensions, center)
     elif isinstance(input, np.ndarray):
-- 
2.43.0


From f6d43f5907b8ba4f76783dd90eb8bc53d7532fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 39/73] fix: STEM images of an electron counted SparseArray
 ignored later changes of the array

---
 python/stempy/image/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index 3246b40..c657857 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -72,15 +72,14 @@ def create_stem_images(input, inner_radii, outer_radii, scan_dimensions=(0, 0),
         imgs = _image.create_stem_images(input.begin(), input.end(),
                                          inner_radii, outer_radii,
                                          scan_dimensions, center)
-    elif hasattr(input, '_electron_counted_data'):
-        # Handle electron counted data with C++ object
-        # This could also be a SparseArray created via electron_count()
-        imgs = _image.create_stem_images(input._electron_counted_data,
-                                         inner_radii, outer_radii, center)
     elif isinstance(input, SparseArray):
         imgs = _image.create_stem_images(input.data, inner_radii, outer_radii,
                                          input.scan_shape[::-1],
                                          input.frame_shape[::-1], center)
+    elif hasattr(input, '_electron_counted_data'):
+        # Handle electron counted data with C++ object
+        imgs = _image.create_stem_images(input._electron_counted_data,
+                                         inner_radii, outer_radii, center)
     elif all([hasattr(input, x) for x in ecd_attrs]):
         # Handle electron counted data without C++ object
         # Assume this is v1 data and that each frame is one scan position
-- 
2.43.0


From 6014479a3a4ab541ea3df928f705bf6c4ccef8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 40/73] fix: radial_sum freed its result under the worker
 threads when reading fails

---
 stempy/image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index 923afb7..1723ee0 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -530,8 +530,9 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
   // We benchmarked this on a 10 core computer, and typically found
   // 2 threads to be ideal.
   int numThreads = 2;
-  ThreadPool pool(numThreads);
+  // Declared before the pool, so that it outlives the tasks on exceptions
   RadialSum<uint64_t> radialSum(scanDimensions, maxRadius + 1);
+  ThreadPool pool(numThreads);
 
 #ifdef VTKm
   // We need the reinterpret_cast as vtkm currently doesn't support atomic
-- 
2.43.0


From 4644be26911cbb518840f5d7092e273856f7524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 41/73] fix: STEM images, radial sums, averages and maxima
 wrote outside of their results for images that do not fit

---
 stempy/electron.cpp |  3 +++
 stempy/image.cpp    | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 89ac0dc..0de95fe 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -459,6 +459,9 @@ ElectronCountedData electronCount(InputIt first, InputIt last,
   for (; first != last; ++first) {
     auto block = std::move(*first);
     auto data = block.data.get();
+    if (block.header.frameDimensions != frameDimensions) {
+      throw std::invalid_argument("The dimensions of the frames differ.");
+    }
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
       if (block.header.imageNumbers[i] >= events.size()) {
         throw std::invalid_argument("Image number outside of the scan.");
diff --git a/stempy/image.cpp b/stempy/image.cpp
index 1723ee0..8e57960 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -37,6 +37,26 @@ using std::vector;
 
 namespace stempy {
 
+// The images of a block have to fit into the results, whose size is known from
+// the first block.
+void checkFrameDimensions(const Header& header, Dimensions2D frameDimensions)
+{
+  if (header.frameDimensions != frameDimensions) {
+    throw invalid_argument("The dimensions of the frames differ.");
+  }
+}
+
+void checkImageNumbers(const Header& header, Dimensions2D scanDimensions)
+{
+  auto numberOfPositions =
+    static_cast<uint64_t>(scanDimensions.first) * scanDimensions.second;
+  for (auto imageNumber : header.imageNumbers) {
+    if (imageNumber >= numberOfPositions) {
+      throw invalid_argument("Image number outside of the scan.");
+    }
+  }
+}
+
 STEMValues calculateSTEMValues(const uint16_t data[], uint64_t offset,
                                uint32_t numberOfPixels, uint16_t mask[],
                                uint32_t imageNumber)
@@ -235,6 +255,8 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
     // Move the block into the thread by copying... CUDA 10.1 won't allow
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
+    checkFrameDimensions(b.header, frameDimensions);
+    checkImageNumbers(b.header, scanDimensions);
 
     for (size_t i = 0; i < masks.size(); ++i) {
       auto& image = images[i];
@@ -354,6 +376,7 @@ Image<double> calculateAverage(InputIt first, InputIt last)
   uint64_t numberOfImages = 0;
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    checkFrameDimensions(block.header, frameDimensions);
     auto blockData = block.data.get();
     numberOfImages += block.header.imagesInBlock;
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
@@ -548,6 +571,8 @@ RadialSum<uint64_t> radialSum(InputIt first, InputIt last,
     // Move the block into the thread by copying... CUDA 10.1 won't allow
     // us to do something like "pool.enqueue([ b{ std::move(*first) }, ...])"
     auto b = std::move(*first);
+    checkFrameDimensions(b.header, frameDimensions);
+    checkImageNumbers(b.header, scanDimensions);
     // Instead of calling _runCalculateSTEMValues directly, we use a
     // lambda so that we can explicity delete the block. Otherwise,
     // the block will not be deleted until the threads are destroyed.
@@ -596,6 +621,7 @@ Image<double> maximumDiffractionPattern(InputIt first, InputIt last,
   uint64_t numberOfImages = 0;
   for (; first != last; ++first) {
     auto block = std::move(*first);
+    checkFrameDimensions(block.header, frameDimensions);
     auto blockData = block.data.get();
     numberOfImages += block.header.imagesInBlock;
     for (unsigned i = 0; i < block.header.imagesInBlock; i++) {
-- 
2.43.0


From b587f3659c28f6fa125c1a6746bdfc8e75ff50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 42/73] fix: read_frames at positions with fewer frames than
 others

---
 python/io.cpp                |  1 +
 python/stempy/io/__init__.py | 10 ++++++++--
 stempy/reader.h              |  7 +++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/io.cpp b/python/io.cpp
index d3893bf..b19d4e7 100644
--- a/python/io.cpp
+++ b/python/io.cpp
@@ -128,6 +128,7 @@ PYBIND11_MODULE(_io, m)
     .def(py::init<const std::vector<std::string>&, int>(), py::arg("files"),
          py::arg("threads") = 0)
     .def("_load_frames", &SectorStreamMultiPassThreadedReader::loadFrames)
+    .def("_num_frames", &SectorStreamMultiPassThreadedReader::numFrames)
     .def("_num_frames_per_scan",
          &SectorStreamMultiPassThreadedReader::numFramesPerScan)
     .def("_scan_dimensions",
diff --git a/python/stempy/io/__init__.py b/python/stempy/io/__init__.py
index 34348b6..64d5ac8 100644
--- a/python/stempy/io/__init__.py
+++ b/python/stempy/io/__init__.py
@@ -112,11 +112,17 @@ class SectorThreadedMultiPassReader(ReaderMixin, _threaded_multi_pass_reader):
         else:
             # Should just be an integer representing the image number
             image_number = scan_position
+            if not 0 <= image_number < np.prod(self.scan_shape):
+                raise IndexError(
+                    f'Invalid position {scan_position} '
+                    f'for scan_shape {self.scan_shape}'
+                )
 
         single_index_frame = False
 
-        # First, get the number of frames per scan
-        num_frames = self.num_frames_per_scan
+        # First, get the number of frames at this scan position, which may be
+        # less than num_frames_per_scan.
+        num_frames = self._num_frames(image_number)
 
         # Create an arange containing all frame positions
         frames = np.arange(num_frames)
diff --git a/stempy/reader.h b/stempy/reader.h
index 24199b5..d671b24 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -540,6 +540,13 @@ public:
   std::vector<Block> loadFrames(uint32_t imageNumber,
                                 const std::vector<uint32_t>& frameIndices);
 
+  // The number of frames at a single scan position.
+  uint32_t numFrames(uint32_t imageNumber)
+  {
+    initializeScanMap();
+    return m_scanMap.at(imageNumber).size();
+  }
+
   Dimensions2D scanDimensions()
   {
     readFirstHeader();
-- 
2.43.0


From 6a9c2922eaae7ddd555716652d7b8c5ce75be117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 43/73] fix: blocks cut off at the end of a file were read from
 the next file

---
 stempy/reader.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 6ee173b..24512f3 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -111,11 +111,9 @@ istream & StreamReader::read(T* value, streamsize size){
 
   m_stream.read(reinterpret_cast<char*>(value), size);
 
-  // If we are at the end of the file, open up the next file
-  // and try again.
-  if (m_stream.eof()) {
-    openNextFile();
-    return read(value, size);
+  // The file ends within a block. Its rest is not in the next file.
+  if (!m_stream) {
+    throw EofException();
   }
 
   return m_stream;
-- 
2.43.0


From 7f2cb4d2806766d888a58f8f11608d740f36bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 44/73] fix: read past the header of version 1 files with too
 many images in a block

---
 stempy/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 24512f3..724f681 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -128,6 +128,10 @@ Header StreamReader::readHeaderVersion1() {
 
   int index = 0;
   header.imagesInBlock = headerData[index++];
+  // The image numbers take up the rest of the header
+  if (header.imagesInBlock > 1024 - 10) {
+    throw invalid_argument("Invalid number of images in block.");
+  }
   header.frameDimensions.second = headerData[index++];
   header.frameDimensions.first = headerData[index++];
   header.version = headerData[index++];
-- 
2.43.0


From 7ee5996194484fbabbe068b2a8e08a38c216d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 45/73] fix: blocks with more pixels than the file holds

---
 stempy/reader.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 724f681..e840c52 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -255,6 +255,20 @@ Block StreamReader::read()
         throw invalid_argument(ss.str());
     }
 
+    // Check that the file is large enough before we allocate the block
+    auto position = m_stream.tellg();
+    m_stream.seekg(0, m_stream.end);
+    uint64_t remaining = m_stream.tellg() - position;
+    m_stream.seekg(position);
+
+    auto pixels = static_cast<uint64_t>(header.frameDimensions.first) *
+                  header.frameDimensions.second;
+    auto maxPixels = remaining / sizeof(uint16_t);
+    if (header.imagesInBlock > 0 && pixels > maxPixels / header.imagesInBlock) {
+      m_stream.seekg(0, m_stream.end);
+      throw EofException();
+    }
+
     Block b(header);
 
     auto dataSize = b.header.frameDimensions.first *
-- 
2.43.0


From 983b3182a304efe3eae1812e26612475578c384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 46/73] fix: sector files without a valid sector number in
 their name wrote outside of the frame

---
 stempy/reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index e840c52..de613e2 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -565,6 +565,12 @@ void SectorStreamReader::openFiles()
     }
 
     auto sector = extractSector(file);
+    if (sector < 0 || sector > 3) {
+      delete stream;
+      ostringstream msg;
+      msg << "No valid sector number in file name: " << file;
+      throw invalid_argument(msg.str());
+    }
 
     m_streams.emplace_back(stream, sector);
   }
-- 
2.43.0


From 3172cb44bc5e2a3d1b69695f32948e4fbbaff451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 47/73] fix: headers cut off at the end of a sector file were
 used nevertheless

---
 stempy/reader.cpp | 32 +++++++++++++++++++++-----------
 stempy/reader.h   | 11 ++++++++++-
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index de613e2..71c14a1 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -370,6 +370,11 @@ Header SectorStreamReader::readHeader(std::ifstream& stream)
   index = 0;
   read(stream, headerPositions, 4 * sizeof(uint16_t));
 
+  // Don't go on with a header that is cut off
+  if (!stream) {
+    throw invalid_argument("Unexpected EOF while processing stream.");
+  }
+
   header.scanDimensions.first = headerPositions[index++];
   header.scanDimensions.second = headerPositions[index++];
 
@@ -842,17 +847,7 @@ bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
   // If we have reached the end close the stream and remove if from
   // the list.
   if (c == EOF) {
-    stream->close();
-    std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
-    auto iter = m_streams.begin();
-    while (iter != m_streams.end()) {
-      if ((*iter).stream.get() == stream) {
-        break;
-      }
-      iter++;
-    }
-
-    m_streams.erase(iter);
+    removeStream(stream);
 
     return false;
   }
@@ -860,6 +855,21 @@ bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
   return true;
 }
 
+void SectorStreamThreadedReader::removeStream(std::ifstream* stream)
+{
+  stream->close();
+  std::unique_lock<std::mutex> streamsLock(m_streamsMutex);
+  auto iter = m_streams.begin();
+  while (iter != m_streams.end()) {
+    if ((*iter).stream.get() == stream) {
+      break;
+    }
+    iter++;
+  }
+
+  m_streams.erase(iter);
+}
+
 SectorStreamMultiPassThreadedReader::SectorStreamMultiPassThreadedReader(
   const std::string& path, int threads)
   : SectorStreamThreadedReader(path, 5, threads)
diff --git a/stempy/reader.h b/stempy/reader.h
index d671b24..a4346eb 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -373,6 +373,8 @@ private:
 
   void initNumberOfThreads();
   bool nextStream(StreamQueueEntry& entry);
+  // Close the stream and remove it from the list
+  void removeStream(std::ifstream* stream);
   // Whether there are streams which have not been read to their end
   bool streamsLeft();
 };
@@ -407,7 +409,14 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
         auto sector = streamQueueEntry.sector;
 
         // First read the header
-        auto header = readHeader(*stream);
+        Header header;
+        try {
+          header = readHeader(*stream);
+        } catch (...) {
+          // The other workers must not wait for this stream
+          removeStream(stream);
+          throw;
+        }
 
         std::vector<Block> blocks;
         for (unsigned j = 0; j < header.imagesInBlock; j++) {
-- 
2.43.0


From bcfe39d7a90e17d51285e2b6d0e259d2cd318605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 48/73] fix: multi-pass reader with scan positions outside of
 the scan and with cut off files

---
 stempy/reader.cpp |  3 +++
 stempy/reader.h   | 20 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 71c14a1..f36c3ab 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -913,6 +913,9 @@ void SectorStreamMultiPassThreadedReader::readHeaders()
                       header.frameDimensions.second * header.imagesInBlock;
 
       auto imageNumber = header.imageNumbers[0];
+      if (imageNumber >= m_scanMap.size()) {
+        throw invalid_argument("Scan position outside of the scan.");
+      }
       auto& frameMaps = m_scanMap[imageNumber];
 
       // Protect initialization of the map with the correct mutex
diff --git a/stempy/reader.h b/stempy/reader.h
index a4346eb..024293b 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -661,6 +661,8 @@ void SectorStreamMultiPassThreadedReader::processFrame(
     if (sectorLocation.sectorStream != nullptr) {
       auto sectorStream = sectorLocation.sectorStream;
       std::unique_lock<std::mutex> lock(*sectorStream->mutex.get());
+      // An earlier read may have come to the end of the file
+      sectorStream->stream->clear();
       sectorStream->stream->seekg(sectorLocation.offset);
       readSectorData(*sectorStream->stream, b, j);
       sectors++;
@@ -722,6 +724,8 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
   }
 
   auto stream = m_streams[0].stream.get();
+  stream->clear();
+  stream->seekg(0);
   auto header = readHeader(*stream);
   // Reset the stream
   stream->seekg(0);
@@ -760,7 +764,21 @@ inline void SectorStreamMultiPassThreadedReader::initializeScanMap()
 
   // Wait for all files to be processed
   for (auto& future : this->m_futures) {
-    future.get();
+    future.wait();
+  }
+  try {
+    for (auto& future : this->m_futures) {
+      future.get();
+    }
+  } catch (...) {
+    // Don't go on with a part of the map next time
+    m_scanMap.clear();
+    m_futures.clear();
+    for (auto& sectorStream : this->m_streams) {
+      sectorStream.stream->clear();
+      sectorStream.stream->seekg(0);
+    }
+    throw;
   }
 
 #ifdef USE_MPI
-- 
2.43.0


From edb2072d3a9a46116d0e2460c00afda08b4efea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 49/73] fix: threaded reader used frames after another thread
 had completed and deleted them

---
 stempy/reader.cpp |  8 ++++++--
 stempy/reader.h   | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index f36c3ab..1621732 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -455,7 +455,11 @@ Block SectorStreamReader::read()
       auto header = readHeader();
       for (unsigned i = 0; i < header.imagesInBlock; i++) {
         auto pos = header.imageNumbers[i];
-        auto& frame = m_frameCache[pos];
+        auto& framePtr = m_frameCache[pos];
+        if (!framePtr) {
+          framePtr = std::make_shared<Frame>();
+        }
+        auto& frame = *framePtr;
 
         // Do we need to allocate the frame
         if (frame.block.header.version == 0) {
@@ -499,7 +503,7 @@ Block SectorStreamReader::read()
   // Now  return the partial frames
   if (!m_frameCache.empty()) {
     auto iter = m_frameCache.begin();
-    auto& frame = (*iter).second;
+    auto& frame = *(*iter).second;
     auto block = frame.block;
     m_frameCache.erase(iter);
 
diff --git a/stempy/reader.h b/stempy/reader.h
index 024293b..c980b81 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -241,7 +241,8 @@ protected:
     std::atomic<int> sectorCount = { 0 };
     std::mutex mutex;
   };
-  std::map<uint32_t, Frame> m_frameCache;
+  // Shared, a thread may still use a frame which another one has completed
+  std::map<uint32_t, std::shared_ptr<Frame>> m_frameCache;
   std::vector<SectorStream> m_streams;
 
   Header readHeader(std::ifstream& stream);
@@ -424,7 +425,12 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           auto frameNumber = header.frameNumber;
 
           std::unique_lock<std::mutex> cacheLock(m_cacheMutex);
-          auto& frame = m_frameCache[frameNumber];
+          auto& cachedFrame = m_frameCache[frameNumber];
+          if (!cachedFrame) {
+            cachedFrame = std::make_shared<Frame>();
+          }
+          auto framePtr = cachedFrame;
+          auto& frame = *framePtr;
           cacheLock.unlock();
 
           // Do we need to allocate the frame, use a double check lock
-- 
2.43.0


From cd78a232fa73f7b43d0f75e010b2ac93f4284e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 50/73] fix: multi-pass reader refused data sets whose first
 file is empty

---
 stempy/reader.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stempy/reader.h b/stempy/reader.h
index c980b81..dbd4acf 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -729,9 +729,17 @@ inline void SectorStreamMultiPassThreadedReader::readFirstHeader()
     return;
   }
 
+  // Use the first file which is not empty
   auto stream = m_streams[0].stream.get();
+  for (auto& sectorStream : m_streams) {
+    stream = sectorStream.stream.get();
+    stream->clear();
+    stream->seekg(0);
+    if (stream->peek() != EOF) {
+      break;
+    }
+  }
   stream->clear();
-  stream->seekg(0);
   auto header = readHeader(*stream);
   // Reset the stream
   stream->seekg(0);
-- 
2.43.0


From 2914f362cc16073a044fe126acefe504ac1521af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 51/73] fix: row dark subtraction crashed for frames with a
 single column

---
 stempy/electron.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index 0de95fe..f120579 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -280,6 +280,11 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
   }
 
   auto apply = [&](size_t start, size_t stop) {
+    // There is no left side if there is a single column
+    if (start == stop) {
+      return;
+    }
+
     auto statResult = statFunc(frame, start, stop);
 
     for (size_t i = start; i < stop; ++i) {
-- 
2.43.0


From 492783f3914e402c37b98a3cd233b11836d50375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 52/73] fix: threaded reader used streams of an earlier failed
 pass

---
 stempy/reader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stempy/reader.h b/stempy/reader.h
index dbd4acf..d50eff6 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -386,6 +386,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
   m_pool = std::make_unique<ThreadPool>(m_threads);
   // The futures of an earlier pass are of no use any more
   m_futures.clear();
+  // A pass that failed may have left streams behind
+  m_streamQueue = decltype(m_streamQueue)();
 
   auto streamsIterator = m_streams.begin();
 
-- 
2.43.0


From 5999901dd112917dc55ec74892c9476c9e78d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 53/73] fix: annular masks with radii whose square does not fit
 into an int

---
 stempy/mask.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stempy/mask.cpp b/stempy/mask.cpp
index 47bf6b9..380f7ba 100644
--- a/stempy/mask.cpp
+++ b/stempy/mask.cpp
@@ -18,8 +18,9 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
   if (center.second < 0)
     center.second = static_cast<int>(round(dimensions.second / 2.0));
 
-  innerRadius = static_cast<int>(pow(innerRadius, 2.0));
-  outerRadius = static_cast<int>(pow(outerRadius, 2.0));
+  // The square of a large radius does not fit into an int
+  auto inner2 = pow(innerRadius, 2.0);
+  auto outer2 = pow(outerRadius, 2.0);
 
   for (uint32_t i = 0; i < numberOfElements; ++i) {
     // Ensure these are signed ints so we don't underflow below
@@ -27,7 +28,7 @@ uint16_t* createAnnularMask(Dimensions2D dimensions, int innerRadius,
     int y = i / dimensions.first;
 
     auto d = pow((x - center.first), 2.0) + pow((y - center.second), 2.0);
-    mask[i] = d >= innerRadius && d < outerRadius ? 0xFFFF : 0;
+    mask[i] = d >= inner2 && d < outer2 ? 0xFFFF : 0;
   }
 
   return mask;
-- 
2.43.0


From 0b9f818677ce8f326736ebb868c7aafa8891401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 54/73] fix: gains given as integers were refused

---
 python/stempy/image/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/stempy/image/__init__.py b/python/stempy/image/__init__.py
index c657857..30e4c03 100644
--- a/python/stempy/image/__init__.py
+++ b/python/stempy/image/__init__.py
@@ -239,7 +239,7 @@ def electron_count(reader, darkreference=None, number_of_samples=40,
     if gain is not None:
         # Invert, as we will multiply in C++
         # It also must be a float32
-        gain = np.power(gain, -1)
+        gain = np.power(gain, -1.0)
         gain = _safe_cast(gain, np.float32, 'gain')
 
     if isinstance(darkreference, np.ndarray):
-- 
2.43.0


From 2fa1072e4bf056479d164b5c7de17fe11b1c3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 55/73] fix: arrays for thresholds were released without the
 GIL

---
 python/image.cpp | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/python/image.cpp b/python/image.cpp
index 65f82de..87af064 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -140,9 +140,11 @@ struct ElectronCountOptionsPy
   }
 };
 
+// The arrays are passed by reference, as these are called without the GIL and
+// must not release an array.
 template <typename BlockType>
 CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<BlockType>& blocks, FloatArray darkReference,
+  std::vector<BlockType>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
@@ -152,9 +154,9 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
 
 template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<BlockType>& blocks, FloatArray darkReference,
+  std::vector<BlockType>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, FloatArray gain)
+  double xRayThresholdNSigma, const FloatArray& gain)
 {
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -165,7 +167,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, Image<float>& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, FloatArray gain)
+  double xRayThresholdNSigma, const FloatArray& gain)
 {
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
@@ -177,7 +179,7 @@ template <typename BlockType>
 CalculateThresholdsResults<float> calculateThresholds(
   std::vector<BlockType>& blocks, int numberOfSamples,
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
-  FloatArray gain)
+  const FloatArray& gain)
 {
 
   return calculateThresholds<BlockType, float, false>(
@@ -187,23 +189,23 @@ CalculateThresholdsResults<float> calculateThresholds(
 
 // Only dark reference
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<Block>& blocks, FloatArray darkReference,
+  std::vector<Block>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 template CalculateThresholdsResults<uint16_t> calculateThresholds(
-  std::vector<PyBlock>& blocks, FloatArray darkReference,
+  std::vector<PyBlock>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma);
 
 // Gain and darkreference
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<Block>& blocks, FloatArray darkReference,
+  std::vector<Block>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, FloatArray gain);
+  double xRayThresholdNSigma, const FloatArray& gain);
 template CalculateThresholdsResults<float> calculateThresholds(
-  std::vector<PyBlock>& blocks, FloatArray darkReference,
+  std::vector<PyBlock>& blocks, const FloatArray& darkReference,
   int numberOfSamples, double backgroundThresholdNSigma,
-  double xRayThresholdNSigma, FloatArray gain);
+  double xRayThresholdNSigma, const FloatArray& gain);
 
 template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
@@ -517,25 +519,25 @@ PYBIND11_MODULE(_image, m)
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<Block>&, Image<float>&, int,
-                                          double, double, FloatArray)) &
+                                          double, double, const FloatArray&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def(
     "calculate_thresholds",
     (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, Image<float>&, int,
-                                          double, double, FloatArray)) &
+                                          double, double, const FloatArray&)) &
       calculateThresholds,
     py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&,
-                                              FloatArray, int, double,
-                                              double, FloatArray)) &
+                                              const FloatArray&, int, double,
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&,
-                                              FloatArray, int, double,
-                                              double, FloatArray)) &
+                                              const FloatArray&, int, double,
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
@@ -552,34 +554,34 @@ PYBIND11_MODULE(_image, m)
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<Block>&, FloatArray, int, double, double)) &
+          vector<Block>&, const FloatArray&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<uint16_t>(*)(
-          vector<PyBlock>&, FloatArray, int, double, double)) &
+          vector<PyBlock>&, const FloatArray&, int, double, double)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
   // Calculate thresholds, with gain and without darkreference
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, FloatArray)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, FloatArray)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<Block>&, int, double,
-                                              double, FloatArray)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
   m.def("calculate_thresholds",
         (CalculateThresholdsResults<float>(*)(vector<PyBlock>&, int, double,
-                                              double, FloatArray)) &
+                                              double, const FloatArray&)) &
           calculateThresholds,
         py::call_guard<py::gil_scoped_release>());
 
-- 
2.43.0


From 6b1bed2f787a0f7c18b97c79f9d53db503a121f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 56/73] fix: data cubes of scans without columns divided by
 zero

---
 stempy/reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 1621732..3b6cb0c 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -750,6 +750,9 @@ void SectorStreamReader::toHdf5DataCubeFormat(h5::H5ReadWrite& writer)
     for (unsigned i = 0; i < b.header.imagesInBlock; i++) {
       auto pos = b.header.imageNumbers[0];
       auto offset = i * FRAME_DIMENSIONS.first * FRAME_DIMENSIONS.second;
+      if (b.header.scanDimensions.first == 0) {
+        throw invalid_argument("Invalid scan dimensions.");
+      }
       auto x = pos % b.header.scanDimensions.first;
       auto y = pos / b.header.scanDimensions.first;
       start[0] = x;
-- 
2.43.0


From 81c3d1ea6dcdab1793fd7172e8e0fd04e4cbc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 57/73] fix: thresholds of blocks without images read outside
 of the block

---
 stempy/electronthresholds.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index cfc1ad2..e6a0874 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -80,6 +80,14 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   auto frameDimensions = blocks[0].header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
+  // Any image of any block may be used as a sample
+  for (const auto& block : blocks) {
+    if (block.header.imagesInBlock < 1 || numberOfPixels < 1 ||
+        block.header.frameDimensions != frameDimensions) {
+      throw std::invalid_argument("The blocks have no images to sample.");
+    }
+  }
+
   // Setup random number engine
   std::random_device randomDevice;
   std::default_random_engine randomEngine(randomDevice());
-- 
2.43.0


From 2a8298ec82b3b1a25727889daa144368fa91c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 58/73] fix: count frames with more than 65535 rows or columns

The neighbouring columns and rows were calculated with 16 bits: widths
that are multiples of 65536 divided by zero, other large ones compared
with wrong pixels.
---
 stempy/electron.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stempy/electron.cpp b/stempy/electron.cpp
index f120579..e35f6d9 100644
--- a/stempy/electron.cpp
+++ b/stempy/electron.cpp
@@ -342,7 +342,7 @@ void applyRowDark(std::vector<FrameType>& frame, Dimensions2D frameDimensions,
 }
 
 // Implementation of modulus that "wraps" for negative numbers
-inline uint16_t mod(uint16_t x, uint16_t y)
+inline uint32_t mod(uint32_t x, uint32_t y)
 {
   return ((x % y) + y) % y;
 }
-- 
2.43.0


From f3b8f90d6303a4bea27c797d12605cb2f13e4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 59/73] fix: report failures to store HDF5 data instead of
 returning silently

---
 h5cpp/h5readwrite.cpp | 17 +++++++++++------
 h5cpp/h5readwrite.h   |  8 ++++++--
 stempy/reader.cpp     |  5 +++++
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index aa11199..bf5d3df 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -191,7 +191,8 @@ public:
     hid_t status =
       H5Dwrite(dataId, memTypeId, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
 
-    return status >= 0;
+    // Closing writes what is still cached, so it can fail too.
+    return dataCloser.close() >= 0 && status >= 0;
   }
 
   bool createDataSet(const std::string& path, const std::string& name,
@@ -296,7 +297,8 @@ public:
     status = H5Dwrite(dataSetId, memTypeId, memSpaceId, dataSpaceId,
                       H5P_DEFAULT, data);
 
-    return status >= 0;
+    // Closing writes what is still cached, so it can fail too.
+    return dataSetCloser.close() >= 0 && status >= 0;
   }
 
   vector<int> getDimensions(const string& path)
@@ -533,12 +535,15 @@ public:
 
   bool fileIsValid() { return m_fileId >= 0; }
 
-  void clear()
+  bool clear()
   {
+    herr_t status = 0;
     if (fileIsValid()) {
-      H5Fclose(m_fileId);
+      status = H5Fclose(m_fileId);
       m_fileId = H5I_INVALID_HID;
     }
+
+    return status >= 0;
   }
 
   hid_t fileId() const { return m_fileId; }
@@ -558,9 +563,9 @@ H5ReadWrite::H5ReadWrite(const string& file, OpenMode mode)
 
 H5ReadWrite::~H5ReadWrite() = default;
 
-void H5ReadWrite::close()
+bool H5ReadWrite::close()
 {
-  m_impl->clear();
+  return m_impl->clear();
 }
 
 vector<string> H5ReadWrite::children(const string& path, bool* ok)
diff --git a/h5cpp/h5readwrite.h b/h5cpp/h5readwrite.h
index f6de781..502151f 100644
--- a/h5cpp/h5readwrite.h
+++ b/h5cpp/h5readwrite.h
@@ -32,8 +32,12 @@ public:
   /** Closes the file and destroys the H5ReadWrite */
   ~H5ReadWrite();
 
-  /** Explicitly close the file if one is open */
-  void close();
+  /**
+   * Explicitly close the file if one is open.
+   * @return True on success, false if what was written to the file could
+   *         not be stored.
+   */
+  bool close();
 
   /** Copy constructor is disabled */
   H5ReadWrite(const H5ReadWrite&) = delete;
diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index 3b6cb0c..dccee71 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -779,6 +779,11 @@ void SectorStreamReader::toHdf5(const std::string& path,
   } else {
     toHdf5DataCubeFormat(writer);
   }
+
+  // What is still cached is written when the file is closed.
+  if (!writer.close()) {
+    throw std::runtime_error("Unable to write HDF5.");
+  }
 }
 #endif // ENABLE_HDF5
 
-- 
2.43.0


From 34d7ebfcccbe9fa5a9e42c841e39b106cfadb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 60/73] fix: attributes of several values were written beyond
 the variable

---
 h5cpp/h5readwrite.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index bf5d3df..c454768 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -130,9 +130,23 @@ public:
       return false;
     }
 
+    if (!isSingleValue(attr)) {
+      cerr << "Attribute " << path << name << " is not a single value" << endl;
+      return false;
+    }
+
     return H5Aread(attr, memTypeId, value) >= 0;
   }
 
+  // Only these can be read into a single variable
+  bool isSingleValue(hid_t attr)
+  {
+    hid_t space = H5Aget_space(attr);
+    HIDCloser spaceCloser(space, H5Sclose);
+
+    return H5Sget_simple_extent_npoints(space) == 1;
+  }
+
   bool setAttribute(const string& path, const string& name, const void* value,
                     hid_t fileTypeId, hid_t typeId, hsize_t dims)
   {
@@ -642,6 +656,10 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
     cerr << path << name << " is not a string" << endl;
     return result;
   }
+  if (!m_impl->isSingleValue(attr)) {
+    cerr << path << name << " is not a single string" << endl;
+    return result;
+  }
   char* tmpString;
   int is_var_str = H5Tis_variable_str(type);
   if (is_var_str > 0) { // if it is a variable-length string
-- 
2.43.0


From 2903766602cb0a4a7f44b05344ee619e0df025b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 61/73] fix: string attributes without a value dereferenced a
 null pointer

---
 h5cpp/h5readwrite.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index c454768..b17cb5e 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -667,7 +667,9 @@ string H5ReadWrite::attribute<string>(const string& path, const string& name,
       cerr << "Failed to read attribute " << path << " " << name << endl;
       return result;
     }
-    result = tmpString;
+    // It is null if no value has been written
+    if (tmpString != nullptr)
+      result = tmpString;
     free(tmpString);
   } else if (is_var_str == 0) { // If it is not a variable-length string
     // it must be fixed length since the "is a string" check earlier passed.
-- 
2.43.0


From cf51117996dd85f9e120f3e818f7a87b6758ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 62/73] fix: names of HDF5 children were cut to 2047 characters

---
 h5cpp/h5readwrite.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index b17cb5e..b2c82c8 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -590,9 +590,6 @@ vector<string> H5ReadWrite::children(const string& path, bool* ok)
   if (!m_impl->fileIsValid())
     return result;
 
-  constexpr int maxNameSize = 2048;
-  char groupName[maxNameSize];
-
   hid_t groupId = H5Gopen(m_impl->fileId(), path.c_str(), H5P_DEFAULT);
   if (groupId < 0) {
     cerr << "Failed to open group: " << path << "\n";
@@ -606,8 +603,16 @@ vector<string> H5ReadWrite::children(const string& path, bool* ok)
   H5Gget_num_objs(groupId, &objCount);
 
   for (hsize_t i = 0; i < objCount; ++i) {
-    H5Gget_objname_by_idx(groupId, i, groupName, maxNameSize);
-    result.push_back(groupName);
+    // Get the length of the name first, it has no limit
+    auto nameSize = H5Gget_objname_by_idx(groupId, i, nullptr, 0);
+    if (nameSize < 0) {
+      cerr << "Failed to get the name of a child of: " << path << "\n";
+      return vector<string>();
+    }
+
+    vector<char> name(nameSize + 1);
+    H5Gget_objname_by_idx(groupId, i, name.data(), name.size());
+    result.push_back(name.data());
   }
 
   setOk(ok, true);
-- 
2.43.0


From 221076d6df06dcbaeff1bcb9b54420a7be4c6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 63/73] fix: setting a string attribute left a datatype open

---
 h5cpp/h5readwrite.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index b2c82c8..edb17f0 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -991,6 +991,8 @@ bool H5ReadWrite::setAttribute<const char*>(const string& path,
   HIDCloser dataSpaceCloser(dataSpaceId, H5Sclose);
 
   hid_t dataType = H5Tcopy(H5T_C_S1);
+  HIDCloser dataTypeCloser(dataType, H5Tclose);
+
   herr_t status = H5Tset_size(dataType, H5T_VARIABLE);
 
   if (status < 0) {
-- 
2.43.0


From 7eddf96daf7c3e10eb87e7490d7dccee1bc71c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 64/73] fix: HDF5 data sets of more elements than an int counts

---
 h5cpp/h5readwrite.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/h5cpp/h5readwrite.cpp b/h5cpp/h5readwrite.cpp
index edb17f0..98a2a04 100644
--- a/h5cpp/h5readwrite.cpp
+++ b/h5cpp/h5readwrite.cpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <numeric>
 
@@ -355,6 +356,14 @@ public:
       return result;
     }
 
+    for (int i = 0; i < dimCount; ++i) {
+      if (h5dims[i] > static_cast<hsize_t>(std::numeric_limits<int>::max())) {
+        cerr << "Error: dimension " << i << " is too large\n";
+        delete[] h5dims;
+        return result;
+      }
+    }
+
     result.resize(dimCount);
     std::copy(h5dims, h5dims + dimCount, result.begin());
 
@@ -393,8 +402,13 @@ public:
     if (strides || start || counts) {
 
       // First, get the dimensions
-      vector<int> dims = getDimensions(path);
-      size_t ndims = dims.size();
+      int ndims = H5Sget_simple_extent_ndims(dataSpaceId);
+      if (ndims < 0) {
+        cerr << "Failed to get the number of dimensions\n";
+        return false;
+      }
+      vector<hsize_t> dims(ndims);
+      H5Sget_simple_extent_dims(dataSpaceId, dims.data(), nullptr);
 
       // Set defaults if needed
       vector<hsize_t> stridesVector;
@@ -820,8 +834,8 @@ vector<T> H5ReadWrite::readData(const string& path, vector<int>& dims)
   }
 
   // Multiply all the dimensions together
-  auto size =
-    std::accumulate(dims.cbegin(), dims.cend(), 1, std::multiplies<int>());
+  auto size = std::accumulate(dims.cbegin(), dims.cend(), size_t(1),
+                              std::multiplies<size_t>());
 
   result.resize(size);
   if (!readData(path, result.data())) {
-- 
2.43.0


From 54fe941e66eada92c3c253ca3bafda2a8b48fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 65/73] fix: errors of reading a file were taken for its end

---
 stempy/reader.cpp | 16 +++++++++++++++-
 stempy/reader.h   | 15 +++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/stempy/reader.cpp b/stempy/reader.cpp
index dccee71..0bb839e 100644
--- a/stempy/reader.cpp
+++ b/stempy/reader.cpp
@@ -80,6 +80,8 @@ bool StreamReader::openNextFile()
     return false;
 
   const auto& file = m_files[m_curFileIndex];
+  // Throw if reading fails. Otherwise it looks like the end of the file.
+  m_stream.exceptions(ios::badbit);
   m_stream.open(file, ios::in | ios::binary);
 
   if (!m_stream.is_open()) {
@@ -287,6 +289,7 @@ void StreamReader::reset()
 {
   if (m_stream.is_open())
     m_stream.close();
+  m_stream.clear();
 
   m_curFileIndex = 0;
 }
@@ -564,6 +567,8 @@ void SectorStreamReader::openFiles()
 
   for (auto& file : m_files) {
     auto stream = new std::ifstream();
+    // Throw if reading fails. Otherwise it looks like the end of the file.
+    stream->exceptions(ios::badbit);
     stream->open(file, ios::in | ios::binary);
 
     if (!stream->is_open()) {
@@ -604,6 +609,8 @@ void SectorStreamReader::readAll(Functor func)
 {
   for (auto& file : m_files) {
     std::ifstream stream;
+    // Throw if reading fails. Otherwise it looks like the end of the file.
+    stream.exceptions(ios::badbit);
     stream.open(file, ios::in | ios::binary);
     if (!stream.is_open()) {
       ostringstream msg;
@@ -855,7 +862,14 @@ bool SectorStreamThreadedReader::nextStream(StreamQueueEntry& streamQueueEntry)
 
   auto stream = streamQueueEntry.stream;
 
-  auto c = stream->peek();
+  int c;
+  try {
+    c = stream->peek();
+  } catch (...) {
+    // The other workers must not wait for this stream
+    removeStream(stream);
+    throw;
+  }
   // If we have reached the end close the stream and remove if from
   // the list.
   if (c == EOF) {
diff --git a/stempy/reader.h b/stempy/reader.h
index d50eff6..b361df9 100644
--- a/stempy/reader.h
+++ b/stempy/reader.h
@@ -411,15 +411,12 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
         auto& stream = streamQueueEntry.stream;
         auto sector = streamQueueEntry.sector;
 
+        // If reading fails, the other workers must not wait for this stream
+        auto remove = [this](std::ifstream* s) { removeStream(s); };
+        std::unique_ptr<std::ifstream, decltype(remove)> failed(stream, remove);
+
         // First read the header
-        Header header;
-        try {
-          header = readHeader(*stream);
-        } catch (...) {
-          // The other workers must not wait for this stream
-          removeStream(stream);
-          throw;
-        }
+        auto header = readHeader(*stream);
 
         std::vector<Block> blocks;
         for (unsigned j = 0; j < header.imagesInBlock; j++) {
@@ -475,6 +472,8 @@ std::future<void> SectorStreamThreadedReader::readAll(Functor& func)
           }
         }
 
+        failed.release();
+
         // Return the stream to the queue so other threads can read from it.
         // It is important that we do this before doing the processing to prevent
         // starvation of one of the streams, we need to make sure they are all
-- 
2.43.0


From 8554aeb8b2e9470fbde83aa68f5c25fa84e07980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 66/73] fix: metadata that cannot be read was skipped

---
 python/stempy/io/sparse_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 2d05a25..04ddfd2 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -1128,7 +1128,9 @@ def load_h5_to_dict(group, d):
     for k, v in group.attrs.items():
         d[k] = v
 
-    for k, v in group.items():
+    # group.items() skips what cannot be read
+    for k in group:
+        v = group[k]
         if isinstance(v, h5py.Group):
             d[k] = {}
             load_h5_to_dict(v, d[k])
-- 
2.43.0


From 220cb8b6d0679344812edf4f1098d66e65b3f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 67/73] fix: inconsistent HDF5 raw data was read out of bounds

---
 python/pyreader.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index e0efbbf..3932bab 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -1,6 +1,8 @@
 #include "pyreader.h"
 #include <stempy/reader.h>
 
+#include <stdexcept>
+
 namespace stempy {
 
 PyBlock::PyBlock(py::array_t<uint16_t> pyarray)
@@ -31,10 +33,14 @@ PyBlock PyReader::read()
 
   // get the data pointer from the py object
   auto getItems = m_pydataset.attr("__getitem__");
-  uint32_t upperBound = m_currIndex + m_imageNumInBlock;
+  uint32_t upperBound = m_totalImageNum;
+
+  if (m_imageNumInBlock < m_totalImageNum - m_currIndex) {
+    upperBound = m_currIndex + m_imageNumInBlock;
+  }
 
-  if (upperBound > m_totalImageNum) {
-    upperBound = m_totalImageNum;
+  if (upperBound > m_imageNumbers.size()) {
+    throw std::invalid_argument("There are fewer image numbers than images.");
   }
 
   auto sliceIndex = py::slice(m_currIndex, upperBound, 1);
@@ -43,6 +49,11 @@ PyBlock PyReader::read()
     py::array_t<uint16_t, py::array::c_style | py::array::forcecast>(
       getItems(sliceIndex));
 
+  if (pyarray.ndim() != 3 || pyarray.shape()[0] != upperBound - m_currIndex) {
+    throw std::invalid_argument("The images are not an array of the expected "
+                                "number of two dimensional images.");
+  }
+
   PyBlock b(pyarray);
   Dimensions2D frameDimensions = { pyarray.shape()[2], pyarray.shape()[1] };
 
-- 
2.43.0


From d7d3fa3c38b2a0e3678c0cb6fd0fba23578d9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 68/73] fix: thresholds from no samples crashed, many samples
 overflowed an int

---
 stempy/electronthresholds.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stempy/electronthresholds.cpp b/stempy/electronthresholds.cpp
index e6a0874..c785f8d 100644
--- a/stempy/electronthresholds.cpp
+++ b/stempy/electronthresholds.cpp
@@ -77,6 +77,10 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const float gain[])
 {
+  if (blocks.empty() || numberOfSamples < 1) {
+    throw std::invalid_argument("There is nothing to sample.");
+  }
+
   auto frameDimensions = blocks[0].header.frameDimensions;
   auto numberOfPixels = frameDimensions.first * frameDimensions.second;
 
@@ -92,8 +96,9 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   std::random_device randomDevice;
   std::default_random_engine randomEngine(randomDevice());
 
-  int numberSamplePixels =
-    frameDimensions.first * frameDimensions.second * numberOfSamples;
+  // The product can be too large for an int
+  auto numberSamplePixels =
+    static_cast<size_t>(numberOfPixels) * numberOfSamples;
   std::vector<FrameType> samples(numberSamplePixels, 0);
   for (int i = 0; i < numberOfSamples; i++) {
     std::uniform_int_distribution<int> randomBlockDist(0, blocks.size() - 1);
@@ -108,7 +113,8 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
       // For now just use the index, the image number don't seem to work, in the
       // current data set. In the future we should be using the image number.
 
-      FrameType value = blockData[randomFrameIndex * numberOfPixels + j];
+      FrameType value =
+        blockData[static_cast<size_t>(randomFrameIndex) * numberOfPixels + j];
 
       // This will be evaluated a compile time.
       if (std::is_integral<FrameType>::value) {
@@ -125,7 +131,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
         value *= gain[j];
       }
 
-      samples[i * numberOfPixels + j] = value;
+      samples[static_cast<size_t>(i) * numberOfPixels + j] = value;
     }
   }
 
@@ -159,7 +165,7 @@ CalculateThresholdsResults<FrameType> calculateThresholds(
   }
 
   // Bin the values
-  for (int i = 0; i < numberSamplePixels; i++) {
+  for (size_t i = 0; i < numberSamplePixels; i++) {
     auto binIndex = static_cast<int>(samples[i] - minBin);
     // Skip values outside range
     if (binIndex < 0 || binIndex >= numberOfBins) {
-- 
2.43.0


From 9c94745b75d938f47ef0f3dbbcc8ade0cdaa4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 69/73] fix: event lists that do not fit the scan or the frame
 were used out of bounds

---
 stempy/image.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/stempy/image.h b/stempy/image.h
index bf95608..a4e55eb 100644
--- a/stempy/image.h
+++ b/stempy/image.h
@@ -92,6 +92,24 @@ namespace stempy {
       throw std::invalid_argument(msg.str());
     }
 
+    // All the data must fit into the scan and into the frame
+    if (sparseData.size() > static_cast<size_t>(scanDimensions.first) *
+                              scanDimensions.second) {
+      throw std::invalid_argument("There are more frames than scan positions.");
+    }
+
+    auto numberOfPixels =
+      static_cast<size_t>(frameDimensions.first) * frameDimensions.second;
+    for (const auto& frames : sparseData) {
+      for (const auto& events : frames) {
+        for (size_t k = 0; k < static_cast<size_t>(events.size()); ++k) {
+          if (events.data()[k] >= numberOfPixels) {
+            throw std::invalid_argument("Event outside of the frame.");
+          }
+        }
+      }
+    }
+
     std::vector<STEMImage> images;
     std::vector<uint16_t*> masks;
     for (size_t i = 0; i < innerRadii.size(); ++i) {
-- 
2.43.0


From 492bd16cbbe9e0d90a25a2ac914b8058131b3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 70/73] fix: a dark reference or gain of another size than the
 frames was read out of bounds

---
 python/image.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/python/image.cpp b/python/image.cpp
index 87af064..cba106b 100644
--- a/python/image.cpp
+++ b/python/image.cpp
@@ -1,6 +1,7 @@
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
+#include <stdexcept>
 #include <vector>
 
 #include "pyreader.h"
@@ -140,6 +141,39 @@ struct ElectronCountOptionsPy
   }
 };
 
+// A dark reference or a gain must have a value for each pixel of the frames
+inline void checkFrameSize(const FloatArray& array,
+                           Dimensions2D frameDimensions)
+{
+  if (static_cast<size_t>(array.size()) !=
+      static_cast<size_t>(frameDimensions.first) * frameDimensions.second) {
+    throw std::invalid_argument("The dark reference and the gain must match "
+                                "the dimensions of the frames.");
+  }
+}
+
+template <typename BlockType>
+void checkFrameSize(const FloatArray& array,
+                    const std::vector<BlockType>& blocks)
+{
+  // Having no blocks is checked later
+  if (!blocks.empty()) {
+    checkFrameSize(array, blocks[0].header.frameDimensions);
+  }
+}
+
+// The arrays are optional here
+template <typename Options>
+void checkOptions(const Options& options, Dimensions2D frameDimensions)
+{
+  if (options.darkReference.size() > 1) {
+    checkFrameSize(options.darkReference, frameDimensions);
+  }
+  if (options.gain.size() > 1) {
+    checkFrameSize(options.gain, frameDimensions);
+  }
+}
+
 // The arrays are passed by reference, as these are called without the GIL and
 // must not release an array.
 template <typename BlockType>
@@ -148,6 +182,8 @@ CalculateThresholdsResults<uint16_t> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma)
 {
+  checkFrameSize(darkReference, blocks);
+
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma);
 }
@@ -158,6 +194,9 @@ CalculateThresholdsResults<float> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const FloatArray& gain)
 {
+  checkFrameSize(darkReference, blocks);
+  checkFrameSize(gain, blocks);
+
   return calculateThresholds(blocks, darkReference.data(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
                              gain.data());
@@ -169,6 +208,8 @@ CalculateThresholdsResults<float> calculateThresholds(
   int numberOfSamples, double backgroundThresholdNSigma,
   double xRayThresholdNSigma, const FloatArray& gain)
 {
+  checkFrameSize(gain, blocks);
+
   return calculateThresholds(blocks, darkReference.data.get(), numberOfSamples,
                              backgroundThresholdNSigma, xRayThresholdNSigma,
                              gain.data());
@@ -181,6 +222,7 @@ CalculateThresholdsResults<float> calculateThresholds(
   double backgroundThresholdNSigma, double xRayThresholdNSigma,
   const FloatArray& gain)
 {
+  checkFrameSize(gain, blocks);
 
   return calculateThresholds<BlockType, float, false>(
     blocks, nullptr, numberOfSamples, backgroundThresholdNSigma,
@@ -211,6 +253,10 @@ template <typename InputIt>
 ElectronCountedDataPyArray electronCount(
   InputIt first, InputIt last, const ElectronCountOptionsClassicPy& options)
 {
+  if (first != last) {
+    checkOptions(options, first->header.frameDimensions);
+  }
+
   return electronCount(first, last, options.toCpp());
 }
 
@@ -218,6 +264,8 @@ template <typename Reader>
 ElectronCountedDataPyArray electronCount(Reader* reader,
                                          const ElectronCountOptionsPy& options)
 {
+  checkOptions(options, FRAME_DIMENSIONS);
+
   return electronCount(reader, options.toCpp());
 }
 
-- 
2.43.0


From e0d1c8910cb1c2330fcb284593ae235750201b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 71/73] fix: a histogram without bins was written out of bounds

---
 stempy/image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stempy/image.cpp b/stempy/image.cpp
index 8e57960..10b8aa8 100644
--- a/stempy/image.cpp
+++ b/stempy/image.cpp
@@ -301,6 +301,10 @@ vector<STEMImage> createSTEMImages(InputIt first, InputIt last,
 // returns the binding result
 std::vector<double> getContainer(const STEMImage& inImage, const int numBins)
 {
+  if (numBins < 1) {
+    throw std::invalid_argument("There must be at least one bin.");
+  }
+
   // information about input STEMImage
   auto scanDimensions = inImage.dimensions;
   auto curData = inImage.data;
@@ -331,6 +335,10 @@ std::vector<int> createSTEMHistogram(const STEMImage& inImage,
                                      const int numBins,
                                      const std::vector<double> bins)
 {
+  if (numBins < 1 || bins.size() != static_cast<size_t>(numBins) + 1) {
+    throw std::invalid_argument("The bins do not match their number.");
+  }
+
   // initialize output
   std::vector<int> frequencies(numBins, 0);
 
-- 
2.43.0


From 9c16ef47f9f17c38cfd0bbf1a744a37ae2958f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 72/73] fix: a PyReader of blocks without images never ended

---
 python/pyreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyreader.cpp b/python/pyreader.cpp
index 3932bab..926a997 100644
--- a/python/pyreader.cpp
+++ b/python/pyreader.cpp
@@ -19,6 +19,9 @@ PyReader::PyReader(py::object pyDataSet, std::vector<uint32_t>& imageNumbers,
     m_imageNumbers(imageNumbers), m_imageNumInBlock(blockSize),
     m_totalImageNum(totalImageNum)
 {
+  if (blockSize == 0) {
+    throw std::invalid_argument("A block has at least one image.");
+  }
 }
 
 PyBlock PyReader::read()
-- 
2.43.0


From f557ce0d8afd30d1d1f29b99467c86a89edce99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 73/73] fix: negative bin factors and dimensions made a
 SparseArray unusable

---
 python/stempy/io/sparse_array.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/stempy/io/sparse_array.py b/python/stempy/io/sparse_array.py
index 04ddfd2..349fc21 100644
--- a/python/stempy/io/sparse_array.py
+++ b/python/stempy/io/sparse_array.py
@@ -379,11 +379,13 @@ class SparseArray:
         frame_shape = shape[-2:]
 
         # Make sure the shapes are valid
-        if np.prod(scan_shape) != np.prod(self.scan_shape):
+        if (any(x < 0 for x in scan_shape) or
+                np.prod(scan_shape) != np.prod(self.scan_shape)):
             raise ValueError('Cannot reshape scan array of size '
                              f'{self.scan_shape} into shape {scan_shape}')
 
-        if np.prod(frame_shape) != np.prod(self.frame_shape):
+        if (any(x < 0 for x in frame_shape) or
+                np.prod(frame_shape) != np.prod(self.frame_shape)):
             raise ValueError('Cannot reshape frame array of size '
                              f'{self.frame_shape} into shape {frame_shape}')
 
@@ -596,7 +598,7 @@ class SparseArray:
         :return: self if in_place is True, otherwise a new SparseArray
         :rtype: SparseArray
         """
-        if not all(x % bin_factor == 0 for x in self.scan_shape):
+        if bin_factor < 1 or any(x % bin_factor for x in self.scan_shape):
             raise ValueError(f'scan_shape must be equally divisible by '
                              f'bin_factor {bin_factor}')
 
@@ -645,7 +647,7 @@ class SparseArray:
         :return: self if in_place is True, otherwise a new SparseArray
         :rtype: SparseArray
         """
-        if not all(x % bin_factor == 0 for x in self.frame_shape):
+        if bin_factor < 1 or any(x % bin_factor for x in self.frame_shape):
             raise ValueError(f'frame_shape must be equally divisible by '
                              f'bin_factor {bin_factor}')
 
-- 
2.43.0

