From cfd40d2f2bafae2f4af3a2c0d992b5646553c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 001/156] fix: integer index -1 selects the last element
 instead of nothing

---
 src/ocgis/util/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..ed76456 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -445,7 +445,8 @@ def get_formatted_slice(slc, n_dims):
             pass
 
         if isinstance(single_slc, int):
-            ret = slice(single_slc, single_slc + 1)
+            # The last element has no following index to stop at.
+            ret = slice(single_slc, None if single_slc == -1 else single_slc + 1)
         elif isinstance(single_slc, slice):
             ret = single_slc
         elif isinstance(single_slc, np.ndarray):
-- 
2.43.0


From 40140884f670f89b3ecb639fd5c84c85fd5cf12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 002/156] fix: only turn consecutive ascending index sequences
 into slices

---
 src/ocgis/util/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index ed76456..392dd13 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -626,7 +626,8 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
     else:
-        if check_diff and np.any(np.diff(arr) > 1):
+        # Only consecutive, ascending, non-negative indices are equivalent to a slice.
+        if check_diff and (np.any(np.diff(arr) != 1) or arr.min() < 0):
             ret = arr
         else:
             arr_min, arr_max = arr.min(), arr.max()
-- 
2.43.0


From 4645cc8a531633de13bbbdbc8020e17ca6d1440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 003/156] fix: dimension sizes and source indices follow any
 slice

---
 src/ocgis/variable/dimension.py | 56 ++++++---------------------------
 1 file changed, 10 insertions(+), 46 deletions(-)

diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 26454c4..fb455ab 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -403,34 +403,10 @@ class Dimension(AbstractNamedObject):
         return self.name
 
     def __getitem_main__(self, ret, slc):
-        length_self = len(self)
-        try:
-            length = len(slc)
-        except TypeError:
-            # Likely a slice object.
-            try:
-                length = slc.stop - slc.start
-            except TypeError:
-                # Likely a NoneType slice.
-                if slc.start is None:
-                    if slc.stop is not None and slc.stop > 0:
-                        length = length_self
-                    elif slc.stop is None:
-                        length = length_self
-                    else:
-                        length = length_self + slc.stop
-                elif slc.stop is None:
-                    if slc.start > 0:
-                        length = length_self - slc.start
-                    else:
-                        length = abs(slc.start)
-                else:
-                    raise
-            else:
-                # If the slice length is greater than the current length, keep the length the same.
-                if length > length_self:
-                    length = length_self
+        if isinstance(slc, slice):
+            length = len(range(*slc.indices(len(self))))
         else:
+            length = len(slc)
             try:
                 # Check for boolean slices.
                 if slc.dtype == bool:
@@ -439,10 +415,6 @@ class Dimension(AbstractNamedObject):
                 # Likely a list/tuple.
                 pass
 
-        if length < 0:
-            # This is using negative indexing. Subtract from the current length.
-            length += length_self
-
         # Slice the source index. If the source index is None, a value of None will be returned by the slice operation.
         src_idx = slice_source_index(slc, ret._src_idx)
 
@@ -523,25 +495,17 @@ def slice_source_index(slc, src_idx):
                 src_idx = src_idx.__getitem__(slc)
             else:
                 offset = src_idx[0]
+                length = src_idx[1] - offset
                 if isinstance(slc, np.ndarray):
                     if slc.dtype == bool:
                         slc = np.where(slc)[0]
-                    src_idx = slc + offset
+                    src_idx = np.where(slc < 0, slc + length, slc) + offset
                 else:
-                    new_si = np.array(src_idx) - offset
-                    start, stop = slc.start, slc.stop
-
-                    if start < 0:
-                        new_si[0] = new_si[1] + start
-                    elif start > new_si[0]:
-                        new_si[0] = start
-
-                    if stop < 0:
-                        new_si[1] = new_si[1] + stop
-                    elif stop < new_si[1]:
-                        new_si[1] = stop
-                    new_si += offset
-                    src_idx = tuple(new_si)
+                    start, stop, step = slc.indices(length)
+                    if step == 1:
+                        src_idx = (start + offset, max(start, stop) + offset)
+                    else:
+                        src_idx = np.arange(start, stop, step) + offset
         else:
             src_idx = None
     return src_idx
-- 
2.43.0


From 78034b0a7822d120cf0b89d8d6ebfd7087d648ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 004/156] fix: several sequence indices in one slice apply to
 their own dimensions

---
 src/ocgis/util/helpers.py  | 20 ++++++++++++++++++++
 src/ocgis/variable/base.py |  7 ++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 392dd13..3f0b012 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -659,6 +659,26 @@ def get_ordered_dicts_from_records_array(arr):
     return ret
 
 
+def get_orthogonal_slice(arr, slc):
+    """
+    Slice an array applying each element of ``slc`` to its own axis. This differs from ``numpy`` slicing if more than one
+    element is an index or boolean array.
+
+    :param arr: The array to slice.
+    :type arr: :class:`numpy.ndarray`
+    :param slc: Slices or arrays as returned by :func:`~ocgis.util.helpers.get_formatted_slice`.
+    :type slc: tuple(slice | :class:`numpy.ndarray`, ...)
+    :rtype: :class:`numpy.ndarray`
+    """
+
+    if sum(not isinstance(s, slice) for s in slc) > 1:
+        for axis, s in enumerate(slc):
+            arr = arr[(slice(None),) * axis + (s,)]
+    else:
+        arr = arr[slc]
+    return arr
+
+
 def get_reduced_slice(arr):
     arr_min, arr_max = arr.min(), arr.max()
     ret = slice(arr_min, arr_max + 1)
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..b381ee6 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -19,7 +19,8 @@ from ocgis.exc import VariableInCollectionError, BoundsAlreadyAvailableError, Em
     ResolutionError, NoUnitsError, DimensionsRequiredError, DimensionMismatchError, MaskedDataFound, \
     PayloadProtectedError
 from ocgis.util.helpers import get_iter, get_formatted_slice, get_bounds_from_1d, get_extrapolated_corners_esmf, \
-    create_ocgis_corners_from_esmf_corners, is_crs_variable, arange_from_bool_ndarray, dict_first
+    create_ocgis_corners_from_esmf_corners, is_crs_variable, arange_from_bool_ndarray, dict_first, \
+    get_orthogonal_slice
 from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.units import get_units_object, get_conformed_units
 from ocgis.variable.attributes import Attributes
@@ -324,9 +325,9 @@ class Variable(AbstractContainer, Attributes):
         new_mask = None
 
         if ret._value is not None:
-            new_value = ret.get_value().__getitem__(slc)
+            new_value = get_orthogonal_slice(ret.get_value(), slc)
         if ret._mask is not None:
-            new_mask = ret._mask.__getitem__(slc)
+            new_mask = get_orthogonal_slice(ret._mask, slc)
 
         if new_value is not None:
             ret._value = new_value
-- 
2.43.0


From 2aee91a101050bd11b5ba2cc94c78095036ce61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 005/156] fix: sequence indices in a collection slice keep
 one-dimensional variables one-dimensional

---
 src/ocgis/variable/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index b381ee6..c430462 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1773,6 +1773,7 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
             if len(self_dimensions) == 0:
                 raise DimensionsRequiredError
 
+            item_or_slc = {k: get_formatted_slice(v, 1)[0] for k, v in list(item_or_slc.items())}
             ret = self.copy()
             for dimension_name, slc in list(item_or_slc.items()):
                 ret.dimensions[dimension_name] = self_dimensions[dimension_name].__getitem__(slc)
-- 
2.43.0


From 1fdb5a6e8b305a00d6dcda8ddd2e4ae9875b8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 006/156] fix: data packed with an offset only keep their
 unpacked data type

---
 src/ocgis/driver/nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ddceca1..916b491 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -833,7 +833,7 @@ def update_group_metadata(rootgrp, fill):
             subvar.update({attr: getattr(value, attr)})
 
         # Remove scale factors and offsets from the metadata.
-        if 'scale_factor' in subvar:
+        if 'scale_factor' in subvar or 'add_offset' in subvar:
             dtype_packed = value[0].dtype
             fill_value_packed = np.ma.array([], dtype=dtype_packed).fill_value
         else:
-- 
2.43.0


From 6ca6f27506edb2dba49d6253156a0922b97c1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 007/156] fix: read variables in nested groups more than one
 level deep

---
 src/ocgis/driver/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 2d57377..544e998 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -348,10 +348,11 @@ class AbstractDriver(AbstractOcgisObject):
             group_metadata = self.rd.metadata
 
         field = Field(name=name, source_name=source_name, uid=uid, attrs=group_metadata.get('global_attributes'))
-        for var in self.create_variables(group_metadata, parent=field).values():
-            field.add_variable(var, force=True)
+        # Variables need the complete group hierarchy to find their metadata.
         if parent is not None:
             parent.add_child(field)
+        for var in self.create_variables(group_metadata, parent=field).values():
+            field.add_variable(var, force=True)
         for k, v in group_metadata.get('groups', {}).items():
             _ = self.create_raw_field(v, name=k, parent=field, group_name=k)
         return field
-- 
2.43.0


From f284d4ce77defc2eceb1ca17ba105d8055c25089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 008/156] fix: strings on an unlimited dimension keep trailing
 empty strings

---
 src/ocgis/driver/nc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 916b491..2a3f0c9 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -158,8 +158,11 @@ class DriverNetcdf(AbstractDriver):
                             except Exception as e:
                                 msg = "Variable name is '{}'. Original message: ".format(var.name) + str(e)
                                 raise e.__class__(msg)
+                            # Write the full character row to also grow unlimited dimensions for empty strings.
+                            chars = np.zeros(ncvar.shape[1], dtype='S1')
                             for sidx, sval in enumerate(curr_value):
-                                ncvar[idx, sidx] = sval
+                                chars[sidx] = sval
+                            ncvar[idx, :] = chars
                     elif var.ndim == 0:
                         ncvar[:] = data_value
                     else:
-- 
2.43.0


From 9c1421e167cd0dadd67834a4352d89c8338c01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 009/156] fix: several ragged variables on one dimension can be
 written to one file

---
 src/ocgis/driver/nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 2a3f0c9..2251c2a 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -96,7 +96,7 @@ class DriverNetcdf(AbstractDriver):
 
             dtype = cls.get_variable_write_dtype(var)
             if isinstance(dtype, ObjectType):
-                dtype = dtype.create_vltype(dataset, dimensions[0].name + '_VLType')
+                dtype = dtype.create_vltype(dataset, var.name + '_VLType')
             # Assume we are writing string data if the data type is object.
             elif dtype == str or var.is_string_object:
                 dtype = 'S1'
-- 
2.43.0


From 0b98514661b403da39a51ab80eb00bbdd8857451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 010/156] fix: writing a field leaves the attributes of the
 source field alone

---
 src/ocgis/driver/nc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 2251c2a..b1773a1 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -480,6 +480,11 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
         """Collective!"""
         ocgis_lh(level=10, logger="driver.nc", msg="entering _get_field_write_target_")
 
+        # Accessing the grid loads the metadata attributes for the source field's spatial coordinates. The formatting
+        # required by the write itself must not modify the source field.
+        field.grid
+        field = field.copy()
+
         if field.crs is not None:
             field.crs.format_spatial_object(field)
 
-- 
2.43.0


From 089f002c12971888c5b9c3bcb635a8594032018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 011/156] fix: times in months units convert for bounds, gaps
 and unordered values

---
 src/ocgis/variable/temporal.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 24471f6..9e2de14 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -799,25 +799,11 @@ def get_datetime_from_months_time_units(vec, units, month_centroid=16):
     # only work with integer inputs
     vec = np.array(vec, dtype=int)
 
-    def _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid):
-        return datetime.datetime(current_year, (origin_month + offset_month) - current_month_correction, month_centroid)
-
     origin = get_origin_datetime_from_months_units(units)
-    origin_month = origin.month
-    current_year = origin.year
-    current_month_correction = 0
-    if vec[0] >= 12:
-        current_year += int(vec[0] / 12)
-        vec = vec - (int(vec[0] / 12) * 12)
-    ret = np.ones(len(vec), dtype=object)
-    for ii, offset_month in enumerate(vec):
-        try:
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        except ValueError:
-            current_month_correction += 12
-            current_year += 1
-            fill = _get_datetime_(current_year, origin_month, offset_month, current_month_correction, month_centroid)
-        ret[ii] = fill
+    ret = np.empty(vec.shape, dtype=object)
+    for idx, offset_month in np.ndenumerate(vec):
+        offset_year, month_index = divmod(origin.month - 1 + int(offset_month), 12)
+        ret[idx] = datetime.datetime(origin.year + offset_year, month_index + 1, month_centroid)
     return ret
 
 
@@ -947,8 +933,9 @@ def get_num_from_months_time_units(vec, units, dtype=None):
     """
 
     origin = get_origin_datetime_from_months_units(units)
-    ret = [get_difference_in_months(origin, target) for target in vec]
-    return np.array(ret, dtype=dtype)
+    vec = np.asarray(vec, dtype=object)
+    ret = [get_difference_in_months(origin, target) for target in vec.flat]
+    return np.array(ret, dtype=dtype).reshape(vec.shape)
 
 
 def get_origin_datetime_from_months_units(units):
-- 
2.43.0


From 32ba06447b5cc35546524746e0b686158a2d10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 012/156] fix: masked times keep their mask when the time units
 are changed

---
 src/ocgis/util/units.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ocgis/util/units.py b/src/ocgis/util/units.py
index 94c6416..5ff9795 100644
--- a/src/ocgis/util/units.py
+++ b/src/ocgis/util/units.py
@@ -62,6 +62,16 @@ def get_conformed_units(value, units_src, units_dst):
 
     units_src = get_units_object(units_src)
     units_dst = get_units_object(units_dst)
+
+    # Reference times are converted through date objects which do not support masked elements.
+    if np.ma.is_masked(value) and getattr(units_src, 'is_time_reference', lambda: False)():
+        select = ~np.ma.getmaskarray(value)
+        # Zero is a valid time in any units.
+        converted = np.ma.array(np.zeros(value.shape), mask=~select)
+        if select.any():
+            converted[select] = get_conformed_units(value.data[select], units_src, units_dst)
+        return converted
+
     try:
         converted = units_src.convert(value, units_dst)
     except AttributeError:
-- 
2.43.0


From ac51e00ad5ff398d48b8a886d1ebad16d653dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 013/156] fix: return indices for value range subsets over one
 contiguous block

---
 src/ocgis/variable/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index c430462..7df7345 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1219,6 +1219,8 @@ class Variable(AbstractContainer, Attributes):
         if not select.any():
             raise EmptySubsetError(origin=self.name)
 
+        indices = np.arange(select.shape[0])
+
         # Allow single-valued dimensions to be subset.
         if self.ndim == 0:
             if select[0]:
@@ -1232,7 +1234,6 @@ class Variable(AbstractContainer, Attributes):
             ret = self[select]
 
         if return_indices:
-            indices = np.arange(select.shape[0])
             ret = (ret, indices[select])
 
         return ret
-- 
2.43.0


From c4ea036762540251e61c39b74bced5ef01133e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 014/156] fix: empty time or level subset of a field object
 raises the extent error

---
 src/ocgis/ops/engine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index e008936..a111807 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -257,8 +257,7 @@ class OperationsEngine(AbstractOcgisObject):
                 ocgis_lh(msg='time or level subset empty but empty returns allowed', logger=self._subset_log,
                          level=logging.WARN)
                 coll = self._get_initialized_collection_()
-                name = '_'.join([rd.field_name for rd in rds])
-                field = Field(name=name, is_empty=True)
+                field = Field(name=alias, is_empty=True)
                 coll.add_field(field, None)
                 try:
                     yield coll
@@ -266,8 +265,7 @@ class OperationsEngine(AbstractOcgisObject):
                     return
             else:
                 # Raise an exception as empty subsets are not allowed.
-                ocgis_lh(exc=ExtentError(message=str(e)), alias=str([rd.field_name for rd in rds]),
-                         logger=self._subset_log)
+                ocgis_lh(exc=ExtentError(message=str(e)), alias=alias, logger=self._subset_log)
 
         # Set iterator based on presence of slice. Slice always overrides geometry.
         if self.ops.slice is not None:
-- 
2.43.0


From f304618df9026401f3805d23b490758729414d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 015/156] fix: time region validation knows every month of the
 time range

---
 src/ocgis/util/helpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 3f0b012..04093c4 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -1197,14 +1197,13 @@ def validate_time_subset(time_range, time_region):
                 copy_time_region[key] = None
         # Pull basic date information from the time range.
         min_range_year, max_range_year = time_range[0].year, time_range[1].year
-        delta = datetime.timedelta(days=29, hours=12)
         months = set()
-        current = time_range[0]
-        while current <= time_range[1]:
-            current += delta
-            months.update([current.month])
+        current = (time_range[0].year, time_range[0].month)
+        while current <= (time_range[1].year, time_range[1].month):
+            months.update([current[1]])
             if len(months) == 12:
                 break
+            current = (current[0] + current[1] // 12, current[1] % 12 + 1)
         # Construct boundaries from time region. first, the case of only months.
         if copy_time_region['month'] is not None and copy_time_region['year'] is None:
             month_bounds = min(copy_time_region['month']), max(copy_time_region['month'])
-- 
2.43.0


From 696ae7f33589f33b1d7ef2565794b5c89897e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 016/156] fix: remove every empty time region when unique
 seasons are grouped

---
 src/ocgis/variable/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 9e2de14..566edf5 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1060,7 +1060,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                 td.get_time_region(sub_time_region)
         except EmptySubsetError:
             remove.append(idx)
-    for xx in remove:
+    for xx in reversed(remove):
         time_regions.pop(xx)
 
     return time_regions
-- 
2.43.0


From 53eaeef837494d9295730091333ac83693cdfe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 017/156] fix: seasons without data do not break seasonal
 grouping

---
 src/ocgis/variable/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 566edf5..1f51be2 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -565,6 +565,9 @@ class TemporalVariable(SourcedVariable):
                     else:
                         if parts[idx, 1] in season:
                             subgroup[idx] = True
+                # There may be no data for the season.
+                if not subgroup.any():
+                    continue
                 dgroups.append(subgroup)
                 grouping_season.append([season, year])
             dtype = [('months', object), ('year', int)]
-- 
2.43.0


From 1af644be32601a6b77f5bfda63973c1521e45924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 018/156] fix: bounds of unique seasons use the time bounds
 when available

---
 src/ocgis/variable/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 1f51be2..0df1d02 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -687,7 +687,7 @@ class TemporalVariable(SourcedVariable):
                                                                  raise_if_incomplete=False):
             dgroups.append(dgroup)
             sub_value_datetime = sub.value_datetime
-            new_bounds = np.vstack((new_bounds, [min(sub_value_datetime), max(sub_value_datetime)]))
+            new_bounds = np.vstack((new_bounds, sub.extent_datetime))
             repr_dt = np.append(repr_dt, sub_value_datetime[int(sub.shape[0] / 2)])
         # no date parts yet...
         date_parts = None
-- 
2.43.0


From 63f498fa86ce4b788d8531ab81026dcaca14b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 019/156] fix: unique seasons across the year end do not join
 non-consecutive years

---
 src/ocgis/variable/temporal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 0df1d02..96fc1f5 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1034,7 +1034,11 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                     sub_time_region = []
                     for ii_split, s in enumerate(split):
                         try:
-                            to_append_sub = {'year': [years[ii_year + ii_split]], 'month': s.tolist()}
+                            sub_year = years[ii_year + ii_split]
+                            # The next year with data may not be the next calendar year.
+                            if sub_year != year + ii_split:
+                                raise IndexError
+                            to_append_sub = {'year': [sub_year], 'month': s.tolist()}
                             sub_time_region.append(to_append_sub)
                         # there may not be another year of data for an interannual season. we DO NOT keep incomplete
                         # seasons.
-- 
2.43.0


From dec94c2e35dd8700a01c7a3b728956888ca2d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 020/156] fix: representative month of a season lies in the
 season

---
 src/ocgis/variable/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 96fc1f5..ee2291f 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -656,6 +656,9 @@ class TemporalVariable(SourcedVariable):
                     center_month = r_value_months[middle_index]
                 else:
                     center_month = int(np.floor(np.mean([r_bounds[0].month, r_bounds[1].month])))
+                    # The upper bound may fall into the month following the season.
+                    if center_month not in r_value_months:
+                        center_month = r_value_months[int(np.floor(len(r_value_months) / 2))]
                 center_year = int(np.floor(np.mean([r_bounds[0].year, r_bounds[1].year])))
                 fill = get_datetime_or_netcdftime(center_year, center_month, constants.CALC_MONTH_CENTROID)
                 ret[idx] = fill
-- 
2.43.0


From 7a785021b99a549820610a4165b225fce5092776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 021/156] fix: the units validation error can be printed

---
 src/ocgis/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/exc.py b/src/ocgis/exc.py
index 3716199..845d891 100644
--- a/src/ocgis/exc.py
+++ b/src/ocgis/exc.py
@@ -314,7 +314,7 @@ class UnitsValidationError(OcgException):
     def __str__(self):
         msg = ('There was an error in units validation for calculation with key "{3}". The units on variable "{0}" '
                '(units="{2}") do not match the required units "{1}". The units should be conformed or overloaded if '
-               'incorrectly attributed.').format(self.variable.alias, self.required_units, self.variable.units,
+               'incorrectly attributed.').format(self.variable.name, self.required_units, self.variable.units,
                                                  self.calculation_key)
         return msg
 
-- 
2.43.0


From d213ede49baeaf85c71ec461a39f9ba099be952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 022/156] fix: valid convolution with a single weight keeps
 every value

---
 src/ocgis/calc/library/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 310954e..6b8d136 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -99,7 +99,7 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
             # identify where the two arrays completely overlap and collect the indices to subset the field object
             # attached to the calculation object
             overlap_mask = np.ones(mask.shape, dtype=bool)
-            overlap_mask[:, slice(0, 0 - (v.shape[0] - 1)), :, :, :] = False
+            overlap_mask[:, slice(0, values.shape[1] - (v.shape[0] - 1)), :, :, :] = False
             fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
             # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
         else:
-- 
2.43.0


From 77e4ed54afb9d057a60a53b22b5776abd08a7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 023/156] fix: every singular occurrence counts in the
 frequency of durations

---
 src/ocgis/calc/library/index/duration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 0daa662..f511cb3 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -81,7 +81,7 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
                 fill = [a.sum() for a in splits if np.all(a)]
             # case of only a singular occurrence
             elif np.any(vec):
-                fill = [1]
+                fill = [1] * int(vec.sum())
             # case for no occurrence
             else:
                 fill = [0]
-- 
2.43.0


From 77b825fcccd5a627bd798c0bcf778156a253e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 024/156] fix: the standard deviation of a single duration is
 zero

---
 src/ocgis/calc/library/index/duration.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index f511cb3..508f944 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -35,16 +35,7 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         # find longest sequence for each geometry across time dimension
         for ii, fill in enumerate(self._iter_consecutive_(values, threshold, operation)):
-            # case of only a singular occurrence
-            if len(fill) > 1:
-                fill = summary_operation(fill)
-            else:
-                try:
-                    fill = fill[0]
-                # value is likely masked
-                except IndexError:
-                    fill = 0
-            store[ii] = fill
+            store[ii] = summary_operation(fill)
 
         store.resize(shp_out)
 
-- 
2.43.0


From 02d9e9d594cea3bc6bb6ab5ab53756c31e2e8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 025/156] fix: durations use the mask of every time step

---
 src/ocgis/calc/library/index/duration.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 508f944..86f0e2c 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -39,9 +39,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         store.resize(shp_out)
 
-        # update the output mask. this only applies to geometries so pick the
-        # first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # update the output mask. an output is masked only if there are no values at all
+        store = np.ma.array(store, mask=values.mask.all(axis=0))
 
         return store
 
@@ -57,6 +56,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
             arr = values >= threshold
         elif operation == 'lte':
             arr = values <= threshold
+        # masked values are never an occurrence
+        arr = np.ma.filled(arr, False)
 
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
@@ -110,8 +111,8 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
             store[ii] = summary
         store.resize(shp_out)
 
-        # Update the output mask. this only applies to geometries so pick the first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # Update the output mask. An output is masked only if there are no values at all.
+        store = np.ma.array(store, mask=values.mask.all(axis=0))
 
         return store
 
-- 
2.43.0


From 7a514b8eedbde966c84950be4131ec65e5d647ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 026/156] fix: masked values do not enter frequency percentiles

---
 src/ocgis/calc/library/statistics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..cd4ec81 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -366,8 +366,13 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        ret = np.percentile(values, percentile, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
+        mask = np.ma.getmaskarray(values)
+        mask_all = mask.all(axis=0)
+        # Masked values do not contribute. Series without any values only need something to avoid warnings.
+        to_calculate = np.where(mask, np.nan, values.data)
+        to_calculate[:, mask_all] = 0
+        ret = np.nanpercentile(to_calculate, percentile, axis=0)
+        ret = np.ma.array(ret, mask=mask_all)
         return ret
 
 
-- 
2.43.0


From 1c02a355d4e802af3c6f723bd8432c534fdef709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 027/156] fix: moving windows keep the mask of the data

---
 src/ocgis/calc/library/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index cd4ec81..ede6d1a 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -43,7 +43,7 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         assert values.ndim == 5
         assert operation in self._potential_operations
 
-        operation = getattr(np, operation)
+        operation = getattr(np.ma, operation)
 
         fill = values.copy()
 
@@ -65,8 +65,8 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
             # slice the field and fill arrays
             # self.field = self.field[:, idx_start:origin + 1, :, :, :]
             # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
+            fill.mask[:, :idx_start, :, :, :] = True
+            fill.mask[:, origin + 1:, :, :, :] = True
             # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
         elif mode == 'same':
             pass
-- 
2.43.0


From 8ada26f971b15d2997d5c21c0caafbdb165b3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 028/156] fix: names in expressions may overlap, follow spaces
 and be any function argument

---
 src/ocgis/calc/eval_function.py | 58 ++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ecc3b7a..f5aca27 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -6,6 +6,11 @@ from ocgis import constants
 from ocgis.calc.base import AbstractUnivariateFunction
 
 
+# Regular expressions for numbers and tokens (numbers and names) in string functions.
+RE_NUMBER = r'(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?'
+RE_TOKEN = RE_NUMBER + r'(?![A-Za-z0-9_.])|[A-Za-z0-9_]+'
+
+
 class EvalFunction(AbstractUnivariateFunction):
     """
     A function that parses and evaluates string representations of calculations. If ``file_only`` is ``True``, the
@@ -90,8 +95,7 @@ class EvalFunction(AbstractUnivariateFunction):
         # do not count the output variable name
         expr = expr.split('=')[1]
         # count the number of variable names in the right hand side of the string expression.
-        strings = set(re.findall("[A-Za-z0-9_]+", expr))
-        strings = set([s for s in strings if re.search("[A-Za-z]", s) is not None])
+        strings = EvalFunction._get_names_(expr)
         strings_left = deepcopy(strings)
         for s in strings:
             if s in constants.ENABLED_NUMPY_UFUNCS:
@@ -120,10 +124,6 @@ class EvalFunction(AbstractUnivariateFunction):
         :raises ValueError:
         """
 
-        # standard arithmetic mathematical operators
-        math_set = '[(\-+*/)]'
-        # regular expressions use to find the variable aliases
-        re_expr_base = ['{1}{0}{1}', '^{0}{1}', '{1}{0}$', '^{0}$', '{1}{0},']
         # attempt to split the expression at the equals sign.
         try:
             out_variable_name, expr = expr.split('=')
@@ -131,8 +131,7 @@ class EvalFunction(AbstractUnivariateFunction):
             msg = 'Unable to parse expression string: "{0}". The equals sign is likely missing.'
             raise ValueError(msg.format(expr))
         # find the variable aliases and function names in the string expression
-        strings = set(re.findall("[A-Za-z0-9_]+", expr))
-        strings = set([s for s in strings if re.search("[A-Za-z]", s) is not None])
+        strings = EvalFunction._get_names_(expr)
         # "strings" must be entirely composed of enabled numpy functions and the variable aliases originating from the
         # keys in "map_vars"
         for s in strings:
@@ -140,27 +139,32 @@ class EvalFunction(AbstractUnivariateFunction):
                 raise ValueError('Unable to parse expression string: "{0}". '
                                  'Ensure the NumPy functions are enabled and appropriate '
                                  'variables have been requested. The problem string value is "{1}".'.format(expr, s))
-        # update the names of the numpy functions to use the module prefix "np"
-        for np_func in constants.ENABLED_NUMPY_UFUNCS:
-            expr = expr.replace(np_func, 'np.' + np_func)
-        # update the variable aliases to match the key-value relationship in "map_vars"
-        max_ctr = len(expr)
-        for k, v in map_vars.items():
-            for r in re_expr_base:
-                re_expr = r.format(k, math_set)
-                ctr = 0
-                while True:
-                    def repl(mo):
-                        return mo.group(0).replace(k, v)
-
-                    expr = re.sub(re_expr, repl, expr)
-                    if re.search(re_expr, expr) is None:
-                        break
-                    ctr += 1
-                    if ctr > max_ctr:
-                        break
+
+        # update the names of the numpy functions to use the module prefix "np" and the variable aliases to match the
+        # key-value relationship in "map_vars". only entire names are replaced as names may overlap.
+        def repl(mo):
+            token = mo.group(0)
+            if token in map_vars:
+                token = map_vars[token]
+            elif token in constants.ENABLED_NUMPY_UFUNCS:
+                token = 'np.' + token
+            return token
+
+        expr = re.sub(RE_TOKEN, repl, expr).strip()
+        out_variable_name = out_variable_name.strip()
         return expr, out_variable_name
 
+    @staticmethod
+    def _get_names_(expr):
+        """
+        :param str expr: The right-hand side of a string function.
+        :returns: The variable and function names in the expression. Numbers are not names.
+        :rtype: set(str, ...)
+        """
+
+        strings = [s for s in re.findall(RE_TOKEN, expr) if re.match(RE_NUMBER + '$', s) is None]
+        return set(strings)
+
     def _set_derived_variable_alias_(self, *args, **kwargs):
         pass
 
-- 
2.43.0


From 7fd7a14d5dd3bb97e9716d1af0e28c40be7b54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 029/156] fix: every expression of a calculation list is
 evaluated

---
 src/ocgis/calc/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 29ee0c7..bd73adb 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -104,8 +104,8 @@ class CalculationEngine(object):
                             new_temporal = function.tgd.extract()
                     except KeyError:
                         # Likely an eval function which does not have the name key.
-                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=self.funcs[0]['func'],
-                                                meta_attrs=self.funcs[0].get('meta_attrs'))
+                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=f['func'],
+                                                meta_attrs=f.get('meta_attrs'))
 
                     ocgis_lh('calculation initialized', logger='calc.engine', level=logging.DEBUG)
 
-- 
2.43.0


From 7c9b6445d61d5f484a4dad36a347f7dbc5c63ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 030/156] fix: results of expressions keep their mask

---
 src/ocgis/calc/eval_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index f5aca27..cb392ca 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -79,6 +79,9 @@ class EvalFunction(AbstractUnivariateFunction):
                 carr_fill.data[:] = res.data
                 carr_fill.mask[:] = res.mask
 
+            # Setting the values ensures the mask is updated on the output variables.
+            fill.set_value(arr_fill)
+
         self._add_to_collection_({'fill': fill})
 
     @staticmethod
-- 
2.43.0


From fad110f039f3759fb54078c889fb161a1eb6b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 031/156] fix: expressions only need their own variables and
 use the data type of the calculation

---
 src/ocgis/calc/eval_function.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index cb392ca..020f096 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -13,9 +13,8 @@ RE_TOKEN = RE_NUMBER + r'(?![A-Za-z0-9_.])|[A-Za-z0-9_]+'
 
 class EvalFunction(AbstractUnivariateFunction):
     """
-    A function that parses and evaluates string representations of calculations. If ``file_only`` is ``True``, the
-    output array's data type is :attr:~`env.NP_FLOAT` if ``dtype`` is ``None``. If ``file_only`` is
-    ``False``, the output data type is determined by the NumPy calculation.
+    A function that parses and evaluates string representations of calculations. The output data type is determined by
+    the NumPy calculation.
 
     .. note:: Accepts all parameters to :class:`~ocgis.calc.base.AbstractUnivariateFunction`.
 
@@ -55,14 +54,18 @@ class EvalFunction(AbstractUnivariateFunction):
         # update the output alias and key used to create the variable collection later
         self.alias, self.key = out_variable_name, out_variable_name
 
-        # Construct conformed array iterator.
-        keys = list(map_vars.keys())
+        # Construct conformed array iterator. Only variables in the expression are needed.
+        names = self._get_names_(self.expr.split('=')[1])
+        keys = [k for k in map_vars.keys() if k in names]
         crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
         variable_shapes = [calculation_targets[k].shape for k in keys]
         arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
         archetype = calculation_targets[keys[0]]
-        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
-                                      dtype=archetype.dtype)
+        # The data type is determined by the NumPy calculation.
+        namespace = {map_vars[k]: np.ma.ones(1, dtype=calculation_targets[k].dtype) for k in keys}
+        with np.errstate(all='ignore'):
+            dtype = eval(expr, {'np': np}, namespace).dtype
+        fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only, dtype=dtype)
         fill.units = None
 
         if not self.file_only:
-- 
2.43.0


From 3a641886bd2455f8d2c3c3d5818db9e489329f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 032/156] fix: variable names of multivariate functions keep
 their case

---
 src/ocgis/ops/parms/definition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 11c9cf0..dae3d09 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -232,7 +232,11 @@ class Calc(base.IterableParameter, base.AbstractParameter):
             # make the keyword parameter definitions lowercase.
             else:
                 value['kwds'] = OrderedDict(value['kwds'])
+                # the names of required variables are case-sensitive.
+                required = getattr(value['ref'], 'required_variables', ())
                 for k, v in value['kwds'].items():
+                    if k in required:
+                        continue
                     try:
                         value['kwds'][k] = v.lower()
                     except AttributeError:
-- 
2.43.0


From 9e3b4083f1ae54f4d26a5a33165fd933c524e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 033/156] fix: heat index leaves the masks of its input
 variables alone

---
 src/ocgis/calc/library/index/heat_index.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/calc/library/index/heat_index.py b/src/ocgis/calc/library/index/heat_index.py
index ea273ca..5621098 100644
--- a/src/ocgis/calc/library/index/heat_index.py
+++ b/src/ocgis/calc/library/index/heat_index.py
@@ -23,10 +23,11 @@ class HeatIndex(base.AbstractMultivariateFunction):
         c8 = 8.5282e-4
         c9 = -1.99e-6
 
-        idx = tas < 80
-        tas.mask = np.logical_or(idx, tas.mask)
-        idx = rhs < 40
-        rhs.mask = np.logical_or(idx, rhs.mask)
+        # Create new arrays to leave the masks of the input variables alone.
+        idx = tas.data < 80
+        tas = np.ma.array(tas.data, mask=np.logical_or(idx, tas.mask))
+        idx = rhs.data < 40
+        rhs = np.ma.array(rhs.data, mask=np.logical_or(idx, rhs.mask))
 
         tas_sq = np.square(tas)
         rhs_sq = np.square(rhs)
-- 
2.43.0


From 31edb13275823f4514b1a0cfe1eef98723c1e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 034/156] fix: expressions given as one string keep the case of
 variable names

---
 src/ocgis/ops/parms/definition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index dae3d09..d8882a7 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -126,6 +126,7 @@ class Calc(base.IterableParameter, base.AbstractParameter):
     _possible = ['es=tas+4', ['es=tas+4'], [{'func': 'mean', 'name': 'mean'}]]
     _required_keys_final = {'ref', 'meta_attrs', 'name', 'func', 'kwds'}
     _required_keys_initial = ('name', 'func')
+    _lower_string = False  # Variable names are case-sensitive.
 
     def __init__(self, *args, **kwargs):
         # this flag is used by the parser to determine if an eval function has been passed. very simple test for this...
@@ -254,6 +255,9 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         return value
 
     def _parse_string_(self, value):
+        if value.lower() == 'none':
+            return None
+
         try:
             key, uname = value.split('~', 1)
             try:
@@ -268,7 +272,7 @@ class Calc(base.IterableParameter, base.AbstractParameter):
                         kwds.update({kwd_name: str(kwd_value)})
             except ValueError:
                 kwds = OrderedDict()
-            ret = {'func': key, 'name': uname, 'kwds': kwds}
+            ret = {'func': key.lower(), 'name': uname, 'kwds': kwds}
         except ValueError:
             # likely a string to use for an eval function
             if '=' not in value:
-- 
2.43.0


From 2532ca4e0748a1dde7e17dec19febd975bc30b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 035/156] fix: setting masks along shared dimensions does not
 change the mask arrays of other variables

---
 src/ocgis/variable/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 7df7345..ab5db21 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2528,9 +2528,12 @@ def set_mask_by_variable(source_variable, target_variable, slice_map=None, updat
         if names_source == names_destination:
             mask_target = mask_source
         else:
-            # If the target mask is none, we will need to generate one.
+            # If the target mask is none, we will need to generate one. Otherwise, work on a copy. The mask array may be
+            # shared with other variables.
             if mask_target is None:
                 mask_target = np.zeros(target_variable.shape, dtype=bool)
+            else:
+                mask_target = mask_target.copy()
             template = [slice(None)] * target_variable.ndim
             for slc in itertools.product(*[list(range(ii)) for ii in source_variable.shape]):
                 # slc = [slice(s, s + 1) for s in slc]
-- 
2.43.0


From b98e5d1fdf215ba364362e4e903d78db5b3d3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 036/156] fix: a spatial mask is added to the masks of
 two-dimensional data variables

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..2165173 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1281,7 +1281,7 @@ def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
 
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
-    grid.parent.set_mask(grid.mask_variable, exclude=members)
+    grid.parent.set_mask(grid.mask_variable, exclude=members, update=True)
 
 
 def expand_grid(grid):
-- 
2.43.0


From 618452e303e13c32ab994d157dff8568ca7da1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 037/156] fix: optimized bounding box subsets keep the mask of
 the grid

---
 src/ocgis/spatial/grid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 2165173..945702a 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -655,10 +655,9 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             hint_mask = np.invert(hint_mask)
 
             original_mask = hint_mask
-            if not optimized_bbox_subset:
-                mask = self.get_mask()
-                if mask is not None:
-                    original_mask = np.logical_or(mask, hint_mask)
+            mask = self.get_mask()
+            if mask is not None:
+                original_mask = np.logical_or(mask, hint_mask)
 
         ret = self.copy()
         if original_grid_has_mask:
-- 
2.43.0


From 79377e3bb6be02ec9553e248083978519ec3e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 038/156] fix: the touch check of rectilinear grids uses the
 column index for columns

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 945702a..f022be0 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1245,7 +1245,7 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
             for ii in range(grid.shape[0]):
                 ety[ii, :] = ty[ii]
             for jj in range(grid.shape[1]):
-                etx[:, jj] = tx[ii]
+                etx[:, jj] = tx[jj]
             tx = etx
             ty = ety
         if np.any(np.logical_and(tx, ty)):
-- 
2.43.0


From 9199d5af974683a835507970ca226010b1634381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 039/156] fix: grid subsets find cells of any size

---
 src/ocgis/spatial/grid.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index f022be0..3fb8539 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -634,7 +634,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         if original_mask is None:
             if not optimized_bbox_subset:
-                buffer_value = self.resolution * 1.25
+                buffer_value = get_hint_buffer(self, use_bounds)
 
             if isinstance(subset_geom, BaseMultipartGeometry):
                 geom_itr = subset_geom
@@ -642,9 +642,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 geom_itr = [subset_geom]
 
             for ctr, geom in enumerate(geom_itr):
+                bounds = geom.bounds
                 if not optimized_bbox_subset:
-                    geom = geom.buffer(buffer_value).envelope
-                single_hint_mask = get_hint_mask_from_geometry_bounds(self, geom.bounds, invert=False,
+                    bounds = (bounds[0] - buffer_value[0], bounds[1] - buffer_value[1],
+                              bounds[2] + buffer_value[0], bounds[3] + buffer_value[1])
+                single_hint_mask = get_hint_mask_from_geometry_bounds(self, bounds, invert=False,
                                                                       no_touching=no_touching)
 
                 if ctr == 0:
@@ -1230,6 +1232,24 @@ def get_coordinate_boolean_array(grid_target, keep_touches, max_target, min_targ
     return res_target
 
 
+def get_hint_buffer(grid, use_bounds):
+    """
+    Return the distances along x and y by which a bounding box must grow to contain the representative coordinates of
+    all cells intersecting it. Cell sizes may vary across the grid.
+
+    :rtype: tuple
+    """
+    ret = []
+    for target in [grid.x, grid.y]:
+        if use_bounds and target.has_bounds:
+            value = target.get_value()
+            distance = np.abs(target.bounds.get_value() - value.reshape(value.shape + (1,)))
+            ret.append(float(distance.max()) * 1.25)
+        else:
+            ret.append(0.)
+    return tuple(ret)
+
+
 def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=False):
     grid_x = grid.x.get_value()
     grid_y = grid.y.get_value()
-- 
2.43.0


From 009a99360118f69e170cbb57b5bb9abc6c973544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 040/156] fix: subset one-dimensional geometry variables when
 nothing is masked

---
 src/ocgis/variable/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..d05326e 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1248,7 +1248,7 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
             local_slice = None
         elif not intersects_mask_value.any():
             shp = intersects_mask_value.shape
-            local_slice = [(0, shp[0]), (0, shp[1])]
+            local_slice = [(0, s) for s in shp]
         else:
             _, local_slice = get_trimmed_array_by_mask(intersects_mask_value, return_adjustments=True)
             local_slice = [(l.start, l.stop) for l in local_slice]
-- 
2.43.0


From 5e19c6db2eadede90d4c62f8b1d1af2e67edd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 041/156] fix: optimized bounding box subsets honor the cascade
 argument

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 3fb8539..280e448 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -668,7 +668,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         if optimized_bbox_subset:
             if original_mask is not None and original_mask.any():
                 # TODO: OPTIMIZE: Can we avoid the cascade? There is no reason to cascade the mask if it is going to be sliced off anyway.
-                ret.set_mask(original_mask, cascade=True)
+                ret.set_mask(original_mask, cascade=cascade)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
             if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
-- 
2.43.0


From ba021e5cd5e0151bcad2920a8f1228d5b9a3bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 042/156] fix: allowing empty output does not skip regridding,
 aggregation and coordinate systems of other fields

---
 src/ocgis/ops/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index a111807..44924f8 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -351,7 +351,7 @@ class OperationsEngine(AbstractOcgisObject):
                 vm.create_subcomm_by_emptyable(SubcommName.FIELD_SUBSET, sfield, is_current=True, clobber=True)
 
                 if not vm.is_null:
-                    if not sfield.is_empty and not self.ops.allow_empty:
+                    if not sfield.is_empty:
                         raise_if_empty(sfield)
 
                         # If the base size is being requested, bypass the rest of the operations.
-- 
2.43.0


From a714422637ca1319f13ed0250d1a5a9e26b9fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 043/156] fix: the abstraction argument applies to field
 objects

---
 src/ocgis/ops/engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 44924f8..e5d2bf9 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -206,7 +206,10 @@ class OperationsEngine(AbstractOcgisObject):
                         # Check that is indeed a field before a proceeding.
                         if not isinstance(rds_element, Field):
                             raise
-                        field_object = rds_element
+                        # Operations adjust the field. Leave the incoming object unchanged.
+                        field_object = rds_element.copy()
+                        if self.ops.abstraction != 'auto' and field_object.grid is not None:
+                            field_object.dimension_map.set_grid_abstraction(self.ops.abstraction)
 
                     field[ii] = field_object
 
-- 
2.43.0


From 6c3b0178f094cb6a4ce89037694b10bc643ec26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 044/156] fix: seasons with the same first or last month are
 all kept

---
 src/ocgis/variable/temporal.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index ee2291f..a72c8a0 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -986,14 +986,8 @@ def get_sorted_seasons(seasons, method='max'):
 
     methods = {'min': min, 'max': max}
 
-    season_map = {}
-    for ii, season in enumerate(seasons):
-        season_map[ii] = season
-    max_map = {}
-    for key, value in season_map.items():
-        max_map[methods[method](value)] = key
-    sorted_maxes = sorted(max_map)
-    ret = [seasons[max_map[s]] for s in sorted_maxes]
+    # Seasons may have the same sort value.
+    ret = sorted(seasons, key=methods[method])
     ret = deepcopy(ret)
     return ret
 
-- 
2.43.0


From f3e71000542b9713440f3c556946e1ba3dcdef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 045/156] fix: spatial averages keep masks, are not truncated
 to integers and align weights with each variable

The average of variables listed after a variable with other dimensions used the wrong
dimensions, all-masked data became unmasked, integer data were truncated, weights were not
aligned for variables with swapped spatial dimensions only, and in parallel data masks were
ignored and rank weights shuffled between slices. Partial unions always took the first
geometry along the remaining dimension.
---
 src/ocgis/variable/geom.py | 170 ++++++++++++-------------------------
 1 file changed, 54 insertions(+), 116 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index d05326e..04cf003 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -921,7 +921,8 @@ class GeometryVariable(AbstractSpatialVariable):
             # Select the geometries to union skipping any masked geometries.
             to_union = deque()
             for indices in product(*[list(range(dl)) for dl in dimension_lengths]):
-                dslc = {dimension_names[ii]: indices[ii] for ii in range(len(dimension_names))}
+                dslc = {dn: dst_slc[dn] for dn in self.dimension_names if dn not in dimension_names}
+                dslc.update({dimension_names[ii]: indices[ii] for ii in range(len(dimension_names))})
                 sub = self[dslc]
                 sub_mask = sub.get_mask()
                 if sub_mask is None:
@@ -948,127 +949,64 @@ class GeometryVariable(AbstractSpatialVariable):
 
             # Fill the return geometry variable value with the unioned geometry.
             to_fill = ret[dst_slc].get_value()
-            to_fill[0] = unioned
+            to_fill[(0,) * to_fill.ndim] = unioned
 
         # Spatial average shared dimensions.
         if spatial_average is not None:
             # Get source data to weight.
-            for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(self.parent.values())):
-                # Holds sizes of dimensions to iterate. These dimension are not squeezed by the weighted averaging.
-                range_to_itr = []
-                # Holds the names of dimensions to squeeze.
-                names_to_itr = []
-                # Dimension names that are squeezed. Also the dimensions for the weight matrix.
-                names_to_slice_all = []
-                for dn in var_to_weight.dimensions:
-                    if dn.name in self.dimension_names:
-                        names_to_slice_all.append(dn.name)
-                    else:
-                        range_to_itr.append(len(dn))
-                        names_to_itr.append(dn.name)
-
-                # Reference the weights on the source geometry variable.
-                weights = self[{nsa: slice(None) for nsa in names_to_slice_all}].weights
-
-                # Path if there are iteration dimensions. Checks for axes ordering in addition.
-                if len(range_to_itr) > 0:
-                    # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
-                    # dimensions aggregated by the weighted average.
-                    new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
-                    new_dimensions.append(union_dimension)
-
-                    # Prepare the spatially averaged variable.
-                    target = ret.parent[var_to_weight.name]
-                    target.set_mask(None)
-                    target._value = None
-                    target.set_dimensions(new_dimensions)
-                    target.allocate_value()
-
-                    # Swap weight axes to make sure they align with the target variable.
-                    swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
-                    if len(swap_chain) > 0:
-                        weights = weights.copy()
-                    for sc in swap_chain:
-                        weights = weights.swapaxes(*sc)
-
-                    # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
-                    len_names_to_itr = len(names_to_itr)
-                    slice_none = slice(None)
-                    squeeze_out = [ii for ii, dim in enumerate(var_to_weight.dimensions) if dim.name in names_to_itr]
-                    should_squeeze = True if len(squeeze_out) > 0 else False
-                    np_squeeze = np.squeeze
-                    np_atleast_1d = np.atleast_1d
-                    np_ma_average = np.ma.average
-                    for nonweighted_indices in product(*[list(range(ri)) for ri in range_to_itr]):
-                        w_slc = {names_to_itr[ii]: nonweighted_indices[ii] for ii in range(len_names_to_itr)}
-                        for nsa in names_to_slice_all:
-                            w_slc[nsa] = slice_none
-                        data_to_weight = var_to_weight[w_slc].get_masked_value()
-                        if should_squeeze:
-                            data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
-                        weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
-                        target[w_slc].get_value()[:] = weighted_value
-                else:
-                    target_to_weight = var_to_weight.get_masked_value()
-                    # Sort to minimize floating point sum errors.
-                    target_to_weight = target_to_weight.flatten()
-                    weights = weights.flatten()
-                    sindices = np.argsort(target_to_weight)
-                    target_to_weight = target_to_weight[sindices]
-                    weights = weights[sindices]
-
-                    weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
-                    target = ret.parent[var_to_weight.name]
-                    target.set_mask(None)
-                    target._value = None
-                    target.set_dimensions(new_dimensions)
-                    target.set_value(weighted_value)
-
-            # Collect areas of live ranks and convert to weights.
+            # Weights are relative to the largest geometry. In parallel, they must be relative to the largest geometry
+            # across ranks. Masked geometries have no weight.
+            weights = self.weights.filled(0.0)
             if vm.size > 1:
-                # If there is no area information (points for example, we need to use counts).
-                if ret.area.data[0].max() == 0:
-                    weight_or_proxy = float(self.size)
-                else:
-                    weight_or_proxy = ret.area.data[0]
+                areas = self.area.compressed()
+                max_area = areas.max() if len(areas) > 0 else 0.0
+                weights *= max_area if max_area > 0 else 1.0
+
+            for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(self.parent.values())):
+                data = var_to_weight.get_masked_value()
+                names = var_to_weight.dimension_names
+                # Axes squeezed by the weighted averaging.
+                axes = tuple([ii for ii, dn in enumerate(names) if dn in dimension_names])
+
+                # Align the weights with the dimensions of the target variable.
+                shared = [dn for dn in names if dn in self.dimension_names]
+                weights_shape = [len(dim) if dim.name in shared else 1 for dim in var_to_weight.dimensions]
+                var_weights = np.transpose(weights, [self.dimension_names.index(dn) for dn in shared])
+                var_weights = np.broadcast_to(var_weights.reshape(weights_shape), data.shape)
+
+                # Masked data have no weight. The average is masked if there is nothing to average.
+                var_weights = np.where(np.ma.getmaskarray(data), 0.0, var_weights)
+                sum_weights = var_weights.sum(axis=axes)
+                weighted_sum = (data.filled(0) * var_weights).sum(axis=axes)
+
+                # Combine the sums across live ranks.
+                if vm.size > 1:
+                    gathered = vm.gather((weighted_sum, sum_weights), root=root)
+                    if vm.rank == root:
+                        weighted_sum = np.sum([g[0] for g in gathered], axis=0)
+                        sum_weights = np.sum([g[1] for g in gathered], axis=0)
+
+                is_masked = np.atleast_1d(sum_weights == 0)
+                average = np.atleast_1d(weighted_sum) / np.where(is_masked, 1.0, np.atleast_1d(sum_weights))
+
+                # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
+                # dimensions aggregated by the weighted average.
+                average_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
+                average_dimensions.append(union_dimension)
+                average_shape = [len(dim) for dim in average_dimensions]
+
+                # Fill the spatially averaged variable. An average is not an integer.
+                target = ret.parent[var_to_weight.name]
+                if np.dtype(target.dtype).kind != 'f':
+                    target.dtype = env.NP_FLOAT
+                    target._fill_value = 'auto'
+                target.set_mask(None)
+                target._value = None
+                target.set_dimensions(average_dimensions)
+                target.set_value(average.reshape(average_shape))
+                if is_masked.any():
+                    target.set_mask(is_masked.reshape(average_shape))
 
-                if vm.rank != root:
-                    vm.comm.send(weight_or_proxy, dest=root)
-                else:
-                    live_rank_areas = [weight_or_proxy]
-                    for tner in vm.ranks:
-                        if tner != vm.rank:
-                            recv_area = vm.comm.recv(source=tner)
-                            live_rank_areas.append(recv_area)
-                    live_rank_areas = np.array(live_rank_areas)
-
-                    rank_weights = live_rank_areas / np.max(live_rank_areas)
-
-                for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(ret.parent.values())):
-                    dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
-                                         dim.name != union_dimension.name]
-                    slc = {union_dimension.name: 0}
-                    for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
-                        idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
-                        if vm.rank == root:
-                            collected_to_weight = [to_weight]
-                        if not vm.rank == root:
-                            vm.comm.send(to_weight, dest=root)
-                        else:
-                            for tner in vm.ranks:
-                                if not tner == root:
-                                    recv_to_weight = vm.comm.recv(source=tner)
-                                    collected_to_weight.append(recv_to_weight)
-
-                            # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
-                            sindices = np.argsort(collected_to_weight)
-                            collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
-
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
-                            var_to_weight[idx_slc].get_value()[:] = weighted
         if vm.rank == root:
             return ret
         else:
-- 
2.43.0


From 8c6fa130bdc36d0d78cded59b1573d37d287a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 046/156] fix: calculations on aggregated data keep masked
 results

---
 src/ocgis/calc/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 5285ce7..d65263c 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -499,7 +499,12 @@ class AbstractFunction(AbstractOcgisObject):
                     if self.spatial_aggregation:
                         # Weights are not currently conformed so should not be used.
                         res = self.aggregate_spatial(res, None)
-                        carr_fill.data[ir, it, il, :, :] = res
+                        # The aggregate is masked if all elements are masked.
+                        if np.ma.is_masked(res):
+                            carr_fill.mask[ir, it, il, :, :] = True
+                        else:
+                            carr_fill.data[ir, it, il, :, :] = res
+                            carr_fill.mask[ir, it, il, :, :] = False
                     else:
                         try:
                             carr_fill.data[ir, it, il, :, :] = res.data
-- 
2.43.0


From 6e676029487741f7d7519469c6e2d30d0e3ad0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 047/156] fix: wrapping polygons keeps holes and drops seam
 contacts that are not polygons

---
 src/ocgis/spatial/wrap.py | 64 +++++++++++----------------------------
 1 file changed, 18 insertions(+), 46 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index cd716ab..467662c 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -3,7 +3,7 @@ from abc import abstractmethod
 
 import numpy as np
 import six
-from shapely.geometry.linestring import LineString
+from shapely.affinity import translate
 from shapely.geometry.multipoint import MultiPoint
 from shapely.geometry.multipolygon import MultiPolygon
 from shapely.geometry.point import Point
@@ -128,24 +128,9 @@ class GeometryWrapper(AbstractWrapper):
                     left = to_process.intersection(self.clip1)
                     right = to_process.intersection(self.clip2)
 
-                    # Pull out the right side polygons.
-                    right_polygons = [poly for poly in iter_exploded_geometries(right)]
-
-                    # Adjust polygons falling the left window.
-                    if isinstance(left, Polygon):
-                        left_polygons = [self._unwrap_shift_(left)]
-                    else:
-                        left_polygons = []
-                        for polygon in left:
-                            left_polygons.append(self._unwrap_shift_(polygon))
-
-                    # Merge polygons into single unit.
-                    try:
-                        processed = MultiPolygon(left_polygons + right_polygons)
-                    except TypeError:
-                        left = [x for x in left_polygons if type(x) != LineString]
-                        right = [x for x in right_polygons if type(x) != LineString]
-                        processed = MultiPolygon(left + right)
+                    # Merge polygons into single unit adjusting polygons falling in the left window.
+                    left_polygons = [self._unwrap_shift_(poly) for poly in iter_polygons(left)]
+                    processed = MultiPolygon(left_polygons + list(iter_polygons(right)))
 
                 else:
                     if isinstance(to_process, Polygon):
@@ -185,38 +170,19 @@ class GeometryWrapper(AbstractWrapper):
         :rtype: :class:`shapely.geometry.base.BaseGeometry`
         """
 
-        def _shift_(geom):
-            try:
-                coords = np.array(geom.exterior.coords)
-                coords[:, 0] = coords[:, 0] - 360
-                ret = Polygon(coords)
-            # Likely a MultiPolygon.
-            except AttributeError:
-                polygons = np.empty(len(geom), dtype=object)
-                for ii, polygon in enumerate(geom):
-                    coords = np.array(polygon.exterior.coords)
-                    coords[:, 0] = coords[:, 0] - 360
-                    polygons[ii] = Polygon(coords)
-                ret = MultiPolygon(list(polygons))
-            return ret
-
         if isinstance(geom, (Polygon, MultiPolygon)):
             bounds = np.array(geom.bounds)
             # If the polygon column bounds are both greater than 180 degrees shift the coordinates of the entire
             # polygon.
             if np.all([bounds[0] > self.wrap_axis, bounds[2] > self.wrap_axis]):
-                new_geom = _shift_(geom)
+                new_geom = translate(geom, xoff=-360)
             # If a polygon crosses the 180 axis, then the polygon will need to be split with intersection and
             # recombined.
             elif bounds[0] <= self.wrap_axis < bounds[2]:
-                left = [poly for poly in iter_exploded_geometries(geom.intersection(self.left_clip))]
-                right = [poly for poly in iter_exploded_geometries(_shift_(geom.intersection(self.right_clip)))]
-                try:
-                    new_geom = MultiPolygon(left + right)
-                except TypeError:
-                    left = [x for x in left if type(x) != LineString]
-                    right = [x for x in right if type(x) != LineString]
-                    new_geom = MultiPolygon(left + right)
+                # Only polygons are relevant. The intersection may also have lines or points along the wrap axis.
+                left = list(iter_polygons(geom.intersection(self.left_clip)))
+                right = [translate(poly, xoff=-360) for poly in iter_polygons(geom.intersection(self.right_clip))]
+                new_geom = MultiPolygon(left + right)
             # Otherwise, the polygon coordinates are not affected by wrapping and the geometry may be passed through.
             else:
                 new_geom = geom
@@ -283,9 +249,15 @@ class GeometryWrapper(AbstractWrapper):
         :rtype: :class:`shapely.geometry.polygon.Polygon`
         """
 
-        coords = np.array(polygon.exterior.coords)
-        coords[:, 0] = coords[:, 0] + 360
-        return Polygon(coords)
+        return translate(polygon, xoff=360)
+
+
+def iter_polygons(geom):
+    """Yield the single-part polygons of a Shapely geometry object. Other geometry types are skipped."""
+
+    for element in iter_exploded_geometries(geom):
+        if isinstance(element, Polygon) and not element.is_empty:
+            yield element
 
 
 def apply_wrapping_index_map(imap, to_remap):
-- 
2.43.0


From 08679071bcb9b20c816c288e77006a16d730ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 048/156] fix: wrapping does not change arrays shared with
 other objects

Field.wrap(inplace=False) raised an exception.
---
 src/ocgis/collection/field.py | 4 ++--
 src/ocgis/variable/crs.py     | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 034d41d..92a3ee3 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1153,7 +1153,7 @@ def wrap_or_unwrap(field, action, inplace=True):
     if field.grid is not None:
         if not inplace:
             x = field.grid.x
-            x.set_value(x.value.copy())
+            x.set_value(x.get_value().copy())
         if action == WrapAction.WRAP:
             field.grid.wrap()
         else:
@@ -1161,7 +1161,7 @@ def wrap_or_unwrap(field, action, inplace=True):
     elif field.geom is not None:
         if not inplace:
             geom = field.geom
-            geom.set_value(geom.value.copy())
+            geom.set_value(geom.get_value().copy())
         if action == WrapAction.WRAP:
             field.geom.wrap()
         else:
diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index d4f3fe3..47f97a5 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -336,14 +336,17 @@ class AbstractCRS(AbstractInterfaceObject):
             if isinstance(target, GeometryVariable):
                 w = GeometryWrapper()
                 func = getattr(w, attr)
-                target_value = target.get_value()
+                # The geometry array may be shared with other objects.
+                target_value = target.get_value().copy()
                 for idx, target_geom in iter_array(target_value, use_mask=True, return_value=True,
                                                    mask=target.get_mask()):
                     target_value.__setitem__(idx, func(target_geom))
+                target.set_value(target_value)
             elif isinstance(target, Grid):
-                ca = CoordinateArrayWrapper()
+                # The coordinate array may be shared with other objects.
+                ca = CoordinateArrayWrapper(inplace=False)
                 func = getattr(ca, attr)
-                func(target.x.get_value())
+                target.x.set_value(func(target.x.get_value()))
                 target.remove_bounds()
                 if target.has_allocated_point:
                     getattr(target.get_point(), attr)()
-- 
2.43.0


From 407fff3352321998c154352c2bb940f8843d1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 049/156] fix: reordering moves everything along the reordered
 dimension

Rows without negative longitudes raised an exception, bounds and variables on the longitude
dimension alone stayed behind, and arrays shared with other objects were changed.
---
 src/ocgis/spatial/grid.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 280e448..10cbd53 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -767,30 +767,37 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         if self.is_vectorized:
             wrapped = wrapped.reshape(1, -1)
 
+        # Rows without a negative value are already ordered.
         shift_indices = np.zeros(self.shape[0], dtype=int)
         for row_index in range(wrapped.shape[0]):
-            the_split_index = None
             for ctr, element in enumerate(wrapped[row_index].flat):
                 if element < 0:
-                    the_split_index = ctr
+                    shift_indices[row_index] = ctr
                     break
-            shift_indices[row_index] = the_split_index
 
-        if self.is_vectorized:
-            shift_indices[:] = shift_indices[0]
-            reorder_array(shift_indices, self.x.get_value().reshape(1, -1), get_dimension_names(self.dimensions),
-                          reorder_dimension, varying_dimension)
+        is_vectorized = self.is_vectorized
+
+        # Reorder all arrays having the reorder dimension. If coordinates are not vectorized, the shift varies by row and
+        # only arrays with the varying dimension may be reordered. Arrays may be shared with other objects. Do not reorder
+        # in-place.
+        def _reorder_(arr, arr_dimension_names):
+            if is_vectorized:
+                ret = np.roll(arr, -shift_indices[0], axis=arr_dimension_names.index(reorder_dimension))
+            else:
+                ret = arr.copy()
+                reorder_array(shift_indices, ret, arr_dimension_names, reorder_dimension, varying_dimension)
+            return ret
 
-        # Reorder all arrays that have the reorder and varying dimension.
+        to_reorder = []
         for var in list(self.parent.values()):
             arr_dimension_names = get_dimension_names(var.dimensions)
-            if reorder_dimension in arr_dimension_names and varying_dimension in arr_dimension_names:
-                reorder_array(shift_indices, var.get_value(), arr_dimension_names, reorder_dimension, varying_dimension)
-                if var.has_masked_values:
-                    mask = var.get_mask()
-                    if mask is not None:
-                        reorder_array(shift_indices, mask, arr_dimension_names, reorder_dimension, varying_dimension)
-                        var.set_mask(mask)
+            if reorder_dimension in arr_dimension_names and (is_vectorized or varying_dimension in arr_dimension_names):
+                # Setting a mask may update other masks. Collect all original masks first.
+                to_reorder.append((var, arr_dimension_names, var.get_mask()))
+        for var, arr_dimension_names, mask in to_reorder:
+            var.set_value(_reorder_(var.get_value(), arr_dimension_names))
+            if mask is not None:
+                var.set_mask(_reorder_(mask, arr_dimension_names))
 
     def set_extrapolated_bounds(self, name_x_variable, name_y_variable, name_dimension):
         """
-- 
2.43.0


From 7d5f403a25ac49f2cf92609a563a89b7318966b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 050/156] fix: the target of a spatial subset is restored when
 the subset fails

---
 src/ocgis/spatial/spatial_subset.py | 111 ++++++++++++++--------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index fb53302..9909aff 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -111,63 +111,64 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         # Prepare the target field.
         self._prepare_target_()
 
-        # execute the spatial operation
-        slc = None
-        if operation == 'intersects':
-            if self.field.grid is None:
-                if keep_touches == 'auto':
-                    keep_touches = False
-                ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
-                                                     cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-            else:
-                ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
-                                                     optimized_bbox_subset=optimized_bbox_subset,
-                                                     return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-        elif operation in ('clip', 'intersection'):
-            if self.field.grid is None:
-                ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
-                                                       cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
+        try:
+            # execute the spatial operation
+            slc = None
+            if operation == 'intersects':
+                if self.field.grid is None:
+                    if keep_touches == 'auto':
+                        keep_touches = False
+                    ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
+                                                         cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
+                                                         optimized_bbox_subset=optimized_bbox_subset,
+                                                         return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+            elif operation in ('clip', 'intersection'):
+                if self.field.grid is None:
+                    ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
+                                                           cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    # An intersection with a grid returns a geometry variable. Set this on the field.
+                    ret.parent.set_geom(ret)
+                    ret = ret.parent
             else:
-                ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                # An intersection with a grid returns a geometry variable. Set this on the field.
-                ret.parent.set_geom(ret)
-                ret = ret.parent
-        else:
-            msg = 'The spatial operation "{0}" is not supported.'.format(operation)
-            raise ValueError(msg)
-
-        with vm.scoped_by_emptyable('return finalize', ret):
-            if not vm.is_null:
-                # Select the nearest geometry if requested.
-                if select_nearest:
-                    ret.set_abstraction_geom()
-                    ret = ret.geom.get_nearest(base_geometry).parent
-
-                # check for rotated pole and convert back to default CRS
-                if self._original_rotated_pole_state is not None and self.output_crs == 'input':
-                    ret.update_crs(self._original_rotated_pole_state)
-
-                # wrap the data...
-                if self._get_should_wrap_(ret):
-                    ret.wrap()
-
-                # convert the coordinate system if requested...
-                if self.should_update_crs:
-                    ret.update_crs(self.output_crs)
+                msg = 'The spatial operation "{0}" is not supported.'.format(operation)
+                raise ValueError(msg)
 
-        # Return the target field to its original state.
-        self._finalize_target()
+            with vm.scoped_by_emptyable('return finalize', ret):
+                if not vm.is_null:
+                    # Select the nearest geometry if requested.
+                    if select_nearest:
+                        ret.set_abstraction_geom()
+                        ret = ret.geom.get_nearest(base_geometry).parent
+
+                    # check for rotated pole and convert back to default CRS
+                    if self._original_rotated_pole_state is not None and self.output_crs == 'input':
+                        ret.update_crs(self._original_rotated_pole_state)
+
+                    # wrap the data...
+                    if self._get_should_wrap_(ret):
+                        ret.wrap()
+
+                    # convert the coordinate system if requested...
+                    if self.should_update_crs:
+                        ret.update_crs(self.output_crs)
+        finally:
+            # Return the target field to its original state.
+            self._finalize_target()
 
         if return_slice:
             ret = (ret, slc)
-- 
2.43.0


From 42649d317e312ae35c4914b3be5f9858fb6e9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 051/156] fix: rotated pole coordinate systems may be created
 with current PROJ versions

---
 src/ocgis/variable/crs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 47f97a5..464b795 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1137,7 +1137,11 @@ class CFNarccapObliqueMercator(CFCoordinateReferenceSystem):
 class CFRotatedPole(CFCoordinateReferenceSystem):
     grid_mapping_name = 'rotated_latitude_longitude'
     iterable_parameters = {}
-    map_parameters = {'grid_north_pole_longitude': None, 'grid_north_pole_latitude': None}
+    # The oblique mercator definition is a placeholder. It may not be created without an azimuth and ellipsoid. The actual
+    # transformation uses the transformation string.
+    map_parameters = {'grid_north_pole_longitude': None, 'grid_north_pole_latitude': None, 'alpha': 'alpha',
+                      'ellps': 'ellps'}
+    map_parameters_defaults = {'alpha': 0, 'ellps': 'WGS84'}
     proj_name = 'omerc'
     _find_projection_coordinates = False
     _fuzzy_grid_mapping_names = ('rotated_pole', 'rotated_lat_lon')
-- 
2.43.0


From 922b9474df95a9deb1a7645c9c1e6936690e7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 052/156] fix: rotated pole coordinate systems with different
 poles are not equal

---
 src/ocgis/variable/crs.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 464b795..3713fbf 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1155,6 +1155,18 @@ class CFRotatedPole(CFCoordinateReferenceSystem):
                                                  lat_pole=kwds['grid_north_pole_latitude'],
                                                  ellps=constants.PROJ4_ROTATED_POLE_ELLPS)
 
+    @property
+    def _pole(self):
+        values = self.map_parameters_values
+        return float(values['grid_north_pole_longitude']), float(values['grid_north_pole_latitude'])
+
+    def __eq__(self, other):
+        ret = super(CFRotatedPole, self).__eq__(other)
+        if ret:
+            # The base definition is a placeholder shared by all rotated pole coordinate systems.
+            ret = isinstance(other, CFRotatedPole) and self._pole == other._pole
+        return ret
+
     def update_with_rotated_pole_transformation(self, grid, inverse=False):
         """
         :type grid: :class:`~ocgis.Grid`
-- 
2.43.0


From 2b49ad3e6e76633101be194aee903502c7bc1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 053/156] fix: coordinate system updates do not change geometry
 arrays shared with other objects

---
 src/ocgis/variable/crs.py  | 5 ++++-
 src/ocgis/variable/geom.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 3713fbf..262849f 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -745,7 +745,10 @@ class AbstractSphericalCoordinateReferenceSystem(AbstractOcgisObject):
         z[:] = z_out
 
         new_geom = Polygon(new_coords)
-        geom.get_value()[0] = new_geom
+        # The geometry array may be shared with other objects.
+        new_value = geom.get_value().copy()
+        new_value[0] = new_geom
+        geom.set_value(new_value)
 
     def transform_grid(self, other_crs, grid, inverse=False):
         """
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 04cf003..cd30bd1 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1090,7 +1090,9 @@ class GeometryVariable(AbstractSpatialVariable):
             from_crs.transform_geometry(to_crs, self, inverse=inverse)
         elif from_crs != to_crs:
             # Be sure and project masked geometries to maintain underlying geometries.
-            r_value = self.get_value().reshape(-1)
+            # The geometry array may be shared with other objects.
+            new_value = self.get_value().copy()
+            r_value = new_value.reshape(-1)
             r_loads = wkb.loads
             r_create = ogr.CreateGeometryFromWkb
             to_sr = to_crs.sr
@@ -1116,6 +1118,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 ogr_geom.AssignSpatialReference(from_sr)
                 ogr_geom.TransformTo(to_sr)
                 r_value[idx] = r_loads(ogr_geom.ExportToWkb())
+            self.set_value(new_value)
         # Even if coordinate systems are measured equivalent, for consistency the new crs is the destination CRS.
         self.crs = to_crs
 
-- 
2.43.0


From 0ba885a4af08ee08fec59999afccab43e003cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 054/156] fix: rotated pole transformations work with current
 PROJ programs

---
 src/ocgis/variable/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 262849f..08da9e7 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1264,7 +1264,7 @@ def get_lonlat_rotated_pole_transform(lon, lat, transform, inverse=False, is_vec
             program = 'invproj'
         else:
             program = 'proj'
-        cmd = [program, '-f', '"%.6f"', '-m', '57.2957795130823'] + cmd
+        cmd = [program, '-f', '%.6f', '-m', '57.2957795130823'] + cmd
         capture = subprocess.check_output(cmd)
     finally:
         f.close()
-- 
2.43.0


From 763ee9c8f3099274a39d2b292fdb68bb729d0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 055/156] fix: equality of coordinate systems does not depend
 on the order

---
 src/ocgis/variable/crs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 08da9e7..73ccd2b 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -523,6 +523,9 @@ class CoordinateReferenceSystem(AbstractProj4CRS, AbstractInterfaceObject):
             raise ValueError(msg)
 
     def __eq__(self, other):
+        # Some coordinate systems have their own definition of equality. It must not depend on the order.
+        if isinstance(other, (WGS84, CFRotatedPole)) and not isinstance(self, (WGS84, CFRotatedPole)):
+            return other == self
         try:
             if self.sr.IsSame(other.sr) == 1:
                 ret = True
-- 
2.43.0


From b7910f4402f6221927f067e64d097180d76869ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 056/156] fix: a spatial subset leaves rotated pole targets
 unchanged

---
 src/ocgis/spatial/spatial_subset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index 9909aff..fee870e 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -35,6 +35,7 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         self.output_crs = output_crs
         self.wrap = wrap
 
+        self._original_field = None
         self._original_rotated_pole_state = None
         self._transformed_unwrapped_select = None
 
@@ -258,6 +259,10 @@ class SpatialSubsetOperation(AbstractOcgisObject):
 
     def _finalize_target(self):
         """Perform any transformations on the target field following spatial subsetting."""
+        if self._original_field is not None:
+            self.field = self._original_field
+            self._original_field = None
+            self._original_rotated_pole_state = None
         if self._transformed_unwrapped_select is not None:
             self.field.grid.x.v()[self._transformed_unwrapped_select] -= 360
             self._transformed_unwrapped_select = None
@@ -269,7 +274,10 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         crs = field.crs
         if isinstance(crs, CFRotatedPole):
             self._original_rotated_pole_state = copy(crs)
-            field.update_crs(self._rotated_pole_destination_crs)
+            # Leave the target field unchanged.
+            self._original_field = field
+            self.field = field.copy()
+            self.field.update_crs(self._rotated_pole_destination_crs)
         elif field.grid is not None and isinstance(crs, Spherical) and field.wrapped_state == WrappedState.UNWRAPPED:
             xval = field.grid.x.v()
             select = xval < 0
-- 
2.43.0


From a9994e7110fafce3b5f66b7e8c9ca1375c7a7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 057/156] fix: every selection of a rotated pole field is
 transformed back

---
 src/ocgis/ops/engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index e5d2bf9..a395f27 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -297,6 +297,9 @@ class OperationsEngine(AbstractOcgisObject):
         assert isinstance(field, Field)
 
         ocgis_lh('processing geometries', self._subset_log, level=logging.DEBUG)
+        # The rotated pole field is transformed once for all geometries. Each one must be transformed back.
+        original_rotated_pole_crs = None
+
         # Process each geometry.
         for subset_field in itr:
 
@@ -317,7 +320,10 @@ class OperationsEngine(AbstractOcgisObject):
                 # Operate on the rotated pole coordinate system by first transforming it to the default coordinate
                 # system.
                 key = constants.BackTransform.ROTATED_POLE
-                self._backtransform[key] = self._get_update_rotated_pole_state_(field, subset_field)
+                rotated_pole_state = self._get_update_rotated_pole_state_(field, subset_field)
+                if rotated_pole_state is not None:
+                    original_rotated_pole_crs = rotated_pole_state
+                self._backtransform[key] = original_rotated_pole_crs
 
                 # Check if the geometric abstraction is available on the field object.
                 self._assert_abstraction_available_(field)
-- 
2.43.0


From b948f71f1c7b96d82c896ed0e40227bed203298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 058/156] fix: the radius of a spherical coordinate system is
 stored in and read from files

---
 src/ocgis/variable/crs.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 73ccd2b..5300910 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -1046,6 +1046,8 @@ class CFSpherical(Spherical, CFCoordinateReferenceSystem):
     def __init__(self, *args, **kwargs):
         self.map_parameters_values = {}
         Spherical.__init__(self, *args, **kwargs)
+        if self.semi_major_axis != self._fuzzy_value['a']:
+            self.map_parameters_values['earth_radius'] = self.semi_major_axis
 
     @classmethod
     def load_from_metadata(cls, var, meta, strict=False, depth=1):
@@ -1055,6 +1057,17 @@ class CFSpherical(Spherical, CFCoordinateReferenceSystem):
             r_grid_mapping = variable_attrs.get('grid_mapping')
             r_grid_mapping_name = variable_attrs.get('grid_mapping_name')
             if cls.grid_mapping_name in (r_grid_mapping, r_grid_mapping_name):
+                # Look for the radius of the sphere on the coordinate system variable.
+                target = var if r_grid_mapping_name == cls.grid_mapping_name else r_grid_mapping
+                target_attrs = variables.get(target, {}).get('attrs', {})
+                radius = target_attrs.get('earth_radius')
+                proj4 = target_attrs.get(OcgisConvention.Name.PROJ4)
+                if radius is None and proj4:
+                    value = CRS(proj4=proj4).value
+                    if value.get('proj') == 'longlat':
+                        radius = value.get('R')
+                if radius is not None:
+                    return cls(semi_major_axis=float(radius))
                 return cls()
             else:
                 raise ProjectionDoesNotMatch
-- 
2.43.0


From 86bf6f9c0dd717a88eaed105c8fa61d044932b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 059/156] fix: the resolution of coordinates crossing zero is
 the distance between neighbors

---
 src/ocgis/driver/nc.py     | 6 +++---
 src/ocgis/variable/base.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index b1773a1..bf703ab 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -362,12 +362,12 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
             resolution_limit = constants.RESOLUTION_LIMIT
             is_vectorized = value.ndim == 1
             if is_vectorized:
-                target = np.abs(np.diff(np.abs(value[0:resolution_limit])))
+                target = np.abs(np.diff(value[0:resolution_limit]))
             else:
                 if axis == 0:
-                    target = np.abs(np.diff(np.abs(value[:, 0:resolution_limit]), axis=axis))
+                    target = np.abs(np.diff(value[:, 0:resolution_limit], axis=axis))
                 elif axis == 1:
-                    target = np.abs(np.diff(np.abs(value[0:resolution_limit, :]), axis=axis))
+                    target = np.abs(np.diff(value[0:resolution_limit, :], axis=axis))
                 else:
                     raise NotImplementedError(axis)
             ret = np.mean(target)
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index ab5db21..668199a 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -659,7 +659,7 @@ class Variable(AbstractContainer, Attributes):
             res_array = res_bounds[:, 1] - res_bounds[:, 0]
             ret = np.abs(res_array).mean()
         else:
-            res_array = np.diff(np.abs(self.get_value()[0:constants.RESOLUTION_LIMIT]))
+            res_array = np.diff(self.get_value()[0:constants.RESOLUTION_LIMIT])
             ret = np.abs(res_array).mean()
         return ret
 
-- 
2.43.0


From c4f98cc84e88705210e2346e3aaa6179674a6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 060/156] fix: buffering geometries without a mask buffers all
 of them

---
 src/ocgis/variable/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index cd30bd1..19267b8 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -665,8 +665,8 @@ class GeometryVariable(AbstractSpatialVariable):
         new_value = np.empty_like(ret.get_value(), dtype=object)
         to_buffer = self.get_value()
         mask = self.get_mask()
-        for idx, mask_value in iter_array(mask, return_value=True):
-            if not mask_value:
+        for idx in iter_array(to_buffer, use_mask=False):
+            if mask is None or not mask[idx]:
                 new_value[idx] = to_buffer[idx].buffer(*args, **kwargs)
             else:
                 new_value[idx] = None
-- 
2.43.0


From 052e2b210723683b9c4375047ff43c1d2c4cf022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 061/156] fix: the nearest cell of a grid is a grid

---
 src/ocgis/spatial/grid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 10cbd53..6e64ed1 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -521,7 +521,13 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         return ret
 
     def get_nearest(self, *args, **kwargs):
-        return self.get_abstraction_geometry().get_nearest(*args, **kwargs).parent.grid
+        kwargs = kwargs.copy()
+        return_indices = kwargs.pop('return_indices', False)
+        _, slc = self.get_abstraction_geometry().get_nearest(*args, return_indices=True, **kwargs)
+        ret = self[slc]
+        if return_indices:
+            ret = (ret, slc)
+        return ret
 
     def get_point(self, value=None, mask=None):
         return get_geometry_variable(self, value=value, mask=mask, use_bounds=False)
-- 
2.43.0


From 95b7355a35700bd499687a34f4a18e19002fce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 062/156] fix: expanded grids keep the data type of their x
 bounds

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 6e64ed1..2d93532 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1361,7 +1361,7 @@ def expand_grid(grid):
 
             new_y_bounds = np.zeros((original_y_bounds.shape[0], original_x_bounds.shape[0], 4),
                                     dtype=original_y_bounds.dtype)
-            new_x_bounds = new_y_bounds.copy()
+            new_x_bounds = np.zeros(new_y_bounds.shape, dtype=original_x_bounds.dtype)
             for idx_y, idx_x in itertools.product(list(range(original_y_bounds.shape[0])),
                                                   list(range(original_x_bounds.shape[0]))):
                 new_y_bounds[idx_y, idx_x, 0:2] = original_y_bounds[idx_y, 0]
-- 
2.43.0


From 53df2dc16c50b9a50d80a53dd2d18d5c03207558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 063/156] fix: a spatial mask variable replaces the current
 spatial mask variable

---
 src/ocgis/driver/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 544e998..8e219ca 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -714,7 +714,9 @@ class AbstractDriver(AbstractOcgisObject):
                 sobj.dimension_map.set_spatial_mask(None)
         else:
             if isinstance(value, Variable):
-                # Set the mask variable from the incoming value.
+                # Set the mask variable from the incoming value. There is only one spatial mask variable.
+                if sobj.has_mask and sobj.mask_variable.name != value.name:
+                    sobj.parent.remove_variable(sobj.mask_variable)
                 sobj.parent.add_variable(value, force=True)
                 mask_variable = value
             else:
-- 
2.43.0


From de48d3073d1963db0a47f60d02d304f751dba1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 064/156] fix: units are unchanged if a conversion fails

---
 src/ocgis/variable/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 668199a..bd42519 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -902,12 +902,12 @@ class Variable(AbstractContainer, Attributes):
         # otherwise.
         to_conform_value = self._get_to_conform_value_()
 
-        # Update the units attribute with the destination units. Do this before conversion to not enter recursion when
-        # setting the new value.
-        self.units = to_units
-
-        # Conform the units.
+        # Conform the units. Nothing is changed if the units may not be converted.
         new_value = get_conformed_units(to_conform_value, from_units, to_units)
+
+        # Update the units attribute with the destination units. Do this before setting the new value to not enter
+        # recursion.
+        self.units = to_units
         self._set_to_conform_value_(new_value)
 
         # Let the data type and fill value load from the value array.
-- 
2.43.0


From c1fd81e062cfdb0b9e869b0bd4a1625b3decd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 065/156] fix: scale and offset attributes are removed when
 units are conformed

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index bd42519..f32d0f4 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -910,6 +910,9 @@ class Variable(AbstractContainer, Attributes):
         self.units = to_units
         self._set_to_conform_value_(new_value)
 
+        for name in ('scale_factor', 'add_offset'):
+            self.attrs.pop(name, None)
+
         # Let the data type and fill value load from the value array.
         self._dtype = 'auto'
         self._fill_value = 'auto'
-- 
2.43.0


From 1b315d3db89d1d9323fb6c35610bc476a9985a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 066/156] fix: unrecognized units raise a request validation
 error

---
 src/ocgis/driver/request/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 10667d2..436a6d2 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -554,7 +554,7 @@ def validate_units(keyword, sequence):
     try:
         list(map(get_units_object, sequence))
     except ValueError as e:
-        raise RequestValidationError(keyword, e.message)
+        raise RequestValidationError(keyword, str(e))
 
 
 def validate_unit_equivalence(src_units, dst_units):
-- 
2.43.0


From 8d5a38abf5ca1b56fed6eff9090d6ccefd1a8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 067/156] fix: units objects may be used for the units of a
 request dataset

---
 src/ocgis/driver/nc.py           | 2 +-
 src/ocgis/driver/request/core.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index bf703ab..96f4809 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -607,7 +607,7 @@ def init_variable_using_metadata_for_netcdf(variable, metadata):
         # The conform units to value should be the default units value. Units will be converted on variable load.
         conform_units_to = var.get('conform_units_to')
         if conform_units_to is not None:
-            variable_attrs['units'] = conform_units_to
+            variable_attrs['units'] = str(conform_units_to)
 
 
 def get_coordinate_system_variable_name(driver_object, group_metadata):
diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 436a6d2..bb71cc6 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -264,7 +264,7 @@ class RequestDataset(AbstractRequestObject):
     @conform_units_to.setter
     def conform_units_to(self, value):
         if value is not None:
-            value = get_tuple(value)
+            value = tuple(get_iter(value))
             if len(value) != len(get_tuple(self.variable)):
                 msg = 'Must match "variable" element-wise. The sequence lengths differ.'
                 raise RequestValidationError('units', msg)
@@ -436,7 +436,7 @@ class RequestDataset(AbstractRequestObject):
     @units.setter
     def units(self, value):
         if value is not None:
-            value = get_tuple(value)
+            value = tuple(get_iter(value))
             if len(value) != len(get_tuple(self.variable)):
                 msg = 'Must match "variable" element-wise. The sequence lengths differ.'
                 raise RequestValidationError('units', msg)
@@ -445,7 +445,8 @@ class RequestDataset(AbstractRequestObject):
 
             m = self.metadata['variables']
             for v, u in zip(get_tuple(self.variable), value):
-                m[v]['attrs']['units'] = u
+                # Attributes hold strings.
+                m[v]['attrs']['units'] = u if u is None else str(u)
 
     @property
     def uri(self):
-- 
2.43.0


From b42864ffba9cdf0edb49e76ecba498494d411f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 068/156] fix: bounds are conformed to the units of the
 variable they belong to

---
 src/ocgis/driver/base.py   | 36 ++++++++++++++++++++++++++++++------
 src/ocgis/variable/base.py |  5 +++--
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 8e219ca..69ed483 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -12,7 +12,8 @@ from ocgis import vm
 from ocgis.base import AbstractOcgisObject, raise_if_empty
 from ocgis.base import get_variable_names
 from ocgis.collection.field import Field
-from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType
+from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType, \
+    DimensionMapKey
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.exc import DefinitionValidationError, NoDataVariablesFound, DimensionMapError, VariableMissingMetadataError, \
     GridDeficientError, OcgWarning
@@ -630,18 +631,20 @@ class AbstractDriver(AbstractOcgisObject):
         value = self.get_variable_value(variable)
         variable.set_value(value, update_mask=True)
         # Conform the units if requested. Need to check if this variable is inside a group to find the appropriate
-        # metadata.
-        meta = get_variable_metadata_from_request_dataset(self, variable)
+        # metadata. Bounds are loaded independently of the variable they belong to. They are conformed when they are
+        # loaded using the metadata of that variable.
+        meta = get_conform_units_metadata(self, variable)
         conform_units_to = meta.get('conform_units_to')
         if conform_units_to is not None:
-            # The initialized units for the variable are overloaded by the destination / conform to units.
-            if isinstance(variable, TemporalVariable):
+            # The initialized units for the variable are overloaded by the destination / conform to units. Reference
+            # times need a calendar.
+            if isinstance(variable, TemporalVariable) or getattr(conform_units_to, 'calendar', None) is not None:
                 from_units = TemporalVariable(units=meta['attrs']['units'],
                                               calendar=meta['attrs'].get('calendar'))
                 from_units = from_units.cfunits
             else:
                 from_units = meta['attrs']['units']
-            variable.cfunits_conform(conform_units_to, from_units=from_units)
+            variable.cfunits_conform(conform_units_to, from_units=from_units, should_conform_bounds=False)
 
     @staticmethod
     def inquire_opened_state(opened_or_path):
@@ -1056,6 +1059,27 @@ def get_dump_report_for_group(group, global_attributes_name='global', indent=0):
     return lines
 
 
+def get_conform_units_metadata(driver, variable):
+    """
+    Get the metadata used to conform the units of ``variable`` to its destination units. If ``variable`` is a bounds
+    variable, this is the metadata of the variable it belongs to.
+    """
+    ret = get_variable_metadata_from_request_dataset(driver, variable)
+    if ret.get('conform_units_to') is None:
+        source_name = variable._source_name
+        variables_metadata = get_group(driver.metadata_source, variable.group, has_root=False)['variables']
+        dimension_map = driver.rd.dimension_map
+        for name, meta in variables_metadata.items():
+            if meta.get('conform_units_to') is not None:
+                candidates = [meta['attrs'].get('bounds'), meta['attrs'].get('climatology')]
+                if name == dimension_map.get_variable(DimensionMapKey.TIME):
+                    candidates.append(dimension_map.get_bounds(DimensionMapKey.TIME))
+                if source_name in candidates:
+                    ret = meta
+                    break
+    return ret
+
+
 def get_variable_metadata_from_request_dataset(driver, variable):
     variables_metadata = get_group(driver.metadata_source, variable.group, has_root=False)['variables']
     try:
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index f32d0f4..eb2f469 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -881,7 +881,7 @@ class Variable(AbstractContainer, Attributes):
 
         return deepcopied
 
-    def cfunits_conform(self, to_units, from_units=None):
+    def cfunits_conform(self, to_units, from_units=None, should_conform_bounds=True):
         """
         Conform value units in-place. If there are scale or offset parameters in the attribute dictionary, they will
         be removed.
@@ -890,6 +890,7 @@ class Variable(AbstractContainer, Attributes):
         :type to_units: str or units object
         :param from_units: Overload source units.
         :type from_units: str or units object
+        :param bool should_conform_bounds: If ``True`` (the default), also conform the bounds.
         :raises: NoUnitsError
         """
         if from_units is None and self.units is None:
@@ -917,7 +918,7 @@ class Variable(AbstractContainer, Attributes):
         self._dtype = 'auto'
         self._fill_value = 'auto'
 
-        if self.has_bounds:
+        if should_conform_bounds and self.has_bounds:
             self.bounds.cfunits_conform(to_units, from_units=from_units)
 
     def convert_to_empty(self):
-- 
2.43.0


From 69d5158f72da7936faeeff497e84b735b4d4dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 069/156] fix: replaced spatial masks hold no fill values where
 the mask is lifted

---
 src/ocgis/driver/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 69ed483..57b04f0 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -731,6 +731,9 @@ class AbstractDriver(AbstractOcgisObject):
                     sobj.parent.add_variable(mask_variable)
                 else:
                     mask_variable.set_mask(value)
+                    # Values matching the fill value are masked. Variables loaded from files hold it where they were
+                    # masked.
+                    mask_variable.allocate_value(fill=0)
             sobj.dimension_map.set_spatial_mask(mask_variable)
 
             if cascade:
-- 
2.43.0


From 19140d378d1b3ad0b38b378dc4eacf0383ee9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 070/156] fix: equality of coordinate systems recognizes both
 forms of WGS84

---
 src/ocgis/variable/crs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 5300910..f2f0240 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -539,6 +539,11 @@ class CoordinateReferenceSystem(AbstractProj4CRS, AbstractInterfaceObject):
                     for n in new_values:
                         n.pop('wktext', None)
                     ret = new_values[0] == new_values[1]
+                if not ret:
+                    # Versions handle values for WGS84 differently in GDAL/PROJ.4.
+                    forms = ({'proj': 'longlat', 'datum': 'WGS84', 'no_defs': True},
+                             {'proj': 'longlat', 'ellps': 'WGS84', 'towgs84': '0,0,0,0,0,0,0', 'no_defs': True})
+                    ret = self.value in forms and other.value in forms
         except AttributeError:
             # likely a nonetype of other object type
             if other is None or not isinstance(other, self.__class__):
-- 
2.43.0


From aa95e9d9142de107441fb5b27588fde88dd40ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 071/156] fix: renaming a dimension leaves the dimensions of
 copies

---
 src/ocgis/variable/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index eb2f469..e84e679 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2237,7 +2237,8 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         :param str old_name: The dimension's original name.
         :param str new_name: The dimension's new name.
         """
-        target_dimension = self.dimensions.pop(old_name)
+        # Dimensions are shared with copies of the collection.
+        target_dimension = self.dimensions.pop(old_name).copy()
         target_dimension.set_name(new_name)
         self.dimensions[new_name] = target_dimension
         for var in self.values():
-- 
2.43.0


From 9faddecfb3eaa64ce14bbec903f9b60189f18078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 072/156] fix: renamed variables and dimensions stay known to
 bounds and the dimension map

---
 src/ocgis/collection/field.py     |  9 ++++++++
 src/ocgis/driver/dimension_map.py | 35 +++++++++++++++++++++++++++++++
 src/ocgis/variable/base.py        | 13 +++++++++++-
 3 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 92a3ee3..a31a598 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -1000,6 +1000,11 @@ class Field(VariableCollection):
             ret = decode_cf(ret)
         return ret
 
+    def rename_dimension(self, old_name, new_name):
+        """See :meth:`~ocgis.VariableCollection.rename_dimension`. The field's dimension map is updated."""
+        super(Field, self).rename_dimension(old_name, new_name)
+        self.dimension_map.rename_dimension(old_name, new_name)
+
     def unwrap(self):
         """
         Unwrap the field's coordinates contained in its grid and/or geometry.
@@ -1037,6 +1042,10 @@ class Field(VariableCollection):
 
         wrap_or_unwrap(self, WrapAction.WRAP, inplace=inplace)
 
+    def _update_variable_references_(self, old_name, new_name):
+        super(Field, self)._update_variable_references_(old_name, new_name)
+        self.dimension_map.rename_variable(old_name, new_name)
+
     @classmethod
     def read(cls, *args, **kwargs):
         """
diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..2a1e431 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -386,6 +386,30 @@ class DimensionMap(AbstractOcgisObject):
             target = self._storage
         pprint_dict(target)
 
+    def rename_dimension(self, old_name, new_name):
+        """
+        Rename a dimension in all entries.
+
+        :param str old_name: The dimension's original name.
+        :param str new_name: The dimension's new name.
+        """
+        for entry in self._iter_entries_():
+            names = entry.get(DMK.DIMENSION)
+            if names is not None:
+                entry[DMK.DIMENSION] = [new_name if n == old_name else n for n in names]
+
+    def rename_variable(self, old_name, new_name):
+        """
+        Rename a variable in all entries.
+
+        :param str old_name: The variable's original name.
+        :param str new_name: The variable's new name.
+        """
+        for entry in self._iter_entries_():
+            for key in (DMK.VARIABLE, DMK.BOUNDS):
+                if entry.get(key) == old_name:
+                    entry[key] = new_name
+
     def set_bounds(self, entry_key, bounds):
         """
         Set the bounds variable name for ``entry_key``.
@@ -601,6 +625,17 @@ class DimensionMap(AbstractOcgisObject):
         else:
             return get_or_create_dict(self._storage, key, self._storage.__class__())
 
+    def _iter_entries_(self):
+        """Yield the dictionaries for all entries including the entries of topologies."""
+        for key, entry in self._storage.items():
+            if key == DMK.TOPOLOGY:
+                for topology in entry.values():
+                    if topology is not None:
+                        for topology_entry in topology._iter_entries_():
+                            yield topology_entry
+            elif isinstance(entry, dict) and key != DMK.GROUPS:
+                yield entry
+
 
 def get_variable_from_field(name, field, nullable):
     ret = None
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index e84e679..a3cba51 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -162,7 +162,9 @@ class AbstractContainer(AbstractNamedObject):
         """
         parent = self._parent
         if parent is not None and self.name in parent:
-            parent[name] = parent.pop(self.name)
+            original_name = self.name
+            parent[name] = parent.pop(original_name)
+            parent._update_variable_references_(original_name, name)
         super(AbstractContainer, self).set_name(name, aliases=aliases)
 
     @abstractmethod
@@ -2330,6 +2332,15 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         # Endless recursion if a collection always initializes a parent.
         self._parent = None
 
+    def _update_variable_references_(self, old_name, new_name):
+        """Update variables in the collection referring to another variable by its name when that variable is renamed."""
+        for var in self.values():
+            if getattr(var, '_bounds_name', None) == old_name:
+                var._bounds_name = new_name
+                var.attrs[var._bounds_attribute_name] = new_name
+            if getattr(var, '_name_ugid', None) == old_name:
+                var._name_ugid = new_name
+
     def _validate_(self):
         ids_not_equal = []
         lens_not_equal = []
-- 
2.43.0


From 5261ed4f8c812cfc29b0e00bca868619f7c2f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 073/156] fix: conformed times are not truncated to the
 previous data type

---
 src/ocgis/driver/base.py       | 2 ++
 src/ocgis/variable/temporal.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 57b04f0..d3b42ee 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -642,6 +642,8 @@ class AbstractDriver(AbstractOcgisObject):
                 from_units = TemporalVariable(units=meta['attrs']['units'],
                                               calendar=meta['attrs'].get('calendar'))
                 from_units = from_units.cfunits
+                # Converted times should not be changed to the (i.e. integer) data type in the source.
+                variable._dtype = 'auto'
             else:
                 from_units = meta['attrs']['units']
             variable.cfunits_conform(conform_units_to, from_units=from_units, should_conform_bounds=False)
diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index a72c8a0..51d2ba0 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -713,7 +713,8 @@ class TemporalVariable(SourcedVariable):
         self._value_datetime = None
         self._bounds_numtime = None
         self._bounds_datetime = None
-        # Set the new value.
+        # Set the new value. Converted times should not be changed to a previous (i.e. integer) data type.
+        self._dtype = 'auto'
         self.set_value(value)
 
     def _set_metadata_from_source_finalize_(self, *args, **kwargs):
-- 
2.43.0


From 5b703a27af7630929c90d126e2ee1f8b672c9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 074/156] fix: iterating does not fail for bounds that are not
 added and leaves repeaters as they are

---
 src/ocgis/variable/iterator.py | 5 +++--
 src/ocgis/variable/temporal.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 03039b2..de826de 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -25,7 +25,8 @@ class Iterator(AbstractOcgisObject):
             if repeaters is None:
                 repeaters = variable.repeat_record
             else:
-                repeaters += variable.repeat_record
+                # The sequence belongs to the caller or the variable.
+                repeaters = list(repeaters) + [r for r in variable.repeat_record if r not in repeaters]
         self.repeaters = repeaters
 
         self._is_lead = True
@@ -146,7 +147,7 @@ class Iterator(AbstractOcgisObject):
                 try:
                     yld_value, yld_mask = get_record(idx, value, mask)
                 except IndexError as e:
-                    msg = 'Current iteration variable is: "{}". {}'.format(name, e.message)
+                    msg = 'Current iteration variable is: "{}". {}'.format(name, e)
                     raise IndexError(msg)
 
                 if yld_mask and clobber_masked:
diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 51d2ba0..0c36a39 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -275,7 +275,7 @@ class TemporalVariable(SourcedVariable):
         ret = super(TemporalVariable, self).get_iter(**kwargs)
         if driver is not None:
             ret.formatter = driver.iterator_formatter_time_value
-            if self.has_bounds:
+            if ret.followers is not None:
                 for follower in ret.followers:
                     follower.formatter = driver.iterator_formatter_time_bounds
         return ret
-- 
2.43.0


From b8b6850d6678d3fe4d276c7f8d6d128ea09981d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 075/156] fix: arrays are broadcast to no dimensions

---
 src/ocgis/util/broadcaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/util/broadcaster.py b/src/ocgis/util/broadcaster.py
index 1335596..7a1ae8f 100644
--- a/src/ocgis/util/broadcaster.py
+++ b/src/ocgis/util/broadcaster.py
@@ -30,7 +30,7 @@ def broadcast_array_by_dimension_names(arr, src_names, dst_names):
     arr_shape = list(arr.shape)
     for s in singletons:
         arr_shape.insert(s[0], 1)
-    arr = arr.reshape(*arr_shape)
+    arr = arr.reshape(arr_shape)
     return arr
 
 
-- 
2.43.0


From a2651cd689d113b84cbbf65acb8c636947398e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 076/156] fix: variables extracted without bounds do not refer
 to them

---
 src/ocgis/variable/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index a3cba51..ca9b662 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1124,13 +1124,17 @@ class Variable(AbstractContainer, Attributes):
         ret = self.copy()
         if self.has_initialized_parent:
             to_keep = [self.name]
-            if keep_bounds and self.has_bounds:
-                to_keep.append(self.bounds.name)
+            if self.has_bounds:
+                if keep_bounds:
+                    to_keep.append(self.bounds.name)
+                else:
+                    # The extracted variable should not refer to bounds left behind.
+                    ret.set_bounds(None)
 
             if clean_break:
                 original_parent = self.parent
                 new_parent = ret.parent
-                to_pop_in_new = set(original_parent.keys()).difference(set(to_keep))
+                to_pop_in_new = set(new_parent.keys()).difference(set(to_keep))
                 for tk in to_keep:
                     original_parent.remove_variable(tk)
                 for tp in to_pop_in_new:
-- 
2.43.0


From 041b933acb6305d5750aa7d276e9bac8fe44f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 077/156] fix: iterators of variables tolerate repeaters and
 missing bounds followers

---
 src/ocgis/variable/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index ca9b662..a01e221 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1368,7 +1368,7 @@ class Variable(AbstractContainer, Attributes):
 
         itr = Iterator(self, **kwargs)
 
-        if self.has_bounds:
+        if itr.followers is not None:
             for f in itr.followers:
                 f.formatter = formatter
 
@@ -1656,7 +1656,7 @@ class SourcedVariable(Variable):
             if repeaters is None:
                 ret.repeaters = [did_record]
             else:
-                repeaters.insert(did_record)
+                ret.repeaters = [did_record] + list(repeaters)
 
         return ret
 
-- 
2.43.0


From efb780e7eae6fe242d188e73a42d5afbd9156d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 078/156] fix: stacked variables of collections keep their
 bounds

---
 src/ocgis/variable/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index a01e221..fbe0417 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2604,6 +2604,11 @@ def stack(targets, stack_dim):
             for dim in s.dimensions:
                 ret.dimensions[dim.name] = dim
             ret.add_variable(s, force=True)  # Variable already exists in the outgoing collection so must be forced
+        # Stacked variables keep their bounds.
+        for s in stacked:
+            bounds = arch[s.name].bounds
+            if bounds is not None:
+                s.set_bounds(ret[bounds.name], force=True)
     else:
         # Name of the stack dimension.
         stack_dim = get_dimension_names(stack_dim)[0]
-- 
2.43.0


From b5994fe572b8b11282151db593d5e966fbca9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 079/156] fix: calculations do not fail for empty results where
 empty results are allowed

---
 src/ocgis/ops/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index a395f27..0897f7b 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -124,7 +124,9 @@ class OperationsEngine(AbstractOcgisObject):
 
             for coll in self._process_subsettables_(rds):
                 # If there are calculations, do those now and return a collection.
-                if not vm.is_null and self.cengine is not None:
+                # Empty collections have nothing to calculate. They are passed on if empty returns are allowed.
+                empty_allowed = self.ops.allow_empty and not vm.is_null and coll.is_empty
+                if not vm.is_null and self.cengine is not None and not empty_allowed:
                     ocgis_lh('Starting calculations.', self._subset_log)
                     raise_if_empty(coll)
 
-- 
2.43.0


From b75a052ddc1ede292daa895100bd7de21be7f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 080/156] fix: writing vector files does not modify the
 coordinate system of the source

---
 src/ocgis/driver/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 26d5230..de7b8c9 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -208,6 +208,8 @@ class DriverVector(AbstractTabularDriver):
                 kwargs[KeywordArgument.DRIVER_KWARGS] = driver_kwargs
             return GeomCabinetIterator(path=uri, **kwargs)
         elif mode in ('a', 'w'):
+            # Fiona may add parameters to the coordinate system dictionary.
+            kwargs['crs'] = deepcopy(kwargs.get('crs'))
             ret = fiona.open(uri, mode=mode, **kwargs)
         else:
             raise ValueError('Mode not supported: "{}"'.format(mode))
-- 
2.43.0


From b82380da89b7072d6351203c5d2ff9b9f71bc966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 081/156] fix: attributes added to a copied collection are not
 added to its source

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index fbe0417..99b9886 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1926,6 +1926,9 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
 
         ret = AbstractCollection.copy(self)
         ret._tags = deepcopy(self._tags)
+        if ret._attrs is not None:
+            # Attributes added to a copy do not belong to its source.
+            ret._attrs = ret._attrs.copy()
         ret._dimensions = ret._dimensions.copy()
         for v in list(ret.values()):
             with orphaned(v):
-- 
2.43.0


From 60e7e2c43e16bd3dc76715908c73d81f9158b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 082/156] fix: multivariate functions compute no values for
 file only operations

---
 src/ocgis/calc/base.py | 44 ++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index d65263c..b78c7a5 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -836,34 +836,36 @@ class AbstractMultivariateFunction(AbstractFunction):
                                             validate_units=False)
         calculation_targets = {self.required_variables[idx]: var for idx, var in enumerate(itr)}
 
-        # Synchronize the parameters that only contain the variable mappings with the other parameters passed in at
-        # calculation initialization.
         keys = list(calculation_targets.keys())
-        crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
-        variable_shapes = [calculation_targets[k].shape for k in keys]
-        arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
         archetype = calculation_targets[keys[0]]
         fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
                                       add_repeat_record_archetype_name=False)
         fill.units = self.get_output_units()
-        arr_fill = self.get_variable_value(fill)
-
-        itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
-                for idx in range(len(crosswalks))]
-
-        for yld in zip(*itrs):
-            parms = {}
-            for idx in range(len(keys)):
-                parms[keys[idx]] = yld[idx][0]
-            for k, v in self.parms.items():
-                if k not in self.required_variables:
-                    parms.update({k: v})
-            res = self.calculate(**parms)
-            carr_fill = yld[0][1]
-            carr_fill.data[:] = res.data
-            carr_fill.mask[:] = res.mask
 
+        # No values are needed for file only operations.
         if not self.file_only:
+            # Synchronize the parameters that only contain the variable mappings with the other parameters passed in at
+            # calculation initialization.
+            crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
+            variable_shapes = [calculation_targets[k].shape for k in keys]
+            arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
+            arr_fill = self.get_variable_value(fill)
+
+            itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
+                    for idx in range(len(crosswalks))]
+
+            for yld in zip(*itrs):
+                parms = {}
+                for idx in range(len(keys)):
+                    parms[keys[idx]] = yld[idx][0]
+                for k, v in self.parms.items():
+                    if k not in self.required_variables:
+                        parms.update({k: v})
+                res = self.calculate(**parms)
+                carr_fill = yld[0][1]
+                carr_fill.data[:] = res.data
+                carr_fill.mask[:] = res.mask
+
             fill.set_value(arr_fill)
 
         if self.tgd is not None:
-- 
2.43.0


From 02ce47cae126fef5bf0f5019c8d9329b4a7e0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 083/156] fix: chunked computation accepts several data
 variables and string expressions

---
 src/ocgis/util/large_array.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index db2d24c..f47a1ff 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -112,11 +112,8 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
         # get the shape for the tile schema
         if verbose:
             print('getting tile schema shape inputs...')
-        if ops.calc is not None:
-            shp_variable = ops.calc[0]['name']
-        else:
-            shp_variable = None
-        template_rd = ocgis.RequestDataset(uri=fill_file, variable=shp_variable)
+        # The names of output variables may differ from the names of the calculations. Only the grid is needed.
+        template_rd = ocgis.RequestDataset(uri=fill_file)
         template_field = template_rd.get()
         shp = template_field.grid.shape
 
-- 
2.43.0


From fc15acd3d98972f30212ecd889feb1ec6cf35e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 084/156] fix: chunked computation with cached fields applies
 time and level subsets

---
 src/ocgis/util/large_array.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index f47a1ff..20d6b59 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -9,6 +9,7 @@ from ocgis.calc.base import AbstractMultivariateFunction
 from ocgis.calc.engine import CalculationEngine
 from ocgis.constants import TagName
 from ocgis.ops.core import OcgOperations
+from ocgis.ops.engine import OperationsEngine
 from ocgis.util.helpers import ProgressBar
 
 
@@ -123,7 +124,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             try:
                 # tgd_field = ops.dataset.first().get()
                 archetype_dataset = list(ops.dataset)[0]
-                tgd_field = archetype_dataset.get()
+                tgd_field = get_optimized_field(ops, archetype_dataset)
                 template_tgd = tgd_field.temporal.get_grouping(deepcopy(ops.calc_grouping))
                 if not has_multivariate:
                     key = archetype_dataset.field_name
@@ -136,7 +137,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             # load the fields and pass those for optimization
             field_optimizations = {}
             for rd in ops.dataset:
-                gotten_field = rd.get(format_time=ops.format_time)
+                gotten_field = get_optimized_field(ops, rd)
                 field_optimizations.update({rd.field_name: gotten_field})
             optimizations = optimizations or {}
             optimizations['fields'] = field_optimizations
@@ -222,6 +223,27 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     return fill_file
 
 
+def get_optimized_field(ops, rd):
+    """
+    Get the field to use during tile iteration. Cached fields bypass the time and level subsetting and the spatial
+    preparation of operations.
+
+    :param ops: The target operations to tile.
+    :type ops: :class:`ocgis.OcgOperations`
+    :param rd: The request dataset to get the field from.
+    :type rd: :class:`ocgis.RequestDataset`
+    :rtype: :class:`ocgis.Field`
+    """
+
+    engine = OperationsEngine(ops)
+    field = engine._get_nonspatial_subset_(rd.get(format_time=ops.format_time))
+    if ops.spatial_reorder:
+        engine._update_spatial_order_(field)
+    if ops.interpolate_spatial_bounds:
+        engine._update_bounds_extrapolation_(field)
+    return field
+
+
 def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col):
     """
     Update the mask on ``variable`` in-place to match ``mask_spatial``. The array slice updated is constrained by
-- 
2.43.0


From 1d8c57ccdeccd159a9e7a35df63440942fdd0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 085/156] fix: grouped results do not carry variables along the
 original time dimension

---
 src/ocgis/calc/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index bd73adb..c1ed677 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -171,5 +171,10 @@ def format_return_field(function_tag, out_field, new_temporal=None):
     # Remove the original time variable and replace with the new one if there is a new time dimension. New
     # time dimensions may not be present for calculations that do not compute one.
     if new_temporal is not None:
+        original_time_dimensions = out_field.time.dimension_names
         out_field.remove_variable(out_field.time)
+        # Other variables along the original time dimension have no values on the new one.
+        for variable in list(out_field.values()):
+            if set(original_time_dimensions).intersection(variable.dimension_names):
+                out_field.remove_variable(variable)
         out_field.set_time(new_temporal, force=True)
-- 
2.43.0


From 7ac25fb1aac55b8aa2b7772331a12cecdf5b1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 086/156] fix: masked records do not change the types of
 tabular output

---
 src/ocgis/driver/csv_.py   |  9 +++++++-
 src/ocgis/driver/vector.py | 46 +++++++++++++++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 4a8534b..aff84ec 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -60,7 +60,14 @@ class DriverCSV(AbstractTabularDriver):
 
         iter_kwargs = kwargs.pop(KeywordArgument.ITER_KWARGS, {})
 
-        fieldnames = list(six.next(vc.iter(**iter_kwargs))[1].keys())
+        try:
+            _, archetype_record = six.next(vc.iter(**iter_kwargs))
+        except StopIteration:
+            # All records are masked. The keys are still needed to describe the records.
+            archetype_kwargs = iter_kwargs.copy()
+            archetype_kwargs[KeywordArgument.ALLOW_MASKED] = True
+            _, archetype_record = six.next(vc.iter(**archetype_kwargs))
+        fieldnames = list(archetype_record.keys())
 
         if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
             with driver_scope(cls, opened_or_path, mode='w') as opened:
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index de7b8c9..b4f352d 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -6,7 +6,8 @@ from copy import deepcopy
 import fiona
 import numpy as np
 from ocgis import constants, vm
-from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName
+from ocgis.constants import MPIWriteMode, DimensionName, KeywordArgument, DriverKey, DMK, SourceIndexType, VariableName, \
+    HeaderName
 from ocgis.driver.base import driver_scope, AbstractTabularDriver
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.environment import get_dtype
@@ -240,9 +241,9 @@ class DriverVector(AbstractTabularDriver):
             if fiona_crs is None:
                 if field.crs is not None:
                     fiona_crs = field.crs.value
-            _, archetype_record = next(field.iter(**iter_kwargs))
-            archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
             if fiona_schema is None:
+                archetype_record = get_archetype_record(field, iter_kwargs)
+                archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
                 fiona_schema = get_fiona_schema(geom_variable.geom_type, archetype_record)
         else:
             fiona_schema = opened_or_path.schema
@@ -284,6 +285,45 @@ def format_record_for_fiona(driver, record):
     return ret
 
 
+def get_archetype_record(field, iter_kwargs):
+    """
+    Get a record with the keys of the field's records. Masked values have no type, hence they are replaced by a value
+    having the data type of their variable. Records of a melted iteration hold values of all data variables.
+
+    :param field: The field to iterate.
+    :type field: :class:`~ocgis.Field`
+    :param dict iter_kwargs: Keyword arguments for the field's record iterator.
+    :rtype: dict
+    """
+
+    try:
+        _, ret = next(field.iter(**iter_kwargs))
+    except StopIteration:
+        # All records are masked. The keys are still needed to describe the records.
+        iter_kwargs = iter_kwargs.copy()
+        iter_kwargs[KeywordArgument.ALLOW_MASKED] = True
+        _, ret = next(field.iter(**iter_kwargs))
+
+    dtypes = {}
+    for v in field.data_variables:
+        try:
+            dtypes[v.name] = np.dtype(v.dtype)
+        except TypeError:
+            # Not a NumPy data type.
+            dtypes[v.name] = np.dtype(object)
+    if iter_kwargs.get(KeywordArgument.MELTED):
+        numeric = len(dtypes) > 0 and all([d.kind in 'iuf' for d in dtypes.values()])
+        dtypes = {HeaderName.VALUE: np.result_type(*list(dtypes.values()))} if numeric else {}
+
+    for k, v in list(ret.items()):
+        if k in dtypes and (v is None or k == HeaderName.VALUE):
+            try:
+                ret[k] = np.zeros(1, dtype=dtypes[k])[0].item()
+            except AttributeError:
+                ret[k] = ''
+    return ret
+
+
 def get_dtype_from_fiona_type(ftype, data_model=None):
     if ftype.startswith('int'):
         ret = get_dtype('int', data_model=data_model)
-- 
2.43.0


From 00f80f472e82360e32bb2cf203c1cf8fa673a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 087/156] fix: GeoJSON output contains the records of all
 selection geometries

---
 src/ocgis/driver/vector.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index b4f352d..33dac03 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -1,5 +1,6 @@
 import datetime
 import itertools
+import json
 from collections import OrderedDict
 from copy import deepcopy
 
@@ -257,18 +258,24 @@ class DriverVector(AbstractTabularDriver):
             mode = 'a'
 
         # Write the template file.
-        if fiona_driver != 'GeoJSON':
-            if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
-                with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
-                                  schema=fiona_schema) as _:
-                    pass
+        if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
+            with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
+                              schema=fiona_schema) as _:
+                pass
 
         # Write data on each rank to the file.
         if write_mode != MPIWriteMode.TEMPLATE:
             for rank_to_write in vm.ranks:
                 if vm.rank == rank_to_write:
+                    existing = []
+                    if fiona_driver == 'GeoJSON' and not cls.inquire_opened_state(opened_or_path):
+                        # Without update, the records already in the file need to be written again.
+                        existing = get_geojson_records(opened_or_path)
+                        if len(existing) > 0:
+                            fiona_schema = dict(fiona_schema, geometry='Unknown')
                     with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, driver=fiona_driver,
                                       crs=fiona_crs, schema=fiona_schema) as sink:
+                        sink.writerecords(existing)
                         itr = field.iter(**iter_kwargs)
                         write_records_to_fiona(sink, itr, fiona_driver)
                 vm.barrier()
@@ -436,6 +443,18 @@ def iter_field_slices_for_records(vc_like, dimension_names, variable_names):
         yield target[dslice]
 
 
+def get_geojson_records(path):
+    """
+    :param str path: Path to a GeoJSON file.
+    :return: The records in the file. Property values are not interpreted.
+    :rtype: list[dict]
+    """
+
+    with open(path) as f:
+        features = json.load(f)['features']
+    return [{'properties': OrderedDict(ii['properties']), 'geometry': ii['geometry']} for ii in features]
+
+
 def get_geometry_variable(field_like):
     """
     :param field_like: A field or variable collection.
-- 
2.43.0


From fb85b9f8b22d0401ffafd1b5cd9338b5cc78ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 088/156] fix: vector output accepts single and multi-part
 geometries in one field

---
 src/ocgis/driver/vector.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 33dac03..6a0dc53 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -17,7 +17,7 @@ from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.crs import CoordinateReferenceSystem
 from ocgis.variable.geom import GeometryVariable
-from shapely.geometry import mapping
+from shapely.geometry import mapping, shape
 
 
 class DriverVector(AbstractTabularDriver):
@@ -245,7 +245,8 @@ class DriverVector(AbstractTabularDriver):
             if fiona_schema is None:
                 archetype_record = get_archetype_record(field, iter_kwargs)
                 archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
-                fiona_schema = get_fiona_schema(geom_variable.geom_type, archetype_record)
+                geom_type = get_geom_type_for_records(geom_variable, fiona_driver)
+                fiona_schema = get_fiona_schema(geom_type, archetype_record)
         else:
             fiona_schema = opened_or_path.schema
             fiona_crs = opened_or_path.crs
@@ -455,6 +456,28 @@ def get_geojson_records(path):
     return [{'properties': OrderedDict(ii['properties']), 'geometry': ii['geometry']} for ii in features]
 
 
+def get_geom_type_for_records(geom_variable, fiona_driver):
+    """
+    Get the geometry type for the records in a file. Operations on geometries may create parts, hence the type is
+    determined from the actual geometries.
+
+    :param geom_variable: The source geometry variable.
+    :type geom_variable: :class:`~ocgis.GeometryVariable`
+    :param str fiona_driver: The name of the Fiona driver.
+    :rtype: str
+    """
+
+    geom_types = set([g.geom_type for g in geom_variable.get_value().flat if hasattr(g, 'geom_type')])
+    if len(geom_types) == 1:
+        ret = list(geom_types)[0]
+    elif len(geom_types) > 1 and fiona_driver == 'GeoJSON':
+        # GeoJSON files may contain different geometry types.
+        ret = 'Unknown'
+    else:
+        ret = geom_variable.geom_type
+    return ret
+
+
 def get_geometry_variable(field_like):
     """
     :param field_like: A field or variable collection.
@@ -482,5 +505,8 @@ def get_geometry_variable(field_like):
 def write_records_to_fiona(sink, itr, driver):
     for geom, record in itr:
         record = format_record_for_fiona(driver, record)
+        if sink.schema['geometry'] == 'Multi' + geom.geom_type:
+            # The file may only contain the multi-part type.
+            geom = shape({'type': 'Multi' + geom.geom_type, 'coordinates': [mapping(geom)['coordinates']]})
         record = {'properties': record, 'geometry': mapping(geom)}
         sink.write(record)
-- 
2.43.0


From 5e1fbb9016e7191284030f2c7079b251345f654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 089/156] fix: shapefile field names do not collide when
 shortened

---
 src/ocgis/driver/vector.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 6a0dc53..5460438 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -286,9 +286,16 @@ def format_record_for_fiona(driver, record):
     ret = record
     if driver == 'ESRI Shapefile':
         ret = OrderedDict()
+        short = set([k for k in record.keys() if len(k) <= 10])
         for k, v in list(record.items()):
             if len(k) > 10:
-                k = k[0:10]
+                # Field names may not collide.
+                original, k, ctr = k, k[0:10], 1
+                while k in short:
+                    suffix = '_{}'.format(ctr)
+                    k = original[0:10 - len(suffix)] + suffix
+                    ctr += 1
+                short.add(k)
             ret[k] = v
     return ret
 
-- 
2.43.0


From 5ab4df0acd1f5e964c0299580665a50229d07cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 090/156] fix: records appended to CSV files match the columns
 of the file

---
 src/ocgis/driver/csv_.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index aff84ec..1977eb5 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -76,6 +76,10 @@ class DriverCSV(AbstractTabularDriver):
         if write_mode != MPIWriteMode.TEMPLATE:
             for current_rank_write in vm.ranks:
                 if vm.rank == current_rank_write:
+                    if write_mode == MPIWriteMode.FILL and not cls.inquire_opened_state(opened_or_path):
+                        # Records must match the columns in the file.
+                        with driver_scope(cls, opened_or_path) as opened:
+                            fieldnames = six.next(csv.reader(opened))
                     with driver_scope(cls, opened_or_path, mode='a') as opened:
                         writer = csv.DictWriter(opened, fieldnames)
                         for _, record in vc.iter(**iter_kwargs):
-- 
2.43.0


From f5846bd949bade951d10d80b5656d11ec886c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 091/156] fix: user geometries are written once for several
 datasets

---
 src/ocgis/conv/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 5ab9891..42f74d8 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -166,6 +166,9 @@ class AbstractCollectionConverter(AbstractFileConverter):
         # Path to the output object.
         f = {KeywordArgument.PATH: self.path}
 
+        # Unique identifiers of the user geometries in the file.
+        written_ugeom = set()
+
         build = True
         for i, coll in enumerate(self):
             # This will be changed to "write" if we are on the build loop.
@@ -200,8 +203,11 @@ class AbstractCollectionConverter(AbstractFileConverter):
             if write_ugeom:
                 with vm.scoped(SubcommName.UGEOM_WRITE, [0]):
                     if not vm.is_null:
-                        for subset_field in list(coll.children.values()):
-                            subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+                        for ugid, subset_field in list(coll.children.items()):
+                            # Several datasets may be subset by the same geometry.
+                            if ugid not in written_ugeom:
+                                subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+                                written_ugeom.add(ugid)
 
         # The metadata and dataset descriptor files may only be written if OCGIS operations are present.
         ops = self.ops
-- 
2.43.0


From 1d1483564498327f7d378668a9a68f17d7ea4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 092/156] fix: melted iteration yields the records of a single
 variable

---
 src/ocgis/variable/iterator.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index de826de..124ea29 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -129,11 +129,6 @@ class Iterator(AbstractOcgisObject):
         else:
             has_repeaters = True
 
-        if len(self.iterators) > 1:
-            has_followers = True
-        else:
-            has_followers = False
-
         if melted is None:
             len_melted = None
         else:
@@ -177,19 +172,18 @@ class Iterator(AbstractOcgisObject):
                             for rsub in r:
                                 collected[rsub[0]] = rsub[1]
                         record = collected
-                        if is_lead and has_followers:
-                            if melted is not None:
-                                melted_values = [None] * len_melted
-                                for midx, m in enumerate(melted):
-                                    melted_values[midx] = record.pop(m)
-                                for midx, m in enumerate(melted):
-                                    # record = record.copy()
-                                    if melted_repeaters is not None:
-                                        for mr in melted_repeaters.get(m, []):
-                                            record[mr[0]] = mr[1]
-                                    record[header_variable] = m
-                                    record[header_value] = melted_values[midx]
-                                    yield record.copy()
+                        if is_lead and melted is not None:
+                            melted_values = [None] * len_melted
+                            for midx, m in enumerate(melted):
+                                melted_values[midx] = record.pop(m)
+                            for midx, m in enumerate(melted):
+                                # record = record.copy()
+                                if melted_repeaters is not None:
+                                    for mr in melted_repeaters.get(m, []):
+                                        record[mr[0]] = mr[1]
+                                record[header_variable] = m
+                                record[header_value] = melted_values[midx]
+                                yield record.copy()
                         if melted is None:
                             yield record
             finally:
-- 
2.43.0


From 79963c0f35adb2f080722afc32ea627899401fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 093/156] fix: geometry collections from clipping may be
 written to vector files

---
 src/ocgis/driver/vector.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 5460438..8b6f0ec 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -18,6 +18,7 @@ from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.crs import CoordinateReferenceSystem
 from ocgis.variable.geom import GeometryVariable
 from shapely.geometry import mapping, shape
+from shapely.ops import unary_union
 
 
 class DriverVector(AbstractTabularDriver):
@@ -474,17 +475,44 @@ def get_geom_type_for_records(geom_variable, fiona_driver):
     :rtype: str
     """
 
-    geom_types = set([g.geom_type for g in geom_variable.get_value().flat if hasattr(g, 'geom_type')])
+    geoms = [g for g in geom_variable.get_value().flat if hasattr(g, 'geom_type')]
+    if fiona_driver != 'GeoJSON':
+        geoms = [get_homogeneous_geometry(g) for g in geoms]
+    geom_types = set([g.geom_type for g in geoms])
     if len(geom_types) == 1:
         ret = list(geom_types)[0]
     elif len(geom_types) > 1 and fiona_driver == 'GeoJSON':
         # GeoJSON files may contain different geometry types.
         ret = 'Unknown'
+    elif len(geom_types) > 1:
+        ret = sorted(geom_types, key=lambda t: not t.startswith('Multi'))[0]
     else:
         ret = geom_variable.geom_type
     return ret
 
 
+def get_homogeneous_geometry(geom):
+    """
+    Clipping may create geometry collections if boundaries touch. Most vector formats do not support these.
+
+    :param geom: The geometry to convert.
+    :type geom: :class:`shapely.geometry.base.BaseGeometry`
+    :return: The parts of a geometry collection having the highest dimension. Other geometries are returned as is.
+    :rtype: :class:`shapely.geometry.base.BaseGeometry`
+    """
+
+    ret = geom
+    if geom.geom_type == 'GeometryCollection' and not geom.is_empty:
+        for attr in ['area', 'length']:
+            parts = [g for g in geom.geoms if getattr(g, attr) > 0]
+            if len(parts) > 0:
+                break
+        else:
+            parts = list(geom.geoms)
+        ret = unary_union(parts)
+    return ret
+
+
 def get_geometry_variable(field_like):
     """
     :param field_like: A field or variable collection.
@@ -512,6 +540,8 @@ def get_geometry_variable(field_like):
 def write_records_to_fiona(sink, itr, driver):
     for geom, record in itr:
         record = format_record_for_fiona(driver, record)
+        if driver != 'GeoJSON':
+            geom = get_homogeneous_geometry(geom)
         if sink.schema['geometry'] == 'Multi' + geom.geom_type:
             # The file may only contain the multi-part type.
             geom = shape({'type': 'Multi' + geom.geom_type, 'coordinates': [mapping(geom)['coordinates']]})
-- 
2.43.0


From d98df02cd7e171e6b955458770fbfd11c4a85635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 094/156] fix: geometry iterators slice and count features by
 position

---
 src/ocgis/spatial/geom_cabinet.py | 70 ++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/ocgis/spatial/geom_cabinet.py b/src/ocgis/spatial/geom_cabinet.py
index 86c5390..8305c21 100644
--- a/src/ocgis/spatial/geom_cabinet.py
+++ b/src/ocgis/spatial/geom_cabinet.py
@@ -2,6 +2,7 @@ import os
 from collections import OrderedDict
 
 import fiona
+import numpy as np
 import ogr
 from ocgis import env
 from ocgis.collection.field import Field
@@ -134,22 +135,7 @@ class GeomCabinet(object):
                 if slc is None:
                     itr = features
                 else:
-                    # The geodatabase API requires iterations to get the given location.
-                    if self.get_gdal_driver(shp_path) == 'OpenFileGDB' or isinstance(slc, slice):
-                        def _o_itr_(features_object, slice_start, slice_stop):
-                            for ctr2, fb in enumerate(features_object):
-                                # ... iterate until start is reached.
-                                if ctr2 < slice_start:
-                                    continue
-                                # ... stop if we have reached the stop.
-                                elif ctr2 == slice_stop:
-                                    return
-                                yield fb
-
-                        itr = _o_itr_(features, slc.start, slc.stop)
-                    else:
-                        # Convert the slice index to an integer to avoid type conflict in GDAL layer.
-                        itr = (features.GetFeature(int(idx)) for idx in slc)
+                    itr = iter_features_by_index(features, slc)
 
                 # Convert feature objects to record dictionaries.
                 for ctr, feature in enumerate(itr):
@@ -360,20 +346,19 @@ class GeomCabinetIterator(object):
             shp_path = self.sc._get_path_by_key_or_direct_path_(key=self.key, path=self.path)
 
             if self.slc is not None:
-                return len(get_index_slice_for_iteration(self.slc))
-            elif self.select_uid is not None:
-                ret = len(self.select_uid)
+                slc = get_index_slice_for_iteration(self.slc)
             else:
-                # Get the geometries using a select statement.
-                ds = ogr.Open(shp_path)
-                try:
-                    features = self.sc._get_features_object_(ds, uid=self.uid, select_uid=self.select_uid,
-                                                             select_sql_where=self.select_sql_where,
-                                                             driver_kwargs=self.driver_kwargs)
-                    ret = len(features)
-                finally:
-                    ds.Destroy()
-                    ds = None
+                slc = slice(None)
+            # Get the geometries using a select statement.
+            ds = ogr.Open(shp_path)
+            try:
+                features = self.sc._get_features_object_(ds, uid=self.uid, select_uid=self.select_uid,
+                                                         select_sql_where=self.select_sql_where,
+                                                         driver_kwargs=self.driver_kwargs)
+                ret = len(np.arange(len(features))[slc])
+            finally:
+                ds.Destroy()
+                ds = None
         return ret
 
 
@@ -431,3 +416,30 @@ def get_gdal_driver(ds):
 def get_index_slice_for_iteration(slc):
     slc = get_formatted_slice(slc, 1)[0]
     return slc
+
+
+def iter_features_by_index(features, slc):
+    """
+    Iterate features by their position.
+
+    :param features: The layer with target features.
+    :type features: :class:`osgeo.ogr.Layer`
+    :param slc: The slice or index/boolean array selecting positions.
+    :type slc: slice | :class:`numpy.ndarray`
+    """
+
+    indices = np.arange(len(features))[slc]
+    if np.all(np.diff(indices) > 0):
+        # Setting the position may require an iteration for some drivers. With ascending positions, one is enough.
+        wanted = iter(indices)
+        target = next(wanted, None)
+        for position, feature in enumerate(features):
+            if target is None:
+                return
+            if position == target:
+                yield feature
+                target = next(wanted, None)
+    else:
+        for idx in indices:
+            features.SetNextByIndex(int(idx))
+            yield features.GetNextFeature()
-- 
2.43.0


From 6e60001d27d8394f451d8625db8e1b8a6d78b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 095/156] fix: geometries may be selected by identifiers having
 any field name

---
 src/ocgis/spatial/geom_cabinet.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ocgis/spatial/geom_cabinet.py b/src/ocgis/spatial/geom_cabinet.py
index 8305c21..79232c9 100644
--- a/src/ocgis/spatial/geom_cabinet.py
+++ b/src/ocgis/spatial/geom_cabinet.py
@@ -249,11 +249,7 @@ class GeomCabinet(object):
                 # if no uid is provided, use the default
                 if uid is None:
                     uid = env.DEFAULT_GEOM_UID
-                # format where statement different for singletons
-                if len(select_uid) == 1:
-                    sql_where = '{0} = {1}'.format(uid, select_uid[0])
-                else:
-                    sql_where = '{0} IN {1}'.format(uid, tuple(select_uid))
+                sql_where = '"{0}" IN ({1})'.format(uid, ', '.join([str(ii) for ii in select_uid]))
                 sql = 'SELECT * FROM "{0}" WHERE {1}'.format(lyr_name, sql_where)
             features = ds.ExecuteSQL(sql)
         else:
-- 
2.43.0


From 46d3e59b7c610bfd4da33dbd48a70d27c8933325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 096/156] fix: selections of geometry iterators and unions are
 kept by requests

---
 src/ocgis/ops/parms/definition.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index d8882a7..0890193 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -677,7 +677,7 @@ class Geom(base.AbstractParameter):
         return ret
 
     def _get_value_(self):
-        if isinstance(self._value, GeomCabinetIterator):
+        if isinstance(self._value, GeomCabinetIterator) and self.select_ugid is not None:
             self._value.select_uid = self.select_ugid
         return base.AbstractParameter._get_value_(self)
 
@@ -711,6 +711,8 @@ class Geom(base.AbstractParameter):
             self._shp_key = value.key or value.path
             # Always yield fields.
             value.as_field = True
+            if self.union:
+                value.union = True
             ret = value
         elif isinstance(value, BaseGeometry):
             ret = [{'geom': value, 'properties': {self._ugid_key: 1}}]
@@ -727,6 +729,12 @@ class Geom(base.AbstractParameter):
         else:
             raise NotImplementedError(type(value))
 
+        # Selection geometries from records are already unioned.
+        if self.union and isinstance(value, (Field, GeometryVariable)):
+            mask = ret.geom.get_mask(create=True)
+            records = [{'geom': g, 'properties': {}} for g in ret.geom.get_value()[~mask]]
+            ret = Field.from_records(records, crs=ret.crs, uid=self.geom_uid, union=True, data_model=self.data_model)
+
         # Convert to singular field if this is a field object.
         if isinstance(ret, Field):
             ret = tuple(self._iter_singular_fields_(ret))
-- 
2.43.0


From b30fc6f9f4362c177fcb9af52fd20fb19d8a3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 097/156] fix: missing properties of vector data are masked and
 do not remove features, loading keeps values set by the user

---
 src/ocgis/collection/field.py | 11 +++++--
 src/ocgis/driver/vector.py    | 54 ++++++++++++++++-------------------
 2 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index a31a598..40844d4 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -8,7 +8,7 @@ from shapely.geometry import shape
 from ocgis import env, DimensionMap, VariableCollection
 from ocgis.base import get_dimension_names, get_variable_names, get_variables, renamed_dimensions_on_variables, \
     revert_renamed_dimensions_on_variables, raise_if_empty
-from ocgis.constants import DimensionMapKey, WrapAction, TagName, HeaderName, DimensionName, UNINITIALIZED, \
+from ocgis.constants import DimensionMapKey, DriverKey, WrapAction, TagName, HeaderName, DimensionName, UNINITIALIZED, \
     KeywordArgument, DMK
 from ocgis.util.helpers import get_iter
 from ocgis.util.logging_ocgis import ocgis_lh
@@ -523,7 +523,9 @@ class Field(VariableCollection):
                     if v is None:
                         # Mask the value if it is None. NULLs are allowed in OGR Vector files, but they do not translate
                         # well to Python. Strings are generally okay but floats/ints case problems.
-                        field[k].get_mask(create=True)[idx] = v
+                        mask = field[k].get_mask(create=True)
+                        mask[idx] = True
+                        field[k].set_mask(mask)
                     else:
                         # Set the associated field value.
                         field[k].get_value()[idx] = v
@@ -735,6 +737,11 @@ class Field(VariableCollection):
                     header_map[self.level.name] = HeaderName.LEVEL
                     update_header_rename_bounds_names(HeaderName.LEVEL_BOUNDS, header_map, self.level)
 
+        request_dataset = getattr(variable, '_request_dataset', None)
+        if geom is not None and request_dataset is not None and request_dataset.driver.key == DriverKey.VECTOR:
+            # Features are maintained if the value of a property is missing.
+            kwargs[KeywordArgument.PRIMARY_MASK] = geom
+
         if melted:
             melted = tagged_variables
         else:
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 8b6f0ec..910843f 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -38,7 +38,7 @@ class DriverVector(AbstractTabularDriver):
         value = self.get_variable_value(variable)
 
         if variable.parent is None:
-            variable.set_value(list(value.values())[0])
+            variable.set_value(value[variable.name])
         else:
             for k, v in list(value.items()):
                 variable.parent[k].set_value(v)
@@ -123,35 +123,31 @@ class DriverVector(AbstractTabularDriver):
             if as_geometry_iterator:
                 return (row['geom'] for row in g)
 
-            ret = {}
-            if variable.parent is None:
-                ret[variable.name] = np.zeros(variable.shape, dtype=variable.dtype)
-                for idx, row in enumerate(g):
-                    ret[variable.name][idx] = row['properties'][variable.name]
-            else:
-                ret = {}
-                # Initialize the variable data as zero arrays.
+            # Values are loaded for the variables read from the source. Values set by the user are maintained.
+            targets = [variable]
+            if variable.parent is not None:
                 for v in list(variable.parent.values()):
-                    if not isinstance(v, CoordinateReferenceSystem):
-                        ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
-                # Fill those arrays.
-                for idx, row in enumerate(g):
-                    for dv in list(variable.parent.values()):
-                        if isinstance(dv, (CoordinateReferenceSystem, GeometryVariable)):
-                            continue
-                        dv = dv.name
-                        try:
-                            ret[dv][idx] = row['properties'][dv]
-                        except TypeError:
-                            # Property value may be none. Set the data to masked if this is the case.
-                            if row['properties'][dv] is None:
-                                ret[dv].mask[idx] = True
-                            else:
-                                raise
-                    try:
-                        ret[constants.VariableName.GEOMETRY_VARIABLE][idx] = row['geom']
-                    except KeyError:
-                        pass
+                    if v is not variable and getattr(v, '_request_dataset', None) is self.rd and v._value is None:
+                        targets.append(v)
+
+            # Initialize the variable data as zero arrays.
+            ret = OrderedDict()
+            for v in targets:
+                ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
+            # Fill those arrays.
+            for idx, row in enumerate(g):
+                for v in targets:
+                    if isinstance(v, GeometryVariable):
+                        ret[v.name].data[idx] = row['geom']
+                    else:
+                        value = row['properties'][v.source_name]
+                        # Property value may be none. Set the data to masked if this is the case.
+                        if value is None:
+                            ret[v.name].mask[idx] = True
+                            if v.dtype == object:
+                                ret[v.name].data[idx] = ''
+                        else:
+                            ret[v.name][idx] = value
 
         # Only supply a mask if something is actually masked. Otherwise, remove the mask.
         is_masked = any([v.mask.any() for v in ret.values()])
-- 
2.43.0


From d396e6e354361850174775ad217924db83cfb9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 098/156] fix: geometry variables may be created with an array
 of unique identifiers

---
 src/ocgis/variable/geom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 19267b8..0f1acac 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -217,7 +217,8 @@ class GeometryVariable(AbstractSpatialVariable):
         super(GeometryVariable, self).__init__(**kwargs)
 
         if ugid is not None:
-            ugid_var = Variable(name=HeaderName.ID_SELECTION_GEOMETRY, value=[ugid], dimensions=self.dimensions)
+            ugid_value = np.array(ugid).reshape(self.shape)
+            ugid_var = Variable(name=HeaderName.ID_SELECTION_GEOMETRY, value=ugid_value, dimensions=self.dimensions)
             self.set_ugid(ugid_var)
 
         # If the parent field has no representative geometry, then this variable should be set as the representative
-- 
2.43.0


From 4f92bb4f88c660f3cab7f97ce1ddb24a0c6ea176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 099/156] fix: variables are renamed when the metadata of a
 request dataset is overloaded

---
 src/ocgis/driver/request/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index bb71cc6..34a4553 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -158,6 +158,7 @@ class RequestDataset(AbstractRequestObject):
         if rename_variable is not None:
             rename_variable = get_tuple(rename_variable)
         self._rename_variable = rename_variable
+        self._is_metadata_renamed = False
 
         self.rotated_pole_priority = rotated_pole_priority
         self.predicate = predicate
@@ -365,9 +366,11 @@ class RequestDataset(AbstractRequestObject):
         if self._metadata is None:
             metadata = self.driver.metadata_raw
             self._metadata = deepcopy(metadata)
-            if self._rename_variable is not None:
-                for k, v in self.rename_variable_map.items():
-                    self._metadata['variables'][k]['name'] = v
+        # Variables are also renamed if the metadata is overloaded.
+        if self._rename_variable is not None and not self._is_metadata_renamed:
+            self._is_metadata_renamed = True
+            for k, v in self.rename_variable_map.items():
+                self._metadata['variables'][k]['name'] = v
         return self._metadata
 
     @property
-- 
2.43.0


From 750f0ad91f68607b58f2f0e5eb93f2638c10c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 100/156] fix: dimension maps given to request datasets are not
 shared or changed

---
 src/ocgis/driver/request/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 34a4553..8f0f8e0 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -164,7 +164,8 @@ class RequestDataset(AbstractRequestObject):
         self.predicate = predicate
         if dimension_map is not None and isinstance(dimension_map, dict):
             dimension_map = DimensionMap.from_dict(dimension_map)
-        self._dimension_map = dimension_map
+        # The dimension map is completed using the metadata of this dataset and must not be shared with other datasets.
+        self._dimension_map = deepcopy(dimension_map)
 
         self._metadata = deepcopy(metadata)
         self._uri = None
-- 
2.43.0


From 638c0d4cb5c37f62cdbfc0cbcfe3fc6036976743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 101/156] fix: bounds of dimension maps are kept if dimension
 names are found in the metadata

---
 src/ocgis/driver/dimension_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 2a1e431..eb21425 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -610,7 +610,7 @@ class DimensionMap(AbstractOcgisObject):
             if variable_name is not None and len(dimension_names) == 0:
                 metadata_dimensions = metadata.get('variables', {}).get(variable_name, {}).get('dimensions', [])
                 if len(metadata_dimensions) > 0:
-                    self.set_variable(k, variable_name, dimension=metadata_dimensions)
+                    self.set_variable(k, variable_name, dimension=metadata_dimensions, bounds=self.get_bounds(k))
 
     def _get_element_(self, entry_key, element_key, default):
         if entry_key == DMK.CRS:
-- 
2.43.0


From 60f5e5e0d2d9495ffb0a386d9d2b22e5f70372b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 102/156] fix: dimension maps are the same after conversion to
 and from dictionaries

---
 src/ocgis/driver/dimension_map.py | 37 ++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index eb21425..60298d9 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -27,7 +27,7 @@ class DimensionMap(AbstractOcgisObject):
         ret = True
         if type(other) != self.__class__:
             ret = False
-        elif self._storage != other._storage:
+        elif self._get_filled_storage_() != other._get_filled_storage_():
             ret = False
         return ret
 
@@ -53,7 +53,8 @@ class DimensionMap(AbstractOcgisObject):
                 curr[DMK.GROUPS][group_name] = group_dmap.as_dict(curr=group_dmap._storage)
         if DMK.TOPOLOGY in curr:
             for k, v in curr[DMK.TOPOLOGY].items():
-                curr[DMK.TOPOLOGY][k] = v.as_dict(curr=v._storage)
+                if v is not None:
+                    curr[DMK.TOPOLOGY][k] = v.as_dict(curr=v._storage)
         return curr
 
     @classmethod
@@ -72,16 +73,27 @@ class DimensionMap(AbstractOcgisObject):
                 has_groups = True
             elif k == DMK.DRIVER:
                 d.set_driver(v)
+            elif k == DMK.TOPOLOGY:
+                d._storage[DMK.TOPOLOGY] = {}
+                for topology, topology_dct in v.items():
+                    if topology_dct is not None:
+                        topology_dct = cls.from_dict(topology_dct)
+                    d._storage[DMK.TOPOLOGY][topology] = topology_dct
+            elif k in (DMK.GRID_ABSTRACTION, DMK.IS_ISOMORPHIC):
+                d.set_property(k, v)
             else:
                 try:
                     variable = v.pop(DMK.VARIABLE)
                 except KeyError:
                     raise DimensionMapError(k, "No 'variable' is available.")
                 if k == DMK.CRS:
-                    d.set_crs(variable)
+                    if variable is not None:
+                        d.set_crs(variable)
                 elif k == DMK.SPATIAL_MASK:
-                    if v != {}:
-                        d.set_spatial_mask(variable)
+                    if variable is not None:
+                        attrs = v.get(DMK.ATTRS)
+                        # Only use default attributes if there are no attributes in the dictionary.
+                        d.set_spatial_mask(variable, attrs=attrs, default_attrs=None if attrs is None else {})
                 else:
                     d.set_variable(k, variable, **v)
         if has_groups:
@@ -625,6 +637,21 @@ class DimensionMap(AbstractOcgisObject):
         else:
             return get_or_create_dict(self._storage, key, self._storage.__class__())
 
+    def _get_filled_storage_(self):
+        """Get the storage without the entries having no variable. Those are created when requesting missing entries."""
+        ret = {}
+        for k, v in self._storage.items():
+            if k in (DMK.GROUPS, DMK.TOPOLOGY):
+                v = {ii: jj for ii, jj in v.items() if jj is not None}
+                filled = len(v) > 0
+            elif isinstance(v, dict):
+                filled = v.get(DMK.VARIABLE) is not None
+            else:
+                filled = True
+            if filled:
+                ret[k] = v
+        return ret
+
     def _iter_entries_(self):
         """Yield the dictionaries for all entries including the entries of topologies."""
         for key, entry in self._storage.items():
-- 
2.43.0


From 2e2577ff9550515a3e764fc3b9a0fe6a790a69aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 103/156] fix: times of several files having different units
 are converted when slicing or bounded

---
 src/ocgis/driver/nc.py | 62 +++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 96f4809..fb6aae2 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import netCDF4 as nc
 import numpy as np
 import six
-from netCDF4._netCDF4 import VLType, MFDataset, MFTime
+from netCDF4._netCDF4 import VLType, MFDataset
 
 from ocgis import constants, vm
 from ocgis import env
@@ -17,7 +17,7 @@ from ocgis.constants import MPIWriteMode, DimensionMapKey, KeywordArgument, Driv
     DecompositionType
 from ocgis.driver.base import AbstractDriver, driver_scope
 from ocgis.exc import ProjectionDoesNotMatch, PayloadProtectedError, NoDataVariablesFound, \
-    GridDeficientError
+    GridDeficientError, DimensionMapError
 from ocgis.util.helpers import itersubclasses, get_iter, get_formatted_slice, get_by_key_list, is_auto_dtype, get_group
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import SourcedVariable, ObjectType, get_slice_sequence_using_local_bounds
@@ -642,13 +642,11 @@ def get_value_from_request_dataset(variable):
 
         # Allow multi-unit time values for temporal variables.
         if isinstance(variable, TemporalVariable) and isinstance(source, MFDataset) and rd.format_time:
-            # MFTime may fail if time_bnds do not have a calendar attribute.
-            # Use rd.dimension_map.set_bounds('time', None) to disable indexing on time_bnds.
-            try:
-                ncvar = MFTime(ncvar, units=variable.units, calendar=variable.calendar)
-            except TypeError:
-                # Older versions of netcdf4-python do not support the calendar argument.
-                ncvar = MFTime(ncvar, units=variable.units)
+            converted = get_converted_multifile_times(source, ncvar, variable)
+            if converted is not None:
+                # Converted times should not be changed to the (i.e. integer) data type in the source.
+                variable._dtype = 'auto'
+                ncvar = converted
         ret = get_variable_value(ncvar, variable.dimensions)
     return ret
 
@@ -685,11 +683,49 @@ def get_variable_value(variable, dimensions):
         slc = get_formatted_slice(to_format, len(dimensions))
     else:
         slc = slice(None)
+    ret = variable.__getitem__(slc)
+    return ret
+
+
+def get_converted_multifile_times(source, ncvar, variable):
+    """
+    Convert the time values of each file in a multi-file dataset to the units of the time coordinate in the first file.
+
+    :param source: The open multi-file dataset (or group) containing ``ncvar``.
+    :param ncvar: The multi-file netCDF variable to convert.
+    :param variable: The time coordinate or bounds variable to load.
+    :type variable: :class:`~ocgis.TemporalVariable`
+    :return: The converted values for all files. ``None`` is returned if there is nothing to convert.
+    :rtype: :class:`numpy.ndarray` | ``None``
+    """
+    # Only variables aggregated across files (i.e. having the record dimension) have a length for each file.
+    lengths = getattr(ncvar, '_recLen', None)
+    if lengths is None:
+        return None
+
+    # Bounds are not required to have units. In that case, the units of the coordinate variable apply.
     try:
-        ret = variable.__getitem__(slc)
-    except IndexError:
-        # TODO: Hack! Slicing the top-level MFTime variable does not work with multifiles.
-        ret = super(MFTime, variable).__getitem__(slc)
+        time_name = variable._request_dataset.dimension_map.get_group(variable.group).get_variable(DimensionMapKey.TIME)
+    except DimensionMapError:
+        time_name = None
+    coordinate = source.variables.get(time_name)
+    if getattr(coordinate, '_recLen', None) is None:
+        coordinate = ncvar
+    coordinate_units = [getattr(ii, CFName.UNITS, None) for ii in coordinate._recVar]
+    units = [getattr(ii, CFName.UNITS, jj) for ii, jj in zip(ncvar._recVar, coordinate_units)]
+    destination = coordinate_units[0]
+    if destination is None or all([ii is None or ii == destination for ii in units]):
+        return None
+
+    value = ncvar[:]
+    ret = np.array(value, dtype=float)
+    start = 0
+    for length, curr_units in zip(lengths, units):
+        if curr_units is not None and curr_units != destination:
+            select = slice(start, start + length)
+            dates = nc.num2date(value[select], curr_units, calendar=variable.calendar)
+            ret[select] = nc.date2num(dates, destination, calendar=variable.calendar)
+        start += length
     return ret
 
 
-- 
2.43.0


From e2377fc800f48ffde11f8dccdacb16c8c2406f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 104/156] fix: grids having bounds on one coordinate only may
 be written, expanded and transformed

---
 src/ocgis/spatial/base.py | 5 +++++
 src/ocgis/spatial/grid.py | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 2ff36b3..1d58d14 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -603,6 +603,11 @@ class AbstractXYZSpatialContainer(AbstractSpatialContainer):
                 tvalue_col, tvalue_row = transform(src_proj4, dst_proj4, corner_col, corner_row)
                 y.bounds.set_value(tvalue_row.reshape(y.bounds.shape))
                 x.bounds.set_value(tvalue_col.reshape(x.bounds.shape))
+            else:
+                # Bounds may not be transformed if they are only available for one of the coordinate variables.
+                for target in [x, y]:
+                    if target.has_bounds:
+                        target.set_bounds(None)
 
         self.crs = to_crs
 
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 2d93532..e03a2ba 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -338,7 +338,8 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
         :rtype: bool
         """
-        return self.archetype.has_bounds
+        # Cells need bounds on both coordinate variables.
+        return self.archetype.has_bounds and self.x.has_bounds
 
     @property
     def has_shared_dimension(self):
@@ -836,7 +837,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
     def _get_available_abstractions_(self):
         ret = [GridAbstraction.POINT]
-        if self.archetype.has_bounds:
+        if self.has_bounds:
             ret.append(GridAbstraction.POLYGON)
         return ret
 
@@ -1329,7 +1330,7 @@ def expand_grid(grid):
                 target.set_mask(None)
 
     if y.ndim == 1:
-        if y.has_bounds:
+        if grid.has_bounds:
             if not grid_is_empty:
                 original_y_bounds = y.bounds.get_value()
                 original_x_bounds = x.bounds.get_value()
-- 
2.43.0


From 0f69de828c1ce269a28c3a7639aa277cb9098701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 105/156] fix: dictionaries of dimension maps do not have
 entries without variables

---
 src/ocgis/driver/dimension_map.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 60298d9..1cb35d8 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -47,14 +47,13 @@ class DimensionMap(AbstractOcgisObject):
         :rtype: dict
         """
         if curr is None:
-            curr = deepcopy(self._storage)
+            curr = deepcopy(self._get_filled_storage_())
         if DMK.GROUPS in curr:
             for group_name, group_dmap in curr[DMK.GROUPS].items():
-                curr[DMK.GROUPS][group_name] = group_dmap.as_dict(curr=group_dmap._storage)
+                curr[DMK.GROUPS][group_name] = group_dmap.as_dict()
         if DMK.TOPOLOGY in curr:
             for k, v in curr[DMK.TOPOLOGY].items():
-                if v is not None:
-                    curr[DMK.TOPOLOGY][k] = v.as_dict(curr=v._storage)
+                curr[DMK.TOPOLOGY][k] = v.as_dict()
         return curr
 
     @classmethod
-- 
2.43.0


From 662822778f1c2d0010c61023d5b029dba6a541d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 106/156] fix: groups of files are interpreted using their own
 metadata and dimension maps

---
 src/ocgis/driver/base.py          | 34 +++++++++++++++++++++++++------
 src/ocgis/driver/dimension_map.py |  2 +-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index d3b42ee..624bca5 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -253,10 +253,15 @@ class AbstractDriver(AbstractOcgisObject):
             new_kwargs['source_name'] = None
             raw_field = self.create_raw_field(*args, **new_kwargs)
 
-        # Get the appropriate metadata for the collection.
-        group_metadata = self.get_group_metadata(raw_field.group, self.metadata_source)
+        # Get the appropriate metadata for the collection. The group index of a collection does not contain the
+        # collection itself.
+        group = raw_field.group
+        if group is not None:
+            group = group + [raw_field.source_name]
+        group_metadata = self.get_group_metadata(group, self.metadata_source)
         # Always pull the dimension map from the request dataset. This allows it to be overloaded.
-        dimension_map = self.get_group_metadata(raw_field.group, self.rd.dimension_map)
+        dimension_map = get_group_dimension_map(self.rd.dimension_map, group)
+        dimension_map_raw = get_group_dimension_map(self.dimension_map_raw, group)
 
         # Modify the coordinate system variable. If it is overloaded on the request dataset, then the variable
         # collection needs to be updated to hold the variable and any alternative coordinate systems needs to be
@@ -285,8 +290,8 @@ class AbstractDriver(AbstractOcgisObject):
             dimension_map.set_crs(to_add.name)
 
         # Remove the mask variable if present in the raw dimension map and the source dimension map is set to None.
-        if self.rd.dimension_map.get_spatial_mask() is None and self.dimension_map_raw.get_spatial_mask() is not None:
-            raw_field.pop(self.dimension_map_raw.get_spatial_mask())
+        if dimension_map.get_spatial_mask() is None and dimension_map_raw.get_spatial_mask() is not None:
+            raw_field.pop(dimension_map_raw.get_spatial_mask())
 
         # Convert the raw variable collection to a field.
         # TODO: Identify a way to remove this code block; field should be appropriately initialized; format_time and grid_abstraction are part of a dimension map.
@@ -316,7 +321,10 @@ class AbstractDriver(AbstractOcgisObject):
         # These variables have all the dimensions needed for a data classification. Use overloaded values from the
         # request dataset if they are provided.
         try:
-            data_variable_names = list(get_variable_names(self.rd.rename_variable))
+            if group is not None and self.rd._variable is None:
+                data_variable_names = list(self.get_data_variable_names(group_metadata, dimension_map))
+            else:
+                data_variable_names = list(get_variable_names(self.rd.rename_variable))
         except NoDataVariablesFound:
             # It is okay to have no data variables in a field.
             data_variable_names = []
@@ -327,6 +335,8 @@ class AbstractDriver(AbstractOcgisObject):
         # Load child fields.
         for child in list(field.children.values()):
             kwargs['raw_field'] = child
+            # Children are named by their group.
+            kwargs['name'] = child.name
             field.children[child.name] = self.create_field(*args, **kwargs)
 
         return field
@@ -1064,6 +1074,18 @@ def get_dump_report_for_group(group, global_attributes_name='global', indent=0):
     return lines
 
 
+def get_group_dimension_map(dimension_map, group):
+    """
+    Get the dimension map for a group. Dimension maps provided by users may not contain groups. In this case, return the
+    dimension map of the root group.
+    """
+    try:
+        ret = dimension_map.get_group(group)
+    except DimensionMapError:
+        ret = dimension_map
+    return ret
+
+
 def get_conform_units_metadata(driver, variable):
     """
     Get the metadata used to conform the units of ``variable`` to its destination units. If ``variable`` is a bounds
diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index 1cb35d8..882184e 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -118,7 +118,7 @@ class DimensionMap(AbstractOcgisObject):
             curr.set_group(group_name, dimension_map)
         if DMK.GROUPS in group_metadata:
             for group_name, sub_group_metadata in group_metadata[DMK.GROUPS].items():
-                cls.from_metadata(driver, sub_group_metadata, curr=curr, group_name=group_name)
+                cls.from_metadata(driver, sub_group_metadata, curr=dimension_map, group_name=group_name)
 
         return curr
 
-- 
2.43.0


From c4d9257b334f5f4a2de85c679b22fa0f1eb772a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 107/156] fix: climatological bounds keep their attribute when
 written

---
 src/ocgis/variable/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 99b9886..f8e02c3 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1452,7 +1452,11 @@ class Variable(AbstractContainer, Attributes):
         if clobber_units is None:
             clobber_units = env.CLOBBER_UNITS_ON_BOUNDS
 
+        # Climatological bounds (read from file for example) keep their attribute.
         bounds_attr_name = self._bounds_attribute_name
+        bounds_name = self._bounds_name if value is None else value.name
+        if bounds_name is not None and self.attrs.get('climatology') == bounds_name:
+            bounds_attr_name = 'climatology'
         parent = self.parent
         if value is None:
             if self._bounds_name is not None:
@@ -2344,7 +2348,10 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         for var in self.values():
             if getattr(var, '_bounds_name', None) == old_name:
                 var._bounds_name = new_name
-                var.attrs[var._bounds_attribute_name] = new_name
+                if var.attrs.get('climatology') == old_name:
+                    var.attrs['climatology'] = new_name
+                else:
+                    var.attrs[var._bounds_attribute_name] = new_name
             if getattr(var, '_name_ugid', None) == old_name:
                 var._name_ugid = new_name
 
-- 
2.43.0


From 8c614716162d5f4f5dedc354a839204d7262a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 108/156] fix: no file is lost and all calendars work when
 sorting files by time

---
 src/ocgis/util/helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 04093c4..d236be1 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -702,12 +702,12 @@ def get_sorted_uris_by_time_dimension(uris, variable=None):
 
     from ocgis import RequestDataset
 
-    to_sort = {}
+    # Use a list as files may have the same maximum time. Times in some calendars may also not be hashable.
+    to_sort = []
     for uri in uris:
         rd = RequestDataset(uri=uri, variable=variable)
-        to_sort[rd.get().temporal.extent_datetime[1]] = rd.uri
-    sorted_keys = sorted(to_sort)
-    ret = [to_sort[sk] for sk in sorted_keys]
+        to_sort.append((rd.get().temporal.extent_datetime[1], rd.uri))
+    ret = [uri for _, uri in sorted(to_sort, key=lambda x: x[0])]
     return ret
 
 
-- 
2.43.0


From 6cc4c2e47900e1c91ee3a613298472e9fbc1a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 109/156] fix: several aggregated selections having masked
 values may be written to netCDF

---
 src/ocgis/variable/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index f8e02c3..19d3154 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1669,8 +1669,9 @@ class SourcedVariable(Variable):
             return None
 
         eager = kwargs.pop(KeywordArgument.EAGER, True)
-        # When load from disk, the current mask and from disk masked should be merged with a logical OR.
-        if eager:
+        # When load from disk, the current mask and from disk masked should be merged with a logical OR. There is nothing
+        # to merge if the value is already available.
+        if eager and self._value is None:
             self.load()
             current_mask = self._mask
             self.set_mask(None)
-- 
2.43.0


From 076b26353879ff88b336511c7ce244a6e2538768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 110/156] fix: geometry files of other requests are not
 overwritten without permission

---
 src/ocgis/conv/base.py | 47 ++++++++++++++++++++++++++++++++++--------
 src/ocgis/conv/csv_.py |  9 +++++++-
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 42f74d8..178ef2e 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -76,13 +76,20 @@ class AbstractFileConverter(AbstractConverter):
             self.path = self.outdir
         else:
             self.path = os.path.join(self.outdir, prefix + '.' + self._ext)
-            if os.path.exists(self.path):
-                if not self.overwrite:
-                    msg = messages.M3.format(self.path)
-                    raise IOError(msg)
+            self._validate_overwrite_(self.path)
 
         self._log = ocgis_lh.get_logger('conv')
 
+    def _validate_overwrite_(self, path):
+        """
+        :raises: IOError if any file belonging to ``path`` exists and may not be overwritten.
+        """
+        if not self.overwrite:
+            for p in get_output_files(path):
+                if os.path.exists(p):
+                    msg = messages.M3.format(p)
+                    raise IOError(msg)
+
 
 @six.add_metaclass(abc.ABCMeta)
 class AbstractCollectionConverter(AbstractFileConverter):
@@ -133,6 +140,16 @@ class AbstractCollectionConverter(AbstractFileConverter):
             ret = none_target
         return ret
 
+    @property
+    def _ugeom_path(self):
+        # The output file name for the user geometries.
+        ugid_shp_name = self.prefix + '_ugid.shp'
+        if self._add_ugeom_nest:
+            ret = os.path.join(self.outdir, 'shp', ugid_shp_name)
+        else:
+            ret = os.path.join(self.outdir, ugid_shp_name)
+        return ret
+
     def _build_(self, *args, **kwargs):
         raise NotImplementedError
 
@@ -184,13 +201,11 @@ class AbstractCollectionConverter(AbstractFileConverter):
                     write_ugeom = True
 
                 if write_ugeom:
+                    self._validate_overwrite_(self._ugeom_path)
                     if vm.rank == 0:
-                        # The output file name for the user geometries.
-                        ugid_shp_name = self.prefix + '_ugid.shp'
                         if self._add_ugeom_nest:
-                            ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
-                        else:
-                            ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
+                            self._get_or_create_shp_folder_()
+                        ugeom_fiona_path = self._ugeom_path
                     else:
                         ugeom_fiona_path = None
 
@@ -254,6 +269,20 @@ class AbstractTabularConverter(AbstractCollectionConverter):
         super(AbstractTabularConverter, self).__init__(*args, **kwargs)
 
 
+def get_output_files(path):
+    """
+    :return: The files belonging to an output path. Shapefiles consist of several files.
+    :rtype: list[str]
+    """
+
+    root, ext = os.path.splitext(path)
+    if ext == '.shp':
+        ret = [root + e for e in ('.shp', '.shx', '.dbf', '.prj', '.cpg')]
+    else:
+        ret = [path]
+    return ret
+
+
 def get_converter(output_format):
     """
     Return the converter based on output extensions or key.
diff --git a/src/ocgis/conv/csv_.py b/src/ocgis/conv/csv_.py
index 43a8fe7..fb4b1ff 100644
--- a/src/ocgis/conv/csv_.py
+++ b/src/ocgis/conv/csv_.py
@@ -58,6 +58,12 @@ class CsvShapefileConverter(CsvConverter):
         CsvConverter.__init__(self, *args, **kwargs)
         if self.ops is None:
             raise ValueError('The argument "ops" may not be "None".')
+        if not self.ops.aggregate:
+            self._validate_overwrite_(self._gid_path)
+
+    @property
+    def _gid_path(self):
+        return os.path.join(self.outdir, 'shp', self.prefix + '_gid.shp')
 
     def _write_coll_(self, f, coll, add_geom_uid=True):
         ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
@@ -76,7 +82,8 @@ class CsvShapefileConverter(CsvConverter):
 
         # The output geometry identifier shapefile path.
         if vm.rank == 0:
-            fiona_path = os.path.join(self._get_or_create_shp_folder_(), self.prefix + '_gid.shp')
+            self._get_or_create_shp_folder_()
+            fiona_path = self._gid_path
         else:
             fiona_path = None
         fiona_path = vm.bcast(fiona_path)
-- 
2.43.0


From ba7848ecb0bbf288b4ba1dcff16bc289e03d7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 111/156] fix: requests failing part way do not leave
 incomplete files

---
 src/ocgis/conv/base.py | 44 ++++++++++++++++++++++++++++++++++++++++++
 src/ocgis/conv/csv_.py |  5 ++++-
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 178ef2e..2dad300 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -174,7 +174,37 @@ class AbstractCollectionConverter(AbstractFileConverter):
         """Prepare collection before it is written to disk."""
         return coll
 
+    def _get_output_files_(self):
+        """
+        :return: All files potentially written by the converter excluding auxiliary files.
+        :rtype: list[str]
+        """
+        ret = []
+        if self._ext is not None:
+            ret += get_output_files(self.path)
+            if self._add_ugeom:
+                ret += get_output_files(self._ugeom_path)
+        return ret
+
     def write(self):
+        # Incomplete files are removed if the write fails. Files not touched by the write must be kept.
+        states = {path: get_file_state(path) for path in self._get_output_files_()}
+        shp_folder = os.path.join(self.outdir, 'shp') if self._ext is not None else None
+        has_shp_folder = shp_folder is not None and os.path.exists(shp_folder)
+        try:
+            return self._write_main_()
+        except:
+            if vm.rank == 0:
+                for path, state in states.items():
+                    curr_state = get_file_state(path)
+                    if curr_state is not None and curr_state != state:
+                        os.remove(path)
+                if shp_folder is not None and not has_shp_folder and os.path.exists(shp_folder):
+                    if len(os.listdir(shp_folder)) == 0:
+                        os.rmdir(shp_folder)
+            raise
+
+    def _write_main_(self):
         ocgis_lh('starting write method', self._log, logging.DEBUG)
 
         # Indicates if user geometries should be written to file.
@@ -269,6 +299,20 @@ class AbstractTabularConverter(AbstractCollectionConverter):
         super(AbstractTabularConverter, self).__init__(*args, **kwargs)
 
 
+def get_file_state(path):
+    """
+    :return: An object changing if the file is written or replaced. ``None`` if the file does not exist.
+    """
+
+    try:
+        st = os.stat(path)
+    except OSError:
+        ret = None
+    else:
+        ret = (st.st_ino, st.st_size, st.st_mtime, st.st_ctime)
+    return ret
+
+
 def get_output_files(path):
     """
     :return: The files belonging to an output path. Shapefiles consist of several files.
diff --git a/src/ocgis/conv/csv_.py b/src/ocgis/conv/csv_.py
index fb4b1ff..20afa5d 100644
--- a/src/ocgis/conv/csv_.py
+++ b/src/ocgis/conv/csv_.py
@@ -6,7 +6,7 @@ from ocgis import Variable, vm
 from ocgis import constants
 from ocgis.collection.field import Field
 from ocgis.constants import KeywordArgument, HeaderName, DriverKey
-from ocgis.conv.base import AbstractTabularConverter
+from ocgis.conv.base import AbstractTabularConverter, get_output_files
 from ocgis.driver.csv_ import DriverCSV
 from ocgis.util.logging_ocgis import ocgis_lh
 
@@ -65,6 +65,9 @@ class CsvShapefileConverter(CsvConverter):
     def _gid_path(self):
         return os.path.join(self.outdir, 'shp', self.prefix + '_gid.shp')
 
+    def _get_output_files_(self):
+        return super(CsvShapefileConverter, self)._get_output_files_() + get_output_files(self._gid_path)
+
     def _write_coll_(self, f, coll, add_geom_uid=True):
         ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
                  level=logging.DEBUG)
-- 
2.43.0


From 8343b604e3fd8131fa37b69e8324ca730b12d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 112/156] fix: output directory is removed if the request fails
 directly after its creation

---
 src/ocgis/ops/interpreter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/ops/interpreter.py b/src/ocgis/ops/interpreter.py
index c55f457..3cefef7 100644
--- a/src/ocgis/ops/interpreter.py
+++ b/src/ocgis/ops/interpreter.py
@@ -85,9 +85,6 @@ class OcgInterpreter(Interpreter):
                         else:
                             raise IOError('The output directory exists but env.OVERWRITE is False: {0}'.format(outdir))
                     os.mkdir(outdir)
-                # Block until output directory is created. Most often the zero rank manages writing, but this is not a
-                # requirement.
-                vm.Barrier()
                 # On an exception, the output directory needs to be removed.
                 made_output_directory = True
             else:
@@ -95,6 +92,11 @@ class OcgInterpreter(Interpreter):
                 outdir = self.ops.dir_output
 
         try:
+            if made_output_directory:
+                # Block until output directory is created. Most often the zero rank manages writing, but this is not a
+                # requirement.
+                vm.Barrier()
+
             # configure logging ########################################################################################
 
             progress = self._get_progress_and_configure_logging_(outdir, prefix)
-- 
2.43.0


From 9be51d25335763fed1891b552e0a1ad371c9806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 113/156] fix: requests do not remove or overwrite their own
 input files

---
 src/ocgis/conv/base.py       | 35 +++++++++++++++++++++++++++++++++++
 src/ocgis/ops/interpreter.py |  3 ++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 2dad300..77befa1 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -122,6 +122,9 @@ class AbstractCollectionConverter(AbstractFileConverter):
 
         super(AbstractCollectionConverter, self).__init__(**kwargs)
 
+        if self.ops is not None:
+            validate_inputs_are_kept(self.ops, self._get_output_files_())
+
     def __iter__(self):
         for coll in self.colls:
             assert isinstance(coll, SpatialCollection)
@@ -436,3 +439,35 @@ def _write_source_meta_(path, operations):
         for line in to_write:
             f.write(line)
             f.write('\n')
+
+
+def validate_inputs_are_kept(ops, paths):
+    """
+    Data is loaded from source when it is needed. Source files must not be overwritten by the output of the request.
+
+    :param ops: The operations object.
+    :type ops: :class:`~ocgis.OcgOperations`
+    :param paths: Existing files or directories at these paths will be removed or overwritten.
+    :type paths: list[str]
+    :raises: IOError
+    """
+
+    sources = set()
+    for element in ops.dataset:
+        if hasattr(element, 'uri'):
+            uris = [element.uri]
+        else:
+            # Only variables not loaded from source need their file.
+            uris = [v._request_dataset.uri for v in element.values()
+                    if getattr(v, '_request_dataset', None) is not None and not v.has_allocated_value]
+        for uri in uris:
+            for u in get_iter(uri, dtype=six.string_types):
+                if isinstance(u, six.string_types):
+                    sources.add(os.path.realpath(u))
+
+    for path in paths:
+        target = os.path.realpath(path)
+        for source in sources:
+            if source == target or source.startswith(os.path.join(target, '')):
+                msg = 'The output path "{}" contains input data: {}'.format(path, source)
+                raise IOError(msg)
diff --git a/src/ocgis/ops/interpreter.py b/src/ocgis/ops/interpreter.py
index 3cefef7..9561f9d 100644
--- a/src/ocgis/ops/interpreter.py
+++ b/src/ocgis/ops/interpreter.py
@@ -7,7 +7,7 @@ import six
 from ocgis import constants, vm
 from ocgis import exc, env
 from ocgis.base import AbstractOcgisObject
-from ocgis.conv.base import AbstractTabularConverter
+from ocgis.conv.base import AbstractTabularConverter, validate_inputs_are_kept
 from ocgis.conv.meta import AbstractMetaConverter
 from ocgis.ops.engine import OperationsEngine
 from ocgis.ops.parms.definition import OutputFormat
@@ -77,6 +77,7 @@ class OcgInterpreter(Interpreter):
             if self.ops.add_auxiliary_files:
                 # Auxiliary files require that a directory be created.
                 outdir = os.path.join(self.ops.dir_output, prefix)
+                validate_inputs_are_kept(self.ops, [outdir])
                 # Create and/or remove the output directory.
                 if vm.rank == 0:
                     if os.path.exists(outdir):
-- 
2.43.0


From 9389ee8cb5c8b70e5b1f0510cec55e89dd03601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 114/156] fix: prefixes do not name the output directory itself
 or its parents

---
 src/ocgis/ops/parms/definition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 0890193..267cd77 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -1027,6 +1027,12 @@ class Prefix(base.StringParameter):
         msg = 'Data output given the following prefix: {0}.'.format(self.value)
         return msg
 
+    def _validate_(self, value):
+        # The prefix names a file or directory in the output directory. It must not name the output directory itself or
+        # one of its parents.
+        if os.path.basename(value) in ('', os.curdir) or os.pardir in value.split(os.sep):
+            raise DefinitionValidationError(self, 'The prefix is not a valid name: "{}"'.format(value))
+
 
 class RegridDestination(base.AbstractParameter):
     name = 'regrid_destination'
-- 
2.43.0


From 627c0c86518b8a20dc6fc7b67b73aaf14b2049c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 115/156] fix: selection geometries use selection parameters
 assigned later or given in a query

---
 src/ocgis/ops/core.py             | 12 +++++--
 src/ocgis/ops/parms/definition.py | 57 +++++++++++++++++++++++++------
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index 3168c7b..f8d2390 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -212,7 +212,7 @@ class OcgOperations(AbstractOcgisObject):
             except AttributeError:
                 object.__setattr__(self, name, value)
         if self._is_init is False:
-            self._update_dependents_()
+            self._update_dependents_(name=name)
             self._validate_()
 
     def get_base_request_size(self):
@@ -315,9 +315,15 @@ class OcgOperations(AbstractOcgisObject):
     def _get_object_(self, name):
         return object.__getattribute__(self, name)
 
-    def _update_dependents_(self):
-        # the select_ugid parameter must always connect to the geometry selection
+    def _update_dependents_(self, name=None):
         geom = self._get_object_(Geom.name)
+        # The parameters used to interpret the selection geometry must also be applied if they are changed.
+        options = {GeomSelectUid.name: 'select_ugid', GeomSelectSqlWhere.name: GeomSelectSqlWhere.name,
+                   GeomUid.name: GeomUid.name, OutputFormatOptions.name: OutputFormatOptions.name,
+                   AggregateSelection.name: KeywordArgument.UNION}
+        if name in options:
+            geom.update_options(**{options[name]: getattr(self, name)})
+        # the select_ugid parameter must always connect to the geometry selection
         svalue = self._get_object_(GeomSelectUid.name)._value
         geom.select_ugid = svalue
 
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 267cd77..c36e5f0 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -637,6 +637,7 @@ class Geom(base.AbstractParameter):
     _ugid_key = constants.OCGIS_UNIQUE_GEOMETRY_IDENTIFIER
 
     def __init__(self, *args, **kwargs):
+        args = list(args)
         self.select_ugid = kwargs.pop('select_ugid', None)
         self.union = kwargs.pop(KeywordArgument.UNION, False)
         self.geom_select_sql_where = kwargs.pop(GeomSelectSqlWhere.name, None)
@@ -653,16 +654,18 @@ class Geom(base.AbstractParameter):
         if isinstance(self.output_format_options, OutputFormatOptions):
             self.output_format_options = self.output_format_options.value
 
-        if self.output_format_options is not None:
-            self.data_model = self.output_format_options.get(KeywordArgument.DATA_MODEL)
-        else:
-            if self.dataset is not None:
-                self.data_model = list(self.dataset.data_model)[0]
-            else:
-                self.data_model = None
+        if len(args) > 0 and isinstance(args[0], self.__class__):
+            # The geometry parameter may be initialized with an instance of itself. The options used to create the
+            # instance are used unless they are provided.
+            other = args[0]
+            for name in ('select_ugid', 'union', 'geom_select_sql_where', 'geom_uid', 'output_format_options', 'dataset'):
+                if not getattr(self, name):
+                    setattr(self, name, getattr(other, name))
+            args[0] = other._source
+
+        self._set_data_model_()
 
-        args = [self] + list(args)
-        base.AbstractParameter.__init__(*args, **kwargs)
+        base.AbstractParameter.__init__(self, *args, **kwargs)
 
     def __str__(self):
         if self.value is None:
@@ -681,7 +684,41 @@ class Geom(base.AbstractParameter):
             self._value.select_uid = self.select_ugid
         return base.AbstractParameter._get_value_(self)
 
-    value = property(_get_value_, base.AbstractParameter._set_value_)
+    def _set_value_(self, value):
+        # These describe the source of the current value.
+        shp_key, bounds = self._shp_key, self._bounds
+        self._shp_key, self._bounds = None, None
+        try:
+            base.AbstractParameter._set_value_(self, value)
+        except:
+            self._shp_key, self._bounds = shp_key, bounds
+            raise
+        # The value is interpreted again if the options used for its interpretation change.
+        self._source = value
+
+    value = property(_get_value_, _set_value_)
+
+    def _set_data_model_(self):
+        if self.output_format_options is not None:
+            self.data_model = self.output_format_options.get(KeywordArgument.DATA_MODEL)
+        else:
+            if self.dataset is not None:
+                self.data_model = list(self.dataset.data_model)[0]
+            else:
+                self.data_model = None
+
+    def update_options(self, **kwargs):
+        """
+        Update the options used to interpret the geometry value. See the class documentation.
+        """
+        changed = False
+        for name, value in kwargs.items():
+            if getattr(self, name) != value:
+                setattr(self, name, value)
+                changed = True
+        if changed:
+            self._set_data_model_()
+            self.value = self._source
 
     def parse(self, value):
         if type(value) in [list, tuple]:
-- 
2.43.0


From 4e80b24d897b2d9ec32ad17319a396b5f6a549ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 116/156] fix: values for aggregating selections are parsed and
 validated

---
 src/ocgis/ops/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index f8d2390..3fccdf6 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -144,7 +144,7 @@ class OcgOperations(AbstractOcgisObject):
         self.prefix = Prefix(prefix or env.PREFIX)
         self.output_format = OutputFormat(output_format)
         self.output_format_options = OutputFormatOptions(output_format_options)
-        self.agg_selection = agg_selection  # AggregateSelection(agg_selection, output_format=self.output_format)
+        self.agg_selection = AggregateSelection(agg_selection)
         self.geom_select_sql_where = GeomSelectSqlWhere(geom_select_sql_where)
         self.geom_select_uid = GeomSelectUid(geom_select_uid or select_ugid)
         self.geom_uid = GeomUid(geom_uid)
-- 
2.43.0


From f100a552e33f303ad13082a57c28eefa2da2be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 117/156] fix: slices, level ranges and search radii are
 accepted in string form and by assignment

---
 src/ocgis/ops/parms/definition.py | 41 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index c36e5f0..5ed5db8 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -934,6 +934,13 @@ class LevelRange(base.IterableParameter, base.AbstractParameter):
             msg = 'The following level subset was applied to all request datasets: {0}'.format(self.value)
         return msg
 
+    def _parse_string_(self, value):
+        try:
+            ret = float(value)
+        except ValueError:
+            raise DefinitionValidationError(self, 'Level is not a number: "{}"'.format(value))
+        return ret
+
 
 class Melted(base.BooleanParameter):
     """
@@ -1179,6 +1186,13 @@ class SearchRadiusMultiplier(base.AbstractParameter):
             msg = 'No buffering applied to point selection geometries.'
         return msg
 
+    def _parse_string_(self, value):
+        try:
+            ret = float(value)
+        except ValueError:
+            raise DefinitionValidationError(self, 'Not a number: "{}"'.format(value))
+        return ret
+
     def _validate_(self, value):
         if value <= 0:
             raise DefinitionValidationError(self, msg='must be > 0')
@@ -1200,20 +1214,13 @@ class Slice(base.IterableParameter, base.AbstractParameter):
     element_type = [type(None), int, tuple, list, slice]
     unique = False
 
-    def __init__(self, init_value=None):
+    def parse(self, value):
         # If this is a dictionary slice, leave as is and let slice infrastructure handling formatting.
-        if isinstance(init_value, dict):
-            is_dict = True
-            use_init_value = None
+        if isinstance(value, dict):
+            ret = value
         else:
-            is_dict = False
-            use_init_value = init_value
-
-        super(Slice, self).__init__(use_init_value)
-
-        # Set the dictionary slice directly. Do not use the iterable formatting for the list/tuple.
-        if is_dict:
-            self._value = deepcopy(init_value)
+            ret = super(Slice, self).parse(value)
+        return ret
 
     def parse_all(self, values):
         try:
@@ -1240,12 +1247,20 @@ class Slice(base.IterableParameter, base.AbstractParameter):
                 ret = slice(value, None)
             else:
                 ret = slice(value, value + 1)
-        elif type(value) in [list, tuple]:
+        elif type(value) in [list, tuple] and 1 <= len(value) <= 3 and all(
+                [v is None or isinstance(v, (int, np.integer)) for v in value]):
             ret = slice(*value)
         else:
             raise DefinitionValidationError(self, '"{0}" cannot be converted to a slice object'.format(value))
         return ret
 
+    def _parse_string_(self, value):
+        try:
+            ret = int(value)
+        except ValueError:
+            raise DefinitionValidationError(self, '"{0}" cannot be converted to a slice object'.format(value))
+        return ret
+
     def _get_meta_(self):
         if self.value is None:
             ret = 'No slice passed.'
-- 
2.43.0


From f8735edcc1b6427a8203a0c954b8e7191ff2044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 118/156] fix: malformed strings and coordinates are rejected
 with the validation error

---
 src/ocgis/ops/parms/definition.py | 34 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 5ed5db8..703e8cd 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -722,7 +722,9 @@ class Geom(base.AbstractParameter):
 
     def parse(self, value):
         if type(value) in [list, tuple]:
-            if all([isinstance(element, dict) for element in value]):
+            if len(value) == 0:
+                raise DefinitionValidationError(self, 'There are no geometries in the sequence.')
+            elif all([isinstance(element, dict) for element in value]):
                 for ii, element in enumerate(value, start=1):
                     if 'geom' not in element:
                         ocgis_lh(exc=DefinitionValidationError(self, 'Geometry dictionaries must have a "geom" key.'))
@@ -739,6 +741,8 @@ class Geom(base.AbstractParameter):
                 elif len(value) == 4:
                     minx, miny, maxx, maxy = value
                     geom = Polygon(((minx, miny), (minx, maxy), (maxx, maxy), (maxx, miny)))
+                else:
+                    raise DefinitionValidationError(self, 'There must be two or four coordinates.')
                 if not geom.is_valid:
                     raise DefinitionValidationError(self, 'Parsed geometry is not valid.')
                 ret = [{'geom': geom, 'properties': {self._ugid_key: 1}}]
@@ -790,6 +794,8 @@ class Geom(base.AbstractParameter):
             # switch geometry creation based on length. length of 2 is a point otherwise a bounding box
             if len(elements) == 2:
                 geom = Point(elements[0], elements[1])
+            elif len(elements) not in (1, 4):
+                raise DefinitionValidationError(self, 'There must be two or four coordinates.')
             else:
                 minx, miny, maxx, maxy = elements
                 geom = Polygon(((minx, miny),
@@ -798,7 +804,7 @@ class Geom(base.AbstractParameter):
                                 (maxx, miny)))
             if not geom.is_valid:
                 raise DefinitionValidationError(self, 'Parsed geometry is not valid.')
-            ret = [{'geom': geom, 'properties': {'ugid': 1}}]
+            ret = [{'geom': geom, 'properties': {self._ugid_key: 1}}]
             self._bounds = elements
         # try the value as a key or path
         except ValueError:
@@ -1007,7 +1013,11 @@ class OutputCRS(base.AbstractParameter):
         return ret
 
     def _parse_string_(self, value):
-        return CoordinateReferenceSystem(epsg=int(value))
+        try:
+            return CoordinateReferenceSystem(epsg=int(value))
+        # GDAL may be configured to raise exceptions for unknown codes.
+        except (ValueError, RuntimeError):
+            raise DefinitionValidationError(self, 'EPSG code not recognized: "{}"'.format(value))
 
 
 class OutputFormat(base.StringOptionParameter):
@@ -1140,7 +1150,13 @@ class RegridOptions(base.AbstractParameter):
     return_type = [dict]
     _possible_value_mask_types = [type(None), np.ndarray]
 
+    def _parse_string_(self, value):
+        raise DefinitionValidationError(self, 'Options must be a dictionary.')
+
     def _parse_(self, value):
+        if value is None:
+            return value
+
         for key in list(value.keys()):
             if key not in list(self.default.keys()):
                 msg = 'The option "{0}" is not allowed.'.format(key)
@@ -1363,7 +1379,8 @@ class TimeRange(base.IterableParameter, base.AbstractParameter):
                 continue
             else:
                 break
-        assert ret is not None
+        if ret is None:
+            raise DefinitionValidationError(self, 'Time not recognized: "{}"'.format(value))
         return ret
 
 
@@ -1399,9 +1416,12 @@ class TimeRegion(base.AbstractParameter):
         ret = {}
         values = value.split(',')
         for value in values:
-            key, key_value = value.split('~')
-            key_value = key_value.split('|')
-            key_value = [int(e) for e in key_value]
+            try:
+                key, key_value = value.split('~')
+                key_value = key_value.split('|')
+                key_value = [int(e) for e in key_value]
+            except ValueError:
+                raise DefinitionValidationError(self, 'String may not be parsed: "{}".'.format(value))
             ret[key] = key_value
         return ret
 
-- 
2.43.0


From 1d0b0db7b54b941babcf55c853910accb46a5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 119/156] fix: calculation strings in sequences and mixed
 calculations are parsed and validated

---
 src/ocgis/ops/core.py             |  5 +-
 src/ocgis/ops/parms/definition.py | 79 ++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index 3fccdf6..77db540 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -417,6 +417,5 @@ class OcgOperations(AbstractOcgisObject):
                 if self.calc_grouping is not None:
                     msg = 'Calculation groups are not applicable for string function expressions.'
                     _raise_(msg, obj=CalcGrouping)
-            else:
-                for c in self.calc:
-                    c['ref'].validate(self)
+            for c in self.calc:
+                c['ref'].validate(self)
diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 703e8cd..8e986c7 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -128,11 +128,15 @@ class Calc(base.IterableParameter, base.AbstractParameter):
     _required_keys_initial = ('name', 'func')
     _lower_string = False  # Variable names are case-sensitive.
 
-    def __init__(self, *args, **kwargs):
-        # this flag is used by the parser to determine if an eval function has been passed. very simple test for this...
-        # if there is an equals sign in the string then it is considered an eval function
-        self._is_eval_function = False
-        base.AbstractParameter.__init__(self, *args, **kwargs)
+    @property
+    def _is_eval_function(self):
+        # There may be string functions and functions from the registry in the same sequence.
+        return any([self._get_is_eval_definition_(ii) for ii in self.value or []])
+
+    @staticmethod
+    def _get_is_eval_definition_(definition):
+        # Very simple test: If there is an equals sign in the string, then it is considered an eval function.
+        return '=' in definition['func']
 
     def __str__(self):
         if self.value is None:
@@ -151,25 +155,34 @@ class Calc(base.IterableParameter, base.AbstractParameter):
         if self.value is None:
             ret = 'No computations applied.'
         else:
-            if self._is_eval_function:
-                ret = 'An string function representation was used for calculation: "{0}"'.format(self.value[0])
-            else:
-                ret = ['The following computations were applied:']
-                for ii in self.value:
+            ret = []
+            for ii in self.value:
+                if self._get_is_eval_definition_(ii):
+                    ret.append('An string function representation was used for calculation: "{0}"'.format(ii))
+            functions = [ii for ii in self.value if not self._get_is_eval_definition_(ii)]
+            if len(functions) > 0:
+                ret.append('The following computations were applied:')
+                for ii in functions:
                     ret.append('{0}: {1}'.format(ii['name'], ii['ref'].description))
         return ret
 
     def _parse_(self, value):
-        # test if the value is an eval function and set internal flag
-        if '=' in value:
-            self._is_eval_function = True
-        elif isinstance(value, dict) and value.get('func') is not None and '=' in value['func']:
-            self._is_eval_function = True
+        # strings may be elements of a sequence
+        if isinstance(value, six.string_types):
+            value = self._parse_string_(value)
+
+        # test if the value is an eval function
+        if isinstance(value, six.string_types):
+            is_eval_function = True
+        elif isinstance(value, dict):
+            if not isinstance(value.get('func', ''), six.string_types):
+                raise DefinitionValidationError(self, 'The function must be a string: {}'.format(value))
+            is_eval_function = self._get_is_eval_definition_({'func': value.get('func', '')})
         else:
-            self._is_eval_function = False
+            raise DefinitionValidationError(self, 'Not a calculation definition: {}'.format(value))
 
         # format the output dictionary
-        if self._is_eval_function:
+        if is_eval_function:
             # select the function reference...
             try:
                 eval_string = value['func']
@@ -265,6 +278,8 @@ class Calc(base.IterableParameter, base.AbstractParameter):
                 kwds_raw = kwds_raw.split('!')
                 kwds = OrderedDict()
                 for kwd in kwds_raw:
+                    if kwd.count('~') != 1:
+                        raise DefinitionValidationError(self, 'Keyword may not be parsed: "{0}".'.format(kwd))
                     kwd_name, kwd_value = kwd.split('~')
                     try:
                         kwds.update({kwd_name: float(kwd_value)})
@@ -279,26 +294,26 @@ class Calc(base.IterableParameter, base.AbstractParameter):
                 msg = 'String may not be parsed: "{0}".'.format(value)
                 raise DefinitionValidationError(self, msg)
             else:
-                self._is_eval_function = True
                 ret = value
 
         return ret
 
     def _validate_(self, value):
-        if not self._is_eval_function:
-            # get the aliases of the calculations
-            aliases = [ii['name'] for ii in value]
-
-            if len(aliases) != len(set(aliases)):
-                raise DefinitionValidationError(self, 'User-provided calculation aliases must be unique: {0}'.format(
-                    aliases))
-
-            for v in value:
-                if set(v.keys()) != self._required_keys_final:
-                    msg = 'Required keys are: {0}'.format(self._required_keys_final)
-                    raise DefinitionValidationError(self, msg)
-                # run class-level definition
-                v[constants.CALC_KEY_CLASS_REFERENCE].validate_definition(v)
+        value = [ii for ii in value if not self._get_is_eval_definition_(ii)]
+
+        # get the aliases of the calculations
+        aliases = [ii['name'] for ii in value]
+
+        if len(aliases) != len(set(aliases)):
+            raise DefinitionValidationError(self, 'User-provided calculation aliases must be unique: {0}'.format(
+                aliases))
+
+        for v in value:
+            if set(v.keys()) != self._required_keys_final:
+                msg = 'Required keys are: {0}'.format(self._required_keys_final)
+                raise DefinitionValidationError(self, msg)
+            # run class-level definition
+            v[constants.CALC_KEY_CLASS_REFERENCE].validate_definition(v)
 
 
 class CalcGrouping(base.IterableParameter, base.AbstractParameter):
-- 
2.43.0


From 429db18c8e577a307d9088f7e9323d243f310cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 120/156] fix: repeated and conflicting grouping flags are
 rejected

---
 src/ocgis/ops/parms/definition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 8e986c7..539fcd6 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -352,6 +352,8 @@ class CalcGrouping(base.IterableParameter, base.AbstractParameter):
             add_back = None
             for flag in self._flags:
                 if flag in parse_value:
+                    if parse_value.count(flag) > 1 or add_back is not None:
+                        raise DefinitionValidationError(self, 'Only one of the flags is allowed: {}'.format(self._flags))
                     parse_value.remove(flag)
                     add_back = flag
             # Call superclass method to parse the value for iteration
-- 
2.43.0


From 465eed4a8bcf8255d84b23bac56ca0d910c0193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 121/156] fix: fractional geometry identifiers are rejected

---
 src/ocgis/ops/parms/definition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 539fcd6..8f8eb3e 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -902,6 +902,12 @@ class GeomSelectUid(base.IterableParameter, base.AbstractParameter):
     element_type = int
     unique = True
 
+    def _parse_(self, value):
+        # Identifiers are not truncated.
+        if isinstance(value, float) and not value.is_integer():
+            raise DefinitionValidationError(self, 'Identifiers must be integers: {}'.format(value))
+        return value
+
     def _get_meta_(self):
         if self.value is None:
             ret = 'No geometry selection by unique identifier.'
-- 
2.43.0


From fc741dd0e090754b18c116821951478d6207f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 122/156] fix: old output format keys are accepted by
 assignment

---
 src/ocgis/ops/parms/definition.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 8f8eb3e..915e457 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -1048,21 +1048,14 @@ class OutputFormat(base.StringOptionParameter):
     default = constants.OutputFormatName.OCGIS
     valid = list(get_converter_map().keys())
 
-    def __init__(self, init_value=None):
-        try:
-            if isinstance(init_value, six.string_types):
-                init_value = init_value.lower()
-            # Maintain the old CSV-Shapefile output format key.
-            if init_value == 'csv+':
-                init_value = constants.OutputFormatName.CSV_SHAPEFILE
-            # Maintain the old NumPy key.
-            if init_value == 'numpy':
-                init_value = constants.OutputFormatName.OCGIS
-        except AttributeError:
-            # Allow the object to initialized by itself.
-            if not isinstance(init_value, self.__class__):
-                raise
-        super(OutputFormat, self).__init__(init_value=init_value)
+    def _parse_string_(self, value):
+        # Maintain the old CSV-Shapefile output format key.
+        if value == 'csv+':
+            value = constants.OutputFormatName.CSV_SHAPEFILE
+        # Maintain the old NumPy key.
+        if value == 'numpy':
+            value = constants.OutputFormatName.OCGIS
+        return value
 
     @classmethod
     def iter_possible(cls):
-- 
2.43.0


From 6f8a1ff215ed61122ac2957238a10e69e4f369e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 123/156] fix: rejected assignments leave the request unchanged

---
 src/ocgis/ops/core.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index 77db540..6895996 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -203,17 +203,23 @@ class OcgOperations(AbstractOcgisObject):
         return ret
 
     def __setattr__(self, name, value):
-        if isinstance(value, AbstractParameter):
-            object.__setattr__(self, name, value)
-        else:
-            try:
-                attr = object.__getattribute__(self, name)
+        state = self.__dict__.copy()
+        parameters = {k: v.__dict__.copy() for k, v in state.items() if isinstance(v, AbstractParameter)}
+        try:
+            attr = state.get(name)
+            if isinstance(attr, AbstractParameter) and not isinstance(value, AbstractParameter):
                 attr.value = value
-            except AttributeError:
+            else:
                 object.__setattr__(self, name, value)
-        if self._is_init is False:
-            self._update_dependents_(name=name)
-            self._validate_()
+            if self._is_init is False:
+                self._update_dependents_(name=name)
+                self._validate_()
+        except:
+            # Values that are not valid must not remain on the operations.
+            for k, v in parameters.items():
+                state[k].__dict__ = v
+            object.__setattr__(self, '__dict__', state)
+            raise
 
     def get_base_request_size(self):
         """
-- 
2.43.0


From 92b9607d2ef5762b7ffdcfa7a48759d4ea6f9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 124/156] fix: executing a request for netCDF output keeps its
 vector wrapping

---
 src/ocgis/ops/interpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/ops/interpreter.py b/src/ocgis/ops/interpreter.py
index 9561f9d..a0c3bd2 100644
--- a/src/ocgis/ops/interpreter.py
+++ b/src/ocgis/ops/interpreter.py
@@ -69,6 +69,9 @@ class OcgInterpreter(Interpreter):
         # removed.
         made_output_directory = False
 
+        # Executing the request must not change its parameters.
+        vector_wrap = self.ops.vector_wrap
+
         if self.ops.output_format in self._no_directory:
             # No output directory for some formats.
             outdir = None
@@ -149,6 +152,7 @@ class OcgInterpreter(Interpreter):
                 shutil.rmtree(outdir)
             raise
         finally:
+            self.ops._get_object_('vector_wrap').value = vector_wrap
             ocgis_lh.shutdown()
 
             if env.ADD_OPS_MPI_BARRIER:
-- 
2.43.0


From 87281d6b87ec01529d5da2440e2b9ed3449a7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 125/156] fix: lists of different lengths in queries are
 rejected

---
 src/ocgis/ops/parms/definition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 915e457..3e28010 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -553,6 +553,13 @@ class Dataset(base.AbstractParameter):
         for k in keys:
             _update_from_query_dict_(store, k)
 
+        if 'uri' not in store:
+            raise DefinitionValidationError(cls, 'At least one "uri" is required.')
+        for k in store:
+            if len(store[k]) != len(store['uri']):
+                msg = 'The number of values for "{}" must match the number of "uri" values.'.format(k)
+                raise DefinitionValidationError(cls, msg)
+
         rds = []
         for idx in range(len(store['uri'])):
             kwds = {}
-- 
2.43.0


From e8929d61497154714edfa766e039c73ecdd405f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 126/156] fix: slices with a geometry are rejected with the
 validation error

---
 src/ocgis/ops/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ops/core.py b/src/ocgis/ops/core.py
index 6895996..6a751cc 100644
--- a/src/ocgis/ops/core.py
+++ b/src/ocgis/ops/core.py
@@ -406,8 +406,8 @@ class OcgOperations(AbstractOcgisObject):
                     _raise_('Snippets are not implemented for time regions.', obj=Snippet)
 
         # no slicing with a geometry - can easily lead to extent errors
-        if self.slice is not None:
-            assert self.geom is None
+        if self.slice is not None and self.geom is not None:
+            _raise_('Slices are not allowed with a geometry.', obj=Slice)
 
         # file only operations only valid for netCDF and calculations.
         if self.file_only:
-- 
2.43.0


From 9e8a8f29645478c068ef8ab879cdf328e5a041df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 127/156] fix: sequence elements of other types are rejected
 with the validation error

---
 src/ocgis/ops/parms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/ops/parms/base.py b/src/ocgis/ops/parms/base.py
index df924a4..095a5c2 100644
--- a/src/ocgis/ops/parms/base.py
+++ b/src/ocgis/ops/parms/base.py
@@ -286,7 +286,7 @@ class IterableParameter(AbstractOcgisObject):
                 try:
                     ret[idx] = self.element_type(ret[idx])
                 except TypeError:
-                    if type(ret[idx]) not in self.element_type:
+                    if isinstance(self.element_type, type) or type(ret[idx]) not in self.element_type:
                         raise DefinitionValidationError(self, msg_exc.format(self.element_type))
                     else:
                         pass
-- 
2.43.0


From b2c8e199560f04c81fdccec379077cd5cfd2bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 128/156] fix: slicing a field does not change the passed
 slices

---
 src/ocgis/collection/field.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 40844d4..8d6196e 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -578,9 +578,7 @@ class Field(VariableCollection):
             # When strict is False, we don't care about extra dimension names in the slice. This is useful for a general
             # slicing operation such as slicing for time with or without the dimension.
             if not strict:
-                to_pop = [dname for dname in list(dslice.keys()) if dname not in self.dimensions]
-                for dname in to_pop:
-                    dslice.pop(dname)
+                dslice = {dname: v for dname, v in dslice.items() if dname in self.dimensions}
             if distributed:
                 data_variable = self.data_variables[0]
                 data_variable_dimensions = data_variable.dimensions
-- 
2.43.0


From 6601f9c910f7111d3b7d8445b670b41bb4bc6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 129/156] fix: slices with more than five elements are rejected

---
 src/ocgis/ops/parms/definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 3e28010..de1c8cb 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -1262,14 +1262,14 @@ class Slice(base.IterableParameter, base.AbstractParameter):
         return ret
 
     def parse_all(self, values):
-        try:
+        if len(values) == 5:
             new_values = {}
             new_values[DimensionMapKey.REALIZATION] = values[0]
             new_values[DimensionMapKey.TIME] = values[1]
             new_values[DimensionMapKey.LEVEL] = values[2]
             new_values[DimensionMapKey.Y] = values[3]
             new_values[DimensionMapKey.X] = values[4]
-        except IndexError:
+        else:
             # This implies the length is not correct. Let the validater catch this.
             new_values = values
         return new_values
-- 
2.43.0


From 3716cf2f5c7c59131738144c99ee5fb2a05f6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 130/156] fix: distributed dimensions with a single element are
 not emptied on every process

---
 src/ocgis/vmachine/mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..dd38801 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -333,7 +333,7 @@ class OcgDist(AbstractOcgisObject):
                 if len(distributed_dimension) < the_size:
                     the_size = len(distributed_dimension)
                 # Use the minimum number of elements per rank to potentially adjust the size.
-                min_size = int(np.floor(len(distributed_dimension) / float(min_elements)))
+                min_size = max(1, int(np.floor(len(distributed_dimension) / float(min_elements))))
                 if self.size > 1 and min_size < the_size:
                     the_size = min_size
 
-- 
2.43.0


From 1089e9d579eea3bf3a2c3af275ea8e6c93e27e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 131/156] fix: chunk counts exceeding the possible pieces of a
 grid dimension give no empty chunks

---
 src/ocgis/driver/nc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index fb6aae2..bd410be 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -529,7 +529,9 @@ def create_slices_for_dimension(size, splits):
     slices = []
     for rank in range(splits):
         dimension = ompi.get_dimension(dimname, rank=rank)
-        slices.append(dimension.bounds_local)
+        # There may be more splits than possible pieces.
+        if not dimension.is_empty:
+            slices.append(dimension.bounds_local)
     return slices
 
 
-- 
2.43.0


From 80e603f30259574007d97d0d72584a1c29e80d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 132/156] fix: the grouping flags year and unique are accepted
 together

---
 src/ocgis/ops/parms/definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index de1c8cb..0f87433 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -352,8 +352,8 @@ class CalcGrouping(base.IterableParameter, base.AbstractParameter):
             add_back = None
             for flag in self._flags:
                 if flag in parse_value:
-                    if parse_value.count(flag) > 1 or add_back is not None:
-                        raise DefinitionValidationError(self, 'Only one of the flags is allowed: {}'.format(self._flags))
+                    if parse_value.count(flag) > 1:
+                        raise DefinitionValidationError(self, 'Flags may not be repeated: {}'.format(self._flags))
                     parse_value.remove(flag)
                     add_back = flag
             # Call superclass method to parse the value for iteration
-- 
2.43.0


From 6ec50909e3d7415c1c50188851474a316def7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 133/156] fix: a grid chunker does not change the default paths
 for the chunkers created afterwards

---
 src/ocgis/spatial/grid_chunker.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5c08f8f..5132b92 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -149,13 +149,9 @@ class GridChunker(AbstractOcgisObject):
         self.dst_grid._gc_initialize_(RegriddingRole.DESTINATION)
 
         # Construct default paths if None are provided.
+        # The defaults and the dictionary provided must not be changed.
         defaults = constants.GridChunkerConstants.DEFAULT_PATHS
-        if paths is None:
-            paths = defaults
-        else:
-            for k, v in defaults.items():
-                if k not in paths:
-                    paths[k] = v
+        paths = dict(defaults, **({} if paths is None else paths))
         if 'wd' not in paths:
             paths['wd'] = os.getcwd()
         self.paths = paths
-- 
2.43.0


From d2bd62d3ffe1ebf6b28a5c025c650727b0934c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 134/156] fix: masked chunk data stays masked when it is
 inserted in a file with another fill value

---
 src/ocgis/spatial/grid_chunker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5132b92..b7eead8 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -442,7 +442,7 @@ class GridChunker(AbstractOcgisObject):
                         assert not source_data.has_allocated_value
                         with nc.Dataset(dst_master_path, 'a') as ds:
                             ds.variables[data_variable.name][time_index, y_bounds[vidx][0]:y_bounds[vidx][1],
-                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_masked_value()
             elif data_variable.ndim == 2:
                 for vidx, source_path in enumerate(joined):
                     source_path = os.path.join(dst_wd, source_path)
@@ -450,7 +450,7 @@ class GridChunker(AbstractOcgisObject):
                     assert not source_data.has_allocated_value
                     with nc.Dataset(dst_master_path, 'a') as ds:
                         ds.variables[data_variable.name][y_bounds[vidx][0]:y_bounds[vidx][1],
-                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_masked_value()
             else:
                 raise NotImplementedError(data_variable.ndim)
 
-- 
2.43.0


From fd92370ff15fdbbbe1c44c50250e0c65a899c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 135/156] fix: a single piece of a spatial decomposition may be
 requested by index

---
 src/ocgis/spatial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 1d58d14..78100d6 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -792,7 +792,7 @@ def iter_spatial_decomposition(sobj, splits, **kwargs):
         if yield_idx is not None:
             if ctr < yield_idx:
                 continue
-            else:
+            elif ctr > yield_idx:
                 break
         yield sobj.get_intersects(sp, **kwargs)
     # ------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From d127c4409489aa482c83e6dc62273e4bf2d19617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 136/156] fix: wrapping a polygon covering all longitudes gives
 a valid geometry

---
 src/ocgis/spatial/wrap.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/spatial/wrap.py b/src/ocgis/spatial/wrap.py
index 467662c..6618e7d 100644
--- a/src/ocgis/spatial/wrap.py
+++ b/src/ocgis/spatial/wrap.py
@@ -8,6 +8,7 @@ from shapely.geometry.multipoint import MultiPoint
 from shapely.geometry.multipolygon import MultiPolygon
 from shapely.geometry.point import Point
 from shapely.geometry.polygon import Polygon
+from shapely.ops import unary_union
 
 from ocgis.base import AbstractOcgisObject
 from ocgis.util.helpers import make_poly, iter_exploded_geometries
@@ -150,10 +151,7 @@ class GeometryWrapper(AbstractWrapper):
 
             # Convert to a multigeometry if there is more than one output.
             if len(processed_geometries) > 1:
-                # HACK: Union geometries to avoid some potential issues with multi-geometries.
-                # ret = cascaded_union(processed_geometries)
-                ret = MultiPolygon(processed_geometries)
-                # assert ret.is_valid
+                ret = combine_polygons(processed_geometries)
             else:
                 ret = processed_geometries[0]
 
@@ -182,7 +180,7 @@ class GeometryWrapper(AbstractWrapper):
                 # Only polygons are relevant. The intersection may also have lines or points along the wrap axis.
                 left = list(iter_polygons(geom.intersection(self.left_clip)))
                 right = [translate(poly, xoff=-360) for poly in iter_polygons(geom.intersection(self.right_clip))]
-                new_geom = MultiPolygon(left + right)
+                new_geom = combine_polygons(left + right)
             # Otherwise, the polygon coordinates are not affected by wrapping and the geometry may be passed through.
             else:
                 new_geom = geom
@@ -252,6 +250,20 @@ class GeometryWrapper(AbstractWrapper):
         return translate(polygon, xoff=360)
 
 
+def combine_polygons(polygons):
+    """
+    Combine polygons in a single geometry. Polygons sharing an edge are merged. They are no valid multi-geometry.
+
+    :param polygons: Sequence of polygons
+    :rtype: :class:`shapely.geometry.base.BaseGeometry`
+    """
+
+    ret = MultiPolygon(polygons)
+    if not ret.is_valid:
+        ret = unary_union(polygons)
+    return ret
+
+
 def iter_polygons(geom):
     """Yield the single-part polygons of a Shapely geometry object. Other geometry types are skipped."""
 
-- 
2.43.0


From 7edf0944cdb31f365aab78ca4159d1496154dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 137/156] fix: all nodes of an element are read when memory
 optimizations are used

---
 src/ocgis/spatial/geomc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..e538e29 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -389,10 +389,13 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 for comp_coords in mitr:
                     z = None
                     if use_memory_optimizations:
-                        x = xvar[comp_coords].get_value()[0]
-                        y = yvar[comp_coords].get_value()[0]
+                        x = xvar[comp_coords].get_value()
+                        y = yvar[comp_coords].get_value()
                         if has_z:
-                            z = zvar[comp_coords].get_value()[0]
+                            z = zvar[comp_coords].get_value()
+                        # Variables keep their dimensions for scalar indices.
+                        if np.ndim(comp_coords) == 0:
+                            x, y, z = [v if v is None else v[0] for v in (x, y, z)]
                     else:
                         x = x_value[comp_coords]
                         y = y_value[comp_coords]
-- 
2.43.0


From 364b58fa5c494d98c1bacbb8bcbb60517ff2462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 138/156] fix: the element dimension of ESMF unstructured files
 has its standard name without data variables

---
 src/ocgis/driver/nc_esmf_unstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc_esmf_unstruct.py b/src/ocgis/driver/nc_esmf_unstruct.py
index df37323..e600309 100644
--- a/src/ocgis/driver/nc_esmf_unstruct.py
+++ b/src/ocgis/driver/nc_esmf_unstruct.py
@@ -171,7 +171,7 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
 
         num_element_conn = Variable(name='numElementConn',
                                     value=num_element_conn_data,
-                                    dimensions=cindex.dimensions[0],
+                                    dimensions=ret[cindex.name].dimensions[0],
                                     attrs={CFName.LONG_NAME: 'Number of nodes per element.'},
                                     dtype=np.int32)
         ret.add_variable(num_element_conn)
-- 
2.43.0


From d81f3d960b2f2d1480643c508a5c1d3a5387e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 139/156] fix: reducing a mesh keeps the start index and the
 breaks of multi-part elements

---
 src/ocgis/spatial/geomc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e538e29..753f07f 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -656,10 +656,19 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             raise ValueError('A coordinate index is required to reduce coordinates.')
 
         ocgis_lh(msg='starting reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
-        new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
+        mbv = self.multi_break_value
+        if mbv is None:
+            new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
+        else:
+            # Break values do not refer to nodes.
+            new_cindex = self.cindex.get_value().copy()
+            is_node = new_cindex != mbv
+            new_cindex[is_node], uidx = reduce_reindex_coordinate_index(new_cindex[is_node],
+                                                                        start_index=self.start_index)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
-        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions)
+        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions,
+                              attrs=self.cindex.attrs)
 
         ret = self.copy()
         if self.start_index == 1:
-- 
2.43.0


From a7c5307bf29fdb1b3a65ac8627d4d89732f45207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 140/156] fix: geometries of meshes with a start index of one
 keep their parts and the connectivity is not changed

---
 src/ocgis/spatial/geomc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 753f07f..2ef27be 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -376,7 +376,11 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 if cindex is not None:
                     ec_idx = get_element_node_connectivity_by_index(cindex, idx)
                     if start_index > 0:
-                        ec_idx -= start_index
+                        # The connectivity must not be changed and break values are no indices.
+                        if mbv is None:
+                            ec_idx = ec_idx - start_index
+                        else:
+                            ec_idx = np.where(ec_idx == mbv, mbv, ec_idx - start_index)
                 else:
                     ec_idx = idx
 
-- 
2.43.0


From f6211d656e34717b29f6eee2dc434d2fbc926777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 141/156] fix: the mask of SCRIP grids is not replaced by fill
 values when it is written

---
 src/ocgis/driver/nc_scrip.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocgis/driver/nc_scrip.py b/src/ocgis/driver/nc_scrip.py
index 8923775..af2e1fc 100644
--- a/src/ocgis/driver/nc_scrip.py
+++ b/src/ocgis/driver/nc_scrip.py
@@ -6,6 +6,7 @@ from ocgis.constants import DriverKey, DMK, Topology, DecompositionType
 from ocgis.driver.base import AbstractUnstructuredDriver
 from ocgis.driver.nc import DriverNetcdf
 from ocgis.util.helpers import create_unique_global_array
+from ocgis.variable.base import Variable
 from ocgis.vmachine.mpi import hgather
 
 
@@ -93,6 +94,12 @@ class DriverNetcdfSCRIP(AbstractUnstructuredDriver, DriverNetcdf):
             ux = field.grid.x.shape[0]
             uy = field.grid.y.shape[0]
             field['grid_dims'].get_value()[:] = ux, uy
+        # The values of the mask variable are the mask. They must not be replaced by fill values.
+        imask = field.get('grid_imask')
+        if imask is not None and imask.has_mask:
+            field = field.copy()
+            field.add_variable(Variable(name=imask.name, value=imask.get_value(), dimensions=imask.dimensions,
+                                        attrs=imask.attrs), force=True)
         return field
 
     @staticmethod
-- 
2.43.0


From c0a052a79b1b9d5f1a7c39cfcec2b0fba5b96c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 142/156] fix: polygons are split in pieces without overlap and
 only polygons are kept

---
 src/ocgis/variable/geom.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 0f1acac..7eb0fbd 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -91,11 +91,15 @@ class GeometrySplitter(AbstractOcgisObject):
         geometry = self.geometry
         if is_recursing:
             assert isinstance(geometry, Polygon)
-            ret = []
+            # Every piece is split by each interior. The pieces do not overlap and have no interiors.
+            ret = [geometry]
             for interior in self.iter_interiors():
-                split_polygon = self.create_split_polygons(interior)
-                for sp in split_polygon:
-                    ret.append(geometry.intersection(sp))
+                pieces = []
+                for split_polygon in self.create_split_polygons(interior):
+                    for element in ret:
+                        # Parts that are only touched by the splitting polygon are not polygons.
+                        pieces += get_polygons(element.intersection(split_polygon))
+                ret = pieces
         else:
             if isinstance(geometry, MultiPolygon):
                 itr = geometry
@@ -1294,6 +1298,11 @@ def get_node_count(geom):
     return node_count
 
 
+def get_polygons(geom):
+    """Get the polygons of a geometry with any type as a list. Geometry parts which are not polygons are ignored."""
+    return [g for g in getattr(geom, 'geoms', [geom]) if isinstance(g, Polygon) and not g.is_empty]
+
+
 def get_split_polygon_by_node_threshold(geom, node_threshold):
     """Split a polygon by a node threshold."""
     node_schema = get_node_schema(geom)
@@ -1324,8 +1333,8 @@ def get_split_polygon_by_node_threshold(geom, node_threshold):
         for s in n.splitters:
             if n.geom.intersects(s):
                 the_intersection = n.geom.intersection(s)
-                for ti in get_iter(the_intersection, dtype=Polygon):
-                    n.splits.append(ti)
+                # Parts that are only touched by the splitting polygon are not polygons.
+                n.splits += get_polygons(the_intersection)
 
                     # write_fiona(n.splits, '01-splits')
 
-- 
2.43.0


From dcff177174d013394c72ec1fc6742aa4e64aad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 143/156] fix: rectangular connectivity is written in the ESMF
 unstructured format

---
 src/ocgis/driver/nc_esmf_unstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/nc_esmf_unstruct.py b/src/ocgis/driver/nc_esmf_unstruct.py
index e600309..1c4b0e2 100644
--- a/src/ocgis/driver/nc_esmf_unstruct.py
+++ b/src/ocgis/driver/nc_esmf_unstruct.py
@@ -113,7 +113,9 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
 
         cindex = grid.cindex
         elements = cindex.get_value()
-        num_element_conn_data = [e.shape[0] for e in elements.flat]
+        # The connectivity may be a ragged (one-dimensional) or a rectangular array. Its first dimension is the element
+        # dimension in both cases.
+        num_element_conn_data = [e.shape[0] for e in elements]
         length_connection_count = sum(num_element_conn_data)
         esmf_element_conn = np.zeros(length_connection_count, dtype=elements[0].dtype)
         start = 0
@@ -124,7 +126,7 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
         # size for the new array. ######################################################################################
 
         if vm.size > 1:
-            max_index = max([ii.max() for ii in elements.flat])
+            max_index = max([ii.max() for ii in elements])
             if vm.rank == 0:
                 vm.comm.isend(max_index + 1, dest=1, tag=tag_start_index)
                 adjust = 0
@@ -136,7 +138,7 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
 
         # Fill the new vector for the element connectivity. ############################################################
 
-        for ii in elements.flat:
+        for ii in elements:
             if vm.size > 1:
                 if grid.archetype.has_multi:
                     mbv = cindex.attrs[OcgisConvention.Name.MULTI_BREAK_VALUE]
-- 
2.43.0


From 1ef60ffe063e80fa8684c0d9bbfffe190fcdedbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 144/156] fix: strings gathered from several ranks keep their
 length

---
 src/ocgis/vmachine/mpi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index dd38801..a44ad53 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -815,6 +815,10 @@ def variable_gather(variable, root=0):
         gathered_variables = vm.gather(variable)
 
         if vm.rank == root:
+            value_dtypes = [gv.get_value().dtype for gv in gathered_variables]
+            if all([value_dtype.kind in 'OSU' for value_dtype in value_dtypes]):
+                # The default length of strings is one. Use the longest strings from all ranks.
+                new_variable._value = np.zeros(new_variable.shape, dtype=np.result_type(*value_dtypes))
             for idx, gv in enumerate(gathered_variables):
                 destination_slice = [slice(*dim.bounds_local) for dim in gv.dimensions]
                 new_variable.__setitem__(destination_slice, gv)
-- 
2.43.0


From 1c48bbbf8d6ea559701ce428ce2aad245d68fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 145/156] fix: files written in parallel have a fill value if
 data are masked on any rank

---
 src/ocgis/driver/nc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index bd410be..b24421d 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -81,6 +81,8 @@ class DriverNetcdf(AbstractDriver):
 
         file_only = kwargs.pop(KeywordArgument.FILE_ONLY, False)
         unlimited_to_fixed_size = kwargs.pop(KeywordArgument.UNLIMITED_TO_FIXED_SIZE, False)
+        # Names of the variables with masked values on any rank.
+        masked_names = kwargs.pop('masked_names', ())
 
         # No data should be written during a global write. Data will be filled in during the append process.
         if write_mode == MPIWriteMode.TEMPLATE:
@@ -120,7 +122,7 @@ class DriverNetcdf(AbstractDriver):
 
             # Only use the fill value if something is masked.
             is_nc3 = dataset.data_model.startswith('NETCDF3')
-            if ((len(dimensions) > 0 and var.has_masked_values) and (
+            if ((len(dimensions) > 0 and (var.name in masked_names or var.has_masked_values)) and (
                     write_mode == MPIWriteMode.TEMPLATE or not file_only)) or (
                     is_nc3 and not var.has_allocated_value and len(
                 dimensions) > 0) or (env.USE_NETCDF4_MPI and var.has_mask and vm.size > 1):
@@ -198,6 +200,14 @@ class DriverNetcdf(AbstractDriver):
         else:
             possible_ranks = vm.ranks
 
+        if write_mode == MPIWriteMode.TEMPLATE:
+            # The template is written by a single rank. The masked values may be on other ranks.
+            masked_names = vm.gather([v.name for v in get_variables_to_write(vc) if getattr(v, 'has_masked_values', False)])
+            if vm.rank == 0:
+                masked_names = set([name for names in masked_names for name in names])
+            masked_names = vm.bcast(masked_names)
+            variable_kwargs = dict(variable_kwargs, masked_names=masked_names)
+
         # Write the data on each rank.
         for idx, rank_to_write in enumerate(possible_ranks):
             # The template write only occurs on the first rank.
-- 
2.43.0


From a3ce20a4c96032c4bef36d08af217553cd0e230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 146/156] fix: ranks without data for a geometry or dataset
 take part in the following ones

---
 src/ocgis/ops/engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 0897f7b..748d072 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -107,6 +107,9 @@ class OperationsEngine(AbstractOcgisObject):
         # Process the incoming datasets. Convert from request datasets to fields as needed.
         for rds in itr_rd:
 
+            # Ranks without data for the previous dataset may have data for this one.
+            vm.set_comm(self._original_subcomm)
+
             try:
                 msg = 'Processing URI(s): {0}'.format([rd.uri for rd in rds])
             except AttributeError:
@@ -302,9 +305,14 @@ class OperationsEngine(AbstractOcgisObject):
         # The rotated pole field is transformed once for all geometries. Each one must be transformed back.
         original_rotated_pole_crs = None
 
+        # Ranks without data for a geometry may have data for another one.
+        original_subcomm = vm.current_comm_name
+
         # Process each geometry.
         for subset_field in itr:
 
+            vm.set_comm(original_subcomm)
+
             # Initialize the collection storage.
             coll = self._get_initialized_collection_()
             if vm.is_null:
-- 
2.43.0


From 512d1a08167bd740054910dd7cdad7da10cf733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 147/156] fix: ranks without data do not write and all ranks
 agree on the first collection written

---
 src/ocgis/conv/base.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 77befa1..db466ae 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -126,9 +126,21 @@ class AbstractCollectionConverter(AbstractFileConverter):
             validate_inputs_are_kept(self.ops, self._get_output_files_())
 
     def __iter__(self):
+        # The communicator containing all ranks. It may be changed when collections are created.
+        original_subcomm = vm.current_comm_name
+
         for coll in self.colls:
             assert isinstance(coll, SpatialCollection)
-            if not self._allow_empty and coll.is_empty:
+            is_empty = vm.is_null or (not self._allow_empty and coll.is_empty)
+            if vm.size_global > 1:
+                # The collection is skipped if it is empty on all ranks.
+                with vm.scoped_by_name(original_subcomm):
+                    if not vm.is_null:
+                        all_empty = vm.gather(is_empty)
+                        if vm.rank == 0:
+                            is_empty = all(all_empty)
+                        is_empty = vm.bcast(is_empty)
+            if is_empty:
                 continue
             yield coll
 
@@ -234,16 +246,19 @@ class AbstractCollectionConverter(AbstractFileConverter):
                     write_ugeom = True
 
                 if write_ugeom:
-                    self._validate_overwrite_(self._ugeom_path)
+                    # Other ranks may be late and find the file of this write.
                     if vm.rank == 0:
+                        self._validate_overwrite_(self._ugeom_path)
                         if self._add_ugeom_nest:
                             self._get_or_create_shp_folder_()
-                        ugeom_fiona_path = self._ugeom_path
-                    else:
-                        ugeom_fiona_path = None
 
                 build = False
 
+            # There is nothing to write on this rank.
+            if vm.is_null:
+                written_ugeom.update(coll.children.keys())
+                continue
+
             f[KeywordArgument.WRITE_MODE] = write_mode
 
             self._write_coll_(f, self._preformatting_(i, coll))
@@ -254,8 +269,8 @@ class AbstractCollectionConverter(AbstractFileConverter):
                         for ugid, subset_field in list(coll.children.items()):
                             # Several datasets may be subset by the same geometry.
                             if ugid not in written_ugeom:
-                                subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
-                                written_ugeom.add(ugid)
+                                subset_field.write(self._ugeom_path, write_mode=write_mode, driver=DriverVector)
+                written_ugeom.update(coll.children.keys())
 
         # The metadata and dataset descriptor files may only be written if OCGIS operations are present.
         ops = self.ops
-- 
2.43.0


From a17dc5b3e14289971a136380b480f66389f445fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 148/156] fix: columns of CSV files are read from the records
 selected by slices

Lazy columns ignored the selected records, overwrote changed values, failed
for renamed columns and counted lines instead of records.
---
 src/ocgis/driver/csv_.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 1977eb5..95c9bd4 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -6,6 +6,7 @@ from ocgis import vm
 from ocgis.base import raise_if_empty
 from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
 from ocgis.driver.base import driver_scope, AbstractTabularDriver
+from ocgis.variable.base import SourcedVariable
 
 
 class DriverCSV(AbstractTabularDriver):
@@ -22,21 +23,31 @@ class DriverCSV(AbstractTabularDriver):
         if variable.parent is None:
             to_load = [variable]
         else:
-            to_load = list(variable.parent.values())
+            to_load = [v for v in variable.parent.values() if isinstance(v, SourcedVariable) and
+                       v._request_dataset is not None and v._request_dataset.uri == self.rd.uri]
+
+        # Maps the records in the file to the local indices. Slices select records through the source index.
+        dimension = variable.dimensions[0]
+        src_idx = dimension._src_idx
+        if src_idx is None:
+            src_idx = dimension.bounds_local
+        if isinstance(src_idx, tuple):
+            src_idx = range(*src_idx)
+        records = {}
+        for idx_local, idx in enumerate(src_idx):
+            records.setdefault(idx, []).append(idx_local)
 
         with driver_scope(self) as f:
             reader = csv.DictReader(f)
-            bounds_local = variable.dimensions[0].bounds_local
+            # Values already loaded or changed must be kept.
+            to_load = [tl for tl in to_load if not tl.has_allocated_value and tl.source_name in reader.fieldnames and
+                       tl.dimensions[0] == dimension]
+            for tl in to_load:
+                tl.allocate_value()
             for idx, row in enumerate(reader):
-                if idx < bounds_local[0]:
-                    continue
-                else:
-                    if idx >= bounds_local[1]:
-                        break
-                for tl in to_load:
-                    if not tl.has_allocated_value:
-                        tl.allocate_value()
-                    tl.get_value()[idx - bounds_local[0]] = row[tl.name]
+                for idx_local in records.get(idx, []):
+                    for tl in to_load:
+                        tl.get_value()[idx_local] = row[tl.source_name]
         return variable.get_value()
 
     def _get_metadata_main_(self):
@@ -51,7 +62,7 @@ class DriverCSV(AbstractTabularDriver):
             meta['dimensions'] = OrderedDict()
             for varname in variable_names:
                 meta['variables'][varname] = {'name': varname, 'dtype': object, 'dimensions': ('n_records',)}
-            meta['dimensions']['n_records'] = {'name': 'n_records', 'size': sum(1 for _ in f)}
+            meta['dimensions']['n_records'] = {'name': 'n_records', 'size': sum(1 for _ in reader)}
         return meta
 
     @classmethod
-- 
2.43.0


From 9ca4972bafb2299d75e30d5d1c22cba1d654e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 149/156] fix: metadata reports give the type of text variables

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 19d3154..94c473d 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -214,6 +214,9 @@ class ObjectType(object):
             ret = False
         return ret
 
+    def __str__(self):
+        return str(self.dtype)
+
     def create_vltype(self, dataset, name):
         if self.dtype == object:
             msg = 'Object/ragged arrays required a non-object datatype when writing to netCDF.'
-- 
2.43.0


From 77cce36930925c694b3c6dd5da839c5cf1cc019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:22 +0000
Subject: [PATCH 150/156] fix: vector files are written in parallel if all
 geometries of a rank are masked

---
 src/ocgis/driver/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 910843f..f1e2b0c 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -475,6 +475,12 @@ def get_geom_type_for_records(geom_variable, fiona_driver):
     if fiona_driver != 'GeoJSON':
         geoms = [get_homogeneous_geometry(g) for g in geoms]
     geom_types = set([g.geom_type for g in geoms])
+    if vm.size > 1:
+        # Geometries may be masked on some ranks. The type is the same on all ranks.
+        gathered = vm.gather(geom_types)
+        if vm.rank == 0:
+            geom_types = set().union(*gathered)
+        geom_types = vm.bcast(geom_types)
     if len(geom_types) == 1:
         ret = list(geom_types)[0]
     elif len(geom_types) > 1 and fiona_driver == 'GeoJSON':
-- 
2.43.0


From d6ba087cba1fecb48d7a6a5dba362718987fed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 151/156] fix: the default coordinate system may be changed as
 documented

---
 src/ocgis/driver/nc.py               |  5 ++++-
 src/ocgis/driver/nc_esmf_unstruct.py |  5 ++++-
 src/ocgis/driver/nc_scrip.py         |  5 ++++-
 src/ocgis/environment.py             | 12 +++++++++++-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index b24421d..c3316e4 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -360,9 +360,12 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
     """
     key = DriverKey.NETCDF_CF
     _esmf_fileformat = 'GRIDSPEC'
-    _default_crs = env.DEFAULT_COORDSYS
     _priority = True
 
+    @property
+    def _default_crs(self):
+        return env.DEFAULT_COORDSYS
+
     @staticmethod
     def array_resolution(value, axis):
         """See :meth:`ocgis.driver.base.AbstractDriver.array_resolution`"""
diff --git a/src/ocgis/driver/nc_esmf_unstruct.py b/src/ocgis/driver/nc_esmf_unstruct.py
index 1c4b0e2..b36bd35 100644
--- a/src/ocgis/driver/nc_esmf_unstruct.py
+++ b/src/ocgis/driver/nc_esmf_unstruct.py
@@ -16,7 +16,10 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
     key = DriverKey.NETCDF_ESMF_UNSTRUCT
     _esmf_fileformat = 'ESMFMESH'
     _start_index = 1
-    _default_crs = env.DEFAULT_COORDSYS
+
+    @property
+    def _default_crs(self):
+        return env.DEFAULT_COORDSYS
 
     def create_dimension_map(self, group_metadata, strict=False):
         dmap = super(AbstractDriverNetcdfCF, self).create_dimension_map(group_metadata, strict=strict)
diff --git a/src/ocgis/driver/nc_scrip.py b/src/ocgis/driver/nc_scrip.py
index af2e1fc..400ba1c 100644
--- a/src/ocgis/driver/nc_scrip.py
+++ b/src/ocgis/driver/nc_scrip.py
@@ -19,7 +19,10 @@ class DriverNetcdfSCRIP(AbstractUnstructuredDriver, DriverNetcdf):
 
     _esmf_fileformat = 'SCRIP'
     key = DriverKey.NETCDF_SCRIP
-    _default_crs = env.DEFAULT_COORDSYS
+
+    @property
+    def _default_crs(self):
+        return env.DEFAULT_COORDSYS
 
     @staticmethod
     def array_resolution(value, axis):
diff --git a/src/ocgis/environment.py b/src/ocgis/environment.py
index efe07cd..d97e41d 100644
--- a/src/ocgis/environment.py
+++ b/src/ocgis/environment.py
@@ -2,6 +2,7 @@ import logging
 import os
 import subprocess
 import sys
+from copy import deepcopy
 from importlib import import_module
 from warnings import warn
 
@@ -108,6 +109,7 @@ class Environment(AbstractOcgisObject):
 
         self.ops = None
         self._optimize_store = {}
+        self._default_coordsys = None
 
     def __str__(self):
         msg = []
@@ -128,6 +130,9 @@ class Environment(AbstractOcgisObject):
     def __setattr__(self, name, value):
         if isinstance(value, EnvParm) or name in ['ops'] or name.startswith('_'):
             object.__setattr__(self, name, value)
+        elif name == 'DEFAULT_COORDSYS':
+            # The default value is created when it is accessed.
+            self._default_coordsys = value
         else:
             attr = object.__getattribute__(self, name)
             attr.value = value
@@ -138,7 +143,12 @@ class Environment(AbstractOcgisObject):
     def DEFAULT_COORDSYS(self):
         """Here to handle circular imports."""
         from ocgis.variable.crs import CFSpherical
-        return EnvParm('DEFAULT_COORDSYS', CFSpherical())
+        ret = EnvParm('DEFAULT_COORDSYS', CFSpherical())
+        assigned = object.__getattribute__(self, '_default_coordsys')
+        if assigned is not None:
+            # Objects using the coordinate system may modify it.
+            ret.value = deepcopy(assigned)
+        return ret
 
     def configure_logging(self, with_header=True):
         from ocgis.util.logging_ocgis import ocgis_lh
-- 
2.43.0


From dbdef18ffff1c7db3eda4b309368a7ee288c6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 152/156] fix: clipped geometries touching the selection
 elsewhere are polygons

A cell overlapping one part of a selection and touching another one was
clipped to a collection of polygons and lines. Such a result could not be
wrapped or written.
---
 src/ocgis/spatial/geomc.py |  4 ++--
 src/ocgis/spatial/grid.py  |  4 ++--
 src/ocgis/variable/geom.py | 17 ++++++++++++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 2ef27be..03e2e51 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -19,7 +19,7 @@ from ocgis.util.helpers import get_formatted_slice, arange_from_dimension, creat
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import get_dslice, Variable
 from ocgis.variable.dimension import create_distributed_dimension
-from ocgis.variable.geom import GeometryProcessor, GeometryVariable
+from ocgis.variable.geom import GeometryProcessor, GeometryVariable, get_geometry_intersection
 from ocgis.vmachine.mpi import cancel_free_requests
 
 
@@ -591,7 +591,7 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 for idx, intersects_logical, current_geometry in gp.iter_intersects():
                     fill_mask[idx] = not intersects_logical
                     if perform_intersection and intersects_logical:
-                        geometry_fill[idx] = current_geometry.intersection(subset_geom)
+                        geometry_fill[idx] = get_geometry_intersection(current_geometry, subset_geom)
 
             if perform_intersection:
                 if geometry_fill is None:
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index e03a2ba..e7cac29 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -17,7 +17,7 @@ from ocgis.spatial.geomc import AbstractGeometryCoordinates, PolygonGC, PointGC,
 from ocgis.util.helpers import get_formatted_slice, get_iter
 from ocgis.variable.base import get_dslice, get_dimension_lengths
 from ocgis.variable.dimension import Dimension
-from ocgis.variable.geom import GeometryVariable, get_masking_slice, GeometryProcessor
+from ocgis.variable.geom import GeometryVariable, get_masking_slice, GeometryProcessor, get_geometry_intersection
 from ocgis.vmachine.mpi import MPI_SIZE
 from shapely.geometry import Polygon, Point, box
 from shapely.geometry.base import BaseGeometry, BaseMultipartGeometry
@@ -696,7 +696,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 for idx, intersects_logical, current_geometry in gp.iter_intersects():
                     fill_mask[idx] = not intersects_logical
                     if perform_intersection and intersects_logical:
-                        geometry_fill[idx] = current_geometry.intersection(subset_geom)
+                        geometry_fill[idx] = get_geometry_intersection(current_geometry, subset_geom)
 
             if perform_intersection:
                 if geometry_fill is None:
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 7eb0fbd..72eec3e 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -765,7 +765,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 obj.set_value(deepcopy(obj.get_value()))
             obj_value = obj.get_masked_value()
             for idx, geom in iter_array(obj_value, return_value=True):
-                obj_value.data[idx] = geom.intersection(subset_geometry)
+                obj_value.data[idx] = get_geometry_intersection(geom, subset_geometry)
         return ret
 
     def get_iter(self, *args, **kwargs):
@@ -1298,6 +1298,21 @@ def get_node_count(geom):
     return node_count
 
 
+def get_geometry_intersection(geom, subset_geom):
+    """
+    Get the intersection of two geometries. Lines and points where the boundaries only touch are not part of an
+    intersection having polygons. Most operations are not defined for mixed geometry types.
+    """
+    ret = geom.intersection(subset_geom)
+    if ret.geom_type == 'GeometryCollection':
+        polygons = get_polygons(ret)
+        if len(polygons) == 1:
+            ret = polygons[0]
+        elif len(polygons) > 1:
+            ret = MultiPolygon(polygons)
+    return ret
+
+
 def get_polygons(geom):
     """Get the polygons of a geometry with any type as a list. Geometry parts which are not polygons are ignored."""
     return [g for g in getattr(geom, 'geoms', [geom]) if isinstance(g, Polygon) and not g.is_empty]
-- 
2.43.0


From b14976b6962f607030fe130bddef84e35a1cf73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 153/156] fix: longitudes keep their domain between geographic
 coordinate systems

Longitudes above 180 were moved to -180 to 180 point by point if the coordinate
system was changed to another geographic one. Cells and geometries crossing 180
degrees spanned the globe afterwards.
---
 src/ocgis/spatial/base.py  |  6 ++++++
 src/ocgis/variable/crs.py  | 36 ++++++++++++++++++++++++++++++++++++
 src/ocgis/variable/geom.py |  8 ++++++--
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/base.py b/src/ocgis/spatial/base.py
index 78100d6..8e9b871 100644
--- a/src/ocgis/spatial/base.py
+++ b/src/ocgis/spatial/base.py
@@ -587,12 +587,16 @@ class AbstractXYZSpatialContainer(AbstractSpatialContainer):
             src_proj4 = Proj(src_proj4)
             dst_proj4 = Proj(dst_proj4)
 
+            is_geographic = from_crs.is_geographic and to_crs.is_geographic
+
             y = self.y
             x = self.x
 
             value_row = self.y.get_value().reshape(-1)
             value_col = self.x.get_value().reshape(-1)
             tvalue_col, tvalue_row = transform(src_proj4, dst_proj4, value_col, value_row)
+            if is_geographic:
+                tvalue_col = crs.get_aligned_longitude(tvalue_col, value_col)
 
             self.x.set_value(tvalue_col.reshape(self.shape))
             self.y.set_value(tvalue_row.reshape(self.shape))
@@ -601,6 +605,8 @@ class AbstractXYZSpatialContainer(AbstractSpatialContainer):
                 corner_row = y.bounds.get_value().reshape(-1)
                 corner_col = x.bounds.get_value().reshape(-1)
                 tvalue_col, tvalue_row = transform(src_proj4, dst_proj4, corner_col, corner_row)
+                if is_geographic:
+                    tvalue_col = crs.get_aligned_longitude(tvalue_col, corner_col)
                 y.bounds.set_value(tvalue_row.reshape(y.bounds.shape))
                 x.bounds.set_value(tvalue_col.reshape(x.bounds.shape))
             else:
diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index f2f0240..0bbea3a 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -9,6 +9,7 @@ from fiona.crs import from_string, to_string
 from shapely.geometry import Point, Polygon, box
 from shapely.geometry.base import BaseMultipartGeometry
 from shapely.geometry.multipolygon import MultiPolygon
+from shapely.ops import transform as shapely_transform
 
 from ocgis import constants
 from ocgis.base import AbstractInterfaceObject, raise_if_empty, AbstractOcgisObject
@@ -1248,6 +1249,41 @@ def create_crs(value, **kwargs):
     return ret
 
 
+def get_aligned_longitude(longitude, source):
+    """
+    Move longitudes by multiples of 360 degrees to be next to the source longitudes. Projection libraries return
+    longitudes between -180 and 180 only. This would disconnect neighboring coordinates on other domains (i.e. 0 to 360).
+
+    :param longitude: The longitudes to move.
+    :type longitude: :class:`numpy.ndarray`
+    :param source: The source longitudes before changing the coordinate system.
+    :type source: :class:`numpy.ndarray`
+    :rtype: :class:`numpy.ndarray`
+    """
+
+    longitude, source = np.asarray(longitude), np.asarray(source)
+    turns = np.zeros(longitude.shape)
+    select = np.isfinite(longitude) & np.isfinite(source)
+    turns[select] = np.round((source[select] - longitude[select]) / 360.)
+    return longitude + 360. * turns
+
+
+def get_aligned_geometry(geom, source):
+    """See :func:`~ocgis.variable.crs.get_aligned_longitude`. Geometries must have the same structure."""
+
+    source_longitudes = []
+
+    def _collect_(x, *args):
+        source_longitudes.append(np.array(x))
+        return (x,) + args
+
+    def _align_(x, *args):
+        return (get_aligned_longitude(x, source_longitudes.pop(0)),) + args
+
+    shapely_transform(_collect_, source)
+    return shapely_transform(_align_, geom)
+
+
 def get_lonlat_rotated_pole_transform(lon, lat, transform, inverse=False, is_vectorized=False):
     """
     Transform longitude and latitude coordinates to/from their rotated pole representation.
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 72eec3e..ce916a1 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -27,7 +27,7 @@ from ocgis.util.helpers import iter_array, get_trimmed_array_by_mask, get_swap_c
     iter_exploded_geometries, get_iter
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import get_dimension_lengths, ObjectType
-from ocgis.variable.crs import Cartesian
+from ocgis.variable.crs import Cartesian, get_aligned_geometry
 from ocgis.variable.dimension import create_distributed_dimension, Dimension
 from ocgis.variable.iterator import Iterator
 
@@ -1102,6 +1102,7 @@ class GeometryVariable(AbstractSpatialVariable):
             r_create = ogr.CreateGeometryFromWkb
             to_sr = to_crs.sr
             from_sr = from_crs.sr
+            is_geographic = from_crs.is_geographic and to_crs.is_geographic
 
             the_mask = self.get_mask()
             if the_mask is not None:
@@ -1122,7 +1123,10 @@ class GeometryVariable(AbstractSpatialVariable):
                 ogr_geom = r_create(geom_wkb)
                 ogr_geom.AssignSpatialReference(from_sr)
                 ogr_geom.TransformTo(to_sr)
-                r_value[idx] = r_loads(ogr_geom.ExportToWkb())
+                to_geom = r_loads(ogr_geom.ExportToWkb())
+                if is_geographic and not geom.is_empty and (geom.bounds[0] <= -180. or geom.bounds[2] >= 180.):
+                    to_geom = get_aligned_geometry(to_geom, geom)
+                r_value[idx] = to_geom
             self.set_value(new_value)
         # Even if coordinate systems are measured equivalent, for consistency the new crs is the destination CRS.
         self.crs = to_crs
-- 
2.43.0


From 8ed5c49707433766afe43caea6bf980563bde0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 154/156] fix: clipping a grid does not fail if all cells of a
 rank between others are masked

---
 src/ocgis/spatial/grid.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index e7cac29..33f6432 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -682,11 +682,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                 sliced_grid.set_mask(None)
         else:
             fill_mask = original_mask
-            geometry_fill = None
+            if perform_intersection:
+                # In parallel, everything may be masked on a rank between ranks with unmasked elements.
+                geometry_fill = np.zeros(fill_mask.shape, dtype=object)
             # If everything is masked, there is no reason to load the grid geometries.
             if not original_mask.all():
-                if perform_intersection:
-                    geometry_fill = np.zeros(fill_mask.shape, dtype=object)
                 if vm.size > 1:
                     new_intersects_target = subset_geom.intersection(box(*self.extent).buffer(1e-6))
                 else:
@@ -699,17 +699,10 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                         geometry_fill[idx] = get_geometry_intersection(current_geometry, subset_geom)
 
             if perform_intersection:
-                if geometry_fill is None:
-                    if use_bounds:
-                        name = self._polygon_name
-                    else:
-                        name = self._point_name
-                    geometry_variable = GeometryVariable(name=name)
+                if use_bounds:
+                    geometry_variable = ret.get_polygon(value=geometry_fill, mask=fill_mask)
                 else:
-                    if use_bounds:
-                        geometry_variable = ret.get_polygon(value=geometry_fill, mask=fill_mask)
-                    else:
-                        geometry_variable = ret.get_point(value=geometry_fill, mask=fill_mask)
+                    geometry_variable = ret.get_point(value=geometry_fill, mask=fill_mask)
                 ret.parent.add_variable(geometry_variable, force=True)
 
             sliced_grid, sliced_mask, the_slice = get_masking_slice(fill_mask, ret, apply_slice=apply_slice)
-- 
2.43.0


From b86ab0dba55a86d4e1bb5d8498d5f9928429a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 155/156] fix: distributed dimensions respect undefined and
 negative indices and steps of slices

The documented request for the last time step failed and steps were ignored
if the sliced dimension was distributed.
---
 src/ocgis/variable/base.py      |  6 ++----
 src/ocgis/variable/dimension.py | 32 +++++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 94c473d..e6d6eb2 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -26,7 +26,7 @@ from ocgis.util.units import get_units_object, get_conformed_units
 from ocgis.variable.attributes import Attributes
 from ocgis.variable.dimension import Dimension
 from ocgis.variable.iterator import Iterator
-from ocgis.vmachine.mpi import create_nd_slices, get_global_to_local_slice
+from ocgis.vmachine.mpi import create_nd_slices
 
 
 @six.add_metaclass(abc.ABCMeta)
@@ -1279,9 +1279,7 @@ class Variable(AbstractContainer, Attributes):
                 slc_idx = slc[idx]
                 if isinstance(slc_idx, slice):
                     if slc_idx != slice(None):
-                        local_slc_args = get_global_to_local_slice([slc_idx.start, slc_idx.stop],
-                                                                   dimensions[idx].bounds_local)
-                        local_slc[idx] = slice(*local_slc_args)
+                        local_slc[idx] = dimensions[idx].get_local_slice(slc_idx)
                 else:
                     # Allow for fancy slicing.
                     if slc_idx.dtype == bool:
diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index fb455ab..c41960d 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -318,9 +318,7 @@ class Dimension(AbstractNamedObject):
             if is_fancy:
                 local_slc = slc
             else:
-                local_slc = get_global_to_local_slice((slc.start, slc.stop), self.bounds_local)
-                if local_slc is not None:
-                    local_slc = slice(*local_slc)
+                local_slc = self.get_local_slice(slc)
             # Slice does not overlap local bounds. The dimension is now empty with size 0.
             if local_slc is None:
                 ret = self.copy()
@@ -364,6 +362,34 @@ class Dimension(AbstractNamedObject):
                         adjust = vm.bcast(adjust, root=current_rank)
         return ret
 
+    def get_local_slice(self, slc):
+        """
+        Convert a global to a local slice. Undefined and negative indices are relative to the global size. If the slice
+        does not overlap the local bounds, ``None`` will be returned.
+
+        :param slice slc: The global slice.
+        :rtype: slice | None
+        """
+
+        # Without local bounds, all elements are local. The global bounds may be from before the dimension was sliced.
+        size_global = len(self) if self._bounds_local is None else self.bounds_global[1]
+        start, stop, step = slc.indices(size_global)
+        if step < 0:
+            if self.bounds_local != (0, size_global):
+                raise NotImplementedError('Distributed dimensions may not be reversed.')
+            return slc
+
+        ret = get_global_to_local_slice((start, stop), self.bounds_local)
+        if ret is not None:
+            local_start, local_stop = ret
+            # The first local index is a multiple of steps away from the global start.
+            local_start += (start - self.bounds_local[0] - local_start) % step
+            if step > 1 and local_start >= local_stop and start < stop:
+                ret = None
+            else:
+                ret = slice(local_start, local_stop, step if step > 1 else None)
+        return ret
+
     def set_size(self, value, src_idx=None):
         """
         Set the dimension's size.
-- 
2.43.0


From a6d520da53fb0af721a1652d64d709517b8e7aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:57 +0000
Subject: [PATCH 156/156] fix: slicing a variable outside of its dimension
 raises an index error

---
 src/ocgis/variable/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index e6d6eb2..e4d3a70 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1280,6 +1280,8 @@ class Variable(AbstractContainer, Attributes):
                 if isinstance(slc_idx, slice):
                     if slc_idx != slice(None):
                         local_slc[idx] = dimensions[idx].get_local_slice(slc_idx)
+                        if local_slc[idx] is None:
+                            raise IndexError('The slice {} selects no elements of dimension "{}".'.format(slc_idx, dimensions[idx].name))
                 else:
                     # Allow for fancy slicing.
                     if slc_idx.dtype == bool:
-- 
2.43.0

