From e426ed92980025f16a50b2029dbce354943c52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 01/57] fix: multi-output ufuncs (divmod, modf, frexp) on
 unmasked rasters

The empty mask was derived from the tuple of outputs, which raised a
TypeError for every unmasked raster.
---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 86d0845..67300a6 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -227,7 +227,7 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
     xr_out = ufunc(*ufunc_args, **kwargs)
     multi_out = ufunc.nout > 1
     if not masked:
-        mask = get_mask_from_data(xr_out, None)
+        mask = get_mask_from_data(xr_out[0] if multi_out else xr_out, None)
         if not multi_out:
             xmask = xr.DataArray(mask, dims=xr_out.dims, coords=xr_out.coords)
             xr_out = xr_out.rio.write_nodata(None)
-- 
2.43.0


From c2108e1ba63d577d4ea2c5b7dcc9fb40ae166be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 02/57] fix: keep mask chunks aligned with data chunks in ufunc
 results

Combining a masked raster with a differently chunked dask array gave a
result whose mask kept the old chunks, which broke to_points and
to_polygons.
---
 raster_tools/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 67300a6..004de86 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -240,6 +240,8 @@ def _apply_ufunc(ufunc, this, left, right=None, kwargs=None, out=None):
             ds_out = [make_raster_ds(x, xmask) for x in xr_out]
     else:
         xmask = merge_masks([r.xmask for r in args if isinstance(r, Raster)])
+        # An operand without a mask may have finer chunks than the mask
+        xmask = xmask.chunk((xr_out[0] if multi_out else xr_out).chunksizes)
         if not multi_out:
             nv = get_default_null_value(xr_out.dtype)
             xr_out = xr.where(xmask, nv, xr_out).rio.write_nodata(nv)
-- 
2.43.0


From b7f554b7c16b8c38ff45a0036ac92e25bef145b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 03/57] fix: set_null_value(NaN) on 64-bit integer rasters

---
 raster_tools/dtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/dtypes.py b/raster_tools/dtypes.py
index ffbfaa2..8bda1e7 100644
--- a/raster_tools/dtypes.py
+++ b/raster_tools/dtypes.py
@@ -191,8 +191,9 @@ INT_DTYPE_TO_FLOAT_DTYPE = {
     U8: F16,
     U16: F32,
     U32: F64,
+    U64: F64,
     I8: F16,
     I16: F32,
     I32: F64,
-    F64: F64,
+    I64: F64,
 }
-- 
2.43.0


From 6b84b4c1b0e512605921c888ccffc22efe5d9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 04/57] fix: astype ignored or mis-applied a new null value
 close to the old one

---
 raster_tools/raster.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 004de86..6c58d67 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1908,9 +1908,10 @@ class Raster(_RasterBase):
 
         xrs_casted = xrs.astype(dtype)
         if new_null_value is not None:
-            if self._masked and not np.allclose(
-                new_null_value, self.null_value, equal_nan=True
-            ):
+            keep_nan = is_float(dtype) and all(
+                v is not None and np.isnan(v) for v in (nv, new_null_value)
+            )
+            if self._masked and not keep_nan:
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
-- 
2.43.0


From b4366255026e45ff114fcba35d6fae09834a985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 05/57] fix: set_null_value(NaN) on boolean rasters

---
 raster_tools/raster.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 6c58d67..3fdfa50 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -33,7 +33,6 @@ from raster_tools.dtypes import (
     I16,
     I32,
     I64,
-    INT_DTYPE_TO_FLOAT_DTYPE,
     U8,
     U16,
     U32,
@@ -2050,8 +2049,8 @@ class Raster(_RasterBase):
         dtype = self.dtype
         new_dtype = None
         if np.isnan(value):
-            if is_int(dtype):
-                new_dtype = INT_DTYPE_TO_FLOAT_DTYPE[dtype]
+            if not is_float(dtype):
+                new_dtype = promote_dtype_to_float(dtype)
             # else do nothing
         elif is_int(value) and is_float(dtype):
             # INFO: Numpy refuses to let small int values be put in small float
-- 
2.43.0


From 176496481f26393618a4f6bf21c393e01c341a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 06/57] fix: burn_mask on boolean rasters whose null value is
 False

---
 raster_tools/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 3fdfa50..d3449fa 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2149,7 +2149,7 @@ class Raster(_RasterBase):
 
         Use this as a way to return the underlying data to a known state. If
         dtype is boolean, the null cells are set to ``True`` instead of
-        promoting to fit the null value.
+        promoting to fit the null value, unless the null value is ``False``.
         """
         if not self._masked:
             return self.copy()
@@ -2157,7 +2157,7 @@ class Raster(_RasterBase):
         if is_bool(self.dtype):
             # Sanity check to make sure that boolean rasters get a boolean null
             # value
-            nv = get_default_null_value(self.dtype)
+            nv = bool(nv)
         out_raster = self.copy()
         # Work with .data to avoid dropping attributes caused by using xarray
         # and rioxarrays' APIs
-- 
2.43.0


From 793b2fb40162589807b3c6010b642fc551ee1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 07/57] fix: local argmin/argmax when the only valid values are
 infinite

---
 raster_tools/stat_common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raster_tools/stat_common.py b/raster_tools/stat_common.py
index 97af789..b4e6973 100644
--- a/raster_tools/stat_common.py
+++ b/raster_tools/stat_common.py
@@ -184,13 +184,13 @@ def nanargmin_jit(x):
         return -2
     x = x.ravel()
     nan_mask = nan_mask.ravel()
-    j = 0
+    j = -1
     min_val = np.inf
     for i in range(x.size):
         v = x[i]
         if nan_mask[i]:
             continue
-        if v < min_val:
+        if j < 0 or v < min_val:
             j = i
             min_val = v
     return j
@@ -208,13 +208,13 @@ def nanargmax_jit(x):
         return -2
     x = x.ravel()
     nan_mask = nan_mask.ravel()
-    j = 0
+    j = -1
     max_val = -np.inf
     for i in range(x.size):
         v = x[i]
         if nan_mask[i]:
             continue
-        if v > max_val:
+        if j < 0 or v > max_val:
             j = i
             max_val = v
     return j
-- 
2.43.0


From b662378c04daa07a7d1605aa68f400c500e38c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 08/57] fix: local_stats on unmasked rasters and on 8-bit and
 float16 rasters

---
 raster_tools/general.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a9d6e95..9446d86 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -708,6 +708,9 @@ def local_stats(raster, stype):
 
     xdata = raster.xdata.copy()
     xmask = raster.xmask
+    if xdata.dtype == F16:
+        # numba does not support f16 and it is too small to hold sums, etc.
+        xdata = xdata.astype(F32)
     if stype in _LOCAL_STYPE_TO_NUMPY_FUNC:
         xdata = xdata.reduce(
             _LOCAL_STYPE_TO_NUMPY_FUNC[stype], dim="band", keepdims=True
@@ -716,6 +719,8 @@ def local_stats(raster, stype):
         data = xdata.data
         xdata = empty_like(raster.get_bands(1)).xdata
         xdata.data = _local(data, stype)
+    if orig_dtype == F16 and stype in ("max", "min", "mode"):
+        xdata = xdata.astype(orig_dtype)
     if raster._masked:
         xmask = xmask.reduce(
             np.all,
@@ -723,9 +728,8 @@ def local_stats(raster, stype):
             keepdims=True,
         )
     else:
-        xmask = xr.zeros_like(xmask, dtype=bool)
+        xmask = xr.zeros_like(xdata, dtype=bool)
 
-    ds_out = dataarray_to_xr_raster_ds(xdata, xmask)
     if raster._masked:
         if stype in ("unique", "minband", "maxband"):
             xdata = xdata.astype(_get_unique_dtype(xdata.dtype))
-- 
2.43.0


From 9a350bbcd054b74b488ce0e259295fee229ade7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 09/57] fix: aggregate on 8-bit and float16 rasters

---
 raster_tools/general.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 9446d86..1933cd2 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -298,6 +298,9 @@ def aggregate(raster, expand_cells, stype):
 
     xdata = raster.xdata
     xmask = raster.xmask
+    if xdata.dtype == F16:
+        # numba does not support f16 and it is too small to hold sums, etc.
+        xdata = xdata.astype(F32)
     dim_map = {"y": expand_cells[0], "x": expand_cells[1]}
     xdatac = xdata.coarsen(dim=dim_map, boundary="trim")
     if stype in _COARSEN_STYPE_TO_FUNC:
@@ -306,7 +309,9 @@ def aggregate(raster, expand_cells, stype):
         custom_stat_func = _COARSEN_STYPE_TO_CUSTOM_FUNC[stype]
         check_nan = stype == "mode"
         out_dtype = _get_coarsen_dtype(
-            stype, np.prod(expand_cells), orig_dtype
+            stype,
+            np.prod(expand_cells),
+            orig_dtype if orig_dtype != F16 else F32,
         )
         # Use partial because reduce seems to be bugged and grabs kwargs that
         # it shouldn't.
@@ -318,6 +323,8 @@ def aggregate(raster, expand_cells, stype):
                 check_nan=check_nan,
             )
         )
+    if orig_dtype == F16 and stype in ("max", "min", "mode"):
+        xdata = xdata.astype(orig_dtype)
     if raster._masked:
         # Coarsen mask as well
         xmask = raster.xmask.coarsen(dim=dim_map, boundary="trim").all()
-- 
2.43.0


From aabbd57f98c97aa175d19a1caa9ee2a1269c95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 10/57] fix: remap_range with float16 bounds, values or null
 values

---
 raster_tools/general.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 1933cd2..11d867d 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1108,6 +1108,14 @@ def remap_range(raster, mapping, inclusivity="left"):
         [[s, e] for s, e in zip(map_starts, map_ends, strict=True)]
     )
     new_values = np.array([v if v is not None else nv for v in map_outs])
+    if start_end_values.dtype == F16:
+        start_end_values = start_end_values.astype(F32)
+    if new_values.dtype == F16:
+        new_values = new_values.astype(F32)
+    # Can't pass None or f16 objects to numba code
+    numba_nv = 0 if nv is None else nv
+    if isinstance(numba_nv, np.float16):
+        numba_nv = float(numba_nv)
 
     data = raster.data
     mask = raster.mask
@@ -1122,8 +1130,7 @@ def remap_range(raster, mapping, inclusivity="left"):
         _remap_values,
         data,
         mask,
-        # Can't pass None object to numba code
-        null=0 if nv is None else nv,
+        null=numba_nv,
         start_end_values=start_end_values,
         new_values=new_values,
         inclusivity=inc_map[inclusivity],
-- 
2.43.0


From e369997f36433bf9e0633cb87321f71292f4e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 11/57] fix: reclassify modified the caller's mapping

---
 raster_tools/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 11d867d..ba3e1a3 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1350,6 +1350,9 @@ def _get_remapping(mapping):
         raise TypeError(
             f"Remapping must be a str or dict. Got: {type(mapping)!r}"
         )
+    else:
+        # The mapping gets modified so don't alter the caller's object
+        mapping = dict(mapping)
     return mapping
 
 
-- 
2.43.0


From ec426150ac345b41ebaa2110ba91d6d694222e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 12/57] fix: reclassify on or to float16

---
 raster_tools/general.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index ba3e1a3..f9f5f74 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1402,20 +1402,30 @@ def reclassify(raster, remapping, unmapped_to_null=False):
             remapping[k] = nv
             masked = True
 
+    # numba doesn't understand f16 so use f32 and then downcast
+    f16_workaround = out_dtype == F16
+    data = raster.data
+    if data.dtype == F16:
+        data = data.astype(F32)
+    chunk_dtype = F32 if f16_workaround else out_dtype
     mapping_from = np.array(list(remapping))
-    mapping_to = np.array(list(remapping.values())).astype(out_dtype)
+    if mapping_from.dtype == F16:
+        mapping_from = mapping_from.astype(F32)
+    mapping_to = np.array(list(remapping.values())).astype(chunk_dtype)
     data = da.map_blocks(
         _reclassify_chunk,
-        raster.data,
+        data,
         raster.mask,
         mapping_from=mapping_from,
         mapping_to=mapping_to,
         unmapped_to_null=unmapped_to_null,
-        null=nv,
-        out_dtype=out_dtype,
-        dtype=out_dtype,
-        meta=np.array((), dtype=out_dtype),
+        null=float(nv) if isinstance(nv, np.float16) else nv,
+        out_dtype=chunk_dtype,
+        dtype=chunk_dtype,
+        meta=np.array((), dtype=chunk_dtype),
     )
+    if f16_workaround:
+        data = data.astype(F16)
     if not masked:
         nv = None
     return data_to_raster_like(data, raster, nv=nv)
-- 
2.43.0


From c4fef28b7b06d66e3675aa0948be307f7790c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:19 +0000
Subject: [PATCH 13/57] fix: where wrapped scalars that do not fit in the
 raster's type

---
 raster_tools/general.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index f9f5f74..7a00e4e 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1234,6 +1234,11 @@ def where(condition, true_rast, false_rast):
     masked |= any(a is None for a in args)
 
     x, y = args
+    # numpy treats python scalars as weak when promoting. Find the type that
+    # can hold all of the values so that they don't get wrapped or truncated.
+    out_dtype = get_common_dtype(
+        [a.dtype if isinstance(a, Raster) else a for a in args if a is not None]
+    )
     cd = condition.xdata
     if is_int(condition.dtype):
         # if condition.dtype is not bool then must be an int raster so
@@ -1246,13 +1251,9 @@ def where(condition, true_rast, false_rast):
             x = nv
         if y is None:
             y = nv
-        if all(is_scalar(a) for a in (x, y)):
-            dtype = get_common_dtype((x, y))
-            x = dtype.type(x)
-            y = dtype.type(y)
         cd = xr.where(condition.xmask, False, cd)
-        xd = getattr(x, "xdata", x)
-        yd = getattr(y, "xdata", y)
+        xd = x.xdata if isinstance(x, Raster) else out_dtype.type(x)
+        yd = y.xdata if isinstance(y, Raster) else out_dtype.type(y)
         cm = condition.xmask
         xm = getattr(x, "xmask", False)
         ym = getattr(y, "xmask", False)
@@ -1264,9 +1265,10 @@ def where(condition, true_rast, false_rast):
         mask = data == nv if not np.isnan(nv) else np.isnan(data)
         data = data.rio.write_nodata(nv)
     else:
-        xd = getattr(x, "xdata", x)
-        yd = getattr(y, "xdata", y)
-        data = xr.where(cd, xd, yd)
+        if any(isinstance(a, Raster) for a in args):
+            x = x.xdata if isinstance(x, Raster) else out_dtype.type(x)
+            y = y.xdata if isinstance(y, Raster) else out_dtype.type(y)
+        data = xr.where(cd, x, y)
         mask = xr.zeros_like(data, dtype=bool)
     ds = dataarray_to_xr_raster_ds(data, mask)
     if out_crs is not None:
-- 
2.43.0


From 98e57d4a803129223d94c8025f961803399d8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 14/57] fix: dilate/erode on bool, float16, 64-bit ints,
 infinities and unmasked rasters

---
 raster_tools/general.py | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 7a00e4e..79052a4 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -749,12 +749,31 @@ def local_stats(raster, stype):
     return Raster(ds_out, _fast_path=True)
 
 
+def _grey_morph_op_exact(x, shape, cval, morph_op):
+    # scipy uses doubles internally, which can't represent all 64-bit ints
+    if morph_op == "dilation":
+        pads = [((n - 1) // 2, n // 2) for n in shape]
+        func = np.max
+    else:
+        pads = [(n // 2, (n - 1) // 2) for n in shape]
+        func = np.min
+    x = np.pad(x, pads, constant_values=cval)
+    return func(np.lib.stride_tricks.sliding_window_view(x, shape), axis=(2, 3))
+
+
 def _morph_op_chunk(x, footprint, cval, morph_op, binary=False):
     if x.ndim > 2:
         x = x[0]
     if not binary:
-        morph_func = grey_dilation if morph_op == "dilation" else grey_erosion
-        out = morph_func(x, footprint=footprint, mode="constant", cval=cval)
+        if x.dtype in (I64, U64):
+            out = _grey_morph_op_exact(x, footprint.shape, cval, morph_op)
+        else:
+            morph_func = (
+                grey_dilation if morph_op == "dilation" else grey_erosion
+            )
+            out = morph_func(
+                x, footprint=footprint, mode="constant", cval=cval
+            )
     else:
         morph_func = (
             binary_dilation if morph_op == "dilation" else binary_erosion
@@ -783,13 +802,20 @@ def _get_footprint(size):
 
 
 def _get_fill(dtype, op):
-    type_info = np.iinfo(dtype) if is_int(dtype) else np.finfo(dtype)
+    if is_bool(dtype):
+        return op == "erosion"
+    if is_float(dtype):
+        return np.inf if op == "erosion" else -np.inf
+    type_info = np.iinfo(dtype)
     return type_info.max if op == "erosion" else type_info.min
 
 
 def _erosion_or_dilation_filter(raster, footprint, op):
     data = raster.data
     fill = _get_fill(raster.dtype, op)
+    if data.dtype == F16:
+        # scipy does not support f16
+        data = data.astype(F32)
     if raster._masked:
         data = da.where(raster.mask, fill, data)
     rpad, cpad = _get_offsets(footprint.shape)
@@ -806,9 +832,10 @@ def _erosion_or_dilation_filter(raster, footprint, op):
         data,
         depth=depth,
         boundary=fill,
-        dtype=raster.dtype,
-        meta=np.array((), dtype=raster.dtype),
+        dtype=data.dtype,
+        meta=np.array((), dtype=data.dtype),
     )
+    data = data.astype(raster.dtype)
     mask = raster.mask
     if raster._masked:
         mask = da.map_overlap(
@@ -828,7 +855,8 @@ def _erosion_or_dilation_filter(raster, footprint, op):
         mask = ~mask
         data = da.where(mask, raster.null_value, data)
     else:
-        mask = mask.copy()
+        # Passing a mask would cause a null value to be added
+        mask = None
     ds_out = data_to_xr_raster_ds_like(
         data, raster.xdata, mask=mask, nv=raster.null_value
     )
-- 
2.43.0


From 52531e7cebe9241630ccb8cfe7cc39fe1510fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 15/57] fix: astype with a NaN null value burned another value
 than NaN

---
 raster_tools/raster.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index d3449fa..6692298 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1914,9 +1914,12 @@ class Raster(_RasterBase):
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
                     try:
-                        nv = reconcile_nullvalue_with_dtype(
-                            new_null_value, dtype, warn=True
-                        )
+                        if is_float(dtype) and np.isnan(new_null_value):
+                            nv = dtype.type(new_null_value)
+                        else:
+                            nv = reconcile_nullvalue_with_dtype(
+                                new_null_value, dtype, warn=True
+                            )
                     except UserWarning:
                         raise ValueError(
                             "Could not use provided null value with the new "
-- 
2.43.0


From e59b8f89418a6b79e9937ea37e1ec0ded478bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 16/57] fix: stack_bands accepted grids that only touch as
 intersecting

---
 raster_tools/_grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_grids.py b/raster_tools/_grids.py
index 8e316f3..056716c 100644
--- a/raster_tools/_grids.py
+++ b/raster_tools/_grids.py
@@ -138,7 +138,8 @@ def combine_grids(grids, how=None, dst_crs=None, resolution=None):
         )
     else:
         bbox = shapely.intersection_all(bboxes_dst).normalize()
-        if bbox.is_empty:
+        # Grids that only touch have no cells in common
+        if bbox.is_empty or bbox.area == 0:
             raise ValueError("The intersection of the given grids is empty")
         dst_grid = GeoBox.from_bbox(
             bbox.bounds, crs=dst_crs, resolution=resolution, tight=True
-- 
2.43.0


From 6f96fb6ef7e405f2bf697162f8b645a4f5814ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 17/57] fix: mosaic first/last of float16 rasters

---
 raster_tools/_mosaic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index c07eb40..c2e73b0 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -12,6 +12,7 @@ from raster_tools._grids import (
     are_all_grids_same,
     combine_grids,
 )
+from raster_tools.dtypes import F16, F32
 
 __all__ = ["mosaic"]
 
@@ -35,6 +36,9 @@ def _nb_push(x, missing_value):
 
 def _push(x, missing_value, axis=None, dtype=None):
     # dask's blelloch forces dtype in the interface so accept and ignore it.
+    if x.dtype == F16:
+        # numba does not support f16
+        return _nb_push(x.astype(F32), F32.type(missing_value)).astype(F16)
     # Do copy to avoid read-only array issues in _nb_push
     return _nb_push(x.copy(), missing_value)
 
-- 
2.43.0


From 909d393de702beb83918664c84cd18361b947a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:00 +0000
Subject: [PATCH 18/57] fix: mosaic sum dropped partial sums equal to the null
 value

---
 raster_tools/_mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_mosaic.py b/raster_tools/_mosaic.py
index c2e73b0..567b4ab 100644
--- a/raster_tools/_mosaic.py
+++ b/raster_tools/_mosaic.py
@@ -136,7 +136,9 @@ def _paint_recursive(stacked_data, dst_nodata, mosaic_method):
     # Use recursion to greatly reduce dask's memory usage. 8 was found to be a
     # good cutoff.
     n = len(stacked_data)
-    if n < 8:
+    # A partial sum can be equal to the nodata value, in which case it would be
+    # dropped later on. da.sum already uses a tree reduction.
+    if n < 8 or mosaic_method == "sum":
         return _paint(stacked_data, dst_nodata, mosaic_method)
 
     left = _paint_recursive(stacked_data[: n // 2], dst_nodata, mosaic_method)
-- 
2.43.0


From 63112d0b250140533118f14e9d1d0b2e63a2a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 19/57] fix: pad added extra cells because of floating point
 error

---
 raster_tools/_padding.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/raster_tools/_padding.py b/raster_tools/_padding.py
index 715f676..c5b3e43 100644
--- a/raster_tools/_padding.py
+++ b/raster_tools/_padding.py
@@ -76,6 +76,27 @@ def _resolve_bounds(raster, target):
     return tuple(float(b) for b in bounds)
 
 
+def _snap_bounds(raster, bounds):
+    """Find the whole cells needed to cover `bounds`.
+
+    The returned bounds lie in the middle of the outermost cells. This keeps
+    floating point error in the bounds and in rioxarray's coordinate generation
+    from adding or removing cells.
+    """
+    minx, miny, maxx, maxy = raster.bounds
+    xres, yres = np.abs(raster.resolution)
+
+    def n_cells(distance, resolution):
+        return max(np.ceil(distance / resolution - 1e-6), 0)
+
+    return (
+        minx - (n_cells(minx - bounds[0], xres) - 0.5) * xres,
+        miny - (n_cells(miny - bounds[1], yres) - 0.5) * yres,
+        maxx + (n_cells(bounds[2] - maxx, xres) - 0.5) * xres,
+        maxy + (n_cells(bounds[3] - maxy, yres) - 0.5) * yres,
+    )
+
+
 def _validate_fill_values(raster, fill_values):
     nbands = raster.nbands
     null_value = raster.null_value
@@ -153,7 +174,7 @@ def pad(raster, target, *, fill_values=None):
 
     """
     raster = get_raster(raster)
-    bounds = _resolve_bounds(raster, target)
+    bounds = _snap_bounds(raster, _resolve_bounds(raster, target))
     per_band, mark_null, out_nv = _validate_fill_values(raster, fill_values)
 
     src_crs = raster.crs
-- 
2.43.0


From 8a485b479f3a7334b86814b0b041cc1fbd8586b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 20/57] fix: to_polygons/to_points values and chunk boxes of
 odd dtypes and sizes

to_polygons modified its input blocks in place and downcast values outside of
the dtypes that GDAL supports. to_points failed for float16 data.
get_chunk_bounding_boxes failed when a chunk was one cell tall or wide.
---
 raster_tools/raster.py | 76 +++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 6692298..e16356b 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2687,7 +2687,10 @@ class Raster(_RasterBase):
             raise ValueError("neighbors can only be 4 or 8")
         meta = gpd.GeoDataFrame(
             {
-                "value": np.array((), dtype=self.dtype),
+                # pandas does not support f16 indices
+                "value": np.array(
+                    (), dtype=self.dtype if self.dtype != F16 else F32
+                ),
                 "band": np.array((), dtype=I64),
                 "geometry": gpd.GeoSeries(()),
             },
@@ -2903,9 +2906,15 @@ class Raster(_RasterBase):
                 y = self.y[i : i + yc]
                 x = self.x[j : j + xc]
                 j += xc
-                bounds = xr.DataArray(
-                    da.empty((yc, xc)), dims=("y", "x"), coords=(y, x)
-                ).rio.bounds()
+                # Don't rely on the coordinates alone as the cell size can't be
+                # determined from them if the chunk has only one row or column
+                dx, dy = (abs(r) / 2 for r in self.resolution)
+                bounds = (
+                    x.min() - dx,
+                    y.min() - dy,
+                    x.max() + dx,
+                    y.max() + dy,
+                )
                 chunk_boxes.append(box(*bounds))
                 rows.append(row)
                 cols.append(col)
@@ -3085,8 +3094,10 @@ def _extract(data, mask, band, x, y, inv_affine):
 
 @dask.delayed
 def _vectorize(data, mask, geochunk):
+    dtype = data.dtype
     values, bands, rows, cols, xs, ys = _extract(
-        data,
+        # numba does not support f16
+        data if dtype != F16 else data.astype(F32),
         mask,
         geochunk.band,
         geochunk.x,
@@ -3101,7 +3112,7 @@ def _vectorize(data, mask, geochunk):
     points = gpd.points_from_xy(xs, ys, crs=geochunk.crs)
     vec = gpd.GeoDataFrame(
         {
-            "value": values,
+            "value": values.astype(dtype, copy=False),
             "band": bands,
             "row": rows,
             "col": cols,
@@ -3113,51 +3124,34 @@ def _vectorize(data, mask, geochunk):
     return vec
 
 
-def _get_rio_shapes_dtype(dtype):
-    if dtype in (I16, I32, U8, U16, F32):
-        return dtype
-
-    new_dtype = dtype
-    if is_bool(dtype):
-        new_dtype = U8
-    elif dtype == I8:
-        new_dtype = I16
-    elif dtype in (I64, U32, U64):
-        new_dtype = I32
-    elif dtype in (F16, F64):
-        new_dtype = F32
-    return new_dtype
-
-
 @dask.delayed
 def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
-    # Rasterio's shapes function only supports a small set of dtypes. This may
-    # cause the dtype to be downcast.
-    # ref: rasterio._features._shapes
+    # Invert because rasterio's shapes func uses False for masked cells.
+    valid = ~mask
     orig_dtype = chunk.dtype
-    working_dtype = _get_rio_shapes_dtype(orig_dtype)
-    if working_dtype != orig_dtype:
-        # Replace null values with a value that will work for all dtypes. Null
-        # values are the most likely to produce warnings when down casting. The
-        # null cells will be ignored in rio.features.shapes so the value
-        # does not matter for computation.
-        chunk[mask] = 0
-        chunk = chunk.astype(working_dtype)
+    unique_values = None
+    if orig_dtype not in (I16, I32, U8, U16, F32):
+        # Rasterio's shapes function only supports a small set of dtypes. Use
+        # labels in place of the values so that they don't have to be cast.
+        # ref: rasterio._features._shapes
+        unique_values, labels = np.unique(chunk[valid], return_inverse=True)
+        chunk = np.zeros(chunk.shape, dtype=I32)
+        chunk[valid] = labels
 
-    # Invert because rasterio's shapes func uses False for masked cells.
-    mask = ~mask
     shapes = []
     values = []
     for geojson, value in rio.features.shapes(
-        chunk, mask, neighbors, transform
+        chunk, valid, neighbors, transform
     ):
         shapes.append(shapely.geometry.shape(geojson))
         values.append(value)
-    values = np.array(values)
-
-    # Cast back to the original dtype, if needed
-    if working_dtype != orig_dtype:
-        values = values.astype(orig_dtype)
+    if unique_values is not None:
+        values = unique_values[np.array(values, dtype=int)]
+    else:
+        values = np.array(values)
+    if orig_dtype == F16:
+        # pandas does not support f16 indices
+        values = values.astype(F32)
     return gpd.GeoDataFrame(
         {
             "value": values,
-- 
2.43.0


From 0844541a88e2f120b055fc485949a6d54b1d737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 21/57] fix: clipping a multi-band raster left the mask with
 other chunks than the data

---
 raster_tools/clipping.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raster_tools/clipping.py b/raster_tools/clipping.py
index 57d54ea..1bcf583 100644
--- a/raster_tools/clipping.py
+++ b/raster_tools/clipping.py
@@ -3,7 +3,6 @@ import numpy as np
 import rioxarray as rxr
 import xarray as xr
 
-from raster_tools._stack import stack_bands
 from raster_tools.creation import ones_like, zeros_like
 from raster_tools.exceptions import RasterNoDataError
 from raster_tools.masking import get_default_null_value
@@ -66,7 +65,7 @@ def _clip(
         else get_default_null_value(data_raster.dtype)
     )
     if data_raster.nbands > 1:
-        clip_mask = stack_bands([clip_mask] * data_raster.nbands)
+        clip_mask = clip_mask.get_bands([1] * data_raster.nbands)
     xdata_out = xr_where_with_meta(
         clip_mask.xdata, data_raster.xdata, nv, crs=crs, nv=nv
     )
-- 
2.43.0


From 7403ed4e4ffa05a6b00f6535e9c544722112e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 22/57] fix: rasterize left mock spatial partitions on the
 caller's features

---
 raster_tools/rasterize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 7c763c4..fae07a0 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -520,6 +520,8 @@ def _rasterize_spatial_naive(
     nparts = df.npartitions
     like_bbox = shapely.geometry.box(*like.bounds)
     sparts = gpd.GeoSeries([like_bbox for i in range(nparts)], crs=like.crs)
+    # Copy so that the mock partitions don't leak into the caller's features
+    df = df.copy()
     df.spatial_partitions = sparts
     return _rasterize_spatial_aware(
         df,
-- 
2.43.0


From 91172649dd6b5a2a97fdb7875cfef9900b97d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 23/57] fix: rasterizing a mask failed on partitions with only
 empty geometries

---
 raster_tools/rasterize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index fae07a0..6d53848 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -157,6 +157,10 @@ def _mask_onto_chunk(
     """
     fill = 1 if invert else 0
     shape_2d = block_info[None]["chunk-shape"]
+    valid = ~(gdf.geometry.is_empty | gdf.geometry.isna())
+    gdf = gdf[valid]
+    if len(gdf) == 0:
+        return np.full(shape_2d, fill, dtype="uint8")
     # Trim anything outside the chunk
     chunk_bbox = shapely.geometry.box(
         *rio.transform.array_bounds(*shape_2d, transform)
-- 
2.43.0


From a31f09c0533c8cf9446ff23b56f714016d845da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 24/57] fix: merging rasterized partitions ignored NaN null and
 field values

---
 raster_tools/rasterize.py | 77 +++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 6d53848..01c73bc 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -178,69 +178,68 @@ def _mask_onto_chunk(
 
 
 @nb.jit(nopython=True, nogil=True)
-def _resolve_first(x, fill):
-    # Take first valid values along band dimension
-    out = np.where(x[-2] == fill, x[-1], x[-2])
-    return np.expand_dims(out, 0)
-
-
-@nb.jit(nopython=True, nogil=True)
-def _resolve_last(x, fill):
-    # Take last valid values along band dimension
-    out = np.where(x[-1] == fill, x[-2], x[-1])
-    return np.expand_dims(out, 0)
+def _is_fill(value, fill):
+    # NaN is never equal to itself
+    return value == fill or (value != value and fill != fill)
 
 
 @nb.jit(nopython=True, nogil=True)
-def _all_axis0(x):
-    # Compute all along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=np.bool_)
+def _resolve_first(x, fill):
+    # Take first valid values along band dimension
+    out = x[-2:-1].copy()
     nr, nc = x.shape[1:]
     for r in range(nr):
         for c in range(nc):
-            out[0, r, c] = np.all(x[:, r, c])
+            if _is_fill(out[0, r, c], fill):
+                out[0, r, c] = x[-1, r, c]
     return out
 
 
 @nb.jit(nopython=True, nogil=True)
-def _min_axis0(x):
-    # Compute min along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=x.dtype)
+def _resolve_last(x, fill):
+    # Take last valid values along band dimension
+    out = x[-1:].copy()
     nr, nc = x.shape[1:]
     for r in range(nr):
         for c in range(nc):
-            out[0, r, c] = np.min(x[:, r, c])
+            if _is_fill(out[0, r, c], fill):
+                out[0, r, c] = x[-2, r, c]
     return out
 
 
 @nb.jit(nopython=True, nogil=True)
-def _max_axis0(x):
-    # Compute max along first axis
-    out = np.empty((1, x.shape[1], x.shape[2]), dtype=x.dtype)
-    nr, nc = x.shape[1:]
+def _resolve_min(x, fill):
+    # Take min values along band dimension. Fill and NaN values are only kept
+    # if there is nothing to replace them with.
+    out = x[:1].copy()
+    nbands, nr, nc = x.shape
     for r in range(nr):
         for c in range(nc):
-            out[0, r, c] = np.max(x[:, r, c])
-    return out
-
-
-@nb.jit(nopython=True, nogil=True)
-def _resolve_min(x, fill):
-    # Take min values along band dimension
-    mask = x == fill
-    out = np.where(mask, np.nanmax(x), x)
-    out = _min_axis0(out)
-    out = np.where(_all_axis0(mask), fill, out)
+            for b in range(1, nbands):
+                best = out[0, r, c]
+                value = x[b, r, c]
+                if _is_fill(value, fill):
+                    continue
+                if _is_fill(best, fill) or best != best or value < best:
+                    out[0, r, c] = value
     return out
 
 
 @nb.jit(nopython=True, nogil=True)
 def _resolve_max(x, fill):
-    # Take max values along band dimension
-    mask = x == fill
-    out = np.where(mask, np.nanmin(x), x)
-    out = _max_axis0(out)
-    out = np.where(_all_axis0(mask), fill, out)
+    # Take max values along band dimension. Fill and NaN values are only kept
+    # if there is nothing to replace them with.
+    out = x[:1].copy()
+    nbands, nr, nc = x.shape
+    for r in range(nr):
+        for c in range(nc):
+            for b in range(1, nbands):
+                best = out[0, r, c]
+                value = x[b, r, c]
+                if _is_fill(value, fill):
+                    continue
+                if _is_fill(best, fill) or best != best or value > best:
+                    out[0, r, c] = value
     return out
 
 
-- 
2.43.0


From de6578e941f2468b1d22361ab7ee71016d79dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 25/57] fix: rasterizing a float16 field from several
 partitions failed

---
 raster_tools/rasterize.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 01c73bc..3bceb20 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -12,7 +12,18 @@ from rasterio.enums import MergeAlg
 from rasterio.env import GDALVersion
 from rasterio.features import rasterize as rio_rasterize
 
-from raster_tools.dtypes import F64, I8, I16, I64, U8, U64, is_float, is_int
+from raster_tools.dtypes import (
+    F16,
+    F32,
+    F64,
+    I8,
+    I16,
+    I64,
+    U8,
+    U64,
+    is_float,
+    is_int,
+)
 from raster_tools.masking import get_default_null_value
 from raster_tools.raster import data_to_raster_like, get_raster
 from raster_tools.utils import list_reshape_2d
@@ -261,7 +272,13 @@ def _reduction_wrapper(
     # Assuming x has dims (B, Y, X), where B in {1, 2}
     # Do nothing if input only has one band. Nothing to reduce. Copy in order
     # to follow dask best practices.
-    out = x.copy() if x.shape[0] == 1 else resolve_func(x, fill=fill)
+    if x.shape[0] == 1:
+        out = x.copy()
+    elif x.dtype == F16:
+        # Numba doesn't support float16
+        out = resolve_func(x.astype(F32), fill=F32.type(fill)).astype(F16)
+    else:
+        out = resolve_func(x, fill=fill)
     if keepdims:
         return out
     return out[0]
-- 
2.43.0


From d3179fb13c403db34144c2b5d9ca3363ad872ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 26/57] fix: Vector.spatial_shuffle failed on one partition and
 gave a wrong number of features

---
 raster_tools/vector.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/raster_tools/vector.py b/raster_tools/vector.py
index bf5fff2..46eec08 100644
--- a/raster_tools/vector.py
+++ b/raster_tools/vector.py
@@ -357,6 +357,27 @@ def _normalize_geo_data(geo):
 _GMTRY = "geometry"
 
 
+def _spatial_shuffle(geo):
+    shuffled = geo.spatial_shuffle()
+    # The shuffled data is indexed by Hilbert distance. Number the rows again
+    # so that the divisions reflect the number of features.
+    sizes = shuffled.map_partitions(len).compute().tolist()
+    ends = np.cumsum(sizes).tolist()
+    starts = [0, *ends[:-1]]
+    parts = [
+        delayed(_df_asign_index)(part.copy(), pd.RangeIndex(start, end))
+        for part, start, end in zip(
+            shuffled.to_delayed(), starts, ends, strict=True
+        )
+    ]
+    last = max(ends[-1] - 1, 0)
+    divs = (*(min(start, last) for start in starts), last)
+    meta = _df_asign_index(shuffled._meta.copy(), pd.RangeIndex(0))
+    data = dd.from_delayed(parts, meta, divisions=divs)
+    data.spatial_partitions = shuffled.spatial_partitions
+    return data
+
+
 class Vector:
     """A class representing vector data.
 
@@ -866,12 +887,16 @@ class Vector:
             This causes partial computation to take place.
 
         """
+        if self._geo.npartitions == 1:
+            # Nothing to regroup. Shuffling a single partition would only lose
+            # its divisions.
+            return self.calculate_spatial_partitions(show_progress)
         if show_progress:
             with ProgressBar():
-                data = self._geo.spatial_shuffle()
+                data = _spatial_shuffle(self._geo)
         else:
-            data = self._geo.spatial_shuffle()
-        return Vector(data)
+            data = _spatial_shuffle(self._geo)
+        return Vector(data, self._size)
 
     def calculate_spatial_partitions(self, show_progress=False):
         """Calculate the spatial bounds of the underlying data.
-- 
2.43.0


From 81ca848d53a2d1a58fa811ef0aa201bb2c2cde17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 27/57] fix: zonal_stats failed for multi-band data chunked
 unlike the feature raster

---
 raster_tools/zonal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index 4bf08fb..d6f9e2a 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -231,7 +231,9 @@ def _zonal_stats(features_raster, data_raster, stats):
     ]
     if features_raster.data.chunks[1:] != data_raster.data.chunks[1:]:
         # Force rasters to have matching chunksizes
-        features_raster = features_raster.chunk(data_raster.data.chunks)
+        features_raster = features_raster.chunk(
+            ((1,), *data_raster.data.chunks[1:])
+        )
     # Convert the features raster and data raster bands to dataframes and join
     # them together. Each cell becomes a row and each chunk becomes a
     # partition. The order is the same and the chunk boundaries are the same so
-- 
2.43.0


From 36672d62f3c7fb01eb6aa804b828d5e935ba74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 28/57] fix: zonal_stats dropped valid cells that hold the null
 value and kept unburned null cells

---
 raster_tools/zonal.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/raster_tools/zonal.py b/raster_tools/zonal.py
index d6f9e2a..03c0fe9 100644
--- a/raster_tools/zonal.py
+++ b/raster_tools/zonal.py
@@ -211,12 +211,16 @@ def _find_problem_stats(stats):
     return out, has_median
 
 
-def _raster_to_series(raster):
+def _dataarray_to_series(xdata):
     # Convert the underlying dask array into a dask Series
     # DataArray.to_dask_dataframe is only available in newer versions of xarray
-    if hasattr(raster.xdata, "to_dask_dataframe"):
-        return raster.xdata.to_dask_dataframe(["band", "x", "y"])["raster"]
-    return raster._ds.to_dask_dataframe(["band", "x", "y"])["raster"]
+    if hasattr(xdata, "to_dask_dataframe"):
+        return xdata.to_dask_dataframe(["band", "x", "y"])["raster"]
+    return xdata.to_dataset().to_dask_dataframe(["band", "x", "y"])["raster"]
+
+
+def _raster_to_series(raster):
+    return _dataarray_to_series(raster.xdata)
 
 
 def _zonal_stats(features_raster, data_raster, stats):
@@ -238,21 +242,21 @@ def _zonal_stats(features_raster, data_raster, stats):
     # them together. Each cell becomes a row and each chunk becomes a
     # partition. The order is the same and the chunk boundaries are the same so
     # they should concat together, cleanly.
-    raster_dfs = [_raster_to_series(features_raster).rename("zone")]
+    raster_dfs = [
+        _raster_to_series(features_raster.burn_mask()).rename("zone")
+    ]
     for b in range(1, data_raster.nbands + 1):
-        band = _raster_to_series(data_raster.get_bands(b)).rename(f"band_{b}")
-        if data_raster.null_value is not None and not np.isnan(
-            data_raster.null_value
-        ):
-            # Replace null values with NA values
-            band = band.replace(data_raster.null_value, np.nan)
+        band_raster = data_raster.get_bands(b)
         # Cast up to avoid floating point issues in sums. F32 sums loose
         # precision quickly even for smaller rasters. This affects any stat
         # that involves a sum such as std, var, and mean.
         # ref: https://web.archive.org/web/20230329091023/https://pythonspeed.com/articles/float64-float32-precision/  # noqa
-        if band.dtype != F64:
-            band = band.astype(F64)
-        raster_dfs.append(band)
+        band = band_raster.xdata.astype(F64)
+        if data_raster.null_value is not None:
+            # Replace null cells with NA values. Go by the mask since the null
+            # value may also be a valid value (e.g. in boolean data).
+            band = band.where(~band_raster.xmask)
+        raster_dfs.append(_dataarray_to_series(band).rename(f"band_{b}"))
     # DataFrame structure:
     #        zone  band_1  band_2  ...
     # index
-- 
2.43.0


From 07b9f2ad1fd27bf51e2172c452aeb7f8a6fe7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 29/57] fix: a null value of False was dropped while its mask
 stayed

---
 raster_tools/raster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index e16356b..46f1122 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -761,6 +761,9 @@ def data_to_xr_raster(data, x=None, y=None, affine=None, crs=None, nv=None):
     ).rio.set_spatial_dims(y_dim="y", x_dim="x")
     if crs is not None:
         xdata = xdata.rio.write_crs(crs)
+    if nv is False:
+        # rioxarray takes the builtin False to mean no value
+        nv = np.bool_(nv)
     xdata = xdata.rio.write_nodata(nv)
     return normalize_xarray_data(xdata)
 
@@ -2090,6 +2093,9 @@ class Raster(_RasterBase):
         mask = self.xmask
         temp_mask = get_mask_from_data(xrs, value)
         mask = mask | temp_mask if self._masked else temp_mask
+        if value is False:
+            # rioxarray takes the builtin False to mean no value
+            value = xrs.dtype.type(value)
         xrs = xrs.rio.write_nodata(value)
         return Raster(make_raster_ds(xrs, mask), _fast_path=True).burn_mask()
 
-- 
2.43.0


From 3664e01ef64d2cb77a4119edc8c7dadd64f29a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 30/57] fix: focal min/max/sum of unmasked rasters used cells
 outside of annulus and even windows

---
 raster_tools/focal.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index bf14313..cb70359 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -285,17 +285,41 @@ def _focal(data, kernel, stat, nan_aware=False):
     kernel = kernel.astype(bool)
     if not nan_aware and stat in ("min", "max", "sum"):
         # Use ndfilters which is faster but dosn't handle nan values
+        # Shift pixel origins to match _focal_chunk for even shaped kernels
+        origin = [-1 if d % 2 == 0 else 0 for d in kernel.shape]
+        # Pad with values that never win so that only cells that are inside
+        # both the window and the data are used
+        if is_bool(data.dtype):
+            vmin, vmax = False, True
+        elif is_int(data.dtype):
+            vmin, vmax = get_dtype_min_max(data.dtype)
+            if data.dtype.itemsize == 8:
+                # ndfilters uses doubles and the max is rounded out of range
+                vmax = int(np.nextafter(float(vmax), 0))
+        else:
+            vmin, vmax = -np.inf, np.inf
         if stat == "min":
             func = partial(
-                ndfilters.minimum_filter, footprint=kernel, mode="nearest"
+                ndfilters.minimum_filter,
+                footprint=kernel,
+                mode="constant",
+                cval=vmax,
+                origin=origin,
             )
         elif stat == "max":
             func = partial(
-                ndfilters.maximum_filter, footprint=kernel, mode="nearest"
+                ndfilters.maximum_filter,
+                footprint=kernel,
+                mode="constant",
+                cval=vmin,
+                origin=origin,
             )
         elif stat == "sum":
             func = partial(
-                ndfilters.correlate, weights=kernel, mode="constant"
+                ndfilters.correlate,
+                weights=kernel,
+                mode="constant",
+                origin=origin,
             )
         data = da.stack([func(d) for d in data])
     else:
-- 
2.43.0


From 9840ad98137b87846dc6d7b5f3da14e55135de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 31/57] fix: focal failed on 8-bit, boolean and float16 rasters

---
 raster_tools/focal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index cb70359..fc364f7 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,8 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F16,
+    F32,
     F64,
     U8,
     U16,
@@ -46,6 +48,11 @@ __all__ = [
 ngjit = nb.jit(nopython=True, nogil=True)
 
 
+def _get_float_dtype(dtype):
+    # Neither numba nor ndfilters support float16
+    return np.promote_types(promote_dtype_to_float(dtype), F32)
+
+
 @single_band_mappable
 @ngjit
 def _focal_chunk(chunk, kernel, kernel_func):
@@ -283,6 +290,8 @@ def _focal(data, kernel, stat, nan_aware=False):
         data = da.from_array(data)
 
     kernel = kernel.astype(bool)
+    if data.dtype == F16:
+        data = data.astype(F32)
     if not nan_aware and stat in ("min", "max", "sum"):
         # Use ndfilters which is faster but dosn't handle nan values
         # Shift pixel origins to match _focal_chunk for even shaped kernels
@@ -325,7 +334,7 @@ def _focal(data, kernel, stat, nan_aware=False):
     else:
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _get_float_dtype(data.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
 
@@ -417,7 +426,7 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
 
     # Convert to float and fill nulls with nan, if needed
     if raster._masked:
-        new_dtype = promote_dtype_to_float(raster.dtype)
+        new_dtype = _get_float_dtype(raster.dtype)
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
-- 
2.43.0


From 8dbf7726d98060e7eb42c70e34c85eff1653f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 32/57] fix: focal sums overflowed and ignore_null did nothing
 for null cells

---
 raster_tools/focal.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index fc364f7..e26c55c 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -324,6 +324,8 @@ def _focal(data, kernel, stat, nan_aware=False):
                 origin=origin,
             )
         elif stat == "sum":
+            # Avoid overflow
+            data = data.astype(np.sum(np.empty(0, dtype=data.dtype)).dtype)
             func = partial(
                 ndfilters.correlate,
                 weights=kernel,
@@ -430,6 +432,7 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
+    masked_data = data
 
     data = _focal(data, window, focal_type, raster._masked)
 
@@ -452,8 +455,15 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
 
     if raster._masked:
         nv = np.nan
-        mask = raster.mask.copy()
-        mask = mask if ignore_null else mask | np.isnan(data)
+        if not ignore_null:
+            mask = raster.mask | np.isnan(data)
+        else:
+            # Null cells with valid neighbors receive data
+            valid = data
+            if focal_type in ("asm", "entropy", "sum"):
+                # These give 0 for windows with no valid cells
+                valid = _focal(masked_data, window, "max", True)
+            mask = np.isnan(data) | (raster.mask & np.isnan(valid))
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
         )
-- 
2.43.0


From 4a6c94db60cb70f1e3c8a8cbbf6f30a94a57609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 33/57] fix: correlate failed on 8-bit and float16 rasters and
 gave booleans for boolean rasters

---
 raster_tools/focal.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index e26c55c..951544e 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -9,6 +9,7 @@ from raster_tools.dtypes import (
     F16,
     F32,
     F64,
+    I64,
     U8,
     U16,
     U32,
@@ -20,6 +21,7 @@ from raster_tools.dtypes import (
     promote_data_dtype,
     promote_dtype_to_float,
 )
+from raster_tools.masking import get_default_null_value
 from raster_tools.raster import Raster, data_to_xr_raster_ds_like, get_raster
 from raster_tools.stat_common import (
     nan_unique_count_jit,
@@ -603,12 +605,19 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
     if is_float(kernel.dtype) and is_int(raster.dtype):
         raster = raster.astype(F64)
     data = raster.data
+    nv = raster.null_value
+    if is_bool(data.dtype):
+        # Weighted sums don't fit in a boolean
+        data = data.astype(F64 if is_float(kernel.dtype) else I64)
+        nv = get_default_null_value(data.dtype)
+    elif data.dtype == F16:
+        data = data.astype(F32)
     final_dtype = data.dtype
 
     # Convert to float and fill nulls with nan, if needed
     upcast = False
     if raster._masked:
-        new_dtype = promote_dtype_to_float(data.dtype)
+        new_dtype = _get_float_dtype(data.dtype)
         upcast = new_dtype != data.dtype
         if upcast:
             data = data.astype(new_dtype)
@@ -623,7 +632,6 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
         data = data.astype(final_dtype)
 
     if raster._masked:
-        nv = raster.null_value
         mask = raster.mask.copy()
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
-- 
2.43.0


From 19eda37d4b914e27ef081cc5bde55dc7a4e4dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 34/57] fix: surface functions left cells next to nulls
 unmasked and used 8-bit and float16 nulls as data

---
 raster_tools/surface.py | 52 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 80ab109..1195fc2 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -10,7 +10,15 @@ import numba as nb
 import numpy as np
 
 from raster_tools import focal
-from raster_tools.dtypes import F32, F64, I32, U8, is_int
+from raster_tools.dtypes import (
+    F16,
+    F32,
+    F64,
+    I32,
+    U8,
+    is_int,
+    promote_dtype_to_float,
+)
 from raster_tools.masking import get_default_null_value
 from raster_tools.raster import Raster, data_to_xr_raster_ds_like, get_raster
 from raster_tools.utils import single_band_mappable
@@ -30,9 +38,21 @@ RADIANS_TO_DEGREES = 180 / np.pi
 DEGREES_TO_RADIANS = np.pi / 180
 
 
+def _get_surface_raster(raster):
+    raster = get_raster(raster)
+    # Numba does not support float16. This has to be done before nulls are
+    # replaced because astype fills in null cells.
+    if raster.dtype == F16 or (
+        raster._masked and promote_dtype_to_float(raster.dtype) == F16
+    ):
+        raster = raster.astype(F32, warn_about_null_change=False)
+    return get_raster(raster, null_to_nan=True)
+
+
 def _finalize(data, like):
+    # Invalidate cells without a full set of valid neighbors
+    mask = like.mask | np.isnan(data)
     # Invalidate edges
-    mask = like.mask.copy()
     mask[:, 0, :] = True
     mask[:, -1, :] = True
     mask[:, :, 0] = True
@@ -122,9 +142,7 @@ def surface_area_3d(raster):
     * `Jense, 2004 <https://www.fs.usda.gov/treesearch/pubs/20437>`_
 
     """
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _surface_area_3d,
         depth={0: 0, 1: 1, 2: 1},
@@ -190,9 +208,7 @@ def slope(raster, degrees=True):
     * `ESRI slope <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-slope-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     # Leave resolution sign as is
     out_data = raster.data.map_overlap(
         _slope,
@@ -264,9 +280,7 @@ def aspect(raster):
     * `ESRI aspect <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-aspect-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _aspect,
         depth={0: 0, 1: 1, 2: 1},
@@ -323,9 +337,7 @@ def curvature(raster):
     * `ESRI curvature <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-curvature-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     out_data = raster.data.map_overlap(
         _curv,
         depth={0: 0, 1: 1, 2: 1},
@@ -371,9 +383,7 @@ def northing(raster, is_aspect=False):
     """
     if not is_aspect:
         raster = aspect(raster)
-    raster = get_raster(raster, null_to_nan=True).copy()
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster).copy()
     return _northing_easting(raster, True)
 
 
@@ -400,9 +410,7 @@ def easting(raster, is_aspect=False):
     if not is_aspect:
         raster = aspect(raster)
 
-    raster = get_raster(raster, null_to_nan=True).copy()
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster).copy()
     return _northing_easting(raster, False)
 
 
@@ -479,9 +487,7 @@ def hillshade(raster, azimuth=315, altitude=45):
     * `ESRI hillshade <https://pro.arcgis.com/en/pro-app/latest/tool-reference/spatial-analyst/how-hillshade-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_surface_raster(raster)
     # Specifically leave resolution sign as is
     out_data = raster.data.map_overlap(
         _hillshade,
-- 
2.43.0


From 15ca1475dfb55d3a77c01c964452bfbd252ffd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 35/57] fix: surface_area_3d ignored the height of non-square
 cells

---
 raster_tools/surface.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 1195fc2..3783b03 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -67,9 +67,10 @@ def _finalize(data, like):
 @single_band_mappable
 @nb.jit(nopython=True, nogil=True)
 def _surface_area_3d(xarr, res):
-    # TODO: handle non-symmetrical resolutions
-    sd = res**2
-    dd = sd * 2
+    # Squared cell widths, heights, and diagonals
+    sx = res[0] ** 2
+    sy = res[1] ** 2
+    dd = sx + sy
     outx = np.empty_like(xarr, dtype=F64)
     rows, cols = xarr.shape
     for rw in range(1, rows - 1):
@@ -85,35 +86,35 @@ def _surface_area_3d(xarr, res):
             h = xarr[rw - 1, cl]
             i = xarr[rw - 1, cl + 1]
             ea = np.sqrt(dd + (e - a) ** 2) * 0.5
-            eb = np.sqrt(sd + (e - b) ** 2) * 0.5
-            ab = np.sqrt(sd + (a - b) ** 2) * 0.5
+            eb = np.sqrt(sy + (e - b) ** 2) * 0.5
+            ab = np.sqrt(sx + (a - b) ** 2) * 0.5
             si = (ea + eb + ab) * 0.5
             ta += np.sqrt(si * (si - ea) * (si - eb) * (si - ab))
             ec = np.sqrt(dd + (e - c) ** 2) * 0.5
-            bc = np.sqrt(sd + (b - c) ** 2) * 0.5
+            bc = np.sqrt(sx + (b - c) ** 2) * 0.5
             si = (ec + eb + bc) * 0.5
             ta += np.sqrt(si * (si - ec) * (si - eb) * (si - bc))
-            ef = np.sqrt(sd + (e - f) ** 2) * 0.5
-            cf = np.sqrt(sd + (c - f) ** 2) * 0.5
+            ef = np.sqrt(sx + (e - f) ** 2) * 0.5
+            cf = np.sqrt(sy + (c - f) ** 2) * 0.5
             si = (ec + ef + cf) * 0.5
             ta += np.sqrt(si * (si - ec) * (si - ef) * (si - cf))
             ei = np.sqrt(dd + (e - i) ** 2) * 0.5
-            fi = np.sqrt(sd + (f - i) ** 2) * 0.5
+            fi = np.sqrt(sy + (f - i) ** 2) * 0.5
             si = (ei + ef + fi) * 0.5
             ta += np.sqrt(si * (si - ei) * (si - ef) * (si - fi))
-            eh = np.sqrt(sd + (e - h) ** 2) * 0.5
-            hi = np.sqrt(sd + (h - i) ** 2) * 0.5
+            eh = np.sqrt(sy + (e - h) ** 2) * 0.5
+            hi = np.sqrt(sx + (h - i) ** 2) * 0.5
             si = (ei + eh + hi) * 0.5
             ta += np.sqrt(si * (si - ei) * (si - eh) * (si - hi))
             eg = np.sqrt(dd + (e - g) ** 2) * 0.5
-            gh = np.sqrt(sd + (g - h) ** 2) * 0.5
+            gh = np.sqrt(sx + (g - h) ** 2) * 0.5
             si = (eg + eh + gh) * 0.5
             ta += np.sqrt(si * (si - eg) * (si - eh) * (si - gh))
-            ed = np.sqrt(sd + (e - d) ** 2) * 0.5
-            dg = np.sqrt(sd + (d - g) ** 2) * 0.5
+            ed = np.sqrt(sx + (e - d) ** 2) * 0.5
+            dg = np.sqrt(sy + (d - g) ** 2) * 0.5
             si = (eg + dg + ed) * 0.5
             ta += np.sqrt(si * (si - eg) * (si - ed) * (si - dg))
-            ad = np.sqrt(sd + (a - d) ** 2) * 0.5
+            ad = np.sqrt(sy + (a - d) ** 2) * 0.5
             si = (ea + ed + ad) * 0.5
             ta += np.sqrt(si * (si - ea) * (si - ed) * (si - ad))
             outx[rw, cl] = ta
@@ -149,7 +150,7 @@ def surface_area_3d(raster):
         boundary=np.nan,
         dtype=F64,
         meta=np.array((), dtype=F64),
-        res=raster.resolution[0],
+        res=raster.resolution,
     )
     return _finalize(out_data, raster)
 
-- 
2.43.0


From 8570e8857aaa4c40570b4673c0e7a9d4e4d780d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 36/57] fix: tpi turned null cells into valid zeros

---
 raster_tools/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 3783b03..286783d 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -566,7 +566,9 @@ def tpi(dem, annulus_inner, annulus_outer):
         radii = annulus_outer
     else:
         radii = (annulus_inner, annulus_outer)
-    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(I32, False)
+    rs_tpi = ((dem - focal.focal(dem, "mean", radii)) + 0.5).astype(
+        I32, warn_about_null_change=False
+    )
     if dem._masked:
         rs_tpi = rs_tpi.set_null_value(get_default_null_value(I32))
     return rs_tpi
-- 
2.43.0


From 47b8fc21fb102b7ee25bcdaaaf3f7f26f90145e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 37/57] fix: block coordinates of rasters in a geographic crs

GeoBlockInfo.x and .y looked up "x" and "y" in the geobox coordinates,
which odc-geo names "longitude" and "latitude" when the crs is geographic,
so every use of them raised KeyError.
---
 raster_tools/blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index c13e2a6..0c3a58a 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -130,11 +130,12 @@ class GeoBlockInfo:
 
     @property
     def x(self):
-        return self.geobox.coordinates["x"].values
+        # The dimension names depend on the CRS
+        return self.geobox.coordinates[self.geobox.dimensions[1]].values
 
     @property
     def y(self):
-        return self.geobox.coordinates["y"].values
+        return self.geobox.coordinates[self.geobox.dimensions[0]].values
 
     @property
     def band(self):
-- 
2.43.0


From e2d8e71f8272f17709ab49cadc629f1a5d308a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 38/57] fix: georeferencing of overlap blocks with asymmetric
 depth or unpadded edges

geo_map_overlap split the total overlap of a block evenly between its
sides, so the block's coordinates were off by up to the depth for blocks on
the edge of a raster (boundary None, the default) and for every block when
the depth differs per side.
---
 raster_tools/blocks.py | 55 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index 0c3a58a..1944afa 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -1569,26 +1569,34 @@ def _resolve_gbi_no_pad(block_info, block_args, gbi_lookup):
     return gbi_lookup[block_info[0]["chunk-location"]]
 
 
-def _resolve_gbi_with_overlap_pad(block_info, block_args, gbi_lookup):
+def _make_overlap_gbi_resolver(depth_dict, boundary):
     """gbi resolver for geo_map_overlap: pad the base gbi to match the
-    overlap-included block shape.
+    overlap-included block.
 
-    Distributes the per-axis overlap symmetrically. Exact for interior
-    chunks and any non-``"none"`` boundary; approximate for
-    ``boundary=None``/``"none"`` edge chunks (the per-side split may
-    be slightly off-position).
+    Every side of a block is extended by that side's depth, except for the
+    sides on the edge of the raster when the edge isn't padded
+    (``boundary=None``/``"none"``).
     """
-    base_gbi = gbi_lookup[block_info[0]["chunk-location"]]
-    base_shape = base_gbi.shape
-    actual_shape = block_args[0].shape
-    tot_dy = actual_shape[1] - base_shape[1]
-    tot_dx = actual_shape[2] - base_shape[2]
-    top, bottom = tot_dy // 2, tot_dy - tot_dy // 2
-    left, right = tot_dx // 2, tot_dx - tot_dx // 2
-    gbi = base_gbi.pad_y(top, bottom) if (top or bottom) else base_gbi
-    if left or right:
-        gbi = gbi.pad_x(left, right)
-    return gbi
+    pads_edges = boundary is not None and not (
+        isinstance(boundary, str) and boundary.lower() == "none"
+    )
+
+    def _resolver(block_info, block_args, gbi_lookup):
+        location = block_info[0]["chunk-location"]
+        base_gbi = gbi_lookup[location]
+        pads = []
+        for axis in (1, 2):
+            d = depth_dict.get(axis, 0)
+            before, after = d if isinstance(d, tuple) else (d, d)
+            if not pads_edges:
+                if location[axis] == 0:
+                    before = 0
+                if location[axis] == gbi_lookup.shape[axis] - 1:
+                    after = 0
+            pads.append((before, after))
+        return base_gbi.pad_y(*pads[0]).pad_x(*pads[1])
+
+    return _resolver
 
 
 def _as_array(x):
@@ -1619,7 +1627,7 @@ def _build_geo_wrapper(
     ``gbi_resolver(block_info, block_args, gbi_lookup) -> GeoBlockInfo``
     decides how to translate dask's chunk-location into the gbi the
     user sees. Pass ``_resolve_gbi_no_pad`` for the no-overlap
-    flavor; ``_resolve_gbi_with_overlap_pad`` for overlap.
+    flavor; one from ``_make_overlap_gbi_resolver`` for overlap.
 
     ``out_dtype_hint`` is the caller-resolved output dtype (from
     ``dtype=`` / ``meta=``) or ``None``; it is preferred over
@@ -1784,6 +1792,8 @@ def _build_geo_map_blocks_wrapper(
 def _build_geo_map_overlap_wrapper(
     func,
     rasters,
+    depth_dict,
+    boundary,
     null_value=None,
     out_dtype_hint=None,
     return_mask=False,
@@ -1798,7 +1808,7 @@ def _build_geo_map_overlap_wrapper(
         func,
         rasters,
         null_value=null_value,
-        gbi_resolver=_resolve_gbi_with_overlap_pad,
+        gbi_resolver=_make_overlap_gbi_resolver(depth_dict, boundary),
         out_dtype_hint=out_dtype_hint,
         return_mask=return_mask,
         out_data_dtype=out_data_dtype,
@@ -2350,10 +2360,7 @@ def geo_map_overlap(
     downstream output meta will be wrong).
 
     With ``boundary=None`` or ``"none"``, edge chunks aren't padded on the
-    array-boundary side. The per-side overlap split is computed from actual
-    block shape vs base chunk shape and distributed symmetrically; for those
-    edge cases the ``geo_block_info`` extent may be slightly off-position. For
-    interior chunks and all non-``"none"`` boundaries this is exact.
+    array-boundary side, and neither is their ``geo_block_info``.
 
     **Output null value resolution**
 
@@ -2433,6 +2440,8 @@ def geo_map_overlap(
     wrapper, inputs = _build_geo_map_overlap_wrapper(
         func,
         rasters,
+        depth_dict,
+        boundary,
         null_value=null_value,
         out_dtype_hint=data_hint,
         return_mask=return_mask,
-- 
2.43.0


From 510424380d064a061b1043043f5324bbefc1e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 39/57] fix: KeyError from blocks opting in to out_null_value
 with return_mask

Without a dtype hint the null value was resolved against the packed
(data, mask) dtype.
---
 raster_tools/blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raster_tools/blocks.py b/raster_tools/blocks.py
index 1944afa..71d833d 100644
--- a/raster_tools/blocks.py
+++ b/raster_tools/blocks.py
@@ -875,6 +875,9 @@ def _build_map_blocks_wrapper(
                 # block_info[None]["dtype"] as None when meta= is
                 # set, even though the meta's dtype IS the output.
                 chunk_dtype = block_info[None]["dtype"]
+                if return_mask and chunk_dtype is not None:
+                    # The chunk holds packed (data, mask) pairs
+                    chunk_dtype = chunk_dtype["data"]
                 resolved_dtype = (
                     out_dtype_hint
                     if out_dtype_hint is not None
@@ -1723,6 +1726,9 @@ def _build_geo_wrapper(
                 inner_kwargs["out_null_value"] = meta_placeholder
             else:
                 chunk_dtype = block_info[None]["dtype"]
+                if return_mask and chunk_dtype is not None:
+                    # The chunk holds packed (data, mask) pairs
+                    chunk_dtype = chunk_dtype["data"]
                 resolved_dtype = (
                     out_dtype_hint
                     if out_dtype_hint is not None
-- 
2.43.0


From 577a0681b3ad4d364ca0ef4f1534feac93dba55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 40/57] fix: mask lost when saving uint64 rasters with a large
 null value

GDAL mangles a uint64 nodata value above 2**53 (the default null value was
written as 1). Write such rasters as float64, as is done for int64.
---
 raster_tools/io.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/raster_tools/io.py b/raster_tools/io.py
index 6a29ded..57d8909 100644
--- a/raster_tools/io.py
+++ b/raster_tools/io.py
@@ -10,7 +10,16 @@ import xarray as xr
 from affine import Affine
 from dask.array.core import normalize_chunks as dask_chunks
 
-from raster_tools.dtypes import F32, F64, I64, U8, is_bool, is_float, is_int
+from raster_tools.dtypes import (
+    F32,
+    F64,
+    I64,
+    U8,
+    U64,
+    is_bool,
+    is_float,
+    is_int,
+)
 from raster_tools.exceptions import (
     AffineEncodingError,
     DimensionsError,
@@ -364,15 +373,15 @@ def write_raster(
     resolved_driver = _resolve_driver(path, driver)
 
     rio_is_bool = False
-    if xrs.dtype == I64:
+    if xrs.dtype in (I64, U64):
         nv = xrs.rio.nodata
-        # GDAL stores a GeoTIFF nodata value as a C double. Its Int64
+        # GDAL stores a GeoTIFF nodata value as a C double. Its (U)Int64
         # nodata handling is only reliable for magnitudes up to 2**53;
-        # larger sentinels (including int64's default null, -2**63) are
+        # larger sentinels (including the dtypes' default nulls) are
         # mangled on write, which would silently drop the null mask on
         # reload. Treat such a null as unpreservable by a native write.
         null_preservable = nv is None or -(2**53) <= nv <= 2**53
-        if not _supports_native_int64(resolved_driver):
+        if xrs.dtype == I64 and not _supports_native_int64(resolved_driver):
             # Older GDAL builds lack native int64 raster support; cast up
             # to F64 so to_raster won't reject the array.
             warnings.warn(
@@ -386,16 +395,16 @@ def write_raster(
             )
             xrs = xrs.astype(F64)
         elif not null_preservable:
-            # Native int64 is available, but GeoTIFF's float nodata
+            # A native 64-bit write is available, but GeoTIFF's float nodata
             # field cannot hold this null value, so a native write would
             # lose the mask. Cast to F64, which stores the null exactly
             # as a double and keeps the mask intact.
             warnings.warn(
-                "The int64 null value cannot be represented in a"
+                f"The {xrs.dtype} null value cannot be represented in a"
                 " GeoTIFF nodata field; the array will be written as"
                 " float64 to preserve the null mask. Values above 2**53"
                 " may lose precision, and the file will read back as"
-                " float64 (cast it back with .astype('int64') after"
+                f" float64 (cast it back with .astype('{xrs.dtype}') after"
                 " loading if needed).",
                 UserWarning,
                 stacklevel=2,
-- 
2.43.0


From fd214c25f004e4dc14d3fe513fafa491a593d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 41/57] fix: save lost null cells that do not hold the null
 value

A raster whose mask is not burned into its data was written as is, so its
null cells came back as valid cells.
---
 raster_tools/raster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 46f1122..d1d2cb7 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1720,6 +1720,9 @@ class Raster(_RasterBase):
             rs = rs.astype("uint8").set_null_value(
                 get_default_null_value("uint8")
             )
+        if rs._masked:
+            # The mask only survives in the file as null values in the data
+            rs = rs.burn_mask()
         xrs = rs.xdata
         write_raster(
             xrs,
-- 
2.43.0


From ce3f6fd40aca5d982481419d7fb64e5f3548f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 42/57] fix: chunk rasters of multi-band chunks

get_chunk_rasters labelled every chunk as the single band 1, which raised
for chunks of several bands.
---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index d1d2cb7..f97ab50 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -2982,7 +2982,7 @@ class Raster(_RasterBase):
                             x=slice(x, x + xc),
                         )
                         .copy()
-                        .assign_coords(band=[1])
+                        .assign_coords(band=np.arange(bc) + 1)
                     )
                     rs = Raster(ds, _fast_path=True)
                     out[band, row, col] = rs
-- 
2.43.0


From 0ac732512484f2d6f94384bb6b71e48caedc6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 43/57] fix: save_chunks changed tiles of multi-band rasters

The bands of a tile were stacked again, which gave tiles of unmasked rasters
a null value (masking cells that hold it) and dropped the cell size of tiles
of one row or column, which were then written upside down.
---
 raster_tools/raster.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index f97ab50..e16a821 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -20,6 +20,7 @@ from shapely.geometry import box
 from raster_tools._compat import NUMPY_GE_2, NUMPY_GE_2_2, PY_VER_310_PLUS
 from raster_tools._grids import build_x_coord, build_y_coord
 from raster_tools.dask_utils import (
+    chunks_to_array_locations,
     dask_nanmax,
     dask_nanmin,
 )
@@ -1825,17 +1826,15 @@ class Raster(_RasterBase):
                 out[b, r, c] = chunk_rasters[b, r, c].save(path, **save_kwargs)
             return out
 
-        from raster_tools._stack import stack_bands
-
         out = np.empty((ny, nx), dtype=object)
+        row_slices, col_slices = (
+            [slice(*loc) for loc in chunks_to_array_locations(chunks)]
+            for chunks in self.data.chunks[1:]
+        )
         for r, c in np.ndindex(ny, nx):
             path = f"{prefix}_{r:0{rw}d}_{c:0{cw}d}{ext}"
-            tile_chunks = chunk_rasters[:, r, c]
-            tile = (
-                tile_chunks[0]
-                if nbands == 1
-                else stack_bands(list(tile_chunks))
-            )
+            ds = self._ds.isel(y=row_slices[r], x=col_slices[c]).copy()
+            tile = Raster(ds, _fast_path=True)
             out[r, c] = tile.save(path, **save_kwargs)
         return out
 
-- 
2.43.0


From cbd7435b5142c78b50ce6c28a119cad4fd38652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 44/57] fix: astype dropped the cell size of one-row or
 one-column rasters

---
 raster_tools/raster.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index e16a821..a7a43aa 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1930,9 +1930,9 @@ class Raster(_RasterBase):
                             "Could not use provided null value with the new "
                             "dtype"
                         ) from None
-                    xrs_casted = xr.where(
-                        mask, nv, xrs_casted
-                    ).rio.write_nodata(nv)
+                    # Work with .data to avoid dropping the georeferencing
+                    xrs_casted.data = da.where(mask.data, nv, xrs_casted.data)
+                    xrs_casted = xrs_casted.rio.write_nodata(nv)
             # else: do nothing since the null values already match
         elif self._masked:
             nv = reconcile_nullvalue_with_dtype(
@@ -1941,9 +1941,8 @@ class Raster(_RasterBase):
             if nv != self.null_value or not (
                 np.isnan(nv) and np.isnan(self.null_value)
             ):
-                xrs_casted = xr.where(mask, nv, xrs_casted).rio.write_nodata(
-                    nv
-                )
+                xrs_casted.data = da.where(mask.data, nv, xrs_casted.data)
+                xrs_casted = xrs_casted.rio.write_nodata(nv)
         ds = make_raster_ds(xrs_casted, mask)
         if self.crs is not None:
             ds = ds.rio.write_crs(self.crs)
-- 
2.43.0


From e8a0081c73ba605fc7f41f1f3f7310b0b39ea6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 45/57] fix: save_chunks per band wrote every band of
 multi-band chunks

---
 raster_tools/raster.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index a7a43aa..9dc3cc1 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1808,8 +1808,12 @@ class Raster(_RasterBase):
         if ext and not ext.startswith("."):
             ext = "." + ext
 
-        chunk_rasters = self.get_chunk_rasters()
-        nbands, ny, nx = chunk_rasters.shape
+        nbands = self.nbands
+        row_slices, col_slices = (
+            [slice(*loc) for loc in chunks_to_array_locations(chunks)]
+            for chunks in self.data.chunks[1:]
+        )
+        ny, nx = len(row_slices), len(col_slices)
 
         rw = max(1, len(str(ny - 1)))
         cw = max(1, len(str(nx - 1)))
@@ -1819,23 +1823,23 @@ class Raster(_RasterBase):
         if parent:
             os.makedirs(parent, exist_ok=True)
 
+        def save_tile(bands, r, c, path):
+            ds = self._ds.isel(
+                band=bands, y=row_slices[r], x=col_slices[c]
+            ).copy()
+            return Raster(ds, _fast_path=True).save(path, **save_kwargs)
+
         if per_band:
             out = np.empty((nbands, ny, nx), dtype=object)
             for b, r, c in np.ndindex(nbands, ny, nx):
                 path = f"{prefix}_b{b:0{bw}d}_{r:0{rw}d}_{c:0{cw}d}{ext}"
-                out[b, r, c] = chunk_rasters[b, r, c].save(path, **save_kwargs)
+                out[b, r, c] = save_tile(slice(b, b + 1), r, c, path)
             return out
 
         out = np.empty((ny, nx), dtype=object)
-        row_slices, col_slices = (
-            [slice(*loc) for loc in chunks_to_array_locations(chunks)]
-            for chunks in self.data.chunks[1:]
-        )
         for r, c in np.ndindex(ny, nx):
             path = f"{prefix}_{r:0{rw}d}_{c:0{cw}d}{ext}"
-            ds = self._ds.isel(y=row_slices[r], x=col_slices[c]).copy()
-            tile = Raster(ds, _fast_path=True)
-            out[r, c] = tile.save(path, **save_kwargs)
+            out[r, c] = save_tile(slice(None), r, c, path)
         return out
 
     def load(self):
-- 
2.43.0


From f09751c1d430f2382e2c1dc0eea5f31f76ca6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 46/57] fix: cost distance with masked unsigned or float16
 inputs and with elevations of -9999

---
 raster_tools/distance/cost_distance.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index 51d7e97..4b47292 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -446,15 +446,9 @@ def cost_distance_analysis_numpy(
 def _normalize_raster_data(rs, missing=-1):
     data = rs.data
     # Make sure that null values are skipped
-    nv = rs.null_value
     if rs._masked:
-        if is_float(rs.dtype):
-            if not np.isnan(nv):
-                data = da.where(rs.mask, missing, data)
-            elif not np.isnan(missing):
-                data = da.where(np.isnan(data), missing, data)
-        else:
-            data = da.where(rs.mask, missing, data)
+        # The missing value may not be representable in the raster's dtype
+        data = da.where(rs.mask, missing, data.astype(F64))
     # Trim off band dim
     data = data[0]
     return data
@@ -613,7 +607,8 @@ def cost_distance_analysis(costs, sources, elevation=None, connectivity=8):
 
     data = _normalize_raster_data(costs)
     if elevation is not None:
-        elevation_null_value = -9999
+        # A value that can't be mistaken for an elevation
+        elevation_null_value = np.finfo(F64).min
         edata = _normalize_raster_data(elevation, elevation_null_value)
     else:
         edata = None
-- 
2.43.0


From d62cc4e0c81ce2849437c0bf60ef6f39f3fe581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 47/57] fix: cost distance took the null cells of uint64 source
 rasters as sources

---
 raster_tools/distance/cost_distance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raster_tools/distance/cost_distance.py b/raster_tools/distance/cost_distance.py
index 4b47292..d5041ef 100644
--- a/raster_tools/distance/cost_distance.py
+++ b/raster_tools/distance/cost_distance.py
@@ -578,7 +578,12 @@ def cost_distance_analysis(costs, sources, elevation=None, connectivity=8):
         if not sources._masked:
             raise ValueError("Sources raster must have a null value set")
         sources_null_value = sources.null_value
-        srcs = sources.data[0].astype(I64)
+        if sources_null_value > np.iinfo(I64).max:
+            # The sources are handled as int64
+            sources_null_value = get_default_null_value(I64)
+        srcs = da.where(
+            sources.mask[0], sources_null_value, sources.data[0].astype(I64)
+        )
     else:
         try:
             sources = np.asarray(sources).astype(int)
-- 
2.43.0


From 23b81c527bb5792434c62f7ca235ab395777f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 48/57] fix: proximity found targets outside of unmasked
 integer rasters

With a finite max_distance, the raster was padded with NaN and the coordinates
with 0. NaN turns into an arbitrary value in integer data, which was then
taken for a target located at the origin of the coordinate system.
---
 raster_tools/distance/proximity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 215fa09..2e9e180 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -450,8 +450,8 @@ def _get_coords_for_chunk(xc, yc, coords_block_info, block_info):
     ydepth, xdepth = coords_block_info["depth"]
     xc = da.from_array(xc, chunks=xchunks)
     yc = da.from_array(yc, chunks=ychunks)
-    xc = da.overlap.overlap(xc, depth=xdepth, boundary=0)
-    yc = da.overlap.overlap(yc, depth=ydepth, boundary=0)
+    xc = da.overlap.overlap(xc, depth=xdepth, boundary="none")
+    yc = da.overlap.overlap(yc, depth=ydepth, boundary="none")
     xc = xc.blocks[chunk_loc[1]].compute()
     yc = yc.blocks[chunk_loc[0]].compute()
     return xc, yc
@@ -605,7 +605,9 @@ def _proximity_analysis(
         _proximity_analysis_chunk,
         raster.data,
         depth=(0, ydepth, xdepth),
-        boundary=np.nan,
+        # Don't pad: NaN can't be stored in integer rasters and any substitute
+        # value could be mistaken for a target
+        boundary="none",
         meta=np.array((), dtype=out_dtype),
         # func args
         target_values=target_values,
-- 
2.43.0


From 7d5273894053f202be49b92d67fff67a29a214ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 49/57] fix: proximity failed if max_distance was larger than
 one side of the raster

---
 raster_tools/distance/proximity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 2e9e180..c3c7d8a 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -585,6 +585,10 @@ def _proximity_analysis(
             # underestimate the depth.
             resolution = _estimate_min_resolution(x, y)
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
+        # The overlap can't be larger than the raster
+        _, ny, nx = raster.shape
+        xdepth = min(xdepth, nx)
+        ydepth = min(ydepth, ny)
     coords_block_info = {
         "chunks": raster.data.chunks[1:],
         "depth": (ydepth, xdepth),
-- 
2.43.0


From a68d0c62e0f6127b5a127b663d73cf842bf96f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 50/57] fix: proximity with masked 8-bit and with float16
 rasters

Null cells of masked 8-bit rasters turned into targets because converting the
raster away from float16 replaced the NaNs with a null value. Allocation with
float16 rasters raised an error.
---
 raster_tools/distance/proximity.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index c3c7d8a..617b26a 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -603,16 +603,22 @@ def _proximity_analysis(
     raster = get_raster(raster, null_to_nan=True)
     if raster.dtype == F16:
         # Numba doesn't support float16
-        raster = raster.astype(F32)
+        data = raster.data.astype(F32)
+    else:
+        data = raster.data
+    if mode == _MODE_ALLOCATION:
+        alloc_dtype = F32 if orig_raster_dtype == F16 else orig_raster_dtype
+    else:
+        alloc_dtype = None
 
     out_data = da.map_overlap(
         _proximity_analysis_chunk,
-        raster.data,
+        data,
         depth=(0, ydepth, xdepth),
         # Don't pad: NaN can't be stored in integer rasters and any substitute
         # value could be mistaken for a target
         boundary="none",
-        meta=np.array((), dtype=out_dtype),
+        meta=np.array((), dtype=alloc_dtype or out_dtype),
         # func args
         target_values=target_values,
         xc=x,
@@ -621,10 +627,12 @@ def _proximity_analysis(
         max_distance=max_distance,
         dist_sqr_func=dist_sqr_func,
         full_precision=double_precision,
-        alloc_dtype=orig_raster_dtype if mode == _MODE_ALLOCATION else None,
-        nodata=nodata,
+        alloc_dtype=alloc_dtype,
+        nodata=F32.type(nodata) if out_dtype == F16 else nodata,
         mode=mode,
     )
+    if out_data.dtype != out_dtype:
+        out_data = out_data.astype(out_dtype)
     return data_to_raster_like(out_data, raster, nv=nodata)
 
 
-- 
2.43.0


From d8249defaefc649c1352d70fd570e92c39913ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 51/57] fix: great circle proximity missed targets in the
 southern hemisphere

The overlap of the chunks was computed with the cell size at the largest
latitude instead of at the one closest to a pole.
---
 raster_tools/distance/proximity.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 617b26a..a7f2c22 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -523,18 +523,20 @@ def _validate_lonlat_coords(lon, lat):
         )
 
 
-def _estimate_min_resolution(lon, lat):
-    x1 = lon[0]
-    y1 = lat.max()
-    x2 = lon[1]
-    y2 = y1
-    xmin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
-    x1 = lon[0]
-    x2 = lon[0]
-    # Get two largest latitudes
-    y1, y2 = np.partition(lat, -2)[-2:]
-    ymin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
-    return xmin, ymin
+def _estimate_min_resolution(lon, lat, max_distance):
+    # Estimate the smallest cell size, in meters, such that any two cells that
+    # are within max_distance of each other are separated by at most
+    # max_distance / cell size columns and rows.
+    r = 6371009.0
+    # The hemisphere matters: the highest latitude is the one closest to a pole
+    lat_max = np.radians(np.abs(lat).max())
+    xres = np.radians(np.abs(lon[1] - lon[0]))
+    yres = np.radians(np.abs(lat[1] - lat[0]))
+    # hav(d / r) >= cos(lat_max)^2 * hav(dlon)
+    h = np.sin(min(max_distance / (2.0 * r), np.pi / 2))
+    h = h / np.cos(lat_max)
+    dlon = 2.0 * np.arcsin(min(h, 1.0))
+    return max_distance * xres / dlon, r * yres
 
 
 def _proximity_analysis(
@@ -583,7 +585,9 @@ def _proximity_analysis(
             # at highest latitude) and use that for chunk overlap calculation.
             # Use minimum so that we always overestimate and never
             # underestimate the depth.
-            resolution = _estimate_min_resolution(x, y)
+            resolution = _estimate_min_resolution(
+                x, y, max_distance
+            )
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
         # The overlap can't be larger than the raster
         _, ny, nx = raster.shape
-- 
2.43.0


From 8d7f5e7b47988c63cdb0181e369945c96848e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 52/57] fix: line length weighting fields that are not named
 "weights"

---
 raster_tools/line_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 1b4a711..80d271e 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -187,7 +187,7 @@ def _length(gdf, xc, yc, radius, field=None, dtype=F32):
         gdf = gdf[cols]
         if field is not None:
             # Use field as weights
-            gdf = gdf.rename({field: "weights"})
+            gdf = gdf.rename(columns={field: "weights"})
             if is_bool(gdf.weights.dtype):
                 gdf = gdf.astype({"weights": I8})
 
-- 
2.43.0


From f9458be148a36b1b12488f6b4fb0d10838fbb775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 53/57] fix: line length failed if the radius was larger than
 the raster

---
 raster_tools/line_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 80d271e..e3990eb 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -295,6 +295,9 @@ def length(features, like_rast, radius, weighting_field=None):
     gdf = features.to_crs(like_rast.crs).data
 
     xdepth, ydepth = np.ceil(radius / np.abs(like_rast.resolution)).astype(int)
+    # The overlap can't be larger than the raster
+    xdepth = min(xdepth, like_rast.shape[2])
+    ydepth = min(ydepth, like_rast.shape[1])
 
     partials = []
     for part in gdf.partitions:
-- 
2.43.0


From cc24cbc0c7839c2ed6f77a3a2d32d15f0b170b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 54/57] fix: Raster(dataset) took datasets over that were not
 normalised

A lazy raster/mask dataset with, for example, increasing y coordinates or
bands that do not start at 1 was used as it is and a mask with different
chunks than the data was kept.
---
 raster_tools/raster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 9dc3cc1..42ba3c0 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1234,6 +1234,10 @@ def _dataset_to_raster_ds(ds_in):
         and ds_in.mask.dims == ("band", "y", "x")
         and ds_in.raster.chunks == ds_in.mask.chunks
         and ds_in.raster.rio.crs == ds_in.mask.rio.crs
+        and ds_in.raster.data.chunksize[0] == 1
+        and ds_in.band.to_numpy().tolist() == [*range(1, ds_in.band.size + 1)]
+        and not is_strictly_decreasing(ds_in.x)
+        and not is_strictly_increasing(ds_in.y)
     ):
         return ds_in
 
@@ -1255,7 +1259,7 @@ def _dataset_to_raster_ds(ds_in):
     xmask = normalize_xarray_data(xmask)
     if xmask.shape != xdata.shape:
         raise ValueError("raster and mask dimensions do not match")
-    if not dask.is_dask_collection(xmask):
+    if xmask.chunks != xdata.chunks:
         xmask = xmask.chunk(chunks=to_chunk_dict(xdata.chunks))
 
     nv = _try_to_get_null_value_xarray(xdata)
-- 
2.43.0


From 4c56376c060e964e399dd146b518aebf7102c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 55/57] fix: masks with other chunks than the data broke the
 raster

Building a raster from dask data and a NumPy mask, for example, left the two
with different chunks, for which to_vector, to_points and to_polygons fail and
other operations give wrong results.
---
 raster_tools/raster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 42ba3c0..ce46f9e 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -883,6 +883,8 @@ def data_to_xr_raster_ds(
         mask = normalize_data(mask)
         if data.shape != mask.shape:
             raise ValueError("data and mask dimensions do not match")
+        if mask.chunks != data.chunks:
+            mask = mask.rechunk(data.chunks)
         nv = get_default_null_value(data.dtype) if nv is None else nv
         if burn:
             data = da.where(mask, nv, data)
@@ -1118,6 +1120,8 @@ def dataarray_to_xr_raster_ds(xdata, xmask=None, crs=None):
         xmask = get_mask_from_data(xdata, xdata.rio.nodata)
     else:
         xmask = dataarray_to_xr_raster(xmask)
+        if xmask.chunks != xdata.chunks and xmask.shape == xdata.shape:
+            xmask = xmask.chunk(to_chunk_dict(xdata.chunks))
     ds = make_raster_ds(xdata, xmask)
     if crs is not None:
         ds = ds.rio.write_crs(crs)
-- 
2.43.0


From ea96907d106ff75050e9d10f331fa76759fb5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 56/57] fix: model_predict_raster declared float64 for models
 with other outputs

---
 raster_tools/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index 79052a4..a587962 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -421,7 +421,8 @@ def _pred_raster(xarr, model, nbands):
     pred = model.predict(np.nan_to_num(vl_arr))
     if pred.ndim == 1:
         pred = np.expand_dims(pred, 1)
-    return np.moveaxis(pred, -1, 0).reshape(nbands, y, x)
+    pred = np.moveaxis(pred, -1, 0).reshape(nbands, y, x)
+    return pred.astype(F64, copy=False)
 
 
 def model_predict_raster(raster, model, n_outputs=1):
-- 
2.43.0


From deefdc01a1e5718a8ccb94435d563280343f91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 57/57] fix: model_predict_vector failed for partitions without
 valid rows

---
 raster_tools/general.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a587962..cd834e1 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -502,12 +502,13 @@ def _pred_df(df, model, columns, n_outputs, prefix):
     x = df[columns].to_numpy()
     valid_mask = ~np.isnan(x).any(axis=1)
 
-    y = model.predict(x[valid_mask])
-    if y.ndim == 1:
-        y = np.expand_dims(y, 1)
-    pred = np.empty((len(df), n_outputs), dtype=F64)
-    pred[valid_mask] = y
-    pred[~valid_mask] = np.nan
+    pred = np.full((len(df), n_outputs), np.nan, dtype=F64)
+    # Models are not required to handle empty inputs
+    if valid_mask.any():
+        y = model.predict(x[valid_mask])
+        if y.ndim == 1:
+            y = np.expand_dims(y, 1)
+        pred[valid_mask] = y
 
     dic = {}
     if pred.shape[1] > 1:
-- 
2.43.0

