bug(
    "c01-multiout-nv", "C01",
    [("raster_tools/raster.py",
      "            nvs = [get_default_null_value(x.dtype) for x in xr_out]\n",
      "            nvs = [get_default_null_value(xr_out[0].dtype)] * len(xr_out)\n")],
    """
r = rast([[1.5, 2.0], [3.0, 4.0]], [[1, 0], [0, 0]], nv=-1.0)
a, b = np.frexp(r)
assert b.dtype == np.dtype("int32"), b.dtype
assert b.null_value == np.iinfo("int32").min, b.null_value
""",
    "a multi-output ufunc whose outputs have different dtypes (frexp), on a "
    "masked raster",
    "the second output takes the first output's null value and is promoted",
)
bug(
    "c02-setnull-nullmask", "C02",
    [("raster_tools/raster.py",
      "            new_mask_data |= mask_raster.data & (~mask_raster.mask)\n",
      "            new_mask_data |= mask_raster.data | mask_raster.mask\n")],
    """
r = rast([[1, 2], [3, 4]], [[0, 0], [0, 1]], nv=-1)
m = rast(np.array([[1, 0], [0, 0]], "uint8"), [[0, 1], [0, 0]], nv=255)
out = r.set_null(m)
assert out.mask.compute().tolist() == [[[True, False], [False, True]]]
""",
    "set_null with a mask raster that has null cells itself",
    "null cells of the mask raster become null cells of the result",
)
bug(
    "c13-unique-dtype", "C13",
    [("raster_tools/general.py",
      '    if stype == "unique":\n        out_dtype = np.min_scalar_type(data.shape[0])\n',
      '    if stype == "unique":\n        out_dtype = np.min_scalar_type(data.shape[0] - 1)\n')],
    """
r = rast(np.arange(256 * 2, dtype="int32").reshape(256, 1, 2).repeat(2, axis=1))
out = rts.general.local_stats(r, "unique").values
assert (out == 256).all(), out
""",
    "exactly 256 (or 65536) bands that are all distinct",
    "the count wraps around to zero",
)
bug(
    "c16-remap-sorted", "C16",
    [("raster_tools/general.py",
      "        mappings = [list(m) for m in mappings]\n",
      "        mappings = sorted((list(m) for m in mappings), key=lambda m: m[:2])\n")],
    """
r = rast(np.array([[1, 5], [7, 12]], "int32"))
out = rts.general.remap_range(r, [(4, 10, 100), (0, 6, 50)]).values
assert out.tolist() == [[[50, 100], [100, 12]]], out
""",
    "overlapping ranges that are not listed in ascending order",
    "the range with the smallest start wins instead of the first one",
)
bug(
    "c18-stack-derived-mask", "C18",
    [("raster_tools/_stack.py",
      "        data, mask=mask, x=x, y=y, crs=dst_grid.crs, nv=nodata\n",
      "        data, x=x, y=y, crs=dst_grid.crs, nv=nodata\n")],
    """
a = rast([[5, 2], [3, 4]], [[1, 0], [0, 0]], nv=5)
b = rast([[5, 5], [7, 8]], [[0, 0], [0, 1]], nv=8)
out = rts.stack_bands([a, b])
assert out.mask.compute().tolist() == [
    [[True, False], [False, False]], [[False, False], [False, True]]
]
""",
    "a valid cell of a later raster equal to the first raster's null value",
    "valid cells become null",
)
bug(
    "c19-odd-split", "C19",
    [("raster_tools/_mosaic.py",
      "    right = _paint_recursive(stacked_data[n // 2 :], dst_nodata, mosaic_method)\n",
      "    right = _paint_recursive(stacked_data[-(n // 2) :], dst_nodata, mosaic_method)\n")],
    """
rs = [
    rast(np.full((3, 4), i), np.arange(12).reshape(3, 4) != i, nv=-1)
    for i in range(10)
]
for n in range(1, 11):
    out = rts.mosaic(rs[:n], "first")
    v = out.values[0].ravel()
    assert v[:n].tolist() == list(range(n)), (n, v)
""",
    "8, 10, ... rasters, with cells that only the middle one covers",
    "the middle raster of the stack is dropped",
)
bug(
    "c24-quadrant-odd", "C24",
    [("raster_tools/raster.py",
      "        slice_sw = np.s_[:, ny // 2 :, : nx // 2]\n",
      "        slice_sw = np.s_[:, ny - ny // 2 :, : nx // 2]\n")],
    """
r = rast(np.arange(5 * 6).reshape(5, 6))
q = r.to_quadrants()
assert sum(p.size for p in q) == r.size
""",
    "an odd number of rows",
    "the middle row is missing from the southwest quadrant",
)
