bug(
    "c27-last-batch", "C27",
    [("raster_tools/line_stats.py",
      "        for i in range(0, n, batch_size):\n",
      "        for i in range(0, n - 1, batch_size):\n")],
    """
import geopandas as gpd
from shapely.geometry import LineString
line = LineString([(101, 955), (149, 955)])
gdf = gpd.GeoDataFrame(geometry=[line] * 701, crs="EPSG:5070")
like = rast(np.zeros((5, 5), "float32"))
out = rts.line_stats.length(rts.Vector(gdf), like, 12.0)
one = rts.line_stats.length(rts.Vector(gdf[:1]), like, 12.0)
v = np.asarray(out.values)[0, -1, 2] / np.asarray(one.values)[0, -1, 2]
assert abs(v - 701) < 0.5, v
""",
    "701 lines in one partition, or many vertices, so that the last batch is a single line",
    "the last line does not count",
)
bug(
    "c30-mask-last-band", "C30",
    [("raster_tools/general.py",
      '        xmask = in_raster.xmask.any(dim="band", keepdims=True)\n',
      '        xmask = in_raster.xmask[-1:]\n')],
    """
a = np.arange(24, dtype=float).reshape(2, 3, 4)
mask = np.zeros(a.shape, bool)
mask[0, 1, 2] = True
class Sum:
    def predict(self, x):
        return x.sum(axis=1)
r = rast(a, mask, nv=-1.0)
out = rts.general.model_predict_raster(r, Sum())
got = np.asarray(out.mask.compute())
assert got.shape == (1, 3, 4) and got[0, 1, 2] and got.sum() == 1, got
""",
    "a cell that is null in some band other than the last",
    "the prediction for a cell with missing predictors is reported as valid",
)
bug(
    "c26-depth-swap", "C26",
    [("raster_tools/distance/proximity.py",
      "        xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)\n",
      "        ydepth, xdepth = np.ceil(max_distance / np.abs(resolution)).astype(int)\n")],
    """
a = np.zeros((1, 4, 12), "int32")
a[0, 0, 0] = 1
x = 105.0 + np.arange(12) * 10.0
y = 995.0 - np.arange(4) * 60.0
def build(ch):
    return data_to_raster(da.from_array(a, chunks=ch, name=False), x=x, y=y, crs="EPSG:5070")
one = rts.distance.pa_proximity(build((1, 4, 12)), max_distance=60.0).values
many = rts.distance.pa_proximity(build((1, 4, 2)), max_distance=60.0).values
assert np.array_equal(one, many), (one, many)
""",
    "cells that are not square, several chunks and a maximum distance",
    "targets in neighbouring chunks are missed along the finer axis",
)
