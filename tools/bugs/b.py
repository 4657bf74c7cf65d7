bug(
    "c10-unique-wide", "C10",
    [("raster_tools/focal.py",
      "            n = window.size\n",
      "            n = max(window.shape)\n")],
    """
r = rast(np.arange(20 * 20, dtype="int32").reshape(20, 20))
out = rts.focal.focal(r, "unique", 17, 17).values
assert out.max() == 289, out.max()
""",
    "an unmasked raster with a window of more than 255 distinct values",
    "focal unique counts are stored in 8 bits and wrap around",
)
bug(
    "c11-masked-cval", "C11",
    [("raster_tools/focal.py",
      "            boundary = cval\n",
      "            boundary = 0\n")],
    """
r = rast(np.ones((4, 5)), np.eye(4, 5, dtype=bool), nv=-1.0)
out = rts.focal.correlate(r, np.ones((3, 3)), mode="constant", cval=10.0).values
assert out[0, 0, 4] == 5 * 10 + 4, out
""",
    "mode='constant' with a fill value other than 0 on a masked raster",
    "the area outside the raster is 0 instead of cval",
)
bug(
    "c12-hill-north", "C12",
    [("raster_tools/surface.py",
      "                elif dzdy < 0:\n                    asr = 2 * np.pi - np.pi / 2\n",
      "                elif dzdy < 0:\n                    asr = 2 * np.pi\n")],
    """
z = np.arange(5, dtype=float)[:, None] * np.ones((1, 5)) * 4
up = rts.surface.hillshade(rast(z[::-1].copy()), 180, 45).values[0, 2, 2]
left = rts.surface.hillshade(rast(z.T[:, ::-1].copy()), 90, 45).values[0, 2, 2]
down = rts.surface.hillshade(rast(z), 0, 45).values[0, 2, 2]
right = rts.surface.hillshade(rast(z.T.copy()), 270, 45).values[0, 2, 2]
# each slope seen against the sun at the same relative angle
vals = [int(v) for v in (up, down, left, right)]
assert max(vals) - min(vals) <= 1, vals
""",
    "a slope facing exactly along the y axis, in one of the two directions",
    "its hillshade is computed for another aspect",
)
