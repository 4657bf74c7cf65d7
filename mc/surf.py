"""Published surface formulas on whole arrays (NaN is null)."""

import numpy as np


def around(z):
    """The nine shifted arrays of the interior, by compass position."""
    n, s = slice(None, -2), slice(2, None)
    c = slice(1, -1)
    return {
        "nw": z[n, n], "n": z[n, c], "ne": z[n, s],
        "w": z[c, n], "c": z[c, c], "e": z[c, s],
        "sw": z[s, n], "s": z[s, c], "se": z[s, s],
    }


def gradient(z, rx, ry):
    """Horn's gradient: x grows to the east, y grows to the south."""
    a = around(z)
    dx = (a["ne"] + 2 * a["e"] + a["se"]) - (a["nw"] + 2 * a["w"] + a["sw"])
    dy = (a["sw"] + 2 * a["s"] + a["se"]) - (a["nw"] + 2 * a["n"] + a["ne"])
    return dx / (8 * rx), dy / (8 * ry)


def frame(inner, shape):
    out = np.full(shape, np.nan)
    out[1:-1, 1:-1] = inner
    return out


def slope(z, rx, ry, degrees=True):
    dx, dy = gradient(z, rx, ry)
    s = np.hypot(dx, dy)
    return frame(np.degrees(np.arctan(s)) if degrees else s, z.shape)


def aspect(z, rx=1, ry=1):
    dx, dy = gradient(z, 1.0, 1.0)
    a = np.degrees(np.arctan2(dy, -dx))
    comp = np.where(a > 90, 450.0 - a, 90.0 - a)
    flat = (dx == 0) & (dy == 0)
    out = np.where(flat, -1.0, comp)
    return frame(np.where(np.isnan(dx) | np.isnan(dy), np.nan, out), z.shape)


def curvature(z, rx, ry):
    a = around(z)
    d = (a["w"] + a["e"]) / 2 - a["c"]
    e = (a["n"] + a["s"]) / 2 - a["c"]
    return frame(-2 * (d + e) * 100 / (rx * ry), z.shape)


def hillshade(z, rx, ry, azimuth=315, altitude=45):
    dx, dy = gradient(z, rx, ry)
    zen = np.radians(90 - altitude)
    az = np.radians((360 - azimuth + 90) % 360)
    s = np.arctan(np.hypot(dx, dy))
    asp = np.arctan2(dy, -dx)
    h = 255 * (
        np.cos(zen) * np.cos(s) + np.sin(zen) * np.sin(s) * np.cos(az - asp)
    )
    return frame(np.maximum(h, 0), z.shape)


def surface_area(z, rx, ry):
    """Jenness: eight triangles around the cell, halved side lengths."""
    a = around(z)
    ring = ["nw", "n", "ne", "e", "se", "s", "sw", "w"]
    pos = {
        "nw": (-rx, ry), "n": (0, ry), "ne": (rx, ry), "e": (rx, 0),
        "se": (rx, -ry), "s": (0, -ry), "sw": (-rx, -ry), "w": (-rx, 0),
    }
    total = 0.0
    for p, q in zip(ring, ring[1:] + ring[:1]):
        ux, uy = pos[p]
        vx, vy = pos[q]
        uz, vz = a[p] - a["c"], a[q] - a["c"]
        # half the cross product of half sized vectors
        cx, cy, cz = uy * vz - uz * vy, uz * vx - ux * vz, ux * vy - uy * vx
        total = total + 0.125 * np.sqrt(cx * cx + cy * cy + cz * cz)
    return frame(total, z.shape)
