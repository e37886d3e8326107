"""Slope and aspect from the eight neighbours (Horn), undefined along the border, aspect -1 where flat, as the library has it."""
import numpy as np

from rioxarray import layer


def _d(z, i, j):
    a, b, c = z[i - 1, j - 1], z[i - 1, j], z[i - 1, j + 1]
    d, f = z[i, j - 1], z[i, j + 1]
    g, h, k = z[i + 1, j - 1], z[i + 1, j], z[i + 1, j + 1]
    return ((c + 2 * f + k) - (a + 2 * d + g)) / 8, ((g + 2 * h + k) - (a + 2 * b + c)) / 8


def slope(agg, name="slope"):
    z = np.array(agg, dtype="float32")
    out = np.full(z.shape, np.nan, dtype="float32")
    for i in range(1, z.shape[0] - 1):
        for j in range(1, z.shape[1] - 1):
            dx, dy = _d(z, i, j)
            dx, dy = dx / agg.res[0], dy / agg.res[1]
            out[i, j] = np.arctan((dx * dx + dy * dy) ** .5) * 57.29578
    return layer(out, agg.res)


def aspect(agg, name="aspect"):
    z = np.array(agg, dtype="float32")
    out = np.full(z.shape, np.nan, dtype="float32")
    for i in range(1, z.shape[0] - 1):
        for j in range(1, z.shape[1] - 1):
            dx, dy = _d(z, i, j)
            if np.isnan(dx) or np.isnan(dy):
                continue
            if dx == 0 and dy == 0:
                out[i, j] = -1
                continue
            a = np.arctan2(dy, -dx) * 180 / np.pi
            out[i, j] = 90 - a if a < 0 else 360 - a + 90 if a > 90 else 90 - a
    return layer(out, agg.res)
