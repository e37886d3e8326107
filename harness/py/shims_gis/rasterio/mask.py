"""Polygons are lists of boxes (x0, y0, x1, y1)."""
import numpy as np
from pandas import ShimMissing


def covered(transform, shape, boxes, all_touched):
    t = transform
    inside = np.zeros(shape, dtype=bool)
    for i in range(shape[0]):
        for j in range(shape[1]):
            x0, x1 = sorted((t[2] + t[0] * j, t[2] + t[0] * (j + 1)))
            y0, y1 = sorted((t[5] + t[4] * i, t[5] + t[4] * (i + 1)))
            for b in boxes:
                if all_touched:
                    hit = b[0] < x1 and b[2] > x0 and b[1] < y1 and b[3] > y0
                else:
                    hit = b[0] < (x0 + x1) / 2 < b[2] and b[1] < (y0 + y1) / 2 < b[3]
                if hit:
                    inside[i, j] = True
    return inside


def mask(dataset, shapes, all_touched=False, invert=False, nodata=None, filled=True, crop=False, pad=False, indexes=None, **kw):
    if kw or crop or pad or invert or indexes is not None:
        raise ShimMissing("rasterio.mask %s" % sorted(kw))
    if nodata is None:
        nodata = dataset.nodata if dataset.nodata is not None else 0
    boxes = [b for g in shapes for b in g["coordinates"]]
    a = dataset.read(masked=True)
    hide = ~covered(dataset.transform, dataset.shape, boxes, all_touched)
    a = np.ma.array(a.data, mask=np.ma.getmaskarray(a) | hide[None])
    if not filled:
        a.fill_value = nodata
        return a, dataset.transform
    return a.filled(nodata), dataset.transform
