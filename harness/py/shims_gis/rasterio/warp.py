import numpy as np
from pandas import ShimMissing

from pyproj import shift


def reproject(source, destination=None, src_transform=None, src_crs=None, src_nodata=None, dst_transform=None, dst_crs=None,
              dst_nodata=None, resampling=0, init_dest_nodata=True, **kw):
    if kw:
        raise ShimMissing("rasterio.warp.reproject %s" % sorted(kw))
    nodata = dst_nodata if dst_nodata is not None else src_nodata if src_nodata is not None else 0
    if init_dest_nodata:
        destination[...] = nodata
    dx, dy = shift(dst_crs, src_crs)
    s, d = src_transform, dst_transform
    resampling = int(resampling)
    for i in range(destination.shape[0]):
        for j in range(destination.shape[1]):
            x0, x1 = d[2] + d[0] * j + dx, d[2] + d[0] * (j + 1) + dx
            y0, y1 = d[5] + d[4] * i + dy, d[5] + d[4] * (i + 1) + dy
            if resampling == 0:
                c, r = int(np.floor(((x0 + x1) / 2 - s[2]) / s[0])), int(np.floor(((y0 + y1) / 2 - s[5]) / s[4]))
                if 0 <= r < source.shape[0] and 0 <= c < source.shape[1]:
                    destination[i, j] = source[r, c]
                continue
            c0, c1 = (x0 - s[2]) / s[0], (x1 - s[2]) / s[0]
            r0, r1 = (y0 - s[5]) / s[4], (y1 - s[5]) / s[4]
            if any(abs(v - round(v)) > 1e-9 for v in (c0, c1, r0, r1)) or round(c1) == round(c0) or round(r1) == round(r0):
                raise ShimMissing("reprojection between grids that are not aligned")
            box = source[max(0, round(r0)):max(0, round(r1)), max(0, round(c0)):max(0, round(c1))]
            box = box[~np.isnan(box)] if box.dtype.kind == "f" else box.ravel()
            if src_nodata is not None:
                box = box[box != src_nodata]
            if not box.size:
                continue
            if resampling == 5:
                v = box.mean()
            elif resampling == 6:
                u, n = np.unique(box, return_counts=True)
                if (n == n.max()).sum() > 1:
                    raise ShimMissing("a tie of the mode")
                v = u[n.argmax()]
            elif resampling == 8:
                v = box.max()
            elif resampling == 9:
                v = box.min()
            elif resampling == 13:
                v = box.sum()
            else:
                raise ShimMissing("resampling %d" % resampling)
            destination[i, j] = v
