"""The flow directions are read from the raster (the routing algorithm is the library's, not hydrobricks')."""
import numpy as np
from pandas import ShimMissing

import rasterio

STEP = {1: (0, 1), 2: (1, 1), 4: (1, 0), 8: (1, -1), 16: (0, -1), 32: (-1, -1), 64: (-1, 0), 128: (-1, 1)}


class Raster(np.ndarray):
    pass


class Grid:
    @classmethod
    def from_raster(cls, path):
        return cls()

    def read_raster(self, path):
        src = rasterio.open(path)
        r = src.read(1).view(Raster)
        r.way = np.array(src.extra["ways"])
        return r

    def _same(self, dem):
        r = np.array(dem).view(Raster)
        r.way = dem.way
        return r

    fill_pits = fill_depressions = resolve_flats = _same

    def flowdir(self, dem, routing="d8", nodata_out=None, **kw):
        if kw or routing != "d8":
            raise ShimMissing("pysheds.flowdir")
        return np.array(dem.way, dtype=np.int64).view(Raster)

    def accumulation(self, fdir, mask=None, routing="d8", nodata_out=None, **kw):
        if kw or routing != "d8":
            raise ShimMissing("pysheds.accumulation %s" % sorted(kw))
        f = np.array(fdir)
        m = np.ones(f.shape, dtype=bool) if mask is None else np.asarray(mask)
        acc = np.where(m, 1.0, 0.0)
        for i in range(f.shape[0]):
            for j in range(f.shape[1]):
                if not m[i, j]:
                    continue
                p = (i, j)
                while int(f[p]) in STEP:
                    s = STEP[int(f[p])]
                    p = (p[0] + s[0], p[1] + s[1])
                    if not (0 <= p[0] < f.shape[0] and 0 <= p[1] < f.shape[1]) or not m[p]:
                        break
                    acc[p] += 1
        return acc.view(Raster)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("pysheds." + name)
