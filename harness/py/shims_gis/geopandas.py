"""A layer is a pickle of its reference system, fields and geometries (lists of boxes)."""
import os
import pickle

import numpy as np
from pandas import ShimMissing

from pyproj import shift
from shapely.geometry import Boxes


class Geometry:
    def __init__(self, g):
        self._g = list(g)

    @property
    def values(self):
        return np.array(self._g + [None], dtype=object)[:-1]

    @property
    def area(self):
        return np.array([g.area for g in self._g])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ShimMissing("geopandas.GeoSeries." + name)


class GeoDataFrame:
    def __init__(self, crs, fields, geoms):
        self.crs, self._f, self._g = crs, fields, list(geoms)

    @property
    def columns(self):
        return list(self._f) + ["geometry"]

    @property
    def empty(self):
        return not self._g

    @property
    def geometry(self):
        return Geometry(self._g)

    @property
    def iloc(self):
        return _ILoc(self)

    def __len__(self):
        return len(self._g)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k == "geometry":
                return self.geometry
            if k not in self._f:
                raise KeyError(k)
            return np.array(self._f[k] + [None], dtype=object)[:-1]
        if isinstance(k, list) and k and all(isinstance(n, str) for n in k):
            if "geometry" not in k:
                raise ShimMissing("geopandas.GeoDataFrame[...] without geometry")
            return GeoDataFrame(self.crs, {n: self._f[n] for n in k if n != "geometry"}, self._g)
        k = np.asarray(k)
        if k.dtype == bool:
            return self._take([i for i in range(len(self)) if k[i]])
        raise ShimMissing("geopandas.GeoDataFrame[...]")

    def _take(self, ii):
        return GeoDataFrame(self.crs, {n: [v[i] for i in ii] for n, v in self._f.items()}, [self._g[i] for i in ii])

    def __setitem__(self, k, v):
        if not isinstance(k, str) or k == "geometry" or np.ndim(v):
            raise ShimMissing("geopandas.GeoDataFrame[...] =")
        self._f[k] = [v] * len(self)

    def iterrows(self):
        for i, g in enumerate(self._g):
            yield i, dict({n: v[i] for n, v in self._f.items()}, geometry=g)

    def dissolve(self, by=None, as_index=True):
        if not self._g or by not in self._f or as_index or len(set(self._f[by])) > 1:
            raise ShimMissing("geopandas.GeoDataFrame.dissolve")
        return GeoDataFrame(self.crs, {by: self._f[by][:1]}, [Boxes(self._g)])

    def copy(self):
        return GeoDataFrame(self.crs, {n: list(v) for n, v in self._f.items()}, self._g)

    def to_crs(self, crs, inplace=False):
        dx, dy = shift(self.crs, crs)
        if inplace:
            self.crs, self._g = crs, [g.moved(dx, dy) for g in self._g]
            return None
        return GeoDataFrame(crs, self._f, [g.moved(dx, dy) for g in self._g])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ShimMissing("geopandas.GeoDataFrame." + name)


class _ILoc:
    def __init__(self, g):
        self._g = g

    def __getitem__(self, k):
        if not isinstance(k, list):
            raise ShimMissing("geopandas.iloc")
        return self._g._take(k)


def clip(df, shape):
    if isinstance(shape, GeoDataFrame):
        if shape.crs != df.crs:
            raise ValueError("clip with another reference system")
        shape = Boxes(shape._g)
    out = [(i, g.intersection(shape)) for i, g in enumerate(df._g)]
    out = [(i, g) for i, g in out if not g.is_empty]
    return GeoDataFrame(df.crs, {n: [v[i] for i, g in out] for n, v in df._f.items()}, [g for i, g in out])


def read_file(path):
    if not os.path.isfile(path):
        raise OSError("%s: No such file or directory" % path)
    with open(path, "rb") as f:
        b = pickle.load(f)
    return GeoDataFrame(b["crs"], b["fields"], [Boxes(g) for g in b["geoms"]])


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("geopandas." + name)
