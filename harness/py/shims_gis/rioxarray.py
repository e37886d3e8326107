import numpy as np
from pandas import ShimMissing

import rasterio


class Layer(np.ndarray):
    def load(self):
        return self

    def to_numpy(self):
        return np.array(self)

    def close(self):
        pass

    def drop_vars(self, name):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def layer(a, res):
    a = np.array(a).view(Layer)
    a.res = res
    return a


class Raster:
    def __init__(self, src, masked):
        self.src, self.masked = src, masked

    def drop_vars(self, name):
        if name != "band":
            raise ShimMissing("rioxarray.drop_vars")
        return self

    def __getitem__(self, k):
        if k != 0:
            raise ShimMissing("rioxarray[...]")
        a = self.src.read(1)
        if self.masked:
            a = self.src.read(1, masked=True).astype(float).filled(np.nan)
        return layer(a, self.src.res)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def open_rasterio(path, masked=False, **kw):
    if kw:
        raise ShimMissing("rioxarray.open_rasterio %s" % sorted(kw))
    return Raster(rasterio.open(path), masked)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("rioxarray." + name)


class _Rio:
    def __init__(self, a):
        self._a = a

    def write_crs(self, crs, inplace=False):
        if not inplace:
            raise ShimMissing("rio.write_crs without inplace")
        self._a.attrs["crs"] = crs
        return self._a

    def __getattr__(self, name):
        raise ShimMissing("rio." + name)


class _Coord:
    def __init__(self):
        self.attrs = {}


def _coord(name):
    def get(a):
        return a.__dict__.setdefault("coord_" + name, _Coord())
    return property(get)


def _to_netcdf(a, path):
    import pickle
    with open(path, "wb") as f:
        pickle.dump(dict(data=np.array(a.values), dims=a.dims, coords={k: np.array(v) for k, v in a.coords.items()}, name=a.name, crs=a.attrs.get("crs")), f)


try:
    import xarray
    xarray.DataArray.rio = property(_Rio)
    xarray.DataArray.x, xarray.DataArray.y = _coord("x"), _coord("y")
    xarray.DataArray.to_netcdf = _to_netcdf
    xarray.DataArray.close = lambda a: None
except ImportError:
    pass
