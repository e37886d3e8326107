"""A stand-in for rioxarray on the arrays of the xarray beside it: rasters in systems that are shifts of one another."""
import importlib.util
import os
import sys

import numpy as np
import rasterio
import xarray
from pandas import ShimMissing
from pyproj import shift


def _beside():
    """The rasters of the stand-in for the topography, which has the same name."""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims_gis", "rioxarray.py")
    spec = importlib.util.spec_from_file_location("rioxarray_plain", p)
    m = importlib.util.module_from_spec(spec)
    kept, sys.modules["xarray"] = sys.modules.get("xarray"), None      # (it would change the arrays beside this one)
    try:
        spec.loader.exec_module(m)
    finally:
        sys.modules["xarray"] = kept
    return m


plain = _beside()
Layer, layer = plain.Layer, plain.layer


def name(crs):
    s = str(crs).upper()
    return s if s.startswith("EPSG:") else "EPSG:" + s


class CRS(str):
    def to_epsg(self):
        return int(self.split(":")[1])


class OneDimensionalRaster(Exception):
    pass


def edges(c):
    """Of the cells of regular coordinates: the start of the first and the (signed) size."""
    if len(c) < 2:
        raise OneDimensionalRaster("Only 1 dimenional array found. Cannot calculate the resolution.")
    d = (c[-1] - c[0]) / (len(c) - 1)
    return c[0] - d / 2, d


class Rio:
    def __init__(self, a):
        self._a = a

    @property
    def crs(self):
        return None if self._a._crs is None else CRS(name(self._a._crs))

    @property
    def nodata(self):
        return self._a._nodata

    def write_crs(self, crs, inplace=False):
        a = self._a if inplace else self._a.copy()
        a._crs = name(crs)
        return a

    def reproject(self, crs, **kw):
        if kw:
            raise ShimMissing("rio.reproject %s" % sorted(kw))
        a = self._a
        dx, dy = shift(name(a._crs), name(crs))
        r = a._like(a._d.copy(), None, {"y": a._c["y"] + dy, "x": a._c["x"] + dx})
        r._crs = name(crs)
        return r

    def reproject_match(self, match, resampling=0, nodata=None, Resampling=None, **kw):
        # (a keyword "Resampling" goes on to the options of GDAL, which knows none of that name)
        if kw:
            raise ShimMissing("rio.reproject_match %s" % sorted(kw))
        a = self._a
        if a.dims != ("y", "x") or match.dims[-2:] != ("y", "x"):
            raise ValueError("Invalid dimension order. Expected order: ('y', 'x')")
        if a._crs is None or match._crs is None:
            raise ValueError("CRS not found. Please set the CRS with 'rio.write_crs()'.")
        src = a._d.astype(float)
        if a._nodata is not None:
            src = np.where(src == a._nodata, np.nan, src)
        dx, dy = shift(name(match._crs), name(a._crs))
        (sx, hx), (sy, hy) = edges(a._c["x"]), edges(a._c["y"])
        my, mx = match._c["y"] + dy, match._c["x"] + dx
        out = np.full((len(my), len(mx)), np.nan)
        if int(resampling) == 0:
            ci, ri = np.floor((mx - sx) / hx).astype(int), np.floor((my - sy) / hy).astype(int)
            ok = np.outer((ri >= 0) & (ri < src.shape[0]), (ci >= 0) & (ci < src.shape[1]))
            v = src[np.clip(ri, 0, src.shape[0] - 1)][:, np.clip(ci, 0, src.shape[1] - 1)]
            out = np.where(ok, v, np.nan)
        elif int(resampling) == 5:
            (tx, gx), (ty, gy) = edges(mx), edges(my)
            for i in range(len(my)):
                for j in range(len(mx)):
                    c0, c1 = sorted(((tx + gx * j - sx) / hx, (tx + gx * (j + 1) - sx) / hx))
                    r0, r1 = sorted(((ty + gy * i - sy) / hy, (ty + gy * (i + 1) - sy) / hy))
                    if any(abs(v - round(v)) > 1e-6 for v in (c0, c1, r0, r1)):
                        raise ShimMissing("averages over grids that are not aligned")
                    box = src[max(0, round(r0)):max(0, round(r1)), max(0, round(c0)):max(0, round(c1))]
                    box = box[~np.isnan(box)]
                    if box.size:
                        out[i, j] = box.mean()
        else:
            raise ShimMissing("resampling %s" % resampling)
        r = xarray.DataArray(out, {"y": match._c["y"], "x": match._c["x"]}, ("y", "x"))
        r._crs = match._crs
        return r

    def __getattr__(self, n):
        raise ShimMissing("rio." + n)


def open_rasterio(path, **kw):
    if kw:
        raise ShimMissing("rioxarray.open_rasterio %s" % sorted(kw))
    s = rasterio.open(path)
    d, t = s.read(1), s.transform
    y = t[5] + t[4] * (np.arange(d.shape[0]) + 0.5)
    x = t[2] + t[0] * (np.arange(d.shape[1]) + 0.5)
    r = Opened(d[None], {"band": np.array([1]), "y": y, "x": x}, ("band", "y", "x"))
    r._crs, r._nodata, r._src = s.crs, s.nodata, s
    return r


class Opened(xarray.DataArray):
    def drop_vars(self, names):
        """(the band of a raster, as the topography reads it)"""
        if names != "band":
            raise ShimMissing("rioxarray.drop_vars")
        return plain.Raster(self._src, False)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("rioxarray." + name)
