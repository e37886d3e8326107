"""A stand-in for rasterio: rasters are pickles of a 2-D array with its transform, reference system and nodata value."""
import builtins
import os
import pickle

import numpy as np
from pandas import ShimMissing

uint8, uint16, int16, int32, float32, float64 = "uint8", "uint16", "int16", "int32", "float32", "float64"


class Affine(tuple):
    """a b c d e f with x = a col + b row + c and y = d col + e row + f, of the top left corners."""

    def __new__(cls, a, b, c, d, e, f):
        return tuple.__new__(cls, (a, b, c, d, e, f, 0.0, 0.0, 1.0))

    a, b, c, d, e, f = (property(lambda s, i=i: s[i]) for i in range(6))


class DatasetReader:
    def __init__(self, path=None, blob=None):
        if blob is None:
            with builtins.open(path, "rb") as f:
                blob = pickle.load(f)
        self._data = np.array(blob["data"])
        self.extra = blob.get("extra", {})
        self.transform = Affine(*blob["transform"][:6])
        self.crs, self.nodata = blob["crs"], blob["nodata"]
        self.files = [str(path)] if path is not None else []
        self.name = str(path)
        self.closed = False
        self.count = 1
        self.shape = self._data.shape
        self.height, self.width = self.shape
        self.dtypes = (str(self._data.dtype),)

    @property
    def res(self):
        return (abs(self.transform[0]), abs(self.transform[4]))

    @property
    def bounds(self):
        t = self.transform
        xs, ys = (t[2], t[2] + t[0] * self.width), (t[5], t[5] + t[4] * self.height)
        return (xs[0], ys[1], xs[1], ys[0])

    @property
    def profile(self):
        return {"driver": "GTiff", "dtype": self.dtypes[0], "nodata": self.nodata, "width": self.width, "height": self.height,
                "count": 1, "crs": self.crs, "transform": self.transform}

    meta = profile

    def read(self, band=None, masked=False, **kw):
        if kw:
            raise ShimMissing("rasterio.read " + str(kw))
        if self.closed:
            raise ValueError("Dataset is closed")
        if band not in (None, 1):
            raise IndexError("band index out of range")
        a = self._data.copy()
        if masked:
            hide = np.zeros(a.shape, dtype=bool)
            if self.nodata is not None:
                hide = np.isnan(a) if self.nodata != self.nodata else a == self.nodata
            a = np.ma.array(a, mask=hide)
            a.fill_value = self.nodata if self.nodata is not None else 0
        return a if band == 1 else a[None]

    def xy(self, row, col, offset="center"):
        t = self.transform
        return (t[2] + t[0] * (col + 0.5), t[5] + t[4] * (row + 0.5))

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ShimMissing("rasterio.DatasetReader." + name)


class DatasetWriter:
    def __init__(self, sink, profile):
        self._sink, self._p = sink, profile
        self._data = None
        self.closed = False

    def write(self, data, band=None):
        data = np.asarray(data)
        if data.ndim == 3:
            data = data[0]
        h, w = self._p["height"], self._p["width"]
        if data.shape != (h, w):
            raise ValueError("Source shape %s is inconsistent with given indexes" % (data.shape,))
        with np.errstate(invalid="ignore"):
            self._data = data.astype(self._p["dtype"])

    def close(self):
        if self.closed:
            return
        self.closed = True
        d = self._data
        if d is None:
            d = np.zeros((self._p["height"], self._p["width"]), dtype=self._p["dtype"])
        self._sink({"data": d, "transform": tuple(self._p["transform"])[:6], "crs": self._p["crs"], "nodata": self._p.get("nodata")})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def save(path, blob):
    with builtins.open(path, "wb") as f:
        pickle.dump(blob, f)


def open(path, mode="r", **profile):
    if mode == "w":
        return DatasetWriter(lambda blob: save(path, blob), profile)
    if mode != "r":
        raise ShimMissing("rasterio.open mode " + mode)
    if not os.path.isfile(path):
        raise errors.RasterioIOError(str(path) + ": No such file or directory")
    return DatasetReader(path)


from rasterio import enums, errors, io, mask, transform, warp  # noqa: E402,F401


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("rasterio." + name)
