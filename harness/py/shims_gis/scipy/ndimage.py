import numpy as np
from pandas import ShimMissing


def binary_dilation(a, structure=None, iterations=1, **kw):
    if kw or structure is not None or iterations != 1:
        raise ShimMissing("scipy.ndimage.binary_dilation %s" % sorted(kw))
    a = np.asarray(a, dtype=bool)
    out = a.copy()
    out[1:] |= a[:-1]
    out[:-1] |= a[1:]
    out[:, 1:] |= a[:, :-1]
    out[:, :-1] |= a[:, 1:]
    return out


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("scipy.ndimage." + name)
