from . import ndimage  # noqa: F401
from pandas import ShimMissing


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("scipy." + name)
