"""Reference systems are shifts of one another; latitudes and longitudes are a hundred-thousandth of the coordinates."""
from pandas import ShimMissing

ORIGIN = {"EPSG:2056": (0.0, 0.0), "EPSG:21781": (-2e6, -1e6), "EPSG:32632": (5e5, 3e6)}


def shift(a, b):
    """What to add to coordinates in a to have them in b."""
    if a == b:
        return 0.0, 0.0
    if a not in ORIGIN or b not in ORIGIN:
        raise ShimMissing("reference systems %s and %s" % (a, b))
    return ORIGIN[b][0] - ORIGIN[a][0], ORIGIN[b][1] - ORIGIN[a][1]


class Transformer:
    def __init__(self, crs, always_xy, to=None):
        self.crs, self.always_xy, self.to = crs, always_xy, to

    @staticmethod
    def from_crs(crs_from, crs_to, always_xy=False):
        if type(crs_from) is int and type(crs_to) is int and crs_to != 4326 and always_xy:
            return Transformer("EPSG:%d" % crs_from, always_xy, "EPSG:%d" % crs_to)
        if crs_to not in (4326, "EPSG:4326"):
            raise ShimMissing("pyproj toward %s" % crs_to)
        return Transformer(crs_from, always_xy)

    def transform(self, x, y):
        if self.to is not None:
            dx, dy = shift(self.crs, self.to)
            return x + dx, y + dy
        dx, dy = shift(self.crs, "EPSG:2056")
        lon, lat = (x + dx) / 1e5, (y + dy) / 1e5
        return (lon, lat) if self.always_xy else (lat, lon)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing("pyproj." + name)
