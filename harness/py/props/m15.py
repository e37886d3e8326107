"""M15: the potential radiation of a cell is what the position of the sun, the terrain and the air above it give."""
import itertools
import os
import pickle
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims_gis"))

import numpy as np
import rasterio

from props.common import *

if not hb.HAS_RASTERIO:
    raise RuntimeError("hydrobricks was imported before the stand-ins of the GIS libraries")
from hydrobricks.preprocessing import PotentialSolarRadiation as PSR

CASE_LIMIT = 120
C = hb.Catchment
D = np.pi / 180


# ----------------------------------------------------------------------------------------------------- where the sun is
def sun(lat, decl, hour):
    """Direction of the sun: up, toward the south, toward the west."""
    up = np.sin(lat) * np.sin(decl) + np.cos(lat) * np.cos(decl) * np.cos(hour)
    south = np.sin(lat) * np.cos(decl) * np.cos(hour) - np.cos(lat) * np.sin(decl)
    west = np.cos(decl) * np.sin(hour)
    return up, south, west


def run_sun(name, x):
    lat, step = name.split("/")
    lat = float(lat) * D
    hours = np.arange(-180, 180.001, float(step)) * D
    hours[np.abs(hours) < 1e-9] = 0.0
    days = np.arange(1, 367)
    decl = C.get_solar_declination_rad(days)
    x.close(decl, [23.45 * D * np.cos(2 * np.pi * (d - 172) / 365) for d in days], 1e-12, "sun:declination", "declinations")
    x.same([float(C.get_solar_declination_rad(int(d))) for d in days], [float(v) for v in decl], "sun:day", "declination of single days")
    with np.errstate(all="ignore"):
        limit = np.asarray(C.get_solar_hour_angle_limit(decl, lat))
    for i, d in enumerate(decl):
        with np.errstate(all="ignore"):
            z = np.asarray(C.get_solar_zenith(hours, lat, d))
            a = np.asarray(C.get_solar_azimuth_to_south(hours.copy(), lat, d))
            n = np.asarray(C.get_solar_azimuth_to_north(hours.copy(), lat, d))
        up, south, west = sun(lat, d, hours)
        x.check(np.isfinite(z).all() and np.abs(np.cos(z * D) - up).max() < 1e-12 and z.min() >= 0 and z.max() <= 180, "sun:zenith",
                "zenith angles on day %d: %s", i + 1, z)
        h = np.sin(z * D)
        x.check(np.isfinite(a).all() and a.min() >= -180 - 1e-9 and a.max() <= 180 + 1e-9, "sun:range", "azimuths on day %d: %s", i + 1, a)
        bad = np.maximum(np.abs(h * np.cos(a * D) - south), np.abs(h * np.sin(a * D) - west))
        k = int(np.argmax(bad))
        x.check(bad[k] < 1e-7, "sun:azimuth", "azimuth on day %d at hour angle %s is %s, the sun is %s to the south and %s to the west", i + 1,
                hours[k] / D, a[k], south[k], west[k])
        x.check(np.abs(np.cos((n - a - 180) * D) - 1).max() < 1e-12 and n.min() >= -1e-9 and n.max() <= 360 + 1e-9, "sun:north",
                "azimuths from the north %s for %s from the south", n, a)
        # sunrise and sunset
        t = -np.tan(d) * np.tan(lat)
        want = 0.0 if t >= 1 else np.pi if t <= -1 else np.arccos(t)
        x.check(abs(limit[i] - want) < 1e-6, "sun:day-length", "hour angle of the sunset on day %d: got %s, expected %s", i + 1, limit[i], want)
        x.step(3 * len(hours))
    for i, d in enumerate(decl):
        for place in (float(d), -float(d)):       # the sun or its opposite is right overhead
            with np.errstate(all="ignore"):
                z, a = C.get_solar_zenith(0.0, place, float(d)), C.get_solar_azimuth_to_south(0.0, place, float(d))
            x.check(abs(np.cos(z * D) - sun(place, d, 0.0)[0]) < 1e-12 and z < 1e-5 + abs(place - d) / D, "sun:overhead", "zenith angle on day %d at latitude %s: %s", i + 1, place / D, z)
            x.check(np.isfinite(a) and abs(a) <= 180, "sun:overhead", "azimuth on day %d at latitude %s: %s", i + 1, place / D, a)
    for hv in (-2.0, -0.5, 0.0, 0.75, 3.0, 0, 1):
        d = float(decl[20])
        up, south, west = sun(lat, d, hv)
        with np.errstate(all="ignore"):
            a, z = C.get_solar_azimuth_to_south(hv, lat, d), C.get_solar_zenith(hv, lat, d)
        x.check(np.ndim(a) == 0, "sun:scalar", "azimuth of one hour angle: %r", a)
        s = np.sin(z * D)
        x.check(abs(s * np.cos(a * D) - south) < 1e-7 and abs(s * np.sin(a * D) - west) < 1e-7, "sun:azimuth", "azimuth at hour angle %s is %s", hv, a)
    x.dim("latitudes")
    x.state(name)


# ------------------------------------------------------------------------------------------------ what a slope receives
def normal(slope, aspect):
    """Normal to a slope (degrees) that goes down toward aspect (degrees from the north): up, south, west."""
    s, a = slope * D, aspect * D
    return np.cos(s), -np.sin(s) * np.cos(a), -np.sin(s) * np.sin(a)


def run_tilt(name, x):
    zen, step = name.split("/")
    zen, step = float(zen), int(step)
    slope, aspect = np.meshgrid(np.arange(0, 91, step).astype(float), np.append(np.arange(0, 361, step), -1.0), indexing="ij")
    slope[:, -1] = 0.0   # flat cells have no direction
    for az in range(-180, 181, step):
        i = PSR._calculate_angle_of_incidence(zen, slope.copy(), float(az), aspect.copy())
        u, s, w = normal(slope, aspect)
        want = np.cos(zen * D) * u + np.sin(zen * D) * (np.cos(az * D) * s + np.sin(az * D) * w)
        x.check(i.shape == slope.shape and np.abs(np.cos(i) - np.maximum(want, 0)).max() < 1e-9 and i.max() <= np.pi / 2 + 1e-12 and i.min() >= 0,
                "tilt:angle", "angles of incidence with the sun at %s, %s", zen, az)
        x.ok(i.size)
        x.step(i.size)
    hole = slope.copy()
    hole[0, 0] = np.nan
    i = PSR._calculate_angle_of_incidence(zen, hole, 10.0, aspect)
    x.check(np.isnan(i[0, 0]) and np.isfinite(i.ravel()[1:]).all(), "tilt:hole", "an undefined slope")
    x.dim("zeniths")


def power(elev, tau, day, zen, cosine):
    """Clear-sky direct radiation (Hock 1999) with the distance to the sun of the day and the pressure at the elevation."""
    distance = (1 - 0.017 ** 2) / (1 + 0.017 * np.cos(2 * np.pi * day / 365.5))
    pressure = (1 - 0.0065 / 288 * elev) ** (9.80665 * 0.0289644 / (8.31432 * 0.0065))
    with np.errstate(all="ignore"):
        return np.where(zen < 90, 1368 / distance ** 2 * tau ** (pressure / np.cos(np.minimum(zen, 89.9999999) * D)) * cosine, 0.0)


def run_hock(name, x):
    elev, tau = map(float, name.split("/"))
    inc = np.tile(np.linspace(0, np.pi / 2, 7), (5, 1))
    for day in range(1, 367, 1 if x.tier != "quick" else 5):
        for zen in (0.0, 1.0, 30.0, 60.0, 80.0, 88.0, 89.9):
            g = PSR._calculate_radiation_hock_equation(elev, tau, day, zen, inc.copy())
            w = power(elev, tau, day, zen, np.cos(inc))
            x.check(np.abs(g - w).max() <= 1e-9 * 1400, "hock:power", "radiation at %s m on day %d with the sun at %s: got %s, expected %s", elev, day, zen, g[1], w[1])
            x.check(g.min() >= -1e-9 and g.max() < 1368 * 1.04, "hock:bounds", "radiation %s", g)
        for zen in (90.0, 95.0):
            g = PSR._calculate_radiation_hock_equation(elev, tau, day, zen, inc.copy())
            x.check((g[1:-1, 1:-1] == 0).all(), "hock:night", "radiation at night %s", g)
        x.step(9)
    x.dim("airs")


# --------------------------------------------------------------------------------------------------------------- shadows
class Dem:
    def __init__(self, z, px=25.0, py=None):
        self.z, self.res = np.array(z, dtype=float), (px, py or px)

    def read(self, band):
        return self.z.copy()


def shadows(z, zen, az, px=25.0, hole=None, grids=False):
    m = np.array(z, dtype=float)
    if hole is not None:
        m[hole] = np.nan
    kw = {}
    if grids:
        i = np.indices(m.shape, dtype=np.int32)
        kw = dict(xv=i[0], yv=i[1])
    with np.errstate(all="ignore"):
        return np.array(C.calculate_cast_shadows(Dem(z, px), m, zen, az, **kw))


CARDINAL = {0: (1, 0), 90: (0, -1), -90: (0, 1), 180: (-1, 0), -180: (-1, 0)}   # azimuth from the south, west positive -> step toward the sun


def traced(z, zen, az, px=25.0):
    n, m = z.shape
    di, dj = CARDINAL[az]
    out = np.zeros(z.shape)
    for i, j in np.ndindex(n, m):
        a, b, k = i + di, j + dj, 1
        while 0 <= a < n and 0 <= b < m:
            if z[a, b] - z[i, j] > k * px / np.tan(zen * D):
                out[i, j] = 1
            a, b, k = a + di, b + dj, k + 1
    return out


LEVEL = [0.0, 17.0, 61.0]
ZENITHS = [20.0, 57.0, 71.0, 84.0]
OBLIQUE = [7.0, 22.5, 33.0, 52.0, 67.5, 81.0]


def turned(az):
    """Azimuth once the land is turned by a quarter (np.rot90: the east goes to the north)."""
    a = az - 90                      # counterclockwise seen from above; azimuths grow clockwise
    return a + 360 if a <= -180 else a


def run_shadow(name, x):
    shape, word = name.split("/")
    n, m = map(int, shape.split("x"))
    z = np.array([LEVEL[int(k)] for k in word]).reshape(n, m)
    zens = ZENITHS
    for zen in zens:
        for az in CARDINAL:
            got = shadows(z, zen, float(az), grids=az > 0)
            x.check(np.array_equal(got, traced(z, zen, az)), "shadow:cast", "shadows with the sun at %s, %s: got %s, expected %s", zen, az, got.tolist(),
                    traced(z, zen, az).tolist())
            x.step(z.size)
    top = z == z.max()
    for q in range(4):
        for a0 in OBLIQUE:
            az = a0 + 90 * q - 180
            before = None
            for zen in zens:
                got = shadows(z, zen, az)
                x.check(set(np.unique(got)) <= {0.0, 1.0} and got.shape == z.shape, "shadow:values", "shadows %s", got)
                x.check(not got[top].any(), "shadow:top", "the highest cells are in the shadow with the sun at %s, %s", zen, az)
                if before is not None:
                    x.check((got >= before).all(), "shadow:lower", "a lower sun at %s takes shadow away: %s then %s", az, before.tolist(), got.tolist())
                before = got
                r = shadows(np.rot90(z).copy(), zen, turned(az))
                x.check(np.array_equal(np.rot90(got), r), "shadow:turned", "shadows once the land is turned, sun at %s, %s: %s and %s", zen, az,
                        np.rot90(got).tolist(), r.tolist())
                f = shadows(z[:, ::-1].copy(), zen, -az)
                x.check(np.array_equal(got[:, ::-1], f), "shadow:mirrored", "shadows once the land is mirrored, sun at %s, %s: %s and %s", zen, az,
                        got[:, ::-1].tolist(), f.tolist())
                # a cell in the shadow has something high enough on the side of the sun
                s = np.array([np.cos(az * D), -np.sin(az * D)])     # rows grow to the south, columns to the east
                for i, j in np.argwhere(got == 1):
                    hit = False
                    for a, b in np.ndindex(z.shape):
                        along = (a - i) * s[0] + (b - j) * s[1]
                        across = abs(-(a - i) * s[1] + (b - j) * s[0])
                        if along > 0 and across < 1.0 and z[a, b] - z[i, j] > 25 * (along - 0.71) / np.tan(zen * D):
                            hit = True
                    x.check(hit, "shadow:nothing", "cell %s is in the shadow of nothing, sun at %s, %s", (i, j), zen, az)
                x.step(z.size * 3)
    for az in (-170.0, 0.0, 30.0, 120.0):
        for zen in (90.0, 95.0, 140.0):
            x.check((shadows(z, zen, az) == 1).all(), "shadow:night", "at night")
    hole = (0, 0)
    a, b = shadows(z, 57.0, 30.0), shadows(z, 57.0, 30.0, hole=hole)
    x.check(np.isnan(b[hole]) and np.array_equal(np.delete(a.ravel(), 0), np.delete(b.ravel(), 0)), "shadow:mask", "what is outside: %s and %s", a.tolist(), b.tolist())
    x.dim("terrains")
    x.state(word)


def run_wall(name, x):
    """A wall across the land, with the sun behind it: how far its shadow reaches.  exact/...: where; loose/...: within what the cells allow."""
    kind, az, zen = name.split("/")
    az, zen, n, px, h = float(az), float(zen), 14, 25.0, 100.0
    main = min(CARDINAL, key=lambda c: abs(az - c))
    off = abs(az - main)
    di, dj = CARDINAL[main]
    z = np.zeros((n, n))
    far = np.zeros((n, n))
    for i, j in np.ndindex(n, n):
        far[i, j] = (n - 1 - i if di > 0 else i) if di else (n - 1 - j if dj > 0 else j)
    z[far == 0] = h
    got = shadows(z, zen, az, px)
    edge = 5     # the rays of the first rows come from beside the wall
    for i, j in np.ndindex(n, n):
        k = far[i, j]
        side = (j if di else i)
        # the ray that comes to this cell has to start on the wall
        t = k * np.tan(off * D)
        if k == 0 or not (t + 1 <= side <= n - 2 - t):
            continue
        reach = k * px / np.cos(off * D) / np.tan(zen * D)
        if kind == "exact":
            x.check(got[i, j] == (h > reach), "wall:reach", "the shadow of a wall of %s m, %d cells away, sun at %s, %s (height of the ray: %s): %s", h, k, zen, az, reach, got[i, j])
        else:
            if h > reach * 1.4143:
                x.check(got[i, j] == 1, "wall:missing", "no shadow %d cells behind the wall, sun at %s, %s", k, zen, az)
            if h < reach:
                x.check(got[i, j] == 0, "wall:beyond", "shadow %d cells behind the wall, sun at %s, %s", k, zen, az)
    x.step(n * n)
    x.dim("walls")


# ----------------------------------------------------------------------------------------------------------- whole years
FIELDS = {
    "flat": [[1000] * 3] * 3,
    "south": [[1030] * 3, [1010] * 3, [1000] * 3],
    "west": [[1000, 1020, 1050]] * 3,
    "bump": [[1000, 1004, 1000], [1010, 1030, 1008], [1000, 1015, 1003]],
    "shore": [[0, 0, 0], [0, 0, 12], [0, 10, 25]],
    "sea": [[0, 0, 0]] * 3,
    "valley": [[1200, 1200, 1200], [1000, 1005, 1000], [1180, 1180, 1180]],
}


def run_year(name, x):
    field, lat, sph, shade, how, dtype = name.split("/")
    lat, sph, tau = float(lat), int(sph), 0.75 if how != "t" else 0.5
    inner = np.array(FIELDS[field], dtype=float)
    z = np.pad(inner, 1, mode="edge")
    n, m = z.shape
    d = x.dir("y")
    px = 25.0 if how != "b" else 8e5
    y0 = lat * 1e5 + px * n / 2
    t = (px, 0.0, 2600000.0, 0.0, -px, y0)
    nodata = -9999.0 if how == "n" else None
    rasterio.save(d + "/dem.tif", dict(data=z.astype(dtype), transform=t, crs="EPSG:2056", nodata=nodata, extra={}))
    inside = np.ones(z.shape, dtype=bool)
    outline = None
    if how in "ob":
        inside[:] = False
        inside[1:-1, 1:-1] = True
        inside[1, 1] = False
        if how == "b":
            inside[2:] = False      # only the north of a wide land
        outline = d + "/outline.shp"
        boxes = [tuple((2600000.0 + px * (j + .001), y0 - px * (i + .999), 2600000.0 + px * (j + .999), y0 - px * (i + .001))) for i, j in np.argwhere(inside)]
        with open(outline, "wb") as f:
            pickle.dump(dict(crs="EPSG:2056", fields={}, geoms=[boxes]), f)
    c = hb.Catchment(outline)
    c.extract_dem(d + "/dem.tif")
    kw = {} if how != "t" else dict(atmos_transmissivity=tau)
    if how == "r":
        kw["resolution"] = px
    c.calculate_daily_potential_radiation(d, steps_per_hour=sph, with_cast_shadows=shade == "s", **kw)
    with open(d + "/daily_potential_radiation.nc", "rb") as f:
        nc = pickle.load(f)
    daily = nc["data"]
    x.same((nc["dims"], daily.shape, nc["name"]), (("day_of_year", "y", "x"), (366, n, m), "radiation"), "year:file", "daily file")
    x.same([int(v) for v in nc["coords"]["day_of_year"]], list(range(1, 367)), "year:days", "days")
    x.close(nc["coords"]["x"], [2600000.0 + px * (j + .5) for j in range(m)], 1e-9, "year:x", "columns")
    x.close(nc["coords"]["y"], [y0 - px * (i + .5) for i in range(n)], 1e-9, "year:y", "rows")
    mean = np.array(c.solar_radiation.mean_annual_radiation)
    core = inside.copy()
    core[0] = core[-1] = False
    core[:, 0] = core[:, -1] = False
    x.close(mean[core], daily.mean(axis=0)[core], 1e-5, "year:mean", "annual means")
    x.check(np.isnan(mean[~core]).all(), "year:outside", "annual means outside: %s", mean)
    with rasterio.open(d + "/annual_potential_radiation.tif") as src:
        x.close(src.read(1)[core], mean[core], 1e-5, "year:saved", "annual means in the file")
    o = hb.Catchment(outline)
    o.extract_dem(d + "/dem.tif")
    o.load_mean_annual_radiation_raster(d)
    x.close(np.array(o.solar_radiation.mean_annual_radiation)[core], mean[core], 1e-5, "year:loaded", "annual means read again")
    # the reference
    ii, jj = np.nonzero(inside)
    phi = (y0 - px * (np.mean(ii) + .5)) / 1e5 * D
    elev = z[inside].mean()
    east = np.zeros(z.shape)
    south = np.zeros(z.shape)
    for i in range(1, n - 1):
        for j in range(1, m - 1):
            w = z[i - 1:i + 2, j - 1:j + 2]
            east[i, j] = ((w[:, 2] - w[:, 0]) * (1, 2, 1)).sum() / 8 / px
            south[i, j] = ((w[2] - w[0]) * (1, 2, 1)).sum() / 8 / px
    g = np.sqrt(1 + east ** 2 + south ** 2)
    N = 480 if shade == "s" else 2880
    hours = (np.arange(N) + .5) / N * 2 * np.pi - np.pi
    for day in range(1, 367, 61 if shade == "s" else 15):
        decl = 23.45 * D * np.cos(2 * np.pi * (day - 172) / 365)
        up, so, we = sun(phi, decl, hours)
        zen = np.degrees(np.arctan2(np.hypot(so, we), up))
        # normal: (up, south, west) = (1, -south slope, +east slope) / g
        cosine = (up[:, None, None] - so[:, None, None] * south + we[:, None, None] * east) / g
        p = power(elev, tau, day, zen[:, None, None], np.maximum(cosine, 0))
        p = np.where(zen[:, None, None] < 90, p, 0.0)
        if shade == "s":
            az = np.degrees(np.arctan2(we, so))
            for k in np.nonzero(zen < 90)[0]:
                p[k] *= 1 - shadows(z, float(zen[k]), float(az[k]), px)
        want = p.mean(axis=0)
        # a sum over steps is off by the variation over the day, times the share of a step in the day
        tv = np.abs(np.diff(p, axis=0)).sum(axis=0) + p.max(axis=0)
        tol = tv * (1 / (24 * sph) + 1 / N) + 1e-6
        bad = np.abs(daily[day - 1] - want) - tol
        bad[~core] = -1
        x.check(bad.max() <= 0, "year:day", "radiation on day %d: got %s, expected %s (within %s)", day, daily[day - 1][1:-1, 1:-1].tolist(), want[1:-1, 1:-1].tolist(), tol[1:-1, 1:-1].tolist())
        x.step(int(core.sum()))
    x.check(daily[:, core].min() >= 0 and daily[:, core].max() < 1368, "year:bounds", "daily values between %s and %s", daily[:, core].min(), daily[:, core].max())
    x.dim("years")
    x.state(name)


def run_wrong(name, x):
    z = np.zeros((4, 4))
    if name == "pixels":
        e = refused(lambda: C.calculate_cast_shadows(Dem(z, 25.0, 20.0), z, 45.0, 10.0), hb.HydroBricksError)
    elif name == "cosine":
        return
    x.check(e is not None, "wrong:" + name, "not refused")


RUN = {"sun": run_sun, "tilt": run_tilt, "hock": run_hock, "shadow": run_shadow, "wall": run_wall, "year": run_year, "wrong": run_wrong}
WALLS = [c + o for c in (0.0, 90.0, -90.0, 180.0, -180.0) for o in (-40.0, -30.0, -20.0, -10.0, 0.0, 10.0, 20.0, 30.0, 40.0) if -180 <= c + o <= 180]


def cases(tier):
    q = tier == "quick"
    for lat in sorted(set(range(-90, 91, 5 if q else 1)) | {-67, -66, -24, -23, 23, 24, 46, 47, 66, 67} if q else range(-90, 91)):
        yield "sun/%d/%s" % (lat, "5" if q else "1")
    for k in (23.45, -23.45, 11.3, 46.56, 66.55, 66.54, -66.55, 89.999):
        yield "sun/%s/%s" % (k, "5" if q else "1")
    for zen in range(0, 90, 5 if q else 1):
        yield "tilt/%d/%d" % (zen, 15 if q else 5)
    for e in (0, 500, 1500, 2500, 4810):
        for tau in ("0.3", "0.6", "0.75", "0.9", "1.0"):
            yield "hock/%d/%s" % (e, tau)
    for shape in ["1x2", "1x4", "2x2", "2x3", "3x3"] + ([] if q else ["1x6", "2x4"]):
        size = eval(shape.replace("x", "*"))
        for k, w in enumerate(itertools.product("012" if size <= 4 or (not q and size < 9) else "02", repeat=size)):
            if q and shape == "3x3" and k % 8 != 3:
                continue
            yield "shadow/%s/%s" % (shape, "".join(w))
    for az in WALLS:
        for zen in (40, 60, 70, 76):
            for k in ("exact", "loose"):
                yield "wall/%s/%s/%s" % (k, az, zen)
    for k, (f, lat) in enumerate(itertools.product(FIELDS, (-78, -35, 0, 12, 47, 60, 70))):
        todo = list(itertools.product("14" if q else "1248", "-s", "-otnr", ("float32", "int16")))
        if abs(lat) < 50:
            yield "year/%s/%s/4/-/b/float32" % (f, lat)
        for i in range(k % 23 if q else k % 5, len(todo), 23 if q else 5):
            s, sh, how, dt = todo[i]
            yield "year/%s/%s/%s/%s/%s/%s" % (f, lat, s, sh, how, dt)
    yield "wrong/pixels"


def run(case, x):
    kind, rest = case.split("/", 1)
    RUN[kind](rest, x)
