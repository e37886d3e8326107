"""M10: glacier tables lose the ice in equal steps, where the published method takes it from, and describe the glacier given."""
import types as pytypes

import pandas as pd

from props.common import *
import hydrobricks.preprocessing.glacier_cover as covermod
import hydrobricks.preprocessing.glacier_evolution_delta_h as dhmod
from hydrobricks.actions import ActionGlacierEvolutionAreaScaling, ActionGlacierEvolutionDeltaH
from hydrobricks.preprocessing import GlacierEvolutionAreaScaling, GlacierEvolutionDeltaH
from pandas import ShimMissing

# ------------------------------------------------------------------------------------------------- the published method
# Huss et al. (2010), fig. 2a: by size of the glacier (km2): a, b, c, gamma
HUSS = [(20, (-0.02, 0.12, 0.00, 6)), (5, (-0.05, 0.19, 0.01, 4)), (0, (-0.30, 0.60, 0.09, 2))]


def shape(elev, area, observed=None):
    """Normalized change of each band (elevation -> value)."""
    lo, hi = min(elev), max(elev)
    out = {}
    for z in elev:
        e = (hi - z) / (hi - lo) if hi > lo else 0.0
        if observed:
            pts = sorted(observed)
            if e <= pts[0][0]:
                out[z] = pts[0][1]
            elif e >= pts[-1][0]:
                out[z] = pts[-1][1]
            else:
                j = max(k for k in range(len(pts) - 1) if pts[k][0] <= e)
                (x0, y0), (x1, y1) = pts[j], pts[j + 1]
                out[z] = y0 + (y1 - y0) * (e - x0) / (x1 - x0)
            continue
        a, b, c, g = next(p for lim, p in HUSS if area / 1e6 > lim)
        out[z] = (e + a) ** g + b * (e + a) + c
    return {z: max(0.0, v) for z, v in out.items()}


def seibert(rows, n, mode, observed=None):
    """Seibert et al. (2018). rows: (elevation, area, thickness, unit). Areas and volumes {unit: [..]}, deferred melt [..]."""
    rows = [r for r in rows if r[1] > 0]
    bands = sorted({r[0] for r in rows})
    A0 = {z: sum(r[1] for r in rows if r[0] == z) for z in bands}
    w0 = {z: sum(r[1] * r[2] for r in rows if r[0] == z) / A0[z] for z in bands}
    h = shape(bands, sum(A0.values()), observed)
    V0 = sum(A0[z] * w0[z] for z in bands)
    A, w, E, late, tie = [dict(A0)], [dict(w0)], 0.0, [0.0], n
    for k in range(1, n):
        if not sum(A[-1][z] * h[z] for z in bands):
            h = {z: 1.0 for z in bands}           # only bands that do not change are left: evenly
        fs = (V0 / n + E) / sum(A[-1][z] * h[z] for z in bands)
        E, a, t = 0.0, {}, {}
        for z in bands:
            new = w[-1][z] - fs * h[z]
            if w[-1][z] > 0 and abs(new) < 1e-9 * w0[z]:
                tie = min(tie, k)                 # rounding decides whether this band is left
            if new < 0:
                E -= new * A[-1][z]
                new = 0.0
            t[z], a[z] = new, A[-1][z]
            if mode == "keep":
                a[z] = A[-1][z] if new > 0 else 0.0
            elif new > 0:
                a[z] = A0[z] * (new / w0[z]) ** 0.5 if mode == "initial" else A[-1][z] * (new / w[-1][z]) ** 0.5
                t[z] = new * A[-1][z] / a[z]
            else:
                a[z] = 0.0
        A.append(a)
        w.append(t)
        late.append(E)
    if mode == "keep":
        for k in range(1, n):
            for z in bands:
                if w[k][z] > 0:
                    A[k][z] = A0[z] * (w[k][z] / w0[z]) ** 0.5
                    w[k][z] *= A0[z] / A[k][z]
    ids = sorted({r[3] for r in rows})
    area = {i: [sum(r[1] for r in rows if r[3] == i)] + [0.0] * n for i in ids}
    vol = {i: [sum(r[1] * r[2] for r in rows if r[3] == i)] + [0.0] * n for i in ids}
    for k in range(1, n):
        for z, s, th, i in rows:
            if th > 0 and w[k][z] > 0:
                area[i][k] += s * A[k][z] / A0[z]
                vol[i][k] += s * A[k][z] / A0[z] * th * w[k][z] / w0[z]
    return area, vol, late, V0, tie


def lower(px, loss):
    """Lower all pixels evenly until their mean fell by loss; none below zero."""
    n = len(px)
    want = sum(px) - loss * n
    if loss <= 0:
        return [p - loss for p in px]
    s = sorted(px)
    level, left = 0.0, sum(px)
    for k in range(n):
        drop = (s[k] - level) * (n - k)
        if left - drop <= want:
            level += (left - want) / (n - k)
            break
        left -= drop
        level = s[k]
    return [p - level if p > level else 0.0 for p in px]


def pixelwise(parts, n, px_area):
    """The same method on pixels. parts: {(elevation, unit): [thickness]}"""
    bands = sorted({z for z, _ in parts})
    cur = {k: list(v) for k, v in parts.items()}
    h = shape(bands, sum(len(v) for v in parts.values()) * px_area)
    V0 = sum(sum(v) for v in parts.values()) * px_area
    area = {i: [0.0] * (n + 1) for i in sorted({i for _, i in parts})}
    vol = {i: [0.0] * (n + 1) for i in area}
    late, E, tie = [], 0.0, n

    def put(k):
        for (z, i), v in cur.items():
            area[i][k] += len(v) * px_area
            vol[i][k] += sum(v) * px_area
        late.append(E)
    put(0)
    for k in range(1, n):
        size = {q: len(v) for q, v in cur.items()}
        A = {z: sum(size[q] for q in cur if q[0] == z) * px_area for z in bands}
        if not sum(A[z] * h[z] for z in bands):
            h = {z: 1.0 for z in bands}
        fs = (V0 / n + E) / sum(A[z] * h[z] for z in bands)
        E = 0.0
        for z in bands:
            mine = [q for q in cur if q[0] == z and cur[q]]
            if not mine:
                E += fs * h[z] * A[z]
                continue
            w = sum(sum(cur[q]) for q in mine) / sum(size[q] for q in mine)
            melt = fs * h[z]
            if abs(w - melt) < 1e-9 * melt:
                tie = min(tie, k)
            if w < melt:
                E += (melt - w) * A[z]
                for q in mine:
                    cur[q] = []
                continue
            while melt and mine:
                rest = 0.0
                for q in mine:
                    mean = sum(cur[q]) / len(cur[q])
                    if abs(mean - melt) < 1e-9 * melt:
                        tie = min(tie, k)
                    if mean < melt:
                        rest += (melt - mean) * size[q]
                        cur[q] = []
                    else:
                        cur[q] = lower(cur[q], melt)
                mine = [q for q in mine if cur[q]]
                melt = rest / sum(size[q] for q in mine) if mine else 0.0
        for q in cur:
            if any(1e-12 < p < 1e-9 for p in cur[q]):
                tie = min(tie, k)
            cur[q] = [p for p in cur[q] if p > 1e-12]
        put(k)
    return area, vol, late, V0, tie


# -------------------------------------------------------------------------------------------------------- the catchment
class Catchment:
    """What the tables need of a catchment; anything else is unknown here."""

    def __init__(self, dem, ids, px, hu, rasters):
        self.dem_data = np.array(dem, dtype=float)
        self.map_unit_ids = None if ids is None else np.array(ids)
        self.px, self.hydro_units, self.rasters, self.attributes, self.inits = px, hu, rasters, {}, []
        self.resampled = []

    def get_dem_pixel_area(self):
        return self.px

    def extract_attribute_raster(self, path, name, resample_to_dem_resolution=True, resampling="average", **kw):
        self.resampled.append((str(path), resample_to_dem_resolution, resampling))
        self.attributes[name] = {"data": np.array(self.rasters[str(path)], dtype=float)}

    def initialize_area_from_land_cover_change(self, name, change):
        self.inits.append((name, {int(i): float(a) for i, a in zip(change["hydro_unit"], change["area"])}))
        self.hydro_units.initialize_from_land_cover_change(name, change)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ShimMissing("Catchment.%s" % name)


def with_rasters(f):
    save = covermod.HAS_PYPROJ, dhmod.HAS_PYPROJ, dhmod.rasterio
    covermod.HAS_PYPROJ = dhmod.HAS_PYPROJ = True
    dhmod.rasterio = pytypes.SimpleNamespace(uint16="uint16")
    try:
        return f()
    finally:
        covermod.HAS_PYPROJ, dhmod.HAS_PYPROJ, dhmod.rasterio = save


# ---------------------------------------------------------------------------------------------------------------- cases
CELLS = [(0.0, 0.0), (40000.0, 15.0), (40000.0, 80.0), (250000.0, 30.0), (2500.0, 55.0), (3e6, 120.0), (40000.0, 0.0)]
ORDERS = {"s": lambda r: r, "r": lambda r: r[::-1], "m": lambda r: r[1::2] + r[::2], "u": lambda r: sorted(r, key=lambda q: (-q[3], q[0]))}
MODES = {"i": dict(), "I": dict(update_width=True, update_width_reference="initial"), "p": dict(update_width_reference="previous"),
         "k": dict(update_width=False)}
# how the bands are shared between units: one unit per so many bands, the same elevations in several units
SPLITS = "123ab"
OBSERVED = [[(0.0, 0.0), (1.0, 1.0)], [(0.0, 0.02), (0.3, 0.1), (0.6, 0.35), (1.0, 1.0)], [(0.1, 0.05), (0.5, 0.5), (0.9, 0.8)], [(0.0, 1.0), (1.0, 1.0)]]
DEM = {"a": [[1012, 1018, 1025], [1033, 1038, 1045], [1052, 1058, 1066]], "b": [[1011, 1012, 1013], [1014, 1033, 1034], [1051, 1052, 1071]],
       "c": [[1010, 1020, 1030, 1040], [1050, 1060, 1070, 1079.9], [1015, 1035, 1055, 1075]],
       "d": [[0, 1012, 1025], [0, 1038, 1045], [1052, 1058, 1066]]}


def cases(tier):
    full = tier == "thorough"
    # every glacier of up to four bands
    for nb in (1, 2, 3, 4) if not full else (1, 2, 3, 4, 5):
        for cells in itertools.product(range(len(CELLS)), repeat=nb):
            if nb == 4 and not full and sum(cells) % 3 or nb == 5 and (len(set(cells)) < 3 or sum(cells) % 3):
                continue
            for mode in "ipk":
                yield "prof/%s.%s.2.s.%d" % ("".join(map(str, cells)), mode, (7, 20, 4)[(sum(cells) + nb) % 3])
    for cells in ("111", "1232", "3152", "2415", "5531", "0123", "1023", "31320", "121212", "532131", "55555555", "135135135"):
        for mode, split, order, n in itertools.product("iIpk", SPLITS, ORDERS, (1, 2, 3, 10, 100) if not full else (1, 2, 3, 5, 10, 50, 100, 200)):
            yield "prof/%s.%s.%s.%s.%d" % (cells, mode, split, order, n)
        for k in range(len(OBSERVED)):
            for mode in "ipk":
                for n in (5, 40):
                    yield "obs/%s.%s.%d.%d" % (cells, mode, k, n)
    for k in range(10):
        yield "refuse/%d" % k
    for cells in ("1232", "31320", "5531"):
        for split in SPLITS:
            for n in (2, 10, 51):
                yield "save/%s.%s.%d" % (cells, split, n)
    # glaciers on pixels
    thick = [0.0, 12.0, 40.0]
    n_px = {k: sum(len(r) for r in v) for k, v in DEM.items()}
    for dem in "abcd":
        step = 41 if full else 211
        total = 3 ** n_px[dem]
        for code in range(1, total, step if n_px[dem] < 10 else step * 27):
            for how in ("P", "B", "A") if code % 2 or full else ("P",):
                yield "px/%s.%d.%s.%d" % (dem, code, how, (5, 20, 8)[code % 3])
        for how in "PBA":
            for size in "s", "l", "x":
                for n in (2, 10, 60):
                    yield "pxs/%s.%s.%s.%d" % (dem, how, size, n)
        yield "again/%s" % dem
    for dem in "abcd":
        for k in range(9):
            yield "change/%s.%d" % (dem, k)


def glacier(cells, split):
    rows = []
    for k, c in enumerate(cells):
        a, t = CELLS[int(c)]
        z = 2000 + 10 * k
        if split in "123":
            rows.append((z, a, t, 3 + 2 * (k // int(split))))
        else:                        # units on both sides of the valley
            rows.append((z, a, t, 5))
            if split == "a" or k % 2:
                rows.append((z, a / 4, t * 1.5, 2 if k < 2 else 9))
            if split == "b" and k > 0:
                rows.append((z, 6000.0, t + 5 if a else 0.0, 11))
    return rows


def hydro_units(x, rows):
    d = x.dir()
    p = os.path.join(d, "hu.csv")
    ids = sorted({r[3] for r in rows}) + [50]
    with open(p, "w") as f:
        f.write("id,elevation,area\n-,m,m2\n")
        for k, i in enumerate(ids):
            f.write("%d,%d,%r\n" % (i, 2000 + 40 * k, 1e5 + 1.3 * sum(r[1] for r in rows if r[3] == i)))
    hu = hb.HydroUnits()
    hu.load_from_csv(p, column_elevation="elevation", column_area="area")
    return d, hu


def frame(rows):
    return pd.DataFrame([[z, a, t, i] for z, a, t, i in rows],
                        columns=[("elevation", "m"), ("glacier_area", "m2"), ("glacier_thickness", "m"), ("hydro_unit_id", "-")])


def profile(d, rows):
    p = os.path.join(d, "profile.csv")
    with open(p, "w") as f:
        f.write("elevation,glacier_area,glacier_thickness,hydro_unit_id\nm,m2,m,-\n")
        for z, a, t, i in rows:
            f.write("%r,%r,%r,%d\n" % (z, a, t, i))
    return p


def tables(g):
    a, v = g.get_lookup_table_area(), g.get_lookup_table_volume()
    ids = [int(c) for c in a.columns]
    return ids, [int(c) for c in v.columns], np.array(a.values.tolist(), dtype=float), np.array(v.values.tolist(), dtype=float)


def compare(x, g, want, n, exact=1e-6):
    area, vol, late, V0, tie = want           # from step tie on, rounding decides which bands are left
    ids, vids, a, v = tables(g)
    x.same(ids, sorted(area), "units", "units of the table of areas")
    x.same(vids, sorted(area), "units", "units of the table of volumes")
    x.same((a.shape, v.shape), ((n + 1, len(ids)), (n + 1, len(ids))), "shape", "shape of the tables")
    x.check(np.isfinite(a).all() and np.isfinite(v).all(), "number", "the tables have values that are not numbers: %s",
            [ids[k] for k in range(len(ids)) if not np.isfinite(a[:, k]).all() or not np.isfinite(v[:, k]).all()])
    x.check((a >= 0).all() and (v >= 0).all(), "negative", "the tables have negative values")
    A0 = sum(area[i][0] for i in ids)
    for k, i in enumerate(ids):
        x.close(float(a[0][k]), area[i][0], 1e-9 * A0, "start", "area of unit %d at the start" % i)
        x.close(float(v[0][k]), vol[i][0], 1e-9 * V0, "start", "volume of unit %d at the start" % i)
        x.check(a[n][k] == 0 and v[n][k] == 0, "end", "unit %d still has ice at the end", i)
    for j in range(n):
        x.step()
        x.state((j, round(float(v[j].sum() / V0), 6) if V0 else 0))
        if j >= tie:
            x.check(v[j].sum() >= V0 * (1 - j / n) - 1e-6 * V0, "volume", "total volume after %d of %d steps is %g", j, n, float(v[j].sum()))
            continue
        x.close(float(v[j].sum()), V0 * (1 - j / n) + late[j], 1e-6 * V0 + 1e-9, "volume", "total volume after %d of %d steps" % (j, n))
        x.check(not ((v[j] == 0) & (a[j] > 0)).any() or j == 0, "empty", "step %d: a unit without ice has a glacier area", j)
        for k, i in enumerate(ids):
            x.close(float(a[j][k]), area[i][j], exact * A0, "area", "area of unit %d after %d of %d steps" % (i, j, n))
            x.close(float(v[j][k]), vol[i][j], exact * V0, "volume", "volume of unit %d after %d of %d steps" % (i, j, n))


MODE = {"i": "initial", "I": "initial", "p": "previous", "k": "keep"}


def run_prof(spec, x):
    cells, mode, split, order, n = spec.split(".")
    n = int(n)
    rows = ORDERS[order](glacier(cells, split))
    d, hu = hydro_units(x, rows)
    g = GlacierEvolutionDeltaH(hu)
    p = profile(d, rows)
    if sum(r[1] for r in rows) == 0:
        e = refused(lambda: g.compute_lookup_table(glacier_profile_csv=p, nb_increments=n, **MODES[mode]), ZeroDivisionError)
        x.check(e is not None, "accepted", "a profile without glacier gives tables")
        return
    if sum(r[1] * r[2] for r in rows) == 0:
        return                       # no ice: nothing to say
    df = frame(rows)
    before = df.values.tolist()
    if len(rows) % 2:
        g.compute_lookup_table(glacier_profile_csv=p, nb_increments=n, **MODES[mode])
    else:
        g.compute_lookup_table(glacier_df=df, nb_increments=n, **MODES[mode])
        x.same(df.values.tolist(), before, "modified", "the profile of the caller")
    compare(x, g, seibert(rows, n, MODE[mode]), n)
    if n <= 10:                      # computed again, it says the same
        _, _, a, v = tables(g)
        g.compute_lookup_table(nb_increments=n, **MODES[mode])
        _, _, b, w = tables(g)
        x.check(np.array_equal(a, b) and np.array_equal(v, w), "again", "the tables change when computed again")


def run_obs(spec, x):
    cells, mode, k, n = spec.split(".")
    n = int(n)
    rows = glacier(cells, "2")
    d, hu = hydro_units(x, rows)
    pts = OBSERVED[int(k)]
    obs = pd.DataFrame([[1000 + 10 * j, e, h] for j, (e, h) in enumerate(sorted(pts, reverse=True))],
                       columns=[("elevation", "m"), ("normalized_elevation", "-"), ("dh", "-")])
    g = GlacierEvolutionDeltaH(hu)
    if sum(r[1] * r[2] for r in rows) == 0:
        return
    g.compute_lookup_table(glacier_df=frame(rows), observed_dh=obs, nb_increments=n, **MODES[mode])
    compare(x, g, seibert(rows, n, MODE[mode], pts), n)


def run_refuse(spec, x):
    k = int(spec)
    rows = glacier("1232", "2")
    d, hu = hydro_units(x, rows)
    g = GlacierEvolutionDeltaH(hu)
    p = profile(d, rows)
    kw = dict(glacier_profile_csv=p, nb_increments=5)
    if k == 0:
        g = GlacierEvolutionDeltaH()
    elif k == 1:
        kw["glacier_df"] = frame(rows)
    elif k == 2:
        kw.pop("glacier_profile_csv")
    elif k == 3:
        kw["update_width_reference"] = "last"
    elif k == 4:
        g.pixel_based_approach = True
    elif k == 5:
        with open(p, "w") as f:
            f.write("elevation,glacier_area,glacier_thickness,hydro_unit_id\nm,km2,m,-\n2000,0.04,15,3\n2010,0.04,15,3\n")
    elif k == 6:
        kw["glacier_profile_csv"] = os.path.join(d, "absent.csv")
    elif k in (7, 8, 9):
        dem = DEM["a"]
        c = pixel_catchment(x, dem, {"t": [[10.0] * 3] * 3}, 2500.0)
        if k == 7:
            e = with_rasters(lambda: refused(lambda: g.compute_initial_ice_thickness(c)))
        elif k == 8:
            e = with_rasters(lambda: refused(lambda: g.compute_initial_ice_thickness(c, glacier_outline="o", ice_thickness="t")))
        else:
            c.map_unit_ids = None
            e = with_rasters(lambda: refused(lambda: g.compute_initial_ice_thickness(c, ice_thickness="t")))
        x.check(e is not None, "accepted", "the request is accepted (case %d)", k)
        return
    e = refused(lambda: g.compute_lookup_table(**kw), FileNotFoundError)
    x.check(e is not None, "accepted", "the request is accepted (case %d)", k)
    x.step()


def run_save(spec, x):
    """Saved tables are those an action reads."""
    cells, split, n = spec.split(".")
    n = int(n)
    rows = glacier(cells, split)
    d, hu = hydro_units(x, rows)
    g = GlacierEvolutionDeltaH(hu)
    g.compute_lookup_table(glacier_df=frame(rows), nb_increments=n)
    g.save_as_csv(d)
    ids, _, a, v = tables(g)
    for how in (0, 1):
        act = ActionGlacierEvolutionDeltaH()
        act.load_from(g) if how else act.load_from_csv(d)
        x.same([int(i) for i in np.asarray(act.get_hydro_unit_ids()).tolist()], ids, "units", "units of the action")
        x.check(np.allclose(np.asarray(act.get_lookup_table_area()), a, rtol=1e-12, atol=0), "area", "areas of the action")
        x.check(np.allclose(np.asarray(act.get_lookup_table_volume()), v, rtol=1e-12, atol=0), "volume", "volumes of the action")
        x.step()


def pixel_catchment(x, dem, rasters, px, glacier_name="glacier"):
    """Units of 20 m of elevation, or two sides of them."""
    ids = [[0 if z == 0 else int((z - 1010) // 20) * 2 + 3 + (0 if (r + c) % 3 else 1) for c, z in enumerate(row)] for r, row in enumerate(dem)]
    flat = sorted({i for row in ids for i in row if i})
    d = x.dir()
    p = os.path.join(d, "hu%d.csv" % len(os.listdir(d)))
    with open(p, "w") as f:
        f.write("id,elevation,area\n-,m,m2\n")
        for i in flat:
            n = sum(row.count(i) for row in ids)
            f.write("%d,%d,%r\n" % (i, 1020 + 20 * ((i - 3) // 2), n * px))
    hu = hb.HydroUnits(["open", "glacier"], ["open", glacier_name])
    hu.load_from_csv(p, column_elevation="elevation", column_area="area")
    return Catchment(dem, ids, px, hu, rasters)


def pixel_parts(c, thick):
    """{(middle of the band, unit): pixels}, {unit: pixels}"""
    parts, per = {}, {}
    for r, row in enumerate(c.dem_data.tolist()):
        for q, z in enumerate(row):
            i, t = int(c.map_unit_ids[r][q]), thick[r][q]
            if i and t > 0:
                parts.setdefault((1010 + 10 * int((z - 1010) // 10) + 5, i), []).append(t)
                per.setdefault(i, []).append(t)
    return parts, per


def scaled(per, n, px):
    area, vol = {}, {}
    for i, v in per.items():
        area[i], vol[i], cur = [len(v) * px], [sum(v) * px], list(v)
        for k in range(1, n):
            cur = [p for p in lower(v, sum(v) / n * k / len(v)) if p > 1e-12]
            area[i].append(len(cur) * px)
            vol[i].append(sum(cur) * px)
        area[i].append(0.0)
        vol[i].append(0.0)
    return area, vol, [0.0] * n, sum(sum(v) for v in per.values()) * px, n


def pixels(x, dem, thick, how, n, px=2500.0, again=False):
    c = pixel_catchment(x, DEM[dem], {"t": thick}, px)
    parts, per = pixel_parts(c, thick)
    if not parts:
        return
    init = n != 8
    if how == "A":
        g = GlacierEvolutionAreaScaling()
        with_rasters(lambda: g.compute_lookup_table(c, "t", nb_increments=n, initialize_cover=init))
        want = scaled(per, n, px)
    else:
        g = GlacierEvolutionDeltaH()
        with_rasters(lambda: g.compute_initial_ice_thickness(c, ice_thickness="t", pixel_based_approach=how == "P", initialize_cover=init))
        if how == "P":
            with_rasters(lambda: g.compute_lookup_table(c, nb_increments=n))
            want = pixelwise(parts, n, px)
        else:
            with_rasters(lambda: g.compute_lookup_table(nb_increments=n))
            want = seibert([(z, len(v) * px, sum(v) / len(v), i) for (z, i), v in parts.items()], n, "initial")
    x.check(all(r[1:] == (True, "average") for r in c.resampled), "resampled", "the thickness is resampled as %s", c.resampled)
    compare(x, g, want, n)
    ids, _, a, v = tables(g)
    if init:
        x.same([q[0] for q in c.inits], ["glacier"], "cover", "covers that are initialized")
        x.same(sorted(c.inits[0][1]), sorted(per), "cover", "units whose cover is initialized")
        for i in per:
            x.close(c.inits[0][1][i], len(per[i]) * px, 1e-9, "cover", "initial glacier of unit %d" % i)
    else:
        x.same(c.inits, [], "cover", "covers that are initialized")
    if again:
        with_rasters(lambda: g.compute_lookup_table(c, nb_increments=n) if how == "P" else g.compute_lookup_table(nb_increments=n))
        _, _, b, w = tables(g)
        x.check(np.array_equal(a, b) and np.array_equal(v, w), "again", "the tables change when computed again")
    if how == "A":
        d = x.dir()
        g.save_as_csv(d)
        act = ActionGlacierEvolutionAreaScaling()
        act.load_from_csv(d)
        x.check(np.allclose(np.asarray(act.get_lookup_table_area()), a, rtol=1e-12, atol=0), "area", "areas of the action")
        x.check(np.allclose(np.asarray(act.get_lookup_table_volume()), v, rtol=1e-12, atol=0), "volume", "volumes of the action")


def run_px(spec, x):
    dem, code, how, n = spec.split(".")
    code = int(code)
    thick = []
    for row in DEM[dem]:
        thick.append([])
        for z in row:
            code, r = divmod(code, 3)
            thick[-1].append([0.0, 12.0, 40.0][r] + (0.37 * len(thick[-1]) if r else 0.0) if z else 0.0)
    pixels(x, dem, thick, how, int(n))


def run_pxs(spec, x):
    dem, how, size, n = spec.split(".")
    px = {"s": 625.0, "l": 1.1e6, "x": 6e6}[size]
    thick = [[(20.0 + (z - 1010) * 0.9 + 7 * ((r * 5 + q * 3) % 4)) if z else 0.0 for q, z in enumerate(row)] for r, row in enumerate(DEM[dem])]
    pixels(x, dem, thick, how, int(n), px)


def run_again(spec, x):
    thick = [[(20.0 + 11 * ((r * 5 + q * 3) % 4)) if z else 0.0 for q, z in enumerate(row)] for r, row in enumerate(DEM[spec])]
    for how in "PB":
        pixels(x, spec, thick, how, 12, again=True)


def run_change(spec, x):
    """The change between two surveys: by elevation, scaled between none and the largest."""
    dem, k = spec.split(".")
    k = int(k)
    old = [[(60.0 + 3 * ((r * 2 + q) % 3)) if z else 0.0 for q, z in enumerate(row)] for r, row in enumerate(DEM[dem])]
    new = [[max(0.0, o - (1080 - z) * (0.3, 0.55, 1.0)[k % 3] - ((r + q) % 2)) if z else 0.0 for q, (z, o) in enumerate(zip(row, orow))]
           for r, (row, orow) in enumerate(zip(DEM[dem], old))]
    smooth = (None, 5, 3)[k // 3]
    c = pixel_catchment(x, DEM[dem], {"o": old, "n": new}, 2500.0)
    g = GlacierEvolutionDeltaH()
    got = with_rasters(lambda: g.compute_ice_thickness_change(c, "o", "n", smooth_window=smooth))
    band = {}
    for row, orow, nrow in zip(DEM[dem], old, new):
        for z, o, w in zip(row, orow, nrow):
            if z and (o or w):
                band.setdefault(1010 + 10 * int((z - 1010) // 10) + 5, []).append((o, w))
    rows = [(z, sum(p[0] for p in v) / len(v), sum(p[1] for p in v) / len(v)) for z, v in sorted(band.items())]
    rows = [r for r in rows if r[2] > 0]
    if len(rows) < 2:
        return
    dh = [max(0.0, o - w) for _, o, w in rows]
    if smooth:
        h = smooth // 2
        dh = [sum(dh[max(0, j - h):j + h + 1]) / len(dh[max(0, j - h):j + h + 1]) for j in range(len(dh))]
    lo = min(dh)
    dh = [v - lo for v in dh]
    hi = max(dh)
    dh = [v / hi if hi > 0 else v for v in dh]
    x.same([float(z) for z in got[("elevation", "m")]], [float(r[0]) for r in rows], "bands", "bands of the change")
    for j, r in enumerate(rows):
        x.step()
        e = (rows[-1][0] - r[0]) / (rows[-1][0] - rows[0][0])
        x.close(float(got[("normalized_elevation", "-")].iloc[j]), e, 1e-9, "elevation", "normalized elevation of %g" % r[0])
        x.close(float(got[("dh", "-")].iloc[j]), dh[j], 1e-9, "change", "normalized change at %g" % r[0])


def run(case, x):
    kind, _, spec = case.partition("/")
    return globals()["run_" + kind](spec, x)
