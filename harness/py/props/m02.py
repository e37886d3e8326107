"""M02: every shipped model, under every option and land cover, runs on a catchment and keeps the water balance."""
import numpy as np

from props.common import *

WORD = de_bruijn(6, 3)


def cases(tier):
    full = tier == "thorough"
    for c in itertools.chain(socont_cases(full), hbv_cases(full), gr_cases(full), rule_cases()):
        yield c
    # the other solvers, on the configurations that differ from the default ones in at most one option
    for s in SOLVERS[1:]:
        for c in itertools.chain(socont_cases(False), hbv_cases(False), gr_cases(False)):
            if full or sum(map(ord, c)) % 8 == 0:
                yield c + "/" + s


def run(case, x):
    cls, o, names, types = parse(case)
    solver = case.split("/")[2] if case.count("/") == 2 else "crank_nicolson"
    glaciers = [n for n, t in zip(names, types) if t == "glacier"]
    d = x.dir()
    hu, rows = catchment(d, names, types)
    total = sum(r[1] for r in rows)

    def build(word, f=None):
        m = cls(land_cover_names=list(names), land_cover_types=list(types), record_all=True, solver=solver, **o)
        ps = fill(m.generate_parameters())
        if f is None:
            f, end = weather(d, hu, word, needed(o), name="w%d" % len(word))
        else:
            end = str(f.data1D.time.iloc[-1].date())
        m.setup(hu, d, "2000-01-01", end)
        return m, ps, f

    def records(m):
        r = {}
        for label in m.get_recorded_labels():
            r[label] = np.array(m.get_recorded_hydro_unit_values(label))
        return r, np.array(m.get_outlet_discharge())

    m, ps, f = build(WORD)
    x.check(ps.is_valid(), "parameters", "parameters without a value: %s", ps.get_undefined())
    x.check(ps.constraints_satisfied() and ps.range_satisfied(), "parameters", "the parameters are not consistent")
    m.run(ps, f)
    n = len(WORD)
    x.step(n * len(rows))
    r, q = records(m)
    x.check(q.shape == (n,) and np.isfinite(q).all() and q.min() >= -1e-9, "discharge", "discharge is not a finite, positive series")
    ids = list(m.get_recorded_hydro_unit_ids())
    x.same(sorted(ids), [row[0] for row in rows], "ids", "recorded units")
    by = {row[0]: row for row in rows}
    for label, v in r.items():
        x.check(v.shape == (len(rows), n), "shape", "%s has shape %s", label, v.shape)
        brick = label.split(":")[0]
        cover = next((c for c in names if brick in (c, c + "_snowpack", c + "_canopy", c + "_soil_moisture")), None)
        for k, i in enumerate(ids):
            nan = np.isnan(v[k])
            x.check(nan.all() or not nan.any() and np.isfinite(v[k]).all(), "nan", "%s of unit %d is not a number on some days", label, i)
            if cover and by[i][5][cover] > 0:
                x.check(not nan.any(), "missing", "%s of unit %d is not recorded although it has that cover", label, i)
            if label.endswith("_content") and not nan.any():
                if not (label == "uh_input:water_content" and cls is models.GR6J):
                    x.check(v[k].min() >= -1e-6, "negative", "%s of unit %d goes down to %g", label, i, v[k].min())
    # the water balance; the ice of an infinite glacier is an input
    p = sum(DAYS[w][0] * (1 + 0.05 * (row[2] - 1200) / 100) * row[1] for w in WORD for row in rows) / total
    ice = 0.0
    for g in glaciers:
        if o["glacier_infinite_storage"]:
            v, fr = r[g + ":melt:output"], m.get_recorded_hydro_unit_fractions(g)
            ice += np.nansum(v)  # water sent to the catchment stores is recorded in mm of the catchment
            if o.get("snow_ice_transformation"):
                v = r[g + "_snowpack:snow_ice_transfo:output"]
                ice -= sum(np.nansum(v[k] * fr[k]) * by[i][1] / total for k, i in enumerate(ids) if by[i][5][g] > 0)
        else:  # the store of ice is not part of the storage totals
            v, fr = r[g + ":ice_content"], m.get_recorded_hydro_unit_fractions(g)
            ice -= sum(v[k][-1] * fr[k][-1] * by[i][1] / total for k, i in enumerate(ids) if by[i][5][g] > 0)
    parts = [m.get_total_outlet_discharge(), m.get_total_et(), m.get_total_water_storage_changes(), m.get_total_snow_storage_changes()]
    x.check(np.isfinite(parts).all(), "balance", "totals are not numbers: %s", parts)
    err = p + ice - sum(parts)
    x.check(abs(err) < 1e-5 * p, "balance",
            "P %.6f + ice %.6f - (Q %.6f + ET %.6f + dS %.6f + dSnow %.6f) = %g", p, ice, *parts, err)
    x.close(q.sum(), parts[0], 1e-6, "total", "total discharge")
    x.state(round(parts[0], 3), round(parts[1], 3), round(ice, 3))
    # the same again, with and without giving the forcing again
    for again in (f, None):
        m.run(ps, again) if again else m.run(ps)
        r2, q2 = records(m)
        x.step(n * len(rows))
        x.check(np.array_equal(q, q2) and all(np.array_equal(r[k], r2[k], equal_nan=True) for k in r), "rerun",
                "a second run %s gives another result", "with the forcing" if again else "without forcing argument")
