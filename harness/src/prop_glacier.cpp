// G01: glacier evolution follows its tables and conserves ice.  G02: yearly snow-to-ice conversion.
#include <cmath>

#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "balance.h"

namespace {
constexpr double kIce = 900.0;  // kg m-3, i.e. mm w.e. per m of ice

struct Tables {
    axi ids;
    axxd areas, vols;
};
// shape: sync (all units shrink together), seq (one unit after the other), flat (constant area until the end)
// bare: the last unit is listed, but has no ice
Tables tables(const Spec& s, const std::string& shape, int rows, double iceMm, bool bare = false) {
    Tables t;
    int n = s.units.size();
    t.ids.resize(n);
    t.areas.resize(rows, n);
    t.vols.resize(rows, n);
    std::vector<double> A0(n), V0(n);
    double tot = 0;
    for (int u = 0; u < n; ++u) {
        t.ids[u] = s.units[u].id;
        A0[u] = 0.25 * s.units[u].area;
        if (bare && u == n - 1) A0[u] = 0;
        V0[u] = A0[u] * iceMm / kIce * (1 + 0.5 * u);
        tot += V0[u];
    }
    for (int i = 0; i < rows; ++i) {
        double lost = (double)i / (rows - 1), pool = lost * tot;
        for (int u = 0; u < n; ++u) {
            double v = V0[u] * (1 - lost);
            if (shape == "seq") {
                double l = std::min(pool, V0[u]);
                pool -= l;
                v = V0[u] - l;
                if (v < 1e-9 * V0[u]) v = 0;
            }
            if (i == rows - 1) v = 0;
            if (V0[u] == 0) v = 0;
            t.vols(i, u) = v;
            t.areas(i, u) = v == 0 ? 0 : shape == "flat" ? A0[u] : A0[u] * std::pow(v / V0[u], 0.6);
        }
    }
    return t;
}
Config glacierConfig(const std::string& kind, const std::string& snow, int units, int stepDaysN, int steps, const std::string& start) {
    Config c;
    c.spec.o.kind = kind;
    c.spec.start = start;
    c.spec.step = stepDaysN;
    c.spec.steps = steps;
    for (int u = 0; u < units; ++u) {
        Unit x{u == 0 ? 7 : u, 1e6 * (1 + u * 0.7), 1000 + 400.0 * u, coverSet("GFI"), 12};
        x.aspect = "north";
        c.spec.units.push_back(x);
    }
    c.spec.o.infiniteIce = false;
    c.spec.o.noMeltWhenSnow = 0;
    snowOption(c.spec.o, snow);
    return c;
}
// number of occurrences of month/day in (a, b], MJD
int occurrences(double a, double b, int month, int day) {
    int k = 0;
    long d0 = (long)std::floor(a + 1e-6) + 1, d1 = (long)std::floor(b + 1e-6);
    for (long d = d0; d <= d1; ++d) {
        int y, m, dd;
        civilFrom(d - 40587, y, m, dd);
        k += m == month && dd == day;
    }
    return k;
}
}  // namespace

PROPERTY(G01) {
    struct K {
        std::string act, shape, snow;
        int rows, units, step;
        double ice;
        bool zeroDeclared;
        int spin = 0;
        bool gain = false, bare = false;  // the snow on the glacier becomes ice every March: the glacier can also grow
    };
    std::vector<K> ks;
    for (std::string act : {"dh", "as"})
        for (std::string shape : {"sync", "seq", "flat"})
            for (int rows : {2, 3, 6, 11})
                for (int units : {1, 3})
                    for (std::string sn : {"dd", "wrr", "tc"}) {
                        if (act == "as" && shape == "seq" ) continue;
                        if (units == 1 && shape == "seq") continue;
                        for (bool z : {false, true}) {
                            if (z && (sn != "dd" || rows == 6)) continue;
                            for (double ice : {2000.0, 20000.0}) ks.push_back({act, shape, sn, rows, units, 122, ice, z});
                            if (sn == "dd" && rows == 3) ks.push_back({act, shape, sn, rows, units, 122, 2000.0, z, 122});
                            if (sn == "dd" && units == 3 && (rows == 3 || rows == 11)) {
                                ks.push_back({act, shape, sn, rows, units, 122, 2000.0, z});
                                ks.back().bare = true;
                            }
                            if (sn == "dd" && !z && rows > 2) ks.push_back({act, shape, sn, rows, units, 122, rows == 3 ? 600.0 : 10000.0, z, 0, true});
                        }
                    }
    const std::vector<int> alpha = {1, 3, 4, 0};
    for (auto& k : ks) {
        Config c = glacierConfig("socont", k.snow, k.units, k.step, k.gain ? 11 : ctx.quick() ? 7 : 9, "2020-06-01");
        c.spec.o.params.push_back({"glacier", "degree_day_factor", 3.0f});
        if (k.zeroDeclared)
            for (auto& u : c.spec.units) {
                u.covers[0].frac += u.covers[2].frac;
                u.covers[2].frac = 0;
            }
        if (k.bare) {
            auto& u = c.spec.units.back();
            u.covers[0].frac += u.covers[2].frac;
            u.covers[2].frac = 0;
        }
        c.spec.spinup = k.spin;
        Tables tb = tables(c.spec, k.shape, k.rows, k.ice, k.bare);
        std::string name = k.act + "/" + k.shape + fmt("/r%d/u%d/", k.rows, k.units) + k.snow + fmt("/i%g%s", k.ice, k.zeroDeclared ? "/z" : "") + (k.spin ? "/spin" : "") + (k.gain ? "/gain" : "") + (k.bare ? "/bare" : "");
        sequences(alpha.size(), ctx.quick() ? 5 : 7, [&](const std::vector<int>& q) {
            if (k.spin && q[0] != 0) return;  // no melt during the spin-up
            ctx.run(name + "/" + seqStr(q), [&] {
                std::vector<int> seq;
                for (int i = 0; i < c.spec.steps; ++i) seq.push_back(alpha[q[i % q.size()]]);
                auto f = unitForcing(c.spec, seq);
                if (k.spin)
                    for (auto& x : f) x = f[0];
                if (k.gain)
                    for (auto& x : f)
                        for (auto& y : x) y.p *= k.ice < 1000 ? 12 : y.t < 0 ? 100 : 1;
                Sim sim(c.spec);
                if (!sim.init()) return ctx.fail("rejected", sim.error);
                if (k.act == "dh") {
                    auto x = std::make_shared<ActionGlacierEvolutionDeltaH>();
                    x->AddLookupTables(10, "glacier", tb.ids, tb.areas, tb.vols);
                    sim.actions.push_back(x);
                } else {
                    auto x = std::make_shared<ActionGlacierEvolutionAreaScaling>();
                    x->AddLookupTables(10, "glacier", tb.ids, tb.areas, tb.vols);
                    sim.actions.push_back(x);
                }
                if (!sim.m->AddAction(sim.actions[0].get())) return ctx.fail("rejected", "valid tables refused");
                ActionGlacierSnowToIceTransformation firn(3, 15, "glacier");
                if (k.gain && !sim.m->AddAction(&firn)) return ctx.fail("rejected", "conversion refused");
                if (!sim.forcing(f) || !sim.run()) return ctx.fail("rejected", sim.error);
                Rec r = record(*sim.m);
                if (getenv("HB_DUMP")) dumpRec(r);
                int U = c.spec.units.size(), n = k.rows;
                double A = r.areas.sum();
                auto& fr = *r.frv("glacier");
                auto& ic = *r.huv("glacier:ice_content");
                auto* melt = r.huv("glacier:melt:output");
                auto* tr = r.huv("glacier_snowpack:snow_ice_transfo:output");
                std::vector<double> area(U), ice(U);  // before the step under check
                double tot0 = 0;
                for (int u = 0; u < U; ++u) {
                    area[u] = tb.areas(0, u);
                    ice[u] = tb.vols(0, u) * kIce;  // mm m2
                    tot0 += ice[u];
                }
                std::vector<double> init = ice;
                double in = 0, out = 0, et = 0;
                for (int t = 0; t < r.steps; ++t) {
                    ++ctx.transitions;
                    ctx.state(hashRec(r, t));
                    int occ = t ? occurrences(r.time[t - 1], r.time[t], 10, 1) : 0;
                    if (k.gain && t && occurrences(r.time[t - 1], r.time[t], 3, 15))
                        for (int u = 0; u < U; ++u) ice[u] += (*r.huv("glacier_snowpack:snow_content"))(t - 1, u) * area[u];
                    if (occ && k.act == "dh") {
                        double tot = 0;
                        for (double x : ice) tot += x;
                        double x = std::max(0.0, (tot0 - tot) / tot0) * (n - 1);
                        bool matched = false;
                        std::string tried;
                        for (double e : {1e-9, -1e-9}) {
                            int row = std::min(n - 1, (int)std::floor(std::max(0.0, x + e)));
                            bool ok = true;
                            for (int u = 0; u < U; ++u) ok &= close(fr(t, u) * r.areas[u], tb.areas(row, u), 1e-6, 1e-3);
                            tried = fmt("row %d", row);
                            if (!ok) continue;
                            matched = true;
                            double vs = tb.vols.row(row).sum();
                            for (int u = 0; u < U; ++u) {
                                area[u] = tb.areas(row, u);
                                ice[u] = area[u] == 0 ? 0 : tot * tb.vols(row, u) / vs;
                            }
                            break;
                        }
                        if (!matched)
                            return ctx.fail("area", fmt("step %d: %.4f%% of the ice is lost, the extents do not match %s of the table", t + 1, 100 * x / (n - 1), tried.c_str()));
                    } else if (occ) {
                        for (int u = 0; u < U; ++u) {
                            if (area[u] <= 0) continue;
                            double x = std::max(0.0, (init[u] - ice[u]) / init[u]) * (n - 1);
                            bool ok = false;
                            for (double e : {1e-9, -1e-9}) {
                                int row = std::min(n - 1, (int)std::floor(std::max(0.0, x + e)));
                                if (ice[u] <= 1e-6) row = n - 1;
                                if (close(fr(t, u) * r.areas[u], tb.areas(row, u), 1e-6, 1e-3)) {
                                    ok = true;
                                    area[u] = tb.areas(row, u);
                                    break;
                                }
                            }
                            if (!ok)
                                return ctx.fail("area", fmt("step %d unit %d: %.4f%% of the ice is lost, extent %.6g m2 does not match the table", t + 1, u, 100 * x / (n - 1), fr(t, u) * r.areas[u]));
                        }
                    }
                    for (int u = 0; u < U; ++u) {
                        if (!close(fr(t, u) * r.areas[u], area[u], 1e-6, 1e-3))
                            return ctx.fail("extent", fmt("step %d unit %d: extent %.9g m2, expected %.9g", t + 1, u, fr(t, u) * r.areas[u], area[u]));
                        double sum = 0;
                        for (auto& F : r.fr) sum += F(t, u);
                        if (std::fabs(sum - 1) > 1e-6) return ctx.fail("partition", fmt("step %d unit %d: extents sum to %.9g", t + 1, u, sum));
                        double m = area[u] > 0 ? (*melt)(t, u) * A : 0, g = tr && area[u] > 0 ? (*tr)(t, u) * area[u] : 0;
                        double now = ic(t, u) * fr(t, u) * r.areas[u];
                        if (area[u] == 0) now = 0;
                        if (!std::isfinite(ic(t, u)) || ic(t, u) < -1e-7)
                            return ctx.fail("ice_value", fmt("step %d unit %d: ice content %.9g", t + 1, u, ic(t, u)));
                        if (!close(now + m, ice[u] + g, 1e-6, 1e-6 * tot0))
                            return ctx.fail("ice", fmt("step %d unit %d: ice %.9g + melt %.9g, expected %.9g + gain %.9g (mm m2)", t + 1, u, now, m, ice[u], g));
                        ice[u] = now;
                    }
                    // water ledger, ice included
                    in += inputTotal(r, c, f, t);
                    out += (*r.subv("outlet"))[t];
                    et += etTotal(r, t);
                    double iceTot = 0;
                    for (double x : ice) iceTot += x / A;
                    double res = in - out - et - waterAndSnow(r, t) - (iceTot - tot0 / A);
                    if (!k.spin && !(std::fabs(res) <= 1e-6 * (1 + in + tot0 / A)))
                        return ctx.fail("water", fmt("after step %d: the balance including ice is off by %.3g mm", t + 1, res));
                }
                // the initial extents and volumes come back on reset
                sim.m->Reset();
                for (int u = 0; u < U; ++u) {
                    auto* g = sim.m->GetSubBasin()->GetHydroUnit(u)->GetLandCover("glacier");
                    if (!close(g->GetAreaFraction() * r.areas[u], tb.areas(0, u), 1e-6, 1e-3))
                        return ctx.fail("reset", fmt("unit %d: extent %.6g m2 after a reset, the table starts at %.6g", u, g->GetAreaFraction() * r.areas[u], tb.areas(0, u)));
                    if (!close(g->GetContent(ContentType::Ice) * tb.areas(0, u), init[u], 1e-6, 1e-6))
                        return ctx.fail("reset", fmt("unit %d: ice differs from the initial one after a reset", u));
                }
                ++ctx.validated;
            });
        });
    }
}

PROPERTY(G02) {
    struct TS {
        int n;
        const char* u;
        int steps;
    };
    const std::vector<std::vector<int>> weather = {{1, 1, 0, 2, 1, 5, 0}, {2, 0, 1, 1}, {1, 4, 1, 1, 0}};
    std::vector<TS> tss = {{1, "day", 800}, {6, "hour", 400}, {3, "day", 270}, {7, "day", 110}, {30, "day", 40}, {45, "day", 25}, {100, "day", 12}, {400, "day", 6}};
    if (ctx.thorough()) tss.insert(tss.end(), {{1, "hour", 1500}, {2, "day", 500}, {5, "day", 200}, {12, "hour", 1600}, {90, "day", 30}, {365, "day", 8}});
    for (TS ts : tss)
        for (std::string start : {"2019-12-30 00:00", "2020-02-26 06:00", "2021-09-29 18:00"})
            for (int month = 1; month <= 12; ++month)
                for (int day : {1, 2, 15, 27, 28, 29, 30, 31})
                    for (size_t w = 0; w <= weather.size() + 1; ++w) {
                        // the very last one: a second day of the year is declared too
                        bool second = w == weather.size() + 1;
                        if (second) w = 0;
                        int month2 = (month + 4) % 12 + 1, day2 = (day + 13) % 28 + 1;
                        // the last one: hardly any snow, on a glacier declared without ice
                        bool light = w == weather.size();
                        double scale = light ? 0.02 : 1, ice0 = light ? 0 : 1000;
                        if (std::string(ts.u) == "hour" && ctx.quick() && !(month == 12 || month <= 3 || month == 10)) {
                            if (second) break;
                            continue;
                        }
                        ctx.run(fmt("%d%s/%s/%02d-%02d/w%zu%s", ts.n, ts.u, start.c_str(), month, day, w, second ? "+" : ""), [&] {
                            Config c = glacierConfig("socont", "dd", 2, ts.n, ts.steps, start);
                            c.spec.unit = ts.u;
                            c.spec.units[1].covers[2].frac = 0;  // a unit without glacier
                            c.spec.units[1].covers[0].frac += 0.25;
                            c.initialIce = ice0;
                            std::vector<int> seq;
                            for (int i = 0; i < ts.steps; ++i) seq.push_back(weather[light ? 0 : w][i % weather[light ? 0 : w].size()]);
                            auto f = unitForcing(c.spec, seq);
                            for (auto& x : f)
                                for (auto& y : x) y.p *= scale;
                            Sim sim(c.spec);
                            if (!sim.init()) return ctx.fail("rejected", sim.error);
                            auto* gl = sim.m->GetSubBasin()->GetHydroUnit(0)->GetBrick("glacier");
                            gl->UpdateContent(ice0, ContentType::Ice);
                            gl->SetInitialState(ice0, ContentType::Ice);
                            ActionGlacierSnowToIceTransformation a(month, day, "glacier");
                            if (second) a.AddRecursiveDate(month2, day2);
                            if (!sim.m->AddAction(&a) || !sim.forcing(f) || !sim.run()) return ctx.fail("rejected", sim.error);
                            Rec r = record(*sim.m);
                            if (getenv("HB_DUMP")) dumpRec(r);
                            auto& ic = *r.huv("glacier:ice_content");
                            auto& sn = *r.huv("glacier_snowpack:snow_content");
                            auto& gs = *r.huv("ground_snowpack:snow_content");
                            auto& melt = *r.huv("glacier:melt:output");
                            auto& smelt = *r.huv("glacier_snowpack:melt:output");
                            auto& gmelt = *r.huv("ground_snowpack:melt:output");
                            double A = r.areas.sum(), ice = ice0, snow = 0, gsnow = 0;
                            int eday = std::min(day, month == 2 ? 28 : daysIn(2021, month));
                            for (int t = 0; t < r.steps; ++t) {
                                ++ctx.transitions;
                                int occ = t ? occurrences(r.time[t - 1], r.time[t], month, eday) : 0;
                                if (t && second) occ += occurrences(r.time[t - 1], r.time[t], month2, day2);
                                if (occ) {
                                    ice += snow;
                                    snow = 0;
                                }
                                const Sym& y = f[0][t];
                                double sf = y.p * (y.t <= 0 ? 1 : y.t >= 2 ? 0 : (2 - y.t) / 2);
                                double m = melt(t, 0) * A / (r.areas[0] * 0.25);
                                if (!close(ic(t, 0), ice - m, 1e-7, 1e-6))
                                    return ctx.fail("ice", fmt("step %d (%s): ice %.9g, expected %.9g - melt %.9g", t + 1, occ ? "conversion due" : "no conversion due", ic(t, 0), ice, m));
                                if (!close(sn(t, 0), snow + sf - smelt(t, 0), 1e-7, 1e-5))
                                    return ctx.fail("snow", fmt("step %d (%s): snow on ice %.9g, expected %.9g + %.9g - melt %.9g", t + 1, occ ? "conversion due" : "no conversion due", sn(t, 0), snow, sf, smelt(t, 0)));
                                if (!close(gs(t, 0), gsnow + sf - gmelt(t, 0), 1e-7, 1e-5))
                                    return ctx.fail("other_snow", fmt("step %d: snow outside the glacier changed", t + 1));
                                ice = ic(t, 0);
                                snow = sn(t, 0);
                                gsnow = gs(t, 0);
                                if (t % 16 == 0) ctx.state(hashRec(r, t));
                            }
                            ++ctx.validated;
                        });
                        if (second) break;
                    }
}
