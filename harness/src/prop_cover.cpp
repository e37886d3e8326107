// L01: land-cover changes keep the cover extents a partition of each unit and conserve the stored water.
// L02: changes happen at their dates, in date order, whatever the order of their declaration.
#include <cmath>

#include "ActionLandCoverChange.h"
#include "balance.h"

namespace {
struct Event {
    int step;
    std::string cover;
    double frac;
    int unit = 0;
};
const std::vector<std::vector<int>> kWeather = {{1, 3, 1, 4, 4, 5}, {3, 3, 4, 0, 5, 4}, {1, 1, 1, 0, 4, 4}, {2, 5, 2, 5, 2, 5},
                                                {5, 1, 4, 3, 4, 0}, {4, 3, 1, 2, 3, 4}, {0, 1, 3, 0, 3, 1}, {3, 4, 1, 5, 0, 2}};
std::string eventStr(const std::vector<Event>& ev) {
    std::string s;
    for (auto& e : ev) s += fmt("%s%d%s%g@%d", s.empty() ? "" : "+", e.unit, e.cover.c_str(), e.frac, e.step);
    return s.empty() ? "none" : s;
}
// Expected extents after the events up to a step; false when the generic cover cannot absorb a change.
struct Extents {
    std::vector<std::map<std::string, double>> f;
    bool ok = true;
    Extents(const Spec& s) {
        for (auto& u : s.units) {
            f.emplace_back();
            for (auto& c : u.covers) f.back()[c.name] = c.frac;
        }
    }
    void apply(const Event& e) {
        auto& m = f[e.unit];
        double d = e.frac - m[e.cover];
        if (m["ground"] - d < -1e-9) {
            ok = false;
            return;
        }
        m[e.cover] = e.frac;
        m["ground"] -= d;
    }
};
// The routines in which snow and intercepted water do not move on a cold and dry day (a single unit has the weather as given)
bool u0only(const Config& c) {
    return c.spec.units.size() == 1 && c.spec.o.sublimation.empty() && c.spec.o.transform.empty() && !c.spec.o.refreeze;
}
int unitWeather(const std::vector<int>& w, int t) { return w[t % w.size()]; }
void runCase(Ctx& ctx, const Config& c, const std::vector<Event>& ev, const std::vector<int>& weather, bool balance,
             const std::vector<int>* declOrder = nullptr, int split = 1, bool warm = false) {
    Sim sim(c.spec);
    auto f = unitForcing(c.spec, weather);
    if (!prepare(sim, c, f)) return ctx.fail("rejected", sim.error);
    double s0 = 0;  // stored at the start
    if (warm) {
        // starts with what an earlier run left
        if (!sim.run()) return ctx.fail("rejected", sim.error);
        Rec r0 = record(*sim.m);
        s0 = waterAndSnow(r0, c.spec.steps - 1);
        sim.m->SaveAsInitialState();
        sim.m->Reset();
    }
    double t0 = startMjd(c.spec), dt = stepDays(c.spec);
    std::vector<std::shared_ptr<ActionLandCoverChange>> acts;
    for (int k = 0; k < split; ++k) acts.push_back(std::make_shared<ActionLandCoverChange>());
    for (size_t i = 0; i < ev.size(); ++i) {
        auto& e = ev[declOrder ? (*declOrder)[i] : i];
        double d = t0 + e.step * dt;
        acts[i % split]->AddChange(d, c.spec.units[e.unit].id, e.cover, e.frac * c.spec.units[e.unit].area);
    }
    for (auto& a : acts)
        if (!sim.m->AddAction(a.get())) return ctx.fail("rejected", "valid land cover change rejected");
    if (sim.m->GetSporadicActionItemCount() != (int)ev.size()) return ctx.fail("items", "number of dated changes differs from the declared ones");
    // which step does the schedule first become impossible at?
    Extents ex(c.spec);
    int badStep = -1;
    std::vector<Extents> at;
    for (int t = 0; t < c.spec.steps; ++t) {
        // the covers that shrink make room for those that grow on the same date
        for (bool grow : {false, true})
            for (auto& e : ev)
                if (e.step == t && badStep < 0 && grow == (e.frac >= ex.f[e.unit].at(e.cover))) {
                    ex.apply(e);
                    if (!ex.ok) badStep = t;
                }
        at.push_back(ex);
    }
    bool threw = false;
    std::string err;
    try {
        if (!sim.run()) {
            threw = true;
            err = sim.error;
        }
    } catch (const std::exception& x) {
        threw = true;
        err = x.what();
    }
    if (badStep >= 0) {
        if (!threw) ctx.fail("overfull", "a cover extension larger than the land available was accepted");
        // whatever happened, the extents still partition each unit
        for (int u = 0; u < sim.m->GetSubBasin()->GetHydroUnitCount(); ++u) {
            double sum = 0;
            for (auto& cv : c.spec.units[u].covers) {
                double x = sim.m->GetSubBasin()->GetHydroUnit(u)->GetLandCover(cv.name)->GetAreaFraction();
                if (x < -1e-9 || x > 1 + 1e-9) ctx.fail("range", fmt("extent of %s is %.9g after a refused change", cv.name.c_str(), x));
                sum += x;
            }
            if (std::fabs(sum - 1) > 1e-6) ctx.fail("sum", fmt("extents sum to %.9g after a refused change", sum));
        }
        ++ctx.validated;
        return;
    }
    if (threw) return ctx.fail("rejected", "valid schedule failed: " + err);
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    double in = 0, out = 0, et = 0, ice = 0;
    for (int t = 0; t < c.spec.steps; ++t) {
        ++ctx.transitions;
        ctx.state(hashRec(r, t));
        for (size_t u = 0; u < c.spec.units.size(); ++u) {
            double sum = 0;
            for (auto& cv : c.spec.units[u].covers) {
                double x = (*r.frv(cv.name))(t, u);
                sum += x;
                double want = at[t].f[u].at(cv.name);
                if (!(x >= -1e-12 && x <= 1 + 1e-12)) return ctx.fail("range", fmt("extent of %s in unit %zu at step %d is %.9g", cv.name.c_str(), u, t + 1, x));
                if (std::fabs(x - want) > 1e-6)
                    return ctx.fail("extent", fmt("extent of %s in unit %zu at step %d is %.9g, declared changes give %.9g", cv.name.c_str(), u, t + 1, x, want));
            }
            if (std::fabs(sum - 1) > 1e-6) return ctx.fail("sum", fmt("extents of unit %zu sum to %.9g at step %d", u, sum, t + 1));
        }
        // On a cold and dry day nothing else moves: the snow and the intercepted water of each strip of land stay where they are.
        bool still = t > 0 && (unitWeather(weather, t) == 0);
        for (size_t u = 0; still && u < (u0only(c) ? 1 : 0); ++u)
            for (const char* what : {"_snowpack:snow_content", "_canopy:water_content"}) {
                std::map<std::string, double> depth, ext;
                for (auto& cv : c.spec.units[u].covers) {
                    auto* x = r.huv(cv.name + what);
                    ext[cv.name] = at[t - 1].f[u].at(cv.name);
                    if (x) depth[cv.name] = (*x)(t - 1, u);
                }
                for (bool grow : {false, true})
                    for (auto& e : ev) {
                        if (e.step != t || e.unit != (int)u) continue;
                        double d = e.frac - ext[e.cover];
                        if (grow != (d >= 0) || d == 0) continue;
                        std::string from = d > 0 ? "ground" : e.cover, to = d > 0 ? e.cover : "ground";
                        d = std::fabs(d);
                        if (depth.count(to))
                            depth[to] = (depth[to] * ext[to] + (depth.count(from) ? depth[from] : 0) * d) / (ext[to] + d);
                        ext[to] += d;
                        ext[from] -= d;
                        if (ext[from] < 1e-9 && depth.count(from)) depth[from] = 0;
                    }
                for (auto& x : depth) {
                    double v = (*r.huv(x.first + what))(t, u);
                    if (ext[x.first] > 1e-9 && !close(v, x.second, 1e-6, 1e-6))
                        return ctx.fail("moved", fmt("step %d: %s%s is %.9g mm, what was on its land before makes %.9g", t + 1, x.first.c_str(), what, v, x.second));
                }
            }
        if (!balance) continue;
        in += inputTotal(r, c, f, t);
        ice += iceInput(r, c, t, true) - iceGain(r, c, t, true);
        out += (*r.subv("outlet"))[t];
        et += etTotal(r, t);
        double res = in + ice - out - et - (waterAndSnow(r, t) - s0);
        if (!(std::fabs(res) <= 1e-6 * (1 + in + std::fabs(ice))))
            return ctx.fail("water", fmt("after step %d: precipitation %.9g + ice melt %.9g - discharge %.9g - evaporation %.9g - storage %.9g = %.3g",
                                         t + 1, in, ice, out, et, waterAndSnow(r, t), res));
        for (size_t i = 0; i < r.hu.size(); ++i)
            for (int u = 0; u < r.hu[i].cols(); ++u) {
                double v = r.hu[i](t, u);
                if (v < -1e-7) return ctx.fail("negative", fmt("%s = %.9g in unit %d at step %d", r.huLabels[i].c_str(), v, u, t + 1));
            }
    }
    if (balance) {
        double rep = sim.m->GetTotalOutletDischarge() + sim.m->GetTotalET() + sim.m->GetTotalWaterStorageChanges() + sim.m->GetTotalSnowStorageChanges();
        if (!close(rep, in + ice, 1e-6, 1e-6)) return ctx.fail("reported", fmt("reported totals sum to %.9g, inputs are %.9g", rep, in + ice));
    }
    ++ctx.validated;
}
Config coverConfig(const std::string& kind, const std::string& cov, const std::string& snow, const std::string& par, int units) {
    Config c;
    c.spec.o.kind = kind;
    c.spec.steps = 6;
    for (int u = 0; u < units; ++u) {
        Unit x{u == 0 ? 4 : 9 - u, 1e6 * (1 + u * 0.7), 1000 + 200.0 * u, coverSet(cov), 12};
        x.aspect = "north";
        c.spec.units.push_back(x);
    }
    snowOption(c.spec.o, snow);
    paramOption(c.spec, par);
    c.name = kind + "/" + cov + "/" + snow + "/" + par;
    return c;
}
}  // namespace

PROPERTY(L01) {
    struct K {
        std::string kind, cov;
    };
    std::vector<K> ks = {{"socont", "GF"}, {"socont", "GFI"}, {"socont", "GI"}, {"hbv", "GF"}, {"hbv", "GI"}, {"gr4j", "GF"}, {"bucket", "GF"}, {"socont", "G0I"}};
    std::vector<std::string> snows = {"none", "dd", "wrr", "ca", "car", "cn", "sp", "all"};
    for (auto& k : ks)
        for (auto& sn : snows)
            for (std::string par : {"def", "tight"}) {
                if (sn == "none" && k.cov != "GF") continue;
                if (k.kind == "bucket" && par == "tight") continue;
                if (k.kind != "socont" && k.cov == "GFI") continue;
                Config c = coverConfig(k.kind, k.cov, sn, par, 1);
                std::vector<Event> opts;
                for (auto& cv : c.spec.units[0].covers) {
                    if (cv.name == "ground") continue;
                    for (double fr : {0.0, 0.05, 0.45, 0.7, 1.0})
                        opts.push_back({0, cv.name, fr});
                }
                int n = opts.size();
                bool small = k.cov == "GFI" && ctx.quick();
                auto go = [&](const std::vector<int>& pick) {
                    // pick[i] : 0 = no change at step 1+i, else option
                    std::vector<Event> ev;
                    for (size_t i = 0; i < pick.size(); ++i)
                        if (pick[i]) {
                            Event e = opts[pick[i] - 1];
                            e.step = 1 + i;
                            ev.push_back(e);
                        }
                    for (size_t w = 0; w < kWeather.size(); ++w) {
                        if (small && w >= 4 && w != 6) continue;
                        ctx.run(c.name + "/" + eventStr(ev) + fmt("/w%zu", w), [&] { runCase(ctx, c, ev, kWeather[w], true); });
                        if (w == 3 || w == 6) ctx.run(c.name + "/" + eventStr(ev) + fmt("/w%zu+", w), [&] { runCase(ctx, c, ev, kWeather[w], true, nullptr, 1, true); });
                    }
                };
                sequences(n + 1, ctx.quick() ? (k.cov == "GFI" ? 2 : 3) : (k.cov == "GFI" ? 3 : 4), go);
            }
    // small changes, and covers of which little is left
    for (std::string kind : {"socont", "hbv", "bucket"})
        for (std::string sn : {"dd", "wrr", "car", "caf"})
            for (std::string cov : {"GF", "GI"}) {
                if (kind == "bucket" && cov == "GI") continue;
                Config c = coverConfig(kind, cov, sn == "caf" ? "ca" : sn, "def", 1);
                if (sn == "caf") {
                    if (cov != "GF") continue;
                    c.spec.o.canopy = {"ground", "forest"};
                }
                std::string n = cov == "GF" ? "forest" : "glacier";
                double f0 = cov == "GF" ? 0.4 : 0.3;
                const std::vector<double> fr = {f0 + 4e-4, f0 - 2e-4, 5e-4, 4e-3, 0.996, 0.9995, 0.0, 0.2};
                sequences(fr.size() + 1, ctx.quick() ? 3 : 4, [&](const std::vector<int>& pick) {
                    std::vector<Event> ev;
                    for (size_t i = 0; i < pick.size(); ++i)
                        if (pick[i]) ev.push_back({2 + (int)i, n, fr[pick[i] - 1], 0});
                    for (size_t w : {0, 2, 6})
                        ctx.run("small/" + kind + "/" + cov + "/" + sn + "/" + eventStr(ev) + fmt("/w%zu", w), [&] { runCase(ctx, c, ev, kWeather[w], true); });
                });
            }
}

// Schedules: every multiset of dated changes, in every declaration order, in one or two actions.
PROPERTY(L02) {
    struct TS {
        int n;
        const char* u;
        const char* start;
    };
    for (TS ts : {TS{1, "day", "2020-02-27"}, TS{3, "day", "2020-12-30"}, TS{1, "hour", "2020-02-28 21:00"}, TS{6, "hour", "2019-12-31 06:00"}}) {
        Config c = coverConfig("socont", "GFI", "dd", "def", 2);
        c.spec.step = ts.n;
        c.spec.unit = ts.u;
        c.spec.start = ts.start;
        // event kinds: distinct (unit, cover) targets so that simultaneous changes commute
        std::vector<Event> kinds = {{0, "forest", 0.1, 0}, {0, "glacier", 0.3, 0}, {0, "forest", 0.4, 1}, {0, "glacier", 0.05, 1}};
        int E = ctx.quick() ? 4 : 5;
        for (int n = 1; n <= E; ++n)
            sequences(4, n, [&](const std::vector<int>& steps) {
                std::vector<Event> ev;
                for (int i = 0; i < n; ++i) {
                    Event e = kinds[i % 4];
                    if (i >= 4) e.frac = 0.2;
                    e.step = 1 + steps[i];
                    if (i >= 4 && e.step == ev[i - 4].step) return;
                    ev.push_back(e);
                }
                std::vector<int> order(n);
                for (int i = 0; i < n; ++i) order[i] = i;
                std::string os;
                do {
                    os.clear();
                    for (int i : order) os += char('0' + i);
                    for (int split = 1; split <= std::min(n, ctx.quick() ? 2 : 3); ++split)
                        ctx.run(fmt("%d%s/%s/o%s/a%d", ts.n, ts.u, eventStr(ev).c_str(), os.c_str(), split),
                                [&] { runCase(ctx, c, ev, kWeather[0], true, &order, split); });
                } while (std::next_permutation(order.begin(), order.end()));
            });
    }
    // covers that exchange land on the same date, the unit being full of them or not: in every declaration order
    {
        Config c = coverConfig("socont", "GFI", "dd", "def", 1);
        std::vector<std::pair<double, double>> parts;  // forest, glacier
        for (double a : {0.0, 0.2, 0.45, 0.8, 1.0})
            for (double b : {0.0, 0.2, 0.55, 0.8, 1.0})
                if (a + b <= 1 + 1e-9) parts.push_back({a, b});
        int P = parts.size();
        auto go = [&](const std::vector<int>& pick) {
            std::vector<Event> ev;
            for (size_t k = 0; k < pick.size(); ++k) {
                ev.push_back({1 + (int)k, "forest", parts[pick[k]].first, 0});
                ev.push_back({1 + (int)k, "glacier", parts[pick[k]].second, 0});
            }
            int n = ev.size();
            for (int o = 0; o < (1 << pick.size()) * 2; ++o) {
                std::vector<int> order;
                for (int k = 0; k < n / 2; ++k) {
                    int d = o & 1 ? n / 2 - 1 - k : k;
                    bool flip = o >> (1 + d) & 1;
                    order.push_back(2 * d + flip);
                    order.push_back(2 * d + !flip);
                }
                ctx.run(fmt("exchange/%s/o%d", eventStr(ev).c_str(), o), [&] { runCase(ctx, c, ev, kWeather[0], true, &order, 1); });
            }
        };
        for (int n = 1; n <= (ctx.quick() ? 2 : 3); ++n) sequences(P, n, go);
    }
    // changes falling between two steps happen at the next step; changes outside the period never happen
    for (double off : {-3.0, -0.5, 0.0, 0.25, 0.5, 0.999, 1.5, 2.25, 4.9, 5.0, 5.1, 9.0})
        for (int fr = 0; fr < 3; ++fr)
            ctx.run(fmt("between/%g/%d", off, fr), [&] {
                Config c = coverConfig("socont", "GF", "dd", "def", 1);
                c.spec.steps = 6;
                Sim sim(c.spec);
                auto f = unitForcing(c.spec, kWeather[0]);
                if (!prepare(sim, c, f)) return ctx.fail("rejected", sim.error);
                ActionLandCoverChange a;
                double want = 0.1 + 0.3 * fr;
                a.AddChange(startMjd(c.spec) + off, 4, "forest", want * 1e6);
                if (!sim.m->AddAction(&a) || !sim.run()) return ctx.fail("rejected", sim.error);
                Rec r = record(*sim.m);
                for (int t = 1; t < 6; ++t) {  // the first step keeps the declared extents
                    double x = (*r.frv("forest"))(t, 0), e = t >= off ? want : 0.4;
                    if (std::fabs(x - e) > 1e-6) return ctx.fail("date", fmt("change dated %+g d: extent %.6f at step %d, expected %.6f", off, x, t, e));
                }
                ++ctx.validated;
            });
}
