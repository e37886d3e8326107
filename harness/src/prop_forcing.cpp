// T02: every simulated step uses the forcing value dated at that step, of the right unit and variable; series that
// cannot provide it are refused.
#include <cmath>

#include "sim.h"

namespace {
double pv(int u, long t) { return 2.6 + 0.001 * ((t % 97) + 100) + 0.37 * u; }       // distinct per unit and date
double tv(int u, long t) { return 0.2 + 0.01 * ((t * 7 % 89) + 10 * u); }          // within the mixed-phase range
double ev(int u, long t) { return 0.5 + 0.013 * ((t * 5 % 83)) + 0.21 * u; }

struct Series {
    axd time;
    axi ids;
    axxd p, t, e;
};
// series starting `before` steps ahead of the simulation, holding `rows` values of `step` days
Series make(const Spec& s, long before, long rows, const std::vector<int>& order) {
    Series r;
    double st = stepDays(s);
    long minutes0 = lround(startMjd(s) * 1440), sm = lround(st * 1440);
    r.time = axd(rows);
    r.ids = axi(order.size());
    r.p = r.t = r.e = axxd(rows, order.size());
    for (long i = 0; i < rows; ++i) {
        long m = minutes0 + (i - before) * sm;
        r.time[i] = m / 1440.0;
        for (size_t k = 0; k < order.size(); ++k) {
            r.ids[k] = s.units[order[k]].id;
            r.p(i, k) = pv(order[k], i - before + 1000);
            r.t(i, k) = tv(order[k], i - before + 1000);
            r.e(i, k) = ev(order[k], i - before + 1000);
        }
    }
    return r;
}
Spec base(const std::string& kind, int step, const std::string& unit, int steps, const std::string& start) {
    Spec s;
    s.o.kind = kind;
    s.o.snow = kind == "bucket";
    s.step = step;
    s.unit = unit;
    s.steps = steps;
    s.start = start;
    for (int id : {7, 2, 5}) s.units.push_back({id, 1e6 + id * 1e5, 1000, {{"ground", "generic_land_cover", 1.0}}});
    if (kind == "bucket") {
        s.o.params = {{"bucket", "response_factor", 0.0f}, {"type:snowpack", "degree_day_factor", 0.0f}};
    }
    return s;
}
}  // namespace

PROPERTY(T02) {
    struct TS {
        int n;
        const char* u;
    };
    const std::vector<TS> steps = {{1, "day"}, {2, "day"}, {5, "day"}, {7, "day"}, {1, "hour"}, {2, "hour"}, {3, "hour"}, {6, "hour"}, {12, "hour"}};
    const std::vector<std::string> starts = {"2020-01-01 00:00", "2020-02-28 06:00", "2019-12-31 17:00"};
    std::vector<std::vector<int>> orders = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::vector<int> befores = {0, 1, 2, 3, 5, 23, 24, 25, 30}, afters = {0, 1, 4}, spins = {0, 1, 3};
    std::vector<int> lens = ctx.quick() ? std::vector<int>{1, 2, 3, 7} : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 12, 26, 50, 100};
    for (auto& ts : steps)
        for (size_t si = 0; si < starts.size(); ++si)
            for (int n : lens)
                for (int b : befores)
                    for (int a : afters)
                        for (int sp : spins) {
                            if (b + n + a < 2) continue;
                            if (ts.u == std::string("day") && si) continue;
                            for (size_t oi = 0; oi < orders.size(); ++oi)
                                ctx.run(fmt("%d%s/%zu/n%d/b%d/a%d/sp%d/o%zu", ts.n, ts.u, si, n, b, a, sp, oi), [&] {
                                    for (std::string kind : {"bucket", "lake"}) {
                                        if (kind == "lake" && (ts.u != std::string("day") || ts.n != 1)) continue;
                                        Spec s = base(kind, ts.n, ts.u, n, starts[si]);
                                        s.spinup = sp;
                                        Sim sim(s);
                                        if (!sim.init()) return ctx.fail("rejected", sim.error);
                                        Series x = make(s, b, b + n + a, orders[oi]);
                                        bool ok = true;
                                        std::vector<std::pair<std::string, axxd*>> vars = {{"precipitation", &x.p}, {"temperature", &x.t}, {"pet", &x.e}};
                                        for (int k = 0; k < 3; ++k) {
                                            auto& v = vars[(k + oi) % 3];
                                            ok = ok && sim.m->CreateTimeSeries(v.first, x.time, x.ids, *v.second);
                                        }
                                        if (!ok || !sim.m->AttachTimeSeriesToHydroUnits()) return ctx.fail("rejected", "a series covering the period was refused");
                                        if (!sim.run()) return ctx.fail("run", sim.error);
                                        Rec r = record(*sim.m);
                                        if (r.steps != n) return ctx.fail("steps", fmt("%d recorded steps", r.steps));
                                        // identical time step assumed for both the series and the simulation
                                        for (int t = 0; t < n; ++t) {
                                            ++ctx.transitions;
                                            if (std::fabs(r.time[t] - x.time[b + t]) > 1e-6)
                                                return ctx.fail("date", fmt("step %d dated %.8f, expected %.8f", t, r.time[t], x.time[b + t]));
                                            for (int u = 0; u < 3; ++u) {
                                                double P = pv(u, t + 1000), T = tv(u, t + 1000), E = ev(u, t + 1000);
                                                if (kind == "bucket") {
                                                    auto at = [&](const char* l, int k) {
                                                        auto* v = r.huv(l);
                                                        return k < 0 ? 0.0 : (*v)(k, u);
                                                    };
                                                    if (t == 0 && sp) continue;  // the increments of the first step include the spin-up
                                                    double w = at("ground:water_content", t) + at("bucket:water_content", t) - at("ground:water_content", t - 1) - at("bucket:water_content", t - 1);
                                                    double sn = at("ground_snowpack:snow_content", t) - at("ground_snowpack:snow_content", t - 1);
                                                    double wantS = P * (2 - T) / 2, wantR = P - wantS;
                                                    if (!close(w, wantR, 1e-4, 1e-5) || !close(sn, wantS, 1e-4, 1e-5))
                                                        return ctx.fail("misaligned", fmt("unit %d step %d: received rain %.6f snow %.6f, the forcing of that date gives %.6f and %.6f",
                                                                                          s.units[u].id, t, w, sn, wantR, wantS));
                                                } else {
                                                    double et = (*r.huv("lake_storage:et:output"))(t, u);
                                                    double avail = t ? P : 0;
                                                    if (avail > E + 0.4 && !close(et, E, 1e-4, 1e-4))
                                                        return ctx.fail("misaligned_pet", fmt("unit %d step %d: evaporation %.6f, demand of that date %.6f", s.units[u].id, t, et, E));
                                                }
                                            }
                                            ctx.state(hashRec(r, t));
                                        }
                                        ++ctx.validated;
                                    }
                                });
                        }
    // refusals
    for (auto& ts : steps)
        for (size_t si = 0; si < starts.size(); ++si)
            for (int n : {1, 2, 5})
                for (int kind = 0; kind < 9; ++kind)
                    ctx.run(fmt("refuse%d/%d%s/%zu/n%d", kind, ts.n, ts.u, si, n), [&] {
                        Spec s = base("bucket", ts.n, ts.u, n, starts[si]);
                        Sim sim(s);
                        if (!sim.init()) return ctx.fail("rejected", sim.error);
                        std::vector<int> o = {0, 1, 2};
                        Series x = make(s, 2, n + 4, o);
                        bool refused = false;
                        std::string what;
                        auto create = [&](const char* v, const Series& y, const axxd& d) { return sim.m->CreateTimeSeries(v, y.time, y.ids, d); };
                        switch (kind) {
                            case 0:
                                what = "a series starting after the period";
                                x = make(s, -1, n + 4, o);
                                refused = !create("precipitation", x, x.p);
                                break;
                            case 1:
                                if (n < 2) return;
                                what = "a series ending before the period";
                                x = make(s, 2, n + 1, o);
                                refused = !create("precipitation", x, x.p);
                                break;
                            case 2:
                                what = "a second series of the same variable";
                                refused = create("precipitation", x, x.p) && !create("precipitation", x, x.t);
                                break;
                            case 3:
                                what = "an unknown variable";
                                refused = !create("humidity", x, x.p);
                                break;
                            case 4: {
                                what = "data with a missing row";
                                axxd d = x.p.topRows(x.p.rows() - 1);
                                refused = !create("precipitation", x, d);
                                break;
                            }
                            case 5: {
                                what = "data with a missing unit column";
                                axxd d = x.p.leftCols(2);
                                refused = !create("precipitation", x, d);
                                break;
                            }
                            case 6: {
                                what = "data with duplicate unit identifiers";
                                x.ids[1] = x.ids[0];
                                refused = !create("precipitation", x, x.p);
                                break;
                            }
                            case 7: {
                                // a coarser or finer time step than the simulation: the values cannot be dated
                                what = "a series with another time step than the simulation";
                                Spec s2 = s;
                                s2.step = ts.n + 1;
                                x = make(s2, 2, n + 4, o);
                                refused = !create("precipitation", x, x.p);
                                break;
                            }
                            case 8: {
                                what = "an irregular series";
                                double st = stepDays(s);
                                for (int i = 2; i < x.time.size(); ++i) x.time[i] += st * 3;
                                refused = !create("precipitation", x, x.p);
                                break;
                            }
                        }
                        ctx.check(refused, fmt("accepted%d", kind), [&] { return what + " was accepted"; });
                        ++ctx.transitions;
                        ++ctx.validated;
                    });
}
