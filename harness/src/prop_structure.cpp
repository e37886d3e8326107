// N02: canopy, snow, ice and land covers follow the declared routines; N03: precipitation is split by the declared rule.
#include <cmath>

#include "balance.h"
#include "configs.h"
#include "ref.h"
#include "surface.h"

namespace {
struct Target {
    std::string store;
    std::vector<std::string> feeding;  // recorded flux labels without ":output"
};
struct Plan {
    std::vector<StoreDef> stores;
    std::vector<std::vector<std::string>> feeds;  // per store: recorded fluxes of the covers
    std::vector<std::vector<std::string>> labels; // per store and process: recorded label ("" = not recorded)
    bool deposit = false;                          // the water of the covers is in the store before the scheme starts
};
std::vector<std::string> soilCovers(const Spec& s) {
    std::vector<std::string> r;
    for (auto& c : coverUnion(s.units))
        if (c.type != "glacier") r.push_back(c.name);
    return r;
}
// The stores below the covers, from the documented structure
Plan planOf(const Spec& s, const Unit& u) {
    Plan p;
    const Opts& o = s.o;
    auto covers = soilCovers(s);
    auto P = [&](const char* c, const char* n) { return std::pair<std::string, double>(n, optPar(o, c, n)); };
    auto all = [&](const char* x) {
        std::vector<std::string> r;
        for (auto& c : covers) r.push_back(c + x);
        return r;
    };
    if (o.kind == "socont") {
        StoreDef a{"slow_reservoir", optPar(o, "slow_reservoir", "capacity"), {}};
        a.procs.push_back({"et", "et:socont", "", {}});
        a.procs.push_back({"outflow", "outflow:linear", "outlet", {P("slow_reservoir", "response_factor")}});
        if (o.soil == 2) a.procs.push_back({"percolation", "percolation:constant", "slow_reservoir_2", {P("slow_reservoir", "percolation_rate")}});
        a.procs.push_back({"overflow", "overflow", "outlet", {}});
        p.stores.push_back(a);
        p.feeds.push_back(all(":infiltration"));
        if (o.soil == 2) {
            p.stores.push_back({"slow_reservoir_2", -1, {{"outflow", "outflow:linear", "outlet", {P("slow_reservoir_2", "response_factor")}}}});
            p.feeds.push_back({});
        }
        StoreDef r{"surface_runoff", -1, {}};
        if (o.runoff == "socont_runoff") r.procs.push_back({"runoff", "runoff:socont", "outlet", {P("surface_runoff", "beta")}});
        else r.procs.push_back({"outflow", "outflow:linear", "outlet", {P("surface_runoff", "response_factor")}});
        p.stores.push_back(r);
        p.feeds.push_back(all(":runoff"));
    } else if (o.kind == "hbv") {
        auto frac = [&](const std::string& n) {
            for (auto& c : u.covers)
                if (c.name == n) return c.frac;
            return 0.0;
        };
        StoreDef z{"upper_zone", -1, {}};
        double w = 0;
        for (auto& c : covers) {
            if (o.soilPerCover) z.procs.push_back({z.procs.empty() ? "capillary" : "-", "capillary:hbv", c + "_soil_moisture", {P("upper_zone", "max_capillary_flux")}, frac(c)});
            w += frac(c);
        }
        if (!o.soilPerCover) z.procs.push_back({"capillary", "capillary:hbv", "soil_moisture", {P("upper_zone", "max_capillary_flux")}, w});
        z.procs.push_back({"percolation", "percolation:constant", "lower_zone", {P("upper_zone", "percolation_rate")}});
        z.procs.push_back({"runoff", "runoff:hbv", "routing", {P("upper_zone", "response_factor"), P("upper_zone", "alpha")}});
        p.stores.push_back(z);
        p.feeds.push_back(all(":recharge"));
        p.stores.push_back({"lower_zone", -1, {{"outflow", "outflow:linear", "routing", {P("lower_zone", "response_factor")}}}});
        p.feeds.push_back({});
        for (auto& c : covers) {
            std::string n = o.soilPerCover ? c + "_soil_moisture" : "soil_moisture";
            StoreDef a{n, optPar(o, n, "capacity"), {}};
            a.procs.push_back({"et", "et:hbv", "", {P(n.c_str(), "lp"), P(n.c_str(), "et_correction_factor")}});
            a.procs.push_back({"overflow", "overflow", "routing", {}});
            p.stores.push_back(a);
            p.feeds.push_back(o.soilPerCover ? std::vector<std::string>{c + ":infiltration"} : all(":infiltration"));
            if (!o.soilPerCover) break;
        }
    } else if (o.kind == "lake") {
        p.stores.push_back({"lake_storage", -1, {{"et", "et:open_water", "", {}}, {"outflow", "outflow:linear", "outlet", {P("lake_storage", "response_factor")}}}});
        p.feeds.push_back(all(":outflow"));
        p.deposit = true;
    } else if (o.kind == "bucket") {
        p.stores.push_back({"bucket", -1, {{"outflow", "outflow:linear", "outlet", {P("bucket", "response_factor")}}}});
        p.feeds.push_back(all(":transfer"));
    }
    return p;
}
void storeParams(Spec& s, int v) {
    auto P = [&](const std::string& c, const char* n, double x) { s.o.params.push_back({c, n, (float)x}); };
    const Opts& o = s.o;
    if (o.kind == "socont") {
        P("slow_reservoir", "capacity", v ? 18 : 140);
        P("slow_reservoir", "response_factor", v ? 0.55 : 0.13);
        if (o.soil == 2) {
            P("slow_reservoir", "percolation_rate", v ? 5 : 0.7);
            P("slow_reservoir_2", "response_factor", v ? 0.3 : 0.04);
        }
        if (o.runoff == "socont_runoff") P("surface_runoff", "beta", v ? 3000 : 250);
        else P("surface_runoff", "response_factor", v ? 0.95 : 0.6);
    } else if (o.kind == "hbv") {
        P("upper_zone", "max_capillary_flux", v ? 5 : 0.9);
        P("upper_zone", "percolation_rate", v ? 6 : 1.1);
        P("upper_zone", "response_factor", v ? 0.11 : 0.03);
        P("upper_zone", "alpha", v ? 0.55 : 0.3);
        P("lower_zone", "response_factor", v ? 0.8 : 0.07);
        int k = 0;
        for (auto& c : soilCovers(s)) {
            std::string n = o.soilPerCover ? c + "_soil_moisture" : "soil_moisture";
            P(n, "capacity", (v ? 17 : 150) + 9 * k);
            P(n, "lp", (v ? 0.5 : 0.85) + 0.05 * k);
            P(n, "et_correction_factor", (v ? 1.2 : 0.9) + 0.04 * k++);
            if (!o.soilPerCover) break;
        }
        P("routing", "maxbas", v ? 2.6 : 1.0);
    } else if (o.kind == "lake") P("lake_storage", "response_factor", v ? 0.9 : 0.2);
    else if (o.kind == "bucket") P("bucket", "response_factor", v ? 0.7 : 0.2);
    for (auto& c : coverUnion(s.units))
        if (c.type == "glacier") {
            P("glacier_area_rain_snowmelt_storage", "response_factor", v ? 0.75 : 0.24);
            P("glacier_area_icemelt_storage", "response_factor", v ? 0.85 : 0.31);
            break;
        }
}
const std::set<std::string> kSequential = {"implicit_euler", "crank_nicolson", "exponential_euler", "analytic_linear"};

void checkRun(Ctx& ctx, const Config& c, const std::vector<int>& seq) {
    const Spec& s = c.spec;
    const double tol = 3e-6;
    auto f = unitForcing(s, seq);
    Sim sim(s);
    if (!prepare(sim, c, f)) {
        ctx.fail("rejected", sim.error);
        return;
    }
    if (!sim.run()) {
        ctx.fail("run", sim.error);
        return;
    }
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    double h = stepDays(s), total = 0;
    bool daily = std::fabs(h - 1) < 1e-9;
    for (auto& u : s.units) total += u.area;
    std::map<std::string, double> gl[2];  // contents of the glacier stores of the basin
    std::vector<std::map<std::string, CoverState>> st(s.units.size());
    std::vector<std::vector<double>> S(s.units.size());
    std::vector<Plan> plan;
    for (size_t k = 0; k < s.units.size(); ++k) {
        plan.push_back(daily ? planOf(s, s.units[k]) : Plan());
        S[k].assign(plan[k].stores.size(), 0.0);
        for (auto& cv : s.units[k].covers)
            if (c.initialIce > 0 && cv.type == "glacier") st[k][cv.name].ice = c.initialIce;
    }
    auto val = [&](const std::string& l, int t, int k, double& v) {
        const axxd* x = r.huv(l);
        if (!x) return false;
        v = (*x)(t, k);
        return true;
    };
    double subS[2] = {0, 0};
    for (int t = 0; t < s.steps; ++t) {
        ++ctx.transitions;
        ctx.state(hashRec(r, t));
        int y, mo, da;
        long day = (long)std::floor(startMjd(s) + t * h + 1e-6) - 40587;
        civilFrom(day, y, mo, da);
        int doy = day - civilDays(y, 1, 1) + 1;
        double subIn[2] = {0, 0};
        for (size_t k = 0; k < s.units.size(); ++k) {
            const Unit& u = s.units[k];
            const Sym& w = f[k][t];
            double share = u.area / total;
            for (auto& cv : u.covers) {
                if (cv.frac == 0) continue;
                double fill = 0;
                if (daily) {
                    std::string soil = s.o.kind == "socont" ? "slow_reservoir" : s.o.kind != "hbv" ? "" : s.o.soilPerCover ? cv.name + "_soil_moisture" : "soil_moisture";
                    for (size_t q = 0; q < plan[k].stores.size(); ++q)
                        if (plan[k].stores[q].name == soil) fill = std::min(1.0, S[k][q] / (double)(float)plan[k].stores[q].cap);
                }
                Amounts a;
                CoverState& x = st[k][cv.name];
                CoverState before = x;
                refCover(s.o, u, cv, w, h, doy, fill, x, a, daily);
                for (auto& e : a) {
                    double v;
                    if (!val(e.first + ":output", t, k, v)) {
                        ctx.fail("unrecorded", e.first);
                        return;
                    }
                    if (e.first == "glacier:melt" || endsWith(e.first, ":outflow_rain_snowmelt") || (cv.type == "glacier" && e.first == cv.name + ":melt")) e.second *= share;
                    if (!close(v, e.second, tol, tol)) {
                        ctx.fail("flux", fmt("unit %d step %d: %s is %.9g, expected %.9g (rain+snow %g mm, %g C, PET %g; before: canopy %g, snow %g, retained %g, ice %g, filling %g)",
                                             u.id, t + 1, e.first.c_str(), v, e.second, w.p, w.t, w.e, before.canopy, before.snow, before.pack, before.ice, fill));
                        return;
                    }
                    if (cv.type == "glacier") {
                        if (endsWith(e.first, ":outflow_rain_snowmelt")) subIn[0] += v;
                        if (e.first == cv.name + ":melt") subIn[1] += v;
                    }
                }
                auto state = [&](const std::string& l, double& mine) {
                    double v;
                    if (!val(l, t, k, v)) return true;
                    if (!close(v, mine, tol, tol)) {
                        ctx.fail("content", fmt("unit %d step %d: %s is %.9g, expected %.9g", u.id, t + 1, l.c_str(), v, mine));
                        return false;
                    }
                    mine = v;
                    return true;
                };
                if (!state(cv.name + "_canopy:water_content", x.canopy) || !state(cv.name + "_snowpack:snow_content", x.snow) ||
                    !state(cv.name + "_snowpack:water_content", x.pack) || (daily && !state(cv.name + ":water_content", x.water)))
                    return;
                if (cv.type == "glacier" && !s.o.infiniteIce && !state(cv.name + ":ice_content", x.ice)) return;
                ++ctx.validated;
            }
            if (!daily) continue;
            Plan& p = plan[k];
            std::vector<double> S0 = S[k], I(p.stores.size(), 0.0);
            for (size_t q = 0; q < p.stores.size(); ++q)
                for (auto& l : p.feeds[q]) {
                    double v = 0;
                    val(l + ":output", t, k, v);
                    (p.deposit ? S0 : I)[q] += v;
                }
            RefIn in;
            in.h = h;
            in.pet = w.e;
            in.slope = std::tan(u.slope * M_PI / 180);
            in.area = u.area;
            RefOut o = refStores(s.solver, p.stores, S0, I, in);
            for (size_t q = 0; q < p.stores.size(); ++q) {
                double v;
                for (size_t j = 0; j < p.stores[q].procs.size(); ++j) {
                    auto& pr = p.stores[q].procs[j];
                    if (pr.name == "-" || !val(p.stores[q].name + ":" + pr.name + ":output", t, k, v)) continue;
                    double e = o.amount[q][j] * (pr.target == "outlet" ? share : 1);
                    if (!close(v, e, tol, tol)) {
                        ctx.fail("store", fmt("unit %d step %d: %s:%s is %.9g, expected %.9g (before %.9g, received %.9g)", u.id, t + 1, p.stores[q].name.c_str(), pr.name.c_str(), v, e, S0[q], I[q]));
                        return;
                    }
                }
                val(p.stores[q].name + ":water_content", t, k, v);
                if (!close(v, o.content[q], tol, tol)) {
                    ctx.fail("store", fmt("unit %d step %d: %s holds %.9g, expected %.9g (before %.9g, received %.9g)", u.id, t + 1, p.stores[q].name.c_str(), v, o.content[q], S0[q], I[q]));
                    return;
                }
                S[k][q] = v;
            }
        }
        const char* subName[2] = {"glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"};
        for (int g = 0; g < 2; ++g) {
            const axd* cont = r.subv(std::string(subName[g]) + ":water_content");
            if (!cont) continue;
            if (daily) {
                std::vector<StoreDef> one = {{subName[g], -1, {{"outflow", "outflow:linear", "outlet", {{"response_factor", optPar(s.o, subName[g], "response_factor")}}}}}};
                RefIn in;
                in.h = h;
                // the ice melt is in the store before the scheme starts; rain and snowmelt are known inflows
                RefOut o = refStores(s.solver, one, {subS[g] + (g == 1 ? subIn[1] : 0)}, {g == 1 ? 0 : subIn[0]}, in);
                if (!close((*cont)[t], o.content[0], tol, tol)) {
                    ctx.fail("basin_store", fmt("step %d: %s holds %.9g, expected %.9g (before %.9g, received %.9g)", t + 1, subName[g], (*cont)[t], o.content[0], subS[g], subIn[g]));
                    return;
                }
            }
            subS[g] = (*cont)[t];
        }
    }
}

std::vector<Config> structures(bool thorough) {
    std::vector<Config> r;
    auto mk = [&](const std::string& kind, const std::string& cov, const std::string& sn, int v, const std::string& solver, const std::string& extra, auto tweak) {
        Config c;
        Spec& s = c.spec;
        s.o.kind = kind;
        s.solver = solver;
        s.start = "2020-02-27";
        s.units = {Unit{1, 1e6, v ? 1800.0 : 1000.0, coverSet(cov), 12}};
        s.units[0].aspect = v ? "south" : "north";
        snowOption(s.o, sn);
        s.o.params.clear();
        for (auto& n : s.o.canopy)
            if (n == "ground" && cov == "GFI" && v) s.o.canopy = {"ground", "forest"};
        tweak(c);
        bool gl = false;
        for (auto& x : coverUnion(s.units)) gl |= x.type == "glacier";
        if (!gl && !s.o.transform.empty()) s.o.transform.clear();
        if (!s.o.snow) s.o.noMeltWhenSnow = 0;
        surfaceParams(s.o, coverUnion(s.units), v);
        storeParams(s, v);
        c.name = kind + "/" + cov + "/" + sn + fmt("/v%d/", v) + solver + (extra.empty() ? "" : "/" + extra);
        r.push_back(c);
    };
    auto none = [](Config&) {};
    auto opts = snowOptions();
    opts.push_back("none");
    for (int v : {0, 1})
        for (auto& sn : opts) {
            for (std::string cov : {"G", "GFI", "GII", "0GI"}) mk("socont", cov, sn, v, v ? "euler_explicit" : "crank_nicolson", "", none);
            mk("hbv", "GFI", sn, v, v ? "crank_nicolson" : "heun_explicit", "soils", [](Config& c) { c.spec.o.soilPerCover = true; });
            for (std::string asp : {"east", "W", "S", "N", "E", "west"})
                if (sn == "as") mk("socont", "GI", sn, v, "euler_explicit", asp, [&](Config& c) { c.spec.units[0].aspect = asp; });
            if (sn == "cn" || sn == "cns")
                for (float m : {0.0f, 0.4f})
                    mk("socont", "GI", sn, v, "euler_explicit", fmt("cover%g", m), [&](Config& c) {
                        for (std::string n : {"ground_snowpack", "glacier_snowpack"}) c.spec.o.params.push_back({n, "mean_annual_snow", m});
                    });
            if (sn == "ti" || sn == "dd" || sn == "as" || sn == "cn")
                for (float m : {-2.5f, -0.4f, 2.5f})
                    mk("socont", "GI", sn, v, "euler_explicit", fmt("melts%g", m), [&](Config& c) {
                        for (std::string n : {"ground_snowpack", "glacier_snowpack", "glacier"}) c.spec.o.params.push_back({n, "melting_temperature", m});
                    });
            if (sn == "dd" || sn == "wrr")
                for (double f : {0.004, 0.02})
                    for (std::string k : {"socont", "hbv"})
                        mk(k, "GFI", sn, v, "euler_explicit", fmt("sliver%g", f), [&](Config& c) {
                            auto& cv = c.spec.units[0].covers;
                            for (size_t j = 0; j + 1 < cv.size(); ++j) cv[j].frac = f;
                            cv.back().frac = 1 - f * (cv.size() - 1);
                            c.spec.units[0].slope = v ? 52 : 63;
                        });
            for (std::string u : {"hour", "day"}) {
                int n = u == "hour" ? 6 : 2;
                mk("socont", "GFI", sn, v, "euler_explicit", fmt("%d%s", n, u.c_str()), [&](Config& c) {
                    c.spec.step = n;
                    c.spec.unit = u;
                });
            }
            for (float nm : {0.0f, 1.0f})
                mk("socont", "GI", sn, v, "euler_explicit", fmt("ice%d", (int)nm), [&](Config& c) {
                    if (nm == 1) c.spec.start = v ? "2019-12-30" : "2021-07-01";
                    c.spec.o.infiniteIce = false;
                    c.spec.o.noMeltWhenSnow = nm;
                    c.initialIce = 25;
                });
        }
    for (int v : {0, 1})
        for (auto& sv : allSolvers()) {
            mk("socont", "GF", "wrr", v, sv, "s2", [](Config& c) { c.spec.o.soil = 2; });
            mk("socont", "GI", "dd", v, sv, "s2lin", [](Config& c) { c.spec.o.soil = 2; c.spec.o.runoff = "linear"; });
            mk("socont", "G", "dd", v, sv, "dyn", [](Config& c) { c.spec.o.staticRest = false; });
            mk("hbv", "GI", "dd", v, sv, "", none);
            mk("hbv", "GF", "wrr", v, sv, "soils", [](Config& c) { c.spec.o.soilPerCover = true; });
            mk("hbv", "GF", "none", v, sv, "dyn", [](Config& c) { c.spec.o.staticRest = false; });
            mk("lake", "G", "none", v, sv, "", none);
            for (std::string k : {"socont", "hbv"})
                mk(k, "GI", "all", v, sv, "2units", [](Config& c) {
                    c.spec.units.push_back(Unit{4, 3e6, 2100, coverSet("GI"), 31});
                    c.spec.units.back().aspect = "east";
                    c.spec.units.back().covers[0].frac = 0.2;
                    c.spec.units.back().covers[1].frac = 0.8;
                });
        }
    return r;
}
}  // namespace

PROPERTY(N02) {
    for (auto& c : structures(ctx.thorough())) {
        ctx.dims["configurations"] += ctx.shard == 0;
        Config cc = c;
        cc.spec.steps = ctx.quick() ? 4 : 5;
        if (ctx.quick() && cc.spec.units.size() > 1) cc.spec.steps = 3;
        sequences(kAlphabet.size(), cc.spec.steps, [&](const std::vector<int>& seq) { ctx.run(c.name + "/" + seqStr(seq), [&] { checkRun(ctx, cc, seq); }); });
    }
}

namespace {
struct PhaseCase {
    std::string name, splitter;
    std::vector<ParamSet> params;
};
}  // namespace
PROPERTY(N03) {
    std::vector<PhaseCase> cases;
    const char* T = "snow_rain_transition";
    auto fac = [&](PhaseCase c) {
        std::vector<std::pair<float, float>> fs = {{1, 1}, {1.5f, 0.75f}, {0.5f, 2}, {0, 1}, {1, 0}};
        for (auto& f : fs) {
            PhaseCase d = c;
            d.params.push_back({T, "rain_correction_factor", f.first});
            d.params.push_back({T, "snow_correction_factor", f.second});
            d.name += fmt(",%g,%g", f.first, f.second);
            cases.push_back(d);
        }
    };
    std::vector<float> edges = {-3, -1, -0.5f, 0, 0.25f, 1, 2, 3.5f, 6};
    for (float x : edges) fac({fmt("threshold%g", x), "snow_rain:threshold", {{T, "threshold", x}}});
    for (float a : edges)
        for (float b : edges)
            if (b >= a && (ctx.thorough() || b == a || a == 0 || b == 2 || (a == -1 && b == 3.5f)))
                fac({fmt("linear%g..%g", a, b), "snow_rain:linear", {{T, "transition_start", a}, {T, "transition_end", b}}});
    fac({"cemaneige", "snow_rain:cemaneige", {}});
    std::vector<double> elevs = {-100, 0, 800, 1499, 1499.99, 1500, 1500.01, 1501, 4000};
    std::vector<double> temps;
    for (double t : {-30.0, -10.0, 25.0, 40.0}) temps.push_back(t);
    for (float e : edges)
        for (double d : {-0.001, 0.0, 0.001}) temps.push_back(e + d);
    for (double t = -4; t <= 8; t += ctx.thorough() ? 0.0625 : 0.25) temps.push_back(t + 0.03);
    std::vector<std::pair<double, double>> around;  // tmin, tmax relative to the mean
    for (double lo : {0.0, 0.5, 2.0, 7.0})
        for (double hi : {0.0, 0.5, 2.0, 7.0}) around.push_back({-lo, hi});
    for (auto& c : cases)
        for (std::string cov : {"G", "GF"})
            for (int block = 0; block < (int)around.size(); ++block) {
                if (c.splitter != "snow_rain:cemaneige" && block % 5) continue;  // the extremes only matter there
                ctx.run(c.name + "/" + cov + fmt("/%d", block), [&] {
                    Spec s;
                    s.o.kind = "bucket";
                    s.o.splitter = c.splitter;
                    s.o.params = c.params;
                    for (auto& cv : coverSet(cov)) s.o.params.push_back({cv.name + "_snowpack", "melting_temperature", 500.0f});
                    int id = 1;
                    for (double e : elevs) {
                        s.units.push_back(Unit{id, 1e5 * id, e, coverSet(cov), 10});
                        ++id;
                    }
                    std::vector<Sym> f;
                    for (double t : temps)
                        for (double p : {17.0, 0.04, 0.0}) f.push_back({p, t, 0, t + around[block].first, t + around[block].second});
                    if (block % 2) // exact freezing bounds of the extremes
                        for (double lo : {-4.0, -1.0, 0.0, 1.0})
                            for (double hi : {-1.0, 0.0, 1.0, 5.0})
                                if (hi >= lo) f.push_back({11, (lo + hi) / 2, 0, lo, hi});
                    s.steps = f.size();
                    Sim sim(s);
                    if (!sim.init() || !sim.forcingAll(f) || !sim.run()) {
                        ctx.fail("rejected", sim.error);
                        return;
                    }
                    Rec r = record(*sim.m);
                    for (size_t k = 0; k < s.units.size(); ++k)
                        for (auto& cv : s.units[k].covers) {
                            const axxd* snow = r.huv(cv.name + "_snowpack:snow_content");
                            const axxd* rain = r.huv(cv.name + ":transfer:output");
                            double before = 0;
                            for (int t = 0; t < s.steps; ++t) {
                                ++ctx.transitions;
                                double er, es;
                                refPhase(s.o, s.units[k], f[t], er, es);
                                double gs = (*snow)(t, k) - before, gr = (*rain)(t, k) / cv.frac;
                                before = (*snow)(t, k);
                                if (!close(gs, es, 1e-6, 1e-6) || !close(gr, er, 1e-6, 1e-6)) {
                                    ctx.fail("split", fmt("elevation %g, %g mm at %g C (%g to %g): %.9g snow and %.9g rain on %s, expected %.9g and %.9g", s.units[k].elev, f[t].p, f[t].t,
                                                          f[t].tmin, f[t].tmax, gs, gr, cv.name.c_str(), es, er));
                                    return;
                                }
                                ++ctx.validated;
                            }
                        }
                    ctx.state(hashRec(r, s.steps - 1));
                });
            }
}
