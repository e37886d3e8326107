#include "configs.h"

#include <algorithm>

#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"

void snowOption(Opts& o, const std::string& n) {
    if (n == "dd") {
    } else if (n == "as") o.melt = "melt:degree_day_aspect";
    else if (n == "ti") o.melt = "melt:temperature_index";
    else if (n == "cn") {
        o.melt = "melt:cemaneige";
        o.params.push_back({"type:snowpack", "cold_content_factor", 0.5f});
    } else if (n == "cns") {
        o.params.push_back({"type:snowpack", "mean_annual_snow", 20.0f});
        o.melt = "melt:cemaneige";
        o.splitter = "snow_rain:cemaneige";
    } else if (n == "th") o.splitter = "snow_rain:threshold";
    else if (n == "wr") o.retention = true;
    else if (n == "wrf") o.retention = o.refreeze = true;
    else if (n == "wrr") o.retention = o.refreeze = o.rainToSnow = true;
    else if (n == "sc") o.sublimation = "sublimation:constant";
    else if (n == "sp") o.sublimation = "sublimation:pet";
    else if (n == "tc") o.transform = "transform:snow_ice_constant";
    else if (n == "ts") o.transform = "transform:snow_ice_swat";
    else if (n == "ca") o.canopy = {"ground"};
    else if (n == "car") {
        o.canopy = {"ground"};
        o.retention = o.refreeze = o.rainToSnow = true;
    } else if (n == "cf") {
        o.params.push_back({"snow_rain_transition", "rain_correction_factor", 1.25f});
        o.params.push_back({"snow_rain_transition", "snow_correction_factor", 0.75f});
    } else if (n == "all") {
        o.canopy = {"ground"};
        o.retention = o.refreeze = o.rainToSnow = true;
        o.sublimation = "sublimation:pet";
        o.transform = "transform:snow_ice_constant";
        o.params.push_back({"snow_rain_transition", "rain_correction_factor", 1.1f});
    } else if (n == "none") o.snow = false;
    else throw std::runtime_error("harness: snow option " + n);
}
const std::vector<std::string>& snowOptions() {
    static std::vector<std::string> v = {"dd", "as", "ti", "cn", "cns", "th", "wr", "wrf", "wrr",
                                         "sc", "sp", "tc", "ts", "ca", "car", "cf", "all"};
    return v;
}
std::vector<Cover> coverSet(const std::string& n) {
    if (n == "G") return {{"ground", "generic_land_cover", 1.0}};
    if (n == "GI") return {{"ground", "generic_land_cover", 0.7}, {"glacier", "glacier", 0.3}};
    if (n == "GFI")
        return {{"ground", "generic_land_cover", 0.45}, {"forest", "generic_land_cover", 0.3}, {"glacier", "glacier", 0.25}};
    if (n == "GF") return {{"ground", "generic_land_cover", 0.6}, {"forest", "generic_land_cover", 0.4}};
    if (n == "G0I") return {{"ground", "generic_land_cover", 1.0}, {"glacier", "glacier", 0.0}};
    if (n == "0GI") return {{"ground", "generic_land_cover", 0.0}, {"glacier", "glacier", 1.0}};
    if (n == "IG") return {{"glacier", "glacier", 0.3}, {"ground", "generic_land_cover", 0.7}};
    if (n == "GII")
        return {{"ground", "generic_land_cover", 0.5}, {"glacier_ice", "glacier", 0.3}, {"glacier_debris", "glacier", 0.2}};
    throw std::runtime_error("harness: cover set " + n);
}

void paramOption(Spec& s, const std::string& n) {
    auto& p = s.o.params;
    const std::string& k = s.o.kind;
    if (n == "def") return;
    if (n == "tight") {
        if (k == "socont") {
            p.push_back({"slow_reservoir", "capacity", 12.0f});
            p.push_back({"slow_reservoir", "response_factor", 0.9f});
            if (s.o.soil == 2) p.push_back({"slow_reservoir", "percolation_rate", 6.0f});
            if (s.o.runoff == "socont_runoff") p.push_back({"surface_runoff", "beta", 4000.0f});
            else p.push_back({"surface_runoff", "response_factor", 1.0f});
        } else if (k == "hbv") {
            if (!s.o.soilPerCover) p.push_back({"soil_moisture", "capacity", 15.0f});
            else
                for (auto& cv : s.units[0].covers)
                    if (cv.type != "glacier") p.push_back({cv.name + "_soil_moisture", "capacity", cv.name == "ground" ? 15.0f : 24.0f});
            for (auto& u : s.units)
                for (auto& cv : u.covers)
                    if (cv.type != "glacier") p.push_back({cv.name, "beta", 1.0f});
            p.push_back({"upper_zone", "max_capillary_flux", 4.0f});
            p.push_back({"upper_zone", "percolation_rate", 6.0f});
            p.push_back({"upper_zone", "response_factor", 0.1f});
            p.push_back({"upper_zone", "alpha", 0.6f});
            p.push_back({"lower_zone", "response_factor", 0.9f});
            p.push_back({"routing", "maxbas", 2.6f});
        } else if (startsWith(k, "gr")) {
            p.push_back({"production_store", "capacity", 20.0f});
            p.push_back({"uh_input", "routing_capacity", 8.0f});
            p.push_back({"uh_input", "uh_base_time", 2.4f});
        } else if (k == "lake") {
            p.push_back({"lake_storage", "response_factor", 1.0f});
        }
        if (s.o.snow && s.o.melt == "melt:degree_day") p.push_back({"type:snowpack", "degree_day_factor", 9.0f});
    } else
        throw std::runtime_error("harness: param option " + n);
}

static Unit unit(int id, double area, const std::string& covers, double elev = 1000, const std::string& aspect = "north") {
    Unit u{id, area, elev, coverSet(covers), 12};
    u.aspect = aspect;
    return u;
}

// Steep units connected by a transport of snow, with low holding capacities.
void lateral(Config& c, const std::string& red, const std::vector<Lateral>& l) {
    c.spec.o.redistribution = red;
    for (auto& u : c.spec.units) u.slope = 55;
    c.spec.laterals = l;
    for (auto& cv : c.spec.units[0].covers) {
        std::string pack = cv.name + "_snowpack";
        if (red == "transport:snow_slide") {
            c.spec.o.params.push_back({pack, "min_snow_holding_depth", 5.0f});
            c.spec.o.params.push_back({pack, "coeff", 10.0f});
        } else
            c.spec.o.params.push_back({pack, "snow_holding_capacity", 10.0f});
    }
}

std::vector<Config> balanceConfigs(bool thorough) {
    std::vector<Config> r;
    auto add = [&](Config c) { r.push_back(std::move(c)); };
    auto mk = [&](const std::string& kind, const std::string& cov, const std::string& snow, const std::string& par,
                  const std::string& solver, auto tweak, const std::string& extra) {
        Config c;
        c.spec.o.kind = kind;
        c.spec.solver = solver;
        c.spec.units = {unit(1, 1e6, cov)};
        snowOption(c.spec.o, snow);
        tweak(c);
        bool hasGl = false;
        for (auto& x : c.spec.units[0].covers) hasGl |= x.type == "glacier";
        if ((snow == "tc" || snow == "ts") && !hasGl) return;
        paramOption(c.spec, par);
        c.name = kind + "/" + cov + "/" + snow + "/" + par + "/" + solver + (extra.empty() ? "" : "/" + extra);
        add(c);
    };
    auto none = [](Config&) {};
    std::vector<std::string> main = {"heun_explicit"};
    // 1. every snow routine on every cover layout, both soil layouts, both runoff options
    for (std::string cov : {"G", "GI", "GFI", "0GI", "GII"})
        for (auto& sn : snowOptions())
            for (std::string par : {"def", "tight"}) {
                mk("socont", cov, sn, par, "heun_explicit", none, "");
                if (cov == "GFI" || cov == "GI") mk("hbv", cov, sn, par, "heun_explicit", none, "");
                if (cov == "G") mk("hbv", cov, sn, par, "rk4", none, "");
            }
    // 2. every solver on every structure
    for (auto& sv : allSolvers())
        for (std::string par : {"def", "tight"}) {
            mk("socont", "GI", "dd", par, sv, none, "s1");
            mk("socont", "GF", "all", par, sv, [](Config& c) { c.spec.o.soil = 2; c.spec.o.runoff = "linear"; }, "s2lin");
            mk("socont", "GF", "dd", par, sv, [](Config& c) { c.spec.o.soil = 2; c.spec.o.staticRest = false; }, "s2dyn");
            mk("hbv", "GI", "wrr", par, sv, none, "v");
            mk("hbv", "G", "none", par, sv, [](Config& c) { c.spec.o.staticRest = false; }, "dyn");
            mk("lake", "G", "none", par, sv, none, "");
            mk("gr4js", "G", "none", par, sv, none, "");
            mk("gr6js", "G", "none", par, sv, none, "");
            mk("gr4js", "G", "none", par, sv, [](Config& c) { c.spec.o.staticRest = false; }, "dyn");
            mk("gr4j", "GF", "dd", par, sv, none, "");
            mk("gr6j", "G", "cn", par, sv, none, "");
        }
    // 2b. one soil per cover
    for (auto& sv : allSolvers())
        for (std::string par : {"def", "tight"})
            for (std::string cov : {"GF", "GFI"})
                mk("hbv", cov, sv == "crank_nicolson" ? "all" : "dd", par, sv, [](Config& c) { c.spec.o.soilPerCover = true; }, "soils");
    // 3. zero-extent covers, cover order, finite ice
    for (std::string par : {"def", "tight"}) {
        for (std::string cov : {"G0I", "IG"})
            for (std::string sn : {"dd", "all", "wrr", "tc"}) mk("socont", cov, sn, par, "rk4", none, "z");
        for (std::string cov : {"GI", "0GI", "GII"})
            for (float nm : {0.0f, 1.0f})
                for (std::string sn : {"dd", "tc"})
                    mk("socont", cov, sn, par, "heun_explicit",
                       [&](Config& c) {
                           c.spec.o.infiniteIce = false;
                           c.spec.o.noMeltWhenSnow = nm;
                           c.initialIce = 25;
                       },
                       fmt("fin%d", (int)nm));
        mk("socont", "GI", "dd", par, "heun_explicit", [](Config& c) { c.spec.o.noMeltWhenSnow = 0; }, "meltsnow");
    }
    // 4. time steps and several hydro units
    struct TS {
        int n;
        const char* u;
    };
    for (TS ts : {TS{1, "hour"}, TS{6, "hour"}, TS{2, "day"}})
        for (std::string par : {"def", "tight"}) {
            auto tw = [&](Config& c) {
                c.spec.step = ts.n;
                c.spec.unit = ts.u;
            };
            std::string e = fmt("%d%s", ts.n, ts.u);
            mk("socont", "GI", "all", par, "rk4", tw, e);
            mk("hbv", "GI", "wrr", par, "heun_explicit", tw, e);
            mk("lake", "G", "none", par, "rk4", tw, e);
        }
    for (std::string par : {"def", "tight"})
        for (std::string k : {"socont", "hbv", "gr4j"})
            for (std::string sn : {"dd", "wrr"})
                mk(k, k == "gr4j" ? "GF" : "GI", sn, par, "heun_explicit",
                   [&](Config& c) {
                       c.spec.units.push_back(unit(7, 2.5e6, k == "gr4j" ? "GF" : "IG", 1400, "south"));
                       c.spec.units.back().covers[0].frac = 0.1;
                       c.spec.units.back().covers[1].frac = 0.9;
                       c.spec.units.push_back(unit(3, 0.4e6, k == "gr4j" ? "GF" : "GI", 2000, "east"));
                       c.spec.units.back().covers[0].frac = 1;
                       c.spec.units.back().covers[1].frac = 0;
                   },
                   "3units");
    // 4a. full stores hold back the ones above them, one after the other
    for (std::string sv : {"euler_explicit", "heun_explicit", "rk4"})
        for (int v = 0; v < 3; ++v)
            mk("custom", "GF", "none", "def", sv,
               [&](Config& c) {
                   auto k = [](double x) { return std::vector<std::pair<std::string, double>>{{"response_factor", x}}; };
                   c.spec.o.stores = {StoreDef{"s1", -1, {{"fast", "outflow:linear", "s2", k(0.8)}, {"slow", "outflow:linear", v == 1 ? "s4" : "s3", k(0.3)}}},
                                      StoreDef{"s2", 8, {{"outflow", "outflow:linear", "s3", k(v == 2 ? 0.9 : 0.5)}}},
                                      StoreDef{"s3", v == 2 ? 12.0 : 5.0, {{"outflow", "outflow:linear", "s4", k(0.6)}}},
                                      StoreDef{"s4", 3, {{"outflow", "outflow:linear", "outlet", k(v == 1 ? 0.7 : 0.05)}}}};
               },
               fmt("dam%d", v));
    // 4b. lateral transport of snow, units listed downhill or uphill, with unequal areas
    for (std::string red : {"transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic"})
        for (std::string cov : {"GF", "GFI"})
            for (std::string sn : {"dd", "all"})
                for (std::string par : {"def", "tight"})
                    for (bool uphill : {false, true})
                        mk("socont", cov, sn, par, "heun_explicit",
                           [&](Config& c) {
                               c.spec.units.push_back(unit(7, 2.5e6, cov, 1400, "south"));
                               c.spec.units.push_back(unit(3, 0.4e6, cov, 2000, "east"));
                               lateral(c, red, {{3, 7, 0.6}, {3, 1, 0.4}, {7, 1, 1.0}});
                               if (uphill) std::reverse(c.spec.units.begin(), c.spec.units.end());
                           },
                           red.substr(10) + (uphill ? "/top first" : "/top last"));
    if (thorough) {
        // 5. the snow routines with every solver
        for (auto& sv : allSolvers())
            for (auto& sn : snowOptions())
                for (std::string cov : {"GF", "GFI"})
                    for (std::string par : {"def", "tight"}) {
                        if (cov == "GFI") mk("socont", cov, sn, par, sv, [](Config& c) { c.spec.o.soil = 2; }, "t5");
                        mk("hbv", cov, sn, par, sv, none, "t5");
                        if (cov == "GF" && sn != "tc" && sn != "ts") mk("gr4j", cov, sn, par, sv, none, "t5");
                    }
    }
    return r;
}

std::vector<std::vector<Sym>> unitForcing(const Spec& s, const std::vector<int>& seq) {
    std::vector<std::vector<Sym>> f;
    for (size_t u = 0; u < s.units.size(); ++u) {
        // the first unit follows the sequence; the others a rotated and relabelled one, so units differ
        std::vector<int> q;
        for (size_t i = 0; i < seq.size(); ++i)
            q.push_back(u == 0 ? seq[i] : (seq[(i + u) % seq.size()] + (int)u) % (int)kAlphabet.size());
        auto v = symSeq(q);
        while ((int)v.size() < 2) v.push_back(v.back());
        f.push_back(v);
    }
    return f;
}


std::vector<Config> richConfigs(bool thorough) {
    std::vector<Config> r;
    auto mk = [&](const std::string& kind, const std::string& cov, const std::string& snow, const std::string& par,
                  const std::string& extra, auto tweak, int nUnits = 1) {
        Config c;
        c.spec.o.kind = kind;
        c.spec.start = "2020-09-29";
        c.spec.units = {unit(1, 1e6, cov)};
        if (nUnits > 1) c.spec.units.push_back(unit(5, 2e6, cov, 1500, "south"));
        if (nUnits > 2) c.spec.units.push_back(unit(2, 0.5e6, cov, 2100, "west"));
        snowOption(c.spec.o, snow);
        tweak(c);
        paramOption(c.spec, par);
        c.name = kind + "/" + cov + "/" + snow + "/" + par + (extra.empty() ? "" : "/" + extra);
        r.push_back(c);
    };
    auto none = [](Config&) {};
    for (std::string par : {"def", "tight"}) {
        for (std::string sn : {"dd", "cn", "cns", "wrr", "all", "as", "ti"}) {
            mk("socont", "GFI", sn, par, "", none);
            mk("hbv", "GI", sn, par, "", none);
            if (sn != "all") mk("gr4j", "GF", sn, par, "", none);
        }
        for (std::string k : {"gr4j", "gr6j", "gr4js", "gr6js"}) mk(k, "G", "none", par, "", none);
        mk("lake", "G", "none", par, "", none);
        mk("hbv", "GFI", "dd", par, "soils", [](Config& c) {
            c.spec.o.soilPerCover = true;
            c.spec.solver = "crank_nicolson";
        });
        mk("socont", "GI", "dd", par, "6h", [](Config& c) {
            c.spec.step = 6;
            c.spec.unit = "hour";
        });
        mk("socont", "G", "dd", par, "s2", [](Config& c) { c.spec.o.soil = 2; c.spec.o.runoff = "linear"; });
        for (int sp : {1, 3}) {
            auto spin = [=](Config& c) { c.spec.spinup = sp; };
            mk("socont", "GI", "all", par, fmt("spin%d", sp), spin);
            mk("hbv", "GI", "wrr", par, fmt("spin%d", sp), spin);
            mk("gr6j", "GF", "cn", par, fmt("spin%d", sp), spin);
        }
        // cover fractions that do not exactly sum to one
        for (double e : {0.00004, -0.00004})
            mk("socont", "GFI", "dd", par, e > 0 ? "sum+" : "sum-", [&](Config& c) { c.spec.units[0].covers[1].frac += e; });
        // lateral snow transport
        for (std::string red : {"transport:snow_slide", "transport:snow_redistribution_frey",
                                "transport:snow_redistribution_frey_dynamic"})
            mk("socont", "GF", "dd", par, red.substr(10),
               [&](Config& c) {
                   lateral(c, red, {{2, 5, 0.6}, {2, 1, 0.4}, {5, 1, 1.0}});
               },
               3);
        // actions
        for (std::string act : {"lc", "dh", "as", "si", "lc+si", "dh+si", "lc+dh", "lz"})
            for (int sp : {0, 2})
                mk("socont", "GFI", "wrr", par, act + (sp ? "+spin" : ""),
                   [&](Config& c) {
                       c.spec.o.infiniteIce = false;
                       c.spec.o.noMeltWhenSnow = 0;
                       c.initialIce = 40;
                       c.spec.spinup = sp;
                       for (std::string a : {"lc", "lz", "dh", "as", "si"})
                           if (act.find(a) != std::string::npos) c.actions.push_back(a);
                       c.spec.o.params.push_back({"glacier", "degree_day_factor", 9.0f});
                   },
                   2);
    }
    if (thorough) {
        for (auto& sv : allSolvers())
            for (std::string k : {"socont", "hbv", "gr4js", "gr6js"})
                mk(k, "GF", "wrr", "tight", sv, [&](Config& c) { c.spec.solver = sv; });
    }
    return r;
}

bool addActions(Sim& sim, const Config& c) {
    double t0 = c.actionStart > 0 ? c.actionStart : startMjd(c.spec);
    for (auto& a : c.actions) {
        if (a == "lc") {
            auto x = std::make_shared<ActionLandCoverChange>();
            for (auto& u : c.spec.units) {
                x->AddChange(t0 + 1, u.id, "forest", 0.1 * u.area);
                x->AddChange(t0 + 3, u.id, "forest", 0.5 * u.area);
            }
            sim.actions.push_back(x);
        } else if (a == "lz") {  // a cover disappears and comes back
            auto x = std::make_shared<ActionLandCoverChange>();
            for (auto& u : c.spec.units) {
                x->AddChange(t0 + 1, u.id, "forest", 0);
                x->AddChange(t0 + 3, u.id, "forest", 0.2 * u.area);
            }
            sim.actions.push_back(x);
        } else if (a == "dh" || a == "as") {
            int n = c.spec.units.size(), rows = 21;
            axi ids(n);
            axxd areas(rows, n), vols(rows, n);
            for (int u = 0; u < n; ++u) {
                ids[u] = c.spec.units[u].id;
                double A0 = 0;
                for (auto& cv : c.spec.units[u].covers)
                    if (cv.name == "glacier") A0 = cv.frac * c.spec.units[u].area;
                for (int i = 0; i < rows; ++i) {
                    double left = 1.0 - (double)i / (rows - 1);
                    areas(i, u) = A0 * std::sqrt(left);
                    vols(i, u) = A0 * (c.initialIce / 900.0) * left;
                }
            }
            if (a == "dh") {
                auto x = std::make_shared<ActionGlacierEvolutionDeltaH>();
                x->AddLookupTables(10, "glacier", ids, areas, vols);
                sim.actions.push_back(x);
            } else {
                auto x = std::make_shared<ActionGlacierEvolutionAreaScaling>();
                x->AddLookupTables(10, "glacier", ids, areas, vols);
                sim.actions.push_back(x);
            }
        } else if (a == "si")
            sim.actions.push_back(std::make_shared<ActionGlacierSnowToIceTransformation>(10, 1, "glacier"));
        if (!sim.m->AddAction(sim.actions.back().get())) {
            sim.error = "action rejected: " + a;
            return false;
        }
    }
    return true;
}

bool prepare(Sim& sim, const Config& c, const std::vector<std::vector<Sym>>& f) {
    if (!sim.init()) return false;
    if (c.initialIce > 0) {
        for (int u = 0; u < sim.m->GetSubBasin()->GetHydroUnitCount(); ++u) {
            HydroUnit* hu = sim.m->GetSubBasin()->GetHydroUnit(u);
            for (auto& cv : c.spec.units[u].covers)
                if (cv.type == "glacier") {
                    hu->GetBrick(cv.name)->UpdateContent(c.initialIce, ContentType::Ice);
                    hu->GetBrick(cv.name)->SetInitialState(c.initialIce, ContentType::Ice);
                }
        }
    }
    if (!sim.m->IsValid()) {
        sim.error = "valid configuration reported as invalid";
        return false;
    }
    if (!addActions(sim, c)) return false;
    if (!sim.forcing(f)) return false;
    return true;
}
