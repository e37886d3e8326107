// C02: input files describe the same model as direct declarations.
#include <netcdf.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <filesystem>

#include "configs.h"
#include "TimeSeries.h"

namespace {
namespace fs = std::filesystem;
struct Dir {
    std::string dir;
    Dir() {
        const char* base = getenv("HB_SCRATCH");
        dir = std::string(base ? base : "/tmp") + "/hbin.XXXXXX";
        if (!mkdtemp(dir.data())) throw std::runtime_error("harness: no scratch directory");
    }
    ~Dir() {
        std::error_code e;
        fs::remove_all(dir, e);
    }
};
void ok(int status) {
    if (status != NC_NOERR) throw std::runtime_error(std::string("harness: NetCDF ") + nc_strerror(status));
}
struct Nc {
    int id = -1;
    explicit Nc(const std::string& p) { ok(nc_create(p.c_str(), NC_NETCDF4 | NC_CLOBBER, &id)); }
    ~Nc() { nc_close(id); }
    int dim(const char* n, size_t len) {
        int d;
        ok(nc_def_dim(id, n, len, &d));
        return d;
    }
    int put(const std::string& n, nc_type t, std::vector<int> dims, const std::vector<double>& v) {
        int x;
        ok(nc_def_var(id, n.c_str(), t, dims.size(), dims.data(), &x));
        ok(nc_put_var_double(id, x, v.data()));
        return x;
    }
    void text(int var, const char* n, const std::string& s) { ok(nc_put_att_text(id, var, n, s.size(), s.c_str())); }
    void strings(const char* n, const std::vector<std::string>& v) {
        std::vector<const char*> p;
        for (auto& s : v) p.push_back(s.c_str());
        ok(nc_put_att_string(id, NC_GLOBAL, n, p.size(), p.data()));
    }
};
struct ForcingLayout {
    int order = 0;  // place of "id" and "time" among the variables
    bool unitsFirst = false, dimTimeFirst = false, wide = true;
    nc_type time = NC_DOUBLE;
    std::vector<int> perm;  // order of the units in the file
    int alias = 0, before = 0, after = 0;
};
const char* const kAlias[3][3] = {{"precipitation", "temperature", "pet"}, {"p", "t", "etp"}, {"Precipitation", "T", "PET"}};

void writeForcing(const std::string& path, const Spec& s, const ForcingLayout& l, const std::vector<std::vector<Sym>>& f) {
    Nc nc(path);
    int nu = s.units.size(), rows = f[0].size(), dt, du;
    if (l.dimTimeFirst) {
        dt = nc.dim("time", rows);
        du = nc.dim("hydro_units", nu);
    } else {
        du = nc.dim("hydro_units", nu);
        dt = nc.dim("time", rows);
    }
    std::vector<double> id, time;
    for (int u = 0; u < nu; ++u) id.push_back(s.units[l.perm[u]].id);
    for (int i = 0; i < rows; ++i) time.push_back(startMjd(s) + (i - l.before) * stepDays(s));
    auto heads = [&] {
        nc.put("id", NC_INT, {du}, id);
        int t = nc.put("time", l.time, {dt}, time);
        nc.text(t, "units", "days since 1858-11-17 00:00:00");
    };
    auto data = [&](int k, int which) {
        std::vector<double> v;
        auto val = [&](int i, int u) { return which == 0 ? f[u][i].p : which == 1 ? f[u][i].t : which == 2 ? f[u][i].e : which == 3 ? f[u][i].tmin : f[u][i].tmax; };
        if (l.unitsFirst)
            for (int u = 0; u < nu; ++u)
                for (int i = 0; i < rows; ++i) v.push_back(val(i, l.perm[u]));
        else
            for (int i = 0; i < rows; ++i)
                for (int u = 0; u < nu; ++u) v.push_back(val(i, l.perm[u]));
        std::string n = which < 3 ? kAlias[l.alias][which] : which == 3 ? (l.alias ? "t_min" : "temperature_min") : (l.alias ? "t_max" : "temperature_max");
        (void)k;
        nc.put(n, l.wide ? NC_DOUBLE : NC_FLOAT, l.unitsFirst ? std::vector<int>{du, dt} : std::vector<int>{dt, du}, v);
    };
    std::vector<int> vars = {0, 1, 2};
    if (s.o.splitter == "snow_rain:cemaneige") vars.insert(vars.end(), {3, 4});
    if (l.order == 2) std::reverse(vars.begin(), vars.end());
    if (l.order == 0) heads();
    for (size_t k = 0; k < vars.size(); ++k) {
        if (l.order == 1 && k == 1) heads();
        data(k, vars[k]);
    }
    if (l.order == 2) heads();
}
// Forcing and properties as the numeric type of the file stores them
std::vector<std::vector<Sym>> stored(const std::vector<std::vector<Sym>>& f, bool wide) {
    auto r = f;
    if (!wide)
        for (auto& u : r)
            for (auto& s : u) s = {(float)s.p, (float)s.t, (float)s.e, (float)s.tmin, (float)s.tmax};
    return r;
}
struct BasinLayout {
    int names = 0;  // attribute listing the covers: land_covers, surface_names, land_cover_names (as strings or as text)
    bool text = false, wide = true;
    int order = 0, extra = 0;
    std::string degrees = "degrees";
};
void writeBasin(const std::string& path, const Spec& s, const BasinLayout& l) {
    Nc nc(path);
    int nu = s.units.size();
    int other = l.extra & 1 ? nc.dim("other", nu + 2) : -1;
    int du = nc.dim("hydro_units", nu);
    auto covers = coverUnion(s.units);
    std::vector<std::string> names;
    for (auto& c : covers) names.push_back(c.name);
    const char* att = l.names == 0 ? "land_covers" : l.names == 1 ? "surface_names" : "land_cover_names";
    if (l.text) nc.text(NC_GLOBAL, att, names[0]);
    else nc.strings(att, names);
    nc_type t = l.wide ? NC_DOUBLE : NC_FLOAT;
    std::vector<double> id, area, elev, slope;
    for (auto& u : s.units) {
        id.push_back(u.id);
        area.push_back(u.area);
        elev.push_back(u.elev);
        slope.push_back(u.slope);
    }
    auto heads = [&] {
        nc.put("id", NC_INT, {du}, id);
        nc.text(nc.put("area", t, {du}, area), "units", "m2");
    };
    auto props = [&] {
        nc.text(nc.put("elevation", t, {du}, elev), "units", "m");
        nc.text(nc.put("slope", t, {du}, slope), "units", l.degrees);
    };
    auto cov = [&] {
        for (auto& c : covers) {
            std::vector<double> f;
            for (auto& u : s.units)
                for (auto& x : u.covers)
                    if (x.name == c.name) f.push_back(x.frac);
            int v = nc.put(c.name, t, {du}, f);
            nc.text(v, "units", "fraction");
            nc.text(v, "type", c.type);
        }
    };
    auto extras = [&] {
        if (l.extra & 1) nc.put("unrelated", NC_DOUBLE, {other}, std::vector<double>(nu + 2, 7));
        if (l.extra & 2) nc.put("crs", NC_INT, {}, {1});
        if (l.extra & 4) nc.put("distances", NC_DOUBLE, {du, du}, std::vector<double>(nu * nu, 3));
    };
    if (l.order == 0) heads(), props(), cov(), extras();
    else if (l.order == 1) extras(), cov(), props(), heads();
    else props(), heads(), extras(), cov();
}

bool runFiles(Ctx& ctx, const Spec& s, const std::string& dir, const std::string& basin, const std::string& forcing, Rec* r, std::string* no) {
    Sim sim(s);
    SettingsBasin sb;
    if (!basin.empty() && !sb.Parse(basin)) {
        *no = "the basin file was refused";
        return false;
    }
    auto res = sim.m->InitializeWithBasin(*sim.sm, basin.empty() ? *sim.sb : sb);
    if (!res) {
        *no = "the model could not be initialised: " + res.error();
        return false;
    }
    if (!sim.m->IsValid()) {
        *no = "the model is not valid";
        return false;
    }
    std::vector<std::unique_ptr<TimeSeries>> ts;
    if (!TimeSeries::Parse(forcing, ts)) {
        *no = "the forcing file was refused";
        return false;
    }
    for (auto& t : ts)
        if (!sim.m->AddTimeSeries(std::move(t))) {
            *no = "a time series of the file was refused";
            return false;
        }
    if (!sim.m->AttachTimeSeriesToHydroUnits() || !sim.run()) {
        *no = "the run failed: " + sim.error;
        return false;
    }
    *r = record(*sim.m);
    (void)dir;
    (void)ctx;
    return true;
}
void compareRuns(Ctx& ctx, const Spec& s, const Dir& d, const BasinLayout* b, const ForcingLayout& l, const std::vector<int>& seq) {
    auto f = unitForcing(s, seq);
    for (auto& u : f) {
        Sym junk{999, 33, 9, 30, 36};
        u.insert(u.begin(), l.before, junk);
        u.insert(u.end(), l.after, junk);
    }
    std::string bf, ff = d.dir + "/forcing.nc";
    Spec ref = s;
    if (b) {
        bf = d.dir + "/units.nc";
        writeBasin(bf, s, *b);
    }
    writeForcing(ff, s, l, f);
    Rec a, r;
    std::string no, why;
    Sim sim(ref);
    if (!sim.init() || !sim.forcing(stored(f, l.wide), l.before, l.after) || !sim.run()) return ctx.fail("rejected", sim.error);
    a = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(a);
    for (int t = 0; t < a.steps; ++t) {
        ++ctx.transitions;
        ctx.state(hashRec(a, t));
    }
    if (!runFiles(ctx, s, d.dir, bf, ff, &r, &no)) return ctx.fail("refused", no);
    if (!sameRec(a, r, 0, &why)) return ctx.fail("differs", why + " (declared vs read from the files)");
    ++ctx.validated;
}
}  // namespace

PROPERTY(C02) {
    Dir d;
    struct TS {
        int n;
        const char* u;
        const char* start;
    };
    int K = kAlphabet.size();
    int depth = ctx.quick() ? 1 : 2;
    auto cover = [](std::vector<std::pair<std::string, double>> f) {
        std::vector<Cover> r;
        for (auto& x : f) r.push_back({x.first, x.first.substr(0, 7) == "glacier" ? "glacier" : x.first == "ground" ? "ground" : "open", x.second});
        return r;
    };
    auto units = [&](Spec& s, bool two) {
        s.units = {Unit{4, 1e6, 1000, cover({{"ground", 0.5}, {"forest", 0.25}, {"glacier", 0.25}}), 12}, Unit{2, 2500000, 1800, cover({{"ground", 0.25}, {"forest", 0.75}, {"glacier", 0}}), 20.5},
                   Unit{31, 750000, 900, cover({{"ground", 0}, {"forest", 0.625}, {"glacier", 0.375}}), 5.25}};
        if (two) s.units.pop_back();
        for (auto& u : s.units)
            for (auto& c : u.covers)
                if (c.name == "forest") c.type = "generic_land_cover";
    };
    auto each = [&](const std::string& name, const std::function<void(const std::vector<int>&)>& body) {
        ctx.dims["layouts"] += ctx.shard == 0;
        sequences(K, depth, [&](const std::vector<int>& q) {
            auto seq = q;
            while (seq.size() < 3) seq.push_back((seq.back() + 2) % K);
            ctx.run(name + "/" + seqStr(q), [&] { body(seq); });
        });
    };
    // ---- forcing files
    for (std::string kind : {"socont", "hbv"})
        for (std::string sn : {"dd", "cn"})
            for (TS ts : {TS{1, "day", "2020-02-27"}, TS{2, "day", "2019-12-30"}, TS{6, "hour", "2020-02-28 06:00"}, TS{12, "hour", "2020-02-28"}, TS{1, "hour", "2020-02-28 00:00"}, TS{1, "hour", "2020-12-31 22:00"}, TS{3, "hour", "1999-02-28 18:00"}, TS{7, "day", "2024-02-20"}})
                for (int layout = 0; layout < 3 * 2 * 2 * 2 * 2; ++layout)
                    for (int variant = 0; variant < 6; ++variant) {
                        ForcingLayout l;
                        l.order = layout % 3;
                        l.unitsFirst = layout / 3 & 1;
                        l.dimTimeFirst = layout / 6 & 1;
                        l.wide = layout / 12 & 1;
                        bool narrow = layout / 24 & 1;
                        double step = ts.n * (std::strcmp(ts.u, "day") ? 1.0 / 24 : 1);
                        if (narrow && std::fabs(step * 8 - std::round(step * 8)) > 1e-9) continue;  // not representable
                        if (narrow) l.time = step >= 1 && variant % 2 ? NC_INT : NC_FLOAT;
                        static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
                        l.perm.assign(perms[variant], perms[variant] + 3);
                        l.alias = variant % 3;
                        l.before = (variant * 7) % 4;
                        l.after = variant / 2;
                        if (ctx.quick() && (variant + layout) % 3 != (sn == "cn")) continue;
                        if (ctx.quick() && kind == "hbv" && variant % 2) continue;
                        Spec s;
                        s.o.kind = kind;
                        snowOption(s.o, sn);
                        units(s, false);
                        s.steps = 3;
                        s.start = ts.start;
                        s.step = ts.n;
                        s.unit = ts.u;
                        each(fmt("forcing/%s/%s/%d%s@%s/layout%d/%d", kind.c_str(), sn.c_str(), ts.n, ts.u, ts.start, layout, variant), [&, s, l](const std::vector<int>& seq) { compareRuns(ctx, s, d, nullptr, l, seq); });
                    }
    // ---- files describing the hydro units
    for (std::string kind : {"socont", "hbv", "gr4j"})
        for (std::string sn : {"dd", "cn", "all"})
            for (int names = 0; names < 4; ++names)
                for (int order = 0; order < 3; ++order)
                    for (int extra = 0; extra < 8; ++extra)
                        for (std::string deg : {"degrees", "degree", "deg", "°"})
                            for (bool wide : {true, false}) {
                                BasinLayout b;
                                b.names = std::min(names, 2);
                                b.text = names == 3;
                                b.order = order;
                                b.extra = extra;
                                b.degrees = deg;
                                b.wide = wide;
                                if (ctx.quick() && (extra + order + (int)deg.size() + wide) % 2) continue;
                                Spec s;
                                s.o.kind = kind;
                                snowOption(s.o, sn);
                                units(s, kind == "hbv");
                                if (kind == "gr4j" || b.text)
                                    for (auto& u : s.units) u.covers = cover({{"ground", 1}});
                                s.steps = 3;
                                ForcingLayout l;
                                for (size_t u = 0; u < s.units.size(); ++u) l.perm.push_back(s.units.size() - 1 - u);
                                each(fmt("units/%s/%s/names%d/order%d/extra%d/%s/%s", kind.c_str(), sn.c_str(), names, order, extra, deg == "°" ? "sign" : deg.c_str(), wide ? "double" : "float"), [&, s, b, l](const std::vector<int>& seq) { compareRuns(ctx, s, d, &b, l, seq); });
                            }
    // ---- properties are given in the unit they are asked in
    {
        const std::vector<std::string> angles = {"degrees", "degree", "deg", "°"};
        const std::vector<std::pair<std::string, std::function<double(double)>>> targets = {
            {"degrees", [](double x) { return x; }}, {"degree", [](double x) { return x; }}, {"deg", [](double x) { return x; }}, {"°", [](double x) { return x; }},
            {"radians", [](double x) { return x * M_PI / 180; }}, {"rad", [](double x) { return x * M_PI / 180; }},
            {"percent", [](double x) { return 100 * std::tan(x * M_PI / 180); }}, {"%", [](double x) { return 100 * std::tan(x * M_PI / 180); }},
            {"m/m", [](double x) { return std::tan(x * M_PI / 180); }}, {"m_per_m", [](double x) { return std::tan(x * M_PI / 180); }}};
        const std::vector<std::pair<std::string, double>> areas = {{"ha", 1e-4}, {"km2", 1e-6}, {"km^2", 1e-6}};
        auto ask = [&](const std::string& from, const std::string& to, std::function<double(double)> f) {
            ctx.run("property/" + from + "/" + to, [&, from, to, f] {
                for (double x : {0.0, 0.5, 12.25, 44.0, 79.5, 1e5, 3.7e6}) {
                    if (x > 80 && from[0] != 'm') continue;
                    for (int place = 0; place < 3; ++place) {  // among other properties
                        ++ctx.transitions;
                        HydroUnit u(1e6);
                        for (int k = 0; k < 3; ++k)
                            u.AddProperty(k == place ? std::make_unique<HydroUnitProperty>("size", x, from) : std::make_unique<HydroUnitProperty>("other" + std::to_string(k), 17.0, "km"));
                        double y = NAN;
                        bool refused = false;
                        try {
                            y = u.GetPropertyDouble("size", to);
                        } catch (const std::exception&) { refused = true; }
                        if (f ? refused || !close(y, f(x), 1e-9, 1e-12) : !refused)
                            return ctx.fail("property", fmt("%g %s asked in %s: %s%g", x, from.c_str(), to.c_str(), refused ? "refused " : "", y));
                        ++ctx.validated;
                    }
                }
            });
        };
        for (auto& a : angles) {
            for (auto& t : targets) ask(a, t.first, t.second);
            for (auto& t : areas) ask(a, t.first, nullptr);
            for (std::string t : {"m2", "m", "K"}) ask(a, t, nullptr);
        }
        for (std::string a : {"m2", "m^2"}) {
            ask(a, a, [](double x) { return x; });
            for (auto& t : areas) ask(a, t.first, [k = t.second](double x) { return x * k; });
            for (std::string t : {"degrees", "rad", "m", "%"}) ask(a, t, nullptr);
        }
    }
    // ---- incomplete or inconsistent files are refused
    auto refuse = [&](const std::string& name, const std::function<bool(const std::string&)>& reads) {
        ctx.run("refused/" + name, [&] {
            ++ctx.transitions;
            if (reads(d.dir + "/bad.nc")) ctx.fail("accepted", "the file was accepted");
            else ++ctx.validated;
            std::error_code e;
            fs::remove(d.dir + "/bad.nc", e);
        });
    };
    auto bad = [&](const std::string& name, const std::function<void(Nc&, int du, int dt)>& body) {
        refuse(name, [body](const std::string& path) {
            {
                Nc nc(path);
                int du = nc.dim("hydro_units", 2), dt = nc.dim("time", 3);
                body(nc, du, dt);
            }
            std::vector<std::unique_ptr<TimeSeries>> ts;
            return TimeSeries::Parse(path, ts);
        });
    };
    std::vector<double> id2 = {4, 2}, t3 = {58849, 58850, 58851}, v6 = {1, 2, 3, 4, 5, 6};
    bad("no dates", [=](Nc& nc, int du, int dt) { nc.put("id", NC_INT, {du}, id2); nc.put("precipitation", NC_DOUBLE, {dt, du}, v6); });
    bad("no identifiers", [=](Nc& nc, int du, int dt) { nc.put("time", NC_DOUBLE, {dt}, t3); nc.put("precipitation", NC_DOUBLE, {dt, du}, v6); });
    for (double step : {1.0, 0.25, 1.0 / 24, 2.0})
        for (double gap : {1.0, 2.0, -1.0})
            bad(fmt("gap%g/%g", gap, step), [=](Nc& nc, int du, int dt) {
                nc.put("id", NC_INT, {du}, id2);
                nc.put("time", NC_DOUBLE, {dt}, {58849, 58849 + step, 58849 + (2 + gap) * step});
                nc.put("precipitation", NC_DOUBLE, {dt, du}, v6);
            });
    for (int which = 0; which < 2; ++which)
        bad(fmt("one-dimensional/%d", which), [=](Nc& nc, int du, int dt) {
            nc.put("id", NC_INT, {du}, id2);
            nc.put("time", NC_DOUBLE, {dt}, t3);
            nc.put("precipitation", NC_DOUBLE, {which ? du : dt}, {1, 2, 3});
        });
    bad("unknown variable", [=](Nc& nc, int du, int dt) { nc.put("id", NC_INT, {du}, id2); nc.put("time", NC_DOUBLE, {dt}, t3); nc.put("wind", NC_DOUBLE, {dt, du}, v6); });
    refuse("single date", [=](const std::string& path) {
        {
            Nc nc(path);
            int du = nc.dim("hydro_units", 2), dt = nc.dim("time", 1);
            nc.put("id", NC_INT, {du}, id2);
            nc.put("time", NC_DOUBLE, {dt}, {58849});
            nc.put("precipitation", NC_DOUBLE, {dt, du}, {1, 2});
        }
        std::vector<std::unique_ptr<TimeSeries>> ts;
        return TimeSeries::Parse(path, ts);
    });
    refuse("forcing absent", [](const std::string& path) {
        std::vector<std::unique_ptr<TimeSeries>> ts;
        return TimeSeries::Parse(path, ts);
    });
    refuse("units absent", [](const std::string& path) { return SettingsBasin().Parse(path); });
    for (int miss = 0; miss < 4; ++miss)
        refuse(fmt("units/%d", miss), [=](const std::string& path) {
            {
                Nc nc(path);
                int du = nc.dim(miss == 0 ? "units" : "hydro_units", 2);
                nc.strings("land_covers", {"ground"});
                if (miss != 1) nc.put("id", NC_INT, {du}, id2);
                if (miss != 2) nc.put("area", NC_DOUBLE, {du}, {1e6, 2e6});
                if (miss != 3) nc.text(nc.put("ground", NC_DOUBLE, {du}, {1, 1}), "type", "ground");
            }
            return SettingsBasin().Parse(path);
        });
}
