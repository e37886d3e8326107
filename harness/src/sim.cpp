#include "sim.h"

#include <cmath>

const std::vector<Sym> kAlphabet = {
    {0, -6, 0, -10, -2},      // 0 cold and dry
    {14, -3, 0.3, -7, 0},     // 1 snowfall
    {9, 1, 1.0, -3, 4},       // 2 mixed phase
    {85, 9, 1.5, 5, 14},      // 3 storm
    {0, 22, 6.5, 14, 30},     // 4 hot and dry
    {5, 6, 2.5, 2, 10},       // 5 light rain
};

std::vector<Sym> symSeq(const std::vector<int>& s) {
    std::vector<Sym> r;
    for (int i : s) r.push_back(kAlphabet[i]);
    return r;
}
std::string seqStr(const std::vector<int>& s) {
    std::string r;
    for (int i : s) r += (i < 10 ? char('0' + i) : char('a' + i - 10));
    return r;
}
const std::vector<std::string>& allSolvers() {
    static std::vector<std::string> v = {"rk4", "euler_explicit", "heun_explicit", "implicit_euler",
                                         "crank_nicolson", "exponential_euler", "analytic_linear"};
    return v;
}

// Independent civil-date arithmetic (days since 1970-01-01; MJD 40587).
long civilDays(int y, int m, int d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long)doe - 719468;
}
void civilFrom(long z, int& y, int& m, int& d) {
    z += 719468;
    long era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = (int)yoe + (int)(era * 400);
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1;
    m = mp + (mp < 10 ? 3 : -9);
    y += m <= 2;
}
double startMjd(const Spec& s) {
    int y = 0, mo = 0, d = 0, h = 0, mi = 0, se = 0;
    sscanf(s.start.c_str(), "%d-%d-%d%*c%d:%d:%d", &y, &mo, &d, &h, &mi, &se);
    return civilDays(y, mo, d) + 40587.0 + h / 24.0 + mi / 1440.0 + se / 86400.0;
}
double stepDays(const Spec& s) {
    double u = s.unit == "day" ? 1 : s.unit == "hour" ? 1.0 / 24 : s.unit == "minute" ? 1.0 / 1440 : 7;
    return u * s.step;
}
std::string dateStr(double mjd, bool withTime) {
    long minutes = lround(mjd * 1440);
    long day = (long)std::floor(minutes / 1440.0);
    long rem = minutes - day * 1440;
    int y, m, d;
    civilFrom(day - 40587, y, m, d);
    if (!withTime) return fmt("%04d-%02d-%02d", y, m, d);
    return fmt("%04d-%02d-%02d %02d:%02d", y, m, d, (int)(rem / 60), (int)(rem % 60));
}

bool close(double a, double b, double rel, double abs) {
    if (std::isnan(a) && std::isnan(b)) return true;
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
bool endsWith(const std::string& s, const std::string& e) {
    return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}
bool startsWith(const std::string& s, const std::string& e) { return s.compare(0, e.size(), e) == 0; }

std::vector<Cover> coverUnion(const std::vector<Unit>& units) {
    std::vector<Cover> r;
    for (auto& u : units)
        for (auto& c : u.covers) {
            bool f = false;
            for (auto& x : r) f |= x.name == c.name;
            if (!f) r.push_back(c);
        }
    return r;
}

static void addCovers(SettingsModel& sm, const std::vector<Cover>& covers) {
    for (auto& c : covers) sm.AddLandCoverBrick(c.name, c.type);
}
static bool hasCover(const std::vector<std::string>& v, const std::string& n) {
    for (auto& x : v)
        if (x == n) return true;
    return false;
}
static void addSnow(SettingsModel& sm, const Opts& o, const std::vector<Cover>& covers) {
    for (auto& c : covers)
        if (hasCover(o.canopy, c.name))
            sm.GenerateCanopyInterception(c.name, (o.snow && o.rainToSnow) ? c.name + "_snowpack" : c.name);
    if (!o.snow) return;
    if (o.retention)
        sm.GenerateSnowpacksWithWaterRetention(o.melt, "outflow:snow_holding", o.rainToSnow);
    else
        sm.GenerateSnowpacks(o.melt);
    if (o.refreeze) sm.AddSnowpackRefreezing("refreeze:degree_day");
    if (!o.sublimation.empty()) sm.AddSnowpackSublimation(o.sublimation);
    if (!o.transform.empty()) sm.AddSnowIceTransformation(o.transform);
    if (!o.redistribution.empty()) sm.AddSnowRedistribution(o.redistribution);
}

static void addGlacier(SettingsModel& sm, const Opts& o, const std::string& name) {
    sm.SelectHydroUnitBrick(name);
    sm.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", o.basinStore + "_rain_snowmelt_storage");
    sm.AddBrickParameter("no_melt_when_snow_cover", o.noMeltWhenSnow);
    sm.AddBrickParameter("infinite_storage", o.infiniteIce ? 1.0f : 0.0f);
    std::string melt = o.melt == "melt:cemaneige" ? "melt:degree_day" : o.melt;
    sm.AddBrickProcess("melt", melt, o.basinStore + "_icemelt_storage");
    sm.SetProcessOutputsAsInstantaneous();
}
static bool anyGlacier(const std::vector<Cover>& covers) {
    for (auto& c : covers)
        if (c.type == "glacier") return true;
    return false;
}
static void addGlacierStores(SettingsModel& sm, const Opts& o) {
    sm.AddSubBasinBrick(o.basinStore + "_rain_snowmelt_storage", "storage");
    sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    sm.AddSubBasinBrick(o.basinStore + "_icemelt_storage", "storage");
    sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
}

void buildStructure(SettingsModel& sm, const Opts& o, const std::vector<Cover>& covers) {
    const std::string& k = o.kind;
    if (k == "socont") {
        sm.GeneratePrecipitationSplitters(o.snow, o.splitter);
        addCovers(sm, covers);
        addSnow(sm, o, covers);
        for (auto& c : covers)
            if (c.type == "glacier") addGlacier(sm, o, c.name);
        if (anyGlacier(covers) || o.glacierStores) addGlacierStores(sm, o);
        for (auto& c : covers)
            if (c.type != "glacier") {
                sm.SelectHydroUnitBrick(c.name);
                sm.AddBrickProcess("infiltration", "infiltration:socont", "slow_reservoir");
                sm.AddBrickProcess("runoff", "outflow:rest", "surface_runoff");
                if (o.staticRest) sm.SetProcessOutputsAsStatic();
            }
        sm.AddHydroUnitBrick("slow_reservoir", "storage");
        sm.AddBrickParameter("capacity", 200.0f);
        sm.AddBrickProcess("et", "et:socont");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
        if (o.soil == 2) sm.AddBrickProcess("percolation", "percolation:constant", "slow_reservoir_2");
        if (o.capOverflow) sm.AddBrickProcess("overflow", "overflow", "outlet");
        if (o.soil == 2) {
            sm.AddHydroUnitBrick("slow_reservoir_2", "storage");
            sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
            sm.SetProcessParameterValue("response_factor", 0.02f);
        }
        sm.AddHydroUnitBrick("surface_runoff", "storage");
        if (o.runoff == "socont_runoff") {
            sm.AddBrickProcess("runoff", "runoff:socont", "outlet");
        } else {
            sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
            sm.SetProcessParameterValue("response_factor", 0.8f);
        }
    } else if (k == "hbv") {
        sm.GeneratePrecipitationSplitters(o.snow, o.splitter);
        addCovers(sm, covers);
        addSnow(sm, o, covers);
        for (auto& c : covers)
            if (c.type == "glacier") addGlacier(sm, o, c.name);
        if (anyGlacier(covers) || o.glacierStores) addGlacierStores(sm, o);
        std::vector<std::string> soils;
        for (auto& c : covers)
            if (c.type != "glacier") {
                std::string soil = o.soilPerCover ? c.name + "_soil_moisture" : "soil_moisture";
                if (!hasCover(soils, soil)) soils.push_back(soil);
                sm.SelectHydroUnitBrick(c.name);
                sm.AddBrickProcess("infiltration", "infiltration:hbv", soil);
                sm.AddBrickProcess("recharge", "outflow:rest", "upper_zone");
                if (o.staticRest) sm.SetProcessOutputsAsStatic();
            }
        sm.AddHydroUnitBrick("upper_zone", "storage");
        sm.AddBrickProcess("capillary", "capillary:hbv", soils[0]);
        for (size_t i = 1; i < soils.size(); ++i) sm.AddProcessOutput(soils[i]);
        sm.AddBrickProcess("percolation", "percolation:constant", "lower_zone");
        sm.AddBrickProcess("runoff", "runoff:hbv", "routing");
        sm.AddHydroUnitBrick("lower_zone", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "routing");
        for (auto& soil : soils) {
            sm.AddHydroUnitBrick(soil, "storage");
            sm.AddBrickParameter("capacity", 250.0f);
            sm.AddBrickProcess("et", "et:hbv");
            sm.AddBrickProcess("overflow", "overflow", "routing");
        }
        sm.AddHydroUnitBrick("routing", "storage");
        sm.AddBrickProcess("routing", "routing:hbv", "outlet");
    } else if (k == "gr4j" || k == "gr4js" || k == "gr6j" || k == "gr6js") {
        bool discrete = k.back() != 's';
        sm.GeneratePrecipitationSplitters(o.snow, o.splitter);
        addCovers(sm, covers);
        addSnow(sm, o, covers);
        for (auto& c : covers) {
            sm.SelectHydroUnitBrick(c.name);
            sm.AddBrickProcess("interception", "interception:gr4j");
            sm.AddBrickProcess("throughfall", "outflow:rest", discrete ? "production_store" : "ground_soil");
            sm.SetProcessOutputsAsInstantaneous();
        }
        if (!discrete) {
            sm.AddHydroUnitBrick("ground_soil", "storage");
            sm.AddBrickProcess("production", "infiltration:gr4j", "production_store");
            sm.AddBrickProcess("runoff", "outflow:rest", "uh_input");
            if (o.staticRest) sm.SetProcessOutputsAsStatic();
        }
        sm.AddHydroUnitBrick("production_store", "storage");
        sm.AddBrickParameter("capacity", 350.0f);
        if (discrete)
            sm.AddBrickProcess("production", "production:gr4j", "uh_input");
        else
            sm.AddBrickProcess("percolation", "percolation:gr4j", "uh_input");
        sm.AddBrickProcess("et", "et:gr4j");
        if (discrete) sm.SetCurrentBrickComputedDirectly();
        sm.AddHydroUnitBrick("uh_input", "storage");
        sm.AddBrickProcess("routing", startsWith(k, "gr4j") ? "routing:gr4j" : "routing:gr6j", "outlet");
        if (discrete) sm.SetCurrentBrickComputedDirectly();
    } else if (k == "lake") {
        // open-water cover (HBV lake variant): direct transfer to an evaporating linear storage
        sm.GeneratePrecipitationSplitters(false);
        addCovers(sm, covers);
        for (auto& c : covers) {
            sm.SelectHydroUnitBrick(c.name);
            sm.AddBrickProcess("outflow", "outflow:direct", "lake_storage");
            sm.SetProcessOutputsAsInstantaneous();
        }
        sm.AddHydroUnitBrick("lake_storage", "storage");
        sm.AddBrickProcess("et", "et:open_water");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    } else if (k == "bucket") {
        // cover -> bucket (linear + overflow) with optional snow; the simplest generic structure
        sm.GeneratePrecipitationSplitters(o.snow, o.splitter);
        addCovers(sm, covers);
        addSnow(sm, o, covers);
        for (auto& c : covers) {
            sm.SelectHydroUnitBrick(c.name);
            sm.AddBrickProcess("transfer", "outflow:direct", "bucket");
        }
        sm.AddHydroUnitBrick("bucket", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    }
    else if (k == "custom") {
        // every cover hands its water to the first store of a declared chain of stores
        sm.GeneratePrecipitationSplitters(o.snow, o.splitter);
        addCovers(sm, covers);
        addSnow(sm, o, covers);
        for (auto& c : covers) {
            sm.SelectHydroUnitBrick(c.name);
            sm.AddBrickProcess("transfer", "outflow:direct", o.stores[0].name);
        }
        for (auto& st : o.stores) {
            sm.AddHydroUnitBrick(st.name, "storage");
            if (st.cap > 0) sm.AddBrickParameter("capacity", (float)st.cap);
            for (auto& p : st.procs) {
                sm.AddBrickProcess(p.name, p.type, p.target);
                for (auto& q : p.params) sm.SetProcessParameterValue(q.first, (float)q.second);
            }
        }
    }
    sm.AddLoggingToItem("outlet");
    for (auto& p : o.params)
        if (!sm.SetParameterValue(p.comp, p.name, p.value))
            throw std::runtime_error("harness: cannot set parameter " + p.comp + ":" + p.name);
}

Sim::Sim(const Spec& s, bool build) : spec(s) {
    sm = std::make_unique<SettingsModel>();
    sb = std::make_unique<SettingsBasin>();
    m = std::make_unique<ModelHydro>();
    if (s.logAll) sm->SetLogAll(true);
    else if (s.fractions) sm->SetRecordFractions(true);
    sm->SetSolver(s.solver);
    bool wt = s.unit != "day" || s.start.size() > 10;
    double st = startMjd(s);
    sm->SetTimer(dateStr(st, wt), dateStr(st + (s.steps - 1) * stepDays(s), wt), s.step, s.unit);
    if (s.spinup) sm->SetSpinupDays(s.spinup);
    if (build) buildStructure(*sm, s.o, coverUnion(s.units));
    for (auto& u : s.units) {
        sb->AddHydroUnit(u.id, u.area, u.elev);
        for (auto& c : u.covers) sb->AddLandCover(c.name, c.type, c.frac);
        sb->AddHydroUnitPropertyDouble("elevation", u.elev, "m");
        if (u.slope >= 0) sb->AddHydroUnitPropertyDouble("slope", u.slope, "degrees");
        if (!u.aspect.empty()) sb->AddHydroUnitPropertyString("aspect_class", u.aspect);
    }
    for (auto& l : s.laterals) sb->AddLateralConnection(l.from, l.to, l.frac);
}

bool Sim::init() {
    auto r = m->InitializeWithBasin(*sm, *sb);
    if (!r) {
        error = r.error();
        return false;
    }
    return true;
}

bool Sim::forcing(const std::vector<std::vector<Sym>>& f, int before, int after) {
    int nu = spec.units.size();
    int rows = f[0].size();
    (void)after;
    axd time(rows);
    double t0 = startMjd(spec) - before * stepDays(spec);
    for (int i = 0; i < rows; ++i) time[i] = t0 + i * stepDays(spec);
    axi ids(nu);
    axxd p(rows, nu), t(rows, nu), e(rows, nu), tn(rows, nu), tx(rows, nu);
    for (int u = 0; u < nu; ++u) {
        ids[u] = spec.units[u].id;
        for (int i = 0; i < rows; ++i) {
            p(i, u) = f[u][i].p;
            t(i, u) = f[u][i].t;
            e(i, u) = f[u][i].e;
            tn(i, u) = f[u][i].tmin;
            tx(i, u) = f[u][i].tmax;
        }
    }
    bool ok = m->CreateTimeSeries("precipitation", time, ids, p) && m->CreateTimeSeries("temperature", time, ids, t) &&
              m->CreateTimeSeries("pet", time, ids, e);
    if (ok && spec.o.splitter == "snow_rain:cemaneige")
        ok = m->CreateTimeSeries("temperature_min", time, ids, tn) &&
             m->CreateTimeSeries("temperature_max", time, ids, tx);
    if (ok && spec.o.melt == "melt:temperature_index") {
        axxd rad(rows, nu);
        for (int u = 0; u < nu; ++u)
            for (int i = 0; i < rows; ++i) rad(i, u) = 150 + 10 * f[u][i].t;
        ok = m->CreateTimeSeries("solar_radiation", time, ids, rad);
    }
    if (!ok) {
        error = "time series rejected";
        return false;
    }
    return m->AttachTimeSeriesToHydroUnits();
}
bool Sim::forcingAll(const std::vector<Sym>& seq) {
    std::vector<std::vector<Sym>> f(spec.units.size(), seq);
    for (auto& v : f)
        while ((int)v.size() < std::max(2, spec.steps)) v.push_back(v.back());
    return forcing(f);
}
bool Sim::run() {
    auto r = m->Run();
    if (!r) {
        error = r.error();
        return false;
    }
    return true;
}

const axd* Rec::subv(const std::string& l) const {
    for (size_t i = 0; i < subLabels.size(); ++i)
        if (subLabels[i] == l) return &sub[i];
    return nullptr;
}
const axxd* Rec::huv(const std::string& l) const {
    for (size_t i = 0; i < huLabels.size(); ++i)
        if (huLabels[i] == l) return &hu[i];
    return nullptr;
}
const axxd* Rec::frv(const std::string& l) const {
    for (size_t i = 0; i < frLabels.size(); ++i)
        if (frLabels[i] == l) return &fr[i];
    return nullptr;
}
Rec record(ModelHydro& m) {
    Rec r;
    Logger* l = m.GetLogger();
    r.subLabels = l->GetSubBasinLabels();
    r.huLabels = l->GetHydroUnitLabels();
    r.frLabels = l->GetHydroUnitFractionLabels();
    r.sub = l->GetSubBasinValues();
    r.hu = l->GetHydroUnitValues();
    r.fr = l->GetHydroUnitFractions();
    r.time = l->GetTime();
    r.areas = l->GetHydroUnitAreas();
    r.ids = l->GetHydroUnitIds();
    r.steps = r.time.size();
    return r;
}
uint64_t hashRec(const Rec& r, int t) {
    Hasher h;
    for (size_t i = 0; i < r.sub.size(); ++i) {
        if (!endsWith(r.subLabels[i], "content")) continue;
        h.s(r.subLabels[i]);
        h.d(r.sub[i][t]);
    }
    for (size_t i = 0; i < r.hu.size(); ++i) {
        if (!endsWith(r.huLabels[i], "content")) continue;
        h.s(r.huLabels[i]);
        for (int u = 0; u < r.hu[i].cols(); ++u) h.d(r.hu[i](t, u));
    }
    for (auto& f : r.fr)
        for (int u = 0; u < f.cols(); ++u) h.d(f(t, u));
    return h.h;
}
static bool cmpArr(const double* a, const double* b, size_t n, double tol, size_t* at) {
    for (size_t i = 0; i < n; ++i)
        if (!(tol == 0 ? (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) : close(a[i], b[i], tol, tol))) {
            *at = i;
            return false;
        }
    return true;
}
bool sameRec(const Rec& a, const Rec& b, double tol, std::string* why) {
    size_t at;
    if (a.steps != b.steps || a.sub.size() != b.sub.size() || a.hu.size() != b.hu.size() || a.fr.size() != b.fr.size()) {
        *why = "shape differs";
        return false;
    }
    if (!cmpArr(a.time.data(), b.time.data(), a.time.size(), tol, &at)) {
        *why = fmt("time[%zu] %.12g vs %.12g", at, a.time[at], b.time[at]);
        return false;
    }
    for (size_t i = 0; i < a.sub.size(); ++i)
        if (!cmpArr(a.sub[i].data(), b.sub[i].data(), a.sub[i].size(), tol, &at)) {
            *why = fmt("%s[%zu] %.12g vs %.12g", a.subLabels[i].c_str(), at, a.sub[i][at], b.sub[i][at]);
            return false;
        }
    for (size_t i = 0; i < a.hu.size(); ++i)
        if (!cmpArr(a.hu[i].data(), b.hu[i].data(), a.hu[i].size(), tol, &at)) {
            *why = fmt("%s[%zu] %.12g vs %.12g", a.huLabels[i].c_str(), at, a.hu[i].data()[at], b.hu[i].data()[at]);
            return false;
        }
    for (size_t i = 0; i < a.fr.size(); ++i)
        if (!cmpArr(a.fr[i].data(), b.fr[i].data(), a.fr[i].size(), tol, &at)) {
            *why = fmt("fraction %s[%zu] %.12g vs %.12g", a.frLabels[i].c_str(), at, a.fr[i].data()[at],
                       b.fr[i].data()[at]);
            return false;
        }
    return true;
}

// The cover a surface label belongs to ("ground:..", "ground_snowpack:..", "ground_canopy:..") or -1
static int fractionOf(const Rec& r, const std::string& label) {
    std::string brick = label.substr(0, label.find(':'));
    for (size_t j = 0; j < r.frLabels.size(); ++j)
        if (brick == r.frLabels[j] || brick == r.frLabels[j] + "_snowpack" || brick == r.frLabels[j] + "_canopy") return j;
    return -1;
}
double storageOf(const Rec& r, const std::string& tag, int t) {
    double s = 0, area = r.areas.sum();
    for (size_t i = 0; i < r.sub.size(); ++i)
        if (endsWith(r.subLabels[i], tag)) s += r.sub[i][t];
    for (size_t i = 0; i < r.hu.size(); ++i) {
        if (!endsWith(r.huLabels[i], tag)) continue;
        int f = fractionOf(r, r.huLabels[i]);
        for (int u = 0; u < r.hu[i].cols(); ++u) {
            double v = r.hu[i](t, u);
            if (std::isnan(v)) continue;
            if (f >= 0) v *= r.fr[f](t, u);
            s += v * r.areas[u] / area;
        }
    }
    return s;
}

int daysIn(int y, int m) {
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return m == 2 && leap ? 29 : n[m - 1];
}
