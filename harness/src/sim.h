#pragma once
#include <memory>
#include <string>
#include <vector>

#include "Action.h"
#include "ModelHydro.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "UtilsDateTime.h"
#include "ctx.h"

struct Cover {
    std::string name, type;
    double frac;
};
struct Unit {
    int id;
    double area;
    double elev = 1000;
    std::vector<Cover> covers;  // fractions
    double slope = -1;          // degrees
    std::string aspect;
};
struct Lateral {
    int from, to;
    double frac;
};
struct ParamSet {
    std::string comp, name;
    float value;
};

// A storage of a "custom" structure (and of the reference model of the others).
struct ProcDef {
    std::string name, type, target;  // target: a store, "outlet", or "" (atmosphere)
    std::vector<std::pair<std::string, double>> params;
    double weight = 1;  // share of the unit concerned (capillary rise to the soil of some covers)
    double par(const std::string& n) const {
        for (auto& p : params)
            if (p.first == n) return p.second;
        throw std::runtime_error("harness: parameter " + n + " of " + name);
    }
};
struct StoreDef {
    std::string name;
    double cap = -1;
    std::vector<ProcDef> procs;
};

struct Opts {
    std::vector<StoreDef> stores;  // kind "custom"
    std::string kind = "socont";  // socont hbv hbvlake gr4j gr4js gr6j gr6js bucket
    int soil = 1;                 // socont: number of slow reservoirs
    std::string runoff = "socont_runoff";
    bool snow = true;
    std::string splitter = "snow_rain:linear";
    std::string melt = "melt:degree_day";
    bool retention = false, refreeze = false, rainToSnow = false;
    std::string sublimation, transform, redistribution;
    bool infiniteIce = true;
    bool glacierStores = false;  // the basin stores of the glaciers also without a glacier cover
    std::string basinStore = "glacier_area";  // how the names of these stores start
    float noMeltWhenSnow = 1;
    bool staticRest = true;      // hbv/socont: outflow:rest booked as static output
    bool capOverflow = true;
    bool soilPerCover = false;   // hbv: one soil moisture store per cover
    std::vector<std::string> canopy;  // covers with an interception canopy
    std::vector<ParamSet> params;
};

struct Sym {
    double p, t, e;
    double tmin = -999, tmax = -999;
};

struct Spec {
    Opts o;
    std::string solver = "heun_explicit";
    std::string start = "2020-01-01";
    int steps = 4;        // number of simulated time steps
    int step = 1;
    std::string unit = "day";
    int spinup = 0;
    bool logAll = true;
    bool fractions = true;
    std::vector<Unit> units;
    std::vector<Lateral> laterals;
};

// MJD of a step
double startMjd(const Spec& s);
double stepDays(const Spec& s);
std::string dateStr(double mjd, bool withTime);

// Declares the structure into the currently selected structure of the settings
void buildStructure(SettingsModel& sm, const Opts& o, const std::vector<Cover>& covers);
// Union of the covers over the units (first-seen order)
std::vector<Cover> coverUnion(const std::vector<Unit>& units);

struct Sim {
    Spec spec;
    std::unique_ptr<SettingsModel> sm;
    std::unique_ptr<SettingsBasin> sb;
    std::unique_ptr<ModelHydro> m;
    std::vector<std::shared_ptr<Action>> actions;
    std::string error;
    // one: build everything (structure 1 holds the union of the covers)
    explicit Sim(const Spec& s, bool build = true);
    bool init();  // InitializeWithBasin
    // forcing[unit][step]; extra leading/trailing rows allowed via offset
    bool forcing(const std::vector<std::vector<Sym>>& f, int before = 0, int after = 0);
    bool run();
    // convenience: same forcing for all units
    bool forcingAll(const std::vector<Sym>& seq);
};

// ---- recorded output access
struct Rec {
    std::vector<std::string> subLabels, huLabels, frLabels;
    vecAxd sub;
    vecAxxd hu, fr;
    axd time, areas;
    vecInt ids;
    int steps = 0;
    const axd* subv(const std::string& l) const;
    const axxd* huv(const std::string& l) const;
    const axxd* frv(const std::string& l) const;
};
Rec record(ModelHydro& m);
void dumpRec(const Rec& r);  // development aid
uint64_t hashRec(const Rec& r, int step);
bool sameRec(const Rec& a, const Rec& b, double tol, std::string* why);
// bitwise-tolerant double compare
bool close(double a, double b, double rel = 1e-9, double abs = 1e-9);
bool endsWith(const std::string& s, const std::string& e);
bool startsWith(const std::string& s, const std::string& e);
// basin-average storage (mm) at a given recorded step from the recorded labels. step=-1 is not available.
double storageOf(const Rec& r, const std::string& tag, int step);
// all sequences of length L over k symbols, in lexicographic order
template <class F>
void sequences(int k, int L, F f) {
    std::vector<int> s(L, 0);
    while (true) {
        f(s);
        int i = L - 1;
        while (i >= 0 && ++s[i] == k) s[i--] = 0;
        if (i < 0) break;
    }
}
std::string seqStr(const std::vector<int>& s);
extern const std::vector<Sym> kAlphabet;
std::vector<Sym> symSeq(const std::vector<int>& s);
const std::vector<std::string>& allSolvers();
// Independent civil calendar (proleptic Gregorian), days since 1970-01-01.
long civilDays(int y, int m, int d);
void civilFrom(long z, int& y, int& m, int& d);
int daysIn(int y, int m);
