// C01: faulty descriptions are refused.   C03: the calls of a model come in any order.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <limits>

#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "configs.h"

namespace {
// Runs body in a child process: its text (stage reached), or the way it died.
std::string isolated(const std::function<std::string()>& body) {
    int p[2];
    if (pipe(p)) throw std::runtime_error("harness: pipe");
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("harness: fork");
    if (pid == 0) {
        alarm(20);
        close(p[0]);
        std::string r;
        try {
            r = body();
        } catch (const std::exception& e) {
            r = std::string("refused (exception): ") + e.what();
        }
        r = r.substr(0, 1000);
        (void)!write(p[1], r.data(), r.size());
        close(p[1]);
        _exit(0);
    }
    close(p[1]);
    std::string out;
    char b[1024];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) return fmt("crashed (signal %d)", WTERMSIG(st));
    if (WEXITSTATUS(st)) return fmt("crashed (exit %d)", WEXITSTATUS(st));
    return out;
}

struct World {
    Spec s;
    std::vector<Opts> variants;                       // of the covers named below (one structure when empty)
    std::vector<std::vector<std::string>> coverNames;
    std::vector<std::vector<Sym>> f;
};
// The building blocks of a set-up, each of which a fault may change.
struct Fault {
    std::string name;
    std::function<void(Spec&)> spec;                                   // before anything is built
    std::function<bool(SettingsModel&)> model;                         // after the structure is declared; false: reported
    std::function<bool(SettingsBasin&)> basin;                         // after the units are declared
    std::function<bool(Sim&)> afterInit;                               // false: reported
    std::string dropVar, extraVar;                                     // forcing variable left out / added
    int dropUnit = -1, alienUnit = -1;                                 // unit without forcing
    bool noForcing = false, noAttach = false;
    std::function<void(axd&, axxd&)> data;
};
std::unique_ptr<Sim> declare(const World& w, const Spec& s) {
    if (w.variants.empty()) return std::make_unique<Sim>(s);
    auto sim = std::make_unique<Sim>(s, false);
    auto uni = coverUnion(s.units);
    for (size_t i = 0; i < w.variants.size(); ++i) {
        if (i) sim->sm->AddStructure();
        std::vector<Cover> cov;
        for (auto& c : uni)
            if (std::find(w.coverNames[i].begin(), w.coverNames[i].end(), c.name) != w.coverNames[i].end()) cov.push_back(c);
        buildStructure(*sim->sm, w.variants[i], cov);
    }
    return sim;
}
// The whole set-up with a fault. Returns the stage that reported it, or "accepted".
std::string setUp(const World& w, const Fault& f) {
    Spec s = w.s;
    if (f.spec) f.spec(s);
    auto sim = declare(w, s);
    if (f.model && !f.model(*sim->sm)) return "refused: declaration";
    if (f.basin && !f.basin(*sim->sb)) return "refused: units";
    auto r = sim->m->InitializeWithBasin(*sim->sm, *sim->sb);
    if (!r) return "refused: " + r.error();
    if (!sim->m->IsValid()) return "refused: not valid";
    if (f.afterInit && !f.afterInit(*sim)) return "refused: action";
    // forcing
    int nu = s.units.size(), rows = w.f[0].size();
    axd time(rows);
    for (int i = 0; i < rows; ++i) time[i] = startMjd(s) + i * stepDays(s);
    std::vector<std::string> vars = {"precipitation", "temperature", "pet"};
    if (s.o.splitter == "snow_rain:cemaneige") vars.push_back("temperature_min"), vars.push_back("temperature_max");
    if (s.o.melt == "melt:temperature_index") vars.push_back("solar_radiation");
    if (!f.extraVar.empty()) vars.push_back(f.extraVar);
    if (!f.noForcing)
        for (auto& v : vars) {
            if (v == f.dropVar) continue;
            std::vector<int> which;
            for (int u = 0; u < nu; ++u)
                if (u != f.dropUnit) which.push_back(u);
            axi ids(which.size());
            axxd x(rows, which.size());
            axd t = time;
            for (size_t k = 0; k < which.size(); ++k) {
                int u = which[k];
                ids[k] = s.units[u].id + (u == f.alienUnit ? 1000 : 0);
                for (int i = 0; i < rows; ++i) {
                    auto& y = w.f[u][i];
                    x(i, k) = v == "precipitation" ? y.p : v == "temperature" ? y.t : v == "pet" ? y.e : v == "temperature_min" ? y.tmin : v == "temperature_max" ? y.tmax : 150;
                }
            }
            if (f.data) f.data(t, x);
            if (!sim->m->CreateTimeSeries(v, t, ids, x)) return "refused: forcing " + v;
        }
    if (!f.noAttach && !sim->m->AttachTimeSeriesToHydroUnits()) return "refused: attaching";
    auto q = sim->m->Run();
    if (!q) return "refused: run: " + q.error();
    return "accepted";
}
template <class T>
T& mut(const T& x) {
    return const_cast<T&>(x);
}
void checkFault(Ctx& ctx, const World& w, const Fault& f) {
    std::string r = isolated([&] { return setUp(w, f); });
    Hasher h;
    h.s(r);
    h.s(f.name);
    ctx.state(h.h);
    ++ctx.transitions;
    bool control = f.name == "none";
    if (startsWith(r, "crashed")) ctx.fail("crash", r);
    else if (r.empty()) ctx.fail("crash", "the program ended without an answer");
    else if (control && r != "accepted") ctx.fail("control", "a faultless set-up: " + r);
    else if (!control && r == "accepted") ctx.fail("accepted", "the fault was ignored and the model ran");
    else {
        ++ctx.validated;
        ++ctx.dims["answer: " + r.substr(0, std::min<size_t>(r.find_first_of("0123456789'"), 40))];
    }
}
}  // namespace

PROPERTY(C01) {
    struct Base {
        std::string name;
        World w;
    };
    std::vector<Base> bases;
    auto unit = [](int id, double area, double elev, std::vector<Cover> all, double slope) {
        Unit u{id, area, elev, all, slope};
        u.aspect = "north";
        return u;
    };
    auto add = [&](const std::string& kind, const std::string& cov, const std::string& sn, auto tweak) {
        Base b;
        Spec& s = b.w.s;
        s.o.kind = kind;
        snowOption(s.o, sn);
        if (!s.o.snow) s.o.noMeltWhenSnow = 0;
        s.units = {unit(4, 1e6, 1000, coverSet(cov), 12), unit(2, 2e6, 1700, coverSet(cov), 25)};
        s.steps = 3;
        tweak(b.w);
        b.w.f = unitForcing(s, {1, 3, 4});
        b.name = kind + "/" + cov + "/" + sn;
        bases.push_back(b);
    };
    auto none = [](World&) {};
    add("socont", "GI", "dd", none);
    add("socont", "GFI", "all", none);
    add("socont", "G", "as", none);
    add("socont", "GI", "ti", none);
    add("socont", "GI", "cns", [](World& w) { w.s.o.soil = 2; });
    add("hbv", "GF", "wrr", [](World& w) { w.s.o.soilPerCover = true; });
    add("hbv", "GI", "none", none);
    add("gr4j", "GF", "dd", none);
    add("gr6j", "G", "cn", none);
    add("gr4js", "G", "none", none);
    add("lake", "G", "none", none);
    add("bucket", "GF", "dd", none);
    add("socont", "GI", "dd", [](World& w) {
        Config c;
        c.spec = w.s;
        lateral(c, "transport:snow_slide", {{2, 4, 1.0}});
        w.s = c.spec;
    });
    bases.back().name += "/slide";
    add("socont", "GI", "dd", [](World& w) {
        Opts o = w.s.o;
        o.glacierStores = true;
        w.variants = {o, o};
        w.coverNames = {{"ground"}, {"ground", "glacier"}};
        for (auto& c : w.s.units[1].covers) c.frac = c.name == "ground";
    });
    bases.back().name += "/variants";
    add("socont", "GI", "dd", [](World& w) { w.s.o.infiniteIce = false; });
    bases.back().name += "/finite";
    {
        for (std::string kind : {"socont", "hbv", "bucket", "gr4j", "gr6j", "gr4js"})
            for (std::string cov : {"G", "GF", "GI", "GFI"})
                for (std::string sn : {"none", "dd", "as", "ti", "cn", "cns", "wrr", "all"}) {
                    if (cov.find('I') != std::string::npos && kind != "socont" && kind != "hbv") continue;  // no glacier stores
                    bool known = false;
                    for (auto& b : bases) known |= b.name == kind + "/" + cov + "/" + sn;
                    if (!known) add(kind, cov, sn, none);
                }
    }
    const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    for (auto& b : bases) {
        World& w = b.w;
        Spec& s = w.s;
        std::vector<Fault> fs;
        auto put = [&](const std::string& n) -> Fault& {
            fs.push_back(Fault{n});
            return fs.back();
        };
        put("none");
        int nst = std::max<size_t>(1, w.variants.size());
        bool glacier = false;
        for (auto& c : s.units[0].covers) glacier |= c.type == "glacier";
        // --- what the structure needs, from its declarations
        auto ref = declare(w, s);
        std::set<VariableType> needs;
        std::vector<std::tuple<int, int, int, int, int>> outputs;  // variant, kind (hu, sub, splitter), item, process, output
        std::vector<std::pair<int, int>> hus, subs, spl;
        for (int st = 1; st <= nst; ++st) {
            ref->sm->SelectStructure(st);
            auto procs = [&](int kind, int i, const BrickSettings& x) {
                for (auto v : x.forcing) needs.insert(v);
                for (size_t p = 0; p < x.processes.size(); ++p) {
                    for (auto v : x.processes[p].forcing) needs.insert(v);
                    for (size_t o = 0; o < x.processes[p].outputs.size(); ++o) outputs.push_back({st, kind, i, (int)p, (int)o});
                }
            };
            for (int i = 0; i < ref->sm->GetHydroUnitBrickCount(); ++i) {
                hus.push_back({st, i});
                procs(0, i, ref->sm->GetHydroUnitBrickSettings(i));
            }
            for (int i = 0; st == 1 && i < ref->sm->GetSubBasinBrickCount(); ++i) {
                subs.push_back({st, i});
                procs(1, i, ref->sm->GetSubBasinBrickSettings(i));
            }
            for (int i = 0; i < ref->sm->GetHydroUnitSplitterCount(); ++i) {
                spl.push_back({st, i});
                auto& x = ref->sm->GetHydroUnitSplitterSettings(i);
                for (auto v : x.forcing) needs.insert(v);
                for (size_t o = 0; o < x.outputs.size(); ++o) outputs.push_back({st, 2, i, 0, (int)o});
            }
        }
        // --- forcing
        auto need = [&](VariableType t) { return needs.count(t) > 0; };
        if (need(VariableType::Precipitation)) put("forcing/drop/precipitation").dropVar = "precipitation";
        if (need(VariableType::Temperature)) put("forcing/drop/temperature").dropVar = "temperature";
        if (need(VariableType::PET)) put("forcing/drop/pet").dropVar = "pet";
        if (need(VariableType::TemperatureMin)) put("forcing/drop/temperature_min").dropVar = "temperature_min";
        if (need(VariableType::TemperatureMax)) put("forcing/drop/temperature_max").dropVar = "temperature_max";
        if (need(VariableType::Radiation)) put("forcing/drop/solar_radiation").dropVar = "solar_radiation";
        put("forcing/none").noForcing = true;
        put("forcing/not-attached").noAttach = true;
        put("forcing/unknown-variable").extraVar = "humidity";
        put("forcing/twice").extraVar = "pet";
        for (int u = 0; u < 2; ++u) {
            put(fmt("forcing/no-unit/%d", u)).dropUnit = u;
            put(fmt("forcing/other-id/%d", u)).alienUnit = u;
        }
        put("forcing/rows").data = [](axd&, axxd& x) { x = axxd(x.topRows(x.rows() - 1)); };
        put("forcing/late").data = [](axd& t, axxd&) { t = axd(t + 1); };
        put("forcing/early").data = [](axd& t, axxd&) { t = axd(t - 1); };
        put("forcing/step").data = [](axd& t, axxd&) { t = axd(t[0] + (t - t[0]) * 2); };
        // --- units
        for (int u = 0; u < 2; ++u) {
            for (double a : {0.0, -1e6, nan, inf}) put(fmt("area/%g/%d", a, u)).spec = [u, a](Spec& x) { x.units[u].area = a; };
            for (double fr : {0.2, 0.9, 1.5, -0.3, nan, inf}) {
                if (s.units[u].covers[0].frac == fr) continue;
                put(fmt("cover-share/%g/%d", fr, u)).spec = [u, fr](Spec& x) { x.units[u].covers[0].frac = fr; };
            }
            if (s.units[u].covers.size() > 1) {
                // shares outside [0, 1] that still sum up to one
                put(fmt("cover-negative/%d", u)).spec = [u](Spec& x) {
                    for (auto& c : x.units[u].covers) c.frac = 0;
                    x.units[u].covers[0].frac = 1.25;
                    x.units[u].covers[1].frac = -0.25;
                };
                put(fmt("cover-negative2/%d", u)).spec = [u](Spec& x) {
                    for (auto& c : x.units[u].covers) c.frac = 0;
                    x.units[u].covers[1].frac = 1.25;
                    x.units[u].covers[0].frac = -0.25;
                };
            }
            put(fmt("cover-unknown/%d", u)).basin = [u](SettingsBasin& sb) {
                sb.SelectUnit(u);
                sb.AddLandCover("swamp", "generic_land_cover", 0.4);
                return true;
            };
            bool slope = s.o.runoff == "socont_runoff" && s.o.kind == "socont";
            if (slope) {
                put(fmt("slope-missing/%d", u)).spec = [u](Spec& x) { x.units[u].slope = -1; };
                for (std::string un : {"%", "", "grad", "degrés"})
                    put(fmt("slope-unit/%s/%d", un.c_str(), u)).spec = [](Spec&) {}, fs.back().basin = [u, un, &s](SettingsBasin& sb) {
                        SettingsBasin y;
                        for (size_t k = 0; k < s.units.size(); ++k) {
                            auto& x = s.units[k];
                            y.AddHydroUnit(x.id, x.area, x.elev);
                            for (auto& c : x.covers) y.AddLandCover(c.name, c.type, c.frac);
                            y.AddHydroUnitPropertyDouble("elevation", x.elev, "m");
                            y.AddHydroUnitPropertyDouble("slope", x.slope, (int)k == u ? un : "degrees");
                            y.AddHydroUnitPropertyString("aspect_class", x.aspect);
                        }
                        for (auto& l : s.laterals) y.AddLateralConnection(l.from, l.to, l.frac);
                        sb = y;
                        return true;
                    };
            }
            if (s.o.melt == "melt:degree_day_aspect") {
                put(fmt("aspect-missing/%d", u)).spec = [u](Spec& x) { x.units[u].aspect = ""; };
                put(fmt("aspect-unknown/%d", u)).spec = [u](Spec& x) { x.units[u].aspect = "upwards"; };
            }
        }
        put("units/none").spec = [](Spec&) {};
        fs.back().basin = [](SettingsBasin& sb) {
            sb.Clear();
            return true;
        };
        // --- lateral connections
        if (!s.laterals.empty()) {
            put("lateral/giver").spec = [](Spec& x) { x.laterals.push_back({77, 4, 1.0}); };
            put("lateral/receiver").spec = [](Spec& x) { x.laterals.push_back({4, 77, 1.0}); };
            for (double fr : {0.0, -0.5, 1.5, nan}) put(fmt("lateral/share/%g", fr)).spec = [fr](Spec& x) { x.laterals[0].frac = fr; };
        }
        // --- timer and solver
        put("solver/unknown").spec = [](Spec& x) { x.solver = "magic"; };
        put("solver/empty").spec = [](Spec& x) { x.solver = ""; };
        auto timer = [&](const std::string& n, const std::string& a, const std::string& e, int k, const std::string& un) {
            put("timer/" + n).model = [=](SettingsModel& sm) {
                sm.SetTimer(a, e, k, un);
                return true;
            };
        };
        timer("unit", "2020-01-01", "2020-01-03", 1, "fortnight");
        timer("zero", "2020-01-01", "2020-01-03", 0, "day");
        timer("negative", "2020-01-01", "2020-01-03", -1, "day");
        timer("reversed", "2020-01-03", "2020-01-01", 1, "day");
        timer("start", "2020-13-01", "2020-01-03", 1, "day");
        timer("end", "2020-01-01", "2020-02-30", 1, "day");
        timer("text", "yesterday", "2020-01-03", 1, "day");
        timer("empty", "", "2020-01-03", 1, "day");
        timer("empty-end", "2020-01-01", "", 1, "day");
        // --- structure: every target, every type
        for (auto [st, kind, i, p, o] : outputs)
            for (std::string t : {"nowhere", ""}) {
                put(fmt("target/%d/%d/%d/%d/%d/%s", st, kind, i, p, o, t.c_str())).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    if (kind == 0) mut(sm.GetHydroUnitBrickSettings(i)).processes[p].outputs[o].target = t;
                    else if (kind == 1) mut(sm.GetSubBasinBrickSettings(i)).processes[p].outputs[o].target = t;
                    else mut(sm.GetHydroUnitSplitterSettings(i)).outputs[o].target = t;
                    return true;
                };
                if (kind == 2) continue;
                auto& x = kind ? (ref->sm->SelectStructure(st), ref->sm->GetSubBasinBrickSettings(i)) : (ref->sm->SelectStructure(st), ref->sm->GetHydroUnitBrickSettings(i));
                if (t.empty() || x.processes[p].outputs.size() != 1 || startsWith(x.processes[p].type, "transport:")) continue;
                put(fmt("target-left-out/%d/%d/%d/%d", st, kind, i, p)).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    if (kind == 0) mut(sm.GetHydroUnitBrickSettings(i)).processes[p].outputs.clear();
                    else mut(sm.GetSubBasinBrickSettings(i)).processes[p].outputs.clear();
                    return true;
                };
            }
        for (int kind = 0; kind < 2; ++kind)
            for (auto [st, i] : kind ? subs : hus) {
                ref->sm->SelectStructure(st);
                auto& x = kind ? ref->sm->GetSubBasinBrickSettings(i) : ref->sm->GetHydroUnitBrickSettings(i);
                put(fmt("type/%d/%d/%d", st, kind, i)).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    mut(kind ? sm.GetSubBasinBrickSettings(i) : sm.GetHydroUnitBrickSettings(i)).type = "reservoire";
                    return true;
                };
                for (size_t p = 0; p < x.processes.size(); ++p) {
                    put(fmt("process-type/%d/%d/%d/%zu", st, kind, i, p)).model = [=](SettingsModel& sm) {
                        sm.SelectStructure(st);
                        mut(kind ? sm.GetSubBasinBrickSettings(i) : sm.GetHydroUnitBrickSettings(i)).processes[p].type = "outflow:nonsense";
                        return true;
                    };
                    for (size_t q = 0; q < x.processes[p].parameters.size(); ++q) {
                        auto pn = x.processes[p].parameters[q].GetName();  // (all the units face north)
                        if (pn == "degree_day_factor_s" || pn == "degree_day_factor_ew") continue;
                        put(fmt("process-parameter/%d/%d/%d/%zu/%zu", st, kind, i, p, q)).model = [=](SettingsModel& sm) {
                            sm.SelectStructure(st);
                            auto& v = mut(kind ? sm.GetSubBasinBrickSettings(i) : sm.GetHydroUnitBrickSettings(i)).processes[p].parameters;
                            v.erase(v.begin() + q);
                            return true;
                        };
                    }
                    for (size_t q = 0; q < x.processes[p].forcing.size(); ++q)
                        put(fmt("process-forcing/%d/%d/%d/%zu/%zu", st, kind, i, p, q)).model = [=](SettingsModel& sm) {
                            sm.SelectStructure(st);
                            auto& v = mut(kind ? sm.GetSubBasinBrickSettings(i) : sm.GetHydroUnitBrickSettings(i)).processes[p].forcing;
                            v.erase(v.begin() + q);
                            return true;
                        };
                }
                put(fmt("same-name/%d/%d/%d", st, kind, i)).model = [=, n = x.name, t = x.type](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    if (kind) sm.AddSubBasinBrick(n, t);
                    else sm.AddHydroUnitBrick(n, t);
                    sm.AddBrickProcess("spare", "outflow:direct", "outlet");
                    return true;
                };
                put(fmt("no-process/%d/%d/%d", st, kind, i)).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    mut(kind ? sm.GetSubBasinBrickSettings(i) : sm.GetHydroUnitBrickSettings(i)).processes.clear();
                    return true;
                };
                put(fmt("log-brick/%d/%d/%d", st, kind, i)).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    if (kind) sm.SelectSubBasinBrick(i);
                    else sm.SelectHydroUnitBrick(i);
                    sm.AddBrickLogging("colour");
                    return true;
                };
                for (size_t p = 0; p < x.processes.size(); ++p)
                    put(fmt("log-process/%d/%d/%d/%zu", st, kind, i, p)).model = [=](SettingsModel& sm) {
                        sm.SelectStructure(st);
                        if (kind) sm.SelectSubBasinBrick(i);
                        else sm.SelectHydroUnitBrick(i);
                        sm.SelectProcess(p);
                        sm.AddProcessLogging("colour");
                        return true;
                    };
                if (!x.parent.empty())
                    for (std::string t : {"nowhere"})  // (none at all is a choice)
                        put(fmt("parent/%d/%d/%s", st, i, t.c_str())).model = [=](SettingsModel& sm) {
                            sm.SelectStructure(st);
                            mut(sm.GetHydroUnitBrickSettings(i)).parent = t;
                            return true;
                        };
            }
        for (auto [st, i] : spl) {
            put(fmt("splitter-type/%d/%d", st, i)).model = [=](SettingsModel& sm) {
                sm.SelectStructure(st);
                mut(sm.GetHydroUnitSplitterSettings(i)).type = "magic";
                return true;
            };
            ref->sm->SelectStructure(st);
            auto& x = ref->sm->GetHydroUnitSplitterSettings(i);
            for (size_t q = 0; q < x.forcing.size(); ++q)
                put(fmt("splitter-forcing/%d/%d/%zu", st, i, q)).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    auto& v = mut(sm.GetHydroUnitSplitterSettings(i)).forcing;
                    v.erase(v.begin() + q);
                    return true;
                };
            // (a splitter that feeds the covers may feed any number of them)
            for (size_t q = 0; q < x.outputs.size() && x.type != "multi_fluxes"; ++q)
                put(fmt("splitter-output/%d/%d/%zu", st, i, q)).model = [=](SettingsModel& sm) {
                    sm.SelectStructure(st);
                    auto& v = mut(sm.GetHydroUnitSplitterSettings(i)).outputs;
                    v.erase(v.begin() + q);
                    return true;
                };
        }
        put("log-item").model = [](SettingsModel& sm) {
            sm.SelectStructure(1);
            sm.AddLoggingToItem("inlet");
            return true;
        };
        // --- actions
        double st = startMjd(s);
        auto change = [&](const std::string& n, double date, int id, const std::string& cover, double area) {
            put("change/" + n).afterInit = [=](Sim& sim) {
                auto a = std::make_shared<ActionLandCoverChange>();
                a->AddChange(date, id, cover, area);
                sim.actions.push_back(a);
                return sim.m->AddAction(a.get());
            };
        };
        change("unit", st + 1, 77, "ground", 5e5);
        change("cover", st + 1, 4, "swamp", 5e5);
        change("negative", st + 1, 4, s.units[0].covers.back().name, -1e5);
        change("larger", st + 1, 4, s.units[0].covers.back().name, 1.2e6);
        change("nan", st + 1, 4, s.units[0].covers.back().name, nan);
        if (glacier) {
            auto evo = [&](const std::string& n, bool dh, std::vector<int> ids, const std::string& cover, int rows, int cols, double area) {
                put("glacier/" + n).afterInit = [=](Sim& sim) {
                    axi v(ids.size());
                    for (size_t i = 0; i < ids.size(); ++i) v[i] = ids[i];
                    axxd ar(rows, cols), vo(rows, cols);
                    for (int r = 0; r < rows; ++r)
                        for (int c = 0; c < cols; ++c) ar(r, c) = area * (rows - 1 - r) / std::max(1, rows - 1), vo(r, c) = ar(r, c) * 20;
                    std::shared_ptr<Action> a;
                    if (dh) {
                        auto x = std::make_shared<ActionGlacierEvolutionDeltaH>();
                        x->AddLookupTables(1, cover, v, ar, vo);
                        a = x;
                    } else {
                        auto x = std::make_shared<ActionGlacierEvolutionAreaScaling>();
                        x->AddLookupTables(1, cover, v, ar, vo);
                        a = x;
                    }
                    sim.actions.push_back(a);
                    return sim.m->AddAction(a.get());
                };
            };
            double area = 0;
            for (auto& c : s.units[0].covers)
                if (c.type == "glacier") area = c.frac * s.units[0].area;
            for (int dh = 0; dh < 2; ++dh) {
                std::string d = dh ? "delta-h/" : "scaling/";
                evo(d + "unit", dh, {77}, "glacier", 11, 1, area);
                evo(d + "second-unit", dh, {4, 77}, "glacier", 11, 2, area);
                evo(d + "cover", dh, {4}, "swamp", 11, 1, area);
                evo(d + "no-glacier", dh, {4}, "ground", 11, 1, s.units[0].covers[0].frac * s.units[0].area);
                evo(d + "columns", dh, {4}, "glacier", 11, 0, area);
                evo(d + "columns2", dh, {4, 2}, "glacier", 11, 1, area);
                evo(d + "rows", dh, {4}, "glacier", 0, 1, area);
                evo(d + "area", dh, {4}, "glacier", 11, 1, area * 0.8);
                evo(d + "area-large", dh, {4}, "glacier", 11, 1, 2e6);
                if (s.o.infiniteIce) evo(d + "infinite", dh, {4}, "glacier", 11, 1, area);
            }
        }
        if (ctx.thorough()) {
            // with a second fault elsewhere, which must not hide the first
            std::vector<Fault> second;
            for (auto& f : fs)
                for (std::string n : {"forcing/none", "forcing/no-unit/1", "forcing/unknown-variable", "area/0/1", "cover-unknown/0", "timer/unit", "solver/unknown", "change/unit"})
                    if (f.name == n) second.push_back(f);
            auto both = [](auto a, auto b) {
                if (!a || !b) return a ? a : b;
                return decltype(a)([a, b](auto& x) {
                    if constexpr (std::is_void_v<decltype(a(x))>) a(x), b(x);
                    else return a(x) && b(x);
                });
            };
            size_t single = fs.size();
            for (size_t i = 0; i < single; ++i)
                for (auto& g : second) {
                    Fault f = fs[i];
                    if (f.name == "none" || f.name == g.name || (f.name == "units/none" && g.basin)) continue;
                    f.name += "+" + g.name;
                    f.spec = both(f.spec, g.spec);
                    f.model = both(f.model, g.model);
                    f.basin = both(f.basin, g.basin);
                    f.afterInit = both(f.afterInit, g.afterInit);
                    if (f.dropVar.empty()) f.dropVar = g.dropVar;
                    if (f.extraVar.empty()) f.extraVar = g.extraVar;
                    if (f.dropUnit < 0) f.dropUnit = g.dropUnit;
                    f.noForcing |= g.noForcing;
                    fs.push_back(f);
                }
        }
        std::map<std::string, int> seen;
        for (auto& f : fs) {
            int k = seen[f.name]++;
            ctx.dims["faults"] += ctx.shard == 0 && f.name != "none";
            ctx.run(b.name + "/" + f.name + (k ? fmt("#%d", k) : ""), [&] { checkFault(ctx, w, f); });
        }
    }
}
