// C03: the calls of a model come in any order.
#include <unistd.h>

#include <filesystem>

#include "ActionLandCoverChange.h"
#include "configs.h"

namespace {
// The operations of a session.
enum Op { Init, BadInit, Series, Attach, Clear, Run, Reset, Save, Update, Change, BadChange, Look, Dump, OPS };
const char* kOps = "iftacrzsuxygd";

// What the calls so far amount to.
struct Session {
    bool init = false, broken = false, series = false, attached = false, started = false, spoilt = false, change = false;
    int version = 0;                    // of the parameters
    std::string saved, current;         // how the states came about: one letter per run since the fresh model
};
struct Case {
    std::string name;
    Config c;
    std::vector<std::vector<Sym>> f;
    int after = 0;  // rows of forcing beyond the end
    ParamSet param;
    std::string cover;
    double area;
};
struct Model {
    const Case& k;
    std::vector<std::unique_ptr<Sim>> kept;
    Sim s;
    explicit Model(const Case& k) : k(k), s(k.c.spec) {}
    bool series() {
        const Spec& sp = k.c.spec;
        int nu = sp.units.size(), rows = sp.steps + k.after;
        axd time(rows);
        for (int i = 0; i < rows; ++i) time[i] = startMjd(sp) + i * stepDays(sp);
        bool any = false, all = true;
        for (std::string v : {"precipitation", "temperature", "pet"}) {
            axi ids(nu);
            axxd x(rows, nu);
            for (int u = 0; u < nu; ++u) {
                ids[u] = sp.units[u].id;
                for (int i = 0; i < rows; ++i) {
                    auto& y = k.f[u][i % k.f[u].size()];
                    x(i, u) = v == "precipitation" ? y.p : v == "temperature" ? y.t : y.e;
                }
            }
            bool ok = s.m->CreateTimeSeries(v, time, ids, x);
            any |= ok;
            all &= ok;
        }
        if (any != all) throw std::runtime_error("part of the series was accepted");
        return all;
    }
    void update(int version) {
        if (!s.sm->SetParameterValue(k.param.comp, k.param.name, k.param.value * (1 + version)))
            throw std::runtime_error("harness: parameter " + k.param.name);
        s.m->UpdateParameters(*s.sm);
    }
    bool change(bool bad) {
        auto a = std::make_shared<ActionLandCoverChange>();
        a->AddChange(startMjd(k.c.spec) + stepDays(k.c.spec), k.c.spec.units[0].id, bad ? "swamp" : k.cover, k.area);
        s.actions.push_back(a);
        return s.m->AddAction(a.get());
    }
};
struct Result {
    Rec rec;
    std::vector<double> totals;
};
std::vector<double> totals(ModelHydro& m) {
    return {m.GetTotalOutletDischarge(), m.GetTotalET(), m.GetTotalWaterStorageChanges(), m.GetTotalSnowStorageChanges(), m.GetTotalGlacierStorageChanges()};
}
// The straight session that gives the same history: (change, version) per run, states saved in between.
Result straight(const Case& k, const std::string& history) {
    Model m(k);
    if (!m.s.init() || !m.series() || !m.s.m->AttachTimeSeriesToHydroUnits()) throw std::runtime_error("harness: refused: " + m.s.error);
    bool changed = false;
    int version = 0;
    for (size_t i = 0; i < history.size(); ++i) {
        int v = (history[i] - 'a') % 2, x = (history[i] - 'a') / 2;
        if (v != version) m.update(version = v);
        if (x && !changed) {
            if (!m.change(false)) throw std::runtime_error("harness: action refused");
            changed = true;
        }
        auto r = m.s.m->Run();
        if (!r) throw std::runtime_error("harness: run refused: " + r.error());
        if (i + 1 == history.size()) break;
        m.s.m->SaveAsInitialState();
        m.s.m->Reset();
    }
    return {record(*m.s.m), totals(*m.s.m)};
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void session(Ctx& ctx, const Case& k, const std::vector<int>& ops, std::map<std::string, Result>& refs) {
    Model m(k);
    ModelHydro& h = *m.s.m;
    Session st;
    std::string last;  // history of the last finished run, whose results are on record
    for (size_t i = 0; i < ops.size(); ++i) {
        ++ctx.transitions;
        std::string where = fmt("call %zu (%c)", i + 1, kOps[ops[i]]);
        auto bad = [&](const std::string& key, const std::string& msg) { ctx.fail(key, where + ": " + msg); };
        // a call either succeeds, reports failure or throws
        bool ok = false;
        std::string err;
        auto call = [&](auto f) {
            try {
                ok = f();
            } catch (const std::exception& e) {
                err = e.what();
                if (startsWith(err, "harness") || startsWith(err, "part of")) throw;
            }
        };
        switch (ops[i]) {
            case Init:
                call([&] { return h.InitializeWithBasin(*m.s.sm, *m.s.sb).has_value(); });
                if (!st.init && !st.broken && !ok) return bad("refused", "a faultless set-up is refused: " + err);
                if (ok && st.init) return bad("twice", "a second initialization was accepted");
                if (ok) st.init = true, st.attached = false;
                break;
            case BadInit: {
                Spec x = k.c.spec;
                x.units[0].covers[0].frac += 0.3;
                m.kept.push_back(std::make_unique<Sim>(x));
                Sim& y = *m.kept.back();  // the model refers to the settings
                call([&] { return h.InitializeWithBasin(*y.sm, *y.sb).has_value(); });
                if (ok) return bad("faulty", "a faulty set-up is accepted");
                if (!st.init) st.broken = true;
                break;
            }
            case Series:
                call([&] { return m.series(); });
                // after a failed set-up, and before a complete one, only a run is out of the question
                if ((st.init || !st.broken) && ok != (st.init && !st.series)) return bad("series", ok ? "the series were accepted" : "the series were refused");
                if (ok) st.series = true;
                break;
            case Attach:
                call([&] { return h.AttachTimeSeriesToHydroUnits(); });
                if (ok && !st.init && !st.broken) return bad("attach", "nothing to attach to");
                if (!ok && st.init) return bad("attach", "refused");
                if (st.series) st.attached = true;
                break;
            case Clear:
                call([&] { return h.ClearTimeSeries(), true; });
                st.series = st.attached = false;
                break;
            case Run: {
                call([&] {
                    auto r = h.Run();
                    if (!r) err = r.error();
                    return r.has_value();
                });
                bool must = st.init && st.attached && !st.started && !st.spoilt;
                if (ok && !must) return bad("run", "the run was accepted");
                if (!ok && must) return bad("run", "the run was refused: " + err);
                if (ok) {
                    st.current += 'a' + st.version + 2 * st.change;
                    st.started = true;
                    last = st.current;
                } else if (st.init && st.attached && st.spoilt && !st.started) {
                    st.started = true;
                    last = "-";
                }
                break;
            }
            case Reset:
                call([&] { return h.Reset(), true; });
                st.current = st.saved;
                st.started = false;
                break;
            case Save:
                call([&] { return h.SaveAsInitialState(), true; });
                if (st.init) st.saved = st.current;
                break;
            case Update:
                st.version = 1 - st.version;
                call([&] { return m.update(st.version), true; });
                if (st.init && !ok) return bad("update", "refused: " + err);
                break;
            case Change:
            case BadChange:
                call([&] { return m.change(ops[i] == BadChange); });
                if (!ok && st.init) return bad("action", "refused: " + err);
                if (ok) (ops[i] == Change ? st.change : st.spoilt) = true;
                break;
            case Look:
                call([&] {
                    h.IsValid();
                    h.ForcingLoaded();
                    h.GetActionCount();
                    h.GetSporadicActionItemCount();
                    h.GetRecordedHydroUnitLabels();
                    h.GetRecordedHydroUnitFractionLabels();
                    h.GetHydroUnitIds();
                    h.GetHydroUnitAreas();
                    return true;
                });
                call([&] { return h.GetOutletDischarge().size() > 0; });
                call([&] { return totals(h).size() > 0; });
                call([&] { return h.GetHydroUnitValues("ground:water_content").size() > 0; });
                call([&] { return h.GetHydroUnitFractions("ground").size() > 0; });
                break;
            case Dump: {
                const char* e = getenv("HB_SCRATCH");
                std::string dir = std::string(e ? e : "/tmp") + fmt("/c03-%d", (int)getpid());
                std::filesystem::create_directories(dir);
                call([&] { return h.DumpOutputs(dir); });
                std::filesystem::remove_all(dir);
                if (!ok && st.init && !last.empty()) return bad("dump", "refused: " + err);
                break;
            }
        }
        // the results of the last run stay what they are until the next one
        // (a prefix shared by several sequences is compared in the first of them)
        bool first = std::all_of(ops.begin() + i + 1, ops.end(), [](int o) { return o == 0; });
        if (first && !last.empty() && last != "-") {
            auto it = refs.find(last);
            if (it == refs.end()) it = refs.emplace(last, straight(k, last)).first;
            Rec r = record(h);
            std::string why;
            if (!sameRec(it->second.rec, r, 0, &why)) return bad("results", "history " + last + " differs from the straight session: " + why);
            auto t = totals(h);
            for (size_t q = 0; q < t.size(); ++q)
                if (!same(t[q], it->second.totals[q]))
                    return bad("totals", fmt("history %s: total %zu is %.17g instead of %.17g", last.c_str(), q, t[q], it->second.totals[q]));
        }
        Hasher hs;
        hs.s(k.name + "|" + st.saved + "|" + st.current + "|" + last);
        hs.s(fmt("%d%d%d%d%d%d%d%d", st.init, st.broken, st.series, st.attached, st.started, st.spoilt, st.change, st.version));
        ctx.state(hs.h);
    }
    ++ctx.validated;
}
}  // namespace

PROPERTY(C03) {
    std::vector<Case> cases;
    auto add = [&](const std::string& name, const std::string& kind, const std::string& cov, const std::string& sn, ParamSet p, auto tweak) {
        Case k;
        k.name = name;
        Spec& s = k.c.spec;
        s.o.kind = kind;
        snowOption(s.o, sn);
        s.units = {{4, 1e6, 1000, coverSet(cov), 12}, {2, 2e6, 1700, coverSet(cov), 25}};
        for (auto& u : s.units) u.aspect = "north";
        s.steps = 3;
        k.param = p;
        k.cover = s.units[0].covers.back().name;
        k.area = 1e5;
        tweak(k);
        k.c.name = name;
        k.f = unitForcing(s, {1, 3, 4});
        cases.push_back(k);
    };
    ParamSet ddf{"type:snowpack", "degree_day_factor", 3};
    add("socont", "socont", "GI", "dd", ddf, [](Case&) {});
    add("hbv-spinup", "hbv", "GF", "dd", ddf, [](Case& k) { k.c.spec.spinup = 2; });
    add("bucket-longer", "bucket", "GF", "dd", ddf, [](Case& k) { k.after = 2; });
    auto depth = [&](size_t prefix) { return ctx.quick() && prefix % 2 ? 3 : 4; };
    // from the start, and after each stage of a straight session
    std::vector<std::vector<int>> prefixes = {{}, {Init, Series, Attach}, {Init, Series, Attach, Run}, {Init, Series, Attach, Run, Save, Reset}};
    for (auto& k : cases) {
        auto refs = std::make_shared<std::map<std::string, Result>>();
        for (size_t p = 0; p < prefixes.size(); ++p)
            sequences(OPS, depth(p), [&](const std::vector<int>& tail) {
                auto ops = prefixes[p];
                ops.insert(ops.end(), tail.begin(), tail.end());
                std::string n;
                for (int o : ops) n += kOps[o];
                ctx.run(k.name + "/" + std::to_string(p) + "/" + n, [&] { session(ctx, k, ops, *refs); });
            });
    }
}
