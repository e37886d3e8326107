// R01: a run after Reset reproduces the first run, whatever happened before.
// R02: parameters / forcing exchanged on a living model behave as in a freshly built one.
#include "configs.h"

namespace {
// three parameter versions of a configuration; 0 = as declared
void paramVersion(Config& c, int v) {
    if (v == 0) return;
    auto& p = c.spec.o.params;
    const std::string& k = c.spec.o.kind;
    float f = v == 1 ? 1.0f : 2.0f;
    if (c.spec.o.snow && c.spec.o.melt == "melt:degree_day") p.push_back({"type:snowpack", "degree_day_factor", 3.0f * f});
    if (c.spec.o.snow && c.spec.o.splitter == "snow_rain:linear")
        p.push_back({"snow_rain_transition", "transition_end", 2.5f * f});
    if (c.spec.o.retention)
        for (auto& cv : c.spec.units[0].covers) p.push_back({cv.name + "_snowpack", "water_holding_capacity", 0.05f * f});
    if (k == "socont") {
        p.push_back({"slow_reservoir", "capacity", 30.0f * f});
        p.push_back({"slow_reservoir", "response_factor", 0.3f * f});
    } else if (k == "hbv") {
        p.push_back({c.spec.o.soilPerCover ? "forest_soil_moisture" : "soil_moisture", "capacity", 40.0f * f});
        p.push_back({"routing", "maxbas", 1.6f * f});
        p.push_back({"upper_zone", "percolation_rate", 3.0f * f});
    } else if (startsWith(k, "gr")) {
        p.push_back({"production_store", "capacity", 60.0f * f});
        p.push_back({"uh_input", "uh_base_time", 1.1f * f});
        p.push_back({"uh_input", "routing_capacity", 20.0f * f});
        p.push_back({"uh_input", "exchange_factor", -0.5f * f});
    } else if (k == "lake")
        p.push_back({"lake_storage", "response_factor", 0.2f * f});
}
std::vector<int> seqA = {1, 3, 2, 4, 5, 1, 0, 0}, seqB = {3, 1, 1, 4, 2, 0, 5, 3};

void setParams(SettingsModel& sm, const std::vector<ParamSet>& ps) {
    for (auto& p : ps)
        if (!sm.SetParameterValue(p.comp, p.name, p.value)) throw std::runtime_error("harness: " + p.comp + ":" + p.name);
}
Rec fresh(const Config& c0, int pv, int fv, int L, std::string* err) {
    Config c = c0;
    c.spec.steps = L;
    paramVersion(c, pv);
    Sim s(c.spec);
    auto f = unitForcing(c.spec, std::vector<int>((fv ? seqB : seqA).begin(), (fv ? seqB : seqA).begin() + L));
    if (!prepare(s, c, f) || !s.run()) *err = s.error;
    return record(*s.m);
}
}  // namespace

// Histories over {plain re-run, re-run without effect on a finished model, initial values re-declared}
PROPERTY(R01) {
    auto cfgs = richConfigs(ctx.thorough());
    int L = 6;
    // ops: 0 Reset+Run, 1 Run again without Reset (result ignored), 2 double Reset + Run, 3 re-attach the same forcing + Reset + Run
    int depth = ctx.quick() ? 3 : 5;
    std::vector<std::pair<std::string, std::vector<int>>> fseq = {{"a", seqA}, {"b", seqB}, {"c", {1, 1, 1, 4, 4, 4}}, {"d", {3, 3, 4, 1, 0, 4}}, {"e", {3, 1, 5, 1, 0, 0}}};
    auto history = [&](Config& c, const std::vector<int>& base, const std::vector<int>& ops) {
        Sim s(c.spec);
        auto f = unitForcing(c.spec, base);
        if (!prepare(s, c, f) || !s.run()) {
            ctx.fail("rejected", s.error);
            return;
        }
        Rec ref = record(*s.m);
        for (size_t i = 0; i < ops.size(); ++i) {
            ++ctx.transitions;
            if (ops[i] == 1) {
                s.m->Run();
                continue;
            }
            if (ops[i] == 3) {
                s.m->ClearTimeSeries();
                if (!s.forcing(f)) {
                    ctx.fail("rejected", "forcing refused when re-attached: " + s.error);
                    return;
                }
            }
            s.m->Reset();
            if (ops[i] == 2) s.m->Reset();
            if (!s.run()) {
                ctx.fail("rejected", s.error);
                return;
            }
            Rec r = record(*s.m);
            for (int t = 0; t < r.steps; ++t) ctx.state(hashRec(r, t));
            std::string why;
            if (!sameRec(ref, r, 0, &why)) {
                ctx.fail("differs", fmt("run after operation %zu of %s differs from the first run: %s", i + 1,
                                        seqStr(ops).c_str(), why.c_str()));
                return;
            }
        }
        ++ctx.validated;
    };
    for (auto& c0 : cfgs) {
        Config c = c0;
        for (auto& [fn, sq] : fseq) {
            c.spec.steps = L;
            std::vector<int> base(sq.begin(), sq.begin() + L);
            for (int d = 1; d <= depth; ++d)
                sequences(4, d, [&](const std::vector<int>& ops) {
                    ctx.run(c.name + "/" + fn + "/" + seqStr(ops), [&] { history(c, base, ops); });
                });
        }
        // every weather history, one re-run
        int W = ctx.quick() ? 4 : 5;
        c.spec.steps = W;
        sequences(kAlphabet.size(), W, [&](const std::vector<int>& seq) {
            ctx.run(c.name + "/w" + seqStr(seq), [&] { history(c, seq, {0}); });
        });
    }
}

PROPERTY(R02) {
    auto cfgs = richConfigs(ctx.thorough());
    int L = 6;
    int depth = ctx.quick() ? 3 : 4;
    for (auto& c : cfgs) {
        std::map<int, Rec> refs;
        for (int d = 1; d <= depth; ++d)
            sequences(6, d, [&](const std::vector<int>& ops) {
                ctx.run(c.name + "/" + seqStr(ops), [&] {
                    std::string err;
                    if (refs.empty())
                        for (int k = 0; k < 6; ++k) refs[k] = fresh(c, k % 3, k / 3, L, &err);
                    Config b = c;
                    b.spec.steps = L;
                    Sim s(b.spec);
                    int fv = 0;
                    if (!err.empty() || !prepare(s, b, unitForcing(b.spec, std::vector<int>(seqA.begin(), seqA.begin() + L))) ||
                        !s.run()) {
                        ctx.fail("rejected", err + s.error);
                        return;
                    }
                    // parameter values to go back to: read by rebuilding the declared version
                    for (size_t i = 0; i < ops.size(); ++i) {
                        ++ctx.transitions;
                        int pv = ops[i] % 3, nf = ops[i] / 3;
                        Config n = c;
                        paramVersion(n, pv);
                        // a settings object with the new values, as the calibration interface holds
                        n.spec.steps = L;
                        Sim holder(n.spec);
                        s.m->UpdateParameters(*holder.sm);
                        s.sm.swap(holder.sm);  // the model may refer to the parameter storage
                        static std::vector<std::unique_ptr<SettingsModel>> keep;
                        keep.push_back(std::move(holder.sm));
                        if (nf != fv) {
                            s.m->ClearTimeSeries();
                            auto& q = nf ? seqB : seqA;
                            if (!s.forcing(unitForcing(b.spec, std::vector<int>(q.begin(), q.begin() + L)))) {
                                ctx.fail("rejected", s.error);
                                return;
                            }
                            fv = nf;
                        }
                        s.m->Reset();
                        if (!s.run()) {
                            ctx.fail("rejected", s.error);
                            return;
                        }
                        Rec r = record(*s.m);
                        for (int t = 0; t < r.steps; ++t) ctx.state(hashRec(r, t));
                        std::string why;
                        if (!sameRec(refs[ops[i]], r, 0, &why)) {
                            ctx.fail("differs", fmt("after switching to parameters %d and forcing %d (operation %zu) the run differs from a fresh model: %s",
                                                    pv, nf, i + 1, why.c_str()));
                            return;
                        }
                        if (keep.size() > 64) keep.clear();
                    }
                    ++ctx.validated;
                });
            });
    }
}

namespace {
// Rows [from, from+n) of two recordings
bool sameRows(const Rec& a, int fa, const Rec& b, int fb, int n, double tol, std::string* why) {
    for (size_t l = 0; l < a.subLabels.size(); ++l)
        for (int t = 0; t < n; ++t)
            if (!close(a.sub[l][fa + t], b.sub[l][fb + t], tol, tol)) {
                *why = fmt("%s at step %d: %.10g / %.10g", a.subLabels[l].c_str(), t + 1, a.sub[l][fa + t], b.sub[l][fb + t]);
                return false;
            }
    for (auto [la, va, vb] : {std::tuple(&a.huLabels, &a.hu, &b.hu), std::tuple(&a.frLabels, &a.fr, &b.fr)})
        for (size_t l = 0; l < la->size(); ++l)
            for (int t = 0; t < n; ++t)
                for (int k = 0; k < (*va)[l].cols(); ++k) {
                    double x = (*va)[l](fa + t, k), y = (*vb)[l](fb + t, k);
                    if (!(std::isnan(x) && std::isnan(y)) && !close(x, y, tol, tol)) {
                        *why = fmt("%s, unit %d at step %d: %.10g / %.10g", (*la)[l].c_str(), k + 1, t + 1, x, y);
                        return false;
                    }
                }
    return true;
}
double totalStorage(const ModelHydro& m) { return m.GetTotalWaterStorageChanges() + m.GetTotalSnowStorageChanges() + m.GetTotalGlacierStorageChanges(); }
}  // namespace

// R03: a spin-up and a saved initial state continue the simulation of the same weather.
PROPERTY(R03) {
    auto cfgs = richConfigs(ctx.thorough());
    int L = 6;
    std::vector<std::pair<std::string, std::vector<int>>> fseq = {{"a", seqA}, {"b", seqB}, {"c", {1, 1, 1, 4, 4, 4}}, {"d", {3, 3, 4, 1, 0, 4}}, {"e", {3, 1, 5, 1, 0, 0}}};
    using F = std::vector<std::vector<Sym>>;
    auto cat = [](const F& a, int n, const F& b) {
        F r;
        for (size_t u = 0; u < a.size(); ++u) {
            r.push_back({a[u].begin(), a[u].begin() + n});
            r.back().insert(r.back().end(), b[u].begin(), b[u].end());
        }
        return r;
    };
    // the same weather, started n steps earlier
    auto early = [&](const Config& c, int n, const F& f, Rec& r, Sim*& keep) {
        Config e = c;
        e.spec.spinup = 0;
        e.actionStart = startMjd(c.spec);
        e.spec.start = dateStr(startMjd(c.spec) - n * stepDays(c.spec), c.spec.unit != "day");
        e.spec.steps = c.spec.steps + n;
        keep = new Sim(e.spec);
        if (!prepare(*keep, e, f) || !keep->run()) {
            ctx.fail("rejected", keep->error);
            return false;
        }
        r = record(*keep->m);
        return true;
    };
    auto spin = [&](Config c, int days, const std::vector<int>& seq) {
        c.spec.spinup = days;
        int n = std::min((int)std::floor(days / stepDays(c.spec) + 1e-9), c.spec.steps);
        auto f = unitForcing(c.spec, seq);
        Sim s(c.spec);
        if (!prepare(s, c, f) || !s.run()) {
            ctx.fail("rejected", s.error);
            return;
        }
        Rec a = record(*s.m), b;
        Sim* k = nullptr;
        if (!early(c, n, cat(f, n, f), b, k)) return;
        std::unique_ptr<Sim> hold(k);
        std::string why;
        for (int t = 0; t < a.steps; ++t) ctx.state(hashRec(a, t)), ++ctx.transitions;
        if (!sameRows(a, 0, b, n, a.steps, 1e-11, &why)) {
            ctx.fail("spin-up", fmt("a spin-up of %d days differs from starting %d steps earlier with the same weather: %s", days, n, why.c_str()));
            return;
        }
        double q = a.subv("outlet")->sum();
        if (!close(s.m->GetTotalOutletDischarge(), q)) {
            ctx.fail("totals", fmt("total discharge %.9g after a spin-up, the simulated period has %.9g", s.m->GetTotalOutletDischarge(), q));
            return;
        }
        ++ctx.validated;
    };
    // run, save, (reset, run) x times: every later run continues the first one
    auto save = [&](Config c, const std::vector<int>& seq, const std::vector<int>& next, int times) {
        c.spec.spinup = 0;
        auto f = unitForcing(c.spec, seq), g = unitForcing(c.spec, next);
        Sim s(c.spec);
        Config before = c;
        before.actions.clear();
        if (!prepare(s, before, f) || !s.run() || !addActions(s, c)) {
            ctx.fail("rejected", s.error);
            return;
        }
        s.m->SaveAsInitialState();
        Rec b;
        Sim* k = nullptr;
        if (!early(c, c.spec.steps, cat(f, c.spec.steps, g), b, k)) return;
        std::unique_ptr<Sim> hold(k);
        s.m->ClearTimeSeries();
        if (!s.forcing(g)) {
            ctx.fail("rejected", s.error);
            return;
        }
        for (int i = 0; i < times; ++i) {
            s.m->Reset();
            if (!s.run()) {
                ctx.fail("rejected", s.error);
                return;
            }
            Rec a = record(*s.m);
            for (int t = 0; t < a.steps; ++t) ctx.state(hashRec(a, t)), ++ctx.transitions;
            std::string why;
            if (!sameRows(a, 0, b, c.spec.steps, a.steps, 1e-11, &why)) {
                ctx.fail("saved state", fmt("run %d from the saved state differs from the continued simulation: %s", i + 1, why.c_str()));
                return;
            }
        }
        ++ctx.validated;
    };
    for (auto& c0 : cfgs) {
        Config c = c0;
        c.spec.spinup = 0;
        if (c0.spec.spinup) continue;
        c.spec.steps = L;
        for (auto& [fn, sq] : fseq)
            for (int days : {1, 2, 4, 6, 9}) {
                std::vector<int> base(sq.begin(), sq.begin() + L);
                ctx.run(c.name + "/spin" + std::to_string(days) + "/" + fn, [&] { spin(c, days, base); });
            }
        c.spec.steps = ctx.quick() ? 3 : 4;
        if (!c.actions.empty()) c.spec.steps = 4;
        if (c.actions.empty() || (c.actions.size() == 1 && (c.actions[0] == "lc" || c.actions[0] == "lz")))
            for (size_t j = 0; j < fseq.size(); ++j)
                sequences(kAlphabet.size(), c.spec.steps, [&](const std::vector<int>& q) {
                    if (ctx.quick() && j > 1) return;
                    std::vector<int> next(fseq[j].second.begin(), fseq[j].second.begin() + c.spec.steps);
                    ctx.run(c.name + "/save" + seqStr(q) + "/" + fseq[j].first, [&] { save(c, q, next, 2); });
                });
        sequences(kAlphabet.size(), c.spec.steps, [&](const std::vector<int>& q) {
            ctx.run(c.name + "/spinw" + seqStr(q), [&] { spin(c, 2, q); });
        });
    }
}

// R04: two models living in the same program do not influence each other.
PROPERTY(R04) {
    auto cfgs = richConfigs(ctx.thorough());
    const int L = 5, OPS = 5;  // build, forcing, run, reset and run, destroy
    std::vector<std::vector<int>> orders;
    sequences(2, 2 * OPS, [&](const std::vector<int>& q) {
        if (std::count(q.begin(), q.end(), 0) == OPS) orders.push_back(q);
    });
    auto seq = [&](int v) { return std::vector<int>((v ? seqB : seqA).begin(), (v ? seqB : seqA).begin() + L); };
    auto pair = [&](const Config& a, const Config& b, const std::vector<int>& order) {
        const Config* c[2] = {&a, &b};
        static std::map<std::string, Rec> solo;  // results of each model alone in the program
        Rec ref[2];
        for (int i = 0; i < 2; ++i) {
            std::string key = c[i]->name + "#" + std::to_string(i);
            if (!solo.count(key)) {
                if (solo.size() > 16) solo.clear();
                Sim s(c[i]->spec);
                if (!prepare(s, *c[i], unitForcing(c[i]->spec, seq(i))) || !s.run()) {
                    ctx.fail("rejected", s.error);
                    return;
                }
                solo[key] = record(*s.m);
            }
            ref[i] = solo[key];
        }
        std::unique_ptr<Sim> s[2];
        int done[2] = {0, 0};
        for (int i : order) {
            ++ctx.transitions;
            bool ok = true;
            switch (done[i]++) {
                case 0: s[i] = std::make_unique<Sim>(c[i]->spec); break;
                case 1: ok = prepare(*s[i], *c[i], unitForcing(c[i]->spec, seq(i))); break;
                case 3: s[i]->m->Reset(); [[fallthrough]];
                case 2: {
                    ok = s[i]->run();
                    if (!ok) break;
                    Rec r = record(*s[i]->m);
                    std::string why;
                    for (int t = 0; t < r.steps; ++t) ctx.state(hashRec(r, t));
                    if (!sameRec(ref[i], r, 0, &why)) {
                        ctx.fail("interference", fmt("%s next to %s (order %s): %s", c[i]->name.c_str(), c[1 - i]->name.c_str(), seqStr(order).c_str(), why.c_str()));
                        return;
                    }
                    break;
                }
                case 4: s[i].reset(); break;
            }
            if (!ok) {
                ctx.fail("rejected", s[i]->error);
                return;
            }
        }
        ++ctx.validated;
    };
    for (size_t i = 0; i < cfgs.size(); ++i) {
        for (size_t j : {i, (i + 1) % cfgs.size(), (i + cfgs.size() / 2) % cfgs.size()}) {
            Config a = cfgs[i], b = cfgs[j];
            a.spec.steps = b.spec.steps = L;
            if (j == i) {  // same structure, other parameters
                paramVersion(b, 1);
                b.name += "*";
            }
            ctx.dims["pairs"] += ctx.shard == 0;
            for (auto& o : orders) ctx.run(a.name + "+" + b.name + "/" + seqStr(o), [&] { pair(a, b, o); });
        }
    }
}
