// O01: what is recorded does not change the run.  O02: the results file holds exactly the recorded run.
#include <netcdf.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>

#include "balance.h"
#include "configs.h"

namespace {
namespace fs = std::filesystem;

struct OutCase {
    Config c;
    std::vector<std::vector<std::string>> variants;  // covers of every structure variant (empty: one structure)
};

std::unique_ptr<Sim> makeSim(const OutCase& k, bool logAll, bool fractions) {
    Spec s = k.c.spec;
    s.logAll = logAll;
    s.fractions = fractions;
    if (k.variants.empty()) return std::make_unique<Sim>(s);
    auto sim = std::make_unique<Sim>(s, false);
    auto universe = coverUnion(s.units);
    for (size_t i = 0; i < k.variants.size(); ++i) {
        if (i) sim->sm->AddStructure();
        std::vector<Cover> cov;
        for (auto& c : universe)
            if (std::find(k.variants[i].begin(), k.variants[i].end(), c.name) != k.variants[i].end()) cov.push_back(c);
        Opts o = s.o;
        o.params.clear();
        o.glacierStores = true;
        buildStructure(*sim->sm, o, cov);
    }
    for (auto& p : s.o.params)
        if (!sim->sm->SetParameterValue(p.comp, p.name, p.value)) throw std::runtime_error("harness: cannot set " + p.comp + ":" + p.name);
    return sim;
}
// Asks for one item to be recorded, in every structure that has it.
bool request(SettingsModel& sm, const std::string& label) {
    size_t a = label.find(':');
    if (a == std::string::npos) return label == "outlet";  // always requested by the harness
    std::string brick = label.substr(0, a), rest = label.substr(a + 1);
    size_t b = rest.find(':');
    bool found = false;
    for (int i = 1; i <= sm.GetStructureCount(); ++i) {
        sm.SelectStructure(i);
        if (sm.SelectHydroUnitSplitterIfFound(brick)) {
            sm.AddSplitterLogging(rest);
            found = true;
            continue;
        }
        if (!sm.SelectHydroUnitBrickIfFound(brick) && !sm.SelectSubBasinBrickIfFound(brick)) continue;
        if (b == std::string::npos) sm.AddBrickLogging(rest);
        else {
            sm.SelectProcess(rest.substr(0, b));
            sm.AddProcessLogging(rest.substr(b + 1));
        }
        found = true;
    }
    sm.SelectStructure(1);
    return found;
}
bool execute(Ctx& ctx, Sim& sim, const Config& c, const std::vector<int>& seq) {
    auto f = unitForcing(c.spec, seq);
    if (!prepare(sim, c, f) || !sim.run()) {
        ctx.fail("rejected", sim.error);
        return false;
    }
    return true;
}
bool bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)) || a == b; }
bool bitsArr(const double* a, const double* b, size_t n, size_t* at) {
    for (*at = 0; *at < n; ++*at)
        if (!bits(a[*at], b[*at])) return false;
    return true;
}
const std::vector<std::string> kSplit = {"snow_rain_transition:rain", "snow_rain_transition:snow", "rain_splitter:rain"};
std::vector<std::string> splitterItems(const Spec& s) {
    if (s.o.snow) return {kSplit[0], kSplit[1]};
    return {};
}

// Everything in `b` is the same in `a`.
void compareSubset(Ctx& ctx, const Rec& a, const Rec& b, std::vector<std::string> wanted, bool fractions) {
    std::vector<std::string> got = b.huLabels;
    got.insert(got.end(), b.subLabels.begin(), b.subLabels.end());
    wanted.push_back("outlet");
    auto sorted = [](std::vector<std::string> v) {
        std::sort(v.begin(), v.end());
        return v;
    };
    if (sorted(got) != sorted(wanted)) {
        std::string w, g;
        for (auto& x : wanted) w += x + " ";
        for (auto& x : got) g += x + " ";
        return ctx.fail("items", "requested " + w + "; recorded " + g);
    }
    if (b.steps != a.steps) return ctx.fail("items", fmt("%d steps recorded instead of %d", b.steps, a.steps));
    size_t at;
    if (!bitsArr(a.time.data(), b.time.data(), a.steps, &at)) return ctx.fail("changed", fmt("date of step %zu", at + 1));
    for (size_t i = 0; i < b.subLabels.size(); ++i) {
        const axd* x = a.subv(b.subLabels[i]);
        if (!x || x->size() != b.sub[i].size() || !bitsArr(x->data(), b.sub[i].data(), a.steps, &at))
            return ctx.fail("changed", fmt("%s at step %zu: %.17g alone, %.17g with everything recorded", b.subLabels[i].c_str(), at + 1, b.sub[i][at], x ? (*x)[at] : NAN));
    }
    for (size_t i = 0; i < b.huLabels.size(); ++i) {
        const axxd* x = a.huv(b.huLabels[i]);
        if (!x || x->size() != b.hu[i].size() || !bitsArr(x->data(), b.hu[i].data(), x->size(), &at))
            return ctx.fail("changed", fmt("%s, value %zu: %.17g alone, %.17g with everything recorded", b.huLabels[i].c_str(), at, b.hu[i].data()[at], x ? x->data()[at] : NAN));
    }
    if (fractions ? sorted(a.frLabels) != sorted(b.frLabels) : !b.frLabels.empty()) return ctx.fail("items", "cover extents recorded or not against the request");
    for (size_t i = 0; i < b.frLabels.size(); ++i)
        if (!bitsArr(a.frv(b.frLabels[i])->data(), b.fr[i].data(), b.fr[i].size(), &at)) return ctx.fail("changed", "extent of " + b.frLabels[i]);
}

std::vector<OutCase> outCases(bool thorough) {
    std::vector<OutCase> r;
    for (auto& c : richConfigs(thorough)) {
        OutCase k;
        k.c = c;
        r.push_back(k);
    }
    // basin stores with names that contain the name of the discharge
    for (std::string name : {"outlet", "near_outlet"}) {
        OutCase k;
        k.c = r[0].c;
        k.c.spec.o.kind = "socont";
        k.c.spec.o.basinStore = name;
        k.c.spec.units = {Unit{4, 1e6, 1000, coverSet("GI"), 12}, Unit{2, 2.5e6, 1800, coverSet("GI"), 20}};
        k.c.name = "names/" + name;
        r.push_back(k);
    }
    // units that follow different structure variants, so some items do not exist everywhere
    for (std::string kind : {"socont", "hbv"})
        for (std::string sn : {"dd", "all", "wrr"}) {
            OutCase k;
            k.c.spec.o.kind = kind;
            snowOption(k.c.spec.o, sn);
            auto all3 = coverSet("GFI");
            auto some = [&](int mask) {
                auto v = all3;
                double sum = 0;
                for (int i = 0; i < 3; ++i) sum += mask >> i & 1 ? v[i].frac : 0;
                for (int i = 0; i < 3; ++i) v[i].frac = mask >> i & 1 ? v[i].frac / sum : 0;
                return v;
            };
            k.c.spec.units = {Unit{4, 1e6, 1000, some(3), 12}, Unit{2, 2.5e6, 1800, some(7), 20}, Unit{9, 0.7e6, 900, some(1), 5}};
            k.variants = {{"ground", "forest"}, {"ground", "forest", "glacier"}};
            paramOption(k.c.spec, "tight");
            k.c.name = "variants/" + kind + "/" + sn;
            r.push_back(k);
        }
    return r;
}
}  // namespace

PROPERTY(O01) {
    int K = kAlphabet.size();
    for (auto& k : outCases(ctx.thorough())) {
        Config c = k.c;
        c.spec.steps = 4;
        OutCase kc = k;
        kc.c = c;
        ctx.dims["configurations"] += ctx.shard == 0;
        // names of everything that can be recorded
        std::vector<std::string> items;
        {
            auto sim = makeSim(kc, true, true);
            items = sim->sm->GetHydroUnitLogLabels();
            for (auto& l : sim->sm->GetSubBasinLogLabels())
                if (l != "outlet") items.push_back(l);
            for (auto& l : splitterItems(c.spec)) items.push_back(l);
        }
        auto full = [&ctx, kc, items](const std::vector<int>& seq, Rec* r, double tot[5]) {
            auto sim = makeSim(kc, true, true);
            for (auto& l : splitterItems(kc.c.spec)) request(*sim->sm, l);
            if (!execute(ctx, *sim, kc.c, seq)) return false;
            *r = record(*sim->m);
            double t[5] = {sim->m->GetTotalOutletDischarge(), sim->m->GetTotalET(), sim->m->GetTotalWaterStorageChanges(), sim->m->GetTotalSnowStorageChanges(), sim->m->GetTotalGlacierStorageChanges()};
            std::copy(t, t + 5, tot);
            return true;
        };
        auto one = [&ctx, kc](const std::vector<int>& seq, const Rec& a, const double* tot, const std::vector<std::string>& wanted, bool fractions, bool complete) {
            auto sim = makeSim(kc, false, fractions);
            for (auto& l : wanted)
                if (!request(*sim->sm, l)) return ctx.fail("items", l + " cannot be requested");
            if (!execute(ctx, *sim, kc.c, seq)) return;
            Rec b = record(*sim->m);
            for (int t = 0; t < b.steps; ++t) {
                ++ctx.transitions;
                ctx.state(hashRec(a, t));
            }
            compareSubset(ctx, a, b, wanted, fractions);
            if (!bits(sim->m->GetTotalOutletDischarge(), tot[0])) ctx.fail("totals", fmt("total discharge %.17g, %.17g with everything recorded", sim->m->GetTotalOutletDischarge(), tot[0]));
            if (complete && fractions) {
                double t[4] = {sim->m->GetTotalET(), sim->m->GetTotalWaterStorageChanges(), sim->m->GetTotalSnowStorageChanges(), sim->m->GetTotalGlacierStorageChanges()};
                for (int i = 0; i < 4; ++i)
                    if (!close(t[i], tot[i + 1], 1e-12, 1e-12)) ctx.fail("totals", fmt("total %d: %.17g, %.17g with everything recorded", i, t[i], tot[i + 1]));
            }
            ++ctx.validated;
        };
        // 1. every history, the whole set of items requested one by one, nothing, and the partition of the precipitation
        std::string base = c.name;
        sequences(K, ctx.quick() ? 2 : 3, [&](const std::vector<int>& q) {
            std::vector<int> seq = q;
            while ((int)seq.size() < 4) seq.push_back(q[seq.size() % q.size()] == 3 ? 1 : (q[seq.size() % q.size()] + 2) % K);
            ctx.run(base + "/whole/" + seqStr(q), [&] {
                Rec a;
                double tot[5];
                if (!full(seq, &a, tot)) return;
                if (getenv("HB_DUMP")) dumpRec(a);
                if (kc.c.spec.o.snow) {
                    auto f = unitForcing(kc.c.spec, seq);
                    const axxd *rain = a.huv(kSplit[0]), *snow = a.huv(kSplit[1]);
                    for (int t = 0; t < a.steps; ++t)
                        for (int u = 0; u < rain->cols(); ++u) {
                            double in = corrected(kc.c.spec, f[u][t]);
                            if (!close((*rain)(t, u) + (*snow)(t, u), in, 1e-9, 1e-9))
                                return ctx.fail("partition", fmt("rain %.10g + snow %.10g recorded for a precipitation of %.10g", (*rain)(t, u), (*snow)(t, u), in));
                        }
                }
                auto rev = items;
                std::reverse(rev.begin(), rev.end());
                one(seq, a, tot, items, true, true);
                one(seq, a, tot, rev, true, true);
                one(seq, a, tot, items, false, false);
                one(seq, a, tot, {}, true, false);
                one(seq, a, tot, {}, false, false);
            });
        });
        // 2. every item alone, every pair with one common item, every subset of some items
        for (std::vector<int> seq : {std::vector<int>{1, 3, 5, 4}, std::vector<int>{3, 4, 1, 5}}) {
            std::string h = seqStr(seq);
            for (size_t i = 0; i < items.size(); ++i)
                ctx.run(base + "/single/" + h + "/" + items[i], [&] {
                    Rec a;
                    double tot[5];
                    if (!full(seq, &a, tot)) return;
                    one(seq, a, tot, {items[i]}, true, false);
                    one(seq, a, tot, {items[i]}, false, false);
                    auto twice = items;
                    twice.erase(twice.begin() + i);
                    one(seq, a, tot, twice, true, false);
                });
            std::vector<std::string> some;
            size_t n = std::min<size_t>(items.size(), ctx.quick() ? 6 : 9);
            for (size_t i = 0; i < n; ++i) some.push_back(items[(i * items.size() + i) / n % items.size()]);
            std::sort(some.begin(), some.end());
            some.erase(std::unique(some.begin(), some.end()), some.end());
            for (int m = 0; m < 1 << some.size(); m += 8)
                ctx.run(base + "/subset/" + h + fmt("/%d", m), [&] {
                    Rec a;
                    double tot[5];
                    if (!full(seq, &a, tot)) return;
                    for (int x = m; x < std::min(m + 8, 1 << (int)some.size()); ++x) {
                        std::vector<std::string> w;
                        for (size_t i = 0; i < some.size(); ++i)
                            if (x >> i & 1) w.push_back(some[i]);
                        one(seq, a, tot, w, x % 2, false);
                    }
                });
        }
    }
}

namespace {
struct Scratch {
    std::string dir;
    Scratch() {
        const char* base = getenv("HB_SCRATCH");
        dir = std::string(base ? base : "/tmp") + "/hbout.XXXXXX";
        if (!mkdtemp(dir.data())) throw std::runtime_error("harness: no scratch directory");
    }
    ~Scratch() {
        std::error_code e;
        fs::remove_all(dir, e);
    }
};
void nc(int status, const char* what) {
    if (status != NC_NOERR) throw std::runtime_error(std::string("results file: ") + what + ": " + nc_strerror(status));
}
struct File {
    int id = -1;
    explicit File(const std::string& p) { nc(nc_open(p.c_str(), NC_NOWRITE, &id), "open"); }
    ~File() { nc_close(id); }
    // -1 if the dimension does not exist
    long dim(const char* n) {
        int d;
        size_t l;
        if (nc_inq_dimid(id, n, &d) != NC_NOERR) return -1;
        nc(nc_inq_dimlen(id, d, &l), n);
        return l;
    }
    bool var(const char* n, int* v) { return nc_inq_varid(id, n, v) == NC_NOERR; }
    std::string dims(const char* n) {
        int v, nd, ids[8];
        if (!var(n, &v)) return "missing";
        nc(nc_inq_varndims(id, v, &nd), n);
        nc(nc_inq_vardimid(id, v, ids), n);
        std::string r;
        for (int i = 0; i < nd; ++i) {
            char b[NC_MAX_NAME + 1];
            nc(nc_inq_dimname(id, ids[i], b), n);
            r += (i ? "," : "") + std::string(b);
        }
        return r;
    }
    std::vector<double> values(const char* n, size_t size) {
        int v;
        if (!var(n, &v)) throw std::runtime_error(std::string("results file: no variable ") + n);
        std::vector<double> r(size);
        if (size) nc(nc_get_var_double(id, v, r.data()), n);
        return r;
    }
    std::vector<std::string> strings(const char* n) {
        size_t len;
        if (nc_inq_attlen(id, NC_GLOBAL, n, &len) != NC_NOERR) return {"missing"};
        std::vector<char*> p(len + 1, nullptr);
        if (len) nc(nc_get_att_string(id, NC_GLOBAL, n, p.data()), n);
        std::vector<std::string> r;
        for (size_t i = 0; i < len; ++i) r.push_back(p[i]);
        if (len) nc_free_string(len, p.data());
        return r;
    }
    std::string text(const char* var, const char* att) {
        int v;
        size_t len;
        if (!this->var(var, &v) || nc_inq_attlen(id, v, att, &len) != NC_NOERR) return "missing";
        std::string s(len, ' ');
        nc(nc_get_att_text(id, v, att, s.data()), att);
        return s;
    }
};

void compareFile(Ctx& ctx, const std::string& path, const Rec& r, const std::vector<int>& structures) {
    File f(path);
    auto dimIs = [&](const char* n, long v) {
        long g = f.dim(n);
        if (g != v) ctx.fail("file", fmt("%s has length %ld instead of %ld", n, g, v));
        return g == v;
    };
    long T = r.steps, U = r.ids.size(), A = r.subLabels.size(), D = r.huLabels.size(), F = r.frLabels.size();
    if (!dimIs("time", T) || !dimIs("hydro_units", U) || !dimIs("aggregated_values", A) || !dimIs("distributed_values", D)) return;
    if (!dimIs("land_covers", F ? F : -1)) return;
    auto shape = [&](const char* v, const std::string& want) {
        if (f.dims(v) != want) ctx.fail("file", fmt("%s is laid out over %s", v, f.dims(v).c_str()));
    };
    shape("time", "time");
    shape("hydro_units_ids", "hydro_units");
    shape("hydro_units_structure_ids", "hydro_units");
    shape("hydro_units_areas", "hydro_units");
    shape("sub_basin_values", "aggregated_values,time");
    shape("hydro_units_values", "distributed_values,hydro_units,time");
    shape("land_cover_fractions", F ? "land_covers,hydro_units,time" : "missing");
    if (f.strings("labels_aggregated") != r.subLabels || f.strings("labels_distributed") != r.huLabels) return ctx.fail("file", "the names of the items differ from the recorded ones");
    if (F && f.strings("labels_land_covers") != r.frLabels) return ctx.fail("file", "the names of the covers differ");
    if (f.text("time", "units") != "days since 1858-11-17 00:00:00.0") return ctx.fail("file", "the origin of time is " + f.text("time", "units"));
    auto t = f.values("time", T);
    for (long i = 0; i < T; ++i)
        if (!bits(t[i], r.time[i])) return ctx.fail("file", fmt("date of step %ld: %.17g instead of %.17g", i + 1, t[i], r.time[i]));
    auto ids = f.values("hydro_units_ids", U), areas = f.values("hydro_units_areas", U), st = f.values("hydro_units_structure_ids", U);
    for (long u = 0; u < U; ++u)
        if (ids[u] != r.ids[u] || areas[u] != r.areas[u] || st[u] != structures[u]) return ctx.fail("file", fmt("identity, area or structure of unit %d", r.ids[u]));
    auto sub = f.values("sub_basin_values", A * T);
    for (long a = 0; a < A; ++a)
        for (long i = 0; i < T; ++i)
            if (!bits(sub[a * T + i], r.sub[a][i])) return ctx.fail("file", fmt("%s at step %ld: %.17g instead of %.17g", r.subLabels[a].c_str(), i + 1, sub[a * T + i], r.sub[a][i]));
    auto hu = f.values("hydro_units_values", D * U * T);
    for (long d = 0; d < D; ++d)
        for (long u = 0; u < U; ++u)
            for (long i = 0; i < T; ++i)
                if (!bits(hu[(d * U + u) * T + i], r.hu[d](i, u)))
                    return ctx.fail("file", fmt("%s of unit %d at step %ld: %.17g instead of %.17g", r.huLabels[d].c_str(), r.ids[u], i + 1, hu[(d * U + u) * T + i], r.hu[d](i, u)));
    if (!F) return;
    auto fr = f.values("land_cover_fractions", F * U * T);
    for (long d = 0; d < F; ++d)
        for (long u = 0; u < U; ++u)
            for (long i = 0; i < T; ++i)
                if (!bits(fr[(d * U + u) * T + i], r.fr[d](i, u)))
                    return ctx.fail("file", fmt("extent of %s in unit %d at step %ld: %.17g instead of %.17g", r.frLabels[d].c_str(), r.ids[u], i + 1, fr[(d * U + u) * T + i], r.fr[d](i, u)));
}
}  // namespace

PROPERTY(O02) {
    Scratch scratch;
    int K = kAlphabet.size();
    int n = 0;
    for (auto& k : outCases(ctx.thorough()))
        for (int mode = 0; mode < 4; ++mode) {  // everything; selected items with extents; the outlet and extents; the outlet alone
            OutCase kc = k;
            kc.c.spec.steps = 3;
            if (ctx.quick() && mode && (++n % 3)) continue;
            ctx.dims["configurations"] += ctx.shard == 0;
            auto items = makeSim(kc, true, true)->sm->GetHydroUnitLogLabels();
            sequences(K, ctx.quick() ? 1 : 2, [&](const std::vector<int>& q) {
                ctx.run(k.c.name + fmt("/mode%d/", mode) + seqStr(q), [&] {
                    std::string dir = scratch.dir + fmt("/%llu", (unsigned long long)ctx.cases);
                    auto sim = makeSim(kc, mode == 0, mode <= 2);
                    if (mode == 1)
                        for (size_t i = 0; i < items.size(); i += 3) request(*sim->sm, items[i]);
                    std::vector<int> seq = {q[0], (q[0] + 2) % K, q.back()};
                    auto f = unitForcing(kc.c.spec, seq);
                    if (!prepare(*sim, kc.c, f)) return ctx.fail("rejected", sim->error);
                    std::vector<int> structures;
                    for (size_t u = 0; u < kc.c.spec.units.size(); ++u) structures.push_back(sim->m->GetSubBasin()->GetHydroUnit(u)->GetStructureId());
                    sim->m->Reset();
                    if (!sim->run()) return ctx.fail("run", sim->error);
                    Rec a = record(*sim->m);
                    if (getenv("HB_DUMP")) dumpRec(a);
                    for (int t = 0; t < a.steps; ++t) {
                        ++ctx.transitions;
                        ctx.state(hashRec(a, t));
                    }
                    // no such directory: reported, and nothing is created
                    if (sim->m->DumpOutputs(dir)) return ctx.fail("missing", "written without a directory");
                    if (fs::exists(dir)) return ctx.fail("missing", "the directory appeared");
                    fs::create_directory(dir);
                    // an older, longer results file is replaced
                    if (q[0] % 2) {
                        std::ofstream o(dir + "/results.nc");
                        o << std::string(100000, 'x');
                    }
                    if (!sim->m->DumpOutputs(q.back() % 2 ? dir : dir + "/")) return ctx.fail("refused", "the results could not be written");
                    compareFile(ctx, dir + "/results.nc", a, structures);
                    std::string why;
                    Rec again = record(*sim->m);
                    if (!sameRec(a, again, 0, &why)) return ctx.fail("disturbed", "writing changed the records: " + why);
                    // a second run of the same model, written over the first file
                    sim->m->Reset();
                    if (mode % 2) {
                        std::vector<int> other = {(q[0] + 3) % K, q.back(), 1};
                        sim->m->ClearTimeSeries();
                        if (!sim->forcing(unitForcing(kc.c.spec, other))) return ctx.fail("rejected", sim->error);
                    }
                    if (!sim->run()) return ctx.fail("run", sim->error);
                    Rec b = record(*sim->m);
                    if (mode % 2 == 0 && kc.c.spec.spinup == 0 && !sameRec(a, b, 0, &why)) return ctx.fail("disturbed", "writing changed the next run: " + why);
                    if (!sim->m->DumpOutputs(dir)) return ctx.fail("refused", "the results could not be written again");
                    compareFile(ctx, dir + "/results.nc", b, structures);
                    for (auto& e : fs::directory_iterator(dir))
                        if (e.path().filename() != "results.nc") return ctx.fail("stray", "unexpected file " + e.path().string());
                    fs::remove_all(dir);
                    ++ctx.validated;
                });
            });
        }
}
