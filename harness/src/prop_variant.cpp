// V01: hydro units served by different structure variants behave as under one complete structure.
#include <algorithm>
#include <cmath>

#include "configs.h"

namespace {
struct Variant {
    Opts o;
    std::vector<std::string> covers;
};
struct VarCase {
    std::string name;
    Spec s;  // the complete structure and the units, every cover of the universe listed
    std::vector<Variant> variants;
    bool lake = false;  // units with the cover "lake" follow a structure of their own
};
bool isLake(const Unit& u) {
    for (auto& c : u.covers)
        if (c.name == "lake" && c.frac > 0) return true;
    return false;
}
std::unique_ptr<Sim> build(const Spec& s, const std::vector<Variant>& vs, const std::vector<Cover>& universe, const std::vector<ParamSet>& params) {
    auto sim = std::make_unique<Sim>(s, false);
    for (size_t i = 0; i < vs.size(); ++i) {
        if (i) sim->sm->AddStructure();
        std::vector<Cover> cov;
        for (auto& c : universe)
            if (std::find(vs[i].covers.begin(), vs[i].covers.end(), c.name) != vs[i].covers.end()) cov.push_back(c);
        Opts o = vs[i].o;
        o.params.clear();
        buildStructure(*sim->sm, o, cov);
    }
    for (auto& p : params)
        if (!sim->sm->SetParameterValue(p.comp, p.name, p.value)) throw std::runtime_error("harness: cannot set " + p.comp + ":" + p.name);
    return sim;
}
// Labels and units of b, scaled by k for amounts sent to the outlet, as in a. unitOf: unit of a of every unit of b.
bool sameValues(const Rec& a, const Rec& b, const std::vector<int>& unitOf, double k, std::string* why) {
    for (size_t l = 0; l < b.huLabels.size(); ++l) {
        const axxd* x = a.huv(b.huLabels[l]);
        for (int t = 0; t < b.steps; ++t)
            for (int u = 0; u < b.hu[l].cols(); ++u) {
                double vb = b.hu[l](t, u), va = x ? (*x)(t, unitOf[u]) : NAN;
                // amounts delivered to the basin are reported in mm over the basin
                bool same = close(va, vb, 1e-9, 1e-9) || (k != 1 && endsWith(b.huLabels[l], ":output") && close(va, vb * k, 1e-9, 1e-9));
                if (std::isnan(va)) same = std::isnan(vb) || vb == 0;
                if (!same) {
                    *why = fmt("%s, unit %d at step %d: %.10g with variants, %.10g without", b.huLabels[l].c_str(), b.ids[u], t + 1, va, vb);
                    return false;
                }
            }
    }
    return true;
}
struct Totals {
    double q, et, water, snow, ice;
};
Totals totals(const ModelHydro& m) {
    return {m.GetTotalOutletDischarge(), m.GetTotalET(), m.GetTotalWaterStorageChanges(), m.GetTotalSnowStorageChanges(), m.GetTotalGlacierStorageChanges()};
}

void checkVariants(Ctx& ctx, const VarCase& c, const std::vector<int>& seq) {
    const Spec& s = c.s;
    auto universe = coverUnion(s.units);
    auto f = unitForcing(s, seq);
    std::vector<ParamSet> first = s.o.params, second = first;
    for (auto& p : second) p.value *= p.name == "alpha" || p.name == "lp" || p.name == "response_factor" ? 0.8f : 1.25f;
    auto sim = build(s, c.variants, universe, first);
    // the groups of units that share a complete structure
    std::vector<std::vector<int>> groups(2);
    for (size_t u = 0; u < s.units.size(); ++u) groups[c.lake && isLake(s.units[u])].push_back(u);
    std::vector<std::unique_ptr<SettingsModel>> keep;
    for (int round = 0; round < 2; ++round) {
        auto& params = round ? second : first;
        if (round == 0) {
            if (!sim->init() || !sim->m->IsValid() || !sim->forcing(f)) {
                ctx.fail("rejected", sim->error);
                return;
            }
            for (size_t u = 0; u < s.units.size(); ++u) {
                std::vector<std::string> present;
                for (auto& cv : s.units[u].covers)
                    if (cv.frac > 0) present.push_back(cv.name);
                size_t best = 0, size = 99;
                for (size_t v = 0; v < c.variants.size(); ++v) {
                    auto& cs = c.variants[v].covers;
                    bool all = true;
                    for (auto& n : present) all &= std::find(cs.begin(), cs.end(), n) != cs.end();
                    if (all && cs.size() < size) {
                        size = cs.size();
                        best = v + 1;
                    }
                }
                int got = sim->m->GetSubBasin()->GetHydroUnit(u)->GetStructureId();
                if (best && got != (int)best) {
                    ctx.fail("assignment", fmt("unit %d follows variant %d, the smallest one holding its covers is %zu", s.units[u].id, got, best));
                    return;
                }
            }
        } else {
            for (auto& p : params) sim->sm->SetParameterValue(p.comp, p.name, p.value);
            sim->m->UpdateParameters(*sim->sm);
            sim->m->Reset();
        }
        if (!sim->run()) {
            ctx.fail("run", sim->error);
            return;
        }
        Rec a = record(*sim->m);
        if (getenv("HB_DUMP")) dumpRec(a);
        double total = 0;
        for (auto& u : s.units) total += u.area;
        std::vector<double> q(s.steps, 0.0);
        Totals sum{0, 0, 0, 0, 0};
        for (int g = 0; g < 2; ++g) {
            if (groups[g].empty()) continue;
            Spec one = s;
            one.units.clear();
            double area = 0;
            std::vector<std::vector<Sym>> fg;
            for (int u : groups[g]) {
                one.units.push_back(s.units[u]);
                area += s.units[u].area;
                fg.push_back(f[u]);
            }
            if (c.lake) {
                for (auto& u : one.units) {
                    std::vector<Cover> cv;
                    for (auto& x : u.covers)
                        if ((x.name == "lake") == (g == 1)) cv.push_back(x);
                    u.covers = cv;
                }
                if (g == 1) one.o.kind = "lake", one.o.snow = false;
            }
            one.o.params.clear();
            Sim ref(one);
            for (auto& p : params) ref.sm->SetParameterValue(p.comp, p.name, p.value);
            if (!ref.init() || !ref.forcing(fg) || !ref.run()) {
                ctx.fail("rejected", ref.error);
                return;
            }
            Rec b = record(*ref.m);
            for (int t = 0; t < b.steps; ++t) {
                ++ctx.transitions;
                ctx.state(hashRec(b, t));
            }
            std::string why;
            double share = area / total;
            if (!sameValues(a, b, groups[g], share, &why)) {
                ctx.fail("differs", why + (round ? " (after a change of the parameters)" : ""));
                return;
            }
            for (int t = 0; t < s.steps; ++t) q[t] += share * (*b.subv("outlet"))[t];
            Totals x = totals(*ref.m);
            sum.q += share * x.q;
            sum.et += share * x.et;
            sum.water += share * x.water;
            sum.snow += share * x.snow;
            sum.ice += share * x.ice;
        }
        for (int t = 0; t < s.steps; ++t)
            if (!close((*a.subv("outlet"))[t], q[t], 1e-9, 1e-9)) {
                ctx.fail("outlet", fmt("step %d: %.10g mm with variants, %.10g without%s", t + 1, (*a.subv("outlet"))[t], q[t], round ? " (after a change of the parameters)" : ""));
                return;
            }
        Totals x = totals(*sim->m);
        for (auto [n, va, vb] : {std::tuple("discharge", x.q, sum.q), std::tuple("evapotranspiration", x.et, sum.et), std::tuple("water storage change", x.water, sum.water),
                                 std::tuple("snow storage change", x.snow, sum.snow), std::tuple("ice storage change", x.ice, sum.ice)})
            if (!close(va, vb, 1e-8, 1e-8)) {
                ctx.fail("totals", fmt("total %s %.10g with variants, %.10g without", n, va, vb));
                return;
            }
    }
    ++ctx.validated;
}
}  // namespace

PROPERTY(V01) {
    std::vector<VarCase> cases;
    auto setup = [&](VarCase& c, const std::string& kind, const std::string& sn, const std::string& par, const std::vector<Cover>& universe) {
        Opts& o = c.s.o;
        o.kind = kind;
        snowOption(o, sn);
        if (o.snow == false) o.noMeltWhenSnow = 0;
        c.s.units = {Unit{1, 1e6, 1000, universe, 12}};
        std::vector<Cover> nolake;
        for (auto& x : universe)
            if (x.name != "lake") nolake.push_back(x);
        c.s.units[0].covers = nolake;
        paramOption(c.s, par);
        if (c.lake) o.params.push_back({"lake_storage", "response_factor", par == "def" ? 0.3f : 0.9f});
    };
    auto withCovers = [](const std::vector<Cover>& universe, int mask) {
        std::vector<Cover> r = universe;
        double sum = 0;
        for (size_t i = 0; i < r.size(); ++i) sum += mask >> i & 1 ? r[i].frac : 0;
        for (size_t i = 0; i < r.size(); ++i) r[i].frac = mask >> i & 1 ? r[i].frac / sum : 0;
        return r;
    };
    struct Uni {
        std::string name;
        std::vector<Cover> covers;
        std::vector<std::vector<std::vector<std::string>>> lists;
    };
    std::vector<Uni> unis = {
        {"GFI", coverSet("GFI"),
         {{{"ground", "forest"}, {"ground", "forest", "glacier"}},
          {{"ground", "forest", "glacier"}, {"ground", "forest"}},
          {{"ground"}, {"ground", "forest"}, {"ground", "forest", "glacier"}},
          {{"forest"}, {"ground", "glacier"}, {"ground"}, {"ground", "forest", "glacier"}}}},
        {"GI", coverSet("GI"), {{{"ground"}, {"ground", "glacier"}}, {{"ground", "glacier"}, {"ground"}}}},
        {"GII", coverSet("GII"), {{{"ground"}, {"ground", "glacier_ice", "glacier_debris"}}, {{"ground"}, {"ground", "glacier_debris"}, {"ground", "glacier_ice"}, {"ground", "glacier_ice", "glacier_debris"}}}},
    };
    for (auto& un : unis)
        for (size_t li = 0; li < un.lists.size(); ++li)
            for (std::string kind : {"socont", "hbv", "hbv-soils"})
                for (std::string sn : {"dd", "all", "cn", "tc", "wrr"})
                    for (std::string par : {"def", "tight"}) {
                        int n = un.covers.size();
                        for (int m1 = 1; m1 < 1 << n; ++m1)
                            for (int m2 = 1; m2 < 1 << n; ++m2) {
                                VarCase c;
                                c.s.o.soilPerCover = kind == "hbv-soils";
                                if (c.s.o.soilPerCover && (un.name != "GFI" || li == 3)) continue;  // the first soil names the recorded flux
                                if (ctx.quick() && (par == "def" ? sn != "all" || m1 >= m2 : m1 == m2 && sn != "all")) continue;
                                if (ctx.quick() && (sn == "dd" || sn == "tc") && (m1 + m2) % 2 != (sn == "dd")) continue;
                                setup(c, kind.substr(0, kind.find('-')), sn, par, un.covers);
                                c.s.units = {Unit{4, 1e6, 1000, withCovers(un.covers, m1), 12}, Unit{2, 2.5e6, 1800, withCovers(un.covers, m2), 20}};
                                for (auto& l : un.lists[li]) {
                                    Variant v{c.s.o, l};
                                    v.o.glacierStores = true;
                                    std::vector<std::string> cano;
                                    for (auto& x : v.o.canopy)
                                        if (std::find(l.begin(), l.end(), x) != l.end()) cano.push_back(x);
                                    v.o.canopy = cano;
                                    c.variants.push_back(v);
                                }
                                c.name = fmt("%s/list%zu/%s/%s/%s/units=%d,%d", un.name.c_str(), li, kind.c_str(), sn.c_str(), par.c_str(), m1, m2);
                                cases.push_back(c);
                            }
                    }
    // open water with a structure of its own, listed between and after other units
    for (std::string kind : {"socont", "hbv"})
        for (std::string sn : {"dd", "all"})
            for (std::string par : {"def", "tight"})
                for (int place = 0; place < 3; ++place)
                    for (int list = 0; list < 2; ++list) {
                        VarCase c;
                        c.lake = true;
                        auto uni = coverSet("GFI");
                        auto all = uni;
                        all.push_back({"lake", "open", 1.0});
                        setup(c, kind, sn, par, all);
                        c.s.units = {Unit{4, 1e6, 1000, withCovers(all, 7), 12}, Unit{2, 2.5e6, 1800, withCovers(all, 3), 20}};
                        c.s.units.insert(c.s.units.begin() + place, Unit{9, 0.8e6, 600, withCovers(all, 8), 0});
                        Variant base{c.s.o, {"ground", "forest"}}, full{c.s.o, {"ground", "forest", "glacier"}}, lake{c.s.o, {"lake"}};
                        base.o.glacierStores = true;
                        lake.o.kind = "lake";
                        lake.o.snow = false;
                        if (list == 0) c.variants = {base, full, lake};
                        else c.variants = {full, lake, base};
                        c.name = fmt("lake/list%d/%s/%s/%s/place%d", list, kind.c_str(), sn.c_str(), par.c_str(), place);
                        cases.push_back(c);
                    }
    for (auto& c : cases) {
        int depth = c.lake || ctx.thorough() ? 3 : 2;
        c.s.steps = std::max(depth, 3);
        ctx.dims["configurations"] += ctx.shard == 0;
        sequences(kAlphabet.size(), depth, [&](const std::vector<int>& q) {
            auto seq = q;
            if (seq.size() < 3) seq.push_back(q[0]);
            ctx.run(c.name + "/" + seqStr(q), [&] { checkVariants(ctx, c, seq); });
        });
    }
}
