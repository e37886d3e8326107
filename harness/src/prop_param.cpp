// P01: an assignment changes the addressed parameters, all of them, and nothing else.
#include <algorithm>
#include <cmath>
#include <sstream>

#include "configs.h"

namespace {
struct Variant {
    Opts o;
    std::vector<std::string> covers;
};
struct ParCase {
    std::string name;
    Spec s;
    std::vector<Variant> variants;
    bool runnable = true;
    bool skipGlaciers = false;  // snow moved between units, but not from the glaciers
    bool loose = false;         // a basin store and a basin splitter that hold the parameters of other items
};
std::unique_ptr<Sim> build(const ParCase& c) {
    auto sim = std::make_unique<Sim>(c.s, false);
    auto universe = coverUnion(c.s.units);
    SettingsModel& sm = *sim->sm;
    for (size_t i = 0; i < c.variants.size(); ++i) {
        if (i) sm.AddStructure();
        std::vector<Cover> cov;
        for (auto& x : universe)
            if (std::find(c.variants[i].covers.begin(), c.variants[i].covers.end(), x.name) != c.variants[i].covers.end()) cov.push_back(x);
        Opts o = c.variants[i].o;
        o.params.clear();
        buildStructure(sm, o, cov);
        if (c.skipGlaciers) sm.AddSnowRedistribution("transport:snow_slide", true);
        if (c.loose) {
            sm.AddSubBasinBrick("basin_store", "storage");
            sm.AddBrickParameter("capacity", 80.0f);
            sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
            sm.AddBrickProcess("leak", "percolation:constant", "outlet");
            sm.AddSubBasinSplitter("basin_splitter", "snow_rain:linear");
            sm.AddSplitterParameter("transition_start", 0.5f);
            sm.AddSplitterParameter("transition_end", 2.5f);
        }
    }
    return sim;
}
enum Loc { HuBrick, SubBrick, HuSplit, SubSplit };
// A parameter of a structure variant: where it lies, and its value.
struct Elem {
    int st, loc, item, proc, par;
    std::string comp, type, process, name;
    float value;
};
std::vector<Elem> snapshot(SettingsModel& sm, int selected) {
    std::vector<Elem> r;
    for (int st = 1; st <= sm.GetStructureCount(); ++st) {
        if (!sm.SelectStructure(st)) throw std::runtime_error("harness: structure numbering");
        auto pars = [&](int loc, int item, int proc, const std::string& comp, const std::string& type, const std::string& process, auto& ps) {
            for (size_t i = 0; i < ps.size(); ++i) {
                r.push_back({st, loc, item, proc, (int)i, comp, type, process, ps[i].GetName(), (float)ps[i].GetValue()});
            }
        };
        for (int loc : {HuBrick, SubBrick}) {
            int n = loc == HuBrick ? sm.GetHydroUnitBrickCount() : sm.GetSubBasinBrickCount();
            for (int i = 0; i < n; ++i) {
                auto& b = loc == HuBrick ? sm.GetHydroUnitBrickSettings(i) : sm.GetSubBasinBrickSettings(i);
                pars(loc, i, -1, b.name, b.type, "", b.parameters);
                for (size_t p = 0; p < b.processes.size(); ++p) pars(loc, i, p, b.name, b.type, b.processes[p].name, b.processes[p].parameters);
                r.push_back({st, loc, i, -2, 0, b.name, b.type, "", "", 0});  // the item itself
            }
        }
        for (int loc : {HuSplit, SubSplit}) {
            int n = loc == HuSplit ? sm.GetHydroUnitSplitterCount() : sm.GetSubBasinSplitterCount();
            for (int i = 0; i < n; ++i) {
                auto& b = loc == HuSplit ? sm.GetHydroUnitSplitterSettings(i) : sm.GetSubBasinSplitterSettings(i);
                pars(loc, i, -1, b.name, "", "", b.parameters);
                r.push_back({st, loc, i, -2, 0, b.name, "", "", "", 0});
            }
        }
    }
    sm.SelectStructure(selected);
    return r;
}
// What an assignment concerns, from the declarations alone.
struct Aim {
    std::vector<int> targets;   // elements to change
    bool missing = false;       // a component or parameter that does not exist: to be reported
    bool partial = false;       // some of the items meant lack the parameter: reported, or the others are set
    bool emptyType = false;     // no item of this type
};
Aim resolve(const std::vector<Elem>& el, const std::string& spec, const std::string& name) {
    Aim a;
    std::vector<std::string> tokens;
    std::string tok;
    std::stringstream ss(spec);
    while (std::getline(ss, tok, ',')) {
        size_t b = tok.find_first_not_of(' '), e = tok.find_last_not_of(' ');
        if (b != std::string::npos) tokens.push_back(tok.substr(b, e - b + 1));
    }
    for (auto& t : tokens) {
        bool byType = startsWith(t, "type:");
        std::string type = byType ? t.substr(5) : "";
        int items = 0, owners = 0;
        for (auto& x : el) {
            if (x.proc != -2) continue;
            bool cover = x.type == "generic_land_cover" || x.type == "ground" || x.type == "generic" || x.type == "open" || x.type == "glacier";
            bool meant = byType ? x.loc <= SubBrick && (x.type == type || (type == "land_cover" && cover)) : x.comp == t;
            if (!meant) continue;
            ++items;
            // the parameter of the item itself, otherwise the one of its processes
            int best = -1;
            for (size_t i = 0; i < el.size(); ++i)
                if (el[i].st == x.st && el[i].loc == x.loc && el[i].item == x.item && el[i].proc != -2 && el[i].name == name)
                    if (best < 0) best = i;
            if (best >= 0) {
                ++owners;
                a.targets.push_back(best);
            }
        }
        if (!items) (byType ? a.emptyType : a.missing) = true;
        else if (!owners) a.missing = true;
        else if (owners < items) a.partial = true;
    }
    std::sort(a.targets.begin(), a.targets.end());
    a.targets.erase(std::unique(a.targets.begin(), a.targets.end()), a.targets.end());
    return a;
}
std::string show(const Elem& e) {
    return fmt("variant %d, %s%s%s, %s", e.st, e.comp.c_str(), e.process.empty() ? "" : ":", e.process.c_str(), e.name.c_str());
}
// Assigns and compares the complete set of parameters with the expected one.
// selected: the variant under construction (which stays selected).
bool assign(Ctx& ctx, SettingsModel& sm, std::vector<Elem>& el, int selected, const std::string& spec, const std::string& name, float value, bool* accepted = nullptr) {
    Aim a = resolve(el, spec, name);
    bool ok = false, threw = false;
    sm.SelectStructure(selected);
    const BrickSettings* before = &sm.GetHydroUnitBrickSettings(0);
    try {
        ok = sm.SetParameterValue(spec, name, value);
    } catch (const std::exception&) {
        threw = true;
    }
    if (ok && before != &sm.GetHydroUnitBrickSettings(0)) {
        ctx.fail("selection", fmt("setting %s of %s leaves another structure variant selected", name.c_str(), spec.c_str()));
        return false;
    }
    bool done = ok && !threw;
    if (accepted) *accepted = done;
    if (a.missing && done) {
        ctx.fail("unreported", fmt("%s has no parameter %s, the assignment is reported as done", spec.c_str(), name.c_str()));
        return false;
    }
    if (!a.missing && !a.partial && !a.emptyType && !done) {
        ctx.fail("refused", fmt("the assignment of %s to %s is refused", name.c_str(), spec.c_str()));
        return false;
    }
    if (a.emptyType && threw) {
        ctx.fail("refused", fmt("the assignment of %s to %s raises an error", name.c_str(), spec.c_str()));
        return false;
    }
    auto now = snapshot(sm, selected);
    if (now.size() != el.size()) {
        ctx.fail("structure", fmt("setting %s of %s changes the structure", name.c_str(), spec.c_str()));
        return false;
    }
    for (size_t i = 0; i < el.size(); ++i) {
        bool target = std::binary_search(a.targets.begin(), a.targets.end(), (int)i);
        ++ctx.transitions;
        float want = target ? value : el[i].value;
        bool same = now[i].value == want || (std::isnan(now[i].value) && std::isnan(want));
        if (!same && target && !done && now[i].value == el[i].value) same = true;  // a reported assignment may be left undone
        if (now[i].name != el[i].name || now[i].comp != el[i].comp) same = false;
        if (!same) {
            ctx.fail(target ? "unset" : "collateral", fmt("setting %s of '%s' to %.9g: %s is %.9g instead of %.9g", name.c_str(), spec.c_str(), value, show(el[i]).c_str(), now[i].value, want));
            return false;
        }
    }
    Hasher h;
    for (auto& x : now) h.d(x.value);
    ctx.state(h.h);
    el = now;
    return true;
}
float otherValue(const std::string& name, float v) {
    if (name == "infinite_storage" || name == "no_melt_when_snow_cover" || name == "north_hemisphere") return 1 - v;
    if (std::isnan(v)) return 1;
    if (v == 0) return name == "transition_start" ? -0.5f : 0.2f;
    return name == "transition_end" ? v * 1.25f : v * 0.8f;
}
// The same parameters set one by one where they were declared.
void setDirectly(SettingsModel& sm, const std::vector<Elem>& el, const std::vector<int>& targets, float v, int selected) {
    for (int i : targets) {
        auto& e = el[i];
        sm.SelectStructure(e.st);
        if (e.loc == HuBrick) sm.SelectHydroUnitBrick(e.item);
        else if (e.loc == SubBrick) sm.SelectSubBasinBrick(e.item);
        else if (e.loc == HuSplit) sm.SelectHydroUnitSplitter(e.item);
        else sm.SelectSubBasinSplitter(e.item);
        if (e.loc >= HuSplit) sm.SetSplitterParameterValue(e.name, v);
        else if (e.proc < 0) sm.SetBrickParameterValue(e.name, v);
        else {
            sm.SelectProcess(e.proc);
            sm.SetProcessParameterValue(e.name, v);
        }
    }
    sm.SelectStructure(selected);
}
void base(const ParCase& c, SettingsModel& sm) {
    for (auto& p : c.s.o.params)
        if (!sm.SetParameterValue(p.comp, p.name, p.value)) throw std::runtime_error("harness: cannot set " + p.comp + ":" + p.name);
}
}  // namespace

PROPERTY(P01) {
    std::vector<ParCase> cases;
    auto unit = [](int id, double area, double elev, std::vector<Cover> all, int mask, double slope) {
        double sum = 0;
        for (size_t i = 0; i < all.size(); ++i) sum += mask >> i & 1 ? all[i].frac : 0;
        for (size_t i = 0; i < all.size(); ++i) all[i].frac = mask >> i & 1 ? all[i].frac / sum : 0;
        Unit u{id, area, elev, all, slope};
        u.aspect = id % 2 ? "north" : "south";
        return u;
    };
    auto names = [](const std::vector<Cover>& c) {
        std::vector<std::string> r;
        for (auto& x : c) r.push_back(x.name);
        return r;
    };
    auto single = [&](const std::string& kind, const std::string& cov, const std::string& sn, const std::string& par, auto tweak) {
        ParCase c;
        c.s.o.kind = kind;
        snowOption(c.s.o, sn);
        auto all = coverSet(cov);
        c.s.units = {unit(4, 1e6, 1000, all, (1 << all.size()) - 1, 12), unit(2, 2e6, 1700, all, all.size() > 1 ? 3 : 1, 25)};
        tweak(c);
        paramOption(c.s, par);
        c.variants = {{c.s.o, names(all)}};
        c.name = kind + "/" + cov + "/" + sn + "/" + par;
        cases.push_back(c);
    };
    auto none = [](ParCase&) {};
    for (std::string par : {"def", "tight"}) {
        single("socont", "GFI", "all", par, none);
        single("socont", "GII", "cns", par, none);
        single("socont", "GI", "as", par, [](ParCase& c) { c.s.o.soil = 2; c.s.o.runoff = "linear"; });
        single("hbv", "GF", "car", par, [](ParCase& c) { c.s.o.soilPerCover = true; });
        single("hbv", "GI", "wrr", par, none);
        single("gr4j", "GF", "dd", par, none);
        single("gr6j", "G", "cn", par, none);
    }
    {
        single("socont", "GFI", "dd", "def", [](ParCase& c) { c.skipGlaciers = true; });
        cases.back().name += "/partial";
        single("socont", "GI", "wrr", "def", [](ParCase& c) { c.loose = true; c.runnable = false; });
        cases.back().name += "/loose";
    }
    // variants of a structure
    for (std::string kind : {"socont", "hbv"})
        for (std::string sn : {"dd", "all"})
            for (int order = 0; order < 3; ++order) {
                ParCase c;
                auto all = coverSet("GFI");
                all.push_back({"lake", "open", 1.0});
                c.s.o.kind = kind;
                snowOption(c.s.o, sn);
                c.s.units = {unit(4, 1e6, 1000, all, 7, 12), unit(2, 2.5e6, 1800, all, 3, 20), unit(9, 0.8e6, 600, all, 8, 0)};
                Variant a{c.s.o, {"ground", "forest"}}, b{c.s.o, {"ground", "forest", "glacier"}}, l{c.s.o, {"lake"}};
                a.o.glacierStores = true;
                l.o.kind = "lake";
                l.o.snow = false;
                c.variants = order == 0 ? std::vector<Variant>{a, b, l} : order == 1 ? std::vector<Variant>{a, l, b} : std::vector<Variant>{b, l, a};
                c.s.o.params.clear();
                c.name = fmt("%s/variants%d/%s", kind.c_str(), order, sn.c_str());
                cases.push_back(c);
            }
    const std::vector<int> seqs[] = {{1, 3, 4, 5, 2, 4}, {3, 1, 4, 3, 0, 4}};
    for (auto& c : cases) {
        c.s.steps = 6;
        auto ref = build(c);
        base(c, *ref->sm);
        int nst = ref->sm->GetStructureCount();
        auto el = snapshot(*ref->sm, nst);
        std::vector<std::string> comps, types, pars;
        auto add = [](std::vector<std::string>& v, const std::string& x) {
            if (!x.empty() && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
        };
        for (auto& e : el) {
            if (e.proc == -2) add(comps, e.comp), add(types, e.type);
            else add(pars, e.name);
        }
        ctx.dims["structures"] += ctx.shard == 0;
        ctx.dims["parameters"] += ctx.shard == 0 ? pars.size() : 0;
        std::vector<std::string> specs = comps;
        for (auto& t : types) specs.push_back("type:" + t);
        specs.push_back("type:land_cover");
        specs.push_back("type:none");
        specs.push_back("unknown");
        auto names2 = pars;
        names2.push_back("unknown_parameter");
        // every single assignment, whichever variant is selected before
        for (auto& p : names2)
            ctx.run(c.name + "/single/" + p, [&] {
                for (int sel = 1; sel <= nst; ++sel)
                    for (auto& sp : specs) {
                        auto sim = build(c);
                        base(c, *sim->sm);
                        auto e = snapshot(*sim->sm, sel);
                        if (!assign(ctx, *sim->sm, e, sel, sp, p, 0.375f)) return;
                    }
                ++ctx.validated;
            });
        for (auto& p : pars) {
            // the components this parameter can be assigned to, alone, in lists, and one after the other
            std::vector<std::string> own;
            for (auto& sp : specs)
                if (!resolve(el, sp, p).targets.empty()) own.push_back(sp);
            std::vector<std::string> other;
            for (auto& sp : comps)
                if (resolve(el, sp, p).targets.empty() && other.size() < 2) other.push_back(sp);
            auto all = own;
            for (size_t i = 0; i < own.size(); ++i)
                for (size_t j = 0; j < own.size(); ++j)
                    if (i != j) all.push_back(own[i] + ((i + j) % 2 ? "," : ", ") + own[j]);
            for (auto& o : own)
                for (auto& x : other) all.push_back(o + "," + x), all.push_back(x + " , " + o);
            if (own.size() >= 3) all.push_back(own[2] + ", " + own[0] + " ,  " + own[1] + ",");
            all.push_back("type:none," + own[0]);
            all.push_back("unknown," + own[0]);
            all.push_back(own[0] + ",unknown");
            for (size_t i = 0; i < all.size(); ++i)
                ctx.run(c.name + "/then/" + p + "/" + all[i], [&] {
                    for (size_t j = 0; j < all.size(); ++j) {
                        auto sim = build(c);
                        base(c, *sim->sm);
                        auto e = snapshot(*sim->sm, nst);
                        if (!assign(ctx, *sim->sm, e, nst, all[i], p, 0.375f)) return;
                        if (!assign(ctx, *sim->sm, e, nst, all[j], p, 0.625f)) return;
                        if (ctx.thorough())
                            for (auto& third : own)
                                if (!assign(ctx, *sim->sm, e, nst, third, p, 0.875f)) return;
                    }
                    ++ctx.validated;
                });
            // what the assignment does to the run
            if (!c.runnable) continue;
            for (auto& sp : all) {
                Aim aim = resolve(el, sp, p);
                if (aim.missing || aim.partial) continue;
                for (int q = 0; q < (ctx.quick() ? 1 : 2); ++q)
                    ctx.run(fmt("%s/run%d/%s/%s", c.name.c_str(), q, p.c_str(), sp.c_str()), [&] {
                        float v = otherValue(p, el[aim.targets[0]].value);
                        auto f = unitForcing(c.s, seqs[q]);
                        Rec rec[4];
                        for (int mode = 0; mode < 3; ++mode) {
                            auto sim = build(c);
                            base(c, *sim->sm);
                            if (mode == 0) setDirectly(*sim->sm, el, aim.targets, v, nst);
                            if (mode == 1) (void)sim->sm->SetParameterValue(sp, p, v);
                            if (!sim->init() || !sim->m->IsValid() || !sim->forcing(f) || !sim->run()) {
                                ctx.fail("rejected", sim->error);
                                return;
                            }
                            if (mode == 2) {
                                rec[3] = record(*sim->m);
                                (void)sim->sm->SetParameterValue(sp, p, v);
                                sim->m->UpdateParameters(*sim->sm);
                                sim->m->Reset();
                                if (!sim->run()) {
                                    ctx.fail("run", sim->error);
                                    return;
                                }
                            }
                            rec[mode] = record(*sim->m);
                        }
                        std::string why;
                        for (int t = 0; t < c.s.steps; ++t) {
                            ctx.state(hashRec(rec[0], t));
                            ++ctx.transitions;
                        }
                        if (!sameRec(rec[0], rec[1], 0, &why)) {
                            ctx.fail("run-before", fmt("%s of '%s' set to %g before building: %s", p.c_str(), sp.c_str(), v, why.c_str()));
                            return;
                        }
                        if (!sameRec(rec[0], rec[2], 0, &why)) {
                            ctx.fail("run-after", fmt("%s of '%s' set to %g in a living model: %s", p.c_str(), sp.c_str(), v, why.c_str()));
                            return;
                        }
                        ctx.dims["assignments that change the run"] += !sameRec(rec[0], rec[3], 0, &why);
                        // units whose variant holds none of the parameters are not concerned
                        bool touched[8] = {};
                        for (int i : aim.targets) touched[el[i].st] = true;
                        for (size_t u = 0; u < c.s.units.size(); ++u) {
                            std::vector<std::string> present;
                            for (auto& cv : c.s.units[u].covers)
                                if (cv.frac > 0) present.push_back(cv.name);
                            size_t best = 0, size = 99;
                            for (size_t k = 0; k < c.variants.size(); ++k) {
                                auto& cs = c.variants[k].covers;
                                bool every = true;
                                for (auto& n : present) every &= std::find(cs.begin(), cs.end(), n) != cs.end();
                                if (every && cs.size() < size) size = cs.size(), best = k + 1;
                            }
                            if (touched[best]) continue;
                            for (size_t l = 0; l < rec[0].huLabels.size(); ++l)
                                for (int t = 0; t < c.s.steps; ++t)
                                    if (!close(rec[0].hu[l](t, u), rec[3].hu[l](t, u), 0, 0)) {
                                        ctx.fail("isolation", fmt("%s of '%s' changes %s of unit %d, whose variant does not hold it", p.c_str(), sp.c_str(), rec[0].huLabels[l].c_str(), c.s.units[u].id));
                                        return;
                                    }
                        }
                        ++ctx.validated;
                    });
            }
        }
    }
}
