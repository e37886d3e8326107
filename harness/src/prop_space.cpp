// S01: the basin is the area-weighted sum of its units; order, numbering and splitting do not matter.
#include <cmath>

#include "balance.h"

namespace {
struct Base {
    std::string name;
    Config c;
    bool linearInArea = true;   // no process depends on the absolute area
    bool glacier = false;
};
Unit mkUnit(int id, double area, double elev, const std::string& cov, double slope, const std::string& aspect) {
    Unit u{id, area, elev, coverSet(cov), slope};
    u.aspect = aspect;
    return u;
}
std::vector<Base> bases(bool thorough) {
    std::vector<Base> r;
    auto mk = [&](const std::string& kind, const std::string& cov, const std::string& snow, const std::string& par,
                  const std::string& solver, int variant = 0) {
        Base b;
        Config& c = b.c;
        c.spec.o.kind = kind;
        c.spec.solver = solver;
        c.spec.units = {mkUnit(4, 1e6, 900, cov, 12, "north"), mkUnit(17, 2.5e6, 1500, cov, 30, "south"), mkUnit(9, 0.6e6, 2200, cov, 5, "east")};
        if (c.spec.units[0].covers.size() > 1) {
            auto& q = c.spec.units[1].covers;
            q[0].frac += q[1].frac - 0.1;
            q[1].frac = 0.1;
            auto& z = c.spec.units[2].covers;
            z[0].frac += z.back().frac;
            z.back().frac = 0;
        }
        if (variant) {
            c.spec.o.soil = 2;
            c.spec.o.runoff = "linear";
        }
        b.linearInArea = kind != "socont" || c.spec.o.runoff == "linear";
        for (auto& x : c.spec.units[0].covers) b.glacier |= x.type == "glacier";
        snowOption(c.spec.o, snow);
        paramOption(c.spec, par);
        b.name = kind + "/" + cov + "/" + snow + "/" + par + "/" + solver + (variant ? "/s2lin" : "");
        r.push_back(b);
    };
    std::vector<std::string> solvers = {"heun_explicit"};
    if (thorough) solvers = allSolvers();
    for (auto& sv : solvers)
        for (std::string par : {"def", "tight"}) {
            for (std::string sn : {"dd", "as", "wrr", "sp", "cn"}) {
                mk("socont", "GI", sn, par, sv);
                mk("socont", "GF", sn, par, sv, 1);
                mk("hbv", "GF", sn, par, sv);
                if (sn != "sp") mk("gr4j", "GF", sn, par, sv);
            }
            mk("socont", "GFI", "dd", par, sv, 1);
            mk("socont", "GF", "ca", par, sv, 1);
            mk("hbv", "GI", "wrr", par, sv);
            mk("hbv", "G", "none", par, sv);
            mk("gr6j", "GF", "dd", par, sv);
            mk("gr4js", "G", "none", par, sv);
            mk("gr6js", "G", "none", par, sv);
            mk("lake", "G", "none", par, sv);
            mk("bucket", "GF", "dd", par, sv);
        }
    return r;
}
using Forc = std::map<int, std::vector<Sym>>;  // by unit id
bool exec(const Config& c, const Forc& f, Rec* r, std::string* err) {
    Sim s(c.spec);
    std::vector<std::vector<Sym>> v;
    for (auto& u : c.spec.units) v.push_back(f.at(u.id));
    Config d = c;
    if (!prepare(s, d, v) || !s.run()) {
        *err = s.error;
        return false;
    }
    *r = record(*s.m);
    return true;
}
int col(const Rec& r, int id) {
    for (size_t i = 0; i < r.ids.size(); ++i)
        if (r.ids[i] == id) return i;
    return -1;
}
constexpr double kTol = 1e-7;
bool sameOutlet(const Rec& a, const Rec& b, std::string* why) {
    for (int t = 0; t < a.steps; ++t)
        if (!close((*a.subv("outlet"))[t], (*b.subv("outlet"))[t], kTol, kTol)) {
            *why = fmt("outlet discharge at step %d: %.12g vs %.12g", t + 1, (*a.subv("outlet"))[t], (*b.subv("outlet"))[t]);
            return false;
        }
    return true;
}
// compares the values of a unit of each run; contents only when the basin differs
bool sameUnit(const Rec& a, int ida, const Rec& b, int idb, bool contentsOnly, std::string* why) {
    int ca = col(a, ida), cb = col(b, idb);
    if (ca < 0 || cb < 0) {
        *why = "unit missing from the outputs";
        return false;
    }
    for (size_t i = 0; i < a.hu.size(); ++i) {
        const std::string& l = a.huLabels[i];
        if (contentsOnly && !endsWith(l, "_content")) continue;
        auto* v = b.huv(l);
        if (!v) {
            *why = l + " missing";
            return false;
        }
        for (int t = 0; t < a.steps; ++t)
            if (!close(a.hu[i](t, ca), (*v)(t, cb), kTol, kTol)) {
                *why = fmt("%s of unit %d at step %d: %.12g vs %.12g", l.c_str(), ida, t + 1, a.hu[i](t, ca), (*v)(t, cb));
                return false;
            }
    }
    return true;
}
}  // namespace

PROPERTY(S01) {
    int L = ctx.quick() ? 3 : 4;
    for (auto& b0 : bases(ctx.thorough())) {
        Base b = b0;
        b.c.spec.steps = L;
        sequences(kAlphabet.size(), L, [&](const std::vector<int>& seq) {
            ctx.run(b.name + "/" + seqStr(seq), [&] {
                const Config& c = b.c;
                bool gr = startsWith(c.spec.o.kind, "gr");
                auto fv = unitForcing(c.spec, seq);
                Forc f;
                for (size_t u = 0; u < c.spec.units.size(); ++u) f[c.spec.units[u].id] = fv[u];
                Rec ref, r;
                std::string err, why;
                if (!exec(c, f, &ref, &err)) return ctx.fail("rejected", err);
                if (getenv("HB_DUMP")) dumpRec(ref);
                for (int t = 0; t < L; ++t) ctx.state(hashRec(ref, t));
                double A = ref.areas.sum();
                auto bad = [&](const char* key, const std::string& what) { ctx.fail(key, what + ": " + why); };
                // 1. every order of the units
                std::vector<int> o = {0, 1, 2};
                while (std::next_permutation(o.begin(), o.end())) {
                    Config d = c;
                    for (int i = 0; i < 3; ++i) d.spec.units[i] = c.spec.units[o[i]];
                    ctx.transitions++;
                    if (!exec(d, f, &r, &err)) return ctx.fail("rejected", err);
                    if (!sameOutlet(ref, r, &why)) return bad("unit_order", "units in order " + seqStr(o));
                    for (auto& u : c.spec.units)
                        if (!sameUnit(ref, u.id, r, u.id, false, &why)) return bad("unit_order", "units in order " + seqStr(o));
                }
                // 2. other identifiers
                {
                    Config d = c;
                    Forc g;
                    int ids[] = {1003, 2, 55};
                    for (int i = 0; i < 3; ++i) {
                        d.spec.units[i].id = ids[i];
                        g[ids[i]] = fv[i];
                    }
                    ctx.transitions++;
                    if (!exec(d, g, &r, &err)) return ctx.fail("rejected", err);
                    if (!sameOutlet(ref, r, &why)) return bad("unit_ids", "renumbered units");
                    for (int i = 0; i < 3; ++i)
                        if (!sameUnit(ref, c.spec.units[i].id, r, ids[i], false, &why)) return bad("unit_ids", "renumbered units");
                }
                // 3. every order of the covers (the GR structures are defined for a single cover)
                if (!gr) {
                    int n = c.spec.units[0].covers.size();
                    std::vector<int> p(n);
                    for (int i = 0; i < n; ++i) p[i] = i;
                    while (std::next_permutation(p.begin(), p.end())) {
                        Config d = c;
                        for (size_t u = 0; u < 3; ++u)
                            for (int i = 0; i < n; ++i) d.spec.units[u].covers[i] = c.spec.units[u].covers[p[i]];
                        ctx.transitions++;
                        if (!exec(d, f, &r, &err)) return ctx.fail("rejected", err);
                        if (!sameOutlet(ref, r, &why)) return bad("cover_order", "covers in order " + seqStr(p));
                        for (auto& u : c.spec.units)
                            if (!sameUnit(ref, u.id, r, u.id, false, &why)) return bad("cover_order", "covers in order " + seqStr(p));
                    }
                }
                // 4. the basin is the area-weighted sum of its units run alone
                {
                    std::vector<double> q(L, 0);
                    for (int i = 0; i < 3; ++i) {
                        Config d = c;
                        d.spec.units = {c.spec.units[i]};
                        ctx.transitions++;
                        if (!exec(d, f, &r, &err)) return ctx.fail("rejected", err);
                        for (int t = 0; t < L; ++t) q[t] += (*r.subv("outlet"))[t] * c.spec.units[i].area / A;
                        if (!sameUnit(r, c.spec.units[i].id, ref, c.spec.units[i].id, true, &why)) return bad("alone", "unit run alone");
                    }
                    for (int t = 0; t < L; ++t)
                        if (!close(q[t], (*ref.subv("outlet"))[t], kTol, kTol))
                            return ctx.fail("additive", fmt("discharge at step %d: %.12g, area-weighted sum of the units run alone %.12g", t + 1, (*ref.subv("outlet"))[t], q[t]));
                }
                if (b.linearInArea) {
                    // 5. each unit split in two
                    for (int i = 0; i < 3; ++i) {
                        Config d = c;
                        Unit x = c.spec.units[i];
                        x.id = 500;
                        x.area *= 0.3;
                        d.spec.units[i].area *= 0.7;
                        d.spec.units.push_back(x);
                        Forc g = f;
                        g[500] = f[c.spec.units[i].id];
                        ctx.transitions++;
                        if (!exec(d, g, &r, &err)) return ctx.fail("rejected", err);
                        if (!sameOutlet(ref, r, &why)) return bad("split", fmt("unit %d split in two", c.spec.units[i].id));
                        for (int id : {c.spec.units[i].id, 500})
                            if (!sameUnit(ref, c.spec.units[i].id, r, id, true, &why)) return bad("split", "unit split in two");
                    }
                    // 6. all areas scaled
                    Config d = c;
                    for (auto& u : d.spec.units) u.area *= 37.5;
                    ctx.transitions++;
                    if (!exec(d, f, &r, &err)) return ctx.fail("rejected", err);
                    if (!sameOutlet(ref, r, &why)) return bad("scale", "areas scaled");
                    for (auto& u : c.spec.units)
                        if (!sameUnit(ref, u.id, r, u.id, false, &why)) return bad("scale", "areas scaled");
                }
                // 7. the generic cover split in two covers with the same properties
                if (c.spec.o.canopy.empty() && !gr) {
                    Config d = c;
                    for (auto& u : d.spec.units) {
                        Cover x = u.covers[0];
                        x.name = "meadow";
                        x.frac *= 0.4;
                        u.covers[0].frac *= 0.6;
                        u.covers.push_back(x);
                    }
                    std::vector<ParamSet> extra;
                    for (auto& p : d.spec.o.params)
                        if (startsWith(p.comp, "ground")) extra.push_back({"meadow" + p.comp.substr(6), p.name, p.value});
                    for (auto& p : extra) d.spec.o.params.push_back(p);
                    ctx.transitions++;
                    if (!exec(d, f, &r, &err)) return ctx.fail("rejected", err);
                    if (!sameOutlet(ref, r, &why)) return bad("cover_split", "generic cover split in two");
                    for (auto& u : c.spec.units)
                        if (!sameUnit(ref, u.id, r, u.id, true, &why)) return bad("cover_split", "generic cover split in two");
                }
                ++ctx.validated;
            });
        });
        ctx.dims["configurations"] += ctx.shard == 0;
    }
}
