// N04: GR4J and GR6J reproduce the published equations; N05: the triangular (MAXBAS) transfer function.
#include <cmath>

#include "balance.h"
#include "configs.h"
#include "ref.h"
#include "surface.h"

namespace {
// Published GR equations (Perrin et al. 2003; Pushpalatha et al. 2011), one step, written from the papers.
struct GR {
    bool six = false;
    double x1, x2, x3, x4, x5 = 0, x6 = 1;
    double S = 0, R = 0, E = 0;            // production, routing, exponential stores
    std::vector<double> due1, due2;        // water already in the unit hydrographs, by remaining delay
    double exch = 0;                       // net exchange of the last step
    double sh(double t, bool two) const {
        double b = two ? 2 * x4 : x4;
        if (t <= 0) return 0;
        if (t >= b) return 1;
        if (!two) return std::pow(t / x4, 2.5);
        return t <= x4 ? 0.5 * std::pow(t / x4, 2.5) : 1 - 0.5 * std::pow(2 - t / x4, 2.5);
    }
    double enter(std::vector<double>& due, double amount, bool two) {
        size_t n = (size_t)std::ceil(two ? 2 * x4 : x4);
        if (due.size() < n + 1) due.resize(n + 1, 0.0);
        for (size_t j = 0; j < n; ++j) due[j] += amount * (sh(j + 1, two) - sh(j, two));
        double out = due[0];
        due.erase(due.begin());
        return out;
    }
    double pending() const {
        double x = 0;
        for (double d : due1) x += d;
        for (double d : due2) x += d;
        return x;
    }
    // returns discharge; interception, evaporation and PR as outputs
    double step(double P, double pet, double& ei, double& es, double& pr) {
        ei = std::min(P, pet);
        double pn = P - ei, en = pet - ei, ps = 0;
        es = 0;
        if (pn > 0) {
            double th = std::tanh(std::min(pn / x1, 13.0)), s = S / x1;
            ps = x1 * (1 - s * s) * th / (1 + s * th);
        } else {
            double th = std::tanh(std::min(en / x1, 13.0)), s = S / x1;
            es = S * (2 - s) * th / (1 + (1 - s) * th);
        }
        S += ps - es;
        double perc = S * (1 - std::pow(1 + std::pow(4.0 / 9 * S / x1, 4), -0.25));
        S -= perc;
        pr = pn - ps + perc;
        return route(pr);
    }
    double route(double pr) {
        double q9 = enter(due1, 0.9 * pr, false), q1 = enter(due2, 0.1 * pr, true);
        double F = six ? x2 * (R / x3 - x5) : x2 * std::pow(R / x3, 3.5);
        double toR = six ? 0.6 * q9 : q9;
        double r = std::max(0.0, R + toR + F);
        exch = r - (R + toR);
        double qr = r * (1 - std::pow(1 + std::pow(r / x3, 4), -0.25));
        R = r - qr;
        double qe = 0;
        if (six) {
            E += 0.4 * q9 + F;
            exch += F;
            double a = std::max(-33.0, std::min(33.0, E / x6));
            qe = a > 7 ? E + x6 / std::exp(a) : a < -7 ? x6 * std::exp(a) : x6 * std::log(std::exp(a) + 1);
            E -= qe;
        }
        double qd = std::max(0.0, q1 + F);
        exch += qd - q1;
        return std::max(0.0, qr + qe + qd);
    }
};
struct GRCase {
    std::string name;
    Spec s;
};
void setPars(GR& m, const Opts& o) {
    m.six = startsWith(o.kind, "gr6");
    m.x1 = optPar(o, "production_store", "capacity");
    m.x2 = optPar(o, "uh_input", "exchange_factor");
    m.x3 = optPar(o, "uh_input", "routing_capacity");
    m.x4 = optPar(o, "uh_input", "uh_base_time");
    if (m.six) m.x5 = optPar(o, "uh_input", "exchange_threshold"), m.x6 = optPar(o, "uh_input", "exp_store_coeff");
}
// Continuous production with a store-by-store solver: the routing of what the production delivers is the published one.
void checkGRSolved(Ctx& ctx, const GRCase& c, const std::vector<int>& seq, int tail) {
    const Spec& s = c.s;
    auto v = symSeq(seq);
    for (int i = 0; i < tail; ++i) v.push_back(i % 3 == 1 ? Sym{2, 4, 1.2, 0, 8} : Sym{0, 3, 0.8, -1, 8});
    Sim sim(s);
    if (!sim.init() || !sim.forcing({v}) || !sim.run()) {
        ctx.fail("rejected", sim.error);
        return;
    }
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    GR m;
    setPars(m, s.o);
    double stored = 0;
    for (int t = 0; t < s.steps; ++t) {
        ++ctx.transitions;
        ctx.state(hashRec(r, t));
        double pr = (*r.huv("ground_soil:runoff:output"))(t, 0) + (*r.huv("production_store:percolation:output"))(t, 0);
        double out = m.route(pr), got = (*r.huv("uh_input:routing:output"))(t, 0), w = (*r.huv("uh_input:water_content"))(t, 0);
        stored += pr - out + (m.six ? 0 : m.exch);
        if (!close(got, out, 2e-6, 2e-6)) {
            ctx.fail("routing", fmt("step %d: %.9g mm routed out, the published equations give %.9g for the %.9g mm received", t + 1, got, out, pr));
            return;
        }
        if (!close(w, stored, 2e-6, 2e-6)) {
            ctx.fail("routed water", fmt("step %d: %.9g mm in the routing element, in-out+exchange is %.9g", t + 1, w, stored));
            return;
        }
        ++ctx.validated;
    }
}
void checkGR(Ctx& ctx, const GRCase& c, const std::vector<int>& seq, int tail) {
    const Spec& s = c.s;
    const double tol = 2e-6;
    std::vector<std::vector<Sym>> f;
    for (size_t u = 0; u < s.units.size(); ++u) {
        auto v = symSeq(seq);
        if (u) std::rotate(v.begin(), v.begin() + 1, v.end());
        for (int i = 0; i < tail; ++i) v.push_back(i % 3 == 1 ? Sym{2, 4, 1.2, 0, 8} : Sym{0, 3, 0.8, -1, 8});
        f.push_back(v);
    }
    Sim sim(s);
    if (!sim.init() || !sim.forcing(f) || !sim.run()) {
        ctx.fail("rejected", sim.error);
        return;
    }
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    double total = 0, area = 0;
    for (auto& u : s.units) area += u.area;
    std::vector<GR> g(s.units.size());
    std::vector<CoverState> cs(s.units.size());
    std::vector<double> stored(s.units.size(), 0.0);
    auto bad = [&](const std::string& l, int t, int k, double got, double want) {
        if (close(got, want, tol, tol)) return false;
        ctx.fail(l, fmt("unit %d step %d: %s is %.9g, the published equations give %.9g", s.units[k].id, t + 1, l.c_str(), got, want));
        return true;
    };
    for (int t = 0; t < s.steps; ++t) {
        ++ctx.transitions;
        ctx.state(hashRec(r, t));
        double q = 0;
        for (size_t k = 0; k < s.units.size(); ++k) {
            GR& m = g[k];
            setPars(m, s.o);
            Amounts a;
            refCover(s.o, s.units[k], s.units[k].covers[0], f[k][t], 1, 0, 0, cs[k], a, true);
            double ei, es, pr, out = m.step(cs[k].liquid, f[k][t].e, ei, es, pr), share = s.units[k].area / area;
            q += out * share;
            const std::string cover = s.units[k].covers[0].name;
            if (bad("interception", t, k, (*r.huv(cover + ":interception:output"))(t, k), ei)) return;
            if (bad("evaporation", t, k, (*r.huv("production_store:et:output"))(t, k), es)) return;
            if (bad("production", t, k, (*r.huv("production_store:production:output"))(t, k), pr)) return;
            if (bad("production store", t, k, (*r.huv("production_store:water_content"))(t, k), m.S)) return;
            if (bad("routing", t, k, (*r.huv("uh_input:routing:output"))(t, k), out * share)) return;
            // the water in the routing element: what entered and has not left
            stored[k] += pr - out + (m.six ? 0 : m.exch);
            if (bad("routed water", t, k, (*r.huv("uh_input:water_content"))(t, k), stored[k])) return;
            if (bad("internal storage", t, k, (*r.huv("uh_input:routing:internal_storage"))(t, k), m.R + m.E + m.pending())) return;
            ++ctx.validated;
        }
        if (bad("discharge", t, 0, (*r.subv("outlet"))[t], q)) return;
        total += q;
    }
}
}  // namespace

PROPERTY(N04) {
    struct P {
        double x1, x2, x3, x4, x5, x6;
    };
    std::vector<P> ps;
    for (double x4 : {0.5, 1.0, 1.7, 2.4, 4.0})
        for (double x2 : {0.0, -2.5, 1.5}) {
            ps.push_back({350, x2, 90, x4, 0.3, 4});
            ps.push_back({20, x2, 8, x4, -0.2, 15});
        }
    if (ctx.thorough())
        for (double x1 : {5.0, 60.0, 900.0})
            for (double x2 : {-6.0, 0.4})
                for (double x3 : {3.0, 40.0})
                    for (double x4 : {0.8, 3.3, 7.9}) ps.push_back({x1, x2, x3, x4, 0.6, 1.5});
    auto params = [](Spec& s, const P& p) {
        s.o.params.push_back({"production_store", "capacity", (float)p.x1});
        s.o.params.push_back({"uh_input", "exchange_factor", (float)p.x2});
        s.o.params.push_back({"uh_input", "routing_capacity", (float)p.x3});
        s.o.params.push_back({"uh_input", "uh_base_time", (float)p.x4});
        if (startsWith(s.o.kind, "gr6")) {
            s.o.params.push_back({"uh_input", "exchange_threshold", (float)p.x5});
            s.o.params.push_back({"uh_input", "exp_store_coeff", (float)p.x6});
        }
    };
    for (std::string kind : {"gr4js", "gr6js"})
        for (auto& sv : allSolvers())
            for (auto& p : ps) {
                if (sv == "rk4" || endsWith(sv, "explicit")) continue;
                if (p.x4 != 0.5 && p.x4 != 1.7 && ctx.quick()) continue;
                GRCase c;
                Spec& s = c.s;
                s.o.kind = kind;
                s.o.snow = false;
                s.solver = sv;
                s.units = {Unit{1, 1e6, 900, {{"ground", "ground", 1.0}}, 10}};
                surfaceParams(s.o, coverUnion(s.units), 1);
                params(s, p);
                c.name = fmt("%s/%s/x1=%g,x2=%g,x3=%g,x4=%g", kind.c_str(), sv.c_str(), p.x1, p.x2, p.x3, p.x4);
                int depth = ctx.thorough() ? 5 : 4, tail = (int)std::ceil(2 * p.x4) + 3;
                s.steps = depth + tail;
                ctx.dims["configurations"] += ctx.shard == 0;
                sequences(kAlphabet.size(), depth, [&](const std::vector<int>& seq) { ctx.run(c.name + "/" + seqStr(seq), [&] { checkGRSolved(ctx, c, seq, tail); }); });
            }
    for (std::string kind : {"gr4j", "gr6j"})
        for (std::string sn : {"none", "dd", "cns"})
            for (auto& p : ps)
                for (int nu : {1, 2}) {
                    if (sn != "none" && p.x2 != 0 && ctx.quick()) continue;
                    if (nu == 2 && (p.x4 != 1.7 || sn == "dd")) continue;
                    GRCase c;
                    Spec& s = c.s;
                    s.o.kind = kind;
                    snowOption(s.o, sn);
                    s.o.params.clear();
                    s.start = "2020-12-30";
                    s.units = {Unit{1, 1e6, 900, {{"open", "generic_land_cover", 1.0}}, 10}};
                    if (nu == 2) s.units.push_back(Unit{2, 3e6, 1700, {{"open", "generic_land_cover", 1.0}}, 10});
                    surfaceParams(s.o, coverUnion(s.units), p.x1 > 100);
                    params(s, p);
                    c.name = fmt("%s/%s/x1=%g,x2=%g,x3=%g,x4=%g/%du", kind.c_str(), sn.c_str(), p.x1, p.x2, p.x3, p.x4, nu);
                    int depth = ctx.thorough() ? 5 : 4, tail = (int)std::ceil(2 * p.x4) + 3;
                    s.steps = depth + tail;
                    ctx.dims["configurations"] += ctx.shard == 0;
                    sequences(kAlphabet.size(), depth, [&](const std::vector<int>& seq) { ctx.run(c.name + "/" + seqStr(seq), [&] { checkGR(ctx, c, seq, tail); }); });
                }
}

namespace {
struct MaxbasCase {
    std::string name;
    Spec s;
    bool exact = true;                 // the inflow of the step is known when the transfer function is evaluated
    std::string brick;
    double maxbas;
    double next = 0;                   // base of a second run that goes on from the first one
    std::vector<std::string> inflows;  // labels of the amounts that enter the transfer function
};
// share of the water of a step delivered within the first t steps: integral of an isosceles triangle of base m
double triangle(double t, double m) {
    m = std::max(m, 1.0);
    double x = std::min(t, m), h = 2 / m;  // height of the triangle of unit area
    double rising = std::min(x, m / 2), falling = x - rising;
    return rising * (h * rising / (m / 2)) / 2 + falling * (h + h * (m / 2 - falling) / (m / 2)) / 2;
}
// Deliveries of a run of base m, with what was still to come at its start: old[j] is due in step j + 1
bool delivers(Ctx& ctx, const MaxbasCase& c, Sim& sim, double m, std::vector<std::vector<double>>& old) {
    const Spec& s = c.s;
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    const double tol = 2e-6;
    double area = 0;
    for (auto& u : s.units) area += u.area;
    std::vector<double> q(s.steps, 0.0);
    for (size_t k = 0; k < s.units.size(); ++k) {
        double share = s.units[k].area / area, sumIn = 0, sumOut = 0, dueBefore = 0, peak = 0, held = 0;
        for (double x : old[k]) held += x;
        std::vector<double> in;
        for (int t = 0; t < s.steps; ++t) {
            ++ctx.transitions;
            ctx.state(hashRec(r, t));
            double x = 0;
            for (auto& l : c.inflows) x += (*r.huv(l))(t, k);
            in.push_back(x);
            double out = (*r.huv(c.brick + ":routing:output"))(t, k) / share;
            q[t] += out * share;
            sumIn += x;
            sumOut += out;
            double due = 0;
            for (int i = 0; i <= t; ++i) due += in[i] * triangle(t - i + 1, m);
            for (int i = 0; i <= t && i < (int)old[k].size(); ++i) due += old[k][i];
            // A stage-averaging scheme estimates the share of the current step before the inflow is settled, and settles the
            // difference in the next step: nothing older may be late, nothing younger early.
            peak = std::max(peak, x);
            double lo = c.exact ? due : dueBefore, hi = c.exact ? due : std::min(held + sumIn, due + 6 * triangle(1, m) * peak);
            if (sumOut < lo - tol - 1e-9 * lo || sumOut > hi + tol + 1e-9 * hi) {
                ctx.fail("delivery", fmt("unit %d step %d: %.9g mm delivered so far of the %.9g mm held and %.9g mm received, the triangle of base %g gives %.9g (%.9g a step before)",
                                         s.units[k].id, t + 1, sumOut, held, sumIn, m, due, dueBefore));
                return false;
            }
            double w = (*r.huv(c.brick + ":water_content"))(t, k), p = (*r.huv(c.brick + ":routing:internal_storage"))(t, k);
            if (!close(w, held + sumIn - sumOut, tol, tol)) {
                ctx.fail("content", fmt("unit %d step %d: %.9g mm held, received-delivered is %.9g", s.units[k].id, t + 1, w, held + sumIn - sumOut));
                return false;
            }
            if (!close(p, held + sumIn - sumOut, tol, tol)) {
                ctx.fail("in transit", fmt("unit %d step %d: %.9g mm reported in transit, received-delivered is %.9g", s.units[k].id, t + 1, p, held + sumIn - sumOut));
                return false;
            }
            dueBefore = due;
        }
        // what is still to come, by step
        std::vector<double> rest;
        for (int j = 1; j < (int)std::ceil(std::max(m, 1.0)) + 1; ++j) {
            double x = 0;
            for (int i = 0; i < s.steps; ++i) x += in[i] * (triangle(s.steps - i + j, m) - triangle(s.steps - i + j - 1, m));
            rest.push_back(x);
        }
        double late = held + sumIn - sumOut;  // a stage-averaging scheme owes the difference in the next step
        for (double x : rest) late -= x;
        rest[0] += late;
        // no water waits longer than the base of the next run
        size_t n = (size_t)std::ceil(std::max(c.next, 1.0));
        while (rest.size() > n) {
            rest[rest.size() - 2] += rest.back();
            rest.pop_back();
        }
        old[k] = rest;
    }
    for (int t = 0; t < s.steps; ++t)
        if (!close((*r.subv("outlet"))[t], q[t], tol, tol)) {
            ctx.fail("outlet", fmt("step %d: %.9g mm at the outlet, the units deliver %.9g", t + 1, (*r.subv("outlet"))[t], q[t]));
            return false;
        }
    return true;
}
void checkMaxbas(Ctx& ctx, const MaxbasCase& c, const std::vector<int>& seq, int tail) {
    const Spec& s = c.s;
    std::vector<std::vector<Sym>> f;
    for (size_t u = 0; u < s.units.size(); ++u) {
        auto v = symSeq(seq);
        if (u) std::rotate(v.begin(), v.begin() + 1, v.end());
        std::vector<Sym> dry;
        for (int i = 0; i < tail; ++i) dry.push_back(i == 2 ? Sym{7, 6, 0.4} : Sym{0, 3, 0.8});
        v.insert(c.next > 0 ? v.begin() : v.end(), dry.begin(), dry.end());
        f.push_back(v);
    }
    Sim sim(s);
    if (!sim.init() || !sim.forcing(f) || !sim.run()) {
        ctx.fail("rejected", sim.error);
        return;
    }
    std::vector<std::vector<double>> old(s.units.size());
    if (!delivers(ctx, c, sim, c.maxbas, old)) return;
    if (c.next > 0) {
        sim.m->SaveAsInitialState();
        (void)sim.sm->SetParameterValue(c.brick, "maxbas", (float)c.next);
        sim.m->UpdateParameters(*sim.sm);
        sim.m->Reset();
        if (!sim.run()) {
            ctx.fail("run", sim.error);
            return;
        }
        if (!delivers(ctx, c, sim, (double)(float)c.next, old)) return;
    }
    ++ctx.validated;
}
}  // namespace

PROPERTY(N05) {
    std::vector<double> bases = {0.4, 1.0, 1.3, 2.0, 2.03, 2.7, 3.5, 4.06, 5.0};
    if (ctx.thorough()) bases = {0.4, 0.99, 1.0, 1.01, 1.3, 1.5, 2.0, 2.03, 2.4, 2.7, 3.0, 3.5, 4.06, 4.2, 5.0, 6.6, 9.0};
    const std::vector<Sym> dummy;
    std::vector<MaxbasCase> cases;
    for (auto& sv : allSolvers()) {
        bool seq = !(endsWith(sv, "explicit") || sv == "rk4");
        for (double b : bases)
            for (int nu : {1, 2}) {
                ProcDef route{"routing", "routing:hbv", "outlet", {{"maxbas", b}}};
                std::vector<Unit> units = {Unit{1, 1e6, 900, coverSet("G"), 10}};
                if (nu == 2) units.push_back(Unit{2, 3e6, 1700, coverSet("G"), 10});
                for (std::string kind : {"direct", "linear", "two", "hbv"}) {
                    if (nu == 2 && (b != 2.7 && b != 1.0)) continue;
                    MaxbasCase c;
                    c.s.solver = sv;
                    c.s.units = units;
                    c.maxbas = b;
                    c.exact = seq || kind == "direct";
                    Opts& o = c.s.o;
                    o.snow = false;
                    o.kind = "custom";
                    c.brick = "r";
                    if (kind == "direct") {
                        o.stores = {{"r", -1, {route}}};
                        c.inflows = {"ground:transfer:output"};
                    } else if (kind == "linear") {
                        o.stores = {{"up", -1, {{"outflow", "outflow:linear", "r", {{"response_factor", 0.45}}}}}, {"r", -1, {route}}};
                        c.inflows = {"up:outflow:output"};
                    } else if (kind == "two") {
                        o.stores = {{"up", 14, {{"outflow", "outflow:linear", "low", {{"response_factor", 0.45}}}, {"overflow", "overflow", "r", {}}}},
                                    {"low", -1, {{"outflow", "outflow:linear", "r", {{"response_factor", 0.21}}}}},
                                    {"r", -1, {route}}};
                        c.inflows = {"up:overflow:output", "low:outflow:output"};
                    } else {
                        o.kind = "hbv";
                        o.params = {{"routing", "maxbas", (float)b}, {"soil_moisture", "capacity", 18.f}, {"upper_zone", "percolation_rate", 1.1f}};
                        c.brick = "routing";
                        c.inflows = {"upper_zone:runoff:output", "lower_zone:outflow:output", "soil_moisture:overflow:output"};
                    }
                    c.maxbas = (double)(float)b;
                    c.name = fmt("%s/%s/base=%g/%du", kind.c_str(), sv.c_str(), b, nu);
                    cases.push_back(c);
                    for (double n : bases)
                        if (c.exact && (ctx.thorough() || (nu == 1 && (n == 1.0 || n == 1.3 || n == 2.7 || n == 5.0)))) {
                            MaxbasCase d = c;
                            d.next = n;
                            d.name += fmt("/next=%g", n);
                            cases.push_back(d);
                        }
                }
            }
    }
    for (auto& c : cases) {
        int depth = ctx.thorough() && c.next <= 0 ? 4 : 3, tail = (int)std::ceil(std::max(c.maxbas, c.next)) + 3;
        c.s.steps = depth + tail;
        ctx.dims["configurations"] += ctx.shard == 0;
        sequences(kAlphabet.size(), depth, [&](const std::vector<int>& seq) { ctx.run(c.name + "/" + seqStr(seq), [&] { checkMaxbas(ctx, c, seq, tail); }); });
    }
}
