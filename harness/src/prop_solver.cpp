// N01: every store follows its outflow equations, integrated over the step with the scheme of the chosen solver.
#include <cmath>

#include "balance.h"
#include "ref.h"

namespace {
using PV = std::vector<std::pair<std::string, double>>;
struct Node {
    const char* tag;
    StoreDef (*make)(const std::string& name, const std::string& next, int v);
};
PV k(double a, double b, int v) { return {{"response_factor", v ? b : a}}; }
const std::vector<Node>& nodes() {
    static std::vector<Node> n = {
        {"L", [](const std::string& s, const std::string& x, int v) { return StoreDef{s, -1, {{"outflow", "outflow:linear", x, k(0.31, 0.97, v)}}}; }},
        {"LL",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, -1, {{"fast", "outflow:linear", "outlet", k(0.22, 0.8, v)}, {"slow", "outflow:linear", x, k(0.06, 0.35, v)}}};
         }},
        {"LP",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, -1, {{"outflow", "outflow:linear", "outlet", k(0.18, 0.9, v)}, {"percolation", "percolation:constant", x, {{"percolation_rate", v ? 7.5 : 1.3}}}}};
         }},
        {"TL",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, -1, {{"quick", "outflow:threshold", "outlet", {{"capacity", v ? 2.5 : 21.0}}}, {"outflow", "outflow:linear", x, k(0.12, 0.6, v)}}};
         }},
        {"RP",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, -1, {{"percolation", "percolation:constant", x, {{"percolation_rate", v ? 6.5 : 0.9}}},
                                     {"runoff", "runoff:hbv", "outlet", {{"response_factor", v ? 0.17 : 0.023}, {"alpha", v ? 0.65 : 0.35}}}}};
         }},
        {"ES",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, v ? 27.0 : 210.0, {{"et", "et:socont", "", {}}, {"outflow", "outflow:linear", x, k(0.11, 0.45, v)}, {"overflow", "overflow", "outlet", {}}}};
         }},
        {"EH",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, v ? 23.0 : 190.0, {{"et", "et:hbv", "", {{"lp", v ? 0.45 : 0.85}, {"et_correction_factor", v ? 1.3 : 0.9}}},
                                                   {"outflow", "outflow:linear", x, k(0.07, 0.5, v)}, {"overflow", "overflow", "outlet", {}}}};
         }},
        {"EL",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, v ? 19.0 : 160.0, {{"et", "et:linear", "", {}}, {"outflow", "outflow:linear", x, k(0.09, 0.4, v)}, {"overflow", "overflow", x, {}}}};
         }},
        {"EP",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, v ? 31.0 : 170.0, {{"et", "et:power_law", "", {{"exponent", v ? 1.7 : 0.65}}}, {"outflow", "outflow:linear", x, k(0.13, 0.42, v)}, {"overflow", "overflow", "outlet", {}}}};
         }},
        {"EE",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, v ? 22.0 : 140.0, {{"et", "et:exponential", "", {{"alpha", v ? 0.7 : 2.6}}}, {"outflow", "outflow:linear", x, k(0.15, 0.52, v)}, {"overflow", "overflow", "outlet", {}}}};
         }},
        {"EW",
         [](const std::string& s, const std::string& x, int v) {
             return StoreDef{s, -1, {{"et", "et:open_water", "", {}}, {"outflow", "outflow:linear", x, k(0.19, 0.7, v)}}};
         }},
    };
    return n;
}
const std::vector<Sym> kInflow = {{0, 8, 0}, {0, 8, 6.5}, {11, 8, 1.5}, {58, 8, 0.4}};

struct Net {
    std::string name;
    std::vector<StoreDef> stores;
};
std::vector<Net> networks(bool thorough) {
    std::vector<Net> r;
    auto& N = nodes();
    for (int v : {0, 1}) {
        for (auto& a : N) r.push_back({fmt("%s%d", a.tag, v), {a.make("s1", "outlet", v)}});
        for (auto& a : N)
            for (auto& b : N)
                r.push_back({fmt("%s%d-%s%d", a.tag, v, b.tag, 1 - v), {a.make("s1", "s2", v), b.make("s2", "outlet", 1 - v)}});
        // upward capillary flux into a soil declared after the zone it comes from
        for (auto& b : N) {
            if (b.make("x", "", v).cap <= 0) continue;
            StoreDef z{"s1", -1, {{"capillary", "capillary:hbv", "s2", {{"max_capillary_flux", v ? 8.0 : 1.7}}}, {"outflow", "outflow:linear", "outlet", k(0.2, 0.75, v)}}};
            r.push_back({fmt("CA%d-%s%d", v, b.tag, v), {z, b.make("s2", "outlet", v)}});
        }
        if (thorough)
            for (auto& a : N)
                for (auto& b : N)
                    for (auto& c : N)
                        r.push_back({fmt("%s%d-%s%d-%s%d", a.tag, v, b.tag, v, c.tag, 1 - v),
                                     {a.make("s1", "s2", v), b.make("s2", "s3", v), c.make("s3", "outlet", 1 - v)}});
    }
    return r;
}
struct Step {
    int n;
    const char* u;
};
void checkRun(Ctx& ctx, const Spec& s, const std::string& ref, const std::vector<int>& seq) {
    std::vector<Sym> f;
    for (int i : seq) f.push_back(kInflow[i]);
    Sim sim(s);
    if (!sim.init() || !sim.forcing({f}) || !sim.run()) {
        ctx.fail("rejected", sim.error);
        return;
    }
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    auto& st = s.o.stores;
    std::vector<double> S0(st.size(), 0.0);
    const axxd* tr = r.huv("ground:transfer:output");
    for (int t = 0; t < s.steps; ++t) {
        std::vector<double> I(st.size(), 0.0);
        I[0] = (*tr)(t, 0);
        RefIn in;
        in.h = stepDays(s);
        in.pet = f[t].e;
        RefOut o = refStores(ref, st, S0, I, in);
        ++ctx.transitions;
        ctx.state(hashRec(r, t));
        if (o.limited) ctx.dims["steps_with_a_limit_reached"]++;
        for (size_t q = 0; q < st.size(); ++q) {
            double c = (*r.huv(st[q].name + ":water_content"))(t, 0);
            for (size_t j = 0; j < st[q].procs.size(); ++j) {
                std::string l = st[q].name + ":" + st[q].procs[j].name + ":output";
                double a = (*r.huv(l))(t, 0);
                if (!close(a, o.amount[q][j], 2e-6, 2e-6)) {
                    ctx.fail("outflow", fmt("step %d: %s is %.9g, the %s scheme gives %.9g (content before %.9g, inflow %.9g, potential evaporation %g)",
                                            t + 1, l.c_str(), a, ref.c_str(), o.amount[q][j], S0[q], I[q], f[t].e));
                    return;
                }
            }
            if (!close(c, o.content[q], 2e-6, 2e-6)) {
                ctx.fail("content", fmt("step %d: %s holds %.9g, the %s scheme gives %.9g", t + 1, st[q].name.c_str(), c, ref.c_str(), o.content[q]));
                return;
            }
            S0[q] = c;
        }
    }
    ++ctx.validated;
}
}  // namespace

PROPERTY(N01) {
    std::vector<Step> steps = {{1, "day"}, {6, "hour"}};
    if (ctx.thorough()) steps = {{1, "day"}, {6, "hour"}, {1, "hour"}, {2, "day"}};
    struct Name {
        const char *used, *ref;
    };
    std::vector<Name> names;
    for (auto& s : allSolvers()) names.push_back({s.c_str(), s.c_str()});
    for (Name x : {Name{"runge_kutta", "rk4"}, Name{"analytic", "analytic_linear"}, Name{"euler_implicit", "implicit_euler"}, Name{"trapezoidal", "crank_nicolson"}})
        names.push_back(x);
    for (auto& net : networks(ctx.thorough()))
        for (auto& nm : names) {
            bool synonym = std::string(nm.used) != nm.ref;
            if (synonym && net.stores.size() > 1) continue;
            for (auto& sp : steps) {
                Spec s;
                s.o.kind = "custom";
                s.o.snow = false;
                s.o.stores = net.stores;
                s.solver = nm.used;
                s.step = sp.n;
                s.unit = sp.u;
                s.steps = net.stores.size() > 2 ? 3 : net.stores.size() == 2 && ctx.quick() ? 3 : 5;
                s.units = {Unit{1, 1e6, 1000, coverSet("G"), 12}};
                ctx.dims["configurations"] += ctx.shard == 0;
                sequences(kInflow.size(), s.steps, [&](const std::vector<int>& seq) {
                    ctx.run(fmt("%s/%s/%d%s/%s", net.name.c_str(), nm.used, sp.n, sp.u, seqStr(seq).c_str()), [&] { checkRun(ctx, s, nm.ref, seq); });
                });
            }
        }
}
