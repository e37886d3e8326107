// S02: snow moved between hydro units follows the declared rule and connections.
#include <algorithm>
#include <cmath>

#include "configs.h"
#include "surface.h"

namespace {
// dry/mild, large and moderate snowfall, snow and rain at the limit, melt
const std::vector<Sym> kSnow = {{0, 2, 1}, {60, -6, 0.2}, {1700, -4, 0.1}, {25, 1.0, 0.5}, {4, 7, 2}, {250, -12, 0}};

struct LatCase {
    std::string name;
    Spec s;
};
struct Pack {
    double density = 250, prev = 0;  // snow density and content remembered by the dynamic rule
};
// Potential excess [mm/step-day] that leaves a pack holding swe mm
double excess(const Opts& o, const Unit& u, const std::string& pk, double swe, double rho) {
    double slope = u.slope;
    if (o.redistribution == "transport:snow_slide") {
        double sl = std::max(slope, optPar(o, pk, "min_slope"));
        double hold = 1000 * optPar(o, pk, "coeff") * std::pow(sl, optPar(o, pk, "exp"));
        double lowest = optPar(o, pk, "min_snow_holding_depth"), deepest = optPar(o, pk, "max_snow_depth");
        if (slope > optPar(o, pk, "max_slope")) hold = lowest;
        hold = std::max(hold, lowest);
        if (deepest > 0) hold = std::min(hold, deepest);
        return std::min(1000.0, std::max(0.0, swe - hold / 4));
    }
    double rmax = optPar(o, pk, "rho_max");
    if (rho >= rmax) return 0;
    double e = std::max(0.0, swe - optPar(o, pk, "snow_holding_capacity") * rho / 1000);
    return std::min(1000.0, e * (rmax - rho) / rmax * std::exp(-rho / rmax) * slope / 90 * optPar(o, pk, "correction"));
}
double freshDensity(const Opts& o, const std::string& pk, double temp) {
    double lo = optPar(o, pk, "rho_min"), hi = optPar(o, pk, "rho_fresh_max");
    double x = temp / optPar(o, pk, "rho_scale") + optPar(o, pk, "t_scale");
    return lo + (hi - lo) * (1 + x / std::sqrt(1 + x * x)) / 2;
}

void checkLateral(Ctx& ctx, const LatCase& c, const std::vector<int>& seq) {
    const Spec& s = c.s;
    const Opts& o = s.o;
    const int n = s.units.size();
    std::vector<std::vector<Sym>> f(n);
    for (int k = 0; k < n; ++k)
        for (int t = 0; t < s.steps; ++t) {
            Sym x = kSnow[seq[(t + (k == 1)) % seq.size()]];
            x.t -= 1.5 * k;
            f[k].push_back(x);
        }
    Sim sim(s);
    if (!sim.init() || !sim.m->IsValid() || !sim.forcing(f) || !sim.run()) {
        ctx.fail("rejected", sim.error);
        return;
    }
    Rec r = record(*sim.m);
    if (getenv("HB_DUMP")) dumpRec(r);
    const double h = stepDays(s);
    bool dynamic = endsWith(o.redistribution, "dynamic"), slide = endsWith(o.redistribution, "slide");
    std::vector<std::map<std::string, CoverState>> st(n);
    std::vector<std::map<std::string, Pack>> packs(n);
    auto index = [&](int id) {
        for (int k = 0; k < n; ++k)
            if (s.units[k].id == id) return k;
        return -1;
    };
    for (int t = 0; t < s.steps; ++t) {
        ++ctx.transitions;
        ctx.state(hashRec(r, t));
        std::vector<std::map<std::string, double>> early(n), late(n), start(n);
        for (int k = 0; k < n; ++k)
            for (auto& cv : s.units[k].covers) start[k][cv.name] = st[k][cv.name].snow;
        for (int k = 0; k < n; ++k) {
            const Unit& u = s.units[k];
            for (auto& cv : u.covers) {
                if (cv.frac == 0) continue;
                CoverState& x = st[k][cv.name];
                const std::string pk = cv.name + "_snowpack";
                x.snow += early[k][cv.name];
                Amounts a;
                refCover(o, u, cv, f[k][t], h, 100, 0, x, a, false);
                for (auto& e : a) {
                    if (!startsWith(e.first, pk)) continue;
                    const axxd* v = r.huv(e.first + ":output");
                    if (v && !close((*v)(t, k), e.second, 1e-6, 1e-6)) {
                        ctx.fail("flux", fmt("unit %d step %d: %s is %.9g, expected %.9g", u.id, t + 1, e.first.c_str(), (*v)(t, k), e.second));
                        return;
                    }
                }
                double rho = dynamic ? packs[k][cv.name].density : slide ? 250.0 : optPar(o, pk, "snow_density");
                double ex = excess(o, u, pk, x.snow, rho);
                // shares along the declared connections
                struct To {
                    int unit;
                    std::string cover;
                    double rate;
                };
                std::vector<To> to;
                double sum = 0;
                for (auto& l : s.laterals) {
                    if (l.from != u.id) continue;
                    int d = index(l.to);
                    for (auto& tc : s.units[d].covers) {
                        double rate = ex * l.frac * tc.frac;
                        // no delivery onto an unrealistic accumulation
                        double cap = 1.5 * optPar(o, pk, "max_snow_depth") * rho / 1000;
                        if (cap > 0 && start[d][tc.name] > cap + 1e-6) rate = 0;
                        else if (cap > 0 && start[d][tc.name] > cap - 1e-6) {
                            ++ctx.dims["undecided cases"];
                            return;
                        }
                        to.push_back({d, tc.name, rate});
                        sum += rate;
                    }
                }
                double scale = sum * h > x.snow && sum > 0 ? x.snow / (sum * h) : 1;
                double sent = 0;
                for (size_t i = 0; i < to.size(); ++i) {
                    const Unit& d = s.units[to[i].unit];
                    double tf = 0;
                    for (auto& tc : d.covers)
                        if (tc.name == to[i].cover) tf = tc.frac;
                    if (tf == 0) continue;
                    double ratio = (u.area * cv.frac) / (d.area * tf), amount = to[i].rate * h * scale;
                    if (amount > 1e-9) ++ctx.dims["deliveries"];
                    else if (ex > 0) ++ctx.dims["refused deliveries"];
                    if (scale < 1) ++ctx.dims["limited deliveries"];
                    sent += amount;
                    (to[i].unit > k ? early : late)[to[i].unit][to[i].cover] += amount * ratio;
                }
                x.snow -= sent;
            }
        }
        for (int k = 0; k < n; ++k)
            for (auto& cv : s.units[k].covers) {
                if (cv.frac == 0) continue;
                CoverState& x = st[k][cv.name];
                x.snow += late[k][cv.name];
                const std::string pk = cv.name + "_snowpack";
                double v = (*r.huv(pk + ":snow_content"))(t, k);
                if (!close(v, x.snow, 3e-6, 3e-6)) {
                    ctx.fail("content", fmt("unit %d step %d: %s holds %.9g mm, expected %.9g (received %.9g before and %.9g after its own processes)", s.units[k].id, t + 1,
                                            pk.c_str(), v, x.snow, early[k][cv.name], late[k][cv.name]));
                    return;
                }
                x.snow = v;
                if (dynamic) {
                    Pack& p = packs[k][cv.name];
                    double rmax = optPar(o, pk, "rho_max"), settled = p.density + (rmax - p.density) * std::min(1.0, optPar(o, pk, "rho_settling") * h);
                    double fresh = std::max(0.0, v - p.prev), old = std::min(v, p.prev), rf = freshDensity(o, pk, f[k][t].t);
                    if (v <= 1e-12) p.density = rf;
                    else p.density = (old * settled + fresh * rf) / (old + fresh);
                    p.prev = v;
                }
                ++ctx.validated;
            }
    }
}
}  // namespace

PROPERTY(S02) {
    std::vector<LatCase> cases;
    auto mk = [&](const std::string& red, const std::string& cov, const std::string& topo, int number, int order, bool sub, const std::string& solver) {
        const int variant = number % 2, odd = number / 2;  // odd: parameters at their limits
        LatCase c;
        Spec& s = c.s;
        s.solver = solver;
        s.o.kind = "socont";
        s.o.redistribution = red;
        s.o.noMeltWhenSnow = 0;
        if (sub) {
            s.step = 6;
            s.unit = "hour";
        }
        Unit a{1, 0.7e6, 2100, coverSet(cov), variant ? 62.0 : 35.0}, b{2, 2.0e6, 1500, coverSet(cov), variant ? 80.0 : 48.0}, d{3, 1.1e6, 900, coverSet(cov), variant ? 6.0 : 20.0};
        const bool single = b.covers.size() == 1;
        if (!single) {
            b.covers[0].frac -= 0.1;
            b.covers[1].frac += 0.1;
        }
        if (variant && !single) {  // a cover absent from one unit
            d.covers[0].frac += d.covers[1].frac;
            d.covers[1].frac = 0;
        }
        if (!variant && !single && order % 2) {  // a narrow strip of one
            d.covers[0].frac += d.covers[1].frac - 0.03;
            d.covers[1].frac = 0.03;
        }
        s.units = {a, b, d};
        if (topo == "pair") {
            s.units.pop_back();
            s.laterals = {{1, 2, 1.0}};
        } else if (topo == "chain") s.laterals = {{1, 2, 1.0}, {2, 3, 1.0}};
        else if (topo == "fan") s.laterals = {{1, 3, 0.35}, {1, 2, 0.65}, {2, 3, 0.8}};
        else if (topo == "join") s.laterals = {{1, 3, 1.0}, {2, 3, 0.5}};
        else s.laterals = {{1, 2, 0.5}, {2, 1, 0.3}, {2, 3, 0.7}, {3, 1, 0.2}};
        // listing order
        int k = order;
        while (k--) std::next_permutation(s.units.begin(), s.units.end(), [](auto& x, auto& y) { return x.id < y.id; });
        int i = 0;
        for (auto& cv : coverUnion(s.units)) {
            const std::string pk = cv.name + "_snowpack";
            auto P = [&](const char* p, double x) { s.o.params.push_back({pk, p, (float)x}); };
            {
                if (endsWith(red, "slide")) {
                    P("coeff", variant ? 3178.4 : 40);
                    P("exp", variant ? -1.998 : -1.2);
                    P("min_slope", variant ? 30 : 25);
                    P("max_slope", variant ? 75 : 40);
                    P("min_snow_holding_depth", (odd ? 300 : variant ? 40 : 90) + 7 * i);
                    P("max_snow_depth", odd ? (variant ? 0 : 150) : variant ? 2200 : 20000);
                } else {
                    P("correction", (variant ? 3 : 1) + 0.2 * i);
                    P("snow_holding_capacity", (variant ? 60 : 200) + 11 * i);
                    P("rho_max", variant ? 600 : 450);
                    P("max_snow_depth", odd ? (variant ? -1 : 0) : variant ? 2600 : 20000);
                    if (endsWith(red, "dynamic")) {
                        P("rho_min", variant ? 60 : 100);
                        P("rho_fresh_max", variant ? 140 : 300);
                        P("rho_settling", (odd ? (variant ? 5.5 : 1.7) : variant ? 0.02 : 0.3) + 0.05 * i);
                        P("rho_scale", variant ? 2.5 : 1.2);
                        P("t_scale", variant ? 0.4 : 1.0);
                    } else
                        P("snow_density", (variant ? 90 : 250) + 15 * i);
                }
            }
            ++i;
        }
        surfaceParams(s.o, coverUnion(s.units), variant);
        c.name = red.substr(10) + "/" + cov + "/" + topo + fmt("/v%d/order%d", number, order) + (sub ? "/6h" : "");
        cases.push_back(c);
    };
    for (std::string red : {"transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic"})
        for (std::string cov : {"G", "GF", "GFI"})
            for (std::string topo : {"pair", "chain", "fan", "join", "cycle"})
                for (int variant : {0, 1, 2, 3})
                    for (int order = 0; order < (topo == "pair" ? 2 : 6); ++order)
                        for (bool sub : {false, true}) {
                            if (ctx.quick() && variant > 1 && (topo == "join" || cov == "GFI" || order % 3)) continue;
                            if (ctx.quick() && (sub != (order % 2 == 1)) && topo != "pair" && cov == "GFI") continue;
                            mk(red, cov, topo, variant, order, sub, "heun_explicit");
                        }
    int depth = ctx.thorough() ? 5 : 3;
    for (auto& c : cases) {
        c.s.steps = depth;
        ctx.dims["configurations"] += ctx.shard == 0;
        sequences(kSnow.size(), depth, [&](const std::vector<int>& seq) { ctx.run(c.name + "/" + seqStr(seq), [&] { checkLateral(ctx, c, seq); }); });
    }
}
