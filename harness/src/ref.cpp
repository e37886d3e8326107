#include "ref.h"

#include <cmath>

namespace {
constexpr double kTiny = 1e-8;  // a store holding less than this counts as empty
using V = std::vector<double>;

struct Net {
    const std::vector<StoreDef>& st;
    RefIn in;
    std::vector<int> first;   // index of the first process of a store in the flat list
    std::vector<int> owner, target;
    std::vector<int> over;    // flat index of the overflow process of a store or -1
    int n = 0, m = 0;
    Net(const std::vector<StoreDef>& s, const RefIn& i) : st(s), in(i) {
        n = st.size();
        over.assign(n, -1);
        for (int k = 0; k < n; ++k) {
            first.push_back(m);
            for (auto& p : st[k].procs) {
                owner.push_back(k);
                int t = -1;
                for (int q = 0; q < n; ++q)
                    if (st[q].name == p.target) t = q;
                target.push_back(t);
                if (p.type == "overflow") over[k] = m;
                ++m;
            }
        }
    }
    double rate(int k, int j, const V& S) const {
        const ProcDef& p = st[k].procs[j];
        double c = S[k];
        if (c <= kTiny) return 0;
        auto fill = [&](int q) { return std::min(1.0, std::max(0.0, S[q] / (double)(float)st[q].cap)); };
        auto par = [&](const char* n) { return (double)(float)p.par(n); };
        const std::string& t = p.type;
        if (t == "outflow:linear") return par("response_factor") * c;
        if (t == "percolation:constant") return par("percolation_rate");
        if (t == "outflow:threshold") return std::max(0.0, c - par("capacity")) / in.h;
        if (t == "outflow:direct") return c;
        if (t == "overflow") return 0;
        if (t == "et:socont") return in.pet * std::sqrt(fill(k));
        if (t == "et:linear") return in.pet * fill(k);
        if (t == "et:power_law") return in.pet * std::pow(fill(k), par("exponent"));
        if (t == "et:exponential") return in.pet * (1 - std::exp(-par("alpha") * fill(k)));
        if (t == "et:hbv") return par("et_correction_factor") * in.pet * std::min(1.0, c / (par("lp") * (double)(float)st[k].cap));
        if (t == "et:open_water") return std::min(in.pet, c / in.h);
        if (t == "runoff:hbv") return par("response_factor") * std::pow(c, 1 + par("alpha"));
        if (t == "runoff:socont") {
            // kinematic wave on an inclined plane: h = 2 x mean depth, q = beta J^0.5 h^(5/3), over the area
            double hh = 2 * c / 1000;
            double q = par("beta") * std::sqrt(in.slope) * std::pow(hh, 5.0 / 3) / in.area * 86400 * 1000;
            return std::min(q, c);
        }
        if (t == "capillary:hbv") {
            int q = target[first[k] + j];
            return par("max_capillary_flux") * p.weight * (1 - fill(q));
        }
        throw std::runtime_error("harness: no reference for " + t);
    }
    V rates(const V& S) const {
        V r(m);
        for (int k = 0; k < n; ++k)
            for (size_t j = 0; j < st[k].procs.size(); ++j) r[first[k] + j] = rate(k, j, S);
        return r;
    }
    double inRate(int k, const V& r) const {
        double x = 0;
        for (int i = 0; i < m; ++i)
            if (target[i] == k) x += r[i];
        return x;
    }
    double outRate(int k, const V& r) const {
        double x = 0;
        for (size_t j = 0; j < st[k].procs.size(); ++j) x += r[first[k] + j];
        return x;
    }
    // one store: no more than the available water leaves, in proportion to the demands; the water above
    // the capacity leaves by the overflow
    bool limitStore(int k, V& r, double avail, double inflow) const {
        bool hit = false;
        double out = outRate(k, r), net = inflow - out;
        if (net < 0 && avail + net * in.h < 0) {
            hit = true;
            double ok = std::max(0.0, avail / in.h + inflow);
            for (size_t j = 0; j < st[k].procs.size(); ++j) r[first[k] + j] *= ok / out;
        }
        if (st[k].cap > 0 && over[k] >= 0) {
            double ex = avail + net * in.h - (double)(float)st[k].cap;
            if (ex > 0) {
                hit = true;
                r[over[k]] += ex / in.h;
            }
        }
        return hit;
    }
    bool limit(V& r, const V& avail) const {
        bool hit = false;
        for (int k = 0; k < n; ++k)
            if (over[k] >= 0) r[over[k]] = 0;  // the overflow is whatever exceeds the capacity, never an average
        for (int sweep = 0; sweep < 10; ++sweep) {
            V b = r;
            for (int k = 0; k < n; ++k) hit |= limitStore(k, r, avail[k], inRate(k, r));
            double d = 0;
            for (int i = 0; i < m; ++i) d = std::max(d, std::fabs(b[i] - r[i]));
            if (d <= 1e-8) break;
        }
        return hit;
    }
    V advance(const V& S0, const V& I, const V& r) const {
        V s(n);
        for (int k = 0; k < n; ++k) s[k] = S0[k] + I[k] + in.h * (inRate(k, r) - outRate(k, r));
        return s;
    }
};
V mid(const V& a, const V& b) {
    V r(a.size());
    for (size_t i = 0; i < a.size(); ++i) r[i] = a[i] + (b[i] - a[i]) / 2;
    return r;
}
}  // namespace

RefOut refStores(const std::string& solver, const std::vector<StoreDef>& st, const V& S0, const V& I, const RefIn& in) {
    Net g(st, in);
    RefOut o;
    V avail(g.n), r;
    for (int k = 0; k < g.n; ++k) avail[k] = S0[k] + I[k];
    double h = in.h;
    if (solver == "euler_explicit" || solver == "heun_explicit" || solver == "rk4") {
        V k1 = g.rates(S0);
        o.limited |= g.limit(k1, avail);
        if (solver == "euler_explicit") r = k1;
        else if (solver == "heun_explicit") {
            V k2 = g.rates(g.advance(S0, I, k1));
            r.resize(g.m);
            for (int i = 0; i < g.m; ++i) r[i] = (k1[i] + k2[i]) / 2;
            o.limited |= g.limit(r, avail);
        } else {
            V k2 = g.rates(mid(S0, g.advance(S0, I, k1)));
            o.limited |= g.limit(k2, avail);
            V k3 = g.rates(mid(S0, g.advance(S0, I, k2)));
            o.limited |= g.limit(k3, avail);
            V k4 = g.rates(g.advance(S0, I, k3));
            r.resize(g.m);
            for (int i = 0; i < g.m; ++i) r[i] = (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6;
            o.limited |= g.limit(r, avail);
        }
        o.content = g.advance(S0, I, r);
    } else {
        // store by store, in order; the outflows of the stores before are known inflows
        r.assign(g.m, 0);
        V S = S0, got = I;
        for (int k = 0; k < g.n; ++k) {
            double inflow = got[k] / h;
            int np = st[k].procs.size();
            auto total = [&](double x) {
                V T = S;
                T[k] = x;
                double q = 0;
                for (int j = 0; j < np; ++j) q += g.rate(k, j, T);
                return q;
            };
            auto each = [&](double x) {
                V T = S, q(np);
                T[k] = x;
                for (int j = 0; j < np; ++j) q[j] = g.rate(k, j, T);
                return q;
            };
            double s0 = S0[k];
            V q0 = each(s0), q(np, 0.0);
            double t0 = total(s0);
            if (solver == "implicit_euler" || solver == "crank_nicolson") {
                double w = solver == "implicit_euler" ? 1.0 : 0.5;
                auto f = [&](double x) { return x - s0 - h * (inflow - (1 - w) * t0 - w * total(x)); };
                double lo = 0, hi = s0 + h * inflow + 1e-9;
                for (int it = 0; it < 200; ++it) {
                    double x = (lo + hi) / 2;
                    (f(x) > 0 ? hi : lo) = x;
                }
                V q1 = each(hi);
                for (int j = 0; j < np; ++j) q[j] = (1 - w) * q0[j] + w * q1[j];
            } else if (solver == "analytic_linear") {
                double kl = 0, fr = 0;
                for (int j = 0; j < np; ++j)
                    if (st[k].procs[j].type == "outflow:linear") kl += (double)(float)st[k].procs[j].par("response_factor");
                    else fr += q0[j];
                double net = inflow - fr;
                double s1 = kl > 0 ? s0 * std::exp(-kl * h) + net / kl * (1 - std::exp(-kl * h)) : 0;
                double out = kl > 0 ? std::max(0.0, net - (s1 - s0) / h) : 0;
                for (int j = 0; j < np; ++j)
                    q[j] = st[k].procs[j].type == "outflow:linear" ? out * (double)(float)st[k].procs[j].par("response_factor") / kl : q0[j];
            } else if (solver == "exponential_euler") {
                double eps = std::max(0.001, 0.001 * std::max(s0, s0 + h * inflow));
                double sl = (total(s0 + eps) - t0) / eps;
                if (sl <= 1e-10) q = q0;
                else {
                    double s1 = std::max(0.0, s0 + (inflow - t0) / sl * (1 - std::exp(-sl * h)));
                    double tot = std::max(0.0, inflow - (s1 - s0) / h);
                    V q1 = each(s1);
                    double w = 0;
                    for (int j = 0; j < np; ++j) w += q0[j] + q1[j];
                    for (int j = 0; j < np; ++j) q[j] = w > 0 ? tot * (q0[j] + q1[j]) / w : 0;
                }
            } else
                throw std::runtime_error("harness: solver " + solver);
            for (int j = 0; j < np; ++j) r[g.first[k] + j] = q[j];
            o.limited |= g.limitStore(k, r, s0, inflow);
            for (int j = 0; j < np; ++j) {
                int t = g.target[g.first[k] + j];
                if (t >= 0) got[t] += r[g.first[k] + j] * h;
            }
        }
        o.content = g.advance(S0, I, r);
    }
    o.amount.resize(g.n);
    for (int k = 0; k < g.n; ++k)
        for (size_t j = 0; j < st[k].procs.size(); ++j) o.amount[k].push_back(r[g.first[k] + j] * h);
    return o;
}
