// Independent water ledger over the recorded outputs of a run.
#include "balance.h"

#include <cmath>

bool isEt(const std::string& l) {
    return endsWith(l, ":et:output") || endsWith(l, ":interception:output") || endsWith(l, ":interception_et:output") ||
           endsWith(l, ":sublimation:output");
}
int coverOf(const Rec& r, const std::string& label) {
    std::string b = label.substr(0, label.find(':'));
    for (size_t j = 0; j < r.frLabels.size(); ++j)
        if (b == r.frLabels[j] || b == r.frLabels[j] + "_snowpack" || b == r.frLabels[j] + "_canopy") return j;
    return -1;
}
// Ice melt of inexhaustible glaciers, an external water source.
double iceInput(const Rec& r, const Config& c, int t, bool always) {
    if (!c.spec.o.infiniteIce && !always) return 0;
    double s = 0;
    for (auto& cv : coverUnion(c.spec.units))
        if (cv.type == "glacier")
            if (auto* v = r.huv(cv.name + ":melt:output"))
                for (int u = 0; u < v->cols(); ++u) {
                    double x = (*v)(t, u);
                    if (!std::isnan(x)) s += x;  // already scaled by the cover extent and the unit area
                }
    return s;
}
// Snow turned into ice of inexhaustible glaciers: it leaves the accounted storages.
double iceGain(const Rec& r, const Config& c, int t, bool always) {
    if (!c.spec.o.infiniteIce && !always) return 0;
    double s = 0, A = r.areas.sum();
    for (auto& cv : coverUnion(c.spec.units))
        if (cv.type == "glacier")
            if (auto* v = r.huv(cv.name + "_snowpack:snow_ice_transfo:output"))
                for (int u = 0; u < v->cols(); ++u) {
                    double x = (*v)(t, u);
                    auto* f = r.frv(cv.name);
                    if (!std::isnan(x)) s += x * (*f)(t, u) * r.areas[u] / A;
                }
    return s;
}
// Phase split used only to scale the corrected precipitation (reference, linear transition 0..2 degC).
double corrected(const Spec& s, const Sym& y) {
    double rc = 1, sc = 1;
    for (auto& p : s.o.params) {
        if (p.name == "rain_correction_factor") rc = p.value;
        if (p.name == "snow_correction_factor") sc = p.value;
    }
    if (!s.o.snow || (rc == 1 && sc == 1)) return y.p;
    double snow = y.t <= 0 ? 1 : y.t >= 2 ? 0 : (2 - y.t) / 2;
    return y.p * (snow * sc + (1 - snow) * rc);
}


double etTotal(const Rec& r, int t) {
    double et = 0, A = r.areas.sum();
    for (size_t i = 0; i < r.hu.size(); ++i) {
        if (!isEt(r.huLabels[i])) continue;
        int fr = coverOf(r, r.huLabels[i]);
        for (int u = 0; u < r.hu[i].cols(); ++u) {
            double v = r.hu[i](t, u);
            if (std::isnan(v)) continue;
            if (fr >= 0) v *= r.fr[fr](t, u);
            et += v * r.areas[u] / A;
        }
    }
    return et;
}
double waterAndSnow(const Rec& r, int t) { return storageOf(r, ":water_content", t) + storageOf(r, ":snow_content", t); }
double inputTotal(const Rec& r, const Config& c, const std::vector<std::vector<Sym>>& f, int t) {
    double in = 0, A = r.areas.sum();
    for (size_t u = 0; u < c.spec.units.size(); ++u) in += corrected(c.spec, f[u][t]) * r.areas[u] / A;
    return in;
}
