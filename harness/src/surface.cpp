#include "surface.h"

#include <algorithm>
#include <cmath>

double optPar(const Opts& o, const std::string& comp, const std::string& name) {
    for (auto it = o.params.rbegin(); it != o.params.rend(); ++it)
        if (it->comp == comp && it->name == name) return (double)it->value;
    throw std::runtime_error("harness: no parameter " + comp + ":" + name);
}
static bool has(const std::vector<std::string>& v, const std::string& n) { return std::find(v.begin(), v.end(), n) != v.end(); }

void refPhase(const Opts& o, const Unit& u, const Sym& f, double& rain, double& snow) {
    double share = 0;  // share of snow
    if (!o.snow) {
        rain = f.p * optPar(o, "rain", "rain_correction_factor");
        snow = 0;
        return;
    }
    const char* T = "snow_rain_transition";
    if (o.splitter == "snow_rain:threshold") share = f.t <= optPar(o, T, "threshold") ? 1 : 0;
    else if (o.splitter == "snow_rain:linear") {
        double a = optPar(o, T, "transition_start"), b = optPar(o, T, "transition_end");
        share = f.t <= a ? 1 : f.t >= b ? 0 : (b - f.t) / (b - a);
    } else if (o.splitter == "snow_rain:cemaneige") {
        if (u.elev >= 1500) share = f.t <= -1 ? 1 : f.t >= 3 ? 0 : (3 - f.t) / 4;
        else share = f.tmax <= 0 ? 1 : f.tmin >= 0 ? 0 : 1 - f.tmax / (f.tmax - f.tmin);
    } else
        throw std::runtime_error("harness: splitter " + o.splitter);
    rain = f.p * (1 - share) * optPar(o, T, "rain_correction_factor");
    snow = f.p * share * optPar(o, T, "snow_correction_factor");
}

static double potentialMelt(const Opts& o, const Unit& u, const std::string& melt, const std::string& comp, const Sym& f, double swe, double& cold) {
    double tm = optPar(o, comp, "melting_temperature");
    double d = f.t - tm;
    if (melt == "melt:cemaneige") {
        if (swe <= 0) return 0;
        double ctg = optPar(o, comp, "cold_content_factor");
        cold = std::min(0.0, ctg * cold + (1 - ctg) * d);
        if (cold < 0 || d <= 0) return 0;
        double g = std::min(1.0, swe / (0.9 * optPar(o, comp, "mean_annual_snow")));
        return (0.9 * g + 0.1) * optPar(o, comp, "degree_day_factor") * d;
    }
    if (d <= 0) return 0;
    if (melt == "melt:degree_day") return d * optPar(o, comp, "degree_day_factor");
    if (melt == "melt:degree_day_aspect") {
        std::string k = u.aspect == "north" || u.aspect == "N" ? "n" : u.aspect == "south" || u.aspect == "S" ? "s" : "ew";
        return d * optPar(o, comp, "degree_day_factor_" + k);
    }
    if (melt == "melt:temperature_index") return d * (optPar(o, comp, "melt_factor") + optPar(o, comp, "radiation_coefficient") * (150 + 10 * f.t));
    throw std::runtime_error("harness: melt " + melt);
}

void refCover(const Opts& o, const Unit& u, const Cover& c, const Sym& f, double h, int doy, double fill, CoverState& s, Amounts& a, bool full) {
    double rain, snow;
    refPhase(o, u, f, rain, snow);
    const std::string n = c.name, pk = n + "_snowpack", cn = n + "_canopy";
    double toCover = 0;
    bool rainToPack = o.snow && o.retention && o.rainToSnow;
    double liquid = rain;
    if (has(o.canopy, n)) {
        s.canopy += rain;
        double th = std::max(0.0, s.canopy - optPar(o, cn, "capacity"));
        s.canopy -= th;
        double et = std::min(f.e * h, s.canopy);
        s.canopy -= et;
        a[cn + ":throughfall"] = th;
        a[cn + ":interception_et"] = et;
        liquid = th;
    }
    if (rainToPack) s.pack += liquid;
    else toCover += liquid;
    if (o.snow) {
        s.snow += snow;
        double m = std::min(s.snow, h * potentialMelt(o, u, o.melt, pk, f, s.snow, s.cold));
        s.snow -= m;
        a[pk + ":melt"] = m;
        if (o.retention) {
            s.pack += m;
            double x = std::max(0.0, s.pack - optPar(o, pk, "water_holding_capacity") * s.snow);
            s.pack -= x;
            a[pk + ":meltwater"] = x;
            toCover += x;
        } else
            toCover += m;
        if (o.refreeze) {
            double d = optPar(o, pk, "melting_temperature") - f.t;
            double r = d > 0 ? std::min(s.pack, h * optPar(o, pk, "refreezing_factor") * optPar(o, pk, "degree_day_factor") * d) : 0;
            s.pack -= r;
            s.snow += r;
            a[pk + ":refreeze"] = r;
        }
        if (!o.sublimation.empty()) {
            double r = o.sublimation == "sublimation:constant" ? optPar(o, pk, "sublimation_rate") : f.e * optPar(o, pk, "sublimation_pet_factor");
            double x = std::min(s.snow, r * h);
            s.snow -= x;
            a[pk + ":sublimation"] = x;
        }
        if (!o.transform.empty() && c.type == "glacier") {
            double r;
            if (o.transform == "transform:snow_ice_constant") r = optPar(o, pk, "snow_ice_transformation_rate");
            else
                r = optPar(o, pk, "snow_ice_transformation_basal_acc_coeff") *
                    (1 + std::sin(2 * M_PI * (doy - (optPar(o, pk, "north_hemisphere") != 0 ? 81 : 264)) / 365.0)) * s.snow;
            double x = std::min(s.snow, r * h);
            s.snow -= x;
            s.ice += x;
            a[pk + ":snow_ice_transfo"] = x;
        }
    }
    if (c.type == "glacier") {
        double unused = 0;
        double m = 0;
        if (!(o.noMeltWhenSnow != 0 && s.snow > 1e-8)) m = h * potentialMelt(o, u, o.melt == "melt:cemaneige" ? "melt:degree_day" : o.melt, n, f, 1, unused);
        if (!o.infiniteIce) m = std::min(m, s.ice);
        s.ice -= m;
        a[n + ":melt"] = m * c.frac;
        if (full) {
            a[n + ":outflow_rain_snowmelt"] = (s.water + toCover) * c.frac;
            s.water = 0;
        }
        return;
    }
    if (!full) return;
    double in = s.water + toCover;
    s.water = 0;
    s.liquid = in;
    if (startsWith(o.kind, "gr")) return;
    if (o.kind == "socont" || o.kind == "hbv") {
        double q = in * (1 - (o.kind == "socont" ? fill * fill : std::pow(fill, optPar(o, n, "beta"))));
        a[n + ":infiltration"] = q * c.frac;
        a[n + (o.kind == "socont" ? ":runoff" : ":recharge")] = (in - q) * c.frac;
    } else if (o.kind == "lake")
        a[n + ":outflow"] = in * c.frac;
    else
        a[n + ":transfer"] = in * c.frac;
}

void surfaceParams(Opts& o, const std::vector<Cover>& covers, int v) {
    auto P = [&](const std::string& c, const std::string& n, double x) {
        for (auto& p : o.params)
            if (p.comp == c && p.name == n) return;
        o.params.push_back({c, n, (float)x});
    };
    if (!o.snow) P("rain", "rain_correction_factor", v ? 1.0 : 1.07);
    else {
        const char* T = "snow_rain_transition";
        P(T, "rain_correction_factor", v ? 1.0 : 1.12);
        P(T, "snow_correction_factor", v ? 1.0 : 0.83);
        if (o.splitter == "snow_rain:threshold") P(T, "threshold", v ? 1.0 : -3.0);
        if (o.splitter == "snow_rain:linear") {
            P(T, "transition_start", v ? -4.0 : 0.5);
            P(T, "transition_end", v ? 2.0 : 1.75);
        }
    }
    int k = 0;
    for (auto& c : covers) {
        const std::string n = c.name, pk = n + "_snowpack";
        auto melt = [&](const std::string& comp, const std::string& type, double x) {
            if (type == "melt:temperature_index") {
                P(comp, "melt_factor", 1.3 + x);
                P(comp, "radiation_coefficient", 0.003 + x / 1000);
            } else if (type == "melt:degree_day_aspect") {
                P(comp, "degree_day_factor_n", 1.1 + x);
                P(comp, "degree_day_factor_s", 3.3 + x);
                P(comp, "degree_day_factor_ew", 2.2 + x);
            } else
                P(comp, "degree_day_factor", (v ? 7.3 : 1.7) + x);
            P(comp, "melting_temperature", (v ? -1.2 : 0.4) + 0.3 * k);
            if (type == "melt:cemaneige") {
                P(comp, "cold_content_factor", v ? 0.25 : 0.7 - 0.1 * k);
                P(comp, "mean_annual_snow", v ? 60 : 9 + k);
            }
        };
        if (o.snow) {
            melt(pk, o.melt, 0.4 * k);
            if (o.retention) P(pk, "water_holding_capacity", (v ? 0.05 : 0.4) + 0.03 * k);
            if (o.refreeze) P(pk, "refreezing_factor", (v ? 0.06 : 0.9) + 0.02 * k);
            if (o.sublimation == "sublimation:constant") P(pk, "sublimation_rate", (v ? 0.4 : 4.5) + 0.2 * k);
            if (o.sublimation == "sublimation:pet") P(pk, "sublimation_pet_factor", (v ? 0.3 : 1.4) + 0.1 * k);
            if (c.type == "glacier" && o.transform == "transform:snow_ice_constant") P(pk, "snow_ice_transformation_rate", (v ? 0.6 : 5.5) + k);
            if (c.type == "glacier" && o.transform == "transform:snow_ice_swat") {
                P(pk, "snow_ice_transformation_basal_acc_coeff", (v ? 0.03 : 0.3) + 0.01 * k);
                P(pk, "north_hemisphere", v);
            }
        }
        if (has(o.canopy, n)) P(n + "_canopy", "capacity", (v ? 1.5 : 7.0) + k);
        if (c.type == "glacier") melt(n, o.melt == "melt:cemaneige" ? "melt:degree_day" : o.melt, 1.9 + 0.4 * k);
        if (o.kind == "hbv" && c.type != "glacier") P(n, "beta", (v ? 1.0 : 2.6) + 0.5 * k);
        ++k;
    }
}
