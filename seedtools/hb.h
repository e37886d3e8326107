// Small model builder for the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

#include "Action.h"
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "ModelHydro.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "UtilsDateTime.h"

struct W { double p, t, e; };
struct C { std::string name, type; double frac; };
struct U { int id; double area; std::vector<C> covers; double elev = 1000, slope = 12; };

struct Hb {
    SettingsModel sm;
    SettingsBasin sb;
    ModelHydro m;
    std::vector<U> us;
    double t0 = 0, dt = 1;
    int steps = 0;

    void time(const std::string& start, int n, int step = 1, const std::string& unit = "day") {
        dt = step * (unit == "day" ? 1.0 : unit == "hour" ? 1.0 / 24 : 1.0 / 1440);
        steps = n;
        int y, mo, d, h = 0, mi = 0;
        sscanf(start.c_str(), "%d-%d-%d %d:%d", &y, &mo, &d, &h, &mi);
        t0 = GetMJD(y, mo, d, h, mi);
        auto end = GetTimeStructFromMJD(t0 + (n - 1) * dt + 1e-6);
        char b[40];
        if (start.size() > 10) snprintf(b, 40, "%04d-%02d-%02d %02d:%02d", end.year, end.month, end.day, end.hour, end.min);
        else snprintf(b, 40, "%04d-%02d-%02d", end.year, end.month, end.day);
        sm.SetTimer(start, b, step, unit);
    }
    void base(const std::string& solver, bool snow, const std::vector<C>& covers, const std::string& splitter = "snow_rain:linear") {
        sm.SetLogAll(true);
        sm.AddLoggingToItem("outlet");
        sm.SetSolver(solver);
        sm.GeneratePrecipitationSplitters(snow, splitter);
        for (auto& c : covers) sm.AddLandCoverBrick(c.name, c.type);
    }
    void glacier(const std::string& n, bool infinite, const std::string& target) {
        sm.SelectHydroUnitBrick(n);
        sm.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", target);
        sm.AddBrickProcess("melt", "melt:degree_day", target);
        sm.SetProcessOutputsAsInstantaneous();
        sm.AddBrickParameter("infinite_storage", infinite ? 1.0f : 0.0f);
        sm.AddBrickParameter("no_melt_when_snow_cover", 1.0f);
    }
    void glacierStore() {
        sm.AddSubBasinBrick("glacier_store", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    }
    // ground covers -> linear reservoir -> outlet
    void linear(const std::vector<C>& covers, float k = 0.3f, float cap = 0) {
        for (auto& c : covers)
            if (c.type != "glacier") {
                sm.SelectHydroUnitBrick(c.name);
                sm.AddBrickProcess("out", "outflow:direct", "store");
                sm.SetProcessOutputsAsInstantaneous();
            }
        sm.AddHydroUnitBrick("store", "storage");
        if (cap > 0) sm.AddBrickParameter("capacity", cap);
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
        sm.SetProcessParameterValue("response_factor", k);
        if (cap > 0) sm.AddBrickProcess("overflow", "overflow", "outlet");
    }
    void socont(const std::vector<C>& covers, float cap = 200) {
        for (auto& c : covers)
            if (c.type != "glacier") {
                sm.SelectHydroUnitBrick(c.name);
                sm.AddBrickProcess("infiltration", "infiltration:socont", "slow");
                sm.AddBrickProcess("runoff", "outflow:rest", "quick");
            }
        sm.AddHydroUnitBrick("slow", "storage");
        sm.AddBrickParameter("capacity", cap);
        sm.AddBrickProcess("et", "et:socont");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
        sm.AddBrickProcess("overflow", "overflow", "outlet");
        sm.AddHydroUnitBrick("quick", "storage");
        sm.AddBrickProcess("runoff", "outflow:linear", "outlet");
    }
    void hbv(const std::vector<C>& covers, float cap = 100, float maxbas = 2.5f, float capflux = 1.0f) {
        for (auto& c : covers)
            if (c.type != "glacier") {
                sm.SelectHydroUnitBrick(c.name);
                sm.AddBrickProcess("infiltration", "infiltration:hbv", "soil_moisture");
                sm.AddBrickProcess("recharge", "outflow:rest", "upper_zone");
            }
        sm.AddHydroUnitBrick("upper_zone", "storage");
        sm.AddBrickProcess("capillary", "capillary:hbv", "soil_moisture");
        sm.SetProcessParameterValue("max_capillary_flux", capflux);
        sm.AddBrickProcess("percolation", "percolation:constant", "lower_zone");
        sm.AddBrickProcess("runoff", "runoff:hbv", "routing");
        sm.AddHydroUnitBrick("lower_zone", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "routing");
        sm.AddHydroUnitBrick("soil_moisture", "storage");
        sm.AddBrickParameter("capacity", cap);
        sm.AddBrickProcess("et", "et:hbv");
        sm.AddBrickProcess("overflow", "overflow", "routing");
        sm.AddHydroUnitBrick("routing", "storage");
        sm.AddBrickProcess("routing", "routing:hbv", "outlet");
        sm.SetProcessParameterValue("maxbas", maxbas);
    }
    void units(const std::vector<U>& u) {
        us = u;
        for (auto& x : u) {
            sb.AddHydroUnit(x.id, x.area, x.elev);
            for (auto& c : x.covers) sb.AddLandCover(c.name, c.type, c.frac);
            sb.AddHydroUnitPropertyDouble("elevation", x.elev, "m");
            sb.AddHydroUnitPropertyDouble("slope", x.slope, "degrees");
        }
    }
    bool init() {
        auto r = m.InitializeWithBasin(sm, sb);
        if (!r) fprintf(stderr, "init: %s\n", r.error().c_str());
        return (bool)r;
    }
    bool forcing(const std::function<W(int unit, int step)>& f) {
        int n = us.size(), rows = steps < 2 ? 2 : steps;
        axd time(rows);
        axi ids(n);
        axxd p(rows, n), t(rows, n), e(rows, n);
        for (int i = 0; i < rows; ++i) time[i] = t0 + i * dt;
        for (int u = 0; u < n; ++u) {
            ids[u] = us[u].id;
            for (int i = 0; i < rows; ++i) {
                W w = f(u, i);
                p(i, u) = w.p;
                t(i, u) = w.t;
                e(i, u) = w.e;
            }
        }
        return m.CreateTimeSeries("precipitation", time, ids, p) && m.CreateTimeSeries("temperature", time, ids, t) &&
               m.CreateTimeSeries("pet", time, ids, e) && m.AttachTimeSeriesToHydroUnits();
    }
    bool run() {
        auto r = m.Run();
        if (!r) fprintf(stderr, "run: %s\n", r.error().c_str());
        return (bool)r;
    }
    axd q() { return m.GetOutletDischarge(); }
    axxd v(const std::string& l) { return m.GetHydroUnitValues(l); }
    double val(const std::string& l, int step, int unit = 0) { return m.GetHydroUnitValues(l)(step, unit); }
    double frac(const std::string& l, int step, int unit = 0) { return m.GetHydroUnitFractions(l)(step, unit); }
};
#define NEED(x, ...) do { if (!(x)) { fprintf(stderr, "FAILED %s: ", #x); fprintf(stderr, " " __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)
inline bool eq(double a, double b, double tol = 1e-7) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
