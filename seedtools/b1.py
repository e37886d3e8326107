from mkseed import make
make('l01-retained-water','L01','a land-cover change while the snowpack of the shrinking cover holds liquid water',
 'the water retained in the snowpack of the land that changes hands is not transferred',
 {'spatial/HydroUnit.cpp':[('''        addSlot(snowpack, ContentType::Water, CoverRole::SnowpackWater);
''','''        if (snowpack->GetContent(ContentType::Snow) <= 0) {
            addSlot(snowpack, ContentType::Water, CoverRole::SnowpackWater);
        }
''')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"ground", "generic_land_cover", 0.5}, {"forest", "generic_land_cover", 0.5}};
    h.base("heun_explicit", true, c);
    h.sm.GenerateSnowpacksWithWaterRetention("melt:degree_day", "outflow:snow_holding");
    h.socont(c);
    NEED(h.sm.SetParameterValue("forest_snowpack", "degree_day_factor", 6.0f));
    h.units({{1, 1e6, c}});
    h.time("2020-01-01", 5);
    NEED(h.init());
    ActionLandCoverChange a;
    a.AddChange(GetMJD(2020, 1, 4), 1, "forest", 2e5);
    NEED(h.m.AddAction(&a));
    // snowfall, then light melt staying in the pack
    NEED(h.forcing([](int, int i) { return i == 0 ? W{40, -5, 0} : i == 2 ? W{0, 0.5, 0} : W{0, -3, 0}; }));
    NEED(h.run());
    double w[2];
    for (int t : {2, 4}) {
        double s = 0;
        for (std::string n : {"ground", "forest"}) s += h.frac(n, t) * (h.val(n + "_snowpack:water_content", t) + h.val(n + "_snowpack:snow_content", t));
        w[t == 4] = s;
    }
    NEED(h.val("forest_snowpack:water_content", 2) > 0.1);
    NEED(eq(w[0], w[1]), "%g vs %g", w[0], w[1]);
}
''')
make('b02-static-capacity','B02','a storage with a capacity and an overflow fed by an instantaneous transfer and a rate in one step, with an explicit solver',
 'amounts booked by static inputs are left out when the capacity of a store is enforced',
 {'containers/WaterContainer.cpp':[('''        if (content + inputsStatic + change * timeStep > *_capacity) {
''','''        if (content + (HasOverflow() && _inputs.size() > 1 ? 0 : inputsStatic) + change * timeStep > *_capacity) {
'''),]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"ground", "generic_land_cover", 0.5}, {"forest", "generic_land_cover", 0.5}};
    h.base("heun_explicit", false, c);
    for (auto& x : c) {
        h.sm.SelectHydroUnitBrick(x.name);
        h.sm.AddBrickProcess("out", "outflow:direct", "store");
        h.sm.SetProcessOutputsAsStatic();
    }
    h.sm.AddHydroUnitBrick("store", "storage");
    h.sm.AddBrickParameter("capacity", 20);
    h.sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    h.sm.AddBrickProcess("overflow", "overflow", "outlet");
    h.units({{1, 1e6, c}});
    h.time("2020-01-01", 4);
    NEED(h.init());
    NEED(h.forcing([](int, int i) { return W{i == 0 ? 15.0 : i == 1 ? 30.0 : 0.0, 10, 0}; }));
    NEED(h.run());
    for (int t = 0; t < 4; ++t) NEED(h.val("store:water_content", t) <= 20 + 1e-6, "step %d: %g", t, h.val("store:water_content", t));
}
''')
make('r01-frey-cumulative','R01','a second run of the same model after the first one left the period on a late step',
 'the time-variable parameters keep the value of the end of the previous run when a model is reset',
 {'base/TimeMachine.cpp':[]} ,'''int main(){}''') if False else None
make('s01-uniform-weight','S01','several units of different area, glacier or cover draining to a sub-basin store',
 'the water reaching the sub-basin stores is weighted by the share of the number of units when all units have a single land cover',
 {'base/ModelBuilder.cpp':[('''                    if (toSubBasin) {
                        flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
                        flux->SetAsStatic();
''','''                    if (toSubBasin) {
                        flux->SetFractionUnitArea(!output.isInstantaneous
                                                      ? unit->GetArea() / _subBasin->GetArea()
                                                      : 1.0 / _subBasin->GetHydroUnitCount());
                        flux->SetAsStatic();
''')]},
'''
#include "hb.h"
int main() {
    std::vector<C> c = {{"glacier", "glacier", 1}};
    auto run = [&](std::vector<U> u) {
        auto h = std::make_unique<Hb>();
        h->base("heun_explicit", true, c);
        h->sm.GenerateSnowpacks("melt:degree_day");
        h->glacier("glacier", true, "glacier_store");
        h->glacierStore();
        h->units(u);
        h->time("2020-06-01", 4);
        NEED(h->init());
        NEED(h->forcing([&](int i, int) { return W{0, h->us[i].elev > 2000 ? 2.0 : 8.0, 0}; }));
        NEED(h->run());
        return h->q();
    };
    auto both = run({{1, 1e6, c, 1000}, {2, 3e6, c, 2500}}), lo = run({{1, 1e6, c, 1000}}), hi = run({{2, 3e6, c, 2500}});
    for (int t = 0; t < 4; ++t) NEED(eq(both[t], 0.25 * lo[t] + 0.75 * hi[t]), "%d: %g", t, both[t]);
}
''')
make('l02-same-step','L02','two dated changes falling in the same step of several days',
 'only one of several dated changes falling in a time step is applied at that step',
 {'actions/ActionsManager.cpp':[('''        _actions[_sporadicActionIndices[_cursorManager]]->IncrementCursor();
        _cursorManager++;
''','''        _actions[_sporadicActionIndices[_cursorManager]]->IncrementCursor();
        _cursorManager++;
        if (_cursorManager < _sporadicActionDates.size() &&
            _sporadicActionIndices[_cursorManager] != _sporadicActionIndices[_cursorManager - 1]) {
            break;
        }
''')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"ground", "generic_land_cover", 0.6}, {"forest", "generic_land_cover", 0.4}};
    h.base("heun_explicit", false, c);
    h.linear(c);
    h.units({{1, 1e6, c}, {2, 1e6, c}});
    h.time("2020-01-01", 5);
    NEED(h.init());
    ActionLandCoverChange a, b;
    a.AddChange(GetMJD(2020, 1, 3), 1, "forest", 2e5);
    b.AddChange(GetMJD(2020, 1, 3), 2, "forest", 1e5);
    NEED(h.m.AddAction(&a) && h.m.AddAction(&b));
    NEED(h.forcing([](int, int) { return W{3, 5, 0}; }));
    NEED(h.run());
    NEED(eq(h.frac("forest", 2, 0), 0.2));
    NEED(eq(h.frac("forest", 2, 1), 0.1));
}
''')
make('g01-area-scaling-gain','G01','area scaling with several units of which one has lost more ice than the others',
 'the area scaling takes the table row of the least retreated unit processed before for a unit that has lost more than half of its ice',
 {'actions/ActionGlacierEvolutionAreaScaling.cpp':[('''        int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
''','''        int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
        if (i > 0 && 2 * row > nRows) {
            row -= 1;
        }
''')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"ground", "generic_land_cover", 0.8}, {"glacier", "glacier", 0.2}};
    h.base("heun_explicit", true, c);
    h.sm.GenerateSnowpacks("melt:degree_day");
    h.glacier("glacier", false, "glacier_store");
    h.linear(c);
    h.glacierStore();
    h.units({{1, 1e6, c}, {2, 1e6, c}});
    h.time("2020-01-01", 720);
    NEED(h.init());
    int n = 11;
    axi ids(2);
    ids << 1, 2;
    axxd A(n, 2), V(n, 2);
    for (int i = 0; i < n; ++i)
        for (int u = 0; u < 2; ++u) {
            V(i, u) = 2e5 * 20 * (1 - i / 10.0);
            A(i, u) = 2e5 * std::pow(1 - i / 10.0, 0.5);
        }
    ActionGlacierEvolutionAreaScaling a;
    a.AddLookupTables(10, "glacier", ids, A, V);
    NEED(h.m.AddAction(&a));
    NEED(h.forcing([](int u, int i) { return W{0, i < 260 ? 15.0 : -5.0, 0}; }));
    NEED(h.run());
    int t = 300;
    for (int u = 0; u < 2; ++u) {
        double vol = h.frac("glacier", t, u) * 1e6 * h.val("glacier:ice_content", t, u) / 900.0;
        double lost = 1 - vol / (2e5 * 20);
        NEED(lost > 0.6 && lost < 0.98, "%g", lost);
        NEED(eq(h.frac("glacier", t, u) * 1e6, A((int)(lost * 10 + 1e-9), u), 1e-4), "unit %d lost %g frac %g", u, lost, h.frac("glacier", t, u));
    }
}
''')
