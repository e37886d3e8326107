from mkseed import make
make('p02-year-month','P02','a step that crosses into another year but the same month number, or a run whose first step of a year is not in another month',
 'monthly parameters are not updated when the year changes to the same month number',
 {'base/ParametersUpdater.cpp':[('''        ChangingYear(date);
        ChangingMonth(date);
        ChangingDate(date);
    } else if''','''        ChangingYear(date);
        if (prevDate.month > newDate.month) {
            ChangingMonth(date);
        }
        ChangingDate(date);
    } else if''')]},
'''
#include "hb.h"
#include "Parameter.h"
#include "ParameterModifier.h"
#include "ParametersUpdater.h"
#include "TimeMachine.h"
int main() {
    Parameter p("m", -1);
    ParameterModifier mod(ParameterModifierType::Monthly);
    vecFloat v;
    for (int i = 1; i <= 12; ++i) v.push_back(i);
    NEED(mod.SetMonthlyValues(v));
    p.SetModifier(mod);
    ParametersUpdater up;
    up.AddParameter(&p);
    TimeMachine tm;
    tm.SetParametersUpdater(&up);
    double s = GetMJD(2019, 1, 10);
    tm.Initialize(s, s + 4 * 400, 400, TimeUnit::Day);
    for (int k = 1; k < 4; ++k) {
        tm.IncrementTime();
        int month = GetTimeStructFromMJD(s + 400 * k + 0.1).month;
        NEED(p.GetValue() == month, "step %d: %g instead of %d", k, p.GetValue(), month);
    }
}
''')
make('g02-thin-snow','G02','less than a millimetre of snow on the glacier on the declared day, and no ice left below it',
 'a thin snow cover over exhausted ice is removed instead of becoming ice',
 {'actions/ActionGlacierSnowToIceTransformation.cpp':[('''        if (snowWE <= 0) {
            continue;
        }
''','''        if (snowWE <= 0) {
            continue;
        }
        if (snowWE < 1 && glacier->GetContent(ContentType::Ice) <= 0) {
            snowpack->UpdateContent(0, ContentType::Snow);
            continue;
        }
''')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"ground", "generic_land_cover", 0.7}, {"glacier", "glacier", 0.3}};
    h.base("heun_explicit", true, c);
    h.glacierStore();
    h.glacier("glacier", false, "glacier_store");
    h.sm.GenerateSnowpacks("melt:degree_day");
    h.socont(c);
    h.units({{1, 1e6, c}});
    h.time("2020-09-27", 8);
    NEED(h.init());
    ActionGlacierSnowToIceTransformation a(10, 1, "glacier");
    NEED(h.m.AddAction(&a));
    NEED(h.forcing([](int, int i) { return i == 0 ? W{0.5, -8, 0} : W{0, -4, 0}; }));
    NEED(h.run());
    NEED(eq(h.val("glacier:ice_content", 7), 0.5), "%g", h.val("glacier:ice_content", 7));
}
''')
make('b01-canopy-evaporation','B01','a canopy on the first of several land covers, whose evaporation is reported in the total',
 'the evaporation of the canopy of the first land cover is counted over the whole unit in the reported total',
 {'base/Logger.cpp':[('componentName.starts_with(fractionLabel + "_canopy:")','(componentName.starts_with(fractionLabel + "_canopy:") && j > 0)')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"forest", "generic_land_cover", 0.4}, {"open", "generic_land_cover", 0.6}};
    h.base("heun_explicit", false, c);
    h.sm.GenerateCanopyInterception("forest", "forest");
    h.socont(c);
    h.units({{1, 1e6, c}});
    h.time("2020-06-01", 6);
    NEED(h.init());
    NEED(h.forcing([](int, int i) { return i % 3 == 0 ? W{8, 15, 1} : W{0, 15, 2}; }));
    NEED(h.run());
    double balance = 16 - h.m.GetTotalOutletDischarge() - h.m.GetTotalET() - h.m.GetTotalWaterStorageChanges();
    NEED(h.m.GetTotalET() > 0.1);
    NEED(std::fabs(balance) < 1e-6, "%g", balance);
}
''')
make('l01-initial-store','L01','a store of a land cover that holds water or ice when the run starts, and an extent that changes during the run',
 'the reported change of the stores weighs the initial contents with the final extents',
 {'base/Logger.cpp':[('fraction = _hydroUnitFractions[fractionIndex](0, Eigen::placeholders::all).unaryExpr(&NanToZero);','fraction = _hydroUnitFractions[fractionIndex](Eigen::placeholders::last, Eigen::placeholders::all).unaryExpr(&NanToZero);')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> c = {{"ground", "generic_land_cover", 0.5}, {"forest", "generic_land_cover", 0.5}};
    h.base("heun_explicit", true, c);
    h.sm.GenerateSnowpacks("melt:degree_day");
    h.socont(c);
    NEED(h.sm.SetParameterValue("forest_snowpack", "degree_day_factor", 8.0f));
    NEED(h.sm.SetParameterValue("ground_snowpack", "degree_day_factor", 1.0f));
    h.units({{1, 1e6, c}});
    h.time("2020-01-01", 5);
    NEED(h.init());
    ActionLandCoverChange a;
    a.AddChange(GetMJD(2020, 1, 3), 1, "forest", 2e5);
    NEED(h.forcing([](int, int i) { return i == 0 ? W{40, -5, 0} : W{0, i == 4 ? 2.0 : -5.0, 0}; }));
    for (int run = 0; run < 2; ++run) {
        if (run) {
            h.m.SaveAsInitialState();
            h.m.Reset();
            NEED(h.m.AddAction(&a));
        }
        NEED(h.run());
        double b = 40 - h.m.GetTotalOutletDischarge() - h.m.GetTotalET() - h.m.GetTotalWaterStorageChanges() - h.m.GetTotalSnowStorageChanges();
        NEED(std::fabs(b) < 1e-6, "run %d: %g", run, b);
    }
}
''')
make('s02-narrow-cover','S02','snow moved to a unit of which one cover is narrower than 5 %',
 'snow redistribution skips receiving covers that are narrow, and keeps that share on the giving cover',
 {'processes/ProcessLateralSnowRedistributionFrey.cpp':[('if (NearlyZero(targetFraction, PRECISION)) {','if (targetFraction < 0.05) {')]},
'''
#include "hb.h"
int main() {
    Hb h;
    std::vector<C> a = {{"ground", "generic_land_cover", 1.0}, {"forest", "generic_land_cover", 0.0}};
    std::vector<C> b = {{"ground", "generic_land_cover", 0.97}, {"forest", "generic_land_cover", 0.03}};
    h.base("heun_explicit", true, a);
    h.sm.GenerateSnowpacks("melt:degree_day");
    h.sm.AddSnowRedistribution("transport:snow_redistribution_frey");
    h.socont(a);
    h.units({{1, 1e6, a, 2500, 60}, {2, 1e6, b, 1500, 10}});
    h.sb.AddLateralConnection(1, 2, 1.0);
    h.time("2020-01-01", 5);
    NEED(h.init());
    NEED(h.forcing([](int u, int i) { return u == 0 && i == 0 ? W{3000, -8, 0} : W{0, -8, 0}; }));
    NEED(h.run());
    NEED(h.val("ground_snowpack:snow_content", 4, 1) > 1);
    NEED(h.val("forest_snowpack:snow_content", 4, 1) > 1, "%g", h.val("forest_snowpack:snow_content", 4, 1));
}
''')
