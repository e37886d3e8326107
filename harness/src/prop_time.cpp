// D01 calendar conversions, D02 date text parsing, T01 simulation clock, P02 time-varying parameters.
#include <cmath>
#include <cstring>

#include "ParameterModifier.h"
#include "ParametersUpdater.h"
#include "TimeMachine.h"
#include "sim.h"

static double mjdOf(int y, int m, int d, int h = 0, int mi = 0, int s = 0) {
    return 40587.0 + civilDays(y, m, d) + (h * 3600 + mi * 60 + s) / 86400.0;
}

PROPERTY(D01) {
    int y0 = 1800, y1 = ctx.quick() ? 2200 : 2800;
    if (ctx.thorough()) y0 = 1600;
    auto checkTime = [&](int y, int m, int d, int h, int mi, int s) {
        ++ctx.transitions;
        double x = GetMJD(y, m, d, h, mi, s);
        if (std::fabs(x - mjdOf(y, m, d, h, mi, s)) > 1e-9 * std::max(1.0, std::fabs(x)))
            return ctx.fail("to_mjd", fmt("%04d-%02d-%02d %02d:%02d:%02d -> %.9f, expected %.9f", y, m, d, h, mi, s, x,
                                          mjdOf(y, m, d, h, mi, s)));
        if (x < 0) return;
        Time t = GetTimeStructFromMJD(x);
        if (t.year != y || t.month != m || t.day != d || t.hour != h || t.min != mi || t.sec != s)
            ctx.fail("from_mjd", fmt("%04d-%02d-%02d %02d:%02d:%02d -> %.9f -> %04d-%02d-%02d %02d:%02d:%02d", y, m, d, h,
                                     mi, s, x, t.year, t.month, t.day, t.hour, t.min, t.sec));
    };
    for (int y = y0; y <= y1; ++y)
        ctx.run(fmt("year%d", y), [&] {
            ctx.state(y);
            for (int m = 0; m <= 13; ++m)
                for (int d = 0; d <= 32; ++d) {
                    bool ok = m >= 1 && m <= 12 && d >= 1 && d <= daysIn(y, m);
                    if (!ok) {
                        if (m == 0 || d == 0) continue;  // rejected by assertion in debug builds only
                        bool thrown = false;
                        double v = 0;
                        try {
                            v = UtilsDateTime::ToMJD(y, m, d);
                        } catch (const std::exception&) {
                            thrown = true;
                        }
                        if (!thrown) ctx.fail("invalid", fmt("%d-%d-%d accepted as %.6f", y, m, d, v));
                        continue;
                    }
                    for (int h = 0; h < 24; ++h) checkTime(y, m, d, h, (h * 7 + d) % 60, (h * 13 + m) % 60);
                    checkTime(y, m, d, 0, 0, 0);
                    checkTime(y, m, d, 23, 59, 59);
                    // day of the year
                    double x = mjdOf(y, m, d);
                    if (x > 0)
                        for (double part : {0.0, 0.25, 0.999}) {
                            TimeMachine tm;
                            tm.Initialize(x + part, x + part + 10, 1, TimeUnit::Day);
                            int want = (int)(civilDays(y, m, d) - civilDays(y, 1, 1)) + 1;
                            int got = tm.GetCurrentDayOfYear();
                            if (got != want)
                                ctx.fail("day_of_year", fmt("%04d-%02d-%02d is day %d, got %d", y, m, d, want, got));
                        }
                }
            ++ctx.validated;
        });
    // every second of selected days
    for (auto [y, m, d] : std::vector<std::array<int, 3>>{{1900, 2, 28}, {2000, 2, 29}, {2020, 12, 31}, {2021, 1, 1}, {2100, 3, 1}})
        for (int h = 0; h < 24; ++h)
            ctx.run(fmt("sec%04d%02d%02dh%d", y, m, d, h), [&, y = y, m = m, d = d] {
                for (int mi = 0; mi < 60; ++mi)
                    for (int s = 0; s < 60; ++s) checkTime(y, m, d, h, mi, s);
                // neighbourhood of a whole second: the nearest second is returned
                for (int mi = 0; mi < 60; ++mi)
                    for (double off : {-0.4, 0.4}) {
                        double x = mjdOf(y, m, d, h, mi, 30) + off / 86400.0;
                        Time t = GetTimeStructFromMJD(x);
                        if (t.year != y || t.month != m || t.day != d || t.hour != h || t.min != mi || t.sec != 30)
                            ctx.fail("rounding", fmt("%.9f -> %02d:%02d:%02d, expected %02d:%02d:30", x, t.hour, t.min, t.sec, h, mi));
                    }
                ++ctx.validated;
            });
    for (int h : {-1, 24, 25})
        ctx.run(fmt("badhour%d", h), [&] {
            bool thrown = false;
            try {
                UtilsDateTime::ToMJD(2020, 1, 1, h);
            } catch (const std::exception&) {
                thrown = true;
            }
            ctx.check(thrown, "invalid", [&] { return fmt("hour %d accepted", h); });
        });
    for (int mi : {-1, 60})
        ctx.run(fmt("badminute%d", mi), [&] {
            bool thrown = false;
            try {
                UtilsDateTime::ToMJD(2020, 1, 1, 0, mi);
            } catch (const std::exception&) {
                thrown = true;
            }
            ctx.check(thrown, "invalid", [&] { return fmt("minute %d accepted", mi); });
        });
    // date arithmetic
    for (auto [u, per] : std::vector<std::pair<TimeUnit, double>>{{TimeUnit::Week, 7}, {TimeUnit::Day, 1}, {TimeUnit::Hour, 1 / 24.0}, {TimeUnit::Minute, 1 / 1440.0}})
        ctx.run(fmt("incr%g", per), [&, u = u, per = per] {
            for (int n = -2000; n <= 20000; ++n) {
                double x = IncrementDateBy(58849.0, n, u);
                if (std::fabs(x - (58849.0 + n * per)) > 1e-8) ctx.fail("increment", fmt("%d -> %.9f", n, x));
            }
        });
}

namespace {
struct DFmt {
    const char* f;
    bool secs, mins;
    TimeFormat explicitFmt;
    bool guessable;
};
}  // namespace

PROPERTY(D02) {
    const std::vector<DFmt> fm = {
        {"%1$04d-%2$02d-%3$02d", false, false, YYYY_MM_DD, true},
        {"%1$04d/%2$02d/%3$02d", false, false, YYYY_MM_DD, true},
        {"%1$04d.%2$02d.%3$02d", false, false, YYYY_MM_DD, false},
        {"%1$04d%2$02d%3$02d", false, false, YYYY_MM_DD, true},
        {"%3$02d.%2$02d.%1$04d", false, false, DD_MM_YYYY, true},
        {"%3$02d/%2$02d/%1$04d", false, false, DD_MM_YYYY, true},
        {"%3$02d-%2$02d-%1$04d", false, false, DD_MM_YYYY, true},
        {"%3$02d%2$02d%1$04d", false, false, DD_MM_YYYY, true},
        {"%1$04d-%2$02d-%3$02dT%4$02d:%5$02d:%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, true},
        {"%1$04d-%2$02d-%3$02d %4$02d:%5$02d:%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, true},
        {"%1$04d-%2$02d-%3$02d %4$02d:%5$02d", false, true, YYYY_MM_DD_hh_mm, true},
        {"%1$04d/%2$02d/%3$02d %4$02d:%5$02d:%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, true},
        {"%1$04d/%2$02d/%3$02d %4$02d:%5$02d", false, true, YYYY_MM_DD_hh_mm, true},
        {"%1$04d.%2$02d.%3$02d %4$02d:%5$02d:%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, true},
        {"%1$04d.%2$02d.%3$02d %4$02d:%5$02d", false, true, YYYY_MM_DD_hh_mm, true},
        {"%1$04d%2$02d%3$02d %4$02d:%5$02d", false, true, YYYY_MM_DD_hh_mm, true},
        {"%1$04d%2$02d%3$02d%4$02d%5$02d%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, true},
        {"%1$04d%2$02d%3$02dT%4$02d%5$02d%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, true},
        {"%1$04d%2$02d%3$02d %4$02d%5$02d%6$02d", true, true, YYYY_MM_DD_hh_mm_ss, false},
        {"%1$04d%2$02d%3$02d %4$02d%5$02d", false, true, YYYY_MM_DD_hh_mm, false},
        {"%3$02d.%2$02d.%1$04d %4$02d:%5$02d:%6$02d", true, true, DD_MM_YYYY_hh_mm_ss, true},
        {"%3$02d.%2$02d.%1$04d %4$02d:%5$02d", false, true, DD_MM_YYYY_hh_mm, true},
        {"%3$02d/%2$02d/%1$04d %4$02d:%5$02d:%6$02d", true, true, DD_MM_YYYY_hh_mm_ss, true},
        {"%3$02d/%2$02d/%1$04d %4$02d:%5$02d", false, true, DD_MM_YYYY_hh_mm, true},
        {"%3$02d-%2$02d-%1$04d %4$02d:%5$02d:%6$02d", true, true, DD_MM_YYYY_hh_mm_ss, true},
        {"%3$02d-%2$02d-%1$04d %4$02d:%5$02d", false, true, DD_MM_YYYY_hh_mm, true},
        {"%3$02d%2$02d%1$04d %4$02d:%5$02d:%6$02d", true, true, DD_MM_YYYY_hh_mm_ss, true},
        {"%3$02d%2$02d%1$04d %4$02d:%5$02d", false, true, DD_MM_YYYY_hh_mm, true},
    };
    auto text = [](const char* f, int y, int m, int d, int h, int mi, int s) {
        char b[64];
        // positional arguments all have to be consumed for portability
        snprintf(b, sizeof b, f, y, m, d, h, mi, s);
        return std::string(b);
    };
    for (size_t k = 0; k < fm.size(); ++k)
        for (int y = 1900; y <= 2100; ++y)
            ctx.run(fmt("f%zu/%d", k, y), [&] {
                auto& F = fm[k];
                for (int m = 1; m <= 12; ++m)
                    for (int d = 1; d <= daysIn(y, m); ++d) {
                        std::vector<std::array<int, 3>> times = {{0, 0, 0}};
                        if (F.mins) times = {{0, 0, 0}, {(d * 5 + m) % 24, (d * 11 + m * 3) % 60, (d * 17 + y) % 60}, {23, 59, 59}};
                        for (auto& t : times) {
                            std::string s = text(F.f, y, m, d, t[0], t[1], t[2]);
                            double want = mjdOf(y, m, d, F.mins ? t[0] : 0, F.mins ? t[1] : 0, F.secs ? t[2] : 0);
                            for (int g = 0; g < 2; ++g) {
                                if (g && !F.guessable) continue;
                                ++ctx.transitions;
                                double got = NAN;
                                try {
                                    got = ParseDate(s, g ? guess : F.explicitFmt);
                                } catch (const std::exception& e) {
                                    ctx.fail(g ? "guess_rejected" : "rejected", fmt("'%s': %s", s.c_str(), e.what()));
                                    return;
                                }
                                if (!(std::fabs(got - want) < 1e-8)) {
                                    ctx.fail(g ? "guess_value" : "value", fmt("'%s' -> %.8f, expected %.8f", s.c_str(), got, want));
                                    return;
                                }
                            }
                        }
                    }
                ctx.state(k * 10000 + y);
                ++ctx.validated;
            });
    // texts that denote no date must be refused, never silently turned into another date
    for (size_t k = 0; k < fm.size(); ++k)
        for (int y : {1900, 1999, 2000, 2013, 2020, 2021, 2100})
            ctx.run(fmt("bad%zu/%d", k, y), [&] {
                auto& F = fm[k];
                std::vector<std::string> bad;
                for (int m = 0; m <= 13; ++m)
                    for (int d = 0; d <= 32; ++d)
                        if (m < 1 || m > 12 || d < 1 || d > daysIn(y, m)) bad.push_back(text(F.f, y, m, d, 10, 20, 30));
                std::string ok = text(F.f, y, 3, 14, 10, 20, 30);
                bad.push_back(ok + "x");
                if (!strstr(F.f, "%5$02d") || F.secs) bad.push_back(ok + " 1");
                bad.push_back("x" + ok);
                if (F.mins) {
                    bad.push_back(text(F.f, y, 3, 14, 24, 20, 30));
                    if (!strstr(F.f, "%4$02d%5$02d")) bad.push_back(text(F.f, y, 3, 14, 10, 60, 30));
                }
                bad.push_back(text(F.f, 23, 3, 14, 10, 20, 30));
                bad.push_back("");
                for (auto& s : bad) {
                    ++ctx.transitions;
                    bool thrown = false;
                    double v = 0;
                    try {
                        v = ParseDate(s, F.explicitFmt);
                    } catch (const std::exception&) {
                        thrown = true;
                    }
                    if (!thrown) {
                        Time t = GetTimeStructFromMJD(v);
                        ctx.fail("accepted", fmt("'%s' accepted as %04d-%02d-%02d %02d:%02d:%02d", s.c_str(), t.year, t.month,
                                                 t.day, t.hour, t.min, t.sec));
                        return;
                    }
                }
                ++ctx.validated;
            });
}

PROPERTY(T01) {
    struct U {
        const char* name;
        TimeUnit u;
        long minutes;
    };
    const std::vector<U> units = {{"day", TimeUnit::Day, 1440}, {"hour", TimeUnit::Hour, 60}, {"minute", TimeUnit::Minute, 1}, {"week", TimeUnit::Week, 10080}};
    std::vector<std::array<int, 5>> starts = {{2020, 1, 1, 0, 0}, {1999, 12, 31, 23, 50}, {2020, 2, 28, 7, 0}, {1981, 10, 1, 13, 37}, {2031, 6, 15, 1, 10}};
    int maxN = ctx.quick() ? 400 : 3000;
    auto one = [&](const U& u, int step, const std::array<int, 5>& s, long n, long extraMin, bool viaText) {
        long startMin = civilDays(s[0], s[1], s[2]) * 1440 + s[3] * 60 + s[4];
        long stepMin = u.minutes * step, endMin = startMin + stepMin * (n - 1) + extraMin;
        auto toMjd = [](long m) { return 40587.0 + m / 1440.0; };
        TimeMachine tm;
        if (viaText) {
            TimerSettings ts;
            ts.start = dateStr(toMjd(startMin), true);
            ts.end = dateStr(toMjd(endMin), true);
            ts.timeStep = step;
            ts.timeStepUnit = u.name;
            tm.Initialize(ts);
        } else
            tm.Initialize(mjdOf(s[0], s[1], s[2], s[3], s[4]), toMjd(endMin), step, u.u);
        if (tm.GetTimeStepCount() != n)
            return ctx.fail("count", fmt("%ld steps expected, %d announced", n, tm.GetTimeStepCount()));
        for (int pass = 0; pass < 2; ++pass) {
            long k = 0;
            while (!tm.IsOver()) {
                if (k >= n) return ctx.fail("over", fmt("the clock runs past the end after %ld steps", n));
                if (std::fabs(tm.GetDate() - toMjd(startMin + k * stepMin)) > 0.5 / 86400)
                    return ctx.fail("date", fmt("step %ld is dated %.8f, expected %.8f", k, tm.GetDate(), toMjd(startMin + k * stepMin)));
                tm.IncrementTime();
                ++k;
                ++ctx.transitions;
            }
            if (k != n) return ctx.fail("under", fmt("the clock stops after %ld of %ld steps", k, n));
            tm.Reset();
        }
        Hasher h;
        h.u(n);
        h.u(stepMin);
        h.u(startMin);
        ctx.state(h.h);
    };
    for (auto& u : units)
        for (int step : {1, 2, 3, 5, 6, 7, 10, 12, 15, 30})
            for (size_t si = 0; si < starts.size(); ++si)
                ctx.run(fmt("%d%s/start%zu", step, u.name, si), [&] {
                    if (u.u == TimeUnit::Week && step > 3) return;
                    for (long n = 1; n <= maxN; n += (n < 60 ? 1 : 17))
                        for (long extra : {0L, 1L, u.minutes * step - 1}) {
                            if (extra >= u.minutes * step) continue;
                            one(u, step, starts[si], n, extra, u.u != TimeUnit::Week);
                            if (!ctx.failures.empty() && ctx.failures.back().caseId == ctx.current()) return;
                        }
                    // multi-year simulations
                    if (u.minutes * step <= 60 && step > 1 && ctx.quick()) return;
                    one(u, step, starts[si], std::min(100000L, 20000000L / (u.minutes * step)), 0, u.u != TimeUnit::Week);
                    ++ctx.validated;
                });
    // invalid periods are refused
    for (int b = 0; b < 4; ++b)
        ctx.run(fmt("invalid%d", b), [&] {
            TimeMachine tm;
            double s = mjdOf(2020, 1, 1);
            if (b == 0) tm.Initialize(s, s - 1, 1, TimeUnit::Day);
            if (b == 1) tm.Initialize(s, s + 1, 0, TimeUnit::Day);
            if (b == 2) tm.Initialize(s, s + 1, -1, TimeUnit::Day);
            if (b == 3) tm.Initialize(0, s + 1, 1, TimeUnit::Day);
            ctx.check(!tm.IsValid(), "accepted", [&] { return fmt("invalid period %d accepted", b); });
        });
}

// Parameter values that change by year, month or date while the clock advances.
PROPERTY(P02) {
    struct U {
        TimeUnit u;
        int step;
        double days;
        const char* n;
    };
    const std::vector<U> us = {{TimeUnit::Day, 1, 1, "1d"}, {TimeUnit::Day, 2, 2, "2d"}, {TimeUnit::Day, 10, 10, "10d"}, {TimeUnit::Day, 31, 31, "31d"}, {TimeUnit::Week, 1, 7, "1w"}, {TimeUnit::Day, 92, 92, "92d"}, {TimeUnit::Day, 365, 365, "365d"}, {TimeUnit::Day, 366, 366, "366d"}, {TimeUnit::Day, 400, 400, "400d"}, {TimeUnit::Hour, 1, 1 / 24.0, "1h"}, {TimeUnit::Hour, 7, 7 / 24.0, "7h"}, {TimeUnit::Minute, 10, 10 / 1440.0, "10min"}};
    const std::vector<std::string> starts = {"2019-12-29", "2020-02-27", "2020-06-30", "2020-12-31", "2021-01-01", "2023-11-30"};
    for (auto& u : us)
        for (auto& st : starts)
            for (int first = 0; first < 3; ++first)       // first year relative to the start year
                for (int ny = 1; ny <= 4; ++ny)           // number of years given
                    for (int spacing = 1; spacing <= 4; ++spacing)
                        ctx.run(fmt("%s/%s/y%d+%d/s%d", u.n, st.c_str(), first, ny, spacing), [&] {
                            int y0, m0, d0;
                            sscanf(st.c_str(), "%d-%d-%d", &y0, &m0, &d0);
                            double s = mjdOf(y0, m0, d0);
                            int n = u.days >= 365 ? 20 : u.days >= 1 ? (int)(900 / u.days) : (int)(std::min(120.0, 3000 * u.days) / u.days);
                            Parameter yearly("y", -1), monthly("m", -1), dates("d", -1), plain("p", -1);
                            // others of each kind, with other values and another span
                            Parameter yearly2("y2", -2), monthly2("m2", -2), dates2("d2", -2);
                            ParameterModifier my(ParameterModifierType::Yearly), mm(ParameterModifierType::Monthly), md(ParameterModifierType::Dates);
                            ParameterModifier my2(ParameterModifierType::Yearly), mm2(ParameterModifierType::Monthly), md2(ParameterModifierType::Dates);
                            int ya = y0 - 1 + first;
                            vecFloat vy, vm, vd;
                            for (int i = 0; i < ny; ++i) vy.push_back(100 + i);
                            for (int i = 0; i < 12; ++i) vm.push_back(200 + i);
                            vecDouble dd;
                            std::vector<long> dk;
                            for (int i = 0; i < 5; ++i) {
                                long k = 2 + i * spacing * (u.days < 1 ? 11 : 3);
                                dk.push_back(k);
                                long minutes = lround(k * u.days * 1440);
                                int yy, mo, da;
                                civilFrom(civilDays(y0, m0, d0) + minutes / 1440, yy, mo, da);
                                dd.push_back(GetMJD(yy, mo, da, (minutes % 1440) / 60, minutes % 60));
                                vd.push_back(300 + i);
                            }
                            if (!my.SetYearlyValues(ya, ya + ny - 1, vy) || !mm.SetMonthlyValues(vm) || !md.SetDatesAndValues(dd, vd)) {
                                ctx.fail("rejected", "valid values rejected");
                                return;
                            }
                            vecFloat vy2, vm2, vd2;
                            vecDouble dd2;
                            for (int i = 0; i < ny + 1; ++i) vy2.push_back(900 - 3 * i);
                            for (int i = 0; i < 12; ++i) vm2.push_back(i % 5 == 2 ? 7 : 800 - i * i);
                            for (int i = 1; i < 5; i += 2) dd2.push_back(dd[i]), vd2.push_back(700 + i);
                            if (!my2.SetYearlyValues(ya - 1, ya + ny - 1, vy2) || !mm2.SetMonthlyValues(vm2) || !md2.SetDatesAndValues(dd2, vd2)) {
                                ctx.fail("rejected", "valid values rejected");
                                return;
                            }
                            yearly2.SetModifier(my2);
                            monthly2.SetModifier(mm2);
                            dates2.SetModifier(md2);
                            yearly.SetModifier(my);
                            monthly.SetModifier(mm);
                            dates.SetModifier(md);
                            ParametersUpdater up;
                            std::vector<Parameter*> all = {&yearly, &monthly, &dates, &plain, &yearly2, &monthly2, &dates2};
                            std::rotate(all.begin(), all.begin() + (first + ny + spacing) % all.size(), all.end());
                            for (auto* p : all) up.AddParameter(p);
                            TimeMachine tm;
                            tm.SetParametersUpdater(&up);
                            tm.Initialize(s, s + n * u.days, u.step, u.u);
                            for (int pass = 0; pass < 2; ++pass) {
                                float ey = yearly.GetValue(), ed = dates.GetValue(), ey2 = yearly2.GetValue(), ed2 = dates2.GetValue();
                                for (int k = 1; k <= n; ++k) {
                                    tm.IncrementTime();
                                    ++ctx.transitions;
                                    long minutes = lround(k * u.days * 1440);
                                    int yy, mo, da;
                                    civilFrom(civilDays(y0, m0, d0) + minutes / 1440, yy, mo, da);
                                    if (yy >= ya && yy < ya + ny) ey = vy[yy - ya];
                                    for (size_t i = 0; i < dk.size(); ++i)
                                        if (dk[i] == k) ed = vd[i];
                                    if (yy >= ya - 1 && yy < ya + ny) ey2 = vy2[yy - ya + 1];
                                    for (size_t i = 1; i < dk.size(); i += 2)
                                        if (dk[i] == k) ed2 = vd2[i / 2];
                                    if (yearly2.GetValue() != ey2 || monthly2.GetValue() != vm2[mo - 1] || dates2.GetValue() != ed2) {
                                        ctx.fail("second", fmt("pass %d, %04d-%02d-%02d: %g, %g, %g instead of %g, %g, %g", pass, yy, mo, da, yearly2.GetValue(), monthly2.GetValue(), dates2.GetValue(), ey2, vm2[mo - 1], ed2));
                                        return;
                                    }
                                    if (yearly.GetValue() != ey) {
                                        ctx.fail("yearly", fmt("pass %d, %04d-%02d-%02d: %g instead of %g", pass, yy, mo, da, yearly.GetValue(), ey));
                                        return;
                                    }
                                    if (monthly.GetValue() != vm[mo - 1]) {
                                        ctx.fail("monthly", fmt("pass %d, %04d-%02d-%02d: %g instead of %g", pass, yy, mo, da, monthly.GetValue(), vm[mo - 1]));
                                        return;
                                    }
                                    if (dates.GetValue() != ed) {
                                        ctx.fail("dates", fmt("pass %d, step %d: %g instead of %g", pass, k, dates.GetValue(), ed));
                                        return;
                                    }
                                    if (plain.GetValue() != -1) {
                                        ctx.fail("plain", "a constant parameter changed");
                                        return;
                                    }
                                }
                                Hasher h;
                                h.d(s);
                                h.d(u.days);
                                h.u(ny * 100 + first * 10 + spacing);
                                ctx.state(h.h);
                                tm.Reset();
                            }
                            ++ctx.validated;
                        });
}
