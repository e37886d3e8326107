From b7dd4b40ce21f9abb9f65b30b175531eab69776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 001/136] fix: count the inputs of directly computed bricks
 once in the storage constraints

Bricks computed directly have their inputs booked in the pending content changes before the
constraints are applied. Adding the amounts of the incoming fluxes again (including the stale amount
of a previous instantaneous deposit, as for refreezing) let the outflows exceed the content; the
negative content was then reset to zero, which created water.
---
 core/src/containers/WaterContainer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5599f4d..d3faf48 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -90,11 +90,16 @@ void WaterContainer::ApplyConstraints(double timeStep) {
         }
     }
 
-    // Get incoming change rates
+    // Get incoming change rates. The inputs of the bricks computed directly are already booked in the pending
+    // content changes when the constraints are applied (see Processor::ApplyDirectChanges).
+    bool inputsBooked = !_parent->NeedsSolver();
     vecDoublePt incomingRates;
     double inputs = 0;
     double inputsStatic = 0;
     for (auto& input : _inputs) {
+        if (inputsBooked) {
+            break;
+        }
         if (input->IsInstantaneous()) {
             inputsStatic += dynamic_cast<FluxToBrickInstantaneous*>(input)->GetRealAmount();
             continue;
@@ -119,7 +124,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     }
 
     double change = inputs - outputs;
-    double content = GetContentWithDynamicChanges();
+    double content = inputsBooked ? GetContentWithChanges() : GetContentWithDynamicChanges();
 
     // Avoid negative content (unless the container is allowed to go negative, e.g. a bottomless
     // routing store whose level can be negative).
-- 
2.43.0


From 0c63a4974f20a7cd60bfedc1e358a54a0ce54bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 002/136] fix: let the storage constraints see the water
 received from directly computed bricks

The change rates of the bricks computed directly are back to zero when the solver runs, so the
infiltration from a land cover was ignored by the capacity and non-negativity constraints: a storage
could hold far more than its capacity for a time step instead of overflowing. Their outflows are known
amounts for the solver, as the ones of the basin-level transfers, and are now marked as such.
---
 core/src/base/Processor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..eb9f031 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -87,6 +87,13 @@ void Processor::ConnectToElementsToSolve() {
             } else {
                 // Count connections
                 _directConnectionCount += brick->GetProcessConnectionCount();
+
+                // The outflows of the bricks computed directly are known amounts for the solver
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    for (int j = 0; j < brick->GetProcess(i)->GetOutputFluxCount(); ++j) {
+                        brick->GetProcess(i)->GetOutputFlux(j)->SetAsStatic();
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 500214c9ff42eb66004953df29ebf38b6481f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 003/136] fix: accumulate the overflow rate over the constraint
 sweeps

The excess computed by WaterContainer::ApplyConstraints already accounts for the current overflow rate.
Assigning it dropped the overflow found by the previous sweep as soon as a round-off remainder was
left, so the storage kept the water above its capacity.
---
 core/src/containers/WaterContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index d3faf48..64c42fd 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -154,7 +154,8 @@ void WaterContainer::ApplyConstraints(double timeStep) {
             // If it has an overflow, use it
             if (HasOverflow()) {
                 if (_overflow->GetOutputFlux(0)->GetChangeRatePointer() != nullptr) {
-                    *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) = diff;
+                    // The change already accounts for the current overflow rate (e.g. from a previous sweep)
+                    *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) += diff;
                     return;
                 }
                 throw ShouldNotHappen(
-- 
2.43.0


From 720edc9209cfed88b48b666c99025e295e7e7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 004/136] fix: reset the processes of the snowpack with its
 containers

Snowpack::Reset did not reset its processes, so a re-run started with the snow density (Frey and
Holzmann), the thermal state (CemaNeige) and the flux amounts left by the previous run.
---
 core/src/bricks/Snowpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..cd61de5 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,7 +7,7 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    SurfaceComponent::Reset();
     _snow->Reset();
 }
 
-- 
2.43.0


From e5442b9a7c51b2198adfb7ecd074a89fd821f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 005/136] fix: refuse dates that do not exist in the calendar

A date such as 29 February 2021 or 31 April was silently turned into the following day.
---
 core/src/base/UtilsDateTime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 00faf2f..47c3ae8 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -126,6 +126,9 @@ static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_t
         auto parsed_sec = static_cast<int>(tm.tm_sec);
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;  // e.g. 30 February
+        }
         auto days = std::chrono::sys_days{ymd};
         auto tp = std::chrono::time_point_cast<std::chrono::seconds>(days) + std::chrono::hours{parsed_hour} +
                   std::chrono::minutes{parsed_min} + std::chrono::seconds{parsed_sec};
@@ -152,6 +155,9 @@ static bool ParseDateOnly(const std::string& s, const char* fmt, std::chrono::sy
         auto parsed_day = static_cast<unsigned>(tm.tm_mday);       // tm_mday is 1-based
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;  // e.g. 30 February
+        }
         out = std::chrono::sys_days{ymd};
         return true;
     } catch (...) {
-- 
2.43.0


From adbbc79e5455a2fd1502ec670c840a10256b2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 006/136] fix: keep the simulation clock on whole seconds

The accumulated rounding of sub-daily steps made the clock drift from the calendar dates: the number of
steps could differ from the announced one, and changes dated at a step were applied late or never.
---
 core/src/base/TimeMachine.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..72d32eb 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,5 +1,19 @@
 #include "TimeMachine.h"
 
+#include <cmath>
+
+#include "TimeConstants.h"
+
+namespace {
+// Dates are whole seconds; half a second absorbs the rounding of their decimal representation.
+constexpr double DATE_TOLERANCE = 0.5 / SECONDS_PER_DAY_D;
+
+// Same representation as the dates obtained from the calendar (UtilsDateTime::ToMJD).
+double RoundToSecond(double mjd) {
+    return MJD_UNIX_EPOCH + std::round((mjd - MJD_UNIX_EPOCH) * SECONDS_PER_DAY_D) / SECONDS_PER_DAY_D;
+}
+}  // namespace
+
 TimeMachine::TimeMachine()
     : _date(0),
       _start(0),
@@ -43,12 +57,12 @@ void TimeMachine::Reset() {
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return _date > _end + DATE_TOLERANCE;
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+    _date = RoundToSecond(_date + _timeStepInDays);
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +74,7 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    return static_cast<int>(1 + (_end - _start + DATE_TOLERANCE) / _timeStepInDays);
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
-- 
2.43.0


From 433b9dc0eea09d571b36f707aaec062c7988ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 007/136] fix: position the forcing cursor by whole time steps

The starting position ignored the time of day of sub-daily series and the length of multi-day steps, so the
simulation used the values of other dates or read past the end of the series.
---
 core/src/base/TimeSeriesData.cpp | 34 +++++++++++++++-----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..50c8a7d 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -1,7 +1,15 @@
 #include "TimeSeriesData.h"
 
+#include <cmath>
 #include <utility>
 
+#include "TimeConstants.h"
+
+namespace {
+// Dates are whole seconds; half a second absorbs the rounding of their decimal representation.
+constexpr double DATE_TOLERANCE = 0.5 / SECONDS_PER_DAY_D;
+}  // namespace
+
 /*
  * TimeSeriesData
  */
@@ -39,7 +47,7 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    if (std::abs(calcEnd - _end) > DATE_TOLERANCE) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
@@ -67,31 +75,21 @@ double TimeSeriesDataRegular::GetSum() {
 }
 
 bool TimeSeriesDataRegular::SetCursorToDate(double date) {
-    if (date < _start) {
+    if (date < _start - DATE_TOLERANCE) {
         LogError("The desired date is before the data starting date.");
         return false;
     }
-    if (date > _end) {
+    if (date > _end + DATE_TOLERANCE) {
         LogError("The desired date is after the data ending date.");
         return false;
     }
 
-    double dt = date - _start;
-
-    switch (_timeStepUnit) {
-        case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
-            break;
-        case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
-            break;
-        case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
-            break;
-        default:
-            throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
-                                             static_cast<int>(_timeStepUnit)));
+    double timeStepInDays = IncrementDateBy(0, _timeStep, _timeStepUnit);
+    if (timeStepInDays <= 0) {
+        throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
+                                         static_cast<int>(_timeStepUnit)));
     }
+    _cursor = static_cast<int>((date - _start + DATE_TOLERANCE) / timeStepInDays);
 
     return true;
 }
-- 
2.43.0


From 852db28c68bdfebd64cf2d5291358cb281dcebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 008/136] fix: refuse forcing data whose time step differs from
 the simulation

The series advances by one value per simulated step, so a series with another time step was accepted and
silently used at the wrong dates.
---
 core/src/base/ModelHydro.cpp            |  6 ++++++
 core/src/base/TimeSeries.h              |  7 +++++++
 core/src/base/TimeSeriesData.cpp        | 10 +++++++++-
 core/src/base/TimeSeriesData.h          | 12 ++++++++++++
 core/src/base/TimeSeriesDistributed.cpp |  5 +++++
 core/src/base/TimeSeriesDistributed.h   |  5 +++++
 core/src/base/TimeSeriesUniform.cpp     |  5 +++++
 core/src/base/TimeSeriesUniform.h       |  5 +++++
 8 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..0a2ea11 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -286,6 +286,12 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         return false;
     }
 
+    // The simulation advances the series by one value per time step.
+    if (!NearlyEqual(timeSeries->GetTimeStepInDays(), *_timer.GetTimeStepPointer(), PRECISION)) {
+        LogError("The time step of the data differs from the modelling time step.");
+        return false;
+    }
+
     _timeSeries.push_back(std::move(timeSeries));
 
     return true;
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index a5c7384..f169e9f 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -69,6 +69,13 @@ class TimeSeries {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series.
+     *
+     * @return the time step in days.
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const = 0;
+
     /**
      * Get the sum of the time series data for the provided basin settings.
      *
diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 50c8a7d..49f32bb 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -30,6 +30,10 @@ double TimeSeriesData::GetCurrentValue() const {
     throw NotImplemented("TimeSeriesData::GetCurrentValue - Not yet implemented");
 }
 
+double TimeSeriesData::GetTimeStepInDays() const {
+    throw NotImplemented("TimeSeriesData::GetTimeStepInDays - Not yet implemented");
+}
+
 double TimeSeriesData::GetSum() {
     throw NotImplemented("TimeSeriesData::GetSum - Not yet implemented");
 }
@@ -84,7 +88,7 @@ bool TimeSeriesDataRegular::SetCursorToDate(double date) {
         return false;
     }
 
-    double timeStepInDays = IncrementDateBy(0, _timeStep, _timeStepUnit);
+    double timeStepInDays = GetTimeStepInDays();
     if (timeStepInDays <= 0) {
         throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
                                          static_cast<int>(_timeStepUnit)));
@@ -112,6 +116,10 @@ double TimeSeriesDataRegular::GetEnd() const {
     return _end;
 }
 
+double TimeSeriesDataRegular::GetTimeStepInDays() const {
+    return IncrementDateBy(0, _timeStep, _timeStepUnit);
+}
+
 bool TimeSeriesDataRegular::IsValid() const {
     // Check that values have been set
     if (_values.empty()) {
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index a33cafe..f034f00 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -68,6 +68,13 @@ class TimeSeriesData {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series data.
+     *
+     * @return the time step in days.
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const;
+
     /**
      * Check if the time series data is valid.
      * Verifies that the data has values and date range is set correctly.
@@ -135,6 +142,11 @@ class TimeSeriesDataRegular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::GetTimeStepInDays()
+     */
+    double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index a3c3bd9..af58464 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -41,6 +41,11 @@ double TimeSeriesDistributed::GetEnd() const {
     return _data[0]->GetEnd();
 }
 
+double TimeSeriesDistributed::GetTimeStepInDays() const {
+    assert(!_data.empty());
+    return _data[0]->GetTimeStepInDays();
+}
+
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
     double total = 0;
     double areaTotal = basinSettings->GetTotalArea();
diff --git a/core/src/base/TimeSeriesDistributed.h b/core/src/base/TimeSeriesDistributed.h
index b457871..040527c 100644
--- a/core/src/base/TimeSeriesDistributed.h
+++ b/core/src/base/TimeSeriesDistributed.h
@@ -47,6 +47,11 @@ class TimeSeriesDistributed : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
diff --git a/core/src/base/TimeSeriesUniform.cpp b/core/src/base/TimeSeriesUniform.cpp
index a4b884c..5f8f220 100644
--- a/core/src/base/TimeSeriesUniform.cpp
+++ b/core/src/base/TimeSeriesUniform.cpp
@@ -34,6 +34,11 @@ double TimeSeriesUniform::GetEnd() const {
     return _data->GetEnd();
 }
 
+double TimeSeriesUniform::GetTimeStepInDays() const {
+    assert(_data);
+    return _data->GetTimeStepInDays();
+}
+
 double TimeSeriesUniform::GetTotal(const SettingsBasin*) {
     throw NotImplemented("TimeSeriesUniform::GetTotal - Not yet implemented");
 }
diff --git a/core/src/base/TimeSeriesUniform.h b/core/src/base/TimeSeriesUniform.h
index 8126e99..61eed61 100644
--- a/core/src/base/TimeSeriesUniform.h
+++ b/core/src/base/TimeSeriesUniform.h
@@ -49,6 +49,11 @@ class TimeSeriesUniform : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
-- 
2.43.0


From e7180ca455d4f4c25aa87dcfb1893b80042b3d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 009/136] fix: clear the outflows of the land covers that
 vanished

---
 core/src/base/Processor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index eb9f031..a98b4c5 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -263,6 +263,12 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // The amounts of the last time step with a non-zero area must not be received again.
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    for (int j = 0; j < brick->GetProcess(i)->GetOutputFluxCount(); ++j) {
+                        brick->GetProcess(i)->GetOutputFlux(j)->Reset();
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From ebb152cee0933320313628f1998c592f5d345596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 010/136] fix: tolerate the rounding of the dates of the
 actions

---
 core/src/actions/ActionsManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..6040886 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -3,6 +3,7 @@
 #include "Action.h"
 #include "ModelHydro.h"
 #include "SubBasin.h"
+#include "TimeConstants.h"
 #include "Utils.h"
 
 ActionsManager::ActionsManager()
@@ -93,8 +94,10 @@ void ActionsManager::DateUpdate(double date) {
     }
 
     // Sporadic actions
+    // Half a second absorbs the rounding of the decimal representation of the dates.
+    constexpr double tolerance = 0.5 / SECONDS_PER_DAY_D;
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
-    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date) {
+    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date + tolerance) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
             throw RuntimeError("Application of a sporadic action failed.");
         }
-- 
2.43.0


From 340e59735547586d007d6665ea17450ea71960b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 011/136] fix: apply yearly actions once per day whatever the
 time step

---
 core/src/actions/ActionsManager.cpp | 21 +++++++++++++--------
 core/src/actions/ActionsManager.h   |  3 ++-
 core/src/base/TimeMachine.cpp       |  2 +-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index 6040886..e7b64d5 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -78,13 +78,20 @@ int ActionsManager::GetSporadicActionItemCount() const {
     return items;
 }
 
-void ActionsManager::DateUpdate(double date) {
-    // Recursive actions
+void ActionsManager::DateUpdate(double date, double timeStepInDays) {
+    // Half a second absorbs the rounding of the decimal representation of the dates.
+    constexpr double tolerance = 0.5 / SECONDS_PER_DAY_D;
+
+    // Recursive actions: applied once for every day that started since the previous time step, so that they are
+    // neither repeated within a day (sub-daily time steps) nor missed (time steps of several days).
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        double firstDay = std::floor(date - timeStepInDays + tolerance) + 1;
+        for (double day = firstDay; day <= date + tolerance; ++day) {
+            Time dateStruct = GetTimeStructFromMJD(day);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
     }
@@ -94,8 +101,6 @@ void ActionsManager::DateUpdate(double date) {
     }
 
     // Sporadic actions
-    // Half a second absorbs the rounding of the decimal representation of the dates.
-    constexpr double tolerance = 0.5 / SECONDS_PER_DAY_D;
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
     while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date + tolerance) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 57a723b..b6aed7e 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -61,8 +61,9 @@ class ActionsManager {
      * Update the date during the simulation. Triggers the actions that are scheduled for the current date.
      *
      * @param date corresponding date of the simulation.
+     * @param timeStepInDays duration since the previous date of the simulation (in days).
      */
-    void DateUpdate(double date);
+    void DateUpdate(double date, double timeStepInDays = 1.0);
 
     /**
      * Get the sub basin associated with the model.
diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 72d32eb..b796e70 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -68,7 +68,7 @@ void TimeMachine::IncrementTime() {
         _parametersUpdater->DateUpdate(_date);
     }
     if (_actionsManager) {
-        _actionsManager->DateUpdate(_date);
+        _actionsManager->DateUpdate(_date, _timeStepInDays);
     }
 }
 
-- 
2.43.0


From 4ac8d7cf643f65c94e6476987eccc0275a860c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 012/136] fix: adopt the glacier extents set from the lookup
 tables as initial extents

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 1 +
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 1 +
 core/src/spatial/HydroUnit.cpp                         | 6 ++++++
 core/src/spatial/HydroUnit.h                           | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..16aad9f 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -45,6 +45,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            unit->SaveAreaFractionsAsInitial();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index ea2f6f7..7ea3aad 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -47,6 +47,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            unit->SaveAreaFractionsAsInitial();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..6aa58c7 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -456,6 +456,12 @@ void HydroUnit::RestoreInitialAreaFractions() {
     }
 }
 
+void HydroUnit::SaveAreaFractionsAsInitial() {
+    for (auto brick : _landCoverBricks) {
+        brick->SetInitialAreaFraction(brick->GetAreaFraction());
+    }
+}
+
 bool HydroUnit::FixLandCoverFractionsTotal() {
     // The generic (soil) land cover absorbs the area changes.
     LandCover* ground = GetGenericLandCover();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index aa6b8b0..6037424 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -313,6 +313,11 @@ class HydroUnit {
      */
     void RestoreInitialAreaFractions();
 
+    /**
+     * Adopt the current area fractions of all land covers as their initial extents.
+     */
+    void SaveAreaFractionsAsInitial();
+
     /**
      * Get the generic land cover that absorbs area changes ('open', or its
      * 'ground'/'generic'/'generic_land_cover' aliases).
-- 
2.43.0


From c1a49b666e1ee63d31bdcb7e532c5a35cc297fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 013/136] fix: keep the corrected land cover extents on reset

---
 core/src/spatial/HydroUnit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 6aa58c7..911ee10 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -314,6 +314,7 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
             for (auto brick : _landCoverBricks) {
                 if (brick->GetAreaFraction() > diff) {
                     brick->SetAreaFraction(brick->GetAreaFraction() - diff);
+                    brick->SetInitialAreaFraction(brick->GetAreaFraction());
                     break;
                 }
             }
-- 
2.43.0


From f0f4ae0e9ac7e306689a415c3391dd45a294017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 014/136] fix: route the HBV delivery of every unit on its own
 storage

The amount of the flux to the outlet is weighted by the area of the hydro
unit. Reading it back as the delivered depth distorted the delivery schedule
(MAXBAS) of the units of any basin with more than one unit.
---
 core/src/fluxes/Flux.h                   | 9 +++++++++
 core/src/processes/ProcessRoutingHBV.cpp | 5 +++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index e6af389..37b78af 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -73,6 +73,15 @@ class Flux {
         return &_amount;
     }
 
+    /**
+     * Get the water amount that left the source brick, i.e. before the weighting by the area fractions.
+     *
+     * @return the amount of the flux relative to the area of the source brick.
+     */
+    [[nodiscard]] double GetSourceAmount() const {
+        return _fractionTotal > 0 && _fractionTotal < 1.0 ? _amount / _fractionTotal : _amount;
+    }
+
     /**
      * Check if the flux is a forcing.
      *
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index be457f4..f5b47f4 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -84,8 +84,9 @@ void ProcessRoutingHBV::Finalize() {
 
     // Water actually delivered to the outlet and actually received this timestep. The
     // applied rate can deviate from the scheduled delivery (solver stage averaging,
-    // rate constraints), so both are measured on the committed amounts.
-    double delivered = *_outputs[0]->GetAmountPointer();
+    // rate constraints), so both are measured on the committed amounts. The amount of the
+    // flux to the outlet is weighted by the area of the unit, but the storage is not.
+    double delivered = _outputs[0]->GetSourceAmount();
     double content = _container->GetContentWithoutChanges();
     double inflow = content - _previousContent + delivered;
     _previousContent = content;
-- 
2.43.0


From 6a119ecc2cc9f7c209cc43b6aa81aebcbd267deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 015/136] fix: let an empty store pass on its inflow when the
 demands exceed it

WaterContainer::ApplyConstraints cancelled all the outflows of a store that was
exactly empty at the start of the step instead of scaling them to the inflow.
---
 core/src/containers/WaterContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 64c42fd..cee1f39 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -139,7 +139,8 @@ void WaterContainer::ApplyConstraints(double timeStep) {
             if (NearlyZero(*rate, EPSILON_D)) {
                 continue;
             }
-            if (NearlyEqual(diff, change, PRECISION)) {
+            if (NearlyEqual(diff, -outputs, PRECISION)) {
+                // Nothing in store and no inflow.
                 *rate = 0;
                 continue;
             }
-- 
2.43.0


From 7677fb3ddf2ac3423780b7c1baa21a67b7bfa65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 016/136] fix: let implicit solvers empty a store whose outflow
 stops at once

A process with a constant rate (e.g. percolation) has an outflow that drops
to zero when the store empties. The bisection of the implicit solvers then
converged to the discontinuity, and its midpoint could fall on the empty side,
where all rates are null: the store never drained. Evaluate the rates on the
upper side of the bracket.
---
 core/src/base/SolverCrankNicolson.cpp | 3 ++-
 core/src/base/SolverImplicitEuler.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/base/SolverCrankNicolson.cpp b/core/src/base/SolverCrankNicolson.cpp
index 0a545c7..c4a426f 100644
--- a/core/src/base/SolverCrankNicolson.cpp
+++ b/core/src/base/SolverCrankNicolson.cpp
@@ -45,7 +45,8 @@ void SolverCrankNicolson::ComputeBrickRates(Brick* brick, double content, double
                 break;
             }
         }
-        endContent = (lo + hi) / 2;
+        // The upper bound, as the outflow may drop to 0 at once when the store empties (e.g. constant percolation).
+        endContent = hi;
     } else {
         endContent = lo;
     }
diff --git a/core/src/base/SolverImplicitEuler.cpp b/core/src/base/SolverImplicitEuler.cpp
index 6701357..c21702b 100644
--- a/core/src/base/SolverImplicitEuler.cpp
+++ b/core/src/base/SolverImplicitEuler.cpp
@@ -40,7 +40,8 @@ void SolverImplicitEuler::ComputeBrickRates(Brick* brick, double content, double
                 break;
             }
         }
-        endContent = (lo + hi) / 2;
+        // The upper bound, as the outflow may drop to 0 at once when the store empties (e.g. constant percolation).
+        endContent = hi;
     } else {
         endContent = lo;
     }
-- 
2.43.0


From 3e93111cb11ae077787f0d5a55bed7586904b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 017/136] fix: leave the water already released out of the GR
 internal storage

The first ordinate of the unit hydrograph buffers is released in the time step
it is advanced, but was still counted in the storage reported for the water
balance.
---
 core/src/processes/ProcessRoutingGR4J.cpp | 5 +++--
 core/src/processes/ProcessRoutingGR6J.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index d6ad324..7060a82 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -170,8 +170,9 @@ void ProcessRoutingGR4J::Finalize() {
     _r -= _qr;
     _qd = std::max(0.0, _stuh2[0] + F);
 
-    _processStorage = _r + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first ordinate of the buffers has been released in this time step and is no longer stored.
+    _processStorage = _r + std::accumulate(_stuh1.begin() + 1, _stuh1.end(), 0.0) +
+                      std::accumulate(_stuh2.begin() + 1, _stuh2.end(), 0.0);
 }
 
 void ProcessRoutingGR4J::_recomputeUH() {
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index fc8094e..c972ca5 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -213,8 +213,9 @@ void ProcessRoutingGR6J::Finalize() {
     // Direct branch.
     _qd = std::max(0.0, uh2_out + F);
 
-    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first ordinate of the buffers has been released in this time step and is no longer stored.
+    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin() + 1, _stuh1.end(), 0.0) +
+                      std::accumulate(_stuh2.begin() + 1, _stuh2.end(), 0.0);
 }
 
 void ProcessRoutingGR6J::_recomputeUH() {
-- 
2.43.0


From 0ce549f6e0270cdb8d5db21bbe5be5318e1a8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 018/136] fix: book the GR4J exchange once per time step,
 whatever the number of solver evaluations

---
 core/src/processes/ProcessRoutingGR4J.cpp | 13 ++++++++++---
 core/src/processes/ProcessRoutingGR4J.h   |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 7060a82..a3510cc 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -14,6 +14,7 @@ ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
       _r(0.0),
       _qr(0.0),
       _qd(0.0),
+      _exchangeBooked(0.0),
       _processStorage(0.0) {}
 
 void ProcessRoutingGR4J::RegisterProcessSettings(SettingsModel* modelSettings) {
@@ -41,6 +42,7 @@ void ProcessRoutingGR4J::Reset() {
     _r = 0.0;
     _qr = 0.0;
     _qd = 0.0;
+    _exchangeBooked = 0.0;
     _processStorage = 0.0;
 }
 
@@ -114,13 +116,16 @@ const vecDouble& ProcessRoutingGR4J::GetRates() {
     // water never entered through the inflow PR. Inject the net exchange into the container so
     // the discharge it produces (positive X2) is backed by real water and is not capped by the
     // container's non-negativity constraint. The clamped contributions match the committed state
-    // computed in Finalize. Evaluated once per step (the brick is computed directly).
+    // computed in Finalize. The solvers can evaluate the rates several times per step: only the
+    // difference with what has already been booked for this step is added.
     if (_timeMachine != nullptr) {
         double exchangeToStore = r_pred - (_r + uh1_out);  // F applied to the routing store (clamped)
         double exchangeToDirect = _qd - uh2_out;           // F applied to the direct branch (clamped)
         double netExchange = exchangeToStore + exchangeToDirect;
-        if (netExchange != 0.0) {
-            _container->AddAmountToStaticContentChange(netExchange * (*_timeMachine->GetTimeStepPointer()));
+        if (netExchange != _exchangeBooked) {
+            _container->AddAmountToStaticContentChange((netExchange - _exchangeBooked) *
+                                                       (*_timeMachine->GetTimeStepPointer()));
+            _exchangeBooked = netExchange;
         }
     }
 
@@ -135,6 +140,8 @@ void ProcessRoutingGR4J::Finalize() {
         return;
     }
 
+    _exchangeBooked = 0.0;
+
     double X2 = *_exchangeFactor;
     double X3 = *_routingCapacity;
 
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 0e7f1f6..8c611a5 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -74,6 +74,9 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     double _qr;
     double _qd;
 
+    // Groundwater exchange already injected into the container during the current time step
+    double _exchangeBooked;
+
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
-- 
2.43.0


From a4035c3dd427f6bc244b71786e39b405a38f5787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 019/136] fix: do not drop the GR4J routing rates at solver
 stages with an empty container

---
 core/src/processes/ProcessRoutingGR4J.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 8c611a5..67d81a3 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -49,6 +49,18 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Finalize() override;
 
+    /**
+     * @copydoc Process::GetChangeRates()
+     *
+     * Bypasses the empty-container shortcut of the base class: the rates depend on the
+     * buffers and on the inflow of the time step, not on the content, and the container
+     * can be empty at one of the solver stages. The container constraints still prevent
+     * any negative content.
+     */
+    [[nodiscard]] const vecDouble& GetChangeRates() override {
+        return GetRates();
+    }
+
     /**
      * @copydoc Process::GetValuePointer()
      */
-- 
2.43.0


From e2e5a272bb512b8c3e0e1ab4dc964f82a881293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 020/136] fix: keep the state of the routing, melt and
 redistribution processes in the saved initial state

---
 core/src/bricks/Brick.cpp                      |  3 +++
 core/src/bricks/Snowpack.cpp                   |  2 +-
 core/src/processes/Process.cpp                 |  4 ++++
 core/src/processes/Process.h                   |  5 +++++
 .../ProcessLateralSnowRedistributionFrey.cpp   | 14 +++++++++++---
 .../ProcessLateralSnowRedistributionFrey.h     |  7 +++++++
 core/src/processes/ProcessMeltCemaNeige.cpp    | 10 ++++++++--
 core/src/processes/ProcessMeltCemaNeige.h      | 10 ++++++++--
 core/src/processes/ProcessRoutingGR4J.cpp      | 14 +++++++++++---
 core/src/processes/ProcessRoutingGR4J.h        | 10 ++++++++++
 core/src/processes/ProcessRoutingGR6J.cpp      | 18 ++++++++++++++----
 core/src/processes/ProcessRoutingGR6J.h        | 11 +++++++++++
 core/src/processes/ProcessRoutingHBV.cpp       | 16 +++++++++++++---
 core/src/processes/ProcessRoutingHBV.h         |  9 +++++++++
 14 files changed, 115 insertions(+), 18 deletions(-)

diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index f916bbb..8929368 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -53,6 +53,9 @@ void Brick::Reset() {
 
 void Brick::SaveAsInitialState() {
     _water->SaveAsInitialState();
+    for (const auto& process : _processes) {
+        process->SaveAsInitialState();
+    }
 }
 
 bool Brick::IsValid(bool checkProcesses) const {
diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index cd61de5..8255c50 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -12,7 +12,7 @@ void Snowpack::Reset() {
 }
 
 void Snowpack::SaveAsInitialState() {
-    _water->SaveAsInitialState();
+    SurfaceComponent::SaveAsInitialState();
     _snow->SaveAsInitialState();
 }
 
diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index d2f847a..f0849a5 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -448,6 +448,10 @@ void Process::Reset() {
     }
 }
 
+void Process::SaveAsInitialState() {
+    // Nothing to do: most processes have no state.
+}
+
 void Process::SetHydroUnitProperties(HydroUnit*, Brick*) {
     // Nothing to do...
 }
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index ac51a00..d5cdc28 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -42,6 +42,11 @@ class Process {
      */
     virtual void Reset();
 
+    /**
+     * Save the current state (besides the content of the container) as the initial state restored by Reset().
+     */
+    virtual void SaveAsInitialState();
+
     /**
      * Check that everything is correctly defined.
      *
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
index a7d9dfe..97a87f8 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
@@ -29,7 +29,9 @@ ProcessLateralSnowRedistributionFrey::ProcessLateralSnowRedistributionFrey(Water
       _rhoScale(nullptr),
       _tScale(nullptr),
       _density(constants::snowDensity),
-      _prevSwe(0.0) {}
+      _prevSwe(0.0),
+      _initialDensity(constants::snowDensity),
+      _initialPrevSwe(0.0) {}
 
 bool ProcessLateralSnowRedistributionFrey::IsValid() const {
     // Permissive (like snow_slide): hydro units without lateral connections simply do not redistribute.
@@ -92,8 +94,14 @@ void ProcessLateralSnowRedistributionFrey::AttachForcing(Forcing* forcing) {
 
 void ProcessLateralSnowRedistributionFrey::Reset() {
     ProcessLateral::Reset();
-    _density = constants::snowDensity;
-    _prevSwe = 0.0;
+    _density = _initialDensity;
+    _prevSwe = _initialPrevSwe;
+}
+
+void ProcessLateralSnowRedistributionFrey::SaveAsInitialState() {
+    ProcessLateral::SaveAsInitialState();
+    _initialDensity = _density;
+    _initialPrevSwe = _prevSwe;
 }
 
 double ProcessLateralSnowRedistributionFrey::ComputeFreshSnowDensity() const {
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.h b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
index ab27121..ea9d931 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.h
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
@@ -80,6 +80,11 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * @copydoc Process::Finalize()
      */
@@ -108,6 +113,8 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
     const float* _tScale;           // Density sigmoid shift coefficient (dynamic variant) [°C]
     double _density;                // Tracked bulk snow density (dynamic variant) [kg/m3]
     double _prevSwe;                // Committed SWE at the previous time step (dynamic variant) [mm]
+    double _initialDensity;         // Density restored by Reset() [kg/m3]
+    double _initialPrevSwe;         // SWE restored by Reset() [mm]
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessMeltCemaNeige.cpp b/core/src/processes/ProcessMeltCemaNeige.cpp
index 4984a8a..d59178a 100644
--- a/core/src/processes/ProcessMeltCemaNeige.cpp
+++ b/core/src/processes/ProcessMeltCemaNeige.cpp
@@ -12,7 +12,8 @@ ProcessMeltCemaNeige::ProcessMeltCemaNeige(WaterContainer* container)
       _coldContentFactor(nullptr),
       _meltingTemp(nullptr),
       _meanAnnualSnow(nullptr),
-      _coldContent(0.0) {}
+      _coldContent(0.0),
+      _initialColdContent(0.0) {}
 
 void ProcessMeltCemaNeige::RegisterProcessSettings(SettingsModel* modelSettings) {
     modelSettings->AddProcessParameter("degree_day_factor", 3.0f);
@@ -57,7 +58,12 @@ void ProcessMeltCemaNeige::AttachForcing(Forcing* forcing) {
 
 void ProcessMeltCemaNeige::Reset() {
     ProcessMelt::Reset();
-    _coldContent = 0.0;
+    _coldContent = _initialColdContent;
+}
+
+void ProcessMeltCemaNeige::SaveAsInitialState() {
+    ProcessMelt::SaveAsInitialState();
+    _initialColdContent = _coldContent;
 }
 
 const vecDouble& ProcessMeltCemaNeige::GetRates() {
diff --git a/core/src/processes/ProcessMeltCemaNeige.h b/core/src/processes/ProcessMeltCemaNeige.h
index 038438a..2ed2095 100644
--- a/core/src/processes/ProcessMeltCemaNeige.h
+++ b/core/src/processes/ProcessMeltCemaNeige.h
@@ -22,7 +22,7 @@
  *   mean_annual_snow              [mm] mean annual solid precipitation; Cn = 0.9 * this value
  *
  * Internal state _coldContent (G) persists between timesteps and is reset
- * to zero by Reset().
+ * to its initial value (zero by default) by Reset().
  */
 class ProcessMeltCemaNeige : public ProcessMelt {
   public:
@@ -57,6 +57,11 @@ class ProcessMeltCemaNeige : public ProcessMelt {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
   protected:
     Forcing* _temperature;            // non-owning reference
     const float* _degreeDayFactor;    // Kf [mm/°C/d]
@@ -64,7 +69,8 @@ class ProcessMeltCemaNeige : public ProcessMelt {
     const float* _meltingTemp;        // Tmelt [°C]
     const float* _meanAnnualSnow;     // Cn [mm]
 
-    double _coldContent;  // G [°C], persists between timesteps
+    double _coldContent;         // G [°C], persists between timesteps
+    double _initialColdContent;  // G [°C] restored by Reset()
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index a3510cc..b7dd94a 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -15,6 +15,7 @@ ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
       _qr(0.0),
       _qd(0.0),
       _exchangeBooked(0.0),
+      _initialR(0.0),
       _processStorage(0.0) {}
 
 void ProcessRoutingGR4J::RegisterProcessSettings(SettingsModel* modelSettings) {
@@ -36,16 +37,23 @@ void ProcessRoutingGR4J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR4J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
+    _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
     _exchangeBooked = 0.0;
     _processStorage = 0.0;
 }
 
+void ProcessRoutingGR4J::SaveAsInitialState() {
+    ProcessOutflow::SaveAsInitialState();
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+}
+
 double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
     if (name == "output") {
         return _outputs[0]->GetAmountPointer();
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 67d81a3..43e6686 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -44,6 +44,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and routing store once per timestep.
      */
@@ -89,6 +94,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     // Groundwater exchange already injected into the container during the current time step
     double _exchangeBooked;
 
+    // State restored by Reset()
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR;
+
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index c972ca5..b2f2e46 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -21,6 +21,8 @@ ProcessRoutingGR6J::ProcessRoutingGR6J(WaterContainer* container)
       _qr(0.0),
       _qrexp(0.0),
       _qd(0.0),
+      _initialR(0.0),
+      _initialRexp(0.0),
       _processStorage(0.0) {
     // The exponential store is bottomless: its level (and hence the uh_input container content that
     // mirrors the routing storage) can be negative. Allow the container to hold negative content so
@@ -51,17 +53,25 @@ void ProcessRoutingGR6J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR6J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
-    _rexp = 0.0;
+    _r = _initialR;
+    _rexp = _initialRexp;
     _qr = 0.0;
     _qrexp = 0.0;
     _qd = 0.0;
     _processStorage = 0.0;
 }
 
+void ProcessRoutingGR6J::SaveAsInitialState() {
+    ProcessOutflow::SaveAsInitialState();
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialRexp = _rexp;
+}
+
 double* ProcessRoutingGR6J::GetValuePointer(std::string_view name) {
     if (name == "output") {
         return _outputs[0]->GetAmountPointer();
diff --git a/core/src/processes/ProcessRoutingGR6J.h b/core/src/processes/ProcessRoutingGR6J.h
index 27408cd..aace26b 100644
--- a/core/src/processes/ProcessRoutingGR6J.h
+++ b/core/src/processes/ProcessRoutingGR6J.h
@@ -49,6 +49,11 @@ class ProcessRoutingGR6J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and both routing stores once per timestep.
      */
@@ -91,6 +96,12 @@ class ProcessRoutingGR6J : public ProcessOutflow {
     double _qrexp;
     double _qd;
 
+    // State restored by Reset()
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR;
+    double _initialRexp;
+
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index f5b47f4..df50265 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -11,6 +11,7 @@ ProcessRoutingHBV::ProcessRoutingHBV(WaterContainer* container)
       _maxbas(nullptr),
       _lastMaxbas(0.0),
       _previousContent(0.0),
+      _initialPreviousContent(0.0),
       _processStorage(0.0) {}
 
 void ProcessRoutingHBV::RegisterProcessSettings(SettingsModel* modelSettings) {
@@ -40,12 +41,18 @@ void ProcessRoutingHBV::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingHBV::Reset() {
     ProcessOutflow::Reset();
+    _stuh = _initialStuh;
     _recomputeUH();
-    std::fill(_stuh.begin(), _stuh.end(), 0.0);
-    _previousContent = 0.0;
+    _previousContent = _initialPreviousContent;
     _processStorage = 0.0;
 }
 
+void ProcessRoutingHBV::SaveAsInitialState() {
+    ProcessOutflow::SaveAsInitialState();
+    _initialStuh = _stuh;
+    _initialPreviousContent = _previousContent;
+}
+
 double* ProcessRoutingHBV::GetValuePointer(std::string_view name) {
     if (name == "output") {
         return _outputs[0]->GetAmountPointer();
@@ -124,8 +131,11 @@ void ProcessRoutingHBV::_recomputeUH() {
                         _cumulativeWeight(static_cast<double>(j - 1), maxbas);
     }
 
-    // Resize the delivery schedule, preserving existing state
+    // Resize the delivery schedule, preserving existing state: what was due after the end of
+    // a shorter schedule is due at its end.
+    double beyond = n < static_cast<int>(_stuh.size()) ? std::accumulate(_stuh.begin() + n, _stuh.end(), 0.0) : 0.0;
     _stuh.resize(n, 0.0);
+    _stuh.back() += beyond;
 }
 
 double ProcessRoutingHBV::_cumulativeWeight(double t, double maxbas) {
diff --git a/core/src/processes/ProcessRoutingHBV.h b/core/src/processes/ProcessRoutingHBV.h
index df1d0ac..7d495b5 100644
--- a/core/src/processes/ProcessRoutingHBV.h
+++ b/core/src/processes/ProcessRoutingHBV.h
@@ -54,6 +54,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance the delivery schedule once per timestep, using the committed amounts.
      */
@@ -87,6 +92,10 @@ class ProcessRoutingHBV : public ProcessOutflow {
     // End-of-step container content of the previous timestep (to measure the committed inflow)
     double _previousContent;
 
+    // State restored by Reset()
+    vecDouble _initialStuh;
+    double _initialPreviousContent;
+
     // In-transit water (scheduled, not yet delivered) for water balance logging
     double _processStorage;
 
-- 
2.43.0


From e3f84055e2921fbfae13ee42f308d20dc730e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 021/136] fix: complete the snow transfers to a unit processed
 before their origin within the time step

---
 core/src/base/Processor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index a98b4c5..0885bdb 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -276,6 +276,19 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
         }
     }
 
+    // Finalize once all units are processed, so that the lateral transfers to a unit processed before
+    // their origin are part of its content at the end of the time step.
+    for (int iUnit = 0; iUnit < hydroUnitCount; ++iUnit) {
+        HydroUnit* unit = basin->GetHydroUnit(iUnit);
+        int brickCount = unit->GetBrickCount();
+        for (int iBrick = 0; iBrick < brickCount; ++iBrick) {
+            Brick* brick = unit->GetBrick(iBrick);
+            if (!brick->NeedsSolver() && !brick->IsNull()) {
+                brick->Finalize();
+            }
+        }
+    }
+
     // Process the bricks that need a solver
     if (!_solver->Solve(timeStepInDays)) {
         return false;
@@ -331,6 +344,4 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
             ptIndex++;
         }
     }
-
-    brick->Finalize();
 }
-- 
2.43.0


From f9f44d89743e4e39498a9aad600d88790d9bea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 022/136] fix: keep the fluxes the next time step refers to in
 the saved initial state

---
 core/src/base/Processor.cpp    | 2 +-
 core/src/fluxes/Flux.cpp       | 7 ++++++-
 core/src/fluxes/Flux.h         | 6 ++++++
 core/src/processes/Process.cpp | 4 +++-
 core/src/processes/Process.h   | 3 ++-
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 0885bdb..c1f2f75 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -266,7 +266,7 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 // The amounts of the last time step with a non-zero area must not be received again.
                 for (int i = 0; i < brick->GetProcessCount(); ++i) {
                     for (int j = 0; j < brick->GetProcess(i)->GetOutputFluxCount(); ++j) {
-                        brick->GetProcess(i)->GetOutputFlux(j)->Reset();
+                        brick->GetProcess(i)->GetOutputFlux(j)->UpdateFlux(0);
                     }
                 }
                 continue;
diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index 9ed4502..05a0018 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -4,6 +4,7 @@
 
 Flux::Flux()
     : _amount(0),
+      _initialAmount(0),
       _changeRate(nullptr),
       _static(false),
       _needsWeighting(false),
@@ -14,7 +15,11 @@ Flux::Flux()
       _type(ContentType::Water) {}
 
 void Flux::Reset() {
-    _amount = 0;
+    _amount = _initialAmount;
+}
+
+void Flux::SaveAsInitialState() {
+    _initialAmount = _amount;
 }
 
 void Flux::UpdateFlux(double amount) {
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index 37b78af..6cef50b 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -32,6 +32,11 @@ class Flux {
      */
     virtual void Reset();
 
+    /**
+     * Save the current amount as the initial one (some of the next time step rates depend on it).
+     */
+    virtual void SaveAsInitialState();
+
     /**
      * Get the amount of water outgoing the flux.
      *
@@ -199,6 +204,7 @@ class Flux {
 
   protected:
     double _amount{};
+    double _initialAmount{};
     double* _changeRate{};  // non-owning reference
     bool _static{};
     bool _needsWeighting{};
diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index f0849a5..4e46324 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -449,7 +449,9 @@ void Process::Reset() {
 }
 
 void Process::SaveAsInitialState() {
-    // Nothing to do: most processes have no state.
+    for (const auto& flux : _outputs) {
+        flux->SaveAsInitialState();
+    }
 }
 
 void Process::SetHydroUnitProperties(HydroUnit*, Brick*) {
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index d5cdc28..20a0972 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -43,7 +43,8 @@ class Process {
     virtual void Reset();
 
     /**
-     * Save the current state (besides the content of the container) as the initial state restored by Reset().
+     * Save the current state (besides the content of the container) and the fluxes as the initial ones
+     * restored by Reset().
      */
     virtual void SaveAsInitialState();
 
-- 
2.43.0


From 32b18139b3464d42f5ceb2c33b54e1f6c5e5610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 023/136] fix: writing results when a list of labels is empty

The address of the first element of an empty vector was taken when no distributed item is recorded.
---
 core/src/base/FileNetcdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 35a0760..cf1781f 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -244,7 +244,7 @@ void FileNetcdf::PutAttString(const string& attName, const vecStr& values, int v
         const char* str = static_cast<const char*>(label.c_str());
         valuesChar.push_back(str);
     }
-    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), &valuesChar[0]));
+    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), valuesChar.data()));
 }
 
 string FileNetcdf::GetAttText(const string& attName, const string& varName) const {
-- 
2.43.0


From a5c1685878c45d0c70c4797cf7cf6900c2cfd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 024/136] fix: variables of a hydro units file that are not one
 value per unit

A variable with several dimensions overflowed the list of its dimensions and a scalar one was
taken for a property of the units.
---
 core/src/base/FileNetcdf.cpp    | 7 +++++++
 core/src/base/FileNetcdf.h      | 8 ++++++++
 core/src/base/SettingsBasin.cpp | 4 ++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index cf1781f..4d2e6dc 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -68,6 +68,13 @@ string FileNetcdf::GetVarName(int varId) const {
     return {varNameChar};
 }
 
+int FileNetcdf::GetVarDimCount(int varId) const {
+    int dimCount;
+    CheckNcStatus(nc_inq_varndims(_ncId, varId, &dimCount));
+
+    return dimCount;
+}
+
 vecInt FileNetcdf::GetVarDimIds(int varId, int dimCount) const {
     vecInt dimIds(dimCount);
     CheckNcStatus(nc_inq_vardimid(_ncId, varId, &dimIds[0]));
diff --git a/core/src/base/FileNetcdf.h b/core/src/base/FileNetcdf.h
index a2b6d7d..5194d57 100644
--- a/core/src/base/FileNetcdf.h
+++ b/core/src/base/FileNetcdf.h
@@ -55,6 +55,14 @@ class FileNetcdf {
      */
     string GetVarName(int varId) const;
 
+    /**
+     * Get the number of dimensions of a variable.
+     *
+     * @param varId variable id.
+     * @return number of dimensions.
+     */
+    [[nodiscard]] int GetVarDimCount(int varId) const;
+
     /**
      * Get the dimension ids of the provided variable.
      *
diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 2791f08..3c3691b 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -128,8 +128,8 @@ bool SettingsBasin::Parse(const string& path) {
                 continue;
             }
 
-            vecInt dimId = file.GetVarDimIds(iVar, 1);
-            if (dimId[0] != dimIdHydroUnits) {
+            // Only the variables with a single value per hydro unit are properties.
+            if (file.GetVarDimCount(iVar) != 1 || file.GetVarDimIds(iVar, 1)[0] != dimIdHydroUnits) {
                 continue;
             }
 
-- 
2.43.0


From dc567dbf50618f34d3cd43174c9f0b28dbd99675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 025/136] =?UTF-8?q?fix:=20angles=20declared=20in=20"degree?=
 =?UTF-8?q?"=20or=20"=C2=B0"=20were=20returned=20unconverted=20whatever=20?=
 =?UTF-8?q?the=20requested=20unit?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 core/src/spatial/HydroUnitProperty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 0f329ff..235536b 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -21,7 +21,7 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
         return _value;
     }
     if (_unit == "degrees" || _unit == "degree" || _unit == "deg" || _unit == "°") {
-        if (unit == "degrees" || _unit == "degree" || unit == "deg" || _unit == "°") {
+        if (unit == "degrees" || unit == "degree" || unit == "deg" || unit == "°") {
             return _value;
         }
         if (unit == "radians" || unit == "rad") {
-- 
2.43.0


From c69f23d92507902926379d146d9e444d2e4405f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 026/136] fix: land covers and property units of a hydro units
 file were dropped

The files written by HydroUnits.save_as() list the covers under land_cover_names (as text for a
single cover), and the units of the properties were ignored, so they could not be converted.
---
 core/src/base/FileNetcdf.cpp    | 7 ++++++-
 core/src/base/SettingsBasin.cpp | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 4d2e6dc..65ca430 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -228,8 +228,13 @@ vecStr FileNetcdf::GetAttString1D(const string& attName, const string& varName)
         CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
     }
 
+    // A single item may be stored as text instead of a list of strings.
+    nc_type type;
     size_t itemCount;
-    CheckNcStatus(nc_inq_attlen(_ncId, varId, attName.c_str(), &itemCount));
+    CheckNcStatus(nc_inq_att(_ncId, varId, attName.c_str(), &type, &itemCount));
+    if (type == NC_CHAR) {
+        return {GetAttText(attName, varName)};
+    }
 
     char** stringAtt = static_cast<char**>(malloc(itemCount * sizeof(char*)));
     memset(stringAtt, 0, itemCount * sizeof(char*));
diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 3c3691b..7085858 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -79,6 +79,8 @@ bool SettingsBasin::Parse(const string& path) {
         vecStr landCovers;
         if (file.HasAtt("land_covers")) {
             landCovers = file.GetAttString1D("land_covers");
+        } else if (file.HasAtt("land_cover_names")) {
+            landCovers = file.GetAttString1D("land_cover_names");
         } else if (file.HasAtt("surface_names")) {
             landCovers = file.GetAttString1D("surface_names");
         }
@@ -134,12 +136,14 @@ bool SettingsBasin::Parse(const string& path) {
             }
 
             vecDouble values = file.GetVarDouble1D(varName, unitCount);
+            vecStr units = file.HasAtt("units", varName) ? file.GetAttString1D("units", varName) : vecStr{};
+            string unitName = units.empty() ? "" : units[0];
 
             for (int iUnit = 0; iUnit < unitCount; ++iUnit) {
                 HydroUnitPropertyDouble prop;
                 prop.name = varName;
                 prop.value = values[iUnit];
-                prop.unit = "";
+                prop.unit = unitName;
                 _hydroUnits[iUnit].propertiesDouble.push_back(prop);
             }
         }
-- 
2.43.0


From ba870b580ddcd57be264eba1d331b2fa1154785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 027/136] fix: sub-daily forcing files were mistimed and
 inconsistent ones accepted

The dates were read in single precision, the check of the number of values was ignored, and a
single date or a one-dimensional variable was read out of bounds.
---
 core/src/base/TimeSeries.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index c5bf0ee..19214ae 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -22,7 +22,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         int timeLength = file.GetDimLen("time");
 
         // Get time
-        vecFloat time = file.GetVarFloat1D("time", timeLength);
+        vecDouble time = file.GetVarDouble1D("time", timeLength);
+        if (timeLength < 2) {
+            throw InputError("At least two dates are needed to define the time step of the data.");
+        }
         Time startSt = GetTimeStructFromMJD(time[0]);
         Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
         double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
@@ -57,6 +60,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
             auto timeSeries = std::make_unique<TimeSeriesDistributed>(varType);
 
             // Retrieve values from netCDF
+            if (file.GetVarDimCount(iVar) != 2) {
+                throw InputError(std::format("The variable '{}' must depend on the time and the hydro units.", varName));
+            }
             vecInt dimIds = file.GetVarDimIds(iVar, 2);
 
             if (dimIds[0] == dimIdTime) {
@@ -64,7 +70,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()));
+                    if (!forcingData->SetValues(
+                            vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()))) {
+                        throw RuntimeError("Time series creation failed.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             } else {
@@ -73,7 +82,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                     // A column of a column-major array is contiguous, so copy it straight into the vector.
                     const double* colStart = values.col(i).data();
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vecDouble(colStart, colStart + values.rows()));
+                    if (!forcingData->SetValues(vecDouble(colStart, colStart + values.rows()))) {
+                        throw RuntimeError("Time series creation failed.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             }
@@ -91,6 +102,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
 std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd& time, const axi& ids,
                                                const axxd& data) {
+    if (time.size() < 2) {
+        throw InputError("At least two dates are needed to define the time step of the data.");
+    }
+
     // Get time
     Time startSt = GetTimeStructFromMJD(time[0]);
     Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-- 
2.43.0


From e03ec554e13cba5c4b2e0c7dc88f02304a799bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 028/136] fix: 'type:' parameter assignments failed on
 sub-basin bricks

---
 core/src/base/SettingsModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..d015b3c 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -1012,7 +1012,7 @@ bool SettingsModel::SetParameterValueInSelectedStructure(const string& component
         // Set the parameter for all matching bricks - subbasins
         for (auto& brick : _selectedStructure->subBasinBricks) {
             if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
+                SelectSubBasinBrick(brick.name);
                 if (BrickHasParameter(name)) {
                     SetBrickParameterValue(name, value);
                 } else {
-- 
2.43.0


From 7a169ea6b42ac10e126fb94a7b26185e07b9d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 029/136] fix: an infinite glacier could not be made finite by
 a parameter update

---
 core/src/bricks/Glacier.cpp          | 4 ++--
 core/src/containers/WaterContainer.h | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 1f91945..25a1be9 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -22,8 +22,8 @@ void Glacier::SetParameters(const BrickSettings& brickSettings) {
     Brick::SetParameters(brickSettings);
     if (HasParameter(brickSettings, "infinite_storage")) {
         const float* valPtr = GetParameterValuePointer(brickSettings, "infinite_storage");
-        if (valPtr && !NearlyZero(*valPtr, EPSILON_F)) {
-            _ice->SetAsInfiniteStorage();
+        if (valPtr) {
+            _ice->SetAsInfiniteStorage(!NearlyZero(*valPtr, EPSILON_F));
         }
     }
 
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..214f874 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -115,9 +115,11 @@ class WaterContainer {
 
     /**
      * Set the water container as an infinite storage.
+     *
+     * @param infinite true if the storage is infinite, false if it is finite.
      */
-    void SetAsInfiniteStorage() {
-        _infiniteStorage = true;
+    void SetAsInfiniteStorage(bool infinite = true) {
+        _infiniteStorage = infinite;
     }
 
     /**
-- 
2.43.0


From 183bef8f744cb6853d7e5353ac8e29890da049a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 030/136] fix: an unknown brick or splitter type crashed the
 model set-up instead of being reported

---
 core/src/base/ModelBuilder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..16ffa7e 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -111,6 +111,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const BrickSettings& brickSettings = modelSettings.GetSubBasinBrickSettings(iBrick);
 
         auto brickPtr = Brick::Factory(brickSettings);
+        if (!brickPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not recognized.",
+                                               brickSettings.type, brickSettings.name));
+        }
         Brick* brick = brickPtr.get();
         brick->SetName(brickSettings.name);
         brick->SetParameters(brickSettings);
@@ -138,6 +142,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const SplitterSettings& splitterSettings = modelSettings.GetSubBasinSplitterSettings(iSplitter);
 
         auto splitterPtr = Splitter::Factory(splitterSettings);
+        if (!splitterPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the splitter '{}' is not recognized.",
+                                               splitterSettings.type, splitterSettings.name));
+        }
         Splitter* splitter = splitterPtr.get();
         splitter->SetName(splitterSettings.name);
         splitter->SetParameters(splitterSettings);
@@ -183,6 +191,10 @@ void ModelBuilder::CreateHydroUnitsComponents(SettingsModel& modelSettings) {
             const SplitterSettings& splitterSettings = modelSettings.GetHydroUnitSplitterSettings(iSplitter);
 
             auto splitterPtr = Splitter::Factory(splitterSettings);
+            if (!splitterPtr) {
+                throw ModelConfigError(std::format("The type '{}' of the splitter '{}' is not recognized.",
+                                                   splitterSettings.type, splitterSettings.name));
+            }
             Splitter* splitter = splitterPtr.get();
             splitter->SetName(splitterSettings.name);
             splitter->SetParameters(splitterSettings);
@@ -209,6 +221,10 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     const BrickSettings& brickSettings = modelSettings.GetHydroUnitBrickSettings(iBrick);
 
     auto brickPtr = std::unique_ptr<Brick>(Brick::Factory(brickSettings));
+    if (!brickPtr) {
+        throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not recognized.",
+                                           brickSettings.type, brickSettings.name));
+    }
     Brick* brick = brickPtr.get();
     brick->SetName(brickSettings.name);
     brick->SetParameters(brickSettings);
-- 
2.43.0


From 20644aba15239907d6d45073e42d6d2c26e1c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 031/136] fix: a snow/rain splitter without its forcing crashed
 the model instead of being reported

---
 core/src/fluxes/SplitterRain.cpp              | 4 ++++
 core/src/fluxes/SplitterSnowRainLinear.cpp    | 4 ++++
 core/src/fluxes/SplitterSnowRainThreshold.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/core/src/fluxes/SplitterRain.cpp b/core/src/fluxes/SplitterRain.cpp
index 960924a..5d7b826 100644
--- a/core/src/fluxes/SplitterRain.cpp
+++ b/core/src/fluxes/SplitterRain.cpp
@@ -10,6 +10,10 @@ bool SplitterRain::IsValid() const {
         LogError("SplitterRain should have 1 output.");
         return false;
     }
+    if (_precipitation == nullptr) {
+        LogError("SplitterRain: the precipitation forcing is required.");
+        return false;
+    }
 
     return true;
 }
diff --git a/core/src/fluxes/SplitterSnowRainLinear.cpp b/core/src/fluxes/SplitterSnowRainLinear.cpp
index 6213cff..4b9e1a0 100644
--- a/core/src/fluxes/SplitterSnowRainLinear.cpp
+++ b/core/src/fluxes/SplitterSnowRainLinear.cpp
@@ -14,6 +14,10 @@ bool SplitterSnowRainLinear::IsValid() const {
         LogError("SplitterSnowRainLinear should have 2 outputs.");
         return false;
     }
+    if (_precipitation == nullptr || _temperature == nullptr) {
+        LogError("SplitterSnowRainLinear: the precipitation and temperature forcings are required.");
+        return false;
+    }
 
     return true;
 }
diff --git a/core/src/fluxes/SplitterSnowRainThreshold.cpp b/core/src/fluxes/SplitterSnowRainThreshold.cpp
index a446ce2..8e5a6d9 100644
--- a/core/src/fluxes/SplitterSnowRainThreshold.cpp
+++ b/core/src/fluxes/SplitterSnowRainThreshold.cpp
@@ -13,6 +13,10 @@ bool SplitterSnowRainThreshold::IsValid() const {
         LogError("SplitterSnowRainThreshold should have 2 outputs.");
         return false;
     }
+    if (_precipitation == nullptr || _temperature == nullptr) {
+        LogError("SplitterSnowRainThreshold: the precipitation and temperature forcings are required.");
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From f1974aaa053e0d86efe3e6db34b578277f5d297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 032/136] fix: running without all the forcing data attached
 crashed instead of being reported

---
 core/src/base/Forcing.cpp      |  4 ++++
 core/src/base/Forcing.h        |  5 +++++
 core/src/base/ModelHydro.cpp   | 20 ++++++++++++++++++++
 core/src/spatial/HydroUnit.cpp | 10 ++++++++++
 core/src/spatial/HydroUnit.h   |  7 +++++++
 5 files changed, 46 insertions(+)

diff --git a/core/src/base/Forcing.cpp b/core/src/base/Forcing.cpp
index b5a7f85..ab74b4d 100644
--- a/core/src/base/Forcing.cpp
+++ b/core/src/base/Forcing.cpp
@@ -9,6 +9,10 @@ void Forcing::AttachTimeSeriesData(TimeSeriesData* timeSeriesData) {
     _timeSeriesData = timeSeriesData;
 }
 
+void Forcing::DetachTimeSeriesData() {
+    _timeSeriesData = nullptr;
+}
+
 double Forcing::GetValue() const {
     assert(_timeSeriesData);
     if (_hasUpdatedValue) return _updatedValue;
diff --git a/core/src/base/Forcing.h b/core/src/base/Forcing.h
index 9c0fa6c..9951029 100644
--- a/core/src/base/Forcing.h
+++ b/core/src/base/Forcing.h
@@ -17,6 +17,11 @@ class Forcing {
      */
     void AttachTimeSeriesData(TimeSeriesData* timeSeriesData);
 
+    /**
+     * Detach the time series data (e.g. before they are deleted).
+     */
+    void DetachTimeSeriesData();
+
     /**
      * Get the type of the forcing.
      *
diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 0a2ea11..586157e 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -98,6 +98,16 @@ bool ModelHydro::ForcingLoaded() const {
 }
 
 ModelResult ModelHydro::Run() {
+    if (!_subBasin) {
+        return std::unexpected("The model is not initialized.");
+    }
+    for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+        HydroUnit* unit = _subBasin->GetHydroUnit(iUnit);
+        if (!unit->HasValidForcings()) {
+            return std::unexpected(std::format("Forcing data are missing for the hydro unit {}.", unit->GetId()));
+        }
+    }
+
     if (auto r = InitializeTimeSeries(); !r) {
         return r;
     }
@@ -324,6 +334,16 @@ bool ModelHydro::CreateTimeSeries(const string& varName, const axd& time, const
 }
 
 void ModelHydro::ClearTimeSeries() {
+    // The forcings must not keep referring to the data that are about to be deleted.
+    for (const auto& timeSeries : _timeSeries) {
+        for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+            HydroUnit* unit = _subBasin->GetHydroUnit(iUnit);
+            if (unit->HasForcing(timeSeries->GetVariableType())) {
+                unit->GetForcing(timeSeries->GetVariableType())->DetachTimeSeriesData();
+            }
+        }
+    }
+
     _timeSeries.clear();  // Automatic cleanup via unique_ptr
 }
 
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 911ee10..afdc4dc 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -187,6 +187,16 @@ void HydroUnit::AddForcing(std::unique_ptr<Forcing> forcing) {
     _forcing.push_back(std::move(forcing));
 }
 
+bool HydroUnit::HasValidForcings() const {
+    for (const auto& forcing : _forcing) {
+        if (!forcing->IsValid()) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 void HydroUnit::ResetForcingUpdates() {
     for (const auto& forcing : _forcing) {
         forcing->ResetUpdate();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index 6037424..7cef83a 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -115,6 +115,13 @@ class HydroUnit {
      */
     [[nodiscard]] Forcing* GetForcing(VariableType type) const;
 
+    /**
+     * Check if all the forcings of the hydro unit have valid data attached.
+     *
+     * @return True if all the forcings are valid, false otherwise.
+     */
+    [[nodiscard]] bool HasValidForcings() const;
+
     /**
      * Reset all dynamic forcing overrides set during the current timestep.
      */
-- 
2.43.0


From 97ef738884defc53a6f85f66281881b404357fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 033/136] fix: negative land cover fractions and non-finite
 unit areas were accepted

---
 core/src/spatial/HydroUnit.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index afdc4dc..c53a6b3 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -299,13 +299,18 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
     for (const auto& splitter : _splitters) {
         if (!splitter->IsValid()) return false;
     }
-    if (_area <= 0) {
-        LogError("The hydro unit area has not been defined.");
+    if (!(_area > 0) || !std::isfinite(_area)) {
+        LogError("The hydro unit area ({}) is not valid.", _area);
         return false;
     }
     if (!_landCoverBricks.empty()) {
         double sumLandCoverArea = 0;
         for (auto brick : _landCoverBricks) {
+            if (LessThan(brick->GetAreaFraction(), 0)) {
+                LogError("The fraction of the land cover '{}' is negative ({}).", brick->GetName(),
+                         brick->GetAreaFraction());
+                return false;
+            }
             sumLandCoverArea += brick->GetAreaFraction();
         }
         if (!NearlyEqual(sumLandCoverArea, 1.0, EPSILON_D)) {
-- 
2.43.0


From a444436cd9ddab9110154bc7c8adef93e07c7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 034/136] fix: a land cover missing from the model structure
 was silently dropped

---
 core/src/spatial/SubBasin.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index b88468b..e2736d7 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -72,6 +72,11 @@ ModelResult SubBasin::AssignFractions(SettingsBasin& basinSettings) {
                 // non-glacier unit on a glacier-free structure); skip it then.
                 auto* genericBrick = _hydroUnits[iUnit]->TryGetBrick(elementSettings.name);
                 if (genericBrick == nullptr) {
+                    if (!NearlyZero(elementSettings.fraction, PRECISION)) {
+                        return std::unexpected(
+                            std::format("The land cover '{}' of the hydro unit {} is not part of its model structure.",
+                                        elementSettings.name, _hydroUnits[iUnit]->GetId()));
+                    }
                     continue;
                 }
                 auto brick = dynamic_cast<LandCover*>(genericBrick);
-- 
2.43.0


From 836e8d34372c19482dfe0553f1abe98dafa56a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 035/136] fix: lateral connections between unknown units or
 with undefined shares were ignored

---
 core/src/spatial/HydroUnit.cpp | 2 +-
 core/src/spatial/SubBasin.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index c53a6b3..7efc83f 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -214,7 +214,7 @@ Forcing* HydroUnit::GetForcing(VariableType type) const {
 
 void HydroUnit::AddLateralConnection(HydroUnit* receiver, double fraction, const string& type) {
     assert(receiver);
-    if (fraction <= 0 || fraction > 1) {
+    if (!(fraction > 0 && fraction <= 1)) {
         throw ModelConfigError(std::format("The fraction ({}) is not in the range ]0 .. 1]", fraction));
     }
     _lateralConnections.push_back(std::make_unique<HydroUnitLateralConnection>(receiver, fraction, type));
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index e2736d7..d04de6c 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -49,7 +49,8 @@ void SubBasin::BuildBasin(SettingsBasin& basinSettings) {
         if (giver && receiver) {
             giver->AddLateralConnection(receiver, connection.fraction, connection.type);
         } else {
-            LogError("Invalid hydro unit IDs in lateral connection settings.");
+            throw ModelConfigError(std::format("Invalid hydro unit IDs in the lateral connection from {} to {}.",
+                                               connection.giverHydroUnitId, connection.receiverHydroUnitId));
         }
     }
 }
-- 
2.43.0


From 5e6eb8518a09e829e6bcc68ad5b03ffc97c53f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 036/136] fix: a unit property in an unknown unit silently
 became undefined

---
 core/src/spatial/HydroUnitProperty.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 235536b..da0d551 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -42,9 +42,8 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
             return _value / 1000000.0;
         }
     }
-    LogError("The unit '{}' is not supported for the property '{}'.", unit, _name);
-
-    return NAN_D;
+    throw ModelConfigError(
+        std::format("The property '{}' cannot be converted from '{}' to '{}'.", _name, _unit, unit));
 }
 
 string HydroUnitProperty::GetValueString() const {
-- 
2.43.0


From 3e575cb786cd3d42f61f1f72f688ea18981052cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 037/136] fix: land cover changes on unknown units or with
 undefined areas were not refused

---
 core/src/actions/Action.cpp                | 2 +-
 core/src/actions/ActionLandCoverChange.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..463c841 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -80,7 +80,7 @@ double Action::CheckLandCoverAreaFraction(const string& name, int id, double fra
     }
 
     // If the fraction is not in the range [0, 1], raise an error.
-    if ((fraction < 0) || (fraction > 1)) {
+    if (!(fraction >= 0 && fraction <= 1)) {
         LogError("The given fraction ({}) for '{}' is not in the allowed range [0 .. 1]", fraction, name);
         LogError("The unit area is {}, and the land cover area to assign is {}.", unitArea, lcArea);
         LogError("Failed to set the '{}' area fraction for hydro unit {}.", name, id);
diff --git a/core/src/actions/ActionLandCoverChange.cpp b/core/src/actions/ActionLandCoverChange.cpp
index e93cbc8..a0eb5fd 100644
--- a/core/src/actions/ActionLandCoverChange.cpp
+++ b/core/src/actions/ActionLandCoverChange.cpp
@@ -30,6 +30,9 @@ bool ActionLandCoverChange::Apply(double) {
     assert(_landCoverNames.size() > _landCoverIds[_cursor]);
 
     HydroUnit* unit = _manager->GetHydroUnitById(_hydroUnitIds[_cursor]);
+    if (unit == nullptr) {
+        return false;
+    }
     string landCoverName = _landCoverNames[_landCoverIds[_cursor]];
     double areaFraction = _areas[_cursor] / unit->GetArea();
     areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[_cursor], areaFraction, unit->GetArea(),
-- 
2.43.0


From 2b2f315bb48c3bf9f6027261a189ce160a2b7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 038/136] fix: glacier evolution tables that do not match the
 units crashed

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 5 +++++
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 16aad9f..3736c8d 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -8,6 +8,11 @@ ActionGlacierEvolutionAreaScaling::ActionGlacierEvolutionAreaScaling() = default
 
 void ActionGlacierEvolutionAreaScaling::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                         const axxd& areas, const axxd& volumes) {
+    if (areas.rows() == 0 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw ModelConfigError("The lookup tables of the glacier evolution do not match the hydro units.");
+    }
+
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 7ea3aad..4d3e1be 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -8,6 +8,11 @@ ActionGlacierEvolutionDeltaH::ActionGlacierEvolutionDeltaH() = default;
 
 void ActionGlacierEvolutionDeltaH::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                    const axxd& areas, const axxd& volumes) {
+    if (areas.rows() == 0 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw ModelConfigError("The lookup tables of the glacier evolution do not match the hydro units.");
+    }
+
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
-- 
2.43.0


From 7e618c7fa0ce928ee0c45da4dc728d2c9fb7adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 039/136] fix: two bricks with the same name crashed the model
 instead of being reported

---
 core/src/base/ModelBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 16ffa7e..902e2e7 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -118,6 +118,9 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         Brick* brick = brickPtr.get();
         brick->SetName(brickSettings.name);
         brick->SetParameters(brickSettings);
+        if (_subBasin->HasBrick(brickSettings.name)) {
+            throw ModelConfigError(std::format("The brick name '{}' is used more than once.", brickSettings.name));
+        }
         _subBasin->AddBrick(std::move(brickPtr));
 
         for (int iProcess = 0; iProcess < modelSettings.GetProcessCount(); ++iProcess) {
@@ -231,6 +234,9 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     if (brickSettings.computedDirectly) {
         brick->SetNeedsSolver(false);
     }
+    if (unit->HasBrick(brickSettings.name)) {
+        throw ModelConfigError(std::format("The brick name '{}' is used more than once.", brickSettings.name));
+    }
     unit->AddBrick(std::move(brickPtr));
 
     BuildForcingConnections(brickSettings, unit, brick);
-- 
2.43.0


From ccb05976a75ec438232119432e8b9eda18e2866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 040/136] fix: refuse to run, save, update or write a model
 that is not initialized, already initialized or not reset

---
 core/src/base/ModelHydro.cpp | 38 ++++++++++++++++++++++++++++++++----
 core/src/base/ModelHydro.h   |  2 ++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 586157e..c69a4b0 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -18,6 +18,9 @@ ModelHydro::ModelHydro(SubBasin* subBasin)
 ModelHydro::~ModelHydro() = default;
 
 ModelResult ModelHydro::InitializeWithBasin(SettingsModel& modelSettings, SettingsBasin& basinSettings) {
+    if (_initialized) {
+        return std::unexpected("The model is already initialized.");
+    }
     _ownedSubBasin = std::make_unique<SubBasin>();
     _subBasin = _ownedSubBasin.get();
     if (auto r = _subBasin->Initialize(basinSettings); !r) {
@@ -70,10 +73,16 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
         return std::unexpected(std::format("Model initialization failed: {}", e.what()));
     }
 
+    _initialized = true;
+
     return {};
 }
 
 void ModelHydro::UpdateParameters(SettingsModel& modelSettings) {
+    if (!_initialized) {
+        throw ModelConfigError("The parameters cannot be updated: the model is not initialized.");
+    }
+
     // Sub-basin parameters come from the primary structure (1); hydro-unit
     // parameters are updated per unit against each unit's structure variant.
     modelSettings.SelectStructure(1);
@@ -84,12 +93,15 @@ void ModelHydro::UpdateParameters(SettingsModel& modelSettings) {
 }
 
 bool ModelHydro::IsValid() const {
-    if (!_subBasin->IsValid()) return false;
+    if (!_subBasin || !_subBasin->IsValid()) return false;
 
     return true;
 }
 
 void ModelHydro::Validate() const {
+    if (!_subBasin) {
+        throw ModelConfigError("The model is not initialized.");
+    }
     _subBasin->Validate();
 }
 
@@ -98,9 +110,12 @@ bool ModelHydro::ForcingLoaded() const {
 }
 
 ModelResult ModelHydro::Run() {
-    if (!_subBasin) {
+    if (!_initialized) {
         return std::unexpected("The model is not initialized.");
     }
+    if (_started) {
+        return std::unexpected("The model has already been run: it must be reset first.");
+    }
     for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
         HydroUnit* unit = _subBasin->GetHydroUnit(iUnit);
         if (!unit->HasValidForcings()) {
@@ -112,6 +127,8 @@ ModelResult ModelHydro::Run() {
         return r;
     }
 
+    _started = true;
+
     if (_spinupSteps > 0) {
         if (auto r = RunSpinup(); !r) {
             return r;
@@ -191,6 +208,7 @@ ModelResult ModelHydro::RewindAfterSpinup() {
 }
 
 void ModelHydro::Reset() {
+    _started = false;
     _timer.Reset();
     _logger.Reset();
     // Roll back action bookkeeping (cursors, lookup-table row, ...); the land-cover
@@ -199,14 +217,23 @@ void ModelHydro::Reset() {
     // restore it on every later reset, so a model can be re-run (e.g. in a calibration
     // loop) from the same initial conditions even when actions changed the extents.
     _actionsManager.Reset();
-    _subBasin->Reset();
+    if (_subBasin) {
+        _subBasin->Reset();
+    }
 }
 
 void ModelHydro::SaveAsInitialState() {
+    if (!_initialized) {
+        throw ModelConfigError("The state cannot be saved: the model is not initialized.");
+    }
     _subBasin->SaveAsInitialState();
 }
 
 bool ModelHydro::DumpOutputs(const string& path) {
+    if (!_initialized) {
+        LogError("There is nothing to write: the model is not initialized.");
+        return false;
+    }
     return _logger.DumpOutputs(path);
 }
 
@@ -348,7 +375,10 @@ void ModelHydro::ClearTimeSeries() {
 }
 
 bool ModelHydro::AttachTimeSeriesToHydroUnits() {
-    assert(_subBasin);
+    if (!_subBasin) {
+        LogError("The time series cannot be attached: the model is not initialized.");
+        return false;
+    }
 
     for (const auto& timeSeries : _timeSeries) {
         VariableType type = timeSeries->GetVariableType();
diff --git a/core/src/base/ModelHydro.h b/core/src/base/ModelHydro.h
index a267010..5e8f920 100644
--- a/core/src/base/ModelHydro.h
+++ b/core/src/base/ModelHydro.h
@@ -297,6 +297,8 @@ class ModelHydro {
     ParametersUpdater _parametersUpdater;
     std::vector<std::unique_ptr<TimeSeries>> _timeSeries;  // owning
     int _spinupSteps = 0;                                  // time steps replayed as spin-up at the start of each run
+    bool _initialized = false;                             // the model structure is built and valid
+    bool _started = false;                                 // a run was started since the last reset
 
   private:
     ModelResult InitializeTimeSeries();
-- 
2.43.0


From 59513f8e609a4f1faeea267a23f1978104e8c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 041/136] fix: HBV's snow_rain_process option reaches the model
 structure

The option was accepted and documented, and its parameters were generated,
but the rain/snow splitter always was the default one.
---
 python/src/hydrobricks/models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index b229454..d9beb6b 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -1211,6 +1211,7 @@ class Model(ABC):
             self.land_cover_types,
             with_snow=with_snow,
             snow_melt_process=snow_melt_process,
+            snow_rain_process=self.options.get("snow_rain_process"),
             snow_ice_transformation=snow_ice_transformation,
             snow_redistribution=snow_redistribution,
             snow_water_retention_process=snow_water_retention_process,
-- 
2.43.0


From bd2ae26dc23a10269893a46d69871ccbdd041c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 042/136] fix: the elevation of the hydro units reaches the
 processes (CemaNeige could not be set up)

---
 python/src/hydrobricks/hydro_units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index fc9e53e..3bfda2d 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -700,6 +700,10 @@ class HydroUnits:
                 float(row["area"].values[0]),
                 float(row["elevation"].values[0]),
             )
+            # Processes read the elevation from the properties of the unit
+            self.settings.add_hydro_unit_property_double(
+                "elevation", float(row["elevation"].values[0]), "m"
+            )
             for prop in properties:
                 if isinstance(row[prop].values[0], str):
                     self.settings.add_hydro_unit_property_str(prop, row[prop].values[0])
-- 
2.43.0


From 0f18f54d2b0719df1477bca13cbff9ce6cb3d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 043/136] fix: parameters can be generated for several glaciers
 with the SWAT snow/ice transformation

---
 python/src/hydrobricks/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 830d0ec..e011707 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -2056,11 +2056,16 @@ class ParameterSet:
                                 f"snow_ice_basal_acc_coeff_{c_name_s}",
                                 f"snow_ice_basal_acc_coeff_{i}",
                             ]
+                            a_hemisphere = [
+                                f"north_hemisphere_{c_name_s}",
+                                f"north_hemisphere_{i}",
+                            ]
                         else:
                             a_coeff = ["snow_ice_basal_acc_coeff"]
+                            a_hemisphere = ["north_hemisphere"]
                         alias_map = {
                             "snow_ice_transformation_basal_acc_coeff": a_coeff,
-                            "north_hemisphere": ["north_hemisphere"],
+                            "north_hemisphere": a_hemisphere,
                         }
                     for spec in PROCESS_PARAM_SPECS[algo]:
                         self._register(
-- 
2.43.0


From 8c4ef5ff290ccf7cfcd4ee5245e3f98304fca98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:26 +0000
Subject: [PATCH 044/136] fix: explicit solvers bound the outflows of a store
 by inflows of another stage, creating water (continuous GR4J)

---
 core/src/base/Processor.cpp            | 11 +++++++++++
 core/src/containers/WaterContainer.cpp |  2 +-
 core/src/fluxes/Flux.cpp               |  1 +
 core/src/fluxes/Flux.h                 | 23 +++++++++++++++++++++++
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index c1f2f75..bb36c41 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -58,6 +58,15 @@ void Processor::SetModel(ModelHydro* model) {
 void Processor::ConnectToElementsToSolve() {
     SubBasin* basin = _model->GetSubBasin();
 
+    // The outflows of the bricks to solve are not known amounts until the end of the time step
+    auto setOutflowsAsSolved = [](Brick* brick) {
+        for (int i = 0; i < brick->GetProcessCount(); ++i) {
+            for (int j = 0; j < brick->GetProcess(i)->GetOutputFluxCount(); ++j) {
+                brick->GetProcess(i)->GetOutputFlux(j)->SetAsSolved();
+            }
+        }
+    };
+
     // Two-phase time step contract: bricks computed directly (surface components, land
     // covers) form the discrete phase, processed sequentially in declaration order before
     // the solver; bricks needing the solver (storages) form the continuous phase,
@@ -84,6 +93,7 @@ void Processor::ConnectToElementsToSolve() {
 
                 // Count connections
                 _solvableConnectionCount += brick->GetProcessConnectionCount();
+                setOutflowsAsSolved(brick);
             } else {
                 // Count connections
                 _directConnectionCount += brick->GetProcessConnectionCount();
@@ -115,6 +125,7 @@ void Processor::ConnectToElementsToSolve() {
 
         // Count connections
         _solvableConnectionCount += brick->GetProcessConnectionCount();
+        setOutflowsAsSolved(brick);
     }
 }
 
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index cee1f39..79ec11d 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -105,7 +105,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
             continue;
         }
         if (input->IsForcing() || input->IsStatic()) {
-            inputsStatic += input->GetAmount();
+            inputsStatic += input->GetAmountOverTimeStep(timeStep);
             continue;
         }
         double* changeRate = input->GetChangeRatePointer();
diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index 05a0018..06e25b6 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -7,6 +7,7 @@ Flux::Flux()
       _initialAmount(0),
       _changeRate(nullptr),
       _static(false),
+      _solved(false),
       _needsWeighting(false),
       _fractionUnitArea(1.0),
       _fractionLandCover(1.0),
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index 6cef50b..c4732bb 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -121,6 +121,28 @@ class Flux {
         return _static;
     }
 
+    /**
+     * Set the flux as coming from a brick that needs the solver.
+     */
+    void SetAsSolved() {
+        _solved = true;
+    }
+
+    /**
+     * Get the amount delivered over the time step. While a brick is being solved, the stored amount can be the one of
+     * another stage of the solver, and the amount is therefore the one corresponding to its current change rate.
+     *
+     * @param timeStepInDays the time step in days.
+     * @return the amount delivered over the time step.
+     */
+    [[nodiscard]] double GetAmountOverTimeStep(double timeStepInDays) {
+        if (_solved && _changeRate != nullptr) {
+            double amount = std::max(*_changeRate, 0.0) * timeStepInDays;
+            return _fractionTotal < 1.0 ? amount * _fractionTotal : amount;
+        }
+        return GetAmount();
+    }
+
     /**
      * Check if the flux needs weighting.
      *
@@ -207,6 +229,7 @@ class Flux {
     double _initialAmount{};
     double* _changeRate{};  // non-owning reference
     bool _static{};
+    bool _solved{};
     bool _needsWeighting{};
     double _fractionUnitArea{1.0};
     double _fractionLandCover{1.0};
-- 
2.43.0


From 2d35ae8a052d352868a142ab8a9c2a8eeeec49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 045/136] fix: station data corrections accumulated when the
 forcing operations were applied again

---
 python/src/hydrobricks/forcing.py | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 1ebed77..df65da8 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -156,6 +156,8 @@ class Forcing:
         self.catchment: Catchment | None = catchment
         self.hydro_units: pd.DataFrame = hydro_units.hydro_units
         self._operations: list[dict[str, Any]] = []
+        # Station data before and after the corrections, per corrected variable
+        self._corrected_data: dict[Any, tuple[np.ndarray, np.ndarray]] = {}
         self._is_initialized: bool = False
 
     def is_initialized(self) -> bool:
@@ -684,6 +686,9 @@ class Forcing:
             "compute_pet",
         ]
 
+        # The corrections always apply to the original station data
+        self._restore_station_data()
+
         for operation_type in operation_types:
             logger.debug(f"  Applying {operation_type} operations")
             self._apply_operations_of_type(operation_type, parameters, apply_to_all)
@@ -958,14 +963,17 @@ class Forcing:
                 "Correction factor not provided.", variable=str(variable), method=method
             )
 
+        data = self.data1D.data[idx]
+        original = data
+        if variable in self._corrected_data:
+            original = self._corrected_data[variable][0]
+
         if method == "multiplicative":
-            correction_factor = kwargs["correction_factor"]
             # Do not use in-place mutation (*=) to avoid issues with read-only arrays
-            self.data1D.data[idx] = self.data1D.data[idx] * correction_factor
+            self.data1D.data[idx] = data * correction_factor
         elif method == "additive":
-            correction_factor = kwargs["correction_factor"]
             # Do not use in-place mutation (+=) to avoid issues with read-only arrays
-            self.data1D.data[idx] = self.data1D.data[idx] + correction_factor
+            self.data1D.data[idx] = data + correction_factor
         else:
             raise ForcingError(
                 f"Unknown correction method: {method}",
@@ -973,6 +981,23 @@ class Forcing:
                 method=method,
             )
 
+        self._corrected_data[variable] = (original, self.data1D.data[idx])
+
+    def _restore_station_data(self) -> None:
+        """
+        Restore the station data as they were before the prior corrections.
+
+        The operations can be applied several times (e.g. during a calibration), and
+        the corrections must not accumulate.
+        """
+        for variable, (original, corrected) in self._corrected_data.items():
+            idx = self.data1D.data_name.index(variable)
+            # Keep the data that were replaced since the last correction
+            if self.data1D.data[idx] is corrected:
+                self.data1D.data[idx] = original
+
+        self._corrected_data.clear()
+
     def _apply_spatialization_from_station_data(
         self, variable: str, method: str = "default", **kwargs: Any
     ) -> None:
-- 
2.43.0


From d6efe5db12e421ff28c2fa93480521c0200832fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 046/136] fix: a changing parameter re-applies all the forcing
 operations of the variables it affects

---
 python/src/hydrobricks/forcing.py | 91 ++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 14 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index df65da8..a20e192 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -686,12 +686,15 @@ class Forcing:
             "compute_pet",
         ]
 
+        # Restrict to the variables related to the parameters that changed
+        variables = None if apply_to_all else self._get_changing_variables(parameters)
+
         # The corrections always apply to the original station data
-        self._restore_station_data()
+        self._restore_station_data(variables)
 
         for operation_type in operation_types:
             logger.debug(f"  Applying {operation_type} operations")
-            self._apply_operations_of_type(operation_type, parameters, apply_to_all)
+            self._apply_operations_of_type(operation_type, parameters, variables)
 
         logger.debug("All forcing operations completed successfully")
         self._is_initialized = True
@@ -854,7 +857,7 @@ class Forcing:
         self,
         operation_type: str,
         parameters: ParameterSet | None = None,
-        apply_to_all: bool = True,
+        variables: set | None = None,
     ) -> None:
         """
         Apply operations of a specific type in sequence.
@@ -874,8 +877,9 @@ class Forcing:
         parameters
             Parameter object for substituting parameter references. Required if
             operations use 'param:' prefix.
-        apply_to_all
-            If False, only apply operations for variables in allow_changing list.
+        variables
+            The variables to which the operations are applied. If None, the operations
+            are applied to all variables.
 
         Raises
         ------
@@ -900,7 +904,6 @@ class Forcing:
             operation.pop("type")
 
             # Extract the operation options
-            apply_operation = False
             for key in operation:
                 value = operation[key]
                 if isinstance(value, str) and value.startswith("param:"):
@@ -914,12 +917,9 @@ class Forcing:
                         )
                     parameter_name = value.replace("param:", "")
                     operation[key] = parameters.get(parameter_name)
-                    if not apply_to_all:  # Restrict to parameters that changed
-                        if parameter_name in parameters.allow_changing:
-                            apply_operation = True
 
             # Apply the operation (or not)
-            if apply_to_all or apply_operation:
+            if variables is None or self._get_output_variable(operation) in variables:
                 if operation_type not in operation_handlers:
                     raise ConfigurationError(
                         f"Unknown operation type: {operation_type}",
@@ -930,6 +930,63 @@ class Forcing:
                 logger.debug(f"Applying {operation_type} operation")
                 operation_handlers[operation_type](**operation)
 
+    def _get_output_variable(self, operation: dict[str, Any]) -> Variable:
+        """
+        Get the variable modified by an operation.
+
+        Parameters
+        ----------
+        operation
+            The operation options.
+
+        Returns
+        -------
+        Variable
+            The modified variable (PET for the operations without variable).
+        """
+        return self.get_variable_enum(operation.get("variable", "PET"))
+
+    def _get_changing_variables(self, parameters: ParameterSet | None) -> set:
+        """
+        Get the variables that depend on the parameters allowed to change.
+
+        All the operations of such a variable must be applied again when a parameter
+        changes, as well as the PET computation that makes use of it.
+
+        Parameters
+        ----------
+        parameters
+            Parameter object providing the allow_changing list.
+
+        Returns
+        -------
+        set
+            The variables related to the parameters in the allow_changing list.
+        """
+        variables = set()
+        if parameters is None:
+            return variables
+
+        changing = [
+            parameters._get_parameter_index(name, raise_exception=False)
+            for name in parameters.allow_changing
+        ]
+        for operation in self._operations:
+            for value in operation.values():
+                if isinstance(value, str) and value.startswith("param:"):
+                    name = value.replace("param:", "")
+                    index = parameters._get_parameter_index(name)
+                    if index in changing:
+                        variables.add(self._get_output_variable(operation))
+
+        for operation in self._operations:
+            if operation["type"] == "compute_pet":
+                used = self._remove_lat_elevation_options(operation["use"])
+                if any(self.get_variable_enum(v) in variables for v in used):
+                    variables.add(self.Variable.PET)
+
+        return variables
+
     def _apply_prior_correction(
         self, variable: str, method: str = "multiplicative", **kwargs: Any
     ) -> None:
@@ -983,21 +1040,27 @@ class Forcing:
 
         self._corrected_data[variable] = (original, self.data1D.data[idx])
 
-    def _restore_station_data(self) -> None:
+    def _restore_station_data(self, variables: set | None = None) -> None:
         """
         Restore the station data as they were before the prior corrections.
 
         The operations can be applied several times (e.g. during a calibration), and
         the corrections must not accumulate.
+
+        Parameters
+        ----------
+        variables
+            The variables to restore. If None, all variables are restored.
         """
-        for variable, (original, corrected) in self._corrected_data.items():
+        for variable in list(self._corrected_data):
+            if variables is not None and variable not in variables:
+                continue
+            original, corrected = self._corrected_data.pop(variable)
             idx = self.data1D.data_name.index(variable)
             # Keep the data that were replaced since the last correction
             if self.data1D.data[idx] is corrected:
                 self.data1D.data[idx] = original
 
-        self._corrected_data.clear()
-
     def _apply_spatialization_from_station_data(
         self, variable: str, method: str = "default", **kwargs: Any
     ) -> None:
-- 
2.43.0


From 6b6c399891ff94721fce413923bb853ea7f49804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 047/136] fix: integer gradients, and monthly gradients in the
 threshold method, are accepted as documented

---
 python/src/hydrobricks/forcing.py | 127 ++++++++++++++++--------------
 1 file changed, 67 insertions(+), 60 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index a20e192..3e572e5 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1128,16 +1128,6 @@ class Forcing:
         if gradient is None:
             gradient = kwargs.get("gradient_1", None)
 
-        if isinstance(gradient, list):
-            if len(gradient) not in [1, 12]:
-                raise ConfigurationError(
-                    f"The gradient should have a length of 1 or 12. "
-                    f"Here: {len(gradient)}",
-                    item_name="gradient",
-                    item_value=len(gradient),
-                    reason="Invalid length",
-                )
-
         # Apply methods
         for i_unit, (_, unit) in enumerate(hydro_units.iterrows()):
 
@@ -1153,29 +1143,12 @@ class Forcing:
                         item_name="ref_elevation",
                         reason="Missing required parameter",
                     )
-                if (
-                    isinstance(gradient, float)
-                    or isinstance(gradient, list)
-                    and len(gradient) == 1
-                ):
-                    unit_values[:, i_unit] = (
-                        data_raw + gradient * (elevation - ref_elevation) / 100
-                    )
-                elif isinstance(gradient, list) and len(gradient) == 12:
-                    for m in range(12):
-                        month = self.data1D.time.dt.month == m + 1
-                        month = month.to_numpy()
-                        unit_values[month, i_unit] = (
-                            data_raw[month]
-                            + gradient[m] * (elevation - ref_elevation) / 100
-                        )
-                else:
-                    raise ConfigurationError(
-                        f"Wrong gradient format: {gradient}",
-                        item_name="gradient",
-                        item_value=gradient,
-                        reason="Invalid format",
-                    )
+                unit_values[:, i_unit] = (
+                    data_raw
+                    + self._get_gradient_values(gradient)
+                    * (elevation - ref_elevation)
+                    / 100
+                )
 
             elif method == "multiplicative_elevation_gradient":
                 if ref_elevation is None:
@@ -1184,46 +1157,37 @@ class Forcing:
                         item_name="ref_elevation",
                         reason="Missing required parameter",
                     )
-                if (
-                    isinstance(gradient, float)
-                    or isinstance(gradient, list)
-                    and len(gradient) == 1
-                ):
-                    unit_values[:, i_unit] = data_raw * (
-                        1 + gradient * (elevation - ref_elevation) / 100
-                    )
-                elif isinstance(gradient, list) and len(gradient) == 12:
-                    for m in range(12):
-                        month = self.data1D.time.dt.month == m + 1
-                        month = month.to_numpy()
-                        unit_values[month, i_unit] = data_raw[month] * (
-                            1 + gradient[m] * (elevation - ref_elevation) / 100
-                        )
-                else:
-                    raise ConfigurationError(
-                        f"Wrong gradient format: {gradient}",
-                        item_name="gradient",
-                        item_value=gradient,
-                        reason="Invalid format",
-                    )
+                unit_values[:, i_unit] = data_raw * (
+                    1
+                    + self._get_gradient_values(gradient)
+                    * (elevation - ref_elevation)
+                    / 100
+                )
 
             elif method == "multiplicative_elevation_threshold_gradients":
-                gradient_2 = kwargs.get("gradient_2", None)
+                grad_1 = self._get_gradient_values(gradient)
+                grad_2 = self._get_gradient_values(kwargs.get("gradient_2", None))
                 elevation_threshold = kwargs.get("elevation_threshold", None)
+                if ref_elevation is None or elevation_threshold is None:
+                    raise ConfigurationError(
+                        "Reference elevation or elevation threshold not provided.",
+                        item_name="elevation_threshold",
+                        reason="Missing required parameter",
+                    )
                 if elevation < elevation_threshold:
                     unit_values[:, i_unit] = data_raw * (
-                        1 + gradient * (elevation - ref_elevation) / 100
+                        1 + grad_1 * (elevation - ref_elevation) / 100
                     )
                 elif ref_elevation > elevation_threshold:
                     unit_values[:, i_unit] = data_raw * (
-                        1 + gradient_2 * (elevation - ref_elevation) / 100
+                        1 + grad_2 * (elevation - ref_elevation) / 100
                     )
                 else:
                     precip_below = data_raw * (
-                        1 + gradient * (elevation_threshold - ref_elevation) / 100
+                        1 + grad_1 * (elevation_threshold - ref_elevation) / 100
                     )
                     unit_values[:, i_unit] = precip_below * (
-                        1 + gradient_2 * (elevation - elevation_threshold) / 100
+                        1 + grad_2 * (elevation - elevation_threshold) / 100
                     )
 
             else:
@@ -1244,6 +1208,49 @@ class Forcing:
             self.data2D.data_name.append(variable)
             self.data2D.time = self.data1D.time
 
+    def _get_gradient_values(self, gradient: float | list) -> float | np.ndarray:
+        """
+        Get the gradient for all time steps.
+
+        Parameters
+        ----------
+        gradient
+            Gradient as a single value, or as a list of 1 or 12 (monthly) values.
+
+        Returns
+        -------
+        float | np.ndarray
+            The constant gradient or the gradient of each time step.
+
+        Raises
+        ------
+        ConfigurationError
+            If the gradient is not a number or a list of 1 or 12 values.
+        """
+        if isinstance(gradient, list):
+            if len(gradient) == 1:
+                return gradient[0]
+            if len(gradient) == 12:
+                months = self.data1D.time.dt.month.to_numpy()
+                return np.array(gradient)[months - 1]
+            raise ConfigurationError(
+                f"The gradient should have a length of 1 or 12. "
+                f"Here: {len(gradient)}",
+                item_name="gradient",
+                item_value=len(gradient),
+                reason="Invalid length",
+            )
+
+        if isinstance(gradient, (int, float, np.number)):
+            return gradient
+
+        raise ConfigurationError(
+            f"Wrong gradient format: {gradient}",
+            item_name="gradient",
+            item_value=gradient,
+            reason="Invalid format",
+        )
+
     def _apply_spatialization_from_gridded_data(
         self, variable: str, method: str = "default", **kwargs: Any
     ) -> None:
-- 
2.43.0


From 07033dc6a8fd01407fa455d41ce87756f71c5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 048/136] fix: the dew point temperature can be referred to by
 name

---
 python/src/hydrobricks/forcing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 3e572e5..c147346 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -216,6 +216,10 @@ class Forcing:
             "max_temperature": self.Variable.T_MAX,
             "t_max": self.Variable.T_MAX,
             "tmax": self.Variable.T_MAX,
+            "temperature_dew_point": self.Variable.T_DEW_POINT,
+            "dew_point_temperature": self.Variable.T_DEW_POINT,
+            "t_dew_point": self.Variable.T_DEW_POINT,
+            "tdew": self.Variable.T_DEW_POINT,
             "pet": self.Variable.PET,
             "relative_humidity": self.Variable.RH,
             "rh": self.Variable.RH,
-- 
2.43.0


From de9d8013f4d03863b53388797ebce4427ba4cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 049/136] fix: loading station data does not modify the
 provided dictionary

---
 python/src/hydrobricks/forcing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index c147346..f8e91fd 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -338,9 +338,10 @@ class Forcing:
         ... )
         """
         # Change the variable names (key) to the enum corresponding values
-        for key in list(content.keys()):
-            enum_val = self.get_variable_enum(key)
-            content[enum_val] = content.pop(key)
+        # (in a copy, as the provided dictionary can be used again by the caller)
+        content = {
+            self.get_variable_enum(key): column for key, column in content.items()
+        }
 
         self.data1D.load_from_csv(path, column_time, time_format, content)
 
-- 
2.43.0


From c5eecc01d0dc73f8d03e8d88c446dc35094a22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 050/136] fix: station data with other dates are refused, and
 data loaded again replaced

---
 python/src/hydrobricks/forcing.py     |  2 +-
 python/src/hydrobricks/time_series.py | 26 ++++++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index f8e91fd..3d94bf5 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1211,7 +1211,7 @@ class Forcing:
         else:
             self.data2D.data.append(unit_values)
             self.data2D.data_name.append(variable)
-            self.data2D.time = self.data1D.time
+        self.data2D.time = self.data1D.time
 
     def _get_gradient_values(self, gradient: float | list) -> float | np.ndarray:
         """
diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 28ab0c9..5f0e94f 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -94,6 +94,8 @@ class TimeSeries1D(TimeSeries):
             If the specified file does not exist.
         KeyError
             If required columns are not found in the CSV file.
+        DataError
+            If other variables were loaded with different dates.
         """
         file_content = pd.read_csv(
             path, parse_dates=[column_time], date_format=time_format
@@ -105,11 +107,27 @@ class TimeSeries1D(TimeSeries):
                 & (file_content[column_time] <= end_date)
             ]
 
-        self.time = file_content[column_time]
+        time_column = file_content[column_time]
+
+        # All the variables share the same dates
+        others = [name for name in self.data_name if name not in content]
+        if others and not np.array_equal(np.asarray(self.time), np.asarray(time_column)):
+            raise DataError(
+                f"The dates of {path} do not match those of the data already loaded.",
+                data_type="time series",
+                reason="Mismatched dates",
+            )
+
+        values = {col: file_content[content[col]].to_numpy() for col in content}
 
-        for col in content:
-            self.data_name.append(col)
-            self.data.append(file_content[content[col]].to_numpy())
+        self.time = time_column
+
+        for col in values:
+            if col in self.data_name:
+                self.data[self.data_name.index(col)] = values[col]
+            else:
+                self.data_name.append(col)
+                self.data.append(values[col])
 
 
 class TimeSeries2D(TimeSeries):
-- 
2.43.0


From 059cafd03a9c9fc69ab12da204f4071756684b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 051/136] fix: forcing files keep the time of the day, and a
 loaded forcing is initialized

---
 python/src/hydrobricks/forcing.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 3d94bf5..afc5550 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -751,7 +751,7 @@ class Forcing:
             var_id = nc.createVariable("id", "int", ("hydro_units",))
             var_id[:] = self.hydro_units["id"]
 
-            var_time = nc.createVariable("time", "float32", ("time",))
+            var_time = nc.createVariable("time", "float64", ("time",))
             var_time[:] = time
             var_time.units = "days since 1858-11-17 00:00:00"
             var_time.comment = "Modified Julian Day Number"
@@ -820,8 +820,15 @@ class Forcing:
 
             # Load time
             ts = num2date(nc.variables["time"][:], units=nc.variables["time"].units)
-            self.data2D.time = [pd.Timestamp(dt.year, dt.month, dt.day) for dt in ts]
-            self.data2D.time = pd.Series(self.data2D.time)
+            self.data2D.time = pd.Series(
+                [
+                    pd.Timestamp(
+                        dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
+                    )
+                    + pd.Timedelta(seconds=round(dt.microsecond / 1e6))
+                    for dt in ts
+                ]
+            )
 
             # Load variable names
             self.data2D.data_name = [
@@ -835,6 +842,8 @@ class Forcing:
             for variable in self.data2D.data_name:
                 self.data2D.data.append(nc.variables[variable][:])
 
+        self._is_initialized = True
+
         logger.debug(
             f"Successfully loaded forcing data with "
             f"{len(self.data2D.data_name)} variables"
-- 
2.43.0


From 2503dfe8eaa07b67eb72ca62e7d8f9621aeff53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 052/136] fix: a single alias can be given as a string, and
 added aliases must be unique

---
 python/src/hydrobricks/parameters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index e011707..c8a337b 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -872,6 +872,9 @@ class ParameterSet:
         if not mandatory and default is not None:
             value = default
 
+        if isinstance(aliases, str):
+            aliases = [aliases]
+
         self._check_aliases_uniqueness(aliases)
         self._check_min_max_consistency(min_val, max_val)
 
@@ -912,6 +915,10 @@ class ParameterSet:
             aliases = [aliases]
         index = self._get_parameter_index(parameter_name)
         current = self.parameters.at[index, "aliases"]
+        known = [] if current is None else [alias.lower() for alias in current]
+        self._check_aliases_uniqueness(
+            [alias for alias in aliases if alias.lower() not in known]
+        )
         if current is None:
             self.parameters.at[index, "aliases"] = aliases
         else:
-- 
2.43.0


From 11b6012831202476c6657fba1d8104d525f29e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 053/136] fix: an inconsistent range is refused when changing
 it, as when defining it

---
 python/src/hydrobricks/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index c8a337b..edeea33 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -947,6 +947,10 @@ class ParameterSet:
             New maximum value, or None to keep the current maximum.
         """
         index = self._get_parameter_index(parameter)
+        self._check_min_max_consistency(
+            self.parameters.loc[index, "min"] if min_val is None else min_val,
+            self.parameters.loc[index, "max"] if max_val is None else max_val,
+        )
         if min_val is not None:
             self.parameters.loc[index, "min"] = min_val
         if max_val is not None:
-- 
2.43.0


From 40fa8633faed3aa0c9e5b8c9e971bc8c93f9600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 054/136] fix: constraints with an unknown operator are refused
 instead of ignored

---
 python/src/hydrobricks/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index edeea33..679f9f0 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -1057,6 +1057,14 @@ class ParameterSet:
         --------
         parameter_set.define_constraint('paramA', '>=', 'paramB')
         """
+        if operator not in [">", "gt", ">=", "ge", "<", "lt", "<=", "le"]:
+            raise ConfigurationError(
+                f'The constraint operator "{operator}" is not recognized.',
+                item_name="operator",
+                item_value=operator,
+                reason="Unknown operator",
+            )
+
         constraint = [parameter_1, operator, parameter_2]
         self.constraints.append(constraint)
 
-- 
2.43.0


From ab1105dc5ea219707acc828e5acd71fd0fb2041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 055/136] fix: parameter values that are not numbers or lists
 of another length are refused

---
 python/src/hydrobricks/parameters.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 679f9f0..5b37252 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -2243,6 +2243,13 @@ class ParameterSet:
         min_val = self.parameters.loc[index, "min"]
 
         if not isinstance(min_val, list):
+            if value != value:
+                raise ConfigurationError(
+                    f'The value for the parameter "{key}" is not a number.',
+                    item_name=key,
+                    item_value=value,
+                    reason="Not a number",
+                )
             if max_val is not None and value > max_val:
                 if allow_adapt:
                     return max_val
@@ -2264,9 +2271,23 @@ class ParameterSet:
                     reason="Value below minimum",
                 )
         else:
-            assert isinstance(max_val, list)
-            assert isinstance(value, list)
+            if not isinstance(value, list) or len(value) != len(min_val):
+                raise ConfigurationError(
+                    f'The parameter "{key}" needs a list of {len(min_val)} values.',
+                    item_name=key,
+                    item_value=value,
+                    reason="Mismatched array lengths",
+                )
+            # Do not modify the list of the caller
+            value = value.copy()
             for i, (min_v, max_v, val) in enumerate(zip(min_val, max_val, value)):
+                if val != val:
+                    raise ConfigurationError(
+                        f'A value for the parameter "{key}" is not a number.',
+                        item_name=key,
+                        item_value=val,
+                        reason="Not a number",
+                    )
                 if max_v is not None and val > max_v:
                     if allow_adapt:
                         value[i] = max_v
-- 
2.43.0


From 824e51d964cf69002441677980a43c9e37d0ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 056/136] fix: random values of a list parameter do not change
 its default values

---
 python/src/hydrobricks/parameters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 5b37252..42dff23 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -1434,12 +1434,11 @@ class ParameterSet:
                 max_val = self.parameters.loc[index, "max"]
 
                 if isinstance(min_val, list):
-                    if self.parameters.loc[index, "value"] is None:
-                        self.parameters.loc[index, "value"] = [0] * len(min_val)
-                    for (idx, min_v), max_v in zip(enumerate(min_val), max_val):
-                        self.parameters.loc[index, "value"][idx] = random.uniform(
-                            min_v, max_v
-                        )
+                    # In a new list, as the current one can be the default one
+                    self.parameters.at[index, "value"] = [
+                        random.uniform(min_v, max_v)
+                        for min_v, max_v in zip(min_val, max_val)
+                    ]
                 else:
                     self.parameters.loc[index, "value"] = random.uniform(
                         min_val, max_val
-- 
2.43.0


From 71697058f46c9398987ef6ba3ff972e892b54108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 057/136] fix: parameter files contain plain values when these
 were set from numpy

---
 python/src/hydrobricks/parameters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 42dff23..20c4e9b 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -4,6 +4,7 @@ import random
 from dataclasses import dataclass
 from typing import Callable, Hashable
 
+import numpy as np
 import pandas as pd
 
 from hydrobricks._exceptions import (
@@ -1543,7 +1544,12 @@ class ParameterSet:
         for group_name, group in grouped_params:
             group_content = {}
             for _, row in group.iterrows():
-                group_content.update({row["name"]: row["value"]})
+                value = row["value"]
+                if isinstance(value, (list, np.ndarray)):
+                    value = np.asarray(value).tolist()
+                elif isinstance(value, np.generic):
+                    value = value.item()
+                group_content.update({row["name"]: value})
             file_content.update({group_name: group_content})
 
         dump_config_file(file_content, directory, name, file_type)
-- 
2.43.0


From d5188bcf00a575e97052732c53ccb0ffcd26d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 058/136] fix: options of the PET functions and the sunshine
 duration are passed on to pyet

---
 python/src/hydrobricks/forcing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index afc5550..5efbc05 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1418,6 +1418,11 @@ class Forcing:
             else:
                 use_unit_latitude = True
 
+        # Other options are passed through to the pyet function
+        for key, value in kwargs.items():
+            if key not in ["latitude", "lat"]:
+                pyet_args[key] = value
+
         use = self._remove_lat_elevation_options(use)
         self._check_variables_available(use)
 
@@ -1508,6 +1513,7 @@ class Forcing:
                 self.Variable.RH_MAX: "rhmax",
                 self.Variable.R_NET: "rn",
                 self.Variable.R_SOLAR: "rs",
+                self.Variable.SD: "n",
                 self.Variable.WIND: "wind",
                 self.Variable.PRESSURE: "pressure",
             }
-- 
2.43.0


From e54107036dcfb4220c49c2a1c0e40fc6b5cb668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 059/136] fix: selective recordings apply to every structure
 variant holding the item

---
 core/bindings/Binding.cpp                     |  1 +
 .../src/hydrobricks/models/model_settings.py  | 41 ++++++++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/core/bindings/Binding.cpp b/core/bindings/Binding.cpp
index 6aa9402..d8c61b2 100644
--- a/core/bindings/Binding.cpp
+++ b/core/bindings/Binding.cpp
@@ -185,6 +185,7 @@ PYBIND11_MODULE(_hydrobricks, m) {
              "Add logging of an item (e.g. 'output') to the selected process.", "name"_a)
         .def("add_structure", &SettingsModel::AddStructure,
              "Add a new (empty) model-structure variant and select it. Returns its id.")
+        .def("select_structure", &SettingsModel::SelectStructure, "Select a model-structure variant by its id.", "id"_a)
         .def("set_solver", &SettingsModel::SetSolver, "Set the solver.", "name"_a)
         .def("set_timer", &SettingsModel::SetTimer, "Set the modelling time properties.", "start_date"_a, "end_date"_a,
              "time_step"_a, "time_step_unit"_a)
diff --git a/python/src/hydrobricks/models/model_settings.py b/python/src/hydrobricks/models/model_settings.py
index 457061a..9fb6eea 100644
--- a/python/src/hydrobricks/models/model_settings.py
+++ b/python/src/hydrobricks/models/model_settings.py
@@ -429,6 +429,8 @@ class ModelSettings:
         """
         Record a state (e.g. a content) of a hydro-unit brick.
 
+        The state is recorded in every structure variant holding the brick.
+
         Parameters
         ----------
         brick
@@ -437,8 +439,17 @@ class ModelSettings:
             Name of the item to log (e.g. ``'snow_content'``). The recorded label
             is ``'{brick}:{item}'``.
         """
-        self.settings.select_hydro_unit_brick(brick)
-        self.settings.add_brick_logging(item)
+        structure_ids = [
+            structure["id"]
+            for structure in self.settings.get_structure()
+            if self._find_brick(structure, brick) is not None
+        ]
+        if not structure_ids:
+            self.settings.select_hydro_unit_brick(brick)  # Raises a clear error
+        for structure_id in structure_ids:
+            self.settings.select_structure(structure_id)
+            self.settings.select_hydro_unit_brick(brick)
+            self.settings.add_brick_logging(item)
 
     def record_process_output(
         self, brick: str, process: str, item: str = "output"
@@ -446,6 +457,8 @@ class ModelSettings:
         """
         Record an output of a process of a hydro-unit brick.
 
+        The output is recorded in every structure variant holding the process.
+
         Parameters
         ----------
         brick
@@ -456,9 +469,27 @@ class ModelSettings:
             Name of the item to log (default ``'output'``). The recorded label is
             ``'{brick}:{process}:{item}'``.
         """
-        self.settings.select_hydro_unit_brick(brick)
-        self.settings.select_process(process)
-        self.settings.add_process_logging(item)
+        structure_ids = []
+        for structure in self.settings.get_structure():
+            found = self._find_brick(structure, brick)
+            if found and any(p["name"] == process for p in found["processes"]):
+                structure_ids.append(structure["id"])
+        if not structure_ids:
+            self.settings.select_hydro_unit_brick(brick)
+            self.settings.select_process(process)  # Raises a clear error
+        for structure_id in structure_ids:
+            self.settings.select_structure(structure_id)
+            self.settings.select_hydro_unit_brick(brick)
+            self.settings.select_process(process)
+            self.settings.add_process_logging(item)
+
+    @staticmethod
+    def _find_brick(structure: dict[str, Any], name: str) -> dict[str, Any] | None:
+        """Get the exported hydro-unit brick of a structure variant (or None)."""
+        for brick in structure["hydro_unit_bricks"]:
+            if brick["name"] == name:
+                return brick
+        return None
 
     def add_structure(self) -> int:
         """
-- 
2.43.0


From ab8806fd5ab8e25d35d6d2c8a78014977d717977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 060/136] fix: results of a model with a single land cover

---
 python/src/hydrobricks/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/hydrobricks/results.py b/python/src/hydrobricks/results.py
index 9b5f170..beaae21 100644
--- a/python/src/hydrobricks/results.py
+++ b/python/src/hydrobricks/results.py
@@ -46,6 +46,9 @@ class Results:
         self.labels_land_cover: list[str] | None = self.results.attrs.get(
             "labels_land_covers"
         )
+        # A single label is returned as a plain string.
+        if isinstance(self.labels_land_cover, str):
+            self.labels_land_cover = [self.labels_land_cover]
         self.hydro_units_ids: np.ndarray = self.results.hydro_units_ids.to_numpy()
 
     def close(self) -> None:
-- 
2.43.0


From d8f4376795fd608892ce1784908398a7029e4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 061/136] fix: the mean of a component over the units is one
 value per date

---
 python/src/hydrobricks/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/results.py b/python/src/hydrobricks/results.py
index beaae21..605d4d2 100644
--- a/python/src/hydrobricks/results.py
+++ b/python/src/hydrobricks/results.py
@@ -189,7 +189,7 @@ class Results:
         -------
         np.ndarray
             Values of the component at the hydro units.
-            Shape: (n_timesteps, n_hydro_units) for time series, or
+            Shape: (n_hydro_units, n_timesteps) for time series, or
             (n_hydro_units,) for single date if only start_date provided.
 
         Raises
@@ -238,7 +238,7 @@ class Results:
         -------
         np.ndarray
             Weighted mean values of the component across the hydro units
-            (1D time series).
+            (1D time series, or a scalar for a single date).
             Weights are based on the land cover area in each hydro unit.
 
         Raises
@@ -249,7 +249,7 @@ class Results:
         values = self.get_hydro_units_values(component, start_date, end_date)
         lc_areas = self.get_land_cover_areas(land_cover, start_date, end_date)
 
-        return self._area_weighted_nanmean(values, lc_areas, axis=1)
+        return self._area_weighted_nanmean(values, lc_areas, axis=0)
 
     def get_mean_swe(
         self, start_date: str | None = None, end_date: str | None = None
-- 
2.43.0


From ff3a524d521963d9ed3550925c1348120cb0c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:57 +0000
Subject: [PATCH 062/136] fix: the snow of a land cover is not counted for a
 cover whose name it ends with

---
 python/src/hydrobricks/results.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/python/src/hydrobricks/results.py b/python/src/hydrobricks/results.py
index 605d4d2..0240ee7 100644
--- a/python/src/hydrobricks/results.py
+++ b/python/src/hydrobricks/results.py
@@ -398,12 +398,8 @@ class Results:
         return data.sel(time=slice(start_date, end_date)).to_numpy()
 
     def _has_distributed_component(self, component: str) -> bool:
-        """Whether a distributed component label exists (exact or suffix match)."""
-        try:
-            self._resolve_component_label(component)
-            return True
-        except ValueError:
-            return False
+        """Whether a distributed component label exists (exact match)."""
+        return component in self._get_distributed_labels()
 
     @staticmethod
     def _area_weighted_nanmean(
-- 
2.43.0


From f904aa8e9b0722e03df61a6da396eb4d6bbddb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 063/136] fix: a start or end date alone restricts the time
 series

---
 python/src/hydrobricks/time_series.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 5f0e94f..4cf6107 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -101,11 +101,10 @@ class TimeSeries1D(TimeSeries):
             path, parse_dates=[column_time], date_format=time_format
         )
 
-        if start_date and end_date:
-            file_content = file_content.loc[
-                (file_content[column_time] >= start_date)
-                & (file_content[column_time] <= end_date)
-            ]
+        if start_date is not None:
+            file_content = file_content.loc[file_content[column_time] >= start_date]
+        if end_date is not None:
+            file_content = file_content.loc[file_content[column_time] <= end_date]
 
         time_column = file_content[column_time]
 
-- 
2.43.0


From e857a6cc1fcce30ceb5934776c20387040a4d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 064/136] fix: the output folder is created also when given as
 a Path

---
 python/src/hydrobricks/models/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index d9beb6b..cf860c5 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -194,7 +194,7 @@ class Model(ABC):
         self._check_land_cover_matches_structure(spatial_structure)
 
         try:
-            if isinstance(output_path, str) and not os.path.isdir(output_path):
+            if not os.path.isdir(output_path):
                 os.mkdir(output_path)
 
             self.spatial_structure = spatial_structure
-- 
2.43.0


From ca8a7c0891504eaff70de13fa16d433811f775d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 065/136] fix: a start or end date alone restricts the period
 of a reference metric

---
 python/src/hydrobricks/evaluation/discharge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/evaluation/discharge.py b/python/src/hydrobricks/evaluation/discharge.py
index 9fad740..a69fb7d 100644
--- a/python/src/hydrobricks/evaluation/discharge.py
+++ b/python/src/hydrobricks/evaluation/discharge.py
@@ -311,7 +311,11 @@ class DischargeObservations(TimeSeries1D):
         """
         df = df.reset_index().set_index("year")
 
-        if start_date and end_date:
+        if start_date or end_date:
+            if not start_date:
+                start_date = df["date"].min()
+            if not end_date:
+                end_date = df["date"].max()
             date_range = pd.date_range(start_date, end_date)
             comparing_years = np.unique(date_range.year)
 
-- 
2.43.0


From 73c01eff76428b654c8cdf3056984bb2d8f3f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 066/136] fix: drawing parameters fails when the constraints
 cannot be satisfied

---
 python/src/hydrobricks/trainer.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/src/hydrobricks/trainer.py b/python/src/hydrobricks/trainer.py
index 648ba3e..d6e65a1 100644
--- a/python/src/hydrobricks/trainer.py
+++ b/python/src/hydrobricks/trainer.py
@@ -942,11 +942,10 @@ class SpotpySetup:
 
         Raises
         ------
-        RuntimeError
+        ModelError
             If unable to generate valid parameters after 1000 attempts.
         """
-        x = None
-        for i in range(1000):
+        for _ in range(1000):
             x = spotpy.parameter.generate(self.params_spotpy)
             names = [row[1] for row in x]
             values = [row[0] for row in x]
@@ -956,12 +955,9 @@ class SpotpySetup:
             params.set_values(param_values, check_range=False, transformed=True)
 
             if params.constraints_satisfied() and params.range_satisfied():
-                break
-
-            if i >= 1000:
-                raise ModelError("The parameter constraints could not be satisfied.")
+                return x
 
-        return x
+        raise ModelError("The parameter constraints could not be satisfied.")
 
     def simulation(self, x: spotpy.parameter) -> list[np.ndarray] | None:
         """
-- 
2.43.0


From 1c294498f56d504cc0b538fd2fae57312bf53e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 067/136] fix: auxiliary observations of a setup that reuses
 the models of its process are restricted too

---
 python/src/hydrobricks/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/hydrobricks/trainer.py b/python/src/hydrobricks/trainer.py
index d6e65a1..fdab606 100644
--- a/python/src/hydrobricks/trainer.py
+++ b/python/src/hydrobricks/trainer.py
@@ -600,6 +600,8 @@ class SpotpySetup:
         cached = _BUILT_CACHE.get(self._build_token)
         if cached is not None:
             self.model, self.forcing, self.obs = cached
+            # The auxiliary observations belong to this setup, not to the cache.
+            self._finalize_extra_observations()
             self._built = True
             return
 
-- 
2.43.0


From b44006d350f1a89775df1e99edd171baa41c95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 068/136] fix: the benchmark of a metric leaves out missing
 observations

---
 python/src/hydrobricks/evaluation/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/evaluation/metrics.py b/python/src/hydrobricks/evaluation/metrics.py
index 8141bfe..081e6ff 100644
--- a/python/src/hydrobricks/evaluation/metrics.py
+++ b/python/src/hydrobricks/evaluation/metrics.py
@@ -82,7 +82,7 @@ def reference_value(observation: np.ndarray, metric: str) -> float:
     The metric of the mean predictor.
     """
     observation = np.asarray(observation, dtype=float)
-    benchmark = np.full(observation.shape, float(np.mean(observation)))
+    benchmark = np.full(observation.shape, float(np.nanmean(observation)))
     return evaluate(benchmark, observation, metric)
 
 
-- 
2.43.0


From 47984bbc47cce7729e1e07ad436d006cd02b6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:23 +0000
Subject: [PATCH 069/136] fix: recognize the unit names made of several words
 (e.g. 'square meter')

---
 python/src/hydrobricks/_units.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/_units.py b/python/src/hydrobricks/_units.py
index 4177398..db3f165 100644
--- a/python/src/hydrobricks/_units.py
+++ b/python/src/hydrobricks/_units.py
@@ -137,8 +137,12 @@ def get_unit_enum(unit: str) -> Unit:
     if unit in Unit.__members__:
         return Unit[unit]
 
-    # Remove brackets, parentheses and spaces
-    unit = remove_chars(unit, "([{<)]}> ")
+    # Remove brackets and parentheses
+    unit = remove_chars(unit, "([{<)]}>").strip()
+
+    # Remove the spaces, unless they belong to the name (e.g. 'square meter')
+    if unit not in _UNIT_ALIASES:
+        unit = remove_chars(unit, " ")
 
     if unit in ["-", ""] or "Unnamed" in unit:
         return Unit.NO_UNIT
-- 
2.43.0


From 603d74b5589d0d0ae8d2f4fe98721f5656703d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:43 +0000
Subject: [PATCH 070/136] fix: make the month and day accessors of the glacier
 actions work

---
 .../actions/action_glacier_evolution_area_scaling.py  | 11 +++++++----
 .../actions/action_glacier_evolution_delta_h.py       | 11 +++++++----
 .../action_glacier_snow_to_ice_transformation.py      |  6 ++++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py b/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py
index a879c68..7118a6e 100644
--- a/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py
+++ b/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py
@@ -37,6 +37,7 @@ class ActionGlacierEvolutionAreaScaling(Action):
         self.action: _ActionGlacierEvolutionAreaScaling = (
             _ActionGlacierEvolutionAreaScaling()
         )
+        self.month: int | None = None
 
     def load_from_csv(
         self,
@@ -149,16 +150,17 @@ class ActionGlacierEvolutionAreaScaling(Action):
             lookup_table_area, lookup_table_volume, land_cover, update_month
         )
 
-    def get_month(self) -> int:
+    def get_month(self) -> int | None:
         """
         Get the month to apply the changes.
 
         Returns
         -------
-        int
-            The month number (1-12) when changes are applied.
+        int | None
+            The month number (1-12) when changes are applied, or None if no lookup
+            table was loaded.
         """
-        return self.action.get_month()
+        return self.month
 
     def get_land_cover_name(self) -> str:
         """
@@ -251,6 +253,7 @@ class ActionGlacierEvolutionAreaScaling(Action):
             areas.shape == volumes.shape
         ), "The areas and volumes tables do not have the same shape."
 
+        self.month = month_num
         self.action.add_lookup_tables(month_num, land_cover, hu_ids, areas, volumes)
 
         self.is_initialized = True
diff --git a/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py b/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py
index 04f61f9..687086a 100644
--- a/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py
+++ b/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py
@@ -32,6 +32,7 @@ class ActionGlacierEvolutionDeltaH(Action):
         super().__init__()
         self.name: str = "ActionGlacierEvolutionDeltaH"
         self.action: _ActionGlacierEvolutionDeltaH = _ActionGlacierEvolutionDeltaH()
+        self.month: int | None = None
 
     def load_from_csv(
         self,
@@ -144,16 +145,17 @@ class ActionGlacierEvolutionDeltaH(Action):
             lookup_table_area, lookup_table_volume, land_cover, update_month
         )
 
-    def get_month(self) -> int:
+    def get_month(self) -> int | None:
         """
         Get the month to apply the changes.
 
         Returns
         -------
-        int
-            The month number (1-12) when changes are applied.
+        int | None
+            The month number (1-12) when changes are applied, or None if no lookup
+            table was loaded.
         """
-        return self.action.get_month()
+        return self.month
 
     def get_land_cover_name(self) -> str:
         """
@@ -246,6 +248,7 @@ class ActionGlacierEvolutionDeltaH(Action):
             areas.shape == volumes.shape
         ), "The areas and volumes tables do not have the same shape."
 
+        self.month = month_num
         self.action.add_lookup_tables(month_num, land_cover, hu_ids, areas, volumes)
 
         self.is_initialized = True
diff --git a/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py b/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py
index 752970b..0608e94 100644
--- a/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py
+++ b/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py
@@ -52,7 +52,7 @@ class ActionGlacierSnowToIceTransformation(Action):
         int
             The month number (1-12) when changes are applied.
         """
-        return self.action.get_month()
+        return self.month
 
     def get_day(self) -> int:
         """
@@ -63,7 +63,7 @@ class ActionGlacierSnowToIceTransformation(Action):
         int
             The day of the month (1-31) when changes are applied.
         """
-        return self.action.get_day()
+        return self.day
 
     def get_land_cover_name(self) -> str:
         """
@@ -100,6 +100,8 @@ class ActionGlacierSnowToIceTransformation(Action):
             If month conversion fails or parameters are invalid.
         """
         month_num = self._convert_month_to_number(update_month)
+        self.month: int = month_num
+        self.day: int = update_day
         self.action: _ActionGlacierSnowToIceTransformation = (
             _ActionGlacierSnowToIceTransformation(month_num, update_day, land_cover)
         )
-- 
2.43.0


From 5f10c33fd101b8a8dd13a1caaee22d8ed96c3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:43 +0000
Subject: [PATCH 071/136] fix: do not modify the caller's land cover lists when
 adding a land cover

---
 python/src/hydrobricks/hydro_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index 3bfda2d..34591a2 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -73,8 +73,8 @@ class HydroUnits:
             land_cover_types = ["open"]
         if not land_cover_names:
             land_cover_names = ["open"]
-        self.land_cover_types: list[str] = land_cover_types
-        self.land_cover_names: list[str] = land_cover_names
+        self.land_cover_types: list[str] = list(land_cover_types)
+        self.land_cover_names: list[str] = list(land_cover_names)
         land_cover_cols: list[tuple[str, str]] = []
         for item in land_cover_names:
             land_cover_cols.append((f"{self.FRACTION_PREFIX}{item}", "fraction"))
-- 
2.43.0


From d1f656c0c0f1db0285869152e6774f22dfaa7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:56 +0000
Subject: [PATCH 072/136] fix: accept the unit enumeration members themselves
 as units

---
 python/src/hydrobricks/_units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/hydrobricks/_units.py b/python/src/hydrobricks/_units.py
index db3f165..02795b6 100644
--- a/python/src/hydrobricks/_units.py
+++ b/python/src/hydrobricks/_units.py
@@ -134,6 +134,9 @@ def get_unit_enum(unit: str) -> Unit:
     >>> get_unit_enum('square meter')
     Unit.M2
     """
+    if isinstance(unit, Unit):
+        return unit
+
     if unit in Unit.__members__:
         return Unit[unit]
 
-- 
2.43.0


From de93b9a17f09d0e7f000b8ecc173eaf6b153b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 073/136] fix: do not depend on the order of the elevation
 bands in the glacier profile

---
 .../src/hydrobricks/preprocessing/glacier_evolution_delta_h.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
index 51bbc3e..4c089e7 100644
--- a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
+++ b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
@@ -549,7 +549,8 @@ class GlacierEvolutionDeltaH:
             elev_bands_parts, return_inverse=True
         )
 
-        if len(self.elev_bands) == len(elev_bands_parts):
+        # The bands are sorted by elevation, while the parts follow the provided order.
+        if np.array_equal(self.elev_bands, elev_bands_parts):
             self.sub_elevation_parts = False
         else:
             self.sub_elevation_parts = True
-- 
2.43.0


From f3e7b693746df8249512e6ca2e42e3af38fe7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 074/136] fix: refuse land cover changes given by elevation
 when the elevation does not identify a unit

---
 .../hydrobricks/actions/action_land_cover_change.py    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/actions/action_land_cover_change.py b/python/src/hydrobricks/actions/action_land_cover_change.py
index b943577..aa611e1 100644
--- a/python/src/hydrobricks/actions/action_land_cover_change.py
+++ b/python/src/hydrobricks/actions/action_land_cover_change.py
@@ -768,7 +768,15 @@ class ActionLandCoverChange(Action):
             if match_with == "elevation":
                 elevation_values = hu_df[("elevation", "m")].to_numpy(dtype=np.int64)
                 value = int(change.iloc[1])
-                idx_id = hu_df.index[elevation_values == value].to_list()[0]
+                matches = hu_df.index[elevation_values == value].to_list()
+                if len(matches) != 1:
+                    raise DataError(
+                        f"{len(matches)} hydro units match the elevation {value}. "
+                        f"Use the hydro unit ids if the elevation is not unique.",
+                        data_type="hydro unit",
+                        reason="No unique hydro unit at the given elevation",
+                    )
+                idx_id = matches[0]
             else:
                 raise ConfigurationError(
                     f'No option "{match_with}" for "match_with".',
-- 
2.43.0


From 15f381d099eebd0f993c9e1a214404add86ee361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 075/136] fix: keep the actions given to a model alive as long
 as the model

---
 python/src/hydrobricks/models/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index cf860c5..b2bf313 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -62,6 +62,7 @@ class Model(ABC):
         self.name: str | None = name
         self.model: ModelHydro = ModelHydro()
         self.spatial_structure: HydroUnits | None = None
+        self._actions: list[Action] = []
         self.start_date: str | None = None
         self.end_date: str | None = None
         self.period: Period | None = None
@@ -402,6 +403,9 @@ class Model(ABC):
                 is_initialized=False,
             )
 
+        # The core does not own the actions: they have to live as long as the model.
+        self._actions.append(action)
+
         return self.model.add_action(action.action)
 
     def get_action_count(self) -> int:
-- 
2.43.0


From 28f7730a76ec5f3707b0ef3833545379ac2714b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 076/136] fix: apply the land covers that shrink before those
 that grow on the same date

---
 core/src/actions/ActionLandCoverChange.cpp | 26 ++++++++++++++++++----
 core/src/actions/ActionLandCoverChange.h   |  9 ++++++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/core/src/actions/ActionLandCoverChange.cpp b/core/src/actions/ActionLandCoverChange.cpp
index a0eb5fd..46ff292 100644
--- a/core/src/actions/ActionLandCoverChange.cpp
+++ b/core/src/actions/ActionLandCoverChange.cpp
@@ -33,10 +33,28 @@ bool ActionLandCoverChange::Apply(double) {
     if (unit == nullptr) {
         return false;
     }
-    string landCoverName = _landCoverNames[_landCoverIds[_cursor]];
-    double areaFraction = _areas[_cursor] / unit->GetArea();
-    areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[_cursor], areaFraction, unit->GetArea(),
-                                              _areas[_cursor]);
+
+    // The covers of the unit that shrink at the same date go first: they give the room needed by those that grow.
+    for (int i = _cursor + 1; i < _sporadicDates.size() && _sporadicDates[i] == _sporadicDates[_cursor]; ++i) {
+        if (_hydroUnitIds[i] != _hydroUnitIds[_cursor]) {
+            continue;
+        }
+        LandCover* landCover = unit->TryGetLandCover(_landCoverNames[_landCoverIds[i]]);
+        if (landCover && _areas[i] / unit->GetArea() < landCover->GetAreaFraction()) {
+            if (!ApplyChange(unit, i)) {
+                return false;
+            }
+        }
+    }
+
+    return ApplyChange(unit, _cursor);
+}
+
+bool ActionLandCoverChange::ApplyChange(HydroUnit* unit, int index) {
+    const string& landCoverName = _landCoverNames[_landCoverIds[index]];
+    double areaFraction = _areas[index] / unit->GetArea();
+    areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[index], areaFraction, unit->GetArea(),
+                                              _areas[index]);
 
     return unit->ChangeLandCoverAreaFraction(landCoverName, areaFraction);
 }
diff --git a/core/src/actions/ActionLandCoverChange.h b/core/src/actions/ActionLandCoverChange.h
index 081397f..53f39d9 100644
--- a/core/src/actions/ActionLandCoverChange.h
+++ b/core/src/actions/ActionLandCoverChange.h
@@ -59,6 +59,15 @@ class ActionLandCoverChange : public Action {
 
   private:
     int GetLandCoverId(const string& landCoverName);
+
+    /**
+     * Apply a single change to a hydro unit.
+     *
+     * @param unit hydro unit to change.
+     * @param index index of the change.
+     * @return true if the change was applied successfully.
+     */
+    bool ApplyChange(HydroUnit* unit, int index);
 };
 
 #endif  // HYDROBRICKS_ACTION_LAND_COVER_CHANGE_H
-- 
2.43.0


From 447fa6b72db0c0d6d0292d8870b0ce8712f1feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 077/136] fix: glacier lookup tables of a glacier within a
 single elevation band

---
 .../preprocessing/glacier_evolution_delta_h.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
index 4c089e7..8317532 100644
--- a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
+++ b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
@@ -698,9 +698,13 @@ class GlacierEvolutionDeltaH:
         # elevations: absolute elevation for each elevation band i
         max_elevation_m = np.max(self.elev_bands_parts)
         min_elevation_m = np.min(self.elev_bands_parts)
-        self.norm_elevations_bands = (max_elevation_m - self.elev_bands) / (
-            max_elevation_m - min_elevation_m
-        )
+        if max_elevation_m > min_elevation_m:
+            self.norm_elevations_bands = (max_elevation_m - self.elev_bands) / (
+                max_elevation_m - min_elevation_m
+            )
+        else:
+            # A single elevation band
+            self.norm_elevations_bands = np.zeros(len(self.elev_bands))
 
         # Choose the glacial parametrization (Huss et al., 2010, Fig. 2a)
         glacier_area_km2 = (
-- 
2.43.0


From a05efb7727c31d6d0dc4e48f67248988833e7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 078/136] fix: glacier lookup tables stay finite when only
 bands without change are left

---
 .../preprocessing/glacier_evolution_delta_h.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
index 8317532..8ad04ed 100644
--- a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
+++ b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
@@ -767,6 +767,15 @@ class GlacierEvolutionDeltaH:
                 + self.c_coeff
             )
 
+        # The ice does not thicken when mass is lost
+        self.norm_delta_we_bands = np.maximum(self.norm_delta_we_bands, 0)
+
+        # If the ice is only left in bands with no normalized change (e.g. the highest
+        # one), it melts evenly.
+        areas = self.areas_pc_bands[increment - 1]
+        if np.sum(areas * self.norm_delta_we_bands) == 0:
+            self.norm_delta_we_bands = np.ones(len(self.elev_bands))
+
         # Calculate the scaling factor fs (Eq. 5)
         # The glacier volume change increment, added with the excess melt that could
         # not be melted in the previous step
@@ -777,7 +786,7 @@ class GlacierEvolutionDeltaH:
         # based on the glacier volume change M and on the area and normalized water
         # equivalent change for each of the elevation bands."
         self.scaling_factor_mm = glacier_we_change_mm / (
-            np.sum(self.areas_pc_bands[increment - 1] * self.norm_delta_we_bands)
+            np.sum(areas * self.norm_delta_we_bands)
         )
 
     def _update_glacier_thickness(self, increment: int):
-- 
2.43.0


From 058cdc7ca508d9c47699a8cf57381d80cf3b968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 079/136] fix: do not modify the initial ice of the pixels when
 computing a lookup table

---
 .../src/hydrobricks/preprocessing/glacier_evolution_delta_h.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
index 8ad04ed..c707dbd 100644
--- a/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
+++ b/python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py
@@ -858,8 +858,7 @@ class GlacierEvolutionDeltaH:
                         continue
 
                     # Otherwise, update the glacier water equivalent of the pixels
-                    px_values = self.px_ice_we[increment, idx]
-                    px_values -= melt
+                    px_values = self.px_ice_we[increment, idx] - melt
 
                     # Ensure that the pixel-wise ice water equivalent is not negative
                     while np.any(px_values < 0):
-- 
2.43.0


From 50cb4f4a162cc6f580a5aeb4b6e224217d56ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 080/136] fix: report project columns that are not strings
 instead of crashing

---
 python/src/hydrobricks/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index 6661cd3..1494748 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -343,7 +343,7 @@ def _raise_if_errors(errors: list[str], path: Path | None) -> None:
 
 
 def _suggest(key: str, valid: set[str]) -> str:
-    matches = difflib.get_close_matches(key, sorted(valid), n=1)
+    matches = difflib.get_close_matches(str(key), sorted(valid), n=1)
     return f" (did you mean '{matches[0]}'?)" if matches else ""
 
 
-- 
2.43.0


From 9698a87241f44187478320d442b98fe46dc162f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 081/136] fix: refuse required project entries that are present
 but empty

---
 python/src/hydrobricks/project.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index 1494748..2e8bf06 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -418,7 +418,7 @@ def _resolve_file(
 ) -> Path | None:
     name = _get_str(section, "file", where, errors)
     if name is None:
-        if "file" not in section:
+        if section.get("file") is None:
             errors.append(f"{where}.file: a file path is required.")
         return None
     file = Path(name)
@@ -504,7 +504,7 @@ def _validate_model(config: dict, base: Path, errors: list[str]) -> dict:
     registry = _model_registry()
     name = _get_str(section, "name", "model", errors)
     if name is None:
-        if "name" not in section and structure is None:
+        if section.get("name") is None and structure is None:
             errors.append(
                 "model: a pre-built model 'name' or a custom 'structure' is "
                 "required."
@@ -605,7 +605,7 @@ def _validate_hydro_units(config: dict, base: Path, errors: list[str]) -> dict:
             "'discretization' (elevation bands delineated from the DEM)."
         )
     if out["discretization"] is not None:
-        if "outline" not in section or "dem" not in section:
+        if section.get("outline") is None or section.get("dem") is None:
             errors.append(
                 "hydro_units.discretization: requires 'outline' and 'dem' "
                 "(the catchment to delineate)."
@@ -769,7 +769,7 @@ def _validate_gridded_forcing(gridded: Any, base: Path, errors: list[str]) -> di
         name = _get_str(spec, "path", where, errors)
         path = None
         if name is None:
-            if "path" not in spec:
+            if spec.get("path") is None:
                 errors.append(f"{where}.path: a netCDF file or folder is required.")
         else:
             path = Path(name)
@@ -793,7 +793,7 @@ def _validate_gridded_forcing(gridded: Any, base: Path, errors: list[str]) -> di
                 )
 
         var_name = _get_str(spec, "var_name", where, errors)
-        if var_name is None and "var_name" not in spec:
+        if var_name is None and spec.get("var_name") is None:
             errors.append(f"{where}.var_name: the netCDF variable name is required.")
         cfg["var_name"] = var_name
 
@@ -906,7 +906,7 @@ def _validate_observations(config: dict, base: Path, errors: list[str]) -> dict
         section, "observations", errors
     )
     column = _get_str(section, "column", "observations", errors)
-    if column is None and "column" not in section:
+    if column is None and section.get("column") is None:
         errors.append("observations.column: the discharge column name is required.")
     out["column"] = column
 
@@ -987,7 +987,7 @@ def _validate_data_parameters(config: dict, errors: list[str]) -> dict:
             continue
         _check_keys(spec, {"value", "min", "max"}, where, errors)
         value = _get_number(spec, "value", where, errors)
-        if value is None and "value" not in spec:
+        if value is None and spec.get("value") is None:
             errors.append(f"{where}.value: a value is required.")
         out[str(name)] = {
             "value": value,
-- 
2.43.0


From 2211d045f3a4e6aca9e879ea118c3aa2bc5d4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 082/136] fix: report project dates that cannot be parsed as
 configuration problems

---
 python/src/hydrobricks/project.py | 38 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index 2e8bf06..bad4bb0 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -944,8 +944,9 @@ def _validate_periods(config: dict, errors: list[str]) -> Periods | None:
         kwargs["spinup"] = 0
     try:
         return Periods(**kwargs)
-    except ConfigurationError as err:
-        errors.append(f"periods: {err.args[0]}")
+    except (ConfigurationError, TypeError, ValueError) as err:
+        # A date that cannot be parsed raises a ValueError.
+        errors.append(f"periods: {err.args[0] if err.args else err}")
         return None
 
 
@@ -1214,12 +1215,17 @@ def _build_project(
     forcing = Forcing(catchment if catchment is not None else hydro_units)
 
     if station is not None:
-        forcing.load_station_data_from_csv(
-            station["file"],
-            column_time=station["time_column"],
-            time_format=station["time_format"],
-            content=dict(station["columns"]),
-        )
+        try:
+            forcing.load_station_data_from_csv(
+                station["file"],
+                column_time=station["time_column"],
+                time_format=station["time_format"],
+                content=dict(station["columns"]),
+            )
+        except ValueError as err:
+            # E.g. the dates do not match the declared format.
+            errors.append(f"forcing: cannot load '{station['file']}' ({err}).")
+            _raise_if_errors(errors, path)
 
         # The station data must cover the simulation span (gridded sources are
         # read lazily, so they are checked at run time).
@@ -1329,12 +1335,16 @@ def _build_project(
     obs_cfg = cfg["observations"]
     if obs_cfg is not None:
         observations = DischargeObservations(start_date, end_date)
-        observations.load_from_csv(
-            obs_cfg["file"],
-            column_time=obs_cfg["time_column"],
-            time_format=obs_cfg["time_format"],
-            content={"discharge": obs_cfg["column"]},
-        )
+        try:
+            observations.load_from_csv(
+                obs_cfg["file"],
+                column_time=obs_cfg["time_column"],
+                time_format=obs_cfg["time_format"],
+                content={"discharge": obs_cfg["column"]},
+            )
+        except ValueError as err:
+            errors.append(f"observations: cannot load '{obs_cfg['file']}' ({err}).")
+            _raise_if_errors(errors, path)
 
     return Project(
         model=model,
-- 
2.43.0


From c58874bf5000976972c07a99915501bb7ec4db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 083/136] fix: load the land cover areas of a project file for
 the covers of its model

---
 python/src/hydrobricks/project.py | 39 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index bad4bb0..f166173 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -1160,16 +1160,35 @@ def _build_project(
 
     cfg["output"].mkdir(parents=True, exist_ok=True)
 
+    # Model: a pre-built model by name, or a custom structure.
+    try:
+        if "structure" in cfg["model"]:
+            from hydrobricks.models.custom import CustomModel
+
+            model = CustomModel(cfg["model"]["structure"], **cfg["model"]["options"])
+        else:
+            model = cfg["model"]["class"](**cfg["model"]["options"])
+    except (TypeError, RuntimeError, HydroBricksError) as err:
+        # The message is args[0]; str(err) would render the whole args tuple.
+        message = err.args[0] if getattr(err, "args", None) else str(err)
+        errors.append(f"model: {message}")
+        _raise_if_errors(errors, path)
+        raise AssertionError("unreachable")  # pragma: no cover
+
     # Hydro units: loaded from a CSV or delineated from the DEM, optionally
     # within a Catchment (needed for the delineation and to derive elevation
     # gradients from gridded data).
     hu_cfg = cfg["hydro_units"]
+    covers = (None, None)
+    if hu_cfg["land_cover_areas"] is not None:
+        # The areas are given for the land covers of the model.
+        covers = (model.land_cover_types, model.land_cover_names)
     catchment = None
     if hu_cfg["outline"] is not None and hu_cfg["dem"] is not None:
         _check_catchment_dependencies()
         from hydrobricks.catchment import Catchment
 
-        catchment = Catchment(hu_cfg["outline"])
+        catchment = Catchment(hu_cfg["outline"], *covers)
         catchment.extract_dem(hu_cfg["dem"])
 
     unit_ids_raster = hu_cfg["unit_ids_raster"]
@@ -1191,7 +1210,7 @@ def _build_project(
             catchment.save_unit_ids_raster(cfg["output"])
             unit_ids_raster = cfg["output"] / "unit_ids.tif"
     else:
-        hydro_units = catchment.hydro_units if catchment else HydroUnits()
+        hydro_units = catchment.hydro_units if catchment else HydroUnits(*covers)
         if hu_cfg["land_cover_areas"] is not None:
             hydro_units.load_from_csv(
                 hu_cfg["file"],
@@ -1296,21 +1315,7 @@ def _build_project(
             method=fc["pet_method"], use=["t", "lat"], lat=fc["pet_latitude"]
         )
 
-    # Model and parameters: a pre-built model by name, or a custom structure.
-    try:
-        if "structure" in cfg["model"]:
-            from hydrobricks.models.custom import CustomModel
-
-            model = CustomModel(cfg["model"]["structure"], **cfg["model"]["options"])
-        else:
-            model = cfg["model"]["class"](**cfg["model"]["options"])
-    except (TypeError, RuntimeError, HydroBricksError) as err:
-        # The message is args[0]; str(err) would render the whole args tuple.
-        message = err.args[0] if getattr(err, "args", None) else str(err)
-        errors.append(f"model: {message}")
-        _raise_if_errors(errors, path)
-        raise AssertionError("unreachable")  # pragma: no cover
-
+    # Parameters.
     parameter_set = model.generate_parameters()
     for name, spec in cfg["data_parameters"].items():
         parameter_set.add_data_parameter(
-- 
2.43.0


From 232a4c8d64fad1a0c880a1aa2fa5a009a8329950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:09 +0000
Subject: [PATCH 084/136] fix: keep all the digits of the numbers given to the
 project wizard

---
 python/src/hydrobricks/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/cli.py b/python/src/hydrobricks/cli.py
index 0823549..bc031c6 100644
--- a/python/src/hydrobricks/cli.py
+++ b/python/src/hydrobricks/cli.py
@@ -612,7 +612,9 @@ def _looks_like_scalar(value: str) -> bool:
 
 
 def _number(value: float) -> str:
-    return f"{value:g}"
+    text = repr(float(value)).removesuffix(".0")
+    # YAML only reads an exponent as a number after a decimal point.
+    return text.replace("e", ".0e") if "e" in text and "." not in text else text
 
 
 def _parameter_lines(model_name: str, options: dict) -> list[str]:
-- 
2.43.0


From 0a0b7f4b3bc79895bd56719ef6645b3328e53032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:19 +0000
Subject: [PATCH 085/136] fix: quote project wizard answers that YAML would not
 read back as given

---
 python/src/hydrobricks/cli.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/python/src/hydrobricks/cli.py b/python/src/hydrobricks/cli.py
index bc031c6..18fb698 100644
--- a/python/src/hydrobricks/cli.py
+++ b/python/src/hydrobricks/cli.py
@@ -23,6 +23,7 @@ from datetime import datetime
 from pathlib import Path
 
 import pandas as pd
+import yaml
 
 from hydrobricks._exceptions import HydroBricksError
 from hydrobricks.project import _model_registry, load_project
@@ -594,20 +595,17 @@ def _cmd_init(args: argparse.Namespace) -> int:
 def _yaml_str(value: str) -> str:
     """Quote a string for YAML only when a plain scalar would be unsafe."""
     safe = value and all(c.isalnum() or c in "_-()./ " for c in value)
-    if safe and value == value.strip() and not _looks_like_scalar(value):
+    if safe and _is_plain_string(value):
         return value
     escaped = value.replace("\\", "\\\\").replace('"', '\\"')
     return f'"{escaped}"'
 
 
-def _looks_like_scalar(value: str) -> bool:
-    """True when YAML would parse the bare string as a non-string scalar."""
-    if value.lower() in ("true", "false", "yes", "no", "on", "off", "null", "~"):
-        return True
+def _is_plain_string(value: str) -> bool:
+    """True when YAML reads the bare text back as the same string."""
     try:
-        float(value)
-        return True
-    except ValueError:
+        return yaml.safe_load(f"[{value}]") == [value]
+    except (yaml.YAMLError, ValueError):
         return False
 
 
-- 
2.43.0


From 370ea83a8b0ca40f4f72635d09dd3b197e363610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:26 +0000
Subject: [PATCH 086/136] fix: write the paths of the project wizard relative
 to the project file

---
 python/src/hydrobricks/cli.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/python/src/hydrobricks/cli.py b/python/src/hydrobricks/cli.py
index 18fb698..65ffb19 100644
--- a/python/src/hydrobricks/cli.py
+++ b/python/src/hydrobricks/cli.py
@@ -18,6 +18,7 @@ freely, and anything beyond it is done in Python via
 from __future__ import annotations
 
 import argparse
+import os
 import sys
 from datetime import datetime
 from pathlib import Path
@@ -299,6 +300,16 @@ def _ask_path(prompt: str, optional: bool = False) -> Path | None:
         print(f"  '{path}' does not exist; enter a valid path.")
 
 
+def _relative_to_project(path: Path, target: Path) -> Path:
+    """Express a path given from the current directory from the project file."""
+    if path.is_absolute() or target.parent.resolve() == Path.cwd().resolve():
+        return path
+    try:
+        return Path(os.path.relpath(path.resolve(), target.parent.resolve()))
+    except ValueError:  # On another drive.
+        return path.resolve()
+
+
 def _ask_float(prompt: str, default: str | None = None) -> float:
     while True:
         answer = _ask(prompt, default)
@@ -565,6 +576,14 @@ def _cmd_init(args: argparse.Namespace) -> int:
     spinup = _ask("Spin-up (days or e.g. '2y')", "2y")
     output = _ask("Output directory", "output")
 
+    # The paths of a project file are relative to the file itself.
+    for cfg in (hu_cfg, forcing_cfg, *forcing_cfg.get("gridded", {}).values()):
+        for key, value in cfg.items():
+            if isinstance(value, Path):
+                cfg[key] = _relative_to_project(value, target)
+    if discharge is not None:
+        discharge = (_relative_to_project(discharge[0], target), *discharge[1:])
+
     text = _project_yaml(
         model_name=model_name,
         model_options=model_options,
-- 
2.43.0


From 60dfdebaa291cc3d7a596e8f26515d124bb75cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:17 +0000
Subject: [PATCH 087/136] fix: express the ice melt of the simulated glacier
 mass balance over the glacier area

---
 .../evaluation/glacier_mass_balance.py        | 49 ++++++++++++++++---
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/python/src/hydrobricks/evaluation/glacier_mass_balance.py b/python/src/hydrobricks/evaluation/glacier_mass_balance.py
index 625345f..455949f 100644
--- a/python/src/hydrobricks/evaluation/glacier_mass_balance.py
+++ b/python/src/hydrobricks/evaluation/glacier_mass_balance.py
@@ -456,19 +456,27 @@ class GlacierMassBalanceObservations(AuxiliaryObservation):
 
         time = model.get_recorded_time()  # DatetimeIndex (n_time)
 
-        # Sum the snowpack SWE and ice melt over all glacier covers (n_units, n_time).
-        snow = None
-        ice_melt = None
-        glacier_area = None  # (n_units, n_time), the time-varying glacier area
+        # Sum the snowpack SWE and ice melt volumes over all glacier covers, so that each
+        # cover counts for its own area (n_units, n_time).
         areas = model.get_recorded_hydro_unit_areas()  # (n_units,)
+        snow_volume = 0.0
+        melt_volume = 0.0
+        glacier_area = 0.0  # The time-varying glacier area
         for cover in glacier_covers:
             s = model.get_recorded_hydro_unit_values(f"{cover}_snowpack:snow_content")
             m = model.get_recorded_hydro_unit_values(f"{cover}:melt:output")
             frac = model.get_recorded_hydro_unit_fractions(cover)  # (n_units, n_time)
-            area = frac * areas[:, None]
-            snow = s if snow is None else np.nansum([snow, s], axis=0)
-            ice_melt = m if ice_melt is None else np.nansum([ice_melt, m], axis=0)
-            glacier_area = area if glacier_area is None else glacier_area + area
+            area = np.nan_to_num(frac * areas[:, None])
+            melt_area = _melt_reference_area(model, cover, areas, area)
+            snow_volume = snow_volume + np.nan_to_num(s) * area
+            melt_volume = melt_volume + np.nan_to_num(m) * melt_area
+            glacier_area = glacier_area + area
+
+        # Back to depths over the glacier area of each unit (mm w.e.).
+        glacierized = glacier_area > 0
+        divisor = np.where(glacierized, glacier_area, 1.0)
+        snow = np.where(glacierized, snow_volume / divisor, 0.0)
+        ice_melt = np.where(glacierized, melt_volume / divisor, 0.0)
 
         # Unit elevations, aligned to the recorded (descending-elevation) order.
         recorded_ids = model.get_recorded_hydro_unit_ids()
@@ -667,6 +675,31 @@ def _elevation_by_id(model: Model) -> dict[int, float]:
     return {int(i): float(e) for i, e in zip(ids, elevations)}
 
 
+def _melt_reference_area(
+    model: Model, cover: str, areas: np.ndarray, cover_area: np.ndarray
+) -> float | np.ndarray:
+    """Area [m2] over which the recorded ice melt of a glacier cover is expressed.
+
+    A flux is recorded as the amount reaching its target: relative to the catchment
+    when the target belongs to the sub-basin (or is the outlet), to the hydro unit when
+    it is a store of the unit, and to the cover itself when it stays on that cover.
+    """
+    for structure in model.settings.get_structure():
+        bricks = {b["name"]: b for b in structure["hydro_unit_bricks"]}
+        if cover not in bricks:
+            continue
+        for process in bricks[cover]["processes"]:
+            if process["name"] != "melt" or not process["outputs"]:
+                continue
+            target = process["outputs"][0]["target"]
+            splitters = [sp["name"] for sp in structure["hydro_unit_splitters"]]
+            if target not in bricks and target not in splitters:
+                return float(np.sum(areas))
+            on_cover = target == cover or bricks.get(target, {}).get("parent")
+            return cover_area if on_cover else areas[:, None]
+    return cover_area
+
+
 def _date_index(time: pd.DatetimeIndex, date: pd.Timestamp) -> int | None:
     """Index of ``date`` in the daily time axis, or None if out of range."""
     if date < time[0] or date > time[-1]:
-- 
2.43.0


From cf568ae8e319a086138f1afccb383bdc45f7aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:01 +0000
Subject: [PATCH 088/136] fix: place the auxiliary observations stamped at a
 time of day on their own day

---
 .../hydrobricks/evaluation/glacier_mass_balance.py   | 12 +++++++-----
 python/src/hydrobricks/evaluation/snow_cover.py      | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/python/src/hydrobricks/evaluation/glacier_mass_balance.py b/python/src/hydrobricks/evaluation/glacier_mass_balance.py
index 455949f..f4ff30c 100644
--- a/python/src/hydrobricks/evaluation/glacier_mass_balance.py
+++ b/python/src/hydrobricks/evaluation/glacier_mass_balance.py
@@ -522,11 +522,14 @@ class GlacierMassBalanceObservations(AuxiliaryObservation):
         """Keep only targets whose period lies fully within ``[start, end]``."""
         start = pd.Timestamp(start) if start is not None else None
         end = pd.Timestamp(end) if end is not None else None
+        # An end without a time of day stands for the whole day.
+        whole_day = end is not None and end == end.normalize()
         kept = []
         for t in self.targets:
             if start is not None and t["t0"] < start:
                 continue
-            if end is not None and t["t1"] > end:
+            last = t["t1"].normalize() if whole_day else t["t1"]
+            if end is not None and last > end:
                 continue
             kept.append(t)
         dropped = len(self.targets) - len(kept)
@@ -701,10 +704,9 @@ def _melt_reference_area(
 
 
 def _date_index(time: pd.DatetimeIndex, date: pd.Timestamp) -> int | None:
-    """Index of ``date`` in the daily time axis, or None if out of range."""
-    if date < time[0] or date > time[-1]:
-        return None
-    pos = int(time.get_indexer([date], method="nearest")[0])
+    """Index of the day of ``date`` in the daily time axis, or None if out of range."""
+    day = pd.Timestamp(date).normalize()
+    pos = int(time.normalize().get_indexer([day])[0])
     return pos if pos >= 0 else None
 
 
diff --git a/python/src/hydrobricks/evaluation/snow_cover.py b/python/src/hydrobricks/evaluation/snow_cover.py
index 88d6394..86fffaa 100644
--- a/python/src/hydrobricks/evaluation/snow_cover.py
+++ b/python/src/hydrobricks/evaluation/snow_cover.py
@@ -912,11 +912,14 @@ class SnowCoverObservations(AuxiliaryObservation):
         """Keep only targets whose date lies within ``[start, end]``."""
         start = pd.Timestamp(start) if start is not None else None
         end = pd.Timestamp(end) if end is not None else None
+        # An end without a time of day stands for the whole day.
+        whole_day = end is not None and end == end.normalize()
         kept = []
         for t in self.targets:
             if start is not None and t["t"] < start:
                 continue
-            if end is not None and t["t"] > end:
+            last = t["t"].normalize() if whole_day else t["t"]
+            if end is not None and last > end:
                 continue
             kept.append(t)
         dropped = len(self.targets) - len(kept)
@@ -1081,10 +1084,9 @@ class SnowCoverObservations(AuxiliaryObservation):
 
 
 def _date_index(time: pd.DatetimeIndex, date: pd.Timestamp) -> int | None:
-    """Index of ``date`` in the daily time axis, or None if out of range."""
-    if date < time[0] or date > time[-1]:
-        return None
-    pos = int(time.get_indexer([date], method="nearest")[0])
+    """Index of the day of ``date`` in the daily time axis, or None if out of range."""
+    day = pd.Timestamp(date).normalize()
+    pos = int(time.normalize().get_indexer([day])[0])
     return pos if pos >= 0 else None
 
 
-- 
2.43.0


From 25e87d30e1f39484d3991cbaa5b630f62a19befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:01 +0000
Subject: [PATCH 089/136] fix: record the snow cover of the land covers that
 have a snowpack only

---
 python/src/hydrobricks/evaluation/snow_cover.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/evaluation/snow_cover.py b/python/src/hydrobricks/evaluation/snow_cover.py
index 86fffaa..7a55e99 100644
--- a/python/src/hydrobricks/evaluation/snow_cover.py
+++ b/python/src/hydrobricks/evaluation/snow_cover.py
@@ -828,7 +828,16 @@ class SnowCoverObservations(AuxiliaryObservation):
         (once) the land-cover fractions, the inputs of the SWE-to-fraction transform.
         A targeted alternative to ``record_all=True``.
         """
-        covers = self.land_covers or list(model.land_cover_names)
+        covers = self.land_covers
+        if not covers:
+            # Some land covers (e.g. the lakes) have no snowpack.
+            bricks = {
+                brick["name"]
+                for structure in model.settings.get_structure()
+                for brick in structure["hydro_unit_bricks"]
+            }
+            names = list(model.land_cover_names)
+            covers = [name for name in names if f"{name}_snowpack" in bricks]
         request = RecordingRequest(fractions=True)
         for cover in covers:
             request.brick_states.append((f"{cover}_snowpack", "snow_content"))
-- 
2.43.0


From b87aebce718a49679abd4e48acc32298d2b5badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 090/136] fix: never share the snow cover cache between
 requests for other units, dates or file contents

---
 .../src/hydrobricks/evaluation/snow_cover.py  | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/python/src/hydrobricks/evaluation/snow_cover.py b/python/src/hydrobricks/evaluation/snow_cover.py
index 7a55e99..e065fe1 100644
--- a/python/src/hydrobricks/evaluation/snow_cover.py
+++ b/python/src/hydrobricks/evaluation/snow_cover.py
@@ -504,6 +504,7 @@ class SnowCoverObservations(AuxiliaryObservation):
             file_pattern,
             config={
                 "loader": fmt,
+                "units": None if hydro_units is None else _unit_ids(hydro_units),
                 "var_name": var_name,
                 "data_crs": data_crs,
                 "dim_time": dim_time,
@@ -677,7 +678,12 @@ class SnowCoverObservations(AuxiliaryObservation):
             file_pattern,
             config={
                 "loader": "modis",
+                "units": None if hydro_units is None else _unit_ids(hydro_units),
                 "variable": variable,
+                "dates": [
+                    _date_from_name(f.name, date_regex, date_format, date_parser)
+                    for f in (_list_files(path, file_pattern) if cache_dir else [])
+                ],
                 "value_scale": value_scale,
                 "valid_min": valid_min,
                 "valid_max": valid_max,
@@ -791,8 +797,7 @@ class SnowCoverObservations(AuxiliaryObservation):
         """
         if cache_dir is None:
             return None, None
-        p = Path(path)
-        files = sorted(p.glob(file_pattern)) if (file_pattern and p.is_dir()) else [p]
+        files = _list_files(path, file_pattern)
         key = _cache_key(raster_hydro_units, config, _source_signature(files))
         cache_file = Path(cache_dir) / f"snow_cover_{key}.csv"
         if cache_file.exists():
@@ -1099,6 +1104,11 @@ def _date_index(time: pd.DatetimeIndex, date: pd.Timestamp) -> int | None:
     return pos if pos >= 0 else None
 
 
+def _unit_ids(hydro_units: Any) -> list[int]:
+    """The hydro unit ids to aggregate, as a list."""
+    return np.asarray(hydro_units["id"]).squeeze().astype(int).ravel().tolist()
+
+
 def _aggregate_stack(
     vals: np.ndarray,
     times: np.ndarray,
@@ -1119,7 +1129,7 @@ def _aggregate_stack(
     the spatial grid of ``vals``.
     """
     if hydro_units is not None:
-        ids = np.asarray(hydro_units["id"]).squeeze().astype(int).ravel().tolist()
+        ids = _unit_ids(hydro_units)
     else:
         ids = [
             int(u)
@@ -1226,6 +1236,12 @@ def _read_hdf_eos_grid(path: str | Path, variable: str, engine: str) -> Any:
     return da
 
 
+def _list_files(path: str | Path, file_pattern: str | None) -> list[Path]:
+    """The input files: those of the folder matching the pattern, or the file itself."""
+    p = Path(path)
+    return sorted(p.glob(file_pattern)) if (file_pattern and p.is_dir()) else [p]
+
+
 def _source_signature(files: list[Path]) -> list[tuple[str, int, int]]:
     """A cheap, order-independent signature of the input files (name, size, mtime).
 
@@ -1235,7 +1251,7 @@ def _source_signature(files: list[Path]) -> list[tuple[str, int, int]]:
     for f in files:
         try:
             st = f.stat()
-            sig.append((f.name, int(st.st_size), int(st.st_mtime)))
+            sig.append((f.name, int(st.st_size), int(st.st_mtime_ns)))
         except OSError:
             sig.append((f.name, -1, -1))
     return sorted(sig)
@@ -1342,7 +1358,7 @@ def _aggregate_modis(
 
     # Hydro-unit ids and a per-pixel unit index, computed once.
     if hydro_units is not None:
-        ids = np.asarray(hydro_units["id"]).squeeze().astype(int).ravel().tolist()
+        ids = _unit_ids(hydro_units)
     else:
         ids = [
             int(u)
-- 
2.43.0


From f9509554addc5c85214e6665b1eed75725875dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:08 +0000
Subject: [PATCH 091/136] fix: let the structures declared without snow be
 parameterized and run

---
 python/src/hydrobricks/models/custom.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/src/hydrobricks/models/custom.py b/python/src/hydrobricks/models/custom.py
index 07d51ac..cb7b748 100644
--- a/python/src/hydrobricks/models/custom.py
+++ b/python/src/hydrobricks/models/custom.py
@@ -347,6 +347,7 @@ class CustomModel(Model):
         ]
 
         self._set_options(kwargs)
+        self._disable_snow_options()
 
         try:
             self._define_structure()
@@ -360,6 +361,16 @@ class CustomModel(Model):
     def _set_specific_options(self, kwargs: dict[str, Any]) -> None:
         """No model-specific options beyond the (generic) snow options."""
 
+    def _disable_snow_options(self) -> None:
+        """Without snow, none of the snow options apply (nor their parameters)."""
+        if self.options["with_snow"] and self.options["snow_melt_process"] is not None:
+            return
+        for key in _SNOW_OPTION_DEFAULTS:
+            if key.startswith("snow_"):
+                self.options[key] = None
+        self.options["with_snow"] = False
+        self.options["rain_to_snowpack"] = False
+
     def _define_structure(self) -> None:
         self.structure = copy.deepcopy(self._spec["bricks"])
         declared = set(self.land_cover_names)
-- 
2.43.0


From 87c13de7f0b63619a221a59043be1e5b5a2a88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:20 +0000
Subject: [PATCH 092/136] fix: let several bricks of a declared structure use
 the same kind of process

---
 python/src/hydrobricks/models/custom.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/models/custom.py b/python/src/hydrobricks/models/custom.py
index cb7b748..24e30bf 100644
--- a/python/src/hydrobricks/models/custom.py
+++ b/python/src/hydrobricks/models/custom.py
@@ -49,7 +49,9 @@ with ``target`` (a declared brick, a generated one such as
 ``<cover>_snowpack``, or ``outlet``) or fans out with ``targets`` (a list);
 ``log: true`` records the process output, and ``instantaneous: true`` makes
 the flux instantaneous. Bricks attach to each hydro unit by default; use
-``attach_to: sub_basin`` for catchment-level stores.
+``attach_to: sub_basin`` for catchment-level stores. When several bricks have
+the same literature alias (e.g. ``percol``), it is suffixed with the brick name
+(``percol_<brick>``).
 """
 
 from __future__ import annotations
@@ -64,6 +66,7 @@ import yaml
 
 from hydrobricks._exceptions import ConfigurationError, ModelError
 from hydrobricks.models.model import Model
+from hydrobricks.parameters import PROCESS_PARAM_SPECS
 
 _SPEC_KEYS = {
     "name",
@@ -389,6 +392,20 @@ class CustomModel(Model):
                     item_name=key,
                     reason="Unknown land cover",
                 )
+        self._set_alias_suffixes()
+
+    def _set_alias_suffixes(self) -> None:
+        """Suffix the literature aliases that several bricks would share."""
+        users: dict[str, set[str]] = {}
+        for key, brick in self.structure.items():
+            for process in brick.get("processes", {}).values():
+                for param in PROCESS_PARAM_SPECS.get(process["kind"], []):
+                    for alias in param.aliases or []:
+                        users.setdefault(alias, set()).add(key)
+        for keys in users.values():
+            if len(keys) > 1:
+                for key in keys:
+                    self.structure[key]["alias_suffix"] = f"_{key}"
 
     def _define_parameter_aliases(self) -> None:
         self.parameter_aliases = dict(self._spec.get("aliases") or {})
-- 
2.43.0


From 6e771e84196bf4383c04b38e05b4840338be3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 093/136] fix: refuse the names and options of a structure
 definition that are not of the right kind

---
 python/src/hydrobricks/models/custom.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/python/src/hydrobricks/models/custom.py b/python/src/hydrobricks/models/custom.py
index 24e30bf..f1a78d4 100644
--- a/python/src/hydrobricks/models/custom.py
+++ b/python/src/hydrobricks/models/custom.py
@@ -89,6 +89,7 @@ _SNOW_OPTION_DEFAULTS: dict[str, Any] = {
 }
 _BRICK_KEYS = {"kind", "attach_to", "computed_directly", "parameters", "processes"}
 _PROCESS_KEYS = {"kind", "target", "targets", "log", "instantaneous"}
+_BOOLEAN_OPTIONS = ("with_snow", "rain_to_snowpack", "forest_interception")
 _CONSTRAINT_OPERATORS = ("<", "<=", ">", ">=")
 _TARGETLESS_PREFIXES = ("et:", "interception:", "sublimation:")
 
@@ -107,6 +108,21 @@ def _check_keys(section: dict, valid: set[str], where: str, errors: list[str]) -
             )
 
 
+def _check_names(section: dict, where: str, errors: list[str]) -> None:
+    for name in section:
+        if not isinstance(name, str):
+            errors.append(f"{where}: the name {name!r} must be a string.")
+
+
+def _validate_options(options: dict, where: str, errors: list[str]) -> None:
+    for key, value in options.items():
+        if key in _BOOLEAN_OPTIONS:
+            if not isinstance(value, bool):
+                errors.append(f"{where}.{key}: expected true or false.")
+        elif value is not None and not isinstance(value, str):
+            errors.append(f"{where}.{key}: expected a process kind (a string).")
+
+
 def _load_structure_spec(structure: str | Path | dict) -> dict:
     """Load the structure definition from a YAML file path or a dict."""
     if isinstance(structure, dict):
@@ -206,6 +222,7 @@ def _validate_brick(brick: Any, where: str, errors: list[str]) -> None:
     if not isinstance(parameters, dict):
         errors.append(f"{where}.parameters: expected a mapping of name to value.")
     else:
+        _check_names(parameters, f"{where}.parameters", errors)
         for name, value in parameters.items():
             if isinstance(value, bool) or not isinstance(value, numbers.Real):
                 errors.append(
@@ -215,6 +232,7 @@ def _validate_brick(brick: Any, where: str, errors: list[str]) -> None:
     if not isinstance(processes, dict):
         errors.append(f"{where}.processes: expected a mapping of process name.")
     else:
+        _check_names(processes, f"{where}.processes", errors)
         for name, process in processes.items():
             _validate_process(process, f"{where}.processes.{name}", errors)
 
@@ -239,6 +257,7 @@ def _validate_structure_spec(spec: dict, errors: list[str]) -> None:
         errors.append("structure.options: expected a mapping.")
     else:
         _check_keys(options, set(_SNOW_OPTION_DEFAULTS), "structure.options", errors)
+        _validate_options(options, "structure.options", errors)
 
     bricks = spec.get("bricks")
     if not isinstance(bricks, dict) or not bricks:
@@ -247,6 +266,7 @@ def _validate_structure_spec(spec: dict, errors: list[str]) -> None:
             "definition is required."
         )
     else:
+        _check_names(bricks, "structure.bricks", errors)
         for key, brick in bricks.items():
             _validate_brick(brick, f"structure.bricks.{key}", errors)
 
@@ -254,6 +274,7 @@ def _validate_structure_spec(spec: dict, errors: list[str]) -> None:
     if not isinstance(aliases, dict):
         errors.append("structure.aliases: expected a mapping of parameter to alias.")
     else:
+        _check_names(aliases, "structure.aliases", errors)
         for name, alias in aliases.items():
             if not isinstance(alias, str) and not (
                 isinstance(alias, list) and all(isinstance(a, str) for a in alias)
@@ -324,6 +345,8 @@ class CustomModel(Model):
         spec = _load_structure_spec(structure)
         errors: list[str] = []
         _validate_structure_spec(spec, errors)
+        given = {key: kwargs[key] for key in kwargs if key in _SNOW_OPTION_DEFAULTS}
+        _validate_options(given, "options", errors)
         if errors:
             plural = "s" if len(errors) > 1 else ""
             raise ConfigurationError(
-- 
2.43.0


From 8f9a4678b767134ec8b43f285a3a7f5a201755d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 094/136] fix: find the melt process of a glacier whatever its
 name, or none

---
 python/src/hydrobricks/parameters.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 20c4e9b..db90490 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -1771,7 +1771,17 @@ class ParameterSet:
         ]
 
         for i, cover_name in enumerate(glacier_names):
-            melt_method = structure[cover_name]["processes"]["melt"]["kind"]
+            processes = structure.get(cover_name, {}).get("processes", {})
+            melt_method = next(
+                (
+                    process["kind"]
+                    for process in processes.values()
+                    if process["kind"].startswith("melt:")
+                ),
+                None,
+            )
+            if melt_method is None:
+                continue
 
             if len(glacier_names) == 1:
                 t_aliases = ["melt_t_ice"]
-- 
2.43.0


From 2d5d3f228ecfaf1403467772e7cd2fc64db6e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:22 +0000
Subject: [PATCH 095/136] fix: refuse a process that depends on a capacity
 where there is none

An evapotranspiration or a GR4J production or percolation on a brick without
capacity, and an infiltration or a capillary flux toward one, dereferenced a
null pointer at the first time step. The validation of the model now refuses
them.
---
 core/src/processes/Process.cpp                | 9 +++++++++
 core/src/processes/Process.h                  | 7 +++++++
 core/src/processes/ProcessCapillaryHBV.cpp    | 7 +++++++
 core/src/processes/ProcessETExponential.cpp   | 2 +-
 core/src/processes/ProcessETGR4J.cpp          | 2 +-
 core/src/processes/ProcessETHBV.cpp           | 2 +-
 core/src/processes/ProcessETLinear.cpp        | 2 +-
 core/src/processes/ProcessETPowerLaw.cpp      | 2 +-
 core/src/processes/ProcessETSocont.cpp        | 2 +-
 core/src/processes/ProcessInfiltration.cpp    | 5 +++++
 core/src/processes/ProcessPercolationGR4J.cpp | 4 ++++
 core/src/processes/ProcessPercolationGR4J.h   | 5 +++++
 core/src/processes/ProcessProductionGR4J.cpp  | 2 +-
 13 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index 4e46324..e17b6fb 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -483,6 +483,15 @@ const float* Process::GetParameterValuePointer(const ProcessSettings& processSet
     throw ModelConfigError(std::format("The parameter '{}' could not be found.", name));
 }
 
+bool Process::HasContainerCapacity() const {
+    if (!_container->HasMaximumCapacity()) {
+        LogError("The process '{}' can only be applied to a brick with a capacity.", GetName());
+        return false;
+    }
+
+    return true;
+}
+
 const vecDouble& Process::GetChangeRates() {
     if (LessThanOrEqual(_container->GetContentWithChanges(), 0, PRECISION)) {
         _changeRates.assign(GetConnectionCount(), 0.0);
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index 20a0972..8cc01ab 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -347,6 +347,13 @@ class Process {
         return _changeRates;
     }
 
+    /**
+     * Check that the container has a capacity (which the process depends on); log an error otherwise.
+     *
+     * @return true if the container has a capacity.
+     */
+    [[nodiscard]] bool HasContainerCapacity() const;
+
     /**
      * Get the sum of change rates from other processes.
      *
diff --git a/core/src/processes/ProcessCapillaryHBV.cpp b/core/src/processes/ProcessCapillaryHBV.cpp
index afdc5ab..9bc2973 100644
--- a/core/src/processes/ProcessCapillaryHBV.cpp
+++ b/core/src/processes/ProcessCapillaryHBV.cpp
@@ -36,6 +36,13 @@ bool ProcessCapillaryHBV::IsValid() const {
         LogError("HBV capillary process: the number of target bricks does not match the number of outputs.");
         return false;
     }
+    for (Brick* target : _targetBricks) {
+        if (!target->GetWaterContainer()->HasMaximumCapacity()) {
+            LogError("The target bricks of the HBV capillary process must have a capacity ('{}' has none).",
+                     target->GetName());
+            return false;
+        }
+    }
     if (_maxCapillaryFlux == nullptr) {
         LogError("HBV capillary process: missing the 'max_capillary_flux' parameter.");
         return false;
diff --git a/core/src/processes/ProcessETExponential.cpp b/core/src/processes/ProcessETExponential.cpp
index 782e4fe..dd418f9 100644
--- a/core/src/processes/ProcessETExponential.cpp
+++ b/core/src/processes/ProcessETExponential.cpp
@@ -16,7 +16,7 @@ void ProcessETExponential::RegisterProcessSettings(SettingsModel* modelSettings)
 }
 
 bool ProcessETExponential::IsValid() const {
-    if (!ProcessET::IsValid()) {
+    if (!ProcessET::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
diff --git a/core/src/processes/ProcessETGR4J.cpp b/core/src/processes/ProcessETGR4J.cpp
index e17c560..3deae0e 100644
--- a/core/src/processes/ProcessETGR4J.cpp
+++ b/core/src/processes/ProcessETGR4J.cpp
@@ -12,7 +12,7 @@ void ProcessETGR4J::RegisterProcessSettings(SettingsModel* modelSettings) {
 }
 
 bool ProcessETGR4J::IsValid() const {
-    if (!ProcessET::IsValid()) {
+    if (!ProcessET::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
diff --git a/core/src/processes/ProcessETHBV.cpp b/core/src/processes/ProcessETHBV.cpp
index 63b684b..8f844ec 100644
--- a/core/src/processes/ProcessETHBV.cpp
+++ b/core/src/processes/ProcessETHBV.cpp
@@ -17,7 +17,7 @@ void ProcessETHBV::RegisterProcessSettings(SettingsModel* modelSettings) {
 }
 
 bool ProcessETHBV::IsValid() const {
-    if (!ProcessET::IsValid()) {
+    if (!ProcessET::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
diff --git a/core/src/processes/ProcessETLinear.cpp b/core/src/processes/ProcessETLinear.cpp
index 252b9e8..ab5359e 100644
--- a/core/src/processes/ProcessETLinear.cpp
+++ b/core/src/processes/ProcessETLinear.cpp
@@ -14,7 +14,7 @@ void ProcessETLinear::RegisterProcessSettings(SettingsModel* modelSettings) {
 }
 
 bool ProcessETLinear::IsValid() const {
-    if (!ProcessET::IsValid()) {
+    if (!ProcessET::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
diff --git a/core/src/processes/ProcessETPowerLaw.cpp b/core/src/processes/ProcessETPowerLaw.cpp
index 5bb028c..34e8af9 100644
--- a/core/src/processes/ProcessETPowerLaw.cpp
+++ b/core/src/processes/ProcessETPowerLaw.cpp
@@ -16,7 +16,7 @@ void ProcessETPowerLaw::RegisterProcessSettings(SettingsModel* modelSettings) {
 }
 
 bool ProcessETPowerLaw::IsValid() const {
-    if (!ProcessET::IsValid()) {
+    if (!ProcessET::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
diff --git a/core/src/processes/ProcessETSocont.cpp b/core/src/processes/ProcessETSocont.cpp
index 16360ed..57a5e19 100644
--- a/core/src/processes/ProcessETSocont.cpp
+++ b/core/src/processes/ProcessETSocont.cpp
@@ -13,7 +13,7 @@ void ProcessETSocont::RegisterProcessSettings(SettingsModel* modelSettings) {
 }
 
 bool ProcessETSocont::IsValid() const {
-    if (!ProcessET::IsValid()) {
+    if (!ProcessET::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
diff --git a/core/src/processes/ProcessInfiltration.cpp b/core/src/processes/ProcessInfiltration.cpp
index 507f634..a3181c0 100644
--- a/core/src/processes/ProcessInfiltration.cpp
+++ b/core/src/processes/ProcessInfiltration.cpp
@@ -16,6 +16,11 @@ bool ProcessInfiltration::IsValid() const {
         LogError("An infiltration process must be linked to a target brick.");
         return false;
     }
+    if (!_targetBrick->GetWaterContainer()->HasMaximumCapacity()) {
+        LogError("The target brick of an infiltration process must have a capacity ('{}' has none).",
+                 _targetBrick->GetName());
+        return false;
+    }
 
     return true;
 }
diff --git a/core/src/processes/ProcessPercolationGR4J.cpp b/core/src/processes/ProcessPercolationGR4J.cpp
index f7c54b5..0dd91ce 100644
--- a/core/src/processes/ProcessPercolationGR4J.cpp
+++ b/core/src/processes/ProcessPercolationGR4J.cpp
@@ -11,6 +11,10 @@ void ProcessPercolationGR4J::RegisterProcessSettings(SettingsModel*) {
     // No parameters or forcing: X1 is read from the container's maximum capacity.
 }
 
+bool ProcessPercolationGR4J::IsValid() const {
+    return ProcessOutflow::IsValid() && HasContainerCapacity();
+}
+
 const vecDouble& ProcessPercolationGR4J::GetRates() {
     double X1 = _container->GetMaximumCapacity();
     if (X1 <= 0) {
diff --git a/core/src/processes/ProcessPercolationGR4J.h b/core/src/processes/ProcessPercolationGR4J.h
index fbfde12..e0bc04a 100644
--- a/core/src/processes/ProcessPercolationGR4J.h
+++ b/core/src/processes/ProcessPercolationGR4J.h
@@ -26,6 +26,11 @@ class ProcessPercolationGR4J : public ProcessOutflow {
      */
     static void RegisterProcessSettings(SettingsModel* modelSettings);
 
+    /**
+     * @copydoc Process::IsValid()
+     */
+    [[nodiscard]] bool IsValid() const override;
+
   protected:
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessProductionGR4J.cpp b/core/src/processes/ProcessProductionGR4J.cpp
index d6e0009..d8a4dba 100644
--- a/core/src/processes/ProcessProductionGR4J.cpp
+++ b/core/src/processes/ProcessProductionGR4J.cpp
@@ -12,7 +12,7 @@ void ProcessProductionGR4J::RegisterProcessSettings(SettingsModel* modelSettings
 }
 
 bool ProcessProductionGR4J::IsValid() const {
-    if (!ProcessOutflow::IsValid()) {
+    if (!ProcessOutflow::IsValid() || !HasContainerCapacity()) {
         return false;
     }
     if (_pet == nullptr) {
-- 
2.43.0


From 2fd1ab30b06ae445ad86ae2073a6d612537827d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:55 +0000
Subject: [PATCH 096/136] fix: refuse a process of a declared structure that
 targets its own brick

The water it moved was lost: the total of the outputs and of the storage
changes was no longer the precipitation.
---
 python/src/hydrobricks/models/custom.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/models/custom.py b/python/src/hydrobricks/models/custom.py
index f1a78d4..7e27c9a 100644
--- a/python/src/hydrobricks/models/custom.py
+++ b/python/src/hydrobricks/models/custom.py
@@ -193,7 +193,14 @@ def _validate_process(process: Any, where: str, errors: list[str]) -> None:
             errors.append(f"{where}.{flag}: expected true or false.")
 
 
-def _validate_brick(brick: Any, where: str, errors: list[str]) -> None:
+def _targets(process: Any) -> list[Any]:
+    if not isinstance(process, dict):
+        return []
+    targets = process.get("targets")
+    return [process.get("target")] + (targets if isinstance(targets, list) else [])
+
+
+def _validate_brick(key: Any, brick: Any, where: str, errors: list[str]) -> None:
     if not isinstance(brick, dict):
         errors.append(f"{where}: expected a mapping (kind, processes, ...).")
         return
@@ -235,6 +242,11 @@ def _validate_brick(brick: Any, where: str, errors: list[str]) -> None:
         _check_names(processes, f"{where}.processes", errors)
         for name, process in processes.items():
             _validate_process(process, f"{where}.processes.{name}", errors)
+            if key in _targets(process):
+                errors.append(
+                    f"{where}.processes.{name}: a process cannot target its own "
+                    f"brick ('{key}')."
+                )
 
 
 def _validate_structure_spec(spec: dict, errors: list[str]) -> None:
@@ -268,7 +280,7 @@ def _validate_structure_spec(spec: dict, errors: list[str]) -> None:
     else:
         _check_names(bricks, "structure.bricks", errors)
         for key, brick in bricks.items():
-            _validate_brick(brick, f"structure.bricks.{key}", errors)
+            _validate_brick(key, brick, f"structure.bricks.{key}", errors)
 
     aliases = spec.get("aliases", {}) or {}
     if not isinstance(aliases, dict):
-- 
2.43.0


From 449a71e33b3610558faf975d18ab2dbbfe5b5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:02 +0000
Subject: [PATCH 097/136] fix: compute the bricks of a declared structure from
 upstream to downstream

The core computes the bricks in the order in which they are added: a store
declared before the one feeding it silently received its water one time step
late, and the water on its way was missing from the balance.
---
 python/src/hydrobricks/models/custom.py | 29 +++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/python/src/hydrobricks/models/custom.py b/python/src/hydrobricks/models/custom.py
index 7e27c9a..4776fb2 100644
--- a/python/src/hydrobricks/models/custom.py
+++ b/python/src/hydrobricks/models/custom.py
@@ -49,9 +49,9 @@ with ``target`` (a declared brick, a generated one such as
 ``<cover>_snowpack``, or ``outlet``) or fans out with ``targets`` (a list);
 ``log: true`` records the process output, and ``instantaneous: true`` makes
 the flux instantaneous. Bricks attach to each hydro unit by default; use
-``attach_to: sub_basin`` for catchment-level stores. When several bricks have
-the same literature alias (e.g. ``percol``), it is suffixed with the brick name
-(``percol_<brick>``).
+``attach_to: sub_basin`` for catchment-level stores. The bricks can be declared
+in any order. When several bricks have the same literature alias (e.g.
+``percol``), it is suffixed with the brick name (``percol_<brick>``).
 """
 
 from __future__ import annotations
@@ -321,6 +321,27 @@ def _validate_structure_spec(spec: dict, errors: list[str]) -> None:
                 )
 
 
+def _order_bricks(bricks: dict) -> dict:
+    """Put every brick before those it feeds (otherwise in the declared order).
+
+    The core computes the bricks in order: a brick computed before the one feeding
+    it would only get the water at the next time step. Bricks feeding each other
+    (e.g. a capillary rise) keep the declared order.
+    """
+    feeders: dict[str, set[str]] = {key: set() for key in bricks}
+    for key, brick in bricks.items():
+        for process in brick.get("processes", {}).values():
+            for target in _targets(process):
+                if target in feeders:
+                    feeders[target].add(key)
+    ordered: dict[str, Any] = {}
+    while len(ordered) < len(bricks):
+        left = [key for key in bricks if key not in ordered]
+        key = next((k for k in left if feeders[k] <= ordered.keys()), left[0])
+        ordered[key] = bricks[key]
+    return ordered
+
+
 class CustomModel(Model):
     """A model whose structure is declared as data (YAML file or dict).
 
@@ -410,7 +431,7 @@ class CustomModel(Model):
         self.options["rain_to_snowpack"] = False
 
     def _define_structure(self) -> None:
-        self.structure = copy.deepcopy(self._spec["bricks"])
+        self.structure = _order_bricks(copy.deepcopy(self._spec["bricks"]))
         declared = set(self.land_cover_names)
         covers = [
             key
-- 
2.43.0


From c4f1b81bfbaec15425f0559717854408e741c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:55 +0000
Subject: [PATCH 098/136] fix: read the rasters of whole numbers and those
 without a nodata value The cells outside of the outline of a raster that
 declares no nodata value were taken as being at an elevation of 0, and a
 raster of whole numbers was refused by a raw error.

---
 python/src/hydrobricks/catchment.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/hydrobricks/catchment.py b/python/src/hydrobricks/catchment.py
index 918bd3d..1957a9a 100644
--- a/python/src/hydrobricks/catchment.py
+++ b/python/src/hydrobricks/catchment.py
@@ -1159,16 +1159,19 @@ class Catchment:
         if reproject_crs:
             # The CRS may differ from the catchment; the caller reprojects onto the
             # DEM grid. Read as float so nodata can be represented as NaN.
-            masked_data = src.read(1).astype(float)
+            masked_data = src.read(1, masked=True).astype(float)
         else:
             self._check_crs(src)
             if self.outline is not None:
                 geoms = [mapping(polygon) for polygon in self.outline]
-                masked_data, _ = mask(src, geoms, crop=False)
+                masked_data, _ = mask(src, geoms, crop=False, filled=False)
             else:
-                masked_data = src.read(1)
+                masked_data = src.read(1, masked=True)
 
-        masked_data[masked_data == src.nodata] = np.nan
+        # Whole numbers cannot be NaN, and the raster may declare no nodata value
+        if not np.issubdtype(masked_data.dtype, np.floating):
+            masked_data = masked_data.astype(float)
+        masked_data = masked_data.filled(np.nan)
         if len(masked_data.shape) == 3:
             masked_data = masked_data[0]
 
-- 
2.43.0


From 044f3bac24354a8953b9483df9b475ec27a6ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:55 +0000
Subject: [PATCH 099/136] fix: rasterize polygons on a DEM without a nodata
 value, or whose nodata value is NaN Every cell was taken as covered by the
 polygons.

---
 python/src/hydrobricks/catchment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/catchment.py b/python/src/hydrobricks/catchment.py
index 1957a9a..4e6cb26 100644
--- a/python/src/hydrobricks/catchment.py
+++ b/python/src/hydrobricks/catchment.py
@@ -847,8 +847,12 @@ class Catchment:
             raise ImportError("shapely is required to do this.")
 
         geoms = [mapping(geo) for geo in shapefile.geometry.values]
-        dem_masked, _ = mask(self.dem, geoms, crop=False, all_touched=all_touched)
-        dem_masked[dem_masked == self.dem.nodata] = nodata
+        dem_masked, _ = mask(
+            self.dem, geoms, crop=False, all_touched=all_touched, filled=False
+        )
+        if not np.issubdtype(dem_masked.dtype, np.floating):
+            dem_masked = dem_masked.astype(float)
+        dem_masked = dem_masked.filled(nodata)
         if len(dem_masked.shape) == 3:
             dem_masked = dem_masked[0]
 
-- 
2.43.0


From 45e3f4d0f6993f996bac099aaff692ec0127569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:55 +0000
Subject: [PATCH 100/136] fix: extract an attribute raster without resampling
 it and get its resolution

---
 python/src/hydrobricks/catchment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/catchment.py b/python/src/hydrobricks/catchment.py
index 4e6cb26..07ea635 100644
--- a/python/src/hydrobricks/catchment.py
+++ b/python/src/hydrobricks/catchment.py
@@ -368,8 +368,8 @@ class Catchment:
         if replace_nans_by_zeros:
             data[np.isnan(data)] = 0
 
+        memfile = None
         if resample_to_dem_resolution or reproject_crs:
-            memfile = None
             if resampling == "nearest":
                 resampling_id = 0
             elif resampling == "bilinear":
@@ -724,7 +724,7 @@ class Catchment:
                 reason="Not loaded",
             )
 
-        return abs(self.attributes[attr_name].src.transform[0])
+        return abs(self.attributes[attr_name]["src"].transform[0])
 
     def get_attribute_raster_y_resolution(self, attr_name: str = "dem") -> float:
         """
@@ -746,7 +746,7 @@ class Catchment:
                 reason="Not loaded",
             )
 
-        return abs(self.attributes[attr_name].src.transform[4])
+        return abs(self.attributes[attr_name]["src"].transform[4])
 
     def get_dem_pixel_area(self) -> float:
         """
-- 
2.43.0


From bf02754ab889f841020bea1689096be043f3fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:31 +0000
Subject: [PATCH 101/136] fix: cut the quantiles into the number of bands asked
 for, with the highest cell in the last one

---
 .../preprocessing/catchment_discretization.py | 64 +++++++++++++++----
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/catchment_discretization.py b/python/src/hydrobricks/preprocessing/catchment_discretization.py
index 37cfaf5..454399e 100644
--- a/python/src/hydrobricks/preprocessing/catchment_discretization.py
+++ b/python/src/hydrobricks/preprocessing/catchment_discretization.py
@@ -184,6 +184,9 @@ class CatchmentDiscretization:
         # Create a dict to store the criteria
         criteria_dict = {}
 
+        # Criteria whose last band ends with the highest value
+        quantiles_criteria = []
+
         if "elevation" in criteria:
             criteria_dict["elevation"] = []
             if elevation_method == "equal_intervals":
@@ -199,10 +202,12 @@ class CatchmentDiscretization:
                     criteria_dict["elevation"].append(elevations[i : i + 2])
             elif elevation_method == "quantiles":
                 elevations = np.nanquantile(
-                    self.catchment.dem_data, np.linspace(0, 1, num=elevation_number)
+                    self.catchment.dem_data,
+                    np.linspace(0, 1, num=elevation_number + 1),
                 )
                 for i in range(len(elevations) - 1):
                     criteria_dict["elevation"].append(elevations[i : i + 2])
+                quantiles_criteria.append("elevation")
             else:
                 raise ConfigurationError(
                     "Unknown elevation band creation method.",
@@ -226,10 +231,12 @@ class CatchmentDiscretization:
                     criteria_dict["slope"].append(slopes[i : i + 2])
             elif slope_method == "quantiles":
                 slopes = np.nanquantile(
-                    self.catchment.topography.slope, np.linspace(0, 1, num=slope_number)
+                    self.catchment.topography.slope,
+                    np.linspace(0, 1, num=slope_number + 1),
                 )
                 for i in range(len(slopes) - 1):
                     criteria_dict["slope"].append(slopes[i : i + 2])
+                quantiles_criteria.append("slope")
             else:
                 raise ConfigurationError(
                     "Unknown slope band creation method.",
@@ -266,10 +273,11 @@ class CatchmentDiscretization:
             elif radiation_method == "quantiles":
                 radiations = np.nanquantile(
                     self.catchment.solar_radiation.mean_annual_radiation,
-                    np.linspace(0, 1, num=radiation_number),
+                    np.linspace(0, 1, num=radiation_number + 1),
                 )
                 for i in range(len(radiations) - 1):
                     criteria_dict["radiation"].append(radiations[i : i + 2])
+                quantiles_criteria.append("radiation")
             else:
                 raise ConfigurationError(
                     "Unknown radiation band creation method. "
@@ -316,16 +324,23 @@ class CatchmentDiscretization:
             mask_unit[np.isnan(self.catchment.dem_data)] = False
 
             for criterion_name, criterion in zip(combinations_keys, combination):
+                # The highest value belongs to the last quantile
+                include_upper = (
+                    criterion_name in quantiles_criteria
+                    and criterion is criteria_dict[criterion_name][-1]
+                )
                 if criterion_name == "elevation":
-                    mask_elev = np.logical_and(
-                        self.catchment.dem_data >= criterion[0],
-                        self.catchment.dem_data < criterion[1],
+                    mask_elev = self._is_within(
+                        self.catchment.dem_data,
+                        criterion,
+                        include_upper,
                     )
                     mask_unit = np.logical_and(mask_unit, mask_elev)
                 elif criterion_name == "slope":
-                    mask_slope = np.logical_and(
-                        self.catchment.topography.slope >= criterion[0],
-                        self.catchment.topography.slope < criterion[1],
+                    mask_slope = self._is_within(
+                        self.catchment.topography.slope,
+                        criterion,
+                        include_upper,
                     )
                     mask_unit = np.logical_and(mask_unit, mask_slope)
                 elif criterion_name == "aspect":
@@ -364,9 +379,10 @@ class CatchmentDiscretization:
                         )
                     mask_unit = np.logical_and(mask_unit, mask_aspect)
                 elif criterion_name == "radiation":
-                    radiation = self.catchment.solar_radiation.mean_annual_radiation
-                    mask_radiation = np.logical_and(
-                        radiation >= criterion[0], radiation < criterion[1]
+                    mask_radiation = self._is_within(
+                        self.catchment.solar_radiation.mean_annual_radiation,
+                        criterion,
+                        include_upper,
                     )
                     mask_unit = np.logical_and(mask_unit, mask_radiation)
                 elif criterion_name == "sub_catchments":
@@ -456,6 +472,30 @@ class CatchmentDiscretization:
         self.catchment.get_hydro_units_attributes()
         self.catchment.hydro_units.populate_bounded_instance()
 
+    @staticmethod
+    def _is_within(
+        values: np.ndarray, limits: np.ndarray, include_upper: bool
+    ) -> np.ndarray:
+        """
+        Get the cells whose value is within the limits of a band.
+
+        Parameters
+        ----------
+        values
+            The values of the cells.
+        limits
+            The lower limit (included) and upper limit of the band.
+        include_upper
+            Whether the upper limit is included in the band.
+
+        Returns
+        -------
+        The mask of the cells that are within the limits.
+        """
+        if include_upper:
+            return np.logical_and(values >= limits[0], values <= limits[1])
+        return np.logical_and(values >= limits[0], values < limits[1])
+
     def _build_sub_catchments_map(
         self, sub_catchments: str | Path
     ) -> tuple[np.ndarray, int]:
-- 
2.43.0


From 643a9a4dafb3fad1e30e27c9564c8996bab2355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 102/136] fix: take the quantiles of the slope and radiation
 from the cells of the catchment

---
 .../hydrobricks/preprocessing/catchment_discretization.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/catchment_discretization.py b/python/src/hydrobricks/preprocessing/catchment_discretization.py
index 454399e..18ca9a3 100644
--- a/python/src/hydrobricks/preprocessing/catchment_discretization.py
+++ b/python/src/hydrobricks/preprocessing/catchment_discretization.py
@@ -180,6 +180,7 @@ class CatchmentDiscretization:
             raise ModelError("Please first compute the radiation.")
 
         self.map_unit_ids = np.zeros(self.catchment.dem_data.shape)
+        inside_catchment = ~np.isnan(self.catchment.dem_data)
 
         # Create a dict to store the criteria
         criteria_dict = {}
@@ -231,7 +232,7 @@ class CatchmentDiscretization:
                     criteria_dict["slope"].append(slopes[i : i + 2])
             elif slope_method == "quantiles":
                 slopes = np.nanquantile(
-                    self.catchment.topography.slope,
+                    self.catchment.topography.slope[inside_catchment],
                     np.linspace(0, 1, num=slope_number + 1),
                 )
                 for i in range(len(slopes) - 1):
@@ -272,7 +273,9 @@ class CatchmentDiscretization:
                     criteria_dict["radiation"].append(radiations[i : i + 2])
             elif radiation_method == "quantiles":
                 radiations = np.nanquantile(
-                    self.catchment.solar_radiation.mean_annual_radiation,
+                    np.asarray(self.catchment.solar_radiation.mean_annual_radiation)[
+                        inside_catchment
+                    ],
                     np.linspace(0, 1, num=radiation_number + 1),
                 )
                 for i in range(len(radiations) - 1):
-- 
2.43.0


From 56d152dd4ce6f43456eacf432c834f89ce79882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 103/136] fix: keep the flat cells when discretizing by aspect

---
 .../src/hydrobricks/preprocessing/catchment_discretization.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/preprocessing/catchment_discretization.py b/python/src/hydrobricks/preprocessing/catchment_discretization.py
index 18ca9a3..e751a3d 100644
--- a/python/src/hydrobricks/preprocessing/catchment_discretization.py
+++ b/python/src/hydrobricks/preprocessing/catchment_discretization.py
@@ -353,8 +353,9 @@ class CatchmentDiscretization:
                                 self.catchment.topography.aspect >= 315,
                                 self.catchment.topography.aspect <= 360,
                             ),
+                            # Flat cells (aspect of -1) are put in this class
                             np.logical_and(
-                                self.catchment.topography.aspect >= 0,
+                                self.catchment.topography.aspect >= -1,
                                 self.catchment.topography.aspect < 45,
                             ),
                         )
-- 
2.43.0


From 697b329996a775604d6b116832dc85f686ee3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:00 +0000
Subject: [PATCH 104/136] fix: forget the previous hydro units and do not
 repeat properties when discretizing again

---
 python/src/hydrobricks/hydro_units.py         | 21 ++++++++++++++++++-
 .../preprocessing/catchment_discretization.py |  3 +++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index 34591a2..7695fb5 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -464,7 +464,8 @@ class HydroUnits:
         Add a property to the hydro units.
 
         Adds a new column to the hydro_units DataFrame with the specified property
-        name, unit, and values. Can optionally insert as the first column.
+        name, unit, and values. Can optionally insert as the first column. A property
+        of that name that is already there is replaced.
 
         Parameters
         ----------
@@ -490,11 +491,29 @@ class HydroUnits:
         if self.hydro_units is None:
             self.hydro_units = df
         else:
+            existing = [
+                col
+                for col in self.hydro_units.columns.tolist()
+                if col[0] == column_tuple[0]
+            ]
+            if existing:
+                self.hydro_units = self.hydro_units.drop(columns=existing)
             if set_first:
                 self.hydro_units = pd.concat([df, self.hydro_units], axis=1)
             else:
                 self.hydro_units = pd.concat([self.hydro_units, df], axis=1)
 
+    def clear(self) -> None:
+        """
+        Remove the hydro units and their properties, but keep the land covers.
+        """
+        self.hydro_units = pd.DataFrame(
+            columns=[
+                (f"{self.FRACTION_PREFIX}{name}", "fraction")
+                for name in self.land_cover_names
+            ]
+        )
+
     def get_hydro_unit_count(self) -> int:
         """
         Get the number of hydro units.
diff --git a/python/src/hydrobricks/preprocessing/catchment_discretization.py b/python/src/hydrobricks/preprocessing/catchment_discretization.py
index e751a3d..8d3a248 100644
--- a/python/src/hydrobricks/preprocessing/catchment_discretization.py
+++ b/python/src/hydrobricks/preprocessing/catchment_discretization.py
@@ -437,6 +437,9 @@ class CatchmentDiscretization:
 
         self.catchment.map_unit_ids = self.map_unit_ids.astype(rasterio.uint16)
 
+        # Forget the units of an earlier discretization
+        self.catchment.hydro_units.clear()
+
         if res_elevation:
             self.catchment.hydro_units.add_property(("elevation", "m"), res_elevation)
             self.catchment.hydro_units.add_property(
-- 
2.43.0


From c4940bb70f31245f1fce826edab68f4d1063416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:09 +0000
Subject: [PATCH 105/136] fix: leave the cells without any polygon out of the
 land cover class 0

---
 .../src/hydrobricks/preprocessing/catchment_land_cover.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/catchment_land_cover.py b/python/src/hydrobricks/preprocessing/catchment_land_cover.py
index 7d35b1b..1f99610 100644
--- a/python/src/hydrobricks/preprocessing/catchment_land_cover.py
+++ b/python/src/hydrobricks/preprocessing/catchment_land_cover.py
@@ -252,10 +252,12 @@ class CatchmentLandCover:
         """Burn the mapped vector classes onto the DEM grid (1 assignment per cell).
 
         Returns an integer grid over the DEM holding, for each cell, the source class
-        code of the first mapped class covering it (0 where no mapped class applies).
+        code of the first mapped class covering it (a code that is not in the mapping
+        where no mapped class applies).
         """
         catchment = self.catchment
-        classes = np.zeros(catchment.map_unit_ids.shape, dtype=int)
+        no_class = min((self._as_int_class(key) for key in mapping), default=0) - 1
+        classes = np.full(catchment.map_unit_ids.shape, no_class, dtype=int)
         assigned = np.zeros(catchment.map_unit_ids.shape, dtype=bool)
 
         for class_value in mapping:
-- 
2.43.0


From 868c3285d5bf901fb424d8eef8de497369852dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:23 +0000
Subject: [PATCH 106/136] fix: refuse unknown discretization criteria and bands
 without any cell

---
 .../preprocessing/catchment_discretization.py | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/preprocessing/catchment_discretization.py b/python/src/hydrobricks/preprocessing/catchment_discretization.py
index 8d3a248..54f372b 100644
--- a/python/src/hydrobricks/preprocessing/catchment_discretization.py
+++ b/python/src/hydrobricks/preprocessing/catchment_discretization.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import itertools
 from pathlib import Path
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, ClassVar
 
 import numpy as np
 
@@ -23,6 +23,14 @@ class CatchmentDiscretization:
     Class to handle the discretization of catchments.
     """
 
+    CRITERIA: ClassVar[tuple[str, ...]] = (
+        "elevation",
+        "slope",
+        "aspect",
+        "radiation",
+        "sub_catchments",
+    )
+
     def __init__(self, catchment: Catchment) -> None:
         """
         Initialize the Discretization class.
@@ -168,6 +176,16 @@ class CatchmentDiscretization:
         if isinstance(criteria, str):
             criteria = [criteria]
 
+        for criterion in criteria:
+            if criterion not in self.CRITERIA:
+                raise ConfigurationError(
+                    f"Unknown discretization criterion '{criterion}'. "
+                    f"Possible criteria: {', '.join(self.CRITERIA)}.",
+                    item_name="criteria",
+                    item_value=criterion,
+                    reason="Unknown criterion",
+                )
+
         if (
             self.catchment.topography.slope is None
             or self.catchment.topography.aspect is None
@@ -435,6 +453,12 @@ class CatchmentDiscretization:
 
             unit_id += 1
 
+        if unit_id == 1:
+            raise ConfigurationError(
+                "No cell of the catchment is within the bands to create.",
+                reason="No hydro unit",
+            )
+
         self.catchment.map_unit_ids = self.map_unit_ids.astype(rasterio.uint16)
 
         # Forget the units of an earlier discretization
-- 
2.43.0


From 4f456e2228b0e8986d86639e341f07b37caa71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:39 +0000
Subject: [PATCH 107/136] fix: compute the radiation of the polar days and
 nights

---
 .../hydrobricks/preprocessing/potential_solar_radiation.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
index 64cb675..09cd722 100644
--- a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
+++ b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
@@ -475,7 +475,10 @@ class PotentialSolarRadiation:
 
         # The negative sign is applied because the Hour Angle is negative in the
         # morning and positive in the afternoon.
-        hour_angle = np.arccos(-np.tan(solar_declination) * np.tan(lat_rad))
+        # Beyond the polar circles, the sun may stay above (pi) or below (0) the horizon.
+        hour_angle = np.arccos(
+            np.clip(-np.tan(solar_declination) * np.tan(lat_rad), -1, 1)
+        )
 
         return hour_angle
 
-- 
2.43.0


From 48996ed9fcc9651ad73bbb931d5fa4735c7a4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:39 +0000
Subject: [PATCH 108/136] fix: give the azimuth of the sun when it is to the
 north at noon or overhead

---
 .../preprocessing/potential_solar_radiation.py       | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
index 09cd722..c23b9fd 100644
--- a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
+++ b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
@@ -550,16 +550,12 @@ class PotentialSolarRadiation:
             convert_to_float = True
 
         azimuth = np.degrees(
-            np.arctan(
-                np.sin(hour_angles)
-                / (
-                    np.sin(lat_rad) * np.cos(hour_angles)
-                    - np.cos(lat_rad) * np.tan(solar_declination)
-                )
+            np.arctan2(
+                np.sin(hour_angles),
+                np.sin(lat_rad) * np.cos(hour_angles)
+                - np.cos(lat_rad) * np.tan(solar_declination),
             )
         )
-        azimuth[np.where((azimuth < 0) & (hour_angles > 0))] += 180
-        azimuth[np.where((azimuth > 0) & (hour_angles < 0))] -= 180
 
         if convert_to_float:
             azimuth = azimuth[0]
-- 
2.43.0


From 321b72867a44bc461712eb153355db97e2575c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:39 +0000
Subject: [PATCH 109/136] fix: compute the solar zenith when the sun is
 overhead

---
 .../preprocessing/potential_solar_radiation.py         | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
index c23b9fd..ab13772 100644
--- a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
+++ b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
@@ -508,13 +508,11 @@ class PotentialSolarRadiation:
         -------
         The solar zenith in degrees.
         """
-        zenith = (
-            np.arccos(
-                (np.sin(lat_rad) * np.sin(solar_declination))
-                + (np.cos(lat_rad) * np.cos(solar_declination) * np.cos(hour_angles))
-            )
-            * TO_DEG
+        cos_zenith = (np.sin(lat_rad) * np.sin(solar_declination)) + (
+            np.cos(lat_rad) * np.cos(solar_declination) * np.cos(hour_angles)
         )
+        # The rounding may bring the cosine slightly above 1
+        zenith = np.arccos(np.clip(cos_zenith, -1, 1)) * TO_DEG
         return zenith
 
     @staticmethod
-- 
2.43.0


From 026ce5a73a8af8ef2512c8bb472a500cb9f3db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:39 +0000
Subject: [PATCH 110/136] fix: save the radiation computed on a DEM of whole
 numbers without truncating it

---
 .../src/hydrobricks/preprocessing/potential_solar_radiation.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
index ab13772..87de94f 100644
--- a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
+++ b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
@@ -254,6 +254,8 @@ class PotentialSolarRadiation:
         """
         # Create the profile
         profile = dem.profile
+        if not np.issubdtype(np.dtype(profile["dtype"]), np.floating):
+            profile.update(dtype=rasterio.float32)
 
         # Define the output paths
         temp_path = Path(output_path) / "downsampled_annual_potential_radiation.tif"
-- 
2.43.0


From 391b8f356c539abecb89194bc2e991044b4628ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:39 +0000
Subject: [PATCH 111/136] fix: take the latitude of the catchment cells for the
 potential radiation

---
 .../hydrobricks/preprocessing/potential_solar_radiation.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
index 87de94f..dfcc87e 100644
--- a/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
+++ b/python/src/hydrobricks/preprocessing/potential_solar_radiation.py
@@ -114,7 +114,9 @@ class PotentialSolarRadiation:
 
         # Get some catchment attributes
         mean_elevation = self.catchment.topography.get_mean_elevation()
-        mean_lat, _ = self.catchment.extract_unit_mean_lat_lon(self.catchment.dem_data)
+        mean_lat, _ = self.catchment.extract_unit_mean_lat_lon(
+            ~np.isnan(self.catchment.dem_data)
+        )
         lat_rad = mean_lat * TO_RAD
 
         # Compute the solar declination
-- 
2.43.0


From 120c42ca45fbef5d57b512d083b69026fc1e509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 112/136] fix: report the errors of the regridding threads
 instead of returning zeros

---
 python/src/hydrobricks/time_series.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 4cf6107..30e9826 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -492,6 +492,10 @@ class TimeSeries2D(TimeSeries):
             # Wait for all tasks to complete
             concurrent.futures.wait(futures)
 
+        # Do not hide the errors raised in the threads
+        for future in futures:
+            future.result()
+
         # If the time method is 'day_of_year', convert to the full time series
         if time_method == "day_of_year":
             logger.info("Converting to the full time series...")
-- 
2.43.0


From 47c7b4c223e5e922021eaaadfd996b3f8ffe43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 113/136] fix: regrid data on a single hydro unit

---
 python/src/hydrobricks/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 30e9826..4607499 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -274,7 +274,7 @@ class TimeSeries2D(TimeSeries):
                 unit_ids = unit_ids.rio.reproject(f"epsg:{data_crs}")
 
         # Get list of hydro unit ids
-        unit_ids_list = hydro_units["id"].values.squeeze()
+        unit_ids_list = hydro_units["id"].values.reshape(-1)
         unit_id_count = len(unit_ids_list)
         logger.debug(f"Processing {unit_id_count} hydro units")
 
@@ -418,7 +418,7 @@ class TimeSeries2D(TimeSeries):
                 apply_data_gradient = False
 
             # Extract the elevation for each hydro unit
-            hu_elevation = hydro_units["elevation"].to_numpy().squeeze()
+            hu_elevation = hydro_units["elevation"].to_numpy().reshape(-1)
 
         # Create a xarray variable containing the data cell indices
         data_idx = data_var[0].copy()
-- 
2.43.0


From 8d016e827f1eba735c5995ed1bfbcde47f53ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 114/136] fix: keep at least two rows and columns of the
 gridded data to know their resolution

---
 python/src/hydrobricks/time_series.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 4607499..8f66cfb 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -744,10 +744,16 @@ class TimeSeries2D(TimeSeries):
         y_start_idx = np.searchsorted(y_coords, y_min_dat, side="right") - 1
         y_end_idx = np.searchsorted(y_coords, y_max_dat, side="left")
 
-        x_start = x_coords[max(x_start_idx, 0)]
-        x_end = x_coords[min(x_end_idx, len(x_coords) - 1)]
-        y_start = y_coords[max(y_start_idx, 0)]
-        y_end = y_coords[min(y_end_idx, len(y_coords) - 1)]
+        # Keep at least two cells per dimension (needed to know the resolution)
+        x_start_idx = max(min(x_start_idx, len(x_coords) - 2), 0)
+        x_end_idx = min(max(x_end_idx, x_start_idx + 1), len(x_coords) - 1)
+        y_start_idx = max(min(y_start_idx, len(y_coords) - 2), 0)
+        y_end_idx = min(max(y_end_idx, y_start_idx + 1), len(y_coords) - 1)
+
+        x_start = x_coords[x_start_idx]
+        x_end = x_coords[x_end_idx]
+        y_start = y_coords[y_start_idx]
+        y_end = y_coords[y_end_idx]
 
         if x_reversed:
             x_sel = slice(max(x_start, x_end), min(x_start, x_end))
-- 
2.43.0


From 2d0b06d9e09d3b41db1392c4e5208a63baae9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 115/136] fix: leave the cells without data out of the mean of
 a hydro unit

---
 python/src/hydrobricks/time_series.py | 30 ++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 8f66cfb..5f2bfff 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -644,7 +644,7 @@ class TimeSeries2D(TimeSeries):
                     reason="Invalid gradient type",
                 )
 
-            self.data[-1][i_start:i_end, u] = np.nansum(data * weights, axis=1)
+            self.data[-1][i_start:i_end, u] = self._weighted_mean(data, weights)
 
     def _extract_time_step_data_weights(
         self, data_var: xr.DataArray, unit_weights: list, i_block: int, block_size: int
@@ -678,10 +678,34 @@ class TimeSeries2D(TimeSeries):
         # Extract data for each unit
         for u, unit_weight in enumerate(unit_weights):
             # Mask the meteorological data with the unit weights.
-            self.data[-1][i_start:i_end, u] = np.nansum(
-                data_var[i_start:i_end].to_numpy() * unit_weight, axis=(1, 2)
+            self.data[-1][i_start:i_end, u] = self._weighted_mean(
+                data_var[i_start:i_end].to_numpy()[:, unit_weight > 0],
+                unit_weight[unit_weight > 0],
             )
 
+    @staticmethod
+    def _weighted_mean(data: np.ndarray, weights: np.ndarray) -> np.ndarray:
+        """
+        Compute the weighted mean over the cells that contain data.
+
+        Parameters
+        ----------
+        data
+            2D array (time, cells) of the data.
+        weights
+            1D array of the weights of the cells.
+
+        Returns
+        -------
+        np.ndarray
+            The weighted mean per time step (NaN if no cell contains data).
+        """
+        valid = ~np.isnan(data)
+        total_weights = (valid * weights).sum(axis=1)
+        total_weights[total_weights == 0] = np.nan
+
+        return np.nansum(data * weights, axis=1) / total_weights
+
     def _select_relevant_extent(
         self,
         data_var: xr.DataArray,
-- 
2.43.0


From 6dc9f688c627b92c0ecda70093645927899c3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 116/136] fix: use the elevation gradient of a single direction
 where the other is undefined

---
 python/src/hydrobricks/time_series.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 5f2bfff..a055598 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -992,5 +992,9 @@ class TimeSeries2D(TimeSeries):
         dat_dx_expanded = dat_dx.reindex_like(dat_dxy, method="nearest")
         dat_dy_expanded = dat_dy.reindex_like(dat_dxy, method="nearest")
 
-        # Compute mean
+        # Compute mean (with a single direction where the other is undefined)
+        dat_dx_expanded, dat_dy_expanded = (
+            xr.where(dat_dx_expanded.isnull(), dat_dy_expanded, dat_dx_expanded),
+            xr.where(dat_dy_expanded.isnull(), dat_dx_expanded, dat_dy_expanded),
+        )
         return (dat_dx_expanded + dat_dy_expanded) / 2
-- 
2.43.0


From a5e9b7f90b37b801b879a7114c16edd4db141d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:45 +0000
Subject: [PATCH 117/136] fix: average the DEM over the cells of the gridded
 data

---
 python/src/hydrobricks/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index a055598..743b9fb 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -393,7 +393,7 @@ class TimeSeries2D(TimeSeries):
             data_grid = data_var[0].copy()
             dem_reproj = dem.rio.reproject_match(
                 data_grid,
-                Resampling=rasterio.enums.Resampling.average,
+                resampling=rasterio.enums.Resampling.average,
                 nodata=np.nan,
             )
             dem_data = dem_reproj.values
@@ -433,7 +433,7 @@ class TimeSeries2D(TimeSeries):
             warnings.filterwarnings("ignore", category=UserWarning)  # pyproj
             data_idx.rio.write_crs(f"epsg:{data_crs}", inplace=True)
             data_idx_reproj = data_idx.rio.reproject_match(
-                unit_ids, Resampling=rasterio.enums.Resampling.nearest
+                unit_ids, resampling=rasterio.enums.Resampling.nearest
             )
 
         # Create the masks (with the original data shape) for each unit with the
-- 
2.43.0


From f740199f7468f80417442951a58efb044c4709d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:45 +0000
Subject: [PATCH 118/136] fix: regrid data per day of the year for periods
 shorter than a year

---
 python/src/hydrobricks/time_series.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/python/src/hydrobricks/time_series.py b/python/src/hydrobricks/time_series.py
index 743b9fb..1314a58 100644
--- a/python/src/hydrobricks/time_series.py
+++ b/python/src/hydrobricks/time_series.py
@@ -333,7 +333,8 @@ class TimeSeries2D(TimeSeries):
             unit_id_masks.append(unit_id_mask)
 
         # Initialize data array
-        data = np.zeros((len(self.time), unit_id_count))
+        n_rows = len(day_of_year) if time_method == "day_of_year" else len(self.time)
+        data = np.zeros((n_rows, unit_id_count))
         self.data.append(data)
 
         # Drop other variables
@@ -553,12 +554,11 @@ class TimeSeries2D(TimeSeries):
             1D array of elevation for each hydro unit.
         """
         i_start = i_block * block_size
-        i_end = min((i_block + 1) * block_size, len(self.time))
-        i_end = min(i_end, data_var.shape[0])
-        if i_start >= len(self.time):
+        i_end = min((i_block + 1) * block_size, data_var.shape[0])
+        if i_start >= i_end:
             return
 
-        logger.debug(f"Extracting {self.time[i_start]}")
+        logger.debug(f"Extracting time steps {i_start} to {i_end - 1}")
 
         if gradient_type == "additive":
             dat_dx = data_var[i_start:i_end].diff("x")
@@ -668,12 +668,11 @@ class TimeSeries2D(TimeSeries):
             Number of time steps to process in this block.
         """
         i_start = i_block * block_size
-        i_end = min((i_block + 1) * block_size, len(self.time))
-        i_end = min(i_end, data_var.shape[0])
-        if i_start >= len(self.time):
+        i_end = min((i_block + 1) * block_size, data_var.shape[0])
+        if i_start >= i_end:
             return
 
-        logger.debug(f"Extracting {self.time[i_start]}")
+        logger.debug(f"Extracting time steps {i_start} to {i_end - 1}")
 
         # Extract data for each unit
         for u, unit_weight in enumerate(unit_weights):
-- 
2.43.0


From c9ff60261af683d9795bdb1d427058816969ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:45 +0000
Subject: [PATCH 119/136] fix: replace the gridded forcing of a variable
 instead of adding it twice

---
 python/src/hydrobricks/forcing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 5efbc05..f335f75 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1368,7 +1368,13 @@ class Forcing:
                 gradient_type=gradient_type,
                 dem_path=dem_path,
             )
-            self.data2D.data_name.append(variable)
+
+            # Replace the data of the variable if it was already defined
+            if variable in self.data2D.data_name:
+                idx_2d = self.data2D.data_name.index(variable)
+                self.data2D.data[idx_2d] = self.data2D.data.pop()
+            else:
+                self.data2D.data_name.append(variable)
         else:
             raise ForcingError(
                 f"Unknown method: {method}", variable=str(variable), method=method
-- 
2.43.0


From 7127a9e5d1164f0447835b9844ec7386056218cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:45 +0000
Subject: [PATCH 120/136] fix: avoid negative values of gridded variables that
 cannot be negative

---
 python/src/hydrobricks/forcing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index f335f75..4ea1332 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1369,6 +1369,11 @@ class Forcing:
                 dem_path=dem_path,
             )
 
+            # Check outputs
+            if not self._can_be_negative(variable):
+                data = self.data2D.data[-1]
+                data[data < 0] = 0
+
             # Replace the data of the variable if it was already defined
             if variable in self.data2D.data_name:
                 idx_2d = self.data2D.data_name.index(variable)
-- 
2.43.0


From 88a428fa05c602b23a75b56ae187c622c8438d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:03 +0000
Subject: [PATCH 121/136] fix: know the variables of a project under any of
 their names

---
 python/src/hydrobricks/forcing.py | 91 ++++++++++++++++---------------
 python/src/hydrobricks/project.py | 29 +++++++++-
 2 files changed, 72 insertions(+), 48 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 4ea1332..5cf2525 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -171,7 +171,8 @@ class Forcing:
         """
         return self._is_initialized
 
-    def get_variable_enum(self, variable: str) -> Variable:
+    @classmethod
+    def get_variable_enum(cls, variable: str) -> Variable:
         """
         Match a variable name string to the corresponding Variable enum value.
 
@@ -197,53 +198,53 @@ class Forcing:
         >>> var == Forcing.Variable.P
         True
         """
-        if variable in self.Variable.__members__:
-            return self.Variable[variable]
+        if variable in cls.Variable.__members__:
+            return cls.Variable[variable]
 
         # Dictionary mapping variable aliases to Variable enum
         variable_aliases = {
-            "precipitation": self.Variable.P,
-            "precip": self.Variable.P,
-            "p": self.Variable.P,
-            "temperature": self.Variable.T,
-            "temp": self.Variable.T,
-            "t": self.Variable.T,
-            "temperature_min": self.Variable.T_MIN,
-            "min_temperature": self.Variable.T_MIN,
-            "t_min": self.Variable.T_MIN,
-            "tmin": self.Variable.T_MIN,
-            "temperature_max": self.Variable.T_MAX,
-            "max_temperature": self.Variable.T_MAX,
-            "t_max": self.Variable.T_MAX,
-            "tmax": self.Variable.T_MAX,
-            "temperature_dew_point": self.Variable.T_DEW_POINT,
-            "dew_point_temperature": self.Variable.T_DEW_POINT,
-            "t_dew_point": self.Variable.T_DEW_POINT,
-            "tdew": self.Variable.T_DEW_POINT,
-            "pet": self.Variable.PET,
-            "relative_humidity": self.Variable.RH,
-            "rh": self.Variable.RH,
-            "relative_humidity_min": self.Variable.RH_MIN,
-            "min_relative_humidity": self.Variable.RH_MIN,
-            "rh_min": self.Variable.RH_MIN,
-            "rhmin": self.Variable.RH_MIN,
-            "relative_humidity_max": self.Variable.RH_MAX,
-            "max_relative_humidity": self.Variable.RH_MAX,
-            "rh_max": self.Variable.RH_MAX,
-            "rhmax": self.Variable.RH_MAX,
-            "net_radiation": self.Variable.R_NET,
-            "r_net": self.Variable.R_NET,
-            "r_n": self.Variable.R_NET,
-            "rn": self.Variable.R_NET,
-            "solar_radiation": self.Variable.R_SOLAR,
-            "r_solar": self.Variable.R_SOLAR,
-            "r_s": self.Variable.R_SOLAR,
-            "rs": self.Variable.R_SOLAR,
-            "sunshine_duration": self.Variable.SD,
-            "sd": self.Variable.SD,
-            "wind_speed": self.Variable.WIND,
-            "wind": self.Variable.WIND,
-            "pressure": self.Variable.PRESSURE,
+            "precipitation": cls.Variable.P,
+            "precip": cls.Variable.P,
+            "p": cls.Variable.P,
+            "temperature": cls.Variable.T,
+            "temp": cls.Variable.T,
+            "t": cls.Variable.T,
+            "temperature_min": cls.Variable.T_MIN,
+            "min_temperature": cls.Variable.T_MIN,
+            "t_min": cls.Variable.T_MIN,
+            "tmin": cls.Variable.T_MIN,
+            "temperature_max": cls.Variable.T_MAX,
+            "max_temperature": cls.Variable.T_MAX,
+            "t_max": cls.Variable.T_MAX,
+            "tmax": cls.Variable.T_MAX,
+            "temperature_dew_point": cls.Variable.T_DEW_POINT,
+            "dew_point_temperature": cls.Variable.T_DEW_POINT,
+            "t_dew_point": cls.Variable.T_DEW_POINT,
+            "tdew": cls.Variable.T_DEW_POINT,
+            "pet": cls.Variable.PET,
+            "relative_humidity": cls.Variable.RH,
+            "rh": cls.Variable.RH,
+            "relative_humidity_min": cls.Variable.RH_MIN,
+            "min_relative_humidity": cls.Variable.RH_MIN,
+            "rh_min": cls.Variable.RH_MIN,
+            "rhmin": cls.Variable.RH_MIN,
+            "relative_humidity_max": cls.Variable.RH_MAX,
+            "max_relative_humidity": cls.Variable.RH_MAX,
+            "rh_max": cls.Variable.RH_MAX,
+            "rhmax": cls.Variable.RH_MAX,
+            "net_radiation": cls.Variable.R_NET,
+            "r_net": cls.Variable.R_NET,
+            "r_n": cls.Variable.R_NET,
+            "rn": cls.Variable.R_NET,
+            "solar_radiation": cls.Variable.R_SOLAR,
+            "r_solar": cls.Variable.R_SOLAR,
+            "r_s": cls.Variable.R_SOLAR,
+            "rs": cls.Variable.R_SOLAR,
+            "sunshine_duration": cls.Variable.SD,
+            "sd": cls.Variable.SD,
+            "wind_speed": cls.Variable.WIND,
+            "wind": cls.Variable.WIND,
+            "pressure": cls.Variable.PRESSURE,
         }
 
         if variable in variable_aliases:
diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index f166173..47ce7f2 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -671,6 +671,21 @@ def _validate_hydro_units(config: dict, base: Path, errors: list[str]) -> dict:
     return out
 
 
+def _variable_key(variable: Any, where: str, errors: list[str]) -> str:
+    """The key under which a variable is known here, whichever alias it is given by."""
+    try:
+        enum = Forcing.get_variable_enum(variable)
+    except (HydroBricksError, TypeError):
+        errors.append(f"{where}: unknown variable '{variable}'.")
+        return str(variable)
+    main = {
+        Forcing.Variable.P: "precipitation",
+        Forcing.Variable.T: "temperature",
+        Forcing.Variable.PET: "pet",
+    }
+    return main.get(enum, enum.name)
+
+
 def _validate_station_forcing(section: dict, base: Path, errors: list[str]) -> dict:
     out: dict[str, Any] = {}
     file = _resolve_file(section, base, "forcing", errors)
@@ -686,7 +701,12 @@ def _validate_station_forcing(section: dict, base: Path, errors: list[str]) -> d
             "e.g. {precipitation: 'precip(mm/day)', temperature: 'temp(C)'}."
         )
         columns = {}
-    out["columns"] = columns
+    out["columns"] = {}
+    for variable, col in columns.items():
+        key = _variable_key(variable, "forcing.columns", errors)
+        if key in out["columns"]:
+            errors.append(f"forcing.columns.{variable}: '{key}' is defined twice.")
+        out["columns"][key] = col
 
     out["ref_elevation"] = _get_number(section, "ref_elevation", "forcing", errors)
 
@@ -720,7 +740,7 @@ def _validate_station_forcing(section: dict, base: Path, errors: list[str]) -> d
         precipitation, "gradient", "forcing.precipitation", errors
     )
 
-    needs_ref = "temperature" in columns or out["precip_gradient"] is not None
+    needs_ref = "temperature" in out["columns"] or out["precip_gradient"] is not None
     if needs_ref and out["ref_elevation"] is None:
         errors.append(
             "forcing.ref_elevation: the station elevation is required to "
@@ -824,7 +844,10 @@ def _validate_gridded_forcing(gridded: Any, base: Path, errors: list[str]) -> di
             gradient_type = None
         cfg["gradient_type"] = gradient_type
 
-        out[str(variable)] = cfg
+        key = _variable_key(variable, "forcing.gridded", errors)
+        if key in out:
+            errors.append(f"{where}: '{key}' is defined twice.")
+        out[key] = cfg
     return out
 
 
-- 
2.43.0


From eaf737133b5076b4a1fb75273903aeb97882db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:08 +0000
Subject: [PATCH 122/136] fix: take the latitude of the catchment for the PET
 of units read from a file

---
 python/src/hydrobricks/project.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index 47ce7f2..69a01db 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -81,6 +81,7 @@ from dataclasses import dataclass, field
 from pathlib import Path
 from typing import Any
 
+import numpy as np
 import pandas as pd
 import yaml
 
@@ -1334,8 +1335,15 @@ def _build_project(
             )
 
     if "pet" not in fc["variables"]:
+        latitude = fc["pet_latitude"]
+        if latitude is None and not hydro_units.has("latitude"):
+            # The units come from a CSV: use the mean latitude of the catchment
+            # (guaranteed to be there by the validation).
+            latitude, _ = catchment.extract_unit_mean_lat_lon(
+                ~np.isnan(catchment.dem_data)
+            )
         forcing.compute_pet(
-            method=fc["pet_method"], use=["t", "lat"], lat=fc["pet_latitude"]
+            method=fc["pet_method"], use=["t", "lat"], lat=latitude
         )
 
     # Parameters.
-- 
2.43.0


From 70949f2439650e268d8dddffed44ffda13f1044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:08 +0000
Subject: [PATCH 123/136] fix: refuse elevation bands without a positive
 height, a whole number or any extent

---
 python/src/hydrobricks/project.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index 69a01db..fe2d716 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -75,6 +75,7 @@ use the Python API, starting from the objects returned by
 from __future__ import annotations
 
 import difflib
+import math
 import numbers
 import re
 from dataclasses import dataclass, field
@@ -570,6 +571,17 @@ def _validate_discretization(section: dict, errors: list[str]) -> dict | None:
     out["method"] = method
     for key in ("distance", "number", "min_elevation", "max_elevation"):
         out[key] = _get_number(discretization, key, where, errors)
+        if out[key] is not None and not math.isfinite(out[key]):
+            errors.append(f"{where}.{key}: expected a number, got {out[key]}.")
+            out[key] = None
+    if out["distance"] is not None and out["distance"] <= 0:
+        errors.append(f"{where}.distance: expected a positive number.")
+    number = out["number"]
+    if number is not None and (number < 1 or number != int(number)):
+        errors.append(f"{where}.number: expected a positive whole number.")
+    low, high = out["min_elevation"], out["max_elevation"]
+    if low is not None and high is not None and low >= high:
+        errors.append(f"{where}: min_elevation must be lower than max_elevation.")
     return out
 
 
-- 
2.43.0


From a07d53cc87b8b4b58992478b904451d68634a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:08 +0000
Subject: [PATCH 124/136] fix: refuse empty paths and file patterns of a
 project

---
 python/src/hydrobricks/project.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/hydrobricks/project.py b/python/src/hydrobricks/project.py
index fe2d716..94d74c9 100644
--- a/python/src/hydrobricks/project.py
+++ b/python/src/hydrobricks/project.py
@@ -540,7 +540,7 @@ def _resolve_optional_path(
     path = Path(name)
     if not path.is_absolute():
         path = base / path
-    if not path.exists():
+    if not name or not path.exists():
         errors.append(f"{where}.{key}: '{path}' does not exist.")
         return None
     return path
@@ -801,8 +801,8 @@ def _validate_gridded_forcing(gridded: Any, base: Path, errors: list[str]) -> di
 
         name = _get_str(spec, "path", where, errors)
         path = None
-        if name is None:
-            if spec.get("path") is None:
+        if not name:
+            if spec.get("path") in (None, ""):
                 errors.append(f"{where}.path: a netCDF file or folder is required.")
         else:
             path = Path(name)
@@ -815,7 +815,7 @@ def _validate_gridded_forcing(gridded: Any, base: Path, errors: list[str]) -> di
 
         cfg["file_pattern"] = _get_str(spec, "file_pattern", where, errors)
         if path is not None and path.is_dir():
-            if cfg["file_pattern"] is None:
+            if not cfg["file_pattern"]:
                 errors.append(
                     f"{where}.file_pattern: required when 'path' is a folder."
                 )
-- 
2.43.0


From 381311b272e3d97fd39e90d896ce2f8a66761575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:08 +0000
Subject: [PATCH 125/136] fix: propose the period of all the gridded files in
 the wizard

---
 python/src/hydrobricks/cli.py | 50 +++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/python/src/hydrobricks/cli.py b/python/src/hydrobricks/cli.py
index 65ffb19..aa4f6e6 100644
--- a/python/src/hydrobricks/cli.py
+++ b/python/src/hydrobricks/cli.py
@@ -202,9 +202,9 @@ def _read_time_info(
 def _sniff_netcdf(
     path: Path, file_pattern: str | None
 ) -> tuple[list[str], list[str], tuple[str | None, str | None]]:
-    """The (data variables, dims, time range) of the first matching netCDF file.
+    """The (data variables, dims, time range) of the matching netCDF file(s).
 
-    Returns empty proposals when xarray is unavailable or the file cannot be
+    The variables and dims are those of the first file. Returns empty proposals when xarray is unavailable or the file cannot be
     read — the wizard then simply asks without defaults.
     """
     from hydrobricks._optional import HAS_XARRAY, xr
@@ -217,28 +217,32 @@ def _sniff_netcdf(
     if not HAS_XARRAY:
         return empty
     if path.is_file():
-        file = path
+        files = [path]
     else:
-        file = next(iter(sorted(path.glob(file_pattern or "*.nc"))), None)
-    if file is None:
-        return empty
-    try:
-        dataset = xr.open_dataset(file)
-    except Exception:
-        return empty
-    try:
-        variables = [str(v) for v in dataset.data_vars if dataset[v].ndim >= 3]
-        variables = variables or [str(v) for v in dataset.data_vars]
-        dims = [str(d) for d in dataset.dims]
-        start = end = None
-        time_dim = _guess_dim(dims, "time")
-        if time_dim is not None:
-            values = pd.to_datetime(dataset[time_dim].values)
-            start = values.min().strftime("%Y-%m-%d")
-            end = values.max().strftime("%Y-%m-%d")
-        return variables, dims, (start, end)
-    finally:
-        dataset.close()
+        files = sorted(path.glob(file_pattern or "*.nc"))
+    variables: list[str] = []
+    dims: list[str] = []
+    start = end = None
+    for i, file in enumerate(files):
+        try:
+            dataset = xr.open_dataset(file)
+        except Exception:
+            return empty
+        try:
+            if i == 0:
+                variables = [str(v) for v in dataset.data_vars if dataset[v].ndim >= 3]
+                variables = variables or [str(v) for v in dataset.data_vars]
+                dims = [str(d) for d in dataset.dims]
+            time_dim = _guess_dim(dims, "time")
+            if time_dim is not None:
+                values = pd.to_datetime(dataset[time_dim].values)
+                start = values.min() if start is None else min(start, values.min())
+                end = values.max() if end is None else max(end, values.max())
+        finally:
+            dataset.close()
+    if start is None:
+        return variables, dims, (None, None)
+    return variables, dims, (start.strftime("%Y-%m-%d"), end.strftime("%Y-%m-%d"))
 
 
 def _guess_dim(dims: list[str], kind: str) -> str | None:
-- 
2.43.0


From 6138c416eaf0b09c5be209ce5eaa8a3d3c4ef164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:47 +0000
Subject: [PATCH 126/136] fix: reach the given glacier extents on their own
 dates, in any order, and ignore debris outlines that are not asked for

---
 .../actions/action_land_cover_change.py           | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/actions/action_land_cover_change.py b/python/src/hydrobricks/actions/action_land_cover_change.py
index aa611e1..08d9ce3 100644
--- a/python/src/hydrobricks/actions/action_land_cover_change.py
+++ b/python/src/hydrobricks/actions/action_land_cover_change.py
@@ -326,9 +326,15 @@ class ActionLandCoverChange(Action):
                 reason="Mismatched array sizes",
             )
 
-        if not with_debris and debris_glaciers is None:
+        if not with_debris:
             debris_glaciers = [None] * len(times)
 
+        # The changes are worked out from one date to the next
+        order = sorted(range(len(times)), key=lambda i: pd.Timestamp(times[i]))
+        times = [times[i] for i in order]
+        full_glaciers = [full_glaciers[i] for i in order]
+        debris_glaciers = [debris_glaciers[i] for i in order]
+
         # Get the hydro units
         n_unit_ids = catchment.get_hydro_unit_count()
         hydro_units = catchment.hydro_units
@@ -623,10 +629,13 @@ class ActionLandCoverChange(Action):
         tuple[np.ndarray, pd.DatetimeIndex]
             A tuple containing:
             - Interpolated data array with yearly time steps
-            - DatetimeIndex of yearly dates from first to last time point
+            - DatetimeIndex of yearly dates from first to last time point, along with
+              the provided dates themselves
         """
         times_dt = pd.to_datetime(times)
-        times_full = pd.date_range(times_dt[0], times_dt[-1], freq="YS")
+        # The provided extents have to be reached, also when not on the 1st of January
+        times_yearly = pd.date_range(times_dt[0], times_dt[-1], freq="YS")
+        times_full = pd.DatetimeIndex(sorted({*times_dt, *times_yearly}))
 
         # Create an array with the interpolated values
         data_full = np.zeros((data.shape[0], len(times_full)))
-- 
2.43.0


From 85deaf188785ffd065ab70f16ccfddc1d95b7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:58 +0000
Subject: [PATCH 127/136] fix: take glaciers on every feature of the catchment
 outline

---
 .../hydrobricks/actions/action_land_cover_change.py   |  9 ++++-----
 python/src/hydrobricks/preprocessing/glacier_cover.py | 11 +++++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/python/src/hydrobricks/actions/action_land_cover_change.py b/python/src/hydrobricks/actions/action_land_cover_change.py
index 08d9ce3..9913621 100644
--- a/python/src/hydrobricks/actions/action_land_cover_change.py
+++ b/python/src/hydrobricks/actions/action_land_cover_change.py
@@ -460,16 +460,15 @@ class ActionLandCoverChange(Action):
         # Clip the glaciers to the catchment extent
         all_glaciers = gpd.read_file(glaciers_shapefile)
         all_glaciers.to_crs(catchment.crs, inplace=True)
-        if catchment.outline[0].geom_type == "MultiPolygon":
-            glaciers = gpd.clip(all_glaciers, catchment.outline[0])
-        elif catchment.outline[0].geom_type == "Polygon":
-            glaciers = gpd.clip(all_glaciers, MultiPolygon(catchment.outline))
-        else:
+        if any(
+            geom.geom_type not in ("Polygon", "MultiPolygon") for geom in catchment.outline
+        ):
             raise DataError(
                 "The catchment outline must be a (multi)polygon.",
                 data_type="catchment outline",
                 reason="Invalid geometry type",
             )
+        glaciers = gpd.clip(all_glaciers, unary_union(catchment.outline))
         glaciers = self._simplify_df_geometries(glaciers)
 
         # Compute the glaciated area of the catchment
diff --git a/python/src/hydrobricks/preprocessing/glacier_cover.py b/python/src/hydrobricks/preprocessing/glacier_cover.py
index 344e179..8a541f1 100644
--- a/python/src/hydrobricks/preprocessing/glacier_cover.py
+++ b/python/src/hydrobricks/preprocessing/glacier_cover.py
@@ -13,7 +13,7 @@ if TYPE_CHECKING:
     from hydrobricks.catchment import Catchment
 
 if HAS_SHAPELY:
-    from shapely.geometry import MultiPolygon
+    from shapely.ops import unary_union
 
 
 def extract_ice_thickness_and_mask(
@@ -84,16 +84,15 @@ def extract_glacier_mask_from_shapefile(
     # Clip the glaciers to the catchment extent
     all_glaciers = gpd.read_file(glacier_outline)
     all_glaciers.to_crs(catchment.crs, inplace=True)
-    if catchment.outline[0].geom_type == "MultiPolygon":
-        glaciers = gpd.clip(all_glaciers, catchment.outline[0])
-    elif catchment.outline[0].geom_type == "Polygon":
-        glaciers = gpd.clip(all_glaciers, MultiPolygon(catchment.outline))
-    else:
+    if any(
+        geom.geom_type not in ("Polygon", "MultiPolygon") for geom in catchment.outline
+    ):
         raise DataError(
             "The catchment outline must be a (multi)polygon.",
             data_type="catchment outline",
             reason="Invalid geometry type",
         )
+    glaciers = gpd.clip(all_glaciers, unary_union(catchment.outline))
     glaciers = _simplify_df_geometries(glaciers)
 
     # Get the glacier mask
-- 
2.43.0


From 7b985119afdd744faf693652b69f7f9f77547cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:58 +0000
Subject: [PATCH 128/136] fix: take glaciers at or below an elevation of zero

---
 .../actions/action_land_cover_change.py            | 14 +++++++++-----
 .../src/hydrobricks/preprocessing/glacier_cover.py |  9 ++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/python/src/hydrobricks/actions/action_land_cover_change.py b/python/src/hydrobricks/actions/action_land_cover_change.py
index 9913621..52ff2df 100644
--- a/python/src/hydrobricks/actions/action_land_cover_change.py
+++ b/python/src/hydrobricks/actions/action_land_cover_change.py
@@ -524,12 +524,16 @@ class ActionLandCoverChange(Action):
                 f"of {px_area} m²."
             )
 
-        # Get the glacier mask
-        glaciers_mask = catchment.mask_dem(glaciers, nodata=0, all_touched=all_touched)
+        # Get the glacier mask (an elevation may be 0)
+        glaciers_mask = ~np.isnan(
+            catchment.mask_dem(glaciers, nodata=np.nan, all_touched=all_touched)
+        )
         debris_mask = None
         if debris_shapefile is not None:
-            debris_mask = catchment.mask_dem(
-                glaciers_debris, nodata=0, all_touched=all_touched
+            debris_mask = ~np.isnan(
+                catchment.mask_dem(
+                    glaciers_debris, nodata=np.nan, all_touched=all_touched
+                )
             )
 
         unit_ids = catchment.hydro_units.hydro_units[("id", "-")].values
@@ -557,7 +561,7 @@ class ActionLandCoverChange(Action):
                 for i in range(catchment.dem.height):
                     for j in range(catchment.dem.width):
                         # Check if there is a glacier pixel
-                        if glaciers_mask[i, j] == 0:
+                        if not glaciers_mask[i, j]:
                             continue
 
                         # Check if the pixel value matches the target value
diff --git a/python/src/hydrobricks/preprocessing/glacier_cover.py b/python/src/hydrobricks/preprocessing/glacier_cover.py
index 8a541f1..f3f9ed5 100644
--- a/python/src/hydrobricks/preprocessing/glacier_cover.py
+++ b/python/src/hydrobricks/preprocessing/glacier_cover.py
@@ -53,7 +53,7 @@ def extract_ice_thickness_and_mask(
         resampling="average",
     )
     ice_thickness_data = catchment.attributes["ice_thickness"]["data"]
-    ice_thickness_data[catchment.dem_data == 0] = 0.0
+    ice_thickness_data[np.isnan(catchment.dem_data)] = 0.0
 
     glaciers_mask = np.zeros(catchment.dem_data.shape)
     glaciers_mask[ice_thickness_data > 0] = 1
@@ -78,8 +78,7 @@ def extract_glacier_mask_from_shapefile(
 
     Returns
     -------
-    A mask array over the DEM grid, holding the DEM elevation where a glacier is
-    present and ``-9999`` elsewhere.
+    A binary mask over the DEM grid (1 where a glacier is present, 0 elsewhere).
     """
     # Clip the glaciers to the catchment extent
     all_glaciers = gpd.read_file(glacier_outline)
@@ -96,9 +95,9 @@ def extract_glacier_mask_from_shapefile(
     glaciers = _simplify_df_geometries(glaciers)
 
     # Get the glacier mask
-    glaciers_mask = catchment.mask_dem(glaciers, -9999)
+    dem_masked = catchment.mask_dem(glaciers, np.nan)
 
-    return glaciers_mask
+    return np.where(np.isnan(dem_masked), 0.0, 1.0)
 
 
 def initialize_glacier_cover_from_extent(
-- 
2.43.0


From af4aea0bb617946617c67fd831c09c0e477edfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:44 +0000
Subject: [PATCH 129/136] fix: accept a change to no area in units without the
 land cover

---
 core/src/actions/ActionLandCoverChange.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/actions/ActionLandCoverChange.cpp b/core/src/actions/ActionLandCoverChange.cpp
index 46ff292..25b69a8 100644
--- a/core/src/actions/ActionLandCoverChange.cpp
+++ b/core/src/actions/ActionLandCoverChange.cpp
@@ -52,6 +52,12 @@ bool ActionLandCoverChange::Apply(double) {
 
 bool ActionLandCoverChange::ApplyChange(HydroUnit* unit, int index) {
     const string& landCoverName = _landCoverNames[_landCoverIds[index]];
+
+    // There is nothing to remove from a unit without the land cover.
+    if (_areas[index] == 0 && !unit->TryGetLandCover(landCoverName)) {
+        return true;
+    }
+
     double areaFraction = _areas[index] / unit->GetArea();
     areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[index], areaFraction, unit->GetArea(),
                                               _areas[index]);
-- 
2.43.0


From 573b0a2d050b8bf96629a7d501b5ad0b806966d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:44 +0000
Subject: [PATCH 130/136] fix: refuse to initialize unknown or generic land
 covers, and accept units covered up to rounding

---
 python/src/hydrobricks/hydro_units.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index 7695fb5..58c3e1c 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -7,7 +7,7 @@ from typing import ClassVar
 import numpy as np
 import pandas as pd
 
-from hydrobricks._exceptions import DataError, DependencyError
+from hydrobricks._exceptions import ConfigurationError, DataError, DependencyError
 from hydrobricks._hydrobricks import SettingsBasin
 from hydrobricks._optional import HAS_NETCDF, Dataset
 from hydrobricks._units import (
@@ -644,6 +644,19 @@ class HydroUnits:
         ValueError
             If computed land cover fraction is not in the range [0, 1].
         """
+        if (
+            land_cover_name not in self.land_cover_names
+            or land_cover_name == self.get_generic_cover_name()
+        ):
+            raise ConfigurationError(
+                f"The land cover '{land_cover_name}' cannot be initialized: it must be "
+                f"one of the land covers ({self.land_cover_names}), other than the "
+                f"generic one, which absorbs the residual area automatically.",
+                item_name="land_cover_name",
+                item_value=land_cover_name,
+                reason="Invalid land cover",
+            )
+
         # Land cover fraction column name
         field_name = self.FRACTION_PREFIX + land_cover_name
         open_name = self.FRACTION_PREFIX + self.get_generic_cover_name()
@@ -659,6 +672,8 @@ class HydroUnits:
 
             # Compute the land cover fraction
             fraction = land_cover_area / hu_area
+            if 1 < fraction <= 1 + 1e-8:
+                fraction = 1.0  # Areas of pixels or polygons add up with rounding
             if not 0 <= fraction <= 1:
                 raise DataError(
                     f"Land cover fraction {fraction} for unit {id} is outside [0, 1].",
-- 
2.43.0


From 28599a7fc76cf8fe56650fce3df80f5b41cabd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:36 +0000
Subject: [PATCH 131/136] fix: give the snow parameters of the GR models their
 published names

---
 python/src/hydrobricks/models/gr4j.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/python/src/hydrobricks/models/gr4j.py b/python/src/hydrobricks/models/gr4j.py
index 0d51cde..1342f02 100644
--- a/python/src/hydrobricks/models/gr4j.py
+++ b/python/src/hydrobricks/models/gr4j.py
@@ -253,36 +253,29 @@ class GR4J(Model):
             # Others were already defined in parameter specs.
         }
 
-        sp = f"{self._cover_name}_snowpack"
-        if self.options["snow_melt_process"] == "melt:cemaneige":
+        # The snow parameters are shared by all snowpacks ("type:snowpack"). The
+        # CemaNeige names (Kf, CTG, Tmelt, Cn) were already defined with the specs.
+        sp = "type:snowpack"
+        if self.options["snow_melt_process"] == "melt:degree_day":
             self.parameter_aliases.update(
                 {
                     f"{sp}:degree_day_factor": ["Kf"],
-                    f"{sp}:cold_content_factor": ["CTG"],
-                    f"{sp}:melting_temperature": ["Tmelt"],
-                    f"{sp}:mean_annual_snow": ["Cn"],
-                }
-            )
-        elif self.options["snow_melt_process"] == "melt:degree_day":
-            self.parameter_aliases.update(
-                {
-                    f"{sp}:degree_day_factor": ["a_snow", "Kf"],
                     f"{sp}:melting_temperature": ["Tmelt"],
                 }
             )
         elif self.options["snow_melt_process"] == "melt:degree_day_aspect":
             self.parameter_aliases.update(
                 {
-                    f"{sp}:degree_day_factor_n": ["a_snow_n", "kf_n"],
-                    f"{sp}:degree_day_factor_s": ["a_snow_s", "kf_s"],
-                    f"{sp}:degree_day_factor_ew": ["a_snow_ew", "kf_ew"],
+                    f"{sp}:degree_day_factor_n": ["kf_n"],
+                    f"{sp}:degree_day_factor_s": ["kf_s"],
+                    f"{sp}:degree_day_factor_ew": ["kf_ew"],
                     f"{sp}:melting_temperature": ["Tmelt"],
                 }
             )
         elif self.options["snow_melt_process"] == "melt:temperature_index":
             self.parameter_aliases.update(
                 {
-                    f"{sp}:melt_factor": ["a_snow", "Kf"],
+                    f"{sp},type:glacier:melt_factor": ["a_snow", "Kf"],
                     f"{sp}:melting_temperature": ["Tmelt"],
                 }
             )
-- 
2.43.0


From f9db16a4d7f9131326e25d2a3b11e3b35e7aee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:36 +0000
Subject: [PATCH 132/136] fix: define the snow/rain transition parameters when
 chosen with the CemaNeige melt

---
 python/src/hydrobricks/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index db90490..453481a 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -1962,7 +1962,9 @@ class ParameterSet:
                 return  # no snow configured at all
             if srp == "snow_rain:threshold":
                 transition_key = "transition:snow_rain:threshold"
-            elif srp == "snow_rain:cemaneige" or smp == "melt:cemaneige":
+            elif srp == "snow_rain:cemaneige" or (
+                srp is None and smp == "melt:cemaneige"
+            ):
                 transition_key = None  # no calibrated params — uses Tmin/Tmax forcings
             else:
                 transition_key = "transition:snow_rain:linear"
-- 
2.43.0


From 1a3a9310a69ad2bf46016abe6dfa5b12ef77d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:36 +0000
Subject: [PATCH 133/136] fix: do not define snow parameters for the lakes of
 HBV, which hold no snow

---
 python/src/hydrobricks/models/hbv.py   |  4 ++++
 python/src/hydrobricks/models/model.py | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/models/hbv.py b/python/src/hydrobricks/models/hbv.py
index feffca6..7339a98 100644
--- a/python/src/hydrobricks/models/hbv.py
+++ b/python/src/hydrobricks/models/hbv.py
@@ -390,6 +390,10 @@ class HBV(Model):
                 self._glacier_module.parameter_aliases(self._glacier_cover_names)
             )
 
+    def _get_snow_free_covers(self) -> list[str]:
+        """Return the lakes: their precipitation directly enters the open water."""
+        return list(self._lake_cover_names)
+
     def _define_parameter_constraints(self) -> None:
         """Define parameter constraints (none required for HBV)."""
         self.parameter_constraints = []
diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index b2bf313..7349764 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -724,8 +724,20 @@ class Model(ABC):
             A ParameterSet object with all model parameters defined.
         """
         ps = ParameterSet()
+        # The land covers that never hold snow are left out, as no snow parameter
+        # (nor glacier or canopy parameter) applies to them.
+        covers = [
+            (cover_type, cover_name)
+            for cover_type, cover_name in zip(
+                self.land_cover_types, self.land_cover_names
+            )
+            if cover_name not in self._get_snow_free_covers()
+        ]
         ps.generate_parameters(
-            self.land_cover_types, self.land_cover_names, self.options, self.structure
+            [cover_type for cover_type, _ in covers],
+            [cover_name for _, cover_name in covers],
+            self.options,
+            self.structure,
         )
 
         for alias_key, alias_value in self.parameter_aliases.items():
@@ -855,6 +867,10 @@ class Model(ABC):
             reason="Abstract method not implemented",
         )
 
+    def _get_snow_free_covers(self) -> list[str]:
+        """Return the land covers without a snowpack. Override if needed."""
+        return []
+
     def _define_parameter_transforms(self) -> None:
         """Define parameter transforms (real <-> transformed). Override if needed."""
         self.parameter_transforms = dict()
-- 
2.43.0


From 4d89fdd4bc5c28343927fe61950a14e817edcf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:51 +0000
Subject: [PATCH 134/136] fix: apply an action with several yearly dates on
 these dates only

---
 core/src/actions/Action.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 463c841..c66d7c4 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -40,15 +40,9 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
-            continue;
-        }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
-
+    // The months and days are stored pairwise.
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] == date.month && _recursiveDays[i] == date.day) {
             return Apply();
         }
     }
-- 
2.43.0


From 8f86600751b5ff30e61734fae0b944ebe9d82919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:53 +0000
Subject: [PATCH 135/136] fix: keep the ice defined in units listed without
 glacier area in the lookup tables

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 5 ++++-
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 3736c8d..b79654f 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -65,7 +65,10 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = 0.0;
+        if (!NearlyZero(areaRef, PRECISION)) {
+            iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        }
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 4d3e1be..48d0113 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -67,7 +67,10 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = 0.0;
+        if (!NearlyZero(areaRef, PRECISION)) {
+            iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        }
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From e66e4d0f3402312592467b17815b997ee3475148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:27 +0000
Subject: [PATCH 136/136] fix: count only the discharge in the total outlet
 discharge, not the bricks with outlet in their names

---
 core/src/base/Logger.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index 4bf6fb4..00a5763 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -220,7 +220,15 @@ double Logger::GetTotalHydroUnits(const string& item, bool needsAreaWeighting) c
 }
 
 double Logger::GetTotalOutletDischarge() const {
-    return GetTotalSubBasin("outlet");
+    // Only the discharge itself: the name of a brick or process may also contain "outlet".
+    double sum = 0;
+    for (int i = 0; i < _subBasinLabels.size(); ++i) {
+        if (_subBasinLabels[i] == "outlet") {
+            sum += _subBasinValues[i].sum();
+        }
+    }
+
+    return sum;
 }
 
 double Logger::GetTotalET() const {
-- 
2.43.0

