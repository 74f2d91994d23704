From 7829c74a5091d0521e954f7bc79aabaf926f8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 01/69] fix: count booked inputs once when constraining
 directly computed stores

The constraint of a directly computed brick added its forcing and static inputs on top of
content changes that already contain them, and counted instantaneous deposits of the previous
step. Refreezing, melt or sublimation could then take more than the store holds, and the
negative content was reset to zero, creating water.
---
 core/src/containers/WaterContainer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5599f4d..23ce5e9 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -1,7 +1,6 @@
 #include "WaterContainer.h"
 
 #include "Brick.h"
-#include "FluxToBrickInstantaneous.h"
 
 WaterContainer::WaterContainer(Brick* brick)
     : _content(0),
@@ -93,14 +92,19 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     // Get incoming change rates
     vecDoublePt incomingRates;
     double inputs = 0;
-    double inputsStatic = 0;
+    // The static changes already hold the instantaneous deposits of the current step. The forcing and
+    // static inputs of a brick computed directly are also already booked in its content changes, while
+    // those of a solved brick are only booked after the constraints.
+    double inputsStatic = _contentChangeStatic;
+    bool inputsAlreadyBooked = !_parent->NeedsSolver();
     for (auto& input : _inputs) {
         if (input->IsInstantaneous()) {
-            inputsStatic += dynamic_cast<FluxToBrickInstantaneous*>(input)->GetRealAmount();
             continue;
         }
         if (input->IsForcing() || input->IsStatic()) {
-            inputsStatic += input->GetAmount();
+            if (!inputsAlreadyBooked) {
+                inputsStatic += input->GetAmount();
+            }
             continue;
         }
         double* changeRate = input->GetChangeRatePointer();
-- 
2.43.0


From f5d7364631c14d73f2b909676b184ea90ab4ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 02/69] Add a guarded observation point for runtime monitors

---
 core/src/base/ModelHydro.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..65d4e72 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -7,6 +7,11 @@
 #include "Includes.h"
 #include "ModelBuilder.h"
 
+#ifdef HYDROBRICKS_MONITOR
+// Observation point for external runtime monitors (defined by the monitoring harness).
+void HydrobricksMonitorEvent(const char* event, ModelHydro* model);
+#endif
+
 ModelHydro::ModelHydro(SubBasin* subBasin)
     : _subBasin(subBasin) {
     _processor.SetModel(this);
@@ -120,6 +125,9 @@ ModelResult ModelHydro::Run() {
         }
         _logger.SetDate(_timer.GetDate());
         _logger.Record();
+#ifdef HYDROBRICKS_MONITOR
+        HydrobricksMonitorEvent("step", this);
+#endif
         _timer.IncrementTime();
         _logger.Increment();
         if (auto r = UpdateForcing(); !r) {
@@ -148,6 +156,9 @@ ModelResult ModelHydro::RunSpinup() {
             result = std::unexpected("Time step processing failed during spin-up.");
             break;
         }
+#ifdef HYDROBRICKS_MONITOR
+        HydrobricksMonitorEvent("spinup", this);
+#endif
         _timer.IncrementTime();
         if (auto r = UpdateForcing(); !r) {
             result = std::unexpected(std::format("Failed updating forcing during spin-up: {}", r.error()));
-- 
2.43.0


From 37241334992b032dc832328e8dbafb8688a021fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 03/69] fix: discard the former overflow rate when
 re-evaluating storage constraints

---
 core/src/containers/WaterContainer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 23ce5e9..547c30d 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -60,6 +60,12 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     // rate (e.g. ProcessOutflowSnowHolding). Here we clamp those rates so the content stays within
     // bounds (no negative content, and below the maximum capacity) over the timestep.
 
+    // The overflow is entirely defined by the constraints: discard its former value (from a previous sweep
+    // or solver stage), so that the excess is always evaluated without it.
+    if (HasOverflow() && _overflow->GetOutputFlux(0)->GetChangeRatePointer() != nullptr) {
+        *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) = 0;
+    }
+
     // Get outgoing change rates
     vecDoublePt outgoingRates;
     double outputs = 0;
-- 
2.43.0


From 43f0a9d8e7cdbe4df5790c4fb84f95d65c1979ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 04/69] fix: constrain sub-basin stores with the current inputs
 from solved bricks

---
 core/src/base/ModelBuilder.cpp         |  1 +
 core/src/containers/WaterContainer.cpp |  3 ++-
 core/src/fluxes/Flux.cpp               |  1 +
 core/src/fluxes/Flux.h                 | 31 ++++++++++++++++++++++++++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..d72486e 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -535,6 +535,7 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
                         flux->SetAsStatic();
+                        flux->SetFromSolver(brick->NeedsSolver());
                     } else if (output.isStatic) {
                         flux->SetAsStatic();
                     }
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 547c30d..5e7dc22 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -109,7 +109,8 @@ void WaterContainer::ApplyConstraints(double timeStep) {
         }
         if (input->IsForcing() || input->IsStatic()) {
             if (!inputsAlreadyBooked) {
-                inputsStatic += input->GetAmount();
+                // The amount of a flux from a solved brick still belongs to the former evaluation: use its rate.
+                inputsStatic += input->IsFromSolver() ? input->GetAmountFromChangeRate(timeStep) : input->GetAmount();
             }
             continue;
         }
diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index 9ed4502..bdf4448 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -6,6 +6,7 @@ Flux::Flux()
     : _amount(0),
       _changeRate(nullptr),
       _static(false),
+      _fromSolver(false),
       _needsWeighting(false),
       _fractionUnitArea(1.0),
       _fractionLandCover(1.0),
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index e6af389..4a3fe27 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -107,6 +107,36 @@ class Flux {
         return _static;
     }
 
+    /**
+     * Set the flux as originating from a brick integrated by the solver.
+     *
+     * @param value true if the originating brick is integrated by the solver.
+     */
+    void SetFromSolver(bool value) {
+        _fromSolver = value;
+    }
+
+    /**
+     * Check if the flux originates from a brick integrated by the solver. The amount of such a flux is only known
+     * after the rates of the current step have been applied.
+     *
+     * @return true if the originating brick is integrated by the solver.
+     */
+    [[nodiscard]] bool IsFromSolver() const {
+        return _fromSolver;
+    }
+
+    /**
+     * Get the amount resulting from the linked change rate over the time step (accounting for the area fractions).
+     *
+     * @param timeStepInDays time step [d].
+     * @return the amount resulting from the linked change rate.
+     */
+    [[nodiscard]] double GetAmountFromChangeRate(double timeStepInDays) const {
+        double amount = _changeRate ? std::max(*_changeRate, 0.0) * timeStepInDays : 0.0;
+        return _fractionTotal < 1.0 ? amount * _fractionTotal : amount;
+    }
+
     /**
      * Check if the flux needs weighting.
      *
@@ -192,6 +222,7 @@ class Flux {
     double _amount{};
     double* _changeRate{};  // non-owning reference
     bool _static{};
+    bool _fromSolver{};
     bool _needsWeighting{};
     double _fractionUnitArea{1.0};
     double _fractionLandCover{1.0};
-- 
2.43.0


From da8f58b5295a5b2b572ebceba36e9edc85566426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 05/69] fix: account for the inputs from directly computed
 bricks in the storage constraints

---
 core/src/base/ModelBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index d72486e..2cd8c11 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -536,7 +536,8 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
                         flux->SetAsStatic();
                         flux->SetFromSolver(brick->NeedsSolver());
-                    } else if (output.isStatic) {
+                    } else if (output.isStatic || (!brick->NeedsSolver() && targetBrick->NeedsSolver())) {
+                        // The amount handed over by a brick computed directly is fixed before the solver runs.
                         flux->SetAsStatic();
                     }
 
-- 
2.43.0


From e045e9ba2b09cf28a585b4c05f1f996fd06018fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 06/69] fix: book the GR4J groundwater exchange once per step
 whatever the solver

---
 core/src/processes/ProcessRoutingGR4J.cpp | 15 ++++++++++-----
 core/src/processes/ProcessRoutingGR4J.h   |  3 +++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index d6ad324..c7ca34f 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -14,7 +14,8 @@ ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
       _r(0.0),
       _qr(0.0),
       _qd(0.0),
-      _processStorage(0.0) {}
+      _processStorage(0.0),
+      _bookedExchange(0.0) {}
 
 void ProcessRoutingGR4J::RegisterProcessSettings(SettingsModel* modelSettings) {
     modelSettings->AddProcessParameter("exchange_factor", 0.0f);
@@ -42,6 +43,7 @@ void ProcessRoutingGR4J::Reset() {
     _qr = 0.0;
     _qd = 0.0;
     _processStorage = 0.0;
+    _bookedExchange = 0.0;
 }
 
 double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
@@ -114,13 +116,15 @@ const vecDouble& ProcessRoutingGR4J::GetRates() {
     // water never entered through the inflow PR. Inject the net exchange into the container so
     // the discharge it produces (positive X2) is backed by real water and is not capped by the
     // container's non-negativity constraint. The clamped contributions match the committed state
-    // computed in Finalize. Evaluated once per step (the brick is computed directly).
+    // computed in Finalize. A solver evaluates the rates several times per step: only book the
+    // difference with the exchange already booked for this step.
     if (_timeMachine != nullptr) {
         double exchangeToStore = r_pred - (_r + uh1_out);  // F applied to the routing store (clamped)
         double exchangeToDirect = _qd - uh2_out;           // F applied to the direct branch (clamped)
-        double netExchange = exchangeToStore + exchangeToDirect;
-        if (netExchange != 0.0) {
-            _container->AddAmountToStaticContentChange(netExchange * (*_timeMachine->GetTimeStepPointer()));
+        double exchange = (exchangeToStore + exchangeToDirect) * (*_timeMachine->GetTimeStepPointer());
+        if (exchange != _bookedExchange) {
+            _container->AddAmountToStaticContentChange(exchange - _bookedExchange);
+            _bookedExchange = exchange;
         }
     }
 
@@ -131,6 +135,7 @@ void ProcessRoutingGR4J::Finalize() {
     // Advance UH buffers and commit routing store update exactly once per timestep.
     // Called after all ApplyProcesses() have run, so SumIncomingFluxes() returns
     // the final, committed inflow for this timestep.
+    _bookedExchange = 0.0;
     if (_uhBaseTime == nullptr || _routingCapacity == nullptr || _exchangeFactor == nullptr) {
         return;
     }
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 0e7f1f6..1c83289 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -77,6 +77,9 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // Net groundwater exchange already booked in the container during the current timestep [mm]
+    double _bookedExchange;
+
     /**
      * @copydoc Process::GetRates()
      *
-- 
2.43.0


From b184cf57538be6bf287b2106f2c961ebd6fa2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 07/69] fix: leave the delivered water out of the GR4J and GR6J
 internal storage

---
 core/src/processes/ProcessRoutingGR4J.cpp | 5 +++--
 core/src/processes/ProcessRoutingGR6J.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index c7ca34f..04e0951 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -175,8 +175,9 @@ void ProcessRoutingGR4J::Finalize() {
     _r -= _qr;
     _qd = std::max(0.0, _stuh2[0] + F);
 
-    _processStorage = _r + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first slot of the buffers has just been delivered: only the next ones still hold water.
+    _processStorage = _r + std::accumulate(_stuh1.begin() + 1, _stuh1.end(), 0.0) +
+                      std::accumulate(_stuh2.begin() + 1, _stuh2.end(), 0.0);
 }
 
 void ProcessRoutingGR4J::_recomputeUH() {
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index fc8094e..b119ec3 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -213,8 +213,9 @@ void ProcessRoutingGR6J::Finalize() {
     // Direct branch.
     _qd = std::max(0.0, uh2_out + F);
 
-    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first slot of the buffers has just been delivered: only the next ones still hold water.
+    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin() + 1, _stuh1.end(), 0.0) +
+                      std::accumulate(_stuh2.begin() + 1, _stuh2.end(), 0.0);
 }
 
 void ProcessRoutingGR6J::_recomputeUH() {
-- 
2.43.0


From bbbb77e188ded6531307c24de4095b5a157209fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 08/69] fix: let an empty store release the inputs of the step
 when it is constrained

---
 core/src/containers/WaterContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5e7dc22..c40dec9 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -145,7 +145,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
             if (NearlyZero(*rate, EPSILON_D)) {
                 continue;
             }
-            if (NearlyEqual(diff, change, PRECISION)) {
+            if (NearlyZero(inputs, PRECISION) && NearlyEqual(diff, change, PRECISION)) {
                 *rate = 0;
                 continue;
             }
-- 
2.43.0


From fbafbbc16723cde25319af8da35e82e9a857d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 09/69] fix: position the forcing cursor at the date for
 sub-daily and multi-day time steps

---
 core/src/base/TimeSeriesData.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..0ca57c4 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -1,5 +1,7 @@
 #include "TimeSeriesData.h"
 
+#include <algorithm>
+#include <cmath>
 #include <utility>
 
 /*
@@ -39,7 +41,7 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    if (values.empty() || !NearlyEqual(calcEnd, _end)) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
@@ -50,7 +52,10 @@ bool TimeSeriesDataRegular::SetValues(vecDouble values) {
 }
 
 double TimeSeriesDataRegular::GetValueFor(double date) {
-    SetCursorToDate(date);
+    if (!SetCursorToDate(date)) {
+        throw InputError("No time series value for the desired date.");
+    }
+    assert(_values.size() > _cursor);
     return _values[_cursor];
 }
 
@@ -67,27 +72,24 @@ double TimeSeriesDataRegular::GetSum() {
 }
 
 bool TimeSeriesDataRegular::SetCursorToDate(double date) {
-    if (date < _start) {
+    if (LessThan(date, _start)) {
         LogError("The desired date is before the data starting date.");
         return false;
     }
-    if (date > _end) {
+    if (GreaterThan(date, _end)) {
         LogError("The desired date is after the data ending date.");
         return false;
     }
 
-    double dt = date - _start;
-
     switch (_timeStepUnit) {
         case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
-            break;
         case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
-            break;
-        case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
+        case TimeUnit::Minute: {
+            // The tolerance absorbs the rounding of the sub-daily dates.
+            double timeStepInDays = IncrementDateBy(0, _timeStep, _timeStepUnit);
+            _cursor = std::max(0, static_cast<int>(std::floor((date - _start + PRECISION) / timeStepInDays)));
             break;
+        }
         default:
             throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
                                              static_cast<int>(_timeStepUnit)));
-- 
2.43.0


From b6a56a6132a2eac6cf83ae825af313b92ee25490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 10/69] fix: simulate every date of sub-daily periods without
 accumulating rounding errors

---
 core/src/base/ModelHydro.cpp  |  3 +--
 core/src/base/TimeMachine.cpp | 19 ++++++++++++++++---
 core/src/base/TimeMachine.h   |  9 +++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 65d4e72..8c5fbb6 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -53,8 +53,7 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
 
         // Convert the spin-up duration into time steps; a spin-up longer than the
         // modelling period degrades to replaying the whole period once.
-        double timeStepInDays = *_timer.GetTimeStepPointer();
-        _spinupSteps = static_cast<int>(modelSettings.GetTimerSettings().spinupDays / timeStepInDays);
+        _spinupSteps = _timer.GetTimeStepCountIn(modelSettings.GetTimerSettings().spinupDays);
         _spinupSteps = std::min(_spinupSteps, _timer.GetTimeStepCount());
 
         _processor.Initialize(modelSettings.GetSolverSettings());
diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..9ed74cb 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,7 +1,10 @@
 #include "TimeMachine.h"
 
+#include <cmath>
+
 TimeMachine::TimeMachine()
     : _date(0),
+      _stepIndex(0),
       _start(0),
       _end(0),
       _timeStep(0),
@@ -12,6 +15,7 @@ TimeMachine::TimeMachine()
 
 void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit timeStepUnit) {
     _date = start;
+    _stepIndex = 0;
     _start = start;
     _end = end;
     _timeStep = timeStep;
@@ -23,6 +27,7 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
     _start = ParseDate(settings.start, guess);
     _end = ParseDate(settings.end, guess);
     _date = _start;
+    _stepIndex = 0;
     _timeStep = settings.timeStep;
 
     if (settings.timeStepUnit == "day") {
@@ -40,15 +45,18 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
 
 void TimeMachine::Reset() {
     _date = _start;
+    _stepIndex = 0;
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return GreaterThan(_date, _end);
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+    // Computed from the start to not accumulate the rounding errors of sub-daily time steps.
+    ++_stepIndex;
+    _date = IncrementDateBy(_start, _timeStep * _stepIndex, _timeStepUnit);
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +68,12 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    return GetTimeStepCountIn(_end - _start) + 1;
+}
+
+int TimeMachine::GetTimeStepCountIn(double days) const {
+    assert(_timeStepInDays > 0);
+    return static_cast<int>(std::floor((days + PRECISION) / _timeStepInDays));
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
diff --git a/core/src/base/TimeMachine.h b/core/src/base/TimeMachine.h
index 3673196..357ed56 100644
--- a/core/src/base/TimeMachine.h
+++ b/core/src/base/TimeMachine.h
@@ -53,6 +53,14 @@ class TimeMachine {
      */
     [[nodiscard]] int GetTimeStepCount() const;
 
+    /**
+     * Get the number of full time steps contained in a duration.
+     *
+     * @param days duration in days
+     * @return number of time steps
+     */
+    [[nodiscard]] int GetTimeStepCountIn(double days) const;
+
     /**
      * Get the current date as a MJD.
      *
@@ -132,6 +140,7 @@ class TimeMachine {
 
   private:
     double _date;
+    int _stepIndex;
     double _start;
     double _end;
     int _timeStep;
-- 
2.43.0


From e7538b5b13df2adf1250a818f93c46026e948711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 11/69] fix: keep the time properties of sub-daily forcing and
 refuse irregular dates

---
 core/src/base/TimeSeries.cpp | 82 ++++++++++++++++++++++++------------
 core/src/base/TimeSeries.h   | 12 ++++++
 2 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index c5bf0ee..e14ed77 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -1,5 +1,7 @@
 #include "TimeSeries.h"
 
+#include <cmath>
+
 #include "FileNetcdf.h"
 #include "TimeSeriesDistributed.h"
 #include "TimeSeriesUniform.h"
@@ -22,17 +24,11 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         int timeLength = file.GetDimLen("time");
 
         // Get time
-        vecFloat time = file.GetVarFloat1D("time", timeLength);
-        Time startSt = GetTimeStructFromMJD(time[0]);
-        Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-        double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
-        double end = GetMJD(endSt.year, endSt.month, endSt.day, endSt.hour, endSt.min);
-
-        // Time step
+        vecDouble time = file.GetVarDouble1D("time", timeLength);
+        double start, end;
         int timeStep;
         TimeUnit timeUnit;
-        double timeStepData = time[1] - time[0];
-        ExtractTimeStep(timeStepData, timeStep, timeUnit);
+        ExtractTimeProperties(time, start, end, timeStep, timeUnit);
 
         // Get ids
         vecInt ids = file.GetVarInt1D("id", unitCount);
@@ -64,7 +60,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()));
+                    if (!forcingData->SetValues(vecDouble(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()))) {
+                        throw InputError("The time series do not match the time properties.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             } else {
@@ -73,7 +71,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                     // A column of a column-major array is contiguous, so copy it straight into the vector.
                     const double* colStart = values.col(i).data();
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vecDouble(colStart, colStart + values.rows()));
+                    if (!forcingData->SetValues(vecDouble(colStart, colStart + values.rows()))) {
+                        throw InputError("The time series do not match the time properties.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             }
@@ -92,16 +92,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd& time, const axi& ids,
                                                const axxd& data) {
     // Get time
-    Time startSt = GetTimeStructFromMJD(time[0]);
-    Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-    double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
-    double end = GetMJD(endSt.year, endSt.month, endSt.day, endSt.hour, endSt.min);
-
-    // Time step
+    double start, end;
     int timeStep;
     TimeUnit timeUnit;
-    double timeStepData = time[1] - time[0];
-    ExtractTimeStep(timeStepData, timeStep, timeUnit);
+    ExtractTimeProperties(vecDouble(time.data(), time.data() + time.size()), start, end, timeStep, timeUnit);
 
     // Get forcing type
     VariableType varType = MatchVariableType(varName);
@@ -156,18 +150,50 @@ VariableType TimeSeries::MatchVariableType(const string& varName) {
     return varType;
 }
 
+void TimeSeries::ExtractTimeProperties(const vecDouble& time, double& start, double& end, int& timeStep,
+                                       TimeUnit& timeUnit) {
+    if (time.size() < 2) {
+        throw InputError("The time series must contain at least two dates.");
+    }
+    if (!(time.front() >= 0 && time.back() < 1e7)) {
+        throw InputError("The dates of the time series are not valid.");
+    }
+
+    ExtractTimeStep(time[1] - time[0], timeStep, timeUnit);
+
+    // Round the dates to the second
+    auto roundDate = [](double date) {
+        Time st = GetTimeStructFromMJD(date);
+        return GetMJD(st.year, st.month, st.day, st.hour, st.min, st.sec);
+    };
+    start = roundDate(time.front());
+    end = roundDate(time.back());
+
+    // The values are stored by position: the dates must be regularly spaced.
+    double halfStep = 0.5 * IncrementDateBy(0, timeStep, timeUnit);
+    for (size_t i = 0; i < time.size(); ++i) {
+        double expected = start + static_cast<double>(i) * 2 * halfStep;
+        if (!(std::fabs(time[i] - expected) < halfStep)) {
+            throw InputError("The dates of the time series are not regularly spaced.");
+        }
+    }
+}
+
 void TimeSeries::ExtractTimeStep(double timeStepData, int& timeStep, TimeUnit& timeUnit) {
-    timeStep = 0;
-    timeUnit = TimeUnit::Day;
-    if (timeStepData == 1.0) {
-        timeStep = 1;
-    } else if (timeStepData > 1.0) {
-        timeStep = static_cast<int>(round(timeStepData));
-    } else if (timeStepData < 1.0) {
+    double roundedMinutes = std::round(timeStepData * 1440);
+    if (!(roundedMinutes >= 1 && roundedMinutes <= 1e8)) {
+        throw InputError(std::format("Invalid time step in the time series: {} days.", timeStepData));
+    }
+    int minutes = static_cast<int>(roundedMinutes);
+    if (minutes % 1440 == 0) {
+        timeUnit = TimeUnit::Day;
+        timeStep = minutes / 1440;
+    } else if (minutes % 60 == 0) {
         timeUnit = TimeUnit::Hour;
-        timeStep = static_cast<int>(round(timeStepData * 24));
+        timeStep = minutes / 60;
     } else {
-        throw ShouldNotHappen(std::format("TimeSeries::ExtractTimeStep - Invalid time step value: {}", timeStepData));
+        timeUnit = TimeUnit::Minute;
+        timeStep = minutes;
     }
 }
 
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index a5c7384..11ab965 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -114,6 +114,18 @@ class TimeSeries {
     VariableType _type;
 
   private:
+    /**
+     * Extract the time properties from the provided (regularly spaced) dates.
+     *
+     * @param time dates of the time series.
+     * @param start reference to store the start date.
+     * @param end reference to store the end date.
+     * @param timeStep reference to store the extracted time step.
+     * @param timeUnit reference to store the extracted time unit.
+     */
+    static void ExtractTimeProperties(const vecDouble& time, double& start, double& end, int& timeStep,
+                                      TimeUnit& timeUnit);
+
     /**
      * Extract the time step and time unit from the provided time step data.
      *
-- 
2.43.0


From adaf5f1ddc8f8586fb75cfcff89488b6d2aabc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 12/69] fix: refuse forcing whose time step differs from the
 time step of the model

---
 core/src/base/ModelHydro.cpp            | 10 ++++++++--
 core/src/base/TimeSeries.h              |  7 +++++++
 core/src/base/TimeSeriesData.cpp        |  4 ++++
 core/src/base/TimeSeriesData.h          | 14 ++++++++++++++
 core/src/base/TimeSeriesDistributed.cpp |  5 +++++
 core/src/base/TimeSeriesDistributed.h   |  5 +++++
 core/src/base/TimeSeriesUniform.cpp     |  5 +++++
 core/src/base/TimeSeriesUniform.h       |  5 +++++
 8 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 8c5fbb6..6cf2515 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -286,12 +286,18 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         }
     }
 
-    if (timeSeries->GetStart() > _timer.GetStart()) {
+    double dataTimeStep = timeSeries->GetTimeStepInDays();
+    if (dataTimeStep > 0 && !NearlyEqual(dataTimeStep, *_timer.GetTimeStepPointer())) {
+        LogError("The time step of the data does not match the time step of the model.");
+        return false;
+    }
+
+    if (GreaterThan(timeSeries->GetStart(), _timer.GetStart())) {
         LogError("The data starts after the beginning of the modelling period.");
         return false;
     }
 
-    if (timeSeries->GetEnd() < _timer.GetEnd()) {
+    if (LessThan(timeSeries->GetEnd(), _timer.GetEnd())) {
         LogError("The data ends before the end of the modelling period.");
         return false;
     }
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index 11ab965..519706a 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -69,6 +69,13 @@ class TimeSeries {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series.
+     *
+     * @return the time step in days (0 if there is no constant time step).
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const = 0;
+
     /**
      * Get the sum of the time series data for the provided basin settings.
      *
diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 0ca57c4..e462ed2 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -116,6 +116,10 @@ double TimeSeriesDataRegular::GetEnd() const {
     return _end;
 }
 
+double TimeSeriesDataRegular::GetTimeStepInDays() const {
+    return IncrementDateBy(0, _timeStep, _timeStepUnit);
+}
+
 bool TimeSeriesDataRegular::IsValid() const {
     // Check that values have been set
     if (_values.empty()) {
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index a33cafe..f160fd1 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -68,6 +68,15 @@ class TimeSeriesData {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series data.
+     *
+     * @return the time step in days (0 if there is no constant time step).
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const {
+        return 0;
+    }
+
     /**
      * Check if the time series data is valid.
      * Verifies that the data has values and date range is set correctly.
@@ -135,6 +144,11 @@ class TimeSeriesDataRegular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::GetTimeStepInDays()
+     */
+    double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index a3c3bd9..af58464 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -41,6 +41,11 @@ double TimeSeriesDistributed::GetEnd() const {
     return _data[0]->GetEnd();
 }
 
+double TimeSeriesDistributed::GetTimeStepInDays() const {
+    assert(!_data.empty());
+    return _data[0]->GetTimeStepInDays();
+}
+
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
     double total = 0;
     double areaTotal = basinSettings->GetTotalArea();
diff --git a/core/src/base/TimeSeriesDistributed.h b/core/src/base/TimeSeriesDistributed.h
index b457871..040527c 100644
--- a/core/src/base/TimeSeriesDistributed.h
+++ b/core/src/base/TimeSeriesDistributed.h
@@ -47,6 +47,11 @@ class TimeSeriesDistributed : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
diff --git a/core/src/base/TimeSeriesUniform.cpp b/core/src/base/TimeSeriesUniform.cpp
index a4b884c..5f8f220 100644
--- a/core/src/base/TimeSeriesUniform.cpp
+++ b/core/src/base/TimeSeriesUniform.cpp
@@ -34,6 +34,11 @@ double TimeSeriesUniform::GetEnd() const {
     return _data->GetEnd();
 }
 
+double TimeSeriesUniform::GetTimeStepInDays() const {
+    assert(_data);
+    return _data->GetTimeStepInDays();
+}
+
 double TimeSeriesUniform::GetTotal(const SettingsBasin*) {
     throw NotImplemented("TimeSeriesUniform::GetTotal - Not yet implemented");
 }
diff --git a/core/src/base/TimeSeriesUniform.h b/core/src/base/TimeSeriesUniform.h
index 8126e99..61eed61 100644
--- a/core/src/base/TimeSeriesUniform.h
+++ b/core/src/base/TimeSeriesUniform.h
@@ -49,6 +49,11 @@ class TimeSeriesUniform : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
-- 
2.43.0


From 82ce5f5144e9cc32d8d41aa6a3ea6c74e892f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 13/69] fix: refuse to run a model with missing forcing data

---
 core/src/base/Forcing.cpp      |  4 ++++
 core/src/base/Forcing.h        |  5 +++++
 core/src/base/ModelHydro.cpp   | 15 +++++++++++++++
 core/src/spatial/HydroUnit.cpp | 14 ++++++++++++++
 core/src/spatial/HydroUnit.h   | 12 ++++++++++++
 5 files changed, 50 insertions(+)

diff --git a/core/src/base/Forcing.cpp b/core/src/base/Forcing.cpp
index b5a7f85..ab74b4d 100644
--- a/core/src/base/Forcing.cpp
+++ b/core/src/base/Forcing.cpp
@@ -9,6 +9,10 @@ void Forcing::AttachTimeSeriesData(TimeSeriesData* timeSeriesData) {
     _timeSeriesData = timeSeriesData;
 }
 
+void Forcing::DetachTimeSeriesData() {
+    _timeSeriesData = nullptr;
+}
+
 double Forcing::GetValue() const {
     assert(_timeSeriesData);
     if (_hasUpdatedValue) return _updatedValue;
diff --git a/core/src/base/Forcing.h b/core/src/base/Forcing.h
index 9c0fa6c..65024eb 100644
--- a/core/src/base/Forcing.h
+++ b/core/src/base/Forcing.h
@@ -17,6 +17,11 @@ class Forcing {
      */
     void AttachTimeSeriesData(TimeSeriesData* timeSeriesData);
 
+    /**
+     * Detach the time series data.
+     */
+    void DetachTimeSeriesData();
+
     /**
      * Get the type of the forcing.
      *
diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 6cf2515..e47bbc1 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -102,6 +102,16 @@ bool ModelHydro::ForcingLoaded() const {
 }
 
 ModelResult ModelHydro::Run() {
+    if (!_subBasin) {
+        return std::unexpected("The model has not been initialized.");
+    }
+    for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+        if (!_subBasin->GetHydroUnit(iUnit)->ForcingsAreValid()) {
+            return std::unexpected(std::format("Missing forcing data for the hydro unit {}.",
+                                               _subBasin->GetHydroUnit(iUnit)->GetId()));
+        }
+    }
+
     if (auto r = InitializeTimeSeries(); !r) {
         return r;
     }
@@ -334,6 +344,11 @@ bool ModelHydro::CreateTimeSeries(const string& varName, const axd& time, const
 }
 
 void ModelHydro::ClearTimeSeries() {
+    if (_subBasin) {
+        for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+            _subBasin->GetHydroUnit(iUnit)->DetachForcingData();
+        }
+    }
     _timeSeries.clear();  // Automatic cleanup via unique_ptr
 }
 
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..3c6067b 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -187,6 +187,20 @@ void HydroUnit::AddForcing(std::unique_ptr<Forcing> forcing) {
     _forcing.push_back(std::move(forcing));
 }
 
+bool HydroUnit::ForcingsAreValid() const {
+    for (const auto& forcing : _forcing) {
+        if (!forcing->IsValid()) return false;
+    }
+
+    return true;
+}
+
+void HydroUnit::DetachForcingData() {
+    for (const auto& forcing : _forcing) {
+        forcing->DetachTimeSeriesData();
+    }
+}
+
 void HydroUnit::ResetForcingUpdates() {
     for (const auto& forcing : _forcing) {
         forcing->ResetUpdate();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index aa6b8b0..565879b 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -115,6 +115,18 @@ class HydroUnit {
      */
     [[nodiscard]] Forcing* GetForcing(VariableType type) const;
 
+    /**
+     * Check if data are attached to all the forcings of the hydro unit.
+     *
+     * @return True if all forcings have valid data, false otherwise.
+     */
+    [[nodiscard]] bool ForcingsAreValid() const;
+
+    /**
+     * Detach the data from all the forcings of the hydro unit.
+     */
+    void DetachForcingData();
+
     /**
      * Reset all dynamic forcing overrides set during the current timestep.
      */
-- 
2.43.0


From 1627eec2a8a1961cf1773fbd4af73510823fbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 14/69] fix: commit the snow redistributed to an already
 processed unit within the step

---
 core/src/base/Processor.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..4488c81 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -2,6 +2,7 @@
 
 #include "FluxToBrick.h"
 #include "ModelHydro.h"
+#include "Snowpack.h"
 #include "SubBasin.h"
 
 Processor::Processor()
@@ -263,6 +264,19 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
         }
     }
 
+    // The snow redistributed to a unit that was processed before its giver is still pending in the
+    // (already finalized) snowpack of the receiver: commit it within the same time step.
+    for (int iUnit = 0; iUnit < hydroUnitCount; ++iUnit) {
+        HydroUnit* unit = basin->GetHydroUnit(iUnit);
+        int brickCount = unit->GetBrickCount();
+        for (int iBrick = 0; iBrick < brickCount; ++iBrick) {
+            auto snowpack = dynamic_cast<Snowpack*>(unit->GetBrick(iBrick));
+            if (snowpack && !snowpack->IsNull()) {
+                snowpack->GetSnowContainer()->Finalize();
+            }
+        }
+    }
+
     // Process the bricks that need a solver
     if (!_solver->Solve(timeStepInDays)) {
         return false;
-- 
2.43.0


From 48a168b7eaee03c1d8b4faafae6c6988b647c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 15/69] fix: recompute the GR unit hydrographs whenever the
 base time changes

The ordinates were only recomputed when the number of ordinates changed (and
GR4J compared it with one too many), so a base time changed between runs kept
the old shape.
---
 core/src/processes/ProcessRoutingGR4J.cpp | 5 +++--
 core/src/processes/ProcessRoutingGR4J.h   | 1 +
 core/src/processes/ProcessRoutingGR6J.cpp | 6 +++---
 core/src/processes/ProcessRoutingGR6J.h   | 1 +
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 04e0951..4558bdd 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -11,6 +11,7 @@ ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
       _exchangeFactor(nullptr),
       _routingCapacity(nullptr),
       _uhBaseTime(nullptr),
+      _lastUhBaseTime(0.0f),
       _r(0.0),
       _qr(0.0),
       _qd(0.0),
@@ -75,8 +76,7 @@ const vecDouble& ProcessRoutingGR4J::GetRates() {
     double X3 = *_routingCapacity;
 
     // Recompute UH ordinates if X4 changed (calibration loop)
-    double currentX4 = *_uhBaseTime;
-    if (static_cast<int>(std::ceil(currentX4)) + 1 != static_cast<int>(_uh1Ord.size())) {
+    if (*_uhBaseTime != _lastUhBaseTime) {
         _recomputeUH();
     }
 
@@ -185,6 +185,7 @@ void ProcessRoutingGR4J::_recomputeUH() {
         return;
     }
 
+    _lastUhBaseTime = *_uhBaseTime;
     double X4 = *_uhBaseTime;
     if (X4 <= 0) {
         X4 = 0.5;
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 1c83289..00df039 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -58,6 +58,7 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     const float* _exchangeFactor;   // X2 [mm/d]
     const float* _routingCapacity;  // X3 [mm]
     const float* _uhBaseTime;       // X4 [d]
+    float _lastUhBaseTime;          // X4 of the current ordinates [d]
 
     // Unit-hydrograph convolution buffers (length changes with X4)
     vecDouble _stuh1;
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index b119ec3..f3fc7be 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -16,6 +16,7 @@ ProcessRoutingGR6J::ProcessRoutingGR6J(WaterContainer* container)
       _uhBaseTime(nullptr),
       _exchangeThreshold(nullptr),
       _expStoreCoeff(nullptr),
+      _lastUhBaseTime(0.0f),
       _r(0.0),
       _rexp(0.0),
       _qr(0.0),
@@ -107,9 +108,7 @@ const vecDouble& ProcessRoutingGR6J::GetRates() {
     double X6 = *_expStoreCoeff;
 
     // Recompute UH ordinates if X4 changed (calibration loop)
-    double currentX4 = *_uhBaseTime;
-    double clampedX4 = currentX4 <= 0.0 ? 0.5 : currentX4;
-    if (static_cast<int>(std::ceil(clampedX4)) != static_cast<int>(_uh1Ord.size())) {
+    if (*_uhBaseTime != _lastUhBaseTime) {
         _recomputeUH();
     }
 
@@ -223,6 +222,7 @@ void ProcessRoutingGR6J::_recomputeUH() {
         return;
     }
 
+    _lastUhBaseTime = *_uhBaseTime;
     gr_uh::ComputeOrdinates(*_uhBaseTime, _uh1Ord, _uh2Ord);
 
     // Resize buffers to match the ordinate lengths, preserving existing state.
diff --git a/core/src/processes/ProcessRoutingGR6J.h b/core/src/processes/ProcessRoutingGR6J.h
index 27408cd..d8cd752 100644
--- a/core/src/processes/ProcessRoutingGR6J.h
+++ b/core/src/processes/ProcessRoutingGR6J.h
@@ -73,6 +73,7 @@ class ProcessRoutingGR6J : public ProcessOutflow {
     const float* _uhBaseTime;         // X4 [d]
     const float* _exchangeThreshold;  // X5 [-]
     const float* _expStoreCoeff;      // X6 [mm]
+    float _lastUhBaseTime;            // X4 of the current ordinates [d]
 
     // Unit-hydrograph convolution buffers (length changes with X4)
     vecDouble _stuh1;
-- 
2.43.0


From e68e9aa7fdfe6a0f0654af5a6901fef9c9d16683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 16/69] fix: the HBV routing measures its delivery in the depth
 of its unit

The delivered amount read from the flux is weighted by the share of the unit in
the basin, so the delivery schedule was distorted with more than one unit.
---
 core/src/fluxes/Flux.h                   | 9 +++++++++
 core/src/processes/ProcessRoutingHBV.cpp | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index 4a3fe27..f8392df 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -182,6 +182,15 @@ class Flux {
         _fractionTotal = _fractionUnitArea * _fractionLandCover;
     }
 
+    /**
+     * Get the total fraction applied to the amounts of the flux (hydro unit area and land cover).
+     *
+     * @return the fraction applied to the amounts.
+     */
+    [[nodiscard]] double GetFractionTotal() const {
+        return _fractionTotal;
+    }
+
     /**
      * Get the flux type.
      *
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index be457f4..4d19ae8 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -85,7 +85,13 @@ void ProcessRoutingHBV::Finalize() {
     // Water actually delivered to the outlet and actually received this timestep. The
     // applied rate can deviate from the scheduled delivery (solver stage averaging,
     // rate constraints), so both are measured on the committed amounts.
+    // The amount of the flux is expressed in the depth of its target (weighted by the
+    // share of the unit in the basin), while the schedule is in the depth of the unit.
+    double fraction = _outputs[0]->GetFractionTotal();
     double delivered = *_outputs[0]->GetAmountPointer();
+    if (fraction > 0 && fraction < 1) {
+        delivered /= fraction;
+    }
     double content = _container->GetContentWithoutChanges();
     double inflow = content - _previousContent + delivered;
     _previousContent = content;
-- 
2.43.0


From 9703ed733a89b973f76301bc81106cd9a7b19090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 17/69] fix: the solver-based GR4J routing delivers what it
 commits from an empty store

The rates were zero while the container was empty, although the routing stores
are committed with the inflow of the step: that water stayed in the container.
---
 core/src/processes/ProcessRoutingGR4J.cpp | 6 ++++++
 core/src/processes/ProcessRoutingGR4J.h   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 4558bdd..6d4ad7a 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -67,6 +67,12 @@ double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
     return nullptr;
 }
 
+const vecDouble& ProcessRoutingGR4J::GetChangeRates() {
+    // Bypass the base-class empty-container short-circuit: the routing is committed once per step from the
+    // inflow, which may not be in the container yet when a solver evaluates the rates.
+    return GetRates();
+}
+
 const vecDouble& ProcessRoutingGR4J::GetRates() {
     if (_uhBaseTime == nullptr || _routingCapacity == nullptr || _exchangeFactor == nullptr) {
         return StoreRates({0});
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 00df039..c8a9f12 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -44,6 +44,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::GetChangeRates()
+     */
+    [[nodiscard]] const vecDouble& GetChangeRates() override;
+
     /**
      * Advance UH buffers and routing store once per timestep.
      */
-- 
2.43.0


From 5c2d8dac65b00de7dd7fb0edca30958ec22f95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 18/69] fix: solve the bricks upstream first whatever their
 declaration order

---
 core/src/base/Processor.cpp      | 71 +++++++++++++++++++++++++++-----
 core/src/base/Processor.h        |  9 +++-
 core/src/base/SolverSequential.h |  4 +-
 3 files changed, 71 insertions(+), 13 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 4488c81..fae0d73 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -1,5 +1,8 @@
 #include "Processor.h"
 
+#include <set>
+#include <unordered_map>
+
 #include "FluxToBrick.h"
 #include "ModelHydro.h"
 #include "Snowpack.h"
@@ -75,14 +78,6 @@ void Processor::ConnectToElementsToSolve() {
             if (brick->NeedsSolver()) {
                 _iterableBricks.push_back(brick);
 
-                // Get state variables from bricks
-                vecDoublePt bricksValues = brick->GetDynamicContentChanges();
-                StoreStateVariableChanges(bricksValues);
-
-                // Get state variables from processes
-                vecDoublePt processValues = brick->GetStateVariableChangesFromProcesses();
-                StoreStateVariableChanges(processValues);
-
                 // Count connections
                 _solvableConnectionCount += brick->GetProcessConnectionCount();
             } else {
@@ -99,6 +94,13 @@ void Processor::ConnectToElementsToSolve() {
         // Add the bricks need a solver here
         _iterableBricks.push_back(brick);
 
+        // Count connections
+        _solvableConnectionCount += brick->GetProcessConnectionCount();
+    }
+
+    SortUpstreamFirst();
+
+    for (auto brick : _iterableBricks) {
         // Get state variables from bricks
         vecDoublePt bricksValues = brick->GetDynamicContentChanges();
         StoreStateVariableChanges(bricksValues);
@@ -106,9 +108,58 @@ void Processor::ConnectToElementsToSolve() {
         // Get state variables from processes
         vecDoublePt processValues = brick->GetStateVariableChangesFromProcesses();
         StoreStateVariableChanges(processValues);
+    }
+}
 
-        // Count connections
-        _solvableConnectionCount += brick->GetProcessConnectionCount();
+void Processor::SortUpstreamFirst() {
+    std::unordered_map<const Brick*, int> index;
+    for (int i = 0; i < static_cast<int>(_iterableBricks.size()); ++i) {
+        index[_iterableBricks[i]] = i;
+    }
+
+    // Targets of every brick (as indices) and number of bricks feeding it.
+    vector<vecInt> targets(_iterableBricks.size());
+    vecInt feederCount(_iterableBricks.size(), 0);
+    for (int i = 0; i < static_cast<int>(_iterableBricks.size()); ++i) {
+        Brick* brick = _iterableBricks[i];
+        for (int j = 0; j < brick->GetProcessCount(); ++j) {
+            auto process = brick->GetProcess(j);
+            for (int k = 0; k < process->GetOutputFluxCount(); ++k) {
+                auto fluxToBrick = dynamic_cast<FluxToBrick*>(process->GetOutputFlux(k));
+                if (fluxToBrick == nullptr) {
+                    continue;
+                }
+                auto it = index.find(fluxToBrick->GetTargetBrick());
+                if (it != index.end() && it->second != i) {
+                    targets[i].push_back(it->second);
+                    feederCount[it->second]++;
+                }
+            }
+        }
+    }
+
+    // Always take the first declared brick among those whose feeders are all placed.
+    std::set<int> ready;
+    for (int i = 0; i < static_cast<int>(feederCount.size()); ++i) {
+        if (feederCount[i] == 0) {
+            ready.insert(i);
+        }
+    }
+    vector<Brick*> sorted;
+    while (!ready.empty()) {
+        int current = *ready.begin();
+        ready.erase(ready.begin());
+        sorted.push_back(_iterableBricks[current]);
+        for (int target : targets[current]) {
+            if (--feederCount[target] == 0) {
+                ready.insert(target);
+            }
+        }
+    }
+
+    // Bricks feeding each other have no such order: keep the declaration order.
+    if (sorted.size() == _iterableBricks.size()) {
+        _iterableBricks = std::move(sorted);
     }
 }
 
diff --git a/core/src/base/Processor.h b/core/src/base/Processor.h
index 35263b4..87b89a3 100644
--- a/core/src/base/Processor.h
+++ b/core/src/base/Processor.h
@@ -129,7 +129,7 @@ class Processor {
     }
 
     /**
-     * Get the bricks handled by the solver, in processing (declaration) order.
+     * Get the bricks handled by the solver, in processing order (upstream first).
      *
      * @return the solvable bricks.
      */
@@ -165,6 +165,13 @@ class Processor {
      */
     void ValidateFluxTopology() const;
 
+    /**
+     * Order the bricks handled by the solver so that a brick comes after the bricks feeding it
+     * (keeping the declaration order otherwise): the water of the time step is handed over to
+     * the target in that order, whatever the order in which the bricks were declared.
+     */
+    void SortUpstreamFirst();
+
     /**
      * Store the state variable changes.
      *
diff --git a/core/src/base/SolverSequential.h b/core/src/base/SolverSequential.h
index f4468f6..a06109f 100644
--- a/core/src/base/SolverSequential.h
+++ b/core/src/base/SolverSequential.h
@@ -9,8 +9,8 @@ class Brick;
 /**
  * Base class for the sequential solvers.
  *
- * The bricks are processed one by one in declaration order (upstream before
- * downstream). Each brick receives its inflows as a constant rate over the time
+ * The bricks are processed one by one, upstream first (a brick comes before
+ * those it feeds). Each brick receives its inflows as a constant rate over the time
  * step; the subclass computes the brick's average outflow rates over the step.
  * The resulting rates go through the standard constraint and flux machinery, so
  * water propagates through a cascade within the same step.
-- 
2.43.0


From 17bbf28fe19178446a936be057428bd4623447cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 19/69] fix: reject dates and times that do not exist

---
 core/src/base/UtilsDateTime.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 00faf2f..71fa440 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -48,6 +48,11 @@ sys_days UtilsDateTime::ToSysDays(int year, int month, int day) {
     using monthT = std::chrono::month;
     using dayT = std::chrono::day;
 
+    // The chrono types wrap values beyond their storage, so the ranges must be checked first.
+    if (month < 1 || month > 12 || day < 1 || day > 31 || year < int(yearT::min()) || year > int(yearT::max())) {
+        throw RuntimeError("Invalid Y-M-D provided to ToSysDays");
+    }
+
     auto y = yearT{year};
     auto m = monthT{static_cast<unsigned>(month)};
     auto d = dayT{static_cast<unsigned>(day)};
@@ -126,6 +131,9 @@ static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_t
         auto parsed_sec = static_cast<int>(tm.tm_sec);
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok() || parsed_sec > 60) {
+            return false;
+        }
         auto days = std::chrono::sys_days{ymd};
         auto tp = std::chrono::time_point_cast<std::chrono::seconds>(days) + std::chrono::hours{parsed_hour} +
                   std::chrono::minutes{parsed_min} + std::chrono::seconds{parsed_sec};
@@ -152,6 +160,9 @@ static bool ParseDateOnly(const std::string& s, const char* fmt, std::chrono::sy
         auto parsed_day = static_cast<unsigned>(tm.tm_mday);       // tm_mday is 1-based
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;
+        }
         out = std::chrono::sys_days{ymd};
         return true;
     } catch (...) {
-- 
2.43.0


From bb7ef8ba20d363025b71af789098dbc73d7733f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 20/69] fix: read compact times with all their digits

---
 core/src/base/UtilsDateTime.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 71fa440..dba4d83 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -121,6 +121,16 @@ static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_t
             return false;
         }
 
+        // Fields without separators need all their digits (hhmm would otherwise be read as hh, m and s).
+        if (std::string_view(fmt).ends_with("%H%M%S")) {
+            size_t end = s.find_last_not_of(" \t\r\n");
+            for (size_t i = 0; i < 6; ++i) {
+                if (end == std::string::npos || end < i || !std::isdigit(static_cast<unsigned char>(s[end - i]))) {
+                    return false;
+                }
+            }
+        }
+
         // Convert tm to sys_time<seconds>
         // Build the date part using chrono types to avoid timezone issues
         auto parsed_year = static_cast<int>(tm.tm_year) + 1900;
-- 
2.43.0


From 3f6895725d87d3857c8184b214595389f23465e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 21/69] fix: match the month and the day of a recurring action
 date together

---
 core/src/actions/Action.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..15aa040 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -40,15 +40,8 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
-            continue;
-        }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
-
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] == date.month && _recursiveDays[i] == date.day) {
             return Apply();
         }
     }
-- 
2.43.0


From 07d1032a47241929ae5ed4d6135a811ce057190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 22/69] fix: apply the recurring actions once per matching day
 whatever the time step

---
 core/src/actions/ActionsManager.cpp | 31 +++++++++++++++++++----------
 core/src/actions/ActionsManager.h   |  8 ++++++++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..126fb86 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -1,5 +1,7 @@
 #include "ActionsManager.h"
 
+#include <cmath>
+
 #include "Action.h"
 #include "ModelHydro.h"
 #include "SubBasin.h"
@@ -7,7 +9,8 @@
 
 ActionsManager::ActionsManager()
     : _model(nullptr),
-      _cursorManager(0) {}
+      _cursorManager(0),
+      _lastDay(0) {}
 
 void ActionsManager::SetModel(ModelHydro* model) {
     _model = model;
@@ -15,6 +18,7 @@ void ActionsManager::SetModel(ModelHydro* model) {
 
 void ActionsManager::Reset() {
     _cursorManager = 0;
+    _lastDay = 0;
     for (auto action : _actions) {
         action->ResetCursor();
         action->Reset();
@@ -78,23 +82,28 @@ int ActionsManager::GetSporadicActionItemCount() const {
 }
 
 void ActionsManager::DateUpdate(double date) {
-    // Recursive actions
+    // Recursive actions: applied once for each day reached since the last update, whatever the time step.
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        double today = std::floor(date + PRECISION);
+        for (double day = _lastDay > 0 ? _lastDay + 1 : today; day <= today; ++day) {
+            ApplySporadicActions(day - 2 * PRECISION, date);
+            Time dateStruct = GetTimeStructFromMJD(day);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
+        _lastDay = today;
     }
 
-    if (_sporadicActionDates.empty()) {
-        return;
-    }
+    ApplySporadicActions(date, date);
+}
 
-    // Sporadic actions
+void ActionsManager::ApplySporadicActions(double until, double date) {
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
-    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date) {
+    while (_sporadicActionDates.size() > _cursorManager &&
+           LessThanOrEqual(_sporadicActionDates[_cursorManager], until)) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
             throw RuntimeError("Application of a sporadic action failed.");
         }
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 57a723b..68611b1 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -107,12 +107,20 @@ class ActionsManager {
   protected:
     ModelHydro* _model;  // non-owning reference
     int _cursorManager;
+    double _lastDay;  // last day handled by the recursive actions (0: none yet)
     vector<Action*> _actions;
     vecDouble _sporadicActionDates;
     vecInt _sporadicActionIndices;
     vecInt _recursiveActionIndices;
 
   private:
+    /**
+     * Apply the pending sporadic actions.
+     *
+     * @param until date up to which the actions are due.
+     * @param date corresponding date of the simulation.
+     */
+    void ApplySporadicActions(double until, double date);
 };
 
 #endif  // HYDROBRICKS_ACTION_UPDATER_H
-- 
2.43.0


From a4ad690bbda1c1dfc3c183a513b59247863c737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 23/69] fix: apply the actions due at the start of the period
 before the first time step

---
 core/src/base/ModelHydro.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index e47bbc1..7af9a2b 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -122,6 +122,11 @@ ModelResult ModelHydro::Run() {
         }
     }
 
+    // The actions due at the start of the period take effect before the first time step.
+    if (!_timer.IsOver()) {
+        _actionsManager.DateUpdate(_timer.GetDate());
+    }
+
     _logger.SaveInitialValues();
 
     // Per-run lifecycle messages are debug-level: at Message level they would
-- 
2.43.0


From e4aaef524a197dab7ae73eb5cde4cff03994aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 24/69] fix: do not apply the actions dated after the end of
 the period

---
 core/src/base/TimeMachine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 9ed74cb..d87f0bb 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -58,6 +58,11 @@ void TimeMachine::IncrementTime() {
     ++_stepIndex;
     _date = IncrementDateBy(_start, _timeStep * _stepIndex, _timeStepUnit);
 
+    // Nothing dated after the end of the period is applied.
+    if (IsOver()) {
+        return;
+    }
+
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
     }
-- 
2.43.0


From 22f3e100730172fd9056d5fc5b0e5363e9daab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 25/69] fix: report a land cover change addressing an unknown
 hydro unit

---
 core/src/actions/ActionLandCoverChange.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/actions/ActionLandCoverChange.cpp b/core/src/actions/ActionLandCoverChange.cpp
index e93cbc8..84fe23f 100644
--- a/core/src/actions/ActionLandCoverChange.cpp
+++ b/core/src/actions/ActionLandCoverChange.cpp
@@ -30,6 +30,10 @@ bool ActionLandCoverChange::Apply(double) {
     assert(_landCoverNames.size() > _landCoverIds[_cursor]);
 
     HydroUnit* unit = _manager->GetHydroUnitById(_hydroUnitIds[_cursor]);
+    if (unit == nullptr) {
+        LogError("The hydro unit {} was not found.", _hydroUnitIds[_cursor]);
+        return false;
+    }
     string landCoverName = _landCoverNames[_landCoverIds[_cursor]];
     double areaFraction = _areas[_cursor] / unit->GetArea();
     areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[_cursor], areaFraction, unit->GetArea(),
-- 
2.43.0


From 9263f2e19950587307ea6e3e2238e43bc592519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 26/69] fix: apply the actions of the same date in the order
 they were added

---
 core/src/actions/Action.cpp         | 2 +-
 core/src/actions/ActionsManager.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 15aa040..6898a02 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -52,7 +52,7 @@ bool Action::ApplyIfRecursive(const Time date) {
 int Action::GetIndexForInsertion(double date) const {
     int index = 0;
     for (double storedDate : _sporadicDates) {
-        if (date <= storedDate) {
+        if (date < storedDate) {
             break;
         }
         index++;
diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index 126fb86..2ad94fb 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -54,7 +54,7 @@ bool ActionsManager::AddAction(Action* action) {
 
             // Find index to insert the date accordingly.
             for (int i = index; i < _sporadicActionDates.size(); ++i) {
-                if (date <= _sporadicActionDates[i]) {
+                if (date < _sporadicActionDates[i]) {
                     break;
                 }
                 index++;
-- 
2.43.0


From 37331139266b975b0f59b0f8591b9aba89c05ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 27/69] Add a guarded observation point at the beginning of a
 time step

---
 core/src/base/ModelHydro.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 7af9a2b..5b3dc02 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -134,6 +134,9 @@ ModelResult ModelHydro::Run() {
     LogDebug("Simulation starting.");
 
     while (!_timer.IsOver()) {
+#ifdef HYDROBRICKS_MONITOR
+        HydrobricksMonitorEvent("begin", this);
+#endif
         if (!_processor.ProcessTimeStep(*_timer.GetTimeStepPointer())) {
             return std::unexpected("Time step processing failed.");
         }
-- 
2.43.0


From 37c9d94c8524d31dd9dc3cc7fca1350f67f0f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 28/69] fix: a cover that lost its area does not keep releasing
 its last fluxes

---
 core/src/base/Processor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index fae0d73..40c7454 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -308,6 +308,13 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // A brick that lost its area releases nothing anymore.
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    auto process = brick->GetProcess(i);
+                    for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+                        process->GetOutputFlux(j)->Reset();
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From 9a632e752d2d8d24a9fe7bdab2748bacc63eb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 29/69] fix: weight the fluxes leaving a surface component by
 its area fraction

The water a snowpack or canopy sends to a store, a splitter or the outlet was not
weighted by the fraction of its land cover (nor updated when the land cover changes).
---
 core/src/base/ModelBuilder.cpp       | 1 -
 core/src/bricks/Glacier.cpp          | 1 +
 core/src/bricks/LandCover.cpp        | 7 +++++--
 core/src/bricks/LandCover.h          | 1 +
 core/src/bricks/SurfaceComponent.cpp | 9 +++++++--
 core/src/bricks/SurfaceComponent.h   | 6 ++++++
 6 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 2cd8c11..d77f1a1 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -494,7 +494,6 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                                     flux->SetAsStatic();
                                 }
                                 flux->SetType(output.fluxType);
-                                flux->NeedsWeighting(true);
                                 targetBrick->AttachFluxIn(flux);
                                 lateralProcess->AttachFluxOutWithWeight(std::move(fluxPtr),
                                                                         lateralConnection->GetFraction());
diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 1f91945..37db1fb 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -144,6 +144,7 @@ double* Glacier::GetValuePointer(std::string_view name) {
 }
 
 void Glacier::SurfaceComponentAdded(SurfaceComponent* brick) {
+    LandCover::SurfaceComponentAdded(brick);
     if (brick->GetCategory() == BrickCategory::Snowpack) {
         auto snowpack = dynamic_cast<Snowpack*>(brick);
         _ice->SetRelatedSnowpack(snowpack);
diff --git a/core/src/bricks/LandCover.cpp b/core/src/bricks/LandCover.cpp
index ef7c02f..7aca6a7 100644
--- a/core/src/bricks/LandCover.cpp
+++ b/core/src/bricks/LandCover.cpp
@@ -34,8 +34,11 @@ void LandCover::SetAreaFraction(double value) {
             }
         }
     }
+    for (auto component : _surfaceComponents) {
+        component->UpdateFluxFractions();
+    }
 }
 
-void LandCover::SurfaceComponentAdded(SurfaceComponent*) {
-    // Nothing to do.
+void LandCover::SurfaceComponentAdded(SurfaceComponent* brick) {
+    _surfaceComponents.push_back(brick);
 }
diff --git a/core/src/bricks/LandCover.h b/core/src/bricks/LandCover.h
index fb97ae6..adbbfbc 100644
--- a/core/src/bricks/LandCover.h
+++ b/core/src/bricks/LandCover.h
@@ -102,6 +102,7 @@ class LandCover : public Brick {
   protected:
     double _areaFraction;
     double _initialAreaFraction;
+    vector<SurfaceComponent*> _surfaceComponents;  // non-owning references
 };
 
 #endif  // HYDROBRICKS_BASE_LAND_COVER_H
diff --git a/core/src/bricks/SurfaceComponent.cpp b/core/src/bricks/SurfaceComponent.cpp
index 1c35f28..4bfd76b 100644
--- a/core/src/bricks/SurfaceComponent.cpp
+++ b/core/src/bricks/SurfaceComponent.cpp
@@ -12,12 +12,17 @@ SurfaceComponent::SurfaceComponent()
 void SurfaceComponent::SetAreaFraction(double value) {
     assert(_parent);
     _areaFraction = value;
+    UpdateFluxFractions();
+}
+
+void SurfaceComponent::UpdateFluxFractions() {
+    assert(_parent);
+    double fraction = _areaFraction * _parent->GetAreaFraction();
     for (const auto& process : _processes) {
         for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
             Flux* output = process->GetOutputFlux(i);
             if (output->NeedsWeighting()) {
-                value *= _parent->GetAreaFraction();
-                output->SetFractionLandCover(value);
+                output->SetFractionLandCover(fraction);
             }
         }
     }
diff --git a/core/src/bricks/SurfaceComponent.h b/core/src/bricks/SurfaceComponent.h
index 6fc0bd4..5beb3a7 100644
--- a/core/src/bricks/SurfaceComponent.h
+++ b/core/src/bricks/SurfaceComponent.h
@@ -34,6 +34,12 @@ class SurfaceComponent : public Brick {
      */
     void SetAreaFraction(double value);
 
+    /**
+     * Update the area fraction of the outgoing fluxes (fraction of the component within its parent land cover times
+     * the fraction of the land cover).
+     */
+    void UpdateFluxFractions();
+
     /**
      * Gets the area fraction of the parent land cover of this component.
      *
-- 
2.43.0


From 6f25bfa00a35daad0511021daaa3263d172edb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 30/69] fix: empty a brick when the implicit solvers find a
 demand above its content

The bisection ends at the content below which the rates are null. Evaluated on the
wrong side of it, all outflows of the step were set to zero.
---
 core/src/base/SolverCrankNicolson.cpp | 4 +++-
 core/src/base/SolverImplicitEuler.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/base/SolverCrankNicolson.cpp b/core/src/base/SolverCrankNicolson.cpp
index 0a545c7..06f4497 100644
--- a/core/src/base/SolverCrankNicolson.cpp
+++ b/core/src/base/SolverCrankNicolson.cpp
@@ -45,7 +45,9 @@ void SolverCrankNicolson::ComputeBrickRates(Brick* brick, double content, double
                 break;
             }
         }
-        endContent = (lo + hi) / 2;
+        // Upper end of the bracket: when the rates drop to zero with the content (e.g. a constant percolation from a nearly
+        // empty brick), the rates of the full demand have to be used (then limited to the content by the constraints).
+        endContent = hi;
     } else {
         endContent = lo;
     }
diff --git a/core/src/base/SolverImplicitEuler.cpp b/core/src/base/SolverImplicitEuler.cpp
index 6701357..d9d81c7 100644
--- a/core/src/base/SolverImplicitEuler.cpp
+++ b/core/src/base/SolverImplicitEuler.cpp
@@ -40,7 +40,9 @@ void SolverImplicitEuler::ComputeBrickRates(Brick* brick, double content, double
                 break;
             }
         }
-        endContent = (lo + hi) / 2;
+        // Upper end of the bracket: when the rates drop to zero with the content (e.g. a constant percolation from a nearly
+        // empty brick), the rates of the full demand have to be used (then limited to the content by the constraints).
+        endContent = hi;
     } else {
         endContent = lo;
     }
-- 
2.43.0


From 22476b13b92d5f68de55144af879949bfb0ef98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 31/69] fix: refuse an undefined land cover fraction and keep
 the state of a refused change

---
 core/src/spatial/HydroUnit.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 3c6067b..8809ff6 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -344,7 +344,7 @@ void HydroUnit::Validate() const {
 }
 
 bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fraction) {
-    if ((fraction < 0) || (fraction > 1)) {
+    if (!(fraction >= 0) || (fraction > 1)) {
         LogError("The given fraction ({}) for '{}' is not in the allowed range [0 .. 1]", fraction, name);
         return false;
     }
@@ -378,8 +378,14 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
     }
 
+    double formerFraction = changed->GetAreaFraction();
     changed->SetAreaFraction(fraction);
-    return FixLandCoverFractionsTotal();
+    if (!FixLandCoverFractionsTotal()) {
+        changed->SetAreaFraction(formerFraction);
+        return false;
+    }
+
+    return true;
 }
 
 LandCover* HydroUnit::GetGenericLandCover() const {
-- 
2.43.0


From a7519c31d2d0e11575e17724e44c1ecc6defaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 32/69] fix: refuse the snow to ice transformation of a land
 cover that is not a glacier

---
 core/src/actions/ActionGlacierSnowToIceTransformation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
index adafa62..0dea910 100644
--- a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
+++ b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
@@ -26,7 +26,12 @@ bool ActionGlacierSnowToIceTransformation::Init() {
 
     for (int i = 0; i < _manager->GetSubBasin()->GetHydroUnitCount(); ++i) {
         auto unit = _manager->GetSubBasin()->GetHydroUnit(i);
-        if (unit->TryGetLandCover(_landCoverName) != nullptr) {
+        LandCover* landCover = unit->TryGetLandCover(_landCoverName);
+        if (landCover != nullptr) {
+            if (dynamic_cast<Glacier*>(landCover) == nullptr) {
+                LogError("The land cover '{}' is not a glacier.", _landCoverName);
+                return false;
+            }
             _hydroUnitIds.push_back(unit->GetId());
         }
     }
-- 
2.43.0


From 9801fabd8c0acf1c34a9ebe29f19e711070704cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 33/69] fix: do not refuse a land cover change taking the whole
 generic cover because of rounding

With three covers or more, the content was moved and the change then refused when
the fractions summed to one but for a rounding error.
---
 core/src/spatial/HydroUnit.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 8809ff6..42068fd 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -366,14 +366,18 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         double genericOldFraction = generic->GetAreaFraction();
         double genericNewFraction = genericOldFraction - delta;
 
-        // The generic cover must be able to absorb the change (it cannot go negative).
-        if (LessThan(genericNewFraction, 0, EPSILON_D)) {
+        // The generic cover must be able to absorb the change (it cannot go negative, but for rounding errors).
+        if (LessThan(genericNewFraction, 0, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area change (%.20g) with error margin (%.20g).",
-                genericOldFraction, delta, EPSILON_D);
+                genericOldFraction, delta, PRECISION);
             return false;
         }
+        if (genericNewFraction < 0) {
+            genericNewFraction = 0;
+            fraction = std::min(oldFraction + genericOldFraction, 1.0);
+        }
 
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
     }
@@ -491,12 +495,12 @@ bool HydroUnit::FixLandCoverFractionsTotal() {
             LogError("No generic soil (open) land cover found. Cannot fix the land cover fractions.");
             return false;
         }
-        if (LessThan(ground->GetAreaFraction(), diff, EPSILON_D)) {
+        if (LessThan(ground->GetAreaFraction(), diff, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area fractions (%.20g) with error margin (%.20g)."
                 "(i.e. the sum of the other land cover fractions is too large).",
-                ground->GetAreaFraction(), diff, EPSILON_D);
+                ground->GetAreaFraction(), diff, PRECISION);
             return false;
         }
         if (ground->GetAreaFraction() - diff > 0) {
-- 
2.43.0


From 8560da61c0f08fce2b7f860a8721c0fe3f3526ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 34/69] fix: reset the processes of the snowpack (cold content,
 snow density)

---
 core/src/bricks/Snowpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..cd61de5 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,7 +7,7 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    SurfaceComponent::Reset();
     _snow->Reset();
 }
 
-- 
2.43.0


From 7b3046390d1e85f3572658f069a88533590aa582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 35/69] fix: refuse to run again a model that was not reset

---
 core/src/base/ModelHydro.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 5b3dc02..97d6e5b 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -112,6 +112,11 @@ ModelResult ModelHydro::Run() {
         }
     }
 
+    // The recorded rows, the forcing cursors and the spin-up all assume a run from the period start.
+    if (_timer.GetDate() != _timer.GetStart()) {
+        return std::unexpected("The model has already been run: it must be reset before another run.");
+    }
+
     if (auto r = InitializeTimeSeries(); !r) {
         return r;
     }
-- 
2.43.0


From 6501e233c235975d35b6ead4ff7770e3846d31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 36/69] fix: save and restore the memory of the processes with
 the initial state

---
 core/src/base/Processor.cpp                     |  2 +-
 core/src/bricks/Brick.cpp                       |  3 +++
 core/src/bricks/Snowpack.cpp                    |  2 +-
 core/src/fluxes/Flux.cpp                        |  6 +++++-
 core/src/fluxes/Flux.h                          |  6 ++++++
 core/src/processes/Process.cpp                  |  6 ++++++
 core/src/processes/Process.h                    |  5 +++++
 .../ProcessLateralSnowRedistributionFrey.cpp    | 14 +++++++++++---
 .../ProcessLateralSnowRedistributionFrey.h      |  7 +++++++
 core/src/processes/ProcessMeltCemaNeige.cpp     | 10 ++++++++--
 core/src/processes/ProcessMeltCemaNeige.h       |  8 +++++++-
 core/src/processes/ProcessRoutingGR4J.cpp       | 14 ++++++++++++--
 core/src/processes/ProcessRoutingGR4J.h         | 11 +++++++++++
 core/src/processes/ProcessRoutingGR6J.cpp       | 17 ++++++++++++++---
 core/src/processes/ProcessRoutingGR6J.h         | 12 ++++++++++++
 core/src/processes/ProcessRoutingHBV.cpp        | 11 +++++++++--
 core/src/processes/ProcessRoutingHBV.h          |  9 +++++++++
 17 files changed, 127 insertions(+), 16 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 40c7454..f4d6999 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -312,7 +312,7 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 for (int i = 0; i < brick->GetProcessCount(); ++i) {
                     auto process = brick->GetProcess(i);
                     for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
-                        process->GetOutputFlux(j)->Reset();
+                        process->GetOutputFlux(j)->UpdateFlux(0.0);
                     }
                 }
                 continue;
diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index f916bbb..8929368 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -53,6 +53,9 @@ void Brick::Reset() {
 
 void Brick::SaveAsInitialState() {
     _water->SaveAsInitialState();
+    for (const auto& process : _processes) {
+        process->SaveAsInitialState();
+    }
 }
 
 bool Brick::IsValid(bool checkProcesses) const {
diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index cd61de5..8255c50 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -12,7 +12,7 @@ void Snowpack::Reset() {
 }
 
 void Snowpack::SaveAsInitialState() {
-    _water->SaveAsInitialState();
+    SurfaceComponent::SaveAsInitialState();
     _snow->SaveAsInitialState();
 }
 
diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index bdf4448..ede5e0f 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -15,7 +15,11 @@ Flux::Flux()
       _type(ContentType::Water) {}
 
 void Flux::Reset() {
-    _amount = 0;
+    _amount = _initialAmount;
+}
+
+void Flux::SaveAsInitialState() {
+    _initialAmount = _amount;
 }
 
 void Flux::UpdateFlux(double amount) {
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index f8392df..13ddfac 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -32,6 +32,11 @@ class Flux {
      */
     virtual void Reset();
 
+    /**
+     * Save the current amount as the one to restore on reset.
+     */
+    void SaveAsInitialState();
+
     /**
      * Get the amount of water outgoing the flux.
      *
@@ -229,6 +234,7 @@ class Flux {
 
   protected:
     double _amount{};
+    double _initialAmount{};
     double* _changeRate{};  // non-owning reference
     bool _static{};
     bool _fromSolver{};
diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index d2f847a..4e46324 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -448,6 +448,12 @@ void Process::Reset() {
     }
 }
 
+void Process::SaveAsInitialState() {
+    for (const auto& flux : _outputs) {
+        flux->SaveAsInitialState();
+    }
+}
+
 void Process::SetHydroUnitProperties(HydroUnit*, Brick*) {
     // Nothing to do...
 }
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index ac51a00..1462dfd 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -42,6 +42,11 @@ class Process {
      */
     virtual void Reset();
 
+    /**
+     * Save the memory of the process (e.g. delay lines) as the state to restore on reset.
+     */
+    virtual void SaveAsInitialState();
+
     /**
      * Check that everything is correctly defined.
      *
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
index a7d9dfe..97a87f8 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
@@ -29,7 +29,9 @@ ProcessLateralSnowRedistributionFrey::ProcessLateralSnowRedistributionFrey(Water
       _rhoScale(nullptr),
       _tScale(nullptr),
       _density(constants::snowDensity),
-      _prevSwe(0.0) {}
+      _prevSwe(0.0),
+      _initialDensity(constants::snowDensity),
+      _initialPrevSwe(0.0) {}
 
 bool ProcessLateralSnowRedistributionFrey::IsValid() const {
     // Permissive (like snow_slide): hydro units without lateral connections simply do not redistribute.
@@ -92,8 +94,14 @@ void ProcessLateralSnowRedistributionFrey::AttachForcing(Forcing* forcing) {
 
 void ProcessLateralSnowRedistributionFrey::Reset() {
     ProcessLateral::Reset();
-    _density = constants::snowDensity;
-    _prevSwe = 0.0;
+    _density = _initialDensity;
+    _prevSwe = _initialPrevSwe;
+}
+
+void ProcessLateralSnowRedistributionFrey::SaveAsInitialState() {
+    ProcessLateral::SaveAsInitialState();
+    _initialDensity = _density;
+    _initialPrevSwe = _prevSwe;
 }
 
 double ProcessLateralSnowRedistributionFrey::ComputeFreshSnowDensity() const {
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.h b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
index ab27121..56ab512 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.h
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
@@ -80,6 +80,11 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * @copydoc Process::Finalize()
      */
@@ -108,6 +113,8 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
     const float* _tScale;           // Density sigmoid shift coefficient (dynamic variant) [°C]
     double _density;                // Tracked bulk snow density (dynamic variant) [kg/m3]
     double _prevSwe;                // Committed SWE at the previous time step (dynamic variant) [mm]
+    double _initialDensity;         // Snow density restored on reset [kg/m3]
+    double _initialPrevSwe;         // SWE restored on reset [mm]
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessMeltCemaNeige.cpp b/core/src/processes/ProcessMeltCemaNeige.cpp
index 4984a8a..d59178a 100644
--- a/core/src/processes/ProcessMeltCemaNeige.cpp
+++ b/core/src/processes/ProcessMeltCemaNeige.cpp
@@ -12,7 +12,8 @@ ProcessMeltCemaNeige::ProcessMeltCemaNeige(WaterContainer* container)
       _coldContentFactor(nullptr),
       _meltingTemp(nullptr),
       _meanAnnualSnow(nullptr),
-      _coldContent(0.0) {}
+      _coldContent(0.0),
+      _initialColdContent(0.0) {}
 
 void ProcessMeltCemaNeige::RegisterProcessSettings(SettingsModel* modelSettings) {
     modelSettings->AddProcessParameter("degree_day_factor", 3.0f);
@@ -57,7 +58,12 @@ void ProcessMeltCemaNeige::AttachForcing(Forcing* forcing) {
 
 void ProcessMeltCemaNeige::Reset() {
     ProcessMelt::Reset();
-    _coldContent = 0.0;
+    _coldContent = _initialColdContent;
+}
+
+void ProcessMeltCemaNeige::SaveAsInitialState() {
+    ProcessMelt::SaveAsInitialState();
+    _initialColdContent = _coldContent;
 }
 
 const vecDouble& ProcessMeltCemaNeige::GetRates() {
diff --git a/core/src/processes/ProcessMeltCemaNeige.h b/core/src/processes/ProcessMeltCemaNeige.h
index 038438a..dc736fa 100644
--- a/core/src/processes/ProcessMeltCemaNeige.h
+++ b/core/src/processes/ProcessMeltCemaNeige.h
@@ -57,6 +57,11 @@ class ProcessMeltCemaNeige : public ProcessMelt {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
   protected:
     Forcing* _temperature;            // non-owning reference
     const float* _degreeDayFactor;    // Kf [mm/°C/d]
@@ -64,7 +69,8 @@ class ProcessMeltCemaNeige : public ProcessMelt {
     const float* _meltingTemp;        // Tmelt [°C]
     const float* _meanAnnualSnow;     // Cn [mm]
 
-    double _coldContent;  // G [°C], persists between timesteps
+    double _coldContent;         // G [°C], persists between timesteps
+    double _initialColdContent;  // G restored on reset [°C]
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 6d4ad7a..ce8a056 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -40,13 +40,23 @@ void ProcessRoutingGR4J::Reset() {
     _recomputeUH();
     std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
     std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
+    std::copy_n(_initialStuh1.begin(), std::min(_initialStuh1.size(), _stuh1.size()), _stuh1.begin());
+    std::copy_n(_initialStuh2.begin(), std::min(_initialStuh2.size(), _stuh2.size()), _stuh2.begin());
+    _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
     _bookedExchange = 0.0;
 }
 
+void ProcessRoutingGR4J::SaveAsInitialState() {
+    ProcessOutflow::SaveAsInitialState();
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialProcessStorage = _processStorage;
+}
+
 double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
     if (name == "output") {
         return _outputs[0]->GetAmountPointer();
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index c8a9f12..9df8f50 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -44,6 +44,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * @copydoc Process::GetChangeRates()
      */
@@ -83,6 +88,12 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR{0.0};
+    double _initialProcessStorage{0.0};
+
     // Net groundwater exchange already booked in the container during the current timestep [mm]
     double _bookedExchange;
 
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index f3fc7be..5d41e3f 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -55,12 +55,23 @@ void ProcessRoutingGR6J::Reset() {
     _recomputeUH();
     std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
     std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
-    _rexp = 0.0;
+    std::copy_n(_initialStuh1.begin(), std::min(_initialStuh1.size(), _stuh1.size()), _stuh1.begin());
+    std::copy_n(_initialStuh2.begin(), std::min(_initialStuh2.size(), _stuh2.size()), _stuh2.begin());
+    _r = _initialR;
+    _rexp = _initialRexp;
     _qr = 0.0;
     _qrexp = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR6J::SaveAsInitialState() {
+    ProcessOutflow::SaveAsInitialState();
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialRexp = _rexp;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR6J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR6J.h b/core/src/processes/ProcessRoutingGR6J.h
index d8cd752..75713b5 100644
--- a/core/src/processes/ProcessRoutingGR6J.h
+++ b/core/src/processes/ProcessRoutingGR6J.h
@@ -49,6 +49,11 @@ class ProcessRoutingGR6J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and both routing stores once per timestep.
      */
@@ -95,6 +100,13 @@ class ProcessRoutingGR6J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR{0.0};
+    double _initialRexp{0.0};
+    double _initialProcessStorage{0.0};
+
     /**
      * @copydoc Process::GetRates()
      *
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index 4d19ae8..936e42b 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -42,8 +42,15 @@ void ProcessRoutingHBV::Reset() {
     ProcessOutflow::Reset();
     _recomputeUH();
     std::fill(_stuh.begin(), _stuh.end(), 0.0);
-    _previousContent = 0.0;
-    _processStorage = 0.0;
+    std::copy_n(_initialStuh.begin(), std::min(_initialStuh.size(), _stuh.size()), _stuh.begin());
+    _previousContent = _initialPreviousContent;
+    _processStorage = std::accumulate(_stuh.begin(), _stuh.end(), 0.0);
+}
+
+void ProcessRoutingHBV::SaveAsInitialState() {
+    ProcessOutflow::SaveAsInitialState();
+    _initialStuh = _stuh;
+    _initialPreviousContent = _previousContent;
 }
 
 double* ProcessRoutingHBV::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingHBV.h b/core/src/processes/ProcessRoutingHBV.h
index df1d0ac..87eb7bf 100644
--- a/core/src/processes/ProcessRoutingHBV.h
+++ b/core/src/processes/ProcessRoutingHBV.h
@@ -54,6 +54,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance the delivery schedule once per timestep, using the committed amounts.
      */
@@ -90,6 +95,10 @@ class ProcessRoutingHBV : public ProcessOutflow {
     // In-transit water (scheduled, not yet delivered) for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh;
+    double _initialPreviousContent{0.0};
+
     /**
      * @copydoc Process::GetRates()
      *
-- 
2.43.0


From 3b08f645f578bf48d1226af152184cb490d19534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 37/69] fix: find all the parameters to set before changing
 any, also by type and in sub-basin bricks

---
 core/src/base/SettingsModel.cpp | 173 +++++++++++++++++---------------
 core/src/base/SettingsModel.h   |  14 ++-
 2 files changed, 100 insertions(+), 87 deletions(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..6196603 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -921,114 +921,121 @@ vecStr SettingsModel::GetSubBasinGenericLogLabels() const {
 }
 
 bool SettingsModel::SetParameterValue(const string& component, const string& name, float value) {
-    // Check if the parameter should be set for multiple components
+    // The parameter can be set for multiple components
+    vecStr components;
     if (component.find(',') != string::npos) {
-        vecStr components;
-        {
-            std::istringstream _ss(component);
-            string _tok;
-            while (std::getline(_ss, _tok, ',')) {
-                _tok.erase(0, _tok.find_first_not_of(" "));
-                _tok.erase(_tok.find_last_not_of(" ") + 1);
-                if (!_tok.empty()) components.push_back(_tok);
-            }
+        std::istringstream _ss(component);
+        string _tok;
+        while (std::getline(_ss, _tok, ',')) {
+            _tok.erase(0, _tok.find_first_not_of(" "));
+            _tok.erase(_tok.find_last_not_of(" ") + 1);
+            if (!_tok.empty()) components.push_back(_tok);
         }
-        for (const auto& componentItem : components) {
-            if (!SetParameterValue(componentItem, name, value)) {
-                LogError("Fail to set the parameter '{}' for the component '{}'.", name, componentItem);
-                return false;
+    } else {
+        components.push_back(component);
+    }
+
+    // Find all the parameters first, so that a failure leaves the settings unchanged.
+    vector<Parameter*> parameters;
+    for (const auto& componentItem : components) {
+        // Consider every structure variant that contains the component (a parameter may
+        // live in several variants, e.g. the shared subsurface, or in only one, e.g. a
+        // glacier brick present only in the glacier variant).
+        bool foundAny = false;
+        for (auto& modelStructure : _modelStructures) {
+            if (FindParametersInStructure(modelStructure, componentItem, name, parameters)) {
+                foundAny = true;
             }
         }
-        return true;
-    }
 
-    // Apply to every structure variant that contains the component (a parameter may
-    // live in several variants, e.g. the shared subsurface, or in only one, e.g. a
-    // glacier brick present only in the glacier variant).
-    int previousId = _selectedStructure->id;
-    bool foundAny = false;
-    for (auto& modelStructure : _modelStructures) {
-        _selectedStructure = &modelStructure;
-        _selectedBrick = nullptr;
-        _selectedProcess = nullptr;
-        _selectedSplitter = nullptr;
-        if (SetParameterValueInSelectedStructure(component, name, value)) {
-            foundAny = true;
+        if (!foundAny) {
+            LogError("Cannot find the component '{}'.", componentItem);
+            return false;
         }
     }
-    SelectStructure(previousId);
 
-    if (!foundAny) {
-        LogError("Cannot find the component '{}'.", component);
+    for (auto* parameter : parameters) {
+        parameter->SetValue(value);
     }
 
-    return foundAny;
+    return !parameters.empty();
 }
 
-bool SettingsModel::SetParameterValueInSelectedStructure(const string& component, const string& name, float value) {
-    // Get target object
-    if (SelectHydroUnitBrickIfFound(component) || SelectSubBasinBrickIfFound(component)) {
-        if (BrickHasParameter(name)) {
-            SetBrickParameterValue(name, value);
-        } else {
-            SelectProcessWithParameter(name);
-            SetProcessParameterValue(name, value);
+bool SettingsModel::FindParametersInStructure(ModelStructure& structure, const string& component, const string& name,
+                                              vector<Parameter*>& parameters) {
+    auto findIn = [&name](vector<Parameter>& candidates) -> Parameter* {
+        for (auto& parameter : candidates) {
+            if (parameter.GetName() == name) {
+                return &parameter;
+            }
         }
-        return true;
-    } else if (SelectHydroUnitSplitterIfFound(component) || SelectSubBasinSplitterIfFound(component)) {
-        SetSplitterParameterValue(name, value);
-        return true;
-    } else if (component.find("type:") != string::npos) {
-        string type = component.substr(component.find(':') + 1);
-
-        // 'type:land_cover' is a meta-type matching every land-cover brick (generic
-        // land covers and glaciers), so a parameter can be set for all land covers
-        // at once regardless of their specific type. Otherwise the exact type string
-        // is matched.
-        auto typeMatches = [&type](const string& brickType) {
-            if (brickType == type) {
+        return nullptr;
+    };
+    auto addFromBrick = [&](BrickSettings& brick) {
+        Parameter* parameter = findIn(brick.parameters);
+        for (auto& process : brick.processes) {
+            if (parameter) break;
+            parameter = findIn(process.parameters);
+        }
+        if (!parameter) {
+            throw ModelConfigError(std::format("The parameter '{}' was not found in '{}'.", name, brick.name));
+        }
+        parameters.push_back(parameter);
+    };
+
+    for (auto* bricks : {&structure.hydroUnitBricks, &structure.subBasinBricks}) {
+        for (auto& brick : *bricks) {
+            if (brick.name == component) {
+                addFromBrick(brick);
                 return true;
             }
-            if (type == "land_cover") {
-                BrickType bt = BrickTypeFromString(brickType);
-                return bt == BrickType::GenericLandCover || bt == BrickType::Glacier;
-            }
-            return false;
-        };
+        }
+    }
 
-        // Set the parameter for all matching bricks - hydro units
-        for (auto& brick : _selectedStructure->hydroUnitBricks) {
-            if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
-                if (BrickHasParameter(name)) {
-                    SetBrickParameterValue(name, value);
-                } else {
-                    SelectProcessWithParameter(name);
-                    SetProcessParameterValue(name, value);
+    for (auto* splitters : {&structure.hydroUnitSplitters, &structure.subBasinSplitters}) {
+        for (auto& splitter : *splitters) {
+            if (splitter.name == component) {
+                Parameter* parameter = findIn(splitter.parameters);
+                if (!parameter) {
+                    throw ModelConfigError(std::format("The parameter '{}' was not found in '{}'.", name, component));
                 }
+                parameters.push_back(parameter);
+                return true;
             }
         }
+    }
 
-        // Set the parameter for all matching bricks - subbasins
-        for (auto& brick : _selectedStructure->subBasinBricks) {
+    if (component.find("type:") == string::npos) {
+        return false;
+    }
+
+    // 'type:land_cover' is a meta-type matching every land-cover brick (generic
+    // land covers and glaciers), so a parameter can be set for all land covers
+    // at once regardless of their specific type. Otherwise the exact type string
+    // is matched.
+    string type = component.substr(component.find(':') + 1);
+    auto typeMatches = [&type](const string& brickType) {
+        if (brickType == type) {
+            return true;
+        }
+        if (type == "land_cover") {
+            BrickType bt = BrickTypeFromString(brickType);
+            return bt == BrickType::GenericLandCover || bt == BrickType::Glacier;
+        }
+        return false;
+    };
+
+    bool found = false;
+    for (auto* bricks : {&structure.hydroUnitBricks, &structure.subBasinBricks}) {
+        for (auto& brick : *bricks) {
             if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
-                if (BrickHasParameter(name)) {
-                    SetBrickParameterValue(name, value);
-                } else {
-                    SelectProcessWithParameter(name);
-                    SetProcessParameterValue(name, value);
-                }
+                addFromBrick(brick);
+                found = true;
             }
         }
-
-    } else {
-        // Not found in this structure variant (the caller tries every variant and
-        // logs once if none match).
-        return false;
     }
 
-    return true;
+    return found;
 }
 
 bool SettingsModel::LogAll(const YAML::Node& settings) {
diff --git a/core/src/base/SettingsModel.h b/core/src/base/SettingsModel.h
index e72cc7a..6a3e6c6 100644
--- a/core/src/base/SettingsModel.h
+++ b/core/src/base/SettingsModel.h
@@ -852,11 +852,17 @@ class SettingsModel {
 
   protected:
     /**
-     * Try to set a parameter value within the currently selected structure only.
-     * Returns true if the component was found (or, for a 'type:' component, handled)
-     * in that structure; false otherwise. No logging on miss.
+     * Collect the parameters of a component (or of all the components of a type) within a structure.
+     *
+     * @param structure the structure variant to search.
+     * @param component the name of the component, or 'type:' followed by a type of components.
+     * @param name the name of the parameter.
+     * @param parameters the list to which the parameters found are added.
+     * @return true if the component was found in that structure; false otherwise. No logging on miss.
+     * @throws ModelConfigError if a component found has no such parameter.
      */
-    bool SetParameterValueInSelectedStructure(const string& component, const string& name, float value);
+    static bool FindParametersInStructure(ModelStructure& structure, const string& component, const string& name,
+                                          vector<Parameter*>& parameters);
 
     bool _logAll;
     bool _recordFractions;
-- 
2.43.0


From d1f4aa2b757328fff83566f511814062e2bdbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 38/69] fix: refuse a basin with a land cover that no structure
 of the unit has

---
 core/src/spatial/SubBasin.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index b88468b..955c526 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -72,6 +72,11 @@ ModelResult SubBasin::AssignFractions(SettingsBasin& basinSettings) {
                 // non-glacier unit on a glacier-free structure); skip it then.
                 auto* genericBrick = _hydroUnits[iUnit]->TryGetBrick(elementSettings.name);
                 if (genericBrick == nullptr) {
+                    if (!NearlyZero(elementSettings.fraction, PRECISION)) {
+                        return std::unexpected(
+                            std::format("The model structure has no land cover '{}' (needed by the hydro unit {}).",
+                                        elementSettings.name, _hydroUnits[iUnit]->GetId()));
+                    }
                     continue;
                 }
                 auto brick = dynamic_cast<LandCover*>(genericBrick);
-- 
2.43.0


From b7ecfab211f1b82b21e2651a23bdd9cdf1d95b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 39/69] fix: keep the corrected land cover fractions on reset

---
 core/src/base/ModelHydro.cpp   | 3 +++
 core/src/spatial/HydroUnit.cpp | 8 +++++++-
 core/src/spatial/HydroUnit.h   | 5 +++++
 core/src/spatial/SubBasin.cpp  | 6 ++++++
 core/src/spatial/SubBasin.h    | 5 +++++
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 97d6e5b..650f3fe 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -69,6 +69,9 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
             return std::unexpected("Sub-basin failed validation after initialization.");
         }
 
+        // The validation may have corrected rounding errors in the declared extents.
+        _subBasin->SaveInitialAreaFractions();
+
         builder.ConnectLoggerToValues(modelSettings);
     } catch (const std::exception& e) {
         return std::unexpected(std::format("Model initialization failed: {}", e.what()));
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 42068fd..d078c6f 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -326,7 +326,7 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
 
             // Assign the difference to the first land cover brick with a positive area fraction.
             for (auto brick : _landCoverBricks) {
-                if (brick->GetAreaFraction() > diff) {
+                if (brick->GetAreaFraction() > std::max(0.0, diff)) {
                     brick->SetAreaFraction(brick->GetAreaFraction() - diff);
                     break;
                 }
@@ -480,6 +480,12 @@ void HydroUnit::RestoreInitialAreaFractions() {
     }
 }
 
+void HydroUnit::SaveInitialAreaFractions() {
+    for (auto brick : _landCoverBricks) {
+        brick->SetInitialAreaFraction(brick->GetAreaFraction());
+    }
+}
+
 bool HydroUnit::FixLandCoverFractionsTotal() {
     // The generic (soil) land cover absorbs the area changes.
     LandCover* ground = GetGenericLandCover();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index 565879b..fe14399 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -325,6 +325,11 @@ class HydroUnit {
      */
     void RestoreInitialAreaFractions();
 
+    /**
+     * Adopt the current area fractions of all land covers as the initial extents.
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Get the generic land cover that absorbs area changes ('open', or its
      * 'ground'/'generic'/'generic_land_cover' aliases).
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index 955c526..8889edd 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -132,6 +132,12 @@ void SubBasin::RestoreInitialAreaFractions() {
     }
 }
 
+void SubBasin::SaveInitialAreaFractions() {
+    for (const auto& hydroUnit : _hydroUnits) {
+        hydroUnit->SaveInitialAreaFractions();
+    }
+}
+
 bool SubBasin::IsValid(bool checkProcesses) const {
     if (_hydroUnits.empty()) {
         LogError("The sub basin has no hydro unit attached.");
diff --git a/core/src/spatial/SubBasin.h b/core/src/spatial/SubBasin.h
index 59d5a68..b345be0 100644
--- a/core/src/spatial/SubBasin.h
+++ b/core/src/spatial/SubBasin.h
@@ -117,6 +117,11 @@ class SubBasin {
      */
     void RestoreInitialAreaFractions();
 
+    /**
+     * Adopt the current area fractions of all land covers as the initial extents.
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Check if the sub basin is correctly defined.
      *
-- 
2.43.0


From 64a212b4afb807ddaa0156054c81d4d02b16005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 40/69] fix: glacier evolution from a unit without glacier: no
 undefined ice, extent kept on reset

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 7 ++++---
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..bb809ba 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -45,10 +45,11 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
-                "The glacier area fraction in hydro unit %d does not match the lookup table "
-                "initial area (%g vs %g).",
+                "The glacier area fraction in hydro unit {} does not match the lookup table "
+                "initial area ({} vs {}).",
                 id, areaInModel, areaRef);
             return false;
         }
@@ -59,7 +60,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = areaRef > 0 ? _tableVolume(0, i) * constants::iceDensity / areaRef : 0.0;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index ea2f6f7..5ef673b 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -47,10 +47,11 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
-                "The glacier area fraction in hydro unit %d does not match the lookup table "
-                "initial area (%g vs %g).",
+                "The glacier area fraction in hydro unit {} does not match the lookup table "
+                "initial area ({} vs {}).",
                 id, areaInModel, areaRef);
             return false;
         }
@@ -61,7 +62,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = areaRef > 0 ? _tableVolume(0, i) * constants::iceDensity / areaRef : 0.0;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From ce09d3010e4c9e0f55a8ec354015819136639a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 41/69] fix: delta-h glacier evolution: stay within the table
 and always apply its extents

---
 .../actions/ActionGlacierEvolutionDeltaH.cpp  | 48 +++++++++----------
 .../actions/ActionGlacierEvolutionDeltaH.h    |  1 -
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 5ef673b..240a957 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -72,9 +72,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
 
 void ActionGlacierEvolutionDeltaH::Reset() {
     // The glacier extent and ice volume are restored from the model's saved initial
-    // state (Glacier::Reset); only the lookup-table cursor needs resetting so the next
-    // run re-applies the evolution from the initial (full-glacier) row.
-    _lastRow = 0;
+    // state (Glacier::Reset); this action keeps no per-run bookkeeping to reset.
 }
 
 bool ActionGlacierEvolutionDeltaH::Apply(double) {
@@ -97,33 +95,30 @@ bool ActionGlacierEvolutionDeltaH::Apply(double) {
     }
 
     // Get the percentage of glacier retreat.
-    double glacierRetreatPc = (_initialGlacierWE - glacierWE) / _initialGlacierWE;
-    glacierRetreatPc = std::max(0.0, glacierRetreatPc);
-
-    // Get the percentage of glacier retreat for each row of the table.
-    int nRows = static_cast<int>(_tableArea.rows());
-    double rowPcIncrement = 1.0 / (nRows - 1);
-
-    // Get corresponding row in the lookup table.
-    int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
-
-    // Update the glacier area for each hydro unit if the row has changed.
-    if (row != _lastRow) {
-        for (int i = 0; i < _hydroUnitIds.size(); ++i) {
-            int id = _hydroUnitIds[i];
-            HydroUnit* unit = subBasin->GetHydroUnitById(id);
-            double fraction = _tableArea(row, i) / unit->GetArea();
-            fraction = CheckLandCoverAreaFraction(_landCoverName, id, fraction, unit->GetArea(), _tableArea(row, i));
-            assert(fraction >= 0 && fraction <= 1);
-            if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
-                return false;
-            }
+    double glacierRetreatPc = 0.0;
+    if (_initialGlacierWE > 0) {
+        glacierRetreatPc = std::max(0.0, (_initialGlacierWE - glacierWE) / _initialGlacierWE);
+    }
+
+    // Get the corresponding row in the lookup table (first: initial glacier, last: no ice left).
+    int lastRow = static_cast<int>(_tableArea.rows()) - 1;
+    int row = std::min(static_cast<int>(glacierRetreatPc * lastRow), lastRow);
+
+    // Update the glacier area for each hydro unit (the extent can also have been changed in between).
+    for (int i = 0; i < _hydroUnitIds.size(); ++i) {
+        int id = _hydroUnitIds[i];
+        HydroUnit* unit = subBasin->GetHydroUnitById(id);
+        double fraction = _tableArea(row, i) / unit->GetArea();
+        fraction = CheckLandCoverAreaFraction(_landCoverName, id, fraction, unit->GetArea(), _tableArea(row, i));
+        assert(fraction >= 0 && fraction <= 1);
+        if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
+            return false;
         }
-        _lastRow = row;
     }
 
     // Update the glacier water equivalent for each hydro unit to spread the glacier ice accordingly.
     double rowVolumeSum = _tableVolume.row(row).sum();
+    double rowAreaSum = _tableArea.row(row).sum();
     for (int i = 0; i < static_cast<int>(_hydroUnitIds.size()); ++i) {
         int id = _hydroUnitIds[i];
         HydroUnit* unit = subBasin->GetHydroUnitById(id);
@@ -133,7 +128,8 @@ bool ActionGlacierEvolutionDeltaH::Apply(double) {
             brick->UpdateContent(0, ContentType::Ice);
             assert(NearlyZero(_tableVolume(row, i), PRECISION));
         } else {
-            double volumeRatio = _tableVolume(row, i) / rowVolumeSum;
+            // Spread by area if the row has no ice volume.
+            double volumeRatio = rowVolumeSum > 0 ? _tableVolume(row, i) / rowVolumeSum : areaGlacier / rowAreaSum;
             double iceWE = glacierWE * volumeRatio / areaGlacier;
             brick->UpdateContent(iceWE, ContentType::Ice);
         }
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.h b/core/src/actions/ActionGlacierEvolutionDeltaH.h
index e1cd801..58e83ce 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.h
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.h
@@ -80,7 +80,6 @@ class ActionGlacierEvolutionDeltaH : public Action {
     }
 
   protected:
-    int _lastRow{0};
     string _landCoverName;
     axi _hydroUnitIds;
     axxd _tableArea;
-- 
2.43.0


From f8917e1e6b8f99fd45ff2866455711b2c4d50273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 42/69] fix: area scaling glacier evolution: stay within the
 table, no infinite ice without area

---
 .../actions/ActionGlacierEvolutionAreaScaling.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index bb809ba..969e44c 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -77,9 +77,8 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
     // Get the list of hydro units.
     auto subBasin = _manager->GetModel()->GetSubBasin();
 
-    // Get the percentage of glacier retreat for each row of the table.
-    int nRows = static_cast<int>(_tableArea.rows());
-    double rowPcIncrement = 1.0 / (nRows - 1);
+    // Index of the last row of the lookup table (no ice left).
+    int lastRow = static_cast<int>(_tableArea.rows()) - 1;
 
     // Change the glacier area for each hydro unit based on the lookup table.
     for (int i = 0; i < _hydroUnitIds.size(); ++i) {
@@ -100,11 +99,13 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
         }
 
         // Get the percentage of glacier retreat for the current hydro unit.
-        double glacierRetreatPc = (_initialGlacierWE[i] - iceVolume) / _initialGlacierWE[i];
-        glacierRetreatPc = std::max(0.0, glacierRetreatPc);
+        double glacierRetreatPc = 0.0;
+        if (_initialGlacierWE[i] > 0) {
+            glacierRetreatPc = std::max(0.0, (_initialGlacierWE[i] - iceVolume) / _initialGlacierWE[i]);
+        }
 
         // Get corresponding row in the lookup table.
-        int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
+        int row = std::min(static_cast<int>(glacierRetreatPc * lastRow), lastRow);
 
         // Update the glacier area.
         double newArea = _tableArea(row, i);
@@ -116,7 +117,7 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
         }
 
         // Update the glacier water equivalent to match the new area.
-        double iceWE = iceVolume / newArea;  // Convert glacier water equivalent to mm w.e.
+        double iceWE = NearlyZero(newArea, PRECISION) ? 0.0 : iceVolume / newArea;  // Convert to mm w.e.
         brick->UpdateContent(iceWE, ContentType::Ice);
     }
 
-- 
2.43.0


From 0358afc01d9793ce87d222833778f4b9c9d17474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 43/69] fix: refuse glacier evolution tables that do not fit
 together

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 10 ++++++++++
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 969e44c..88461e2 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -8,6 +8,16 @@ ActionGlacierEvolutionAreaScaling::ActionGlacierEvolutionAreaScaling() = default
 
 void ActionGlacierEvolutionAreaScaling::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                         const axxd& areas, const axxd& volumes) {
+    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw ModelConfigError(
+            "The glacier evolution lookup tables must have at least one row, the same size, and one column per hydro "
+            "unit.");
+    }
+    if (!(areas >= 0).all() || !(volumes >= 0).all()) {
+        throw ModelConfigError("The glacier evolution lookup tables can only contain positive values.");
+    }
+
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 240a957..08006b0 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -8,6 +8,16 @@ ActionGlacierEvolutionDeltaH::ActionGlacierEvolutionDeltaH() = default;
 
 void ActionGlacierEvolutionDeltaH::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                    const axxd& areas, const axxd& volumes) {
+    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw ModelConfigError(
+            "The glacier evolution lookup tables must have at least one row, the same size, and one column per hydro "
+            "unit.");
+    }
+    if (!(areas >= 0).all() || !(volumes >= 0).all()) {
+        throw ModelConfigError("The glacier evolution lookup tables can only contain positive values.");
+    }
+
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
-- 
2.43.0


From 3895c50c26b04d2aadb3fdc0b2f6154056e3cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 44/69] fix: check the shape of the NetCDF variables before
 reading them

---
 core/src/base/FileNetcdf.cpp | 95 +++++++++++++++++++++++++-----------
 core/src/base/FileNetcdf.h   | 16 ++++++
 2 files changed, 82 insertions(+), 29 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 35a0760..abc16e7 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -7,7 +7,10 @@ FileNetcdf::FileNetcdf()
 
 FileNetcdf::~FileNetcdf() {
     if (_ncId >= 0) {
-        CheckNcStatus(nc_close(_ncId));
+        int status = nc_close(_ncId);
+        if (status != NC_NOERR) {
+            LogError("NetCDF error: {}", nc_strerror(status));
+        }
     }
 }
 
@@ -19,6 +22,24 @@ void FileNetcdf::CheckNcStatus(int status) const {
     }
 }
 
+void FileNetcdf::CheckVarSize(int varId, size_t size) const {
+    int dimCount;
+    CheckNcStatus(nc_inq_varndims(_ncId, varId, &dimCount));
+    vecInt dimIds(dimCount);
+    CheckNcStatus(nc_inq_vardimid(_ncId, varId, dimIds.data()));
+
+    size_t varSize = 1;
+    for (int dimId : dimIds) {
+        size_t dimLen;
+        CheckNcStatus(nc_inq_dimlen(_ncId, dimId, &dimLen));
+        varSize *= dimLen;
+    }
+    if (varSize != size) {
+        throw InputError(std::format("The variable '{}' contains {} values instead of {}.", GetVarName(varId), varSize,
+                                     size));
+    }
+}
+
 bool FileNetcdf::OpenReadOnly(const string& path) {
     if (!std::filesystem::exists(path)) {
         LogError("The file {} could not be found.", path);
@@ -68,9 +89,21 @@ string FileNetcdf::GetVarName(int varId) const {
     return {varNameChar};
 }
 
+int FileNetcdf::GetVarDimCount(int varId) const {
+    int dimCount;
+    CheckNcStatus(nc_inq_varndims(_ncId, varId, &dimCount));
+
+    return dimCount;
+}
+
 vecInt FileNetcdf::GetVarDimIds(int varId, int dimCount) const {
+    int varDimCount = GetVarDimCount(varId);
+    if (varDimCount != dimCount) {
+        throw InputError(std::format("The variable '{}' has {} dimension(s) instead of {}.", GetVarName(varId),
+                                     varDimCount, dimCount));
+    }
     vecInt dimIds(dimCount);
-    CheckNcStatus(nc_inq_vardimid(_ncId, varId, &dimIds[0]));
+    CheckNcStatus(nc_inq_vardimid(_ncId, varId, dimIds.data()));
 
     return dimIds;
 }
@@ -100,7 +133,7 @@ int FileNetcdf::GetDimLen(const string& dimName) const {
 
 int FileNetcdf::DefVarInt(const string& varName, vecInt dimIds, int dimCount, bool compress) {
     int varId;
-    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_INT, dimCount, &dimIds[0], &varId));
+    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_INT, dimCount, dimIds.data(), &varId));
 
     if (compress) {
         CheckNcStatus(nc_def_var_deflate(_ncId, varId, NC_SHUFFLE, true, 7));
@@ -111,7 +144,7 @@ int FileNetcdf::DefVarInt(const string& varName, vecInt dimIds, int dimCount, bo
 
 int FileNetcdf::DefVarFloat(const string& varName, vecInt dimIds, int dimCount, bool compress) {
     int varId;
-    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_FLOAT, dimCount, &dimIds[0], &varId));
+    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_FLOAT, dimCount, dimIds.data(), &varId));
 
     if (compress) {
         CheckNcStatus(nc_def_var_deflate(_ncId, varId, NC_SHUFFLE, true, 7));
@@ -122,7 +155,7 @@ int FileNetcdf::DefVarFloat(const string& varName, vecInt dimIds, int dimCount,
 
 int FileNetcdf::DefVarDouble(const string& varName, vecInt dimIds, int dimCount, bool compress) {
     int varId;
-    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_DOUBLE, dimCount, &dimIds[0], &varId));
+    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_DOUBLE, dimCount, dimIds.data(), &varId));
 
     if (compress) {
         CheckNcStatus(nc_def_var_deflate(_ncId, varId, NC_SHUFFLE, true, 7));
@@ -136,7 +169,8 @@ vecInt FileNetcdf::GetVarInt1D(const string& varName, int size) const {
     vecInt items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_int(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_int(_ncId, varId, items.data()));
 
     return items;
 }
@@ -146,7 +180,8 @@ vecFloat FileNetcdf::GetVarFloat1D(const string& varName, int size) const {
     vecFloat items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_float(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_float(_ncId, varId, items.data()));
 
     return items;
 }
@@ -156,39 +191,41 @@ vecDouble FileNetcdf::GetVarDouble1D(const string& varName, int size) const {
     vecDouble items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_double(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_double(_ncId, varId, items.data()));
 
     return items;
 }
 
 axxd FileNetcdf::GetVarDouble2D(int varId, int rows, int cols) const {
     axxd values = axxd::Zero((long long)rows, (long long)cols);
+    CheckVarSize(varId, static_cast<size_t>(values.size()));
     CheckNcStatus(nc_get_var_double(_ncId, varId, values.data()));
 
     return values;
 }
 
 void FileNetcdf::PutVar(int varId, const vecInt& values) {
-    CheckNcStatus(nc_put_var_int(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_int(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecFloat& values) {
-    CheckNcStatus(nc_put_var_float(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_float(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecDouble& values) {
-    CheckNcStatus(nc_put_var_double(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_double(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const axd& values) {
-    CheckNcStatus(nc_put_var_double(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_double(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecAxd& values) {
     for (size_t i = 0; i < values.size(); ++i) {
         size_t start[] = {i, 0};
         size_t count[] = {1, (size_t)values[i].size()};
-        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, &values[i](0)));
+        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, values[i].data()));
     }
 }
 
@@ -196,7 +233,7 @@ void FileNetcdf::PutVar(int varId, const vecAxxd& values) {
     for (size_t i = 0; i < values.size(); ++i) {
         size_t start[] = {i, 0, 0};
         size_t count[] = {1, (size_t)values[i].cols(), (size_t)values[i].rows()};
-        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, &values[i](0, 0)));
+        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, values[i].data()));
     }
 }
 
@@ -221,19 +258,22 @@ vecStr FileNetcdf::GetAttString1D(const string& attName, const string& varName)
         CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
     }
 
+    // A single string can be stored as text.
+    nc_type attType;
     size_t itemCount;
-    CheckNcStatus(nc_inq_attlen(_ncId, varId, attName.c_str(), &itemCount));
+    CheckNcStatus(nc_inq_att(_ncId, varId, attName.c_str(), &attType, &itemCount));
+    if (attType == NC_CHAR) {
+        return {GetAttText(attName, varName)};
+    }
 
-    char** stringAtt = static_cast<char**>(malloc(itemCount * sizeof(char*)));
-    memset(stringAtt, 0, itemCount * sizeof(char*));
-    CheckNcStatus(nc_get_att_string(_ncId, varId, attName.c_str(), stringAtt));
+    vector<char*> stringAtt(itemCount, nullptr);
+    CheckNcStatus(nc_get_att_string(_ncId, varId, attName.c_str(), stringAtt.data()));
 
     vecStr items;
-    for (int i = 0; i < itemCount; ++i) {
-        string attValue = string(stringAtt[i]);
-        items.push_back(attValue);
+    for (const char* item : stringAtt) {
+        items.emplace_back(item != nullptr ? item : "");
     }
-    nc_free_string(itemCount, stringAtt);
+    nc_free_string(itemCount, stringAtt.data());
 
     return items;
 }
@@ -244,7 +284,7 @@ void FileNetcdf::PutAttString(const string& attName, const vecStr& values, int v
         const char* str = static_cast<const char*>(label.c_str());
         valuesChar.push_back(str);
     }
-    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), &valuesChar[0]));
+    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), valuesChar.data()));
 }
 
 string FileNetcdf::GetAttText(const string& attName, const string& varName) const {
@@ -256,13 +296,10 @@ string FileNetcdf::GetAttText(const string& attName, const string& varName) cons
     size_t attLen;
     CheckNcStatus(nc_inq_attlen(_ncId, varId, attName.c_str(), &attLen));
 
-    auto* text = new char[attLen + 1];
-    CheckNcStatus(nc_get_att_text(_ncId, varId, attName.c_str(), text));
-    text[attLen] = '\0';
-    string value = string(text);
-    delete[] text;
+    vector<char> text(attLen + 1, '\0');
+    CheckNcStatus(nc_get_att_text(_ncId, varId, attName.c_str(), text.data()));
 
-    return value;
+    return {text.data()};
 }
 
 void FileNetcdf::PutAttText(const string& attName, const string& value, int varId) {
diff --git a/core/src/base/FileNetcdf.h b/core/src/base/FileNetcdf.h
index a2b6d7d..f5fc95c 100644
--- a/core/src/base/FileNetcdf.h
+++ b/core/src/base/FileNetcdf.h
@@ -55,6 +55,14 @@ class FileNetcdf {
      */
     string GetVarName(int varId) const;
 
+    /**
+     * Get the number of dimensions of a variable.
+     *
+     * @param varId The id of the variable of interest.
+     * @return The number of dimensions.
+     */
+    int GetVarDimCount(int varId) const;
+
     /**
      * Get the dimension ids of the provided variable.
      *
@@ -270,6 +278,14 @@ class FileNetcdf {
      * @param status The NetCDF status to check.
      */
     void CheckNcStatus(int status) const;
+
+    /**
+     * Check that a variable has the expected number of values (all dimensions) and throw an exception otherwise.
+     *
+     * @param varId The id of the variable of interest.
+     * @param size The expected number of values.
+     */
+    void CheckVarSize(int varId, size_t size) const;
 };
 
 #endif  // HYDROBRICKS_FILE_NETCDF_H
-- 
2.43.0


From f9e43bffea1d0f44d04850168ae48ba67aa2c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 45/69] fix: refuse forcing files with other dimensions or time
 units, keep the list unchanged on failure

---
 core/src/base/TimeSeries.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index e14ed77..3c210e1 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -25,6 +25,12 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
         // Get time
         vecDouble time = file.GetVarDouble1D("time", timeLength);
+        if (file.HasAtt("units", "time")) {
+            string units = file.GetAttText("units", "time");
+            if (!units.starts_with("days since 1858-11-17")) {
+                throw InputError(std::format("The time units must be 'days since 1858-11-17' (got '{}').", units));
+            }
+        }
         double start, end;
         int timeStep;
         TimeUnit timeUnit;
@@ -37,6 +43,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         int varCount = file.GetVariableCount();
 
         int dimIdTime = file.GetDimId("time");
+        int dimIdHydroUnits = file.GetDimId("hydro_units");
+
+        vector<std::unique_ptr<TimeSeries>> parsedTimeSeries;
 
         for (int iVar = 0; iVar < varCount; ++iVar) {
             // Get variable name
@@ -54,8 +63,13 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
             // Retrieve values from netCDF
             vecInt dimIds = file.GetVarDimIds(iVar, 2);
+            bool timeFirst = dimIds[0] == dimIdTime && dimIds[1] == dimIdHydroUnits;
+            if (!timeFirst && !(dimIds[0] == dimIdHydroUnits && dimIds[1] == dimIdTime)) {
+                throw InputError(
+                    std::format("The dimensions of the variable '{}' must be time and hydro_units.", varName));
+            }
 
-            if (dimIds[0] == dimIdTime) {
+            if (timeFirst) {
                 axxd values = file.GetVarDouble2D(iVar, unitCount, timeLength);
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
@@ -78,6 +92,11 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 }
             }
 
+            parsedTimeSeries.push_back(std::move(timeSeries));
+        }
+
+        // Only provide the time series once the whole file could be read.
+        for (auto& timeSeries : parsedTimeSeries) {
             vecTimeSeries.push_back(std::move(timeSeries));
         }
 
-- 
2.43.0


From 15aa213cc22719195702426b33a7590d4c0908ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 46/69] fix: basin files: complete and all-or-nothing reading
 of the hydro units

---
 core/src/base/SettingsBasin.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 2791f08..5ebd76a 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -59,6 +59,7 @@ void SettingsBasin::AddLateralConnection(int giverHydroUnitId, int receiverHydro
 
 void SettingsBasin::Clear() {
     _hydroUnits.clear();
+    _lateralConnections.clear();
     _selectedHydroUnit = nullptr;
 }
 
@@ -92,12 +93,21 @@ bool SettingsBasin::Parse(const string& path) {
         // Get areas
         vecDouble areas = file.GetVarDouble1D("area", unitCount);
 
+        // Get elevations
+        vecDouble elevations(unitCount, -9999);
+        if (file.HasVar("elevation")) {
+            elevations = file.GetVarDouble1D("elevation", unitCount);
+        }
+
         // Store hydro units
+        vector<HydroUnitSettings> hydroUnits;
+        hydroUnits.reserve(unitCount);
         for (int iUnit = 0; iUnit < unitCount; ++iUnit) {
             HydroUnitSettings unit;
             unit.id = ids[iUnit];
             unit.area = areas[iUnit];
-            _hydroUnits.push_back(unit);
+            unit.elevation = elevations[iUnit];
+            hydroUnits.push_back(unit);
         }
 
         // Get land cover data
@@ -112,7 +122,7 @@ bool SettingsBasin::Parse(const string& path) {
                 element.name = cover;
                 element.type = type;
                 element.fraction = fractions[iUnit];
-                _hydroUnits[iUnit].landCovers.push_back(element);
+                hydroUnits[iUnit].landCovers.push_back(element);
             }
         }
 
@@ -128,22 +138,27 @@ bool SettingsBasin::Parse(const string& path) {
                 continue;
             }
 
-            vecInt dimId = file.GetVarDimIds(iVar, 1);
-            if (dimId[0] != dimIdHydroUnits) {
+            // Only the variables with a single value per hydro unit are properties
+            if (file.GetVarDimCount(iVar) != 1 || file.GetVarDimIds(iVar, 1)[0] != dimIdHydroUnits) {
                 continue;
             }
 
             vecDouble values = file.GetVarDouble1D(varName, unitCount);
+            string unit = file.HasAtt("units", varName) ? file.GetAttText("units", varName) : "";
 
             for (int iUnit = 0; iUnit < unitCount; ++iUnit) {
                 HydroUnitPropertyDouble prop;
                 prop.name = varName;
                 prop.value = values[iUnit];
-                prop.unit = "";
-                _hydroUnits[iUnit].propertiesDouble.push_back(prop);
+                prop.unit = unit;
+                hydroUnits[iUnit].propertiesDouble.push_back(prop);
             }
         }
 
+        // Only store the hydro units once the whole file could be read
+        _hydroUnits.insert(_hydroUnits.end(), hydroUnits.begin(), hydroUnits.end());
+        _selectedHydroUnit = nullptr;
+
     } catch (std::exception& e) {
         LogError(e.what());
         return false;
-- 
2.43.0


From 2e18ffe56bba597ad1b8d6fa61aa7edfa6349461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 47/69] fix: refuse unknown connections and invalid fractions
 or areas of the hydro units

---
 core/src/spatial/HydroUnit.cpp | 2 +-
 core/src/spatial/SubBasin.cpp  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index d078c6f..17febb3 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -303,7 +303,7 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
     for (const auto& splitter : _splitters) {
         if (!splitter->IsValid()) return false;
     }
-    if (_area <= 0) {
+    if (!(_area > 0) || std::isinf(_area)) {
         LogError("The hydro unit area has not been defined.");
         return false;
     }
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index 8889edd..3590567 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -49,7 +49,8 @@ void SubBasin::BuildBasin(SettingsBasin& basinSettings) {
         if (giver && receiver) {
             giver->AddLateralConnection(receiver, connection.fraction, connection.type);
         } else {
-            LogError("Invalid hydro unit IDs in lateral connection settings.");
+            throw ModelConfigError(std::format("Invalid hydro unit IDs in the lateral connection settings ({} -> {}).",
+                                               connection.giverHydroUnitId, connection.receiverHydroUnitId));
         }
     }
 }
@@ -67,6 +68,11 @@ ModelResult SubBasin::AssignFractions(SettingsBasin& basinSettings) {
 
             for (int iElement = 0; iElement < landCoverCount; ++iElement) {
                 LandCoverSettings elementSettings = basinSettings.GetLandCoverSettings(iElement);
+                if (!(elementSettings.fraction >= -PRECISION && elementSettings.fraction <= 1 + TOLERANCE_LOOSE)) {
+                    return std::unexpected(
+                        std::format("The fraction ({}) of the land cover '{}' of the hydro unit {} is not valid.",
+                                    elementSettings.fraction, elementSettings.name, _hydroUnits[iUnit]->GetId()));
+                }
 
                 // The unit's structure variant may not include this land cover (e.g. a
                 // non-glacier unit on a glacier-free structure); skip it then.
-- 
2.43.0


From ffffdd55575cf0b030dc4e3b7abf16ef889e3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 48/69] fix: no uninitialised dates in the records before a run

---
 core/src/base/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index 4bf6fb4..d1ee9c2 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -22,7 +22,7 @@ void Logger::InitContainers(int timeSize, SubBasin* subBasin, SettingsModel& mod
     vecDouble hydroUnitAreas = subBasin->GetHydroUnitAreas();
     vecStr subBasinLabels = modelSettings.GetSubBasinLogLabels();
     vecStr hydroUnitLabels = modelSettings.GetHydroUnitLogLabels();
-    _time.resize(timeSize);
+    _time = axd::Ones(timeSize) * NAN_D;
     _subBasinLabels = subBasinLabels;
     _subBasinInitialValues = axd::Ones(subBasinLabels.size()) * NAN_D;
     _subBasinValues = vecAxd(subBasinLabels.size(), axd::Ones(timeSize) * NAN_D);
-- 
2.43.0


From de7590012aa74ea26e043d6907733f5d619ee77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 49/69] fix: convert the properties given in degrees

---
 core/src/spatial/HydroUnitProperty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 0f329ff..235536b 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -21,7 +21,7 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
         return _value;
     }
     if (_unit == "degrees" || _unit == "degree" || _unit == "deg" || _unit == "°") {
-        if (unit == "degrees" || _unit == "degree" || unit == "deg" || _unit == "°") {
+        if (unit == "degrees" || unit == "degree" || unit == "deg" || unit == "°") {
             return _value;
         }
         if (unit == "radians" || unit == "rad") {
-- 
2.43.0


From 7720b461c9b8f58d0fb46bb375b45d270b7da3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 50/69] fix: refuse the properties which cannot be converted to
 the needed unit

---
 core/src/spatial/HydroUnitProperty.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 235536b..934bfb1 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -42,9 +42,8 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
             return _value / 1000000.0;
         }
     }
-    LogError("The unit '{}' is not supported for the property '{}'.", unit, _name);
 
-    return NAN_D;
+    throw InputError(std::format("The property '{}' cannot be converted from '{}' to '{}'.", _name, _unit, unit));
 }
 
 string HydroUnitProperty::GetValueString() const {
-- 
2.43.0


From baf76887751b52f285a6c01a962d7b52c39cf953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:40 +0000
Subject: [PATCH 51/69] fix: refuse a missing fraction of a lateral connection

---
 core/src/spatial/HydroUnit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 17febb3..946ffa7 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -218,7 +218,7 @@ Forcing* HydroUnit::GetForcing(VariableType type) const {
 
 void HydroUnit::AddLateralConnection(HydroUnit* receiver, double fraction, const string& type) {
     assert(receiver);
-    if (fraction <= 0 || fraction > 1) {
+    if (!(fraction > 0 && fraction <= 1)) {
         throw ModelConfigError(std::format("The fraction ({}) is not in the range ]0 .. 1]", fraction));
     }
     _lateralConnections.push_back(std::make_unique<HydroUnitLateralConnection>(receiver, fraction, type));
-- 
2.43.0


From d7079b06bc798af0522a6440e51157d22e8d9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 52/69] fix: refuse the settings calls without a selected
 element or with an invalid index

---
 core/src/base/SettingsBasin.cpp | 20 ++++++--
 core/src/base/SettingsBasin.h   | 28 ++++++++---
 core/src/base/SettingsModel.cpp | 86 ++++++++++++++++++++++-----------
 core/src/base/SettingsModel.h   | 34 ++++++++++++-
 4 files changed, 126 insertions(+), 42 deletions(-)

diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 5ebd76a..f2b2c45 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -18,7 +18,7 @@ void SettingsBasin::AddHydroUnit(int id, double area, double elevation) {
 }
 
 void SettingsBasin::AddLandCover(const string& name, const string& type, double fraction) {
-    assert(_selectedHydroUnit);
+    CheckHydroUnitSelected();
 
     LandCoverSettings element;
     element.name = name;
@@ -28,7 +28,7 @@ void SettingsBasin::AddLandCover(const string& name, const string& type, double
 }
 
 void SettingsBasin::AddHydroUnitPropertyDouble(const string& name, double value, const string& unit) {
-    assert(_selectedHydroUnit);
+    CheckHydroUnitSelected();
 
     HydroUnitPropertyDouble property;
     property.name = name;
@@ -38,7 +38,7 @@ void SettingsBasin::AddHydroUnitPropertyDouble(const string& name, double value,
 }
 
 void SettingsBasin::AddHydroUnitPropertyString(const string& name, const string& value) {
-    assert(_selectedHydroUnit);
+    CheckHydroUnitSelected();
 
     HydroUnitPropertyString property;
     property.name = name;
@@ -64,7 +64,7 @@ void SettingsBasin::Clear() {
 }
 
 void SettingsBasin::SelectUnit(int index) {
-    assert(_hydroUnits.size() > index);
+    CheckIndex(index, _hydroUnits.size(), "hydro unit");
     _selectedHydroUnit = &_hydroUnits[index];
 }
 
@@ -175,3 +175,15 @@ double SettingsBasin::GetTotalArea() const {
 
     return sum;
 }
+
+void SettingsBasin::CheckHydroUnitSelected() const {
+    if (!_selectedHydroUnit) {
+        throw ModelConfigError("No hydro unit was selected.");
+    }
+}
+
+void SettingsBasin::CheckIndex(int index, size_t size, const string& item) {
+    if (index < 0 || static_cast<size_t>(index) >= size) {
+        throw ModelConfigError(std::format("There is no {} with the index {}.", item, index));
+    }
+}
diff --git a/core/src/base/SettingsBasin.h b/core/src/base/SettingsBasin.h
index b51b44a..e26e98a 100644
--- a/core/src/base/SettingsBasin.h
+++ b/core/src/base/SettingsBasin.h
@@ -123,7 +123,7 @@ class SettingsBasin {
      * @return pointer to the selected hydro unit.
      */
     HydroUnitSettings GetHydroUnitSettings(int index) const {
-        assert(_hydroUnits.size() > index);
+        CheckIndex(index, _hydroUnits.size(), "hydro unit");
         return _hydroUnits[index];
     }
 
@@ -134,8 +134,8 @@ class SettingsBasin {
      * @return pointer to the selected land cover.
      */
     LandCoverSettings GetLandCoverSettings(int index) const {
-        assert(_selectedHydroUnit);
-        assert(_selectedHydroUnit->landCovers.size() > index);
+        CheckHydroUnitSelected();
+        CheckIndex(index, _selectedHydroUnit->landCovers.size(), "land cover");
         return _selectedHydroUnit->landCovers[index];
     }
 
@@ -146,8 +146,8 @@ class SettingsBasin {
      * @return pointer to the selected surface component.
      */
     SurfaceComponentSettings GetSurfaceComponentSettings(int index) const {
-        assert(_selectedHydroUnit);
-        assert(_selectedHydroUnit->surfaceComponents.size() > index);
+        CheckHydroUnitSelected();
+        CheckIndex(index, _selectedHydroUnit->surfaceComponents.size(), "surface component");
         return _selectedHydroUnit->surfaceComponents[index];
     }
 
@@ -175,7 +175,7 @@ class SettingsBasin {
      * @return number of land covers.
      */
     int GetLandCoverCount() const {
-        assert(_selectedHydroUnit);
+        CheckHydroUnitSelected();
         return static_cast<int>(_selectedHydroUnit->landCovers.size());
     }
 
@@ -185,7 +185,7 @@ class SettingsBasin {
      * @return number of surface components.
      */
     int GetSurfaceComponentCount() const {
-        assert(_selectedHydroUnit);
+        CheckHydroUnitSelected();
         return static_cast<int>(_selectedHydroUnit->surfaceComponents.size());
     }
 
@@ -209,6 +209,20 @@ class SettingsBasin {
     vector<HydroUnitSettings> _hydroUnits;
     vector<LateralConnectionSettings> _lateralConnections;
     HydroUnitSettings* _selectedHydroUnit;  // non-owning reference
+
+    /**
+     * Check that a hydro unit is selected (throws a ModelConfigError otherwise).
+     */
+    void CheckHydroUnitSelected() const;
+
+    /**
+     * Check the index of an item (throws a ModelConfigError if out of range).
+     *
+     * @param index index of the item.
+     * @param size number of items.
+     * @param item name of the kind of item (for the error message).
+     */
+    static void CheckIndex(int index, size_t size, const string& item);
 };
 
 #endif  // HYDROBRICKS_SETTING_BASIN_H
diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 6196603..4415af2 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -102,12 +102,12 @@ void SettingsModel::AddSurfaceComponentBrick(const string& name, const string& t
 }
 
 void SettingsModel::SetSurfaceComponentParent(const string& name) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     _selectedBrick->parent = name;
 }
 
 void SettingsModel::AddBrickParameter(const string& name, float value, const string& type) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
 
     if (type != "constant") {
         throw NotImplemented(std::format("SettingsModel::AddBrickParameter - Parameter type '{}' not supported", type));
@@ -117,7 +117,7 @@ void SettingsModel::AddBrickParameter(const string& name, float value, const str
 }
 
 void SettingsModel::SetBrickParameterValue(const string& name, float value, const string& type) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
 
     if (type != "constant") {
         throw NotImplemented(
@@ -136,12 +136,12 @@ void SettingsModel::SetBrickParameterValue(const string& name, float value, cons
 }
 
 void SettingsModel::SetCurrentBrickComputedDirectly() {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     _selectedBrick->computedDirectly = true;
 }
 
 bool SettingsModel::BrickHasParameter(const string& name) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     for (auto& parameter : _selectedBrick->parameters) {
         if (parameter.GetName() == name) {
             return true;
@@ -152,7 +152,7 @@ bool SettingsModel::BrickHasParameter(const string& name) {
 }
 
 void SettingsModel::AddBrickForcing(const string& name) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
 
     if (name == "precipitation") {
         _selectedBrick->forcing.push_back(VariableType::Precipitation);
@@ -169,7 +169,7 @@ void SettingsModel::AddBrickForcing(const string& name) {
 }
 
 void SettingsModel::AddBrickProcess(const string& name, const string& type, const string& target, bool log) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
 
     LogDebug("Adding brick process to brick: {}, process name: {}, process type: {}, target: {}", _selectedBrick->name,
              name, type, target);
@@ -207,7 +207,7 @@ void SettingsModel::AddBrickProcess(const string& name, const string& type, cons
 }
 
 void SettingsModel::AddProcessParameter(const string& name, float value, const string& type) {
-    assert(_selectedProcess);
+    CheckProcessSelected();
 
     if (type != "constant") {
         throw NotImplemented(
@@ -226,7 +226,7 @@ void SettingsModel::AddProcessParameter(const string& name, float value, const s
 }
 
 void SettingsModel::SetProcessParameterValue(const string& name, float value, const string& type) {
-    assert(_selectedProcess);
+    CheckProcessSelected();
 
     if (type != "constant") {
         throw NotImplemented(
@@ -245,7 +245,7 @@ void SettingsModel::SetProcessParameterValue(const string& name, float value, co
 }
 
 void SettingsModel::AddProcessForcing(const string& name) {
-    assert(_selectedProcess);
+    CheckProcessSelected();
 
     if (name == "precipitation") {
         _selectedProcess->forcing.push_back(VariableType::Precipitation);
@@ -268,7 +268,7 @@ void SettingsModel::AddProcessForcing(const string& name) {
 }
 
 void SettingsModel::AddProcessOutput(const string& target, ContentType fluxType) {
-    assert(_selectedProcess);
+    CheckProcessSelected();
 
     OutputSettings outputSettings;
     outputSettings.target = target;
@@ -277,7 +277,7 @@ void SettingsModel::AddProcessOutput(const string& target, ContentType fluxType)
 }
 
 void SettingsModel::SetProcessOutputsAsInstantaneous() {
-    assert(_selectedProcess);
+    CheckProcessSelected();
 
     for (auto& output : _selectedProcess->outputs) {
         output.isInstantaneous = true;
@@ -285,7 +285,7 @@ void SettingsModel::SetProcessOutputsAsInstantaneous() {
 }
 
 void SettingsModel::SetProcessOutputsAsStatic() {
-    assert(_selectedProcess);
+    CheckProcessSelected();
 
     for (auto& output : _selectedProcess->outputs) {
         output.isStatic = true;
@@ -293,8 +293,8 @@ void SettingsModel::SetProcessOutputsAsStatic() {
 }
 
 void SettingsModel::OutputProcessToSameBrick() {
-    assert(_selectedBrick);
-    assert(_selectedProcess);
+    CheckBrickSelected();
+    CheckProcessSelected();
 
     OutputSettings outputSettings;
     outputSettings.target = _selectedBrick->name;
@@ -325,7 +325,7 @@ void SettingsModel::AddSubBasinSplitter(const string& name, const string& type)
 }
 
 void SettingsModel::AddSplitterParameter(const string& name, float value, const string& type) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
 
     if (type != "constant") {
         throw NotImplemented(
@@ -336,7 +336,7 @@ void SettingsModel::AddSplitterParameter(const string& name, float value, const
 }
 
 void SettingsModel::SetSplitterParameterValue(const string& name, float value, const string& type) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
 
     if (type != "constant") {
         throw NotImplemented(
@@ -355,7 +355,7 @@ void SettingsModel::SetSplitterParameterValue(const string& name, float value, c
 }
 
 void SettingsModel::AddSplitterForcing(const string& name) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
 
     if (name == "precipitation") {
         _selectedSplitter->forcing.push_back(VariableType::Precipitation);
@@ -376,7 +376,7 @@ void SettingsModel::AddSplitterForcing(const string& name) {
 }
 
 void SettingsModel::AddSplitterOutput(const string& target, const ContentType fluxType) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
 
     OutputSettings outputSettings;
     outputSettings.target = target;
@@ -385,7 +385,7 @@ void SettingsModel::AddSplitterOutput(const string& target, const ContentType fl
 }
 
 void SettingsModel::ChangeSplitterOutputTarget(const string& currentTarget, const string& newTarget) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
 
     for (auto& output : _selectedSplitter->outputs) {
         if (output.target == currentTarget) {
@@ -399,7 +399,7 @@ void SettingsModel::ChangeSplitterOutputTarget(const string& currentTarget, cons
 }
 
 bool SettingsModel::ChangeSplitterOutputTargetIfFound(const string& currentTarget, const string& newTarget) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
 
     for (auto& output : _selectedSplitter->outputs) {
         if (output.target == currentTarget) {
@@ -451,7 +451,7 @@ void SettingsModel::AddLoggingToItems(std::initializer_list<const string> items)
 }
 
 void SettingsModel::AddBrickLogging(const string& itemName) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     if (std::find(_selectedBrick->logItems.begin(), _selectedBrick->logItems.end(), itemName) !=
         _selectedBrick->logItems.end()) {
         return;
@@ -460,7 +460,7 @@ void SettingsModel::AddBrickLogging(const string& itemName) {
 }
 
 void SettingsModel::AddBrickLogging(std::initializer_list<const string> items) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     for (const auto& item : items) {
         if (std::find(_selectedBrick->logItems.begin(), _selectedBrick->logItems.end(), item) !=
             _selectedBrick->logItems.end()) {
@@ -471,7 +471,7 @@ void SettingsModel::AddBrickLogging(std::initializer_list<const string> items) {
 }
 
 void SettingsModel::AddProcessLogging(const string& itemName) {
-    assert(_selectedProcess);
+    CheckProcessSelected();
     if (std::find(_selectedProcess->logItems.begin(), _selectedProcess->logItems.end(), itemName) !=
         _selectedProcess->logItems.end()) {
         return;
@@ -480,7 +480,7 @@ void SettingsModel::AddProcessLogging(const string& itemName) {
 }
 
 void SettingsModel::AddSplitterLogging(const string& itemName) {
-    assert(_selectedSplitter);
+    CheckSplitterSelected();
     if (std::find(_selectedSplitter->logItems.begin(), _selectedSplitter->logItems.end(), itemName) !=
         _selectedSplitter->logItems.end()) {
         return;
@@ -669,6 +669,7 @@ bool SettingsModel::SelectStructure(int id) {
 void SettingsModel::SelectHydroUnitBrick(int index) {
     assert(_selectedStructure);
 
+    CheckIndex(index, _selectedStructure->hydroUnitBricks.size(), "brick");
     _selectedBrick = &_selectedStructure->hydroUnitBricks[index];
     _selectedProcess = nullptr;
 }
@@ -676,6 +677,7 @@ void SettingsModel::SelectHydroUnitBrick(int index) {
 void SettingsModel::SelectSubBasinBrick(int index) {
     assert(_selectedStructure);
 
+    CheckIndex(index, _selectedStructure->subBasinBricks.size(), "brick");
     _selectedBrick = &_selectedStructure->subBasinBricks[index];
     _selectedProcess = nullptr;
 }
@@ -725,14 +727,14 @@ void SettingsModel::SelectSubBasinBrick(const string& name) {
 }
 
 void SettingsModel::SelectProcess(int index) {
-    assert(_selectedBrick);
-    assert(!_selectedBrick->processes.empty());
+    CheckBrickSelected();
+    CheckIndex(index, _selectedBrick->processes.size(), "process");
 
     _selectedProcess = &_selectedBrick->processes[index];
 }
 
 void SettingsModel::SelectProcess(const string& name) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     for (auto& process : _selectedBrick->processes) {
         if (process.name == name) {
             _selectedProcess = &process;
@@ -744,7 +746,7 @@ void SettingsModel::SelectProcess(const string& name) {
 }
 
 void SettingsModel::SelectProcessWithParameter(const string& name) {
-    assert(_selectedBrick);
+    CheckBrickSelected();
     for (auto& process : _selectedBrick->processes) {
         for (auto& parameter : process.parameters) {
             if (parameter.GetName() == name) {
@@ -760,12 +762,14 @@ void SettingsModel::SelectProcessWithParameter(const string& name) {
 void SettingsModel::SelectHydroUnitSplitter(int index) {
     assert(_selectedStructure);
 
+    CheckIndex(index, _selectedStructure->hydroUnitSplitters.size(), "splitter");
     _selectedSplitter = &_selectedStructure->hydroUnitSplitters[index];
 }
 
 void SettingsModel::SelectSubBasinSplitter(int index) {
     assert(_selectedStructure);
 
+    CheckIndex(index, _selectedStructure->subBasinSplitters.size(), "splitter");
     _selectedSplitter = &_selectedStructure->subBasinSplitters[index];
 }
 
@@ -1038,6 +1042,30 @@ bool SettingsModel::FindParametersInStructure(ModelStructure& structure, const s
     return found;
 }
 
+void SettingsModel::CheckBrickSelected() const {
+    if (!_selectedBrick) {
+        throw ModelConfigError("No brick was selected.");
+    }
+}
+
+void SettingsModel::CheckProcessSelected() const {
+    if (!_selectedProcess) {
+        throw ModelConfigError("No process was selected.");
+    }
+}
+
+void SettingsModel::CheckSplitterSelected() const {
+    if (!_selectedSplitter) {
+        throw ModelConfigError("No splitter was selected.");
+    }
+}
+
+void SettingsModel::CheckIndex(int index, size_t size, const string& item) {
+    if (index < 0 || static_cast<size_t>(index) >= size) {
+        throw ModelConfigError(std::format("There is no {} with the index {}.", item, index));
+    }
+}
+
 bool SettingsModel::LogAll(const YAML::Node& settings) {
     if (settings["logger"]) {
         string target = settings["logger"].as<string>();
diff --git a/core/src/base/SettingsModel.h b/core/src/base/SettingsModel.h
index 6a3e6c6..7d4b624 100644
--- a/core/src/base/SettingsModel.h
+++ b/core/src/base/SettingsModel.h
@@ -607,7 +607,7 @@ class SettingsModel {
      * @return number of processes.
      */
     int GetProcessCount() const {
-        assert(_selectedBrick);
+        CheckBrickSelected();
         return static_cast<int>(_selectedBrick->processes.size());
     }
 
@@ -657,6 +657,7 @@ class SettingsModel {
      */
     const BrickSettings& GetHydroUnitBrickSettings(int index) const {
         assert(_selectedStructure);
+        CheckIndex(index, _selectedStructure->hydroUnitBricks.size(), "brick");
         return _selectedStructure->hydroUnitBricks[index];
     }
 
@@ -686,6 +687,7 @@ class SettingsModel {
      */
     const BrickSettings& GetSurfaceComponentBrickSettings(int index) const {
         assert(_selectedStructure);
+        CheckIndex(index, _selectedStructure->surfaceComponentBricks.size(), "surface component");
         int brickIndex = _selectedStructure->surfaceComponentBricks[index];
         return _selectedStructure->hydroUnitBricks[brickIndex];
     }
@@ -732,6 +734,7 @@ class SettingsModel {
      */
     const BrickSettings& GetSubBasinBrickSettings(int index) const {
         assert(_selectedStructure);
+        CheckIndex(index, _selectedStructure->subBasinBricks.size(), "brick");
         return _selectedStructure->subBasinBricks[index];
     }
 
@@ -742,7 +745,8 @@ class SettingsModel {
      * @return process settings (const reference).
      */
     const ProcessSettings& GetProcessSettings(int index) const {
-        assert(_selectedBrick);
+        CheckBrickSelected();
+        CheckIndex(index, _selectedBrick->processes.size(), "process");
         return _selectedBrick->processes[index];
     }
 
@@ -754,6 +758,7 @@ class SettingsModel {
      */
     const SplitterSettings& GetHydroUnitSplitterSettings(int index) const {
         assert(_selectedStructure);
+        CheckIndex(index, _selectedStructure->hydroUnitSplitters.size(), "splitter");
         return _selectedStructure->hydroUnitSplitters[index];
     }
 
@@ -765,6 +770,7 @@ class SettingsModel {
      */
     const SplitterSettings& GetSubBasinSplitterSettings(int index) const {
         assert(_selectedStructure);
+        CheckIndex(index, _selectedStructure->subBasinSplitters.size(), "splitter");
         return _selectedStructure->subBasinSplitters[index];
     }
 
@@ -875,6 +881,30 @@ class SettingsModel {
     SplitterSettings* _selectedSplitter;  // non-owning reference
 
     bool LogAll(const YAML::Node& settings);
+
+    /**
+     * Check that a brick is selected (throws a ModelConfigError otherwise).
+     */
+    void CheckBrickSelected() const;
+
+    /**
+     * Check that a process is selected (throws a ModelConfigError otherwise).
+     */
+    void CheckProcessSelected() const;
+
+    /**
+     * Check that a splitter is selected (throws a ModelConfigError otherwise).
+     */
+    void CheckSplitterSelected() const;
+
+    /**
+     * Check the index of an item (throws a ModelConfigError if out of range).
+     *
+     * @param index index of the item.
+     * @param size number of items.
+     * @param item name of the kind of item (for the error message).
+     */
+    static void CheckIndex(int index, size_t size, const string& item);
 };
 
 #endif  // HYDROBRICKS_SETTINGS_MODEL_H
-- 
2.43.0


From 5b0ef703b4483f0992ce142ca721eff33a5bd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 53/69] fix: refuse the calls on a model which was not
 initialized

---
 core/src/base/ModelHydro.cpp | 26 +++++++++++++++++++++++---
 core/src/base/ModelHydro.h   |  4 ++++
 core/src/base/Processor.h    |  9 +++++++++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 650f3fe..fb98d2e 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -23,6 +23,9 @@ ModelHydro::ModelHydro(SubBasin* subBasin)
 ModelHydro::~ModelHydro() = default;
 
 ModelResult ModelHydro::InitializeWithBasin(SettingsModel& modelSettings, SettingsBasin& basinSettings) {
+    if (_processor.IsInitialized()) {
+        return std::unexpected("The model has already been initialized.");
+    }
     _ownedSubBasin = std::make_unique<SubBasin>();
     _subBasin = _ownedSubBasin.get();
     if (auto r = _subBasin->Initialize(basinSettings); !r) {
@@ -73,6 +76,7 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
         _subBasin->SaveInitialAreaFractions();
 
         builder.ConnectLoggerToValues(modelSettings);
+        _initialized = true;
     } catch (const std::exception& e) {
         return std::unexpected(std::format("Model initialization failed: {}", e.what()));
     }
@@ -81,6 +85,8 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
 }
 
 void ModelHydro::UpdateParameters(SettingsModel& modelSettings) {
+    CheckInitialized();
+
     // Sub-basin parameters come from the primary structure (1); hydro-unit
     // parameters are updated per unit against each unit's structure variant.
     modelSettings.SelectStructure(1);
@@ -91,21 +97,28 @@ void ModelHydro::UpdateParameters(SettingsModel& modelSettings) {
 }
 
 bool ModelHydro::IsValid() const {
-    if (!_subBasin->IsValid()) return false;
+    if (!_subBasin || !_subBasin->IsValid()) return false;
 
     return true;
 }
 
 void ModelHydro::Validate() const {
+    CheckInitialized();
     _subBasin->Validate();
 }
 
+void ModelHydro::CheckInitialized() const {
+    if (!_subBasin || !_initialized) {
+        throw ModelConfigError("The model has not been initialized.");
+    }
+}
+
 bool ModelHydro::ForcingLoaded() const {
     return !_timeSeries.empty();
 }
 
 ModelResult ModelHydro::Run() {
-    if (!_subBasin) {
+    if (!_subBasin || !_initialized) {
         return std::unexpected("The model has not been initialized.");
     }
     for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
@@ -217,6 +230,7 @@ ModelResult ModelHydro::RewindAfterSpinup() {
 }
 
 void ModelHydro::Reset() {
+    CheckInitialized();
     _timer.Reset();
     _logger.Reset();
     // Roll back action bookkeeping (cursors, lookup-table row, ...); the land-cover
@@ -229,6 +243,7 @@ void ModelHydro::Reset() {
 }
 
 void ModelHydro::SaveAsInitialState() {
+    CheckInitialized();
     _subBasin->SaveAsInitialState();
 }
 
@@ -334,6 +349,11 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
 }
 
 bool ModelHydro::AddAction(Action* action) {
+    if (!_subBasin) {
+        LogError("The model has not been initialized: no action can be added.");
+        return false;
+    }
+
     return _actionsManager.AddAction(action);
 }
 
@@ -369,7 +389,7 @@ void ModelHydro::ClearTimeSeries() {
 }
 
 bool ModelHydro::AttachTimeSeriesToHydroUnits() {
-    assert(_subBasin);
+    CheckInitialized();
 
     for (const auto& timeSeries : _timeSeries) {
         VariableType type = timeSeries->GetVariableType();
diff --git a/core/src/base/ModelHydro.h b/core/src/base/ModelHydro.h
index a267010..b04a943 100644
--- a/core/src/base/ModelHydro.h
+++ b/core/src/base/ModelHydro.h
@@ -299,6 +299,10 @@ class ModelHydro {
     int _spinupSteps = 0;                                  // time steps replayed as spin-up at the start of each run
 
   private:
+    bool _initialized = false;  // true once the initialization succeeded
+
+    void CheckInitialized() const;
+
     ModelResult InitializeTimeSeries();
 
     ModelResult UpdateForcing();
diff --git a/core/src/base/Processor.h b/core/src/base/Processor.h
index 87b89a3..8afebed 100644
--- a/core/src/base/Processor.h
+++ b/core/src/base/Processor.h
@@ -29,6 +29,15 @@ class Processor {
      */
     void SetModel(ModelHydro* model);
 
+    /**
+     * Check if the processor was initialized.
+     *
+     * @return true if the processor was initialized.
+     */
+    bool IsInitialized() const {
+        return _solver != nullptr;
+    }
+
     /**
      * Connect the processor to the elements to solve.
      */
-- 
2.43.0


From e84938202b6c11ac92de7564d090e9d133301aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 54/69] fix: refuse the unit hydrograph lengths which are not
 valid

---
 core/src/processes/ProcessRoutingGR4J.cpp     | 6 +++++-
 core/src/processes/ProcessRoutingGR6J.cpp     | 2 +-
 core/src/processes/ProcessRoutingHBV.cpp      | 5 +++++
 core/src/processes/helpers/GRUnitHydrograph.h | 7 +++++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index ce8a056..b0810ec 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -5,6 +5,7 @@
 #include "Brick.h"
 #include "TimeMachine.h"
 #include "WaterContainer.h"
+#include "helpers/GRUnitHydrograph.h"
 
 ProcessRoutingGR4J::ProcessRoutingGR4J(WaterContainer* container)
     : ProcessOutflow(container),
@@ -201,11 +202,14 @@ void ProcessRoutingGR4J::_recomputeUH() {
         return;
     }
 
-    _lastUhBaseTime = *_uhBaseTime;
     double X4 = *_uhBaseTime;
     if (X4 <= 0) {
         X4 = 0.5;
     }
+    if (!(X4 <= gr_uh::MAX_TIME_BASE)) {
+        throw ModelConfigError(std::format("The unit hydrograph time base ({}) is not valid.", X4));
+    }
+    _lastUhBaseTime = *_uhBaseTime;
 
     int n1 = static_cast<int>(std::ceil(X4));
     int n2 = static_cast<int>(std::ceil(2.0 * X4));
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index 5d41e3f..a7f9588 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -233,8 +233,8 @@ void ProcessRoutingGR6J::_recomputeUH() {
         return;
     }
 
-    _lastUhBaseTime = *_uhBaseTime;
     gr_uh::ComputeOrdinates(*_uhBaseTime, _uh1Ord, _uh2Ord);
+    _lastUhBaseTime = *_uhBaseTime;
 
     // Resize buffers to match the ordinate lengths, preserving existing state.
     _stuh1.resize(_uh1Ord.size(), 0.0);
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index 936e42b..bf562f9 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -6,6 +6,8 @@
 #include "Brick.h"
 #include "WaterContainer.h"
 
+static constexpr double MAX_MAXBAS = 100000.0;  // longest base length accepted [time steps]
+
 ProcessRoutingHBV::ProcessRoutingHBV(WaterContainer* container)
     : ProcessOutflow(container),
       _maxbas(nullptr),
@@ -127,6 +129,9 @@ void ProcessRoutingHBV::_recomputeUH() {
     if (maxbas < 1.0) {
         maxbas = 1.0;  // shorter than the timestep: pass-through
     }
+    if (!(maxbas <= MAX_MAXBAS)) {
+        throw ModelConfigError(std::format("The unit hydrograph base length ({}) is not valid.", maxbas));
+    }
     _lastMaxbas = *_maxbas;
 
     int n = static_cast<int>(std::ceil(maxbas));
diff --git a/core/src/processes/helpers/GRUnitHydrograph.h b/core/src/processes/helpers/GRUnitHydrograph.h
index c46f076..1f0d914 100644
--- a/core/src/processes/helpers/GRUnitHydrograph.h
+++ b/core/src/processes/helpers/GRUnitHydrograph.h
@@ -4,6 +4,8 @@
 #include <cmath>
 #include <vector>
 
+#include "Includes.h"
+
 /**
  * Shared GR unit-hydrograph S-curves and ordinate computation (Perrin et al., 2003).
  *
@@ -12,6 +14,8 @@
  */
 namespace gr_uh {
 
+inline constexpr double MAX_TIME_BASE = 100000.0;  // longest time base accepted [d]
+
 /**
  * SH1 cumulative S-curve, time base x4.
  */
@@ -54,6 +58,9 @@ inline void ComputeOrdinates(double x4, std::vector<double>& uh1Ord, std::vector
     if (x4 <= 0.0) {
         x4 = 0.5;
     }
+    if (!(x4 <= MAX_TIME_BASE)) {
+        throw ModelConfigError(std::format("The unit hydrograph time base ({}) is not valid.", x4));
+    }
     int n1 = static_cast<int>(std::ceil(x4));
     int n2 = static_cast<int>(std::ceil(2.0 * x4));
 
-- 
2.43.0


From 7f91220c2b90e09e4cf8c76dd4e83d4510c6fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 55/69] fix: refuse a multi-fluxes splitter without input and
 do not read missing outputs

---
 core/src/fluxes/SplitterMultiFluxes.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/core/src/fluxes/SplitterMultiFluxes.cpp b/core/src/fluxes/SplitterMultiFluxes.cpp
index 1195762..42a48ac 100644
--- a/core/src/fluxes/SplitterMultiFluxes.cpp
+++ b/core/src/fluxes/SplitterMultiFluxes.cpp
@@ -4,10 +4,14 @@ SplitterMultiFluxes::SplitterMultiFluxes()
     : Splitter() {}
 
 bool SplitterMultiFluxes::IsValid() const {
-    if (_outputs.empty()) {
+    if (_inputs.empty()) {
         LogError("SplitterMultiFluxes has no input.");
         return false;
     }
+    if (_outputs.empty()) {
+        LogError("SplitterMultiFluxes has no output.");
+        return false;
+    }
 
     return true;
 }
@@ -17,16 +21,10 @@ void SplitterMultiFluxes::SetParameters(const SplitterSettings&) {
 }
 
 double* SplitterMultiFluxes::GetValuePointer(const string& name) {
-    if (name == "output_1") {
-        return _outputs[0]->GetAmountPointer();
-    } else if (name == "output_2") {
-        return _outputs[1]->GetAmountPointer();
-    } else if (name == "output_3") {
-        return _outputs[2]->GetAmountPointer();
-    } else if (name == "output_4") {
-        return _outputs[3]->GetAmountPointer();
-    } else if (name == "output_5") {
-        return _outputs[4]->GetAmountPointer();
+    for (size_t i = 0; i < std::min(_outputs.size(), static_cast<size_t>(5)); ++i) {
+        if (name == std::format("output_{}", i + 1)) {
+            return _outputs[i]->GetAmountPointer();
+        }
     }
 
     throw ModelConfigError("Output cannot be find.");
-- 
2.43.0


From c76066d0bc0494b244482481e7a3fb78a5cad09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 56/69] fix: connect the sub-basin recordings by label

---
 core/src/base/Logger.cpp       | 14 +++++++++-----
 core/src/base/ModelBuilder.cpp | 26 ++++++++++++++------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index d1ee9c2..0c3fe3a 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -26,7 +26,7 @@ void Logger::InitContainers(int timeSize, SubBasin* subBasin, SettingsModel& mod
     _subBasinLabels = subBasinLabels;
     _subBasinInitialValues = axd::Ones(subBasinLabels.size()) * NAN_D;
     _subBasinValues = vecAxd(subBasinLabels.size(), axd::Ones(timeSize) * NAN_D);
-    _subBasinValuesPt.resize(subBasinLabels.size());
+    _subBasinValuesPt = vecDoublePt(subBasinLabels.size(), nullptr);
     _hydroUnitIds = hydroUnitIds;
     _hydroUnitStructureIds = subBasin->GetHydroUnitStructureIds();
     _hydroUnitAreas = Eigen::Map<axd>(hydroUnitAreas.data(), hydroUnitAreas.size());
@@ -75,8 +75,10 @@ void Logger::SetDate(double date) {
 
 void Logger::SaveInitialValues() {
     for (int iSubBasin = 0; iSubBasin < _subBasinValuesPt.size(); ++iSubBasin) {
-        assert(_subBasinValuesPt[iSubBasin]);
-        _subBasinInitialValues[iSubBasin] = *_subBasinValuesPt[iSubBasin];
+        // A label of another structure variant is left unconnected (NaN).
+        if (_subBasinValuesPt[iSubBasin] != nullptr) {
+            _subBasinInitialValues[iSubBasin] = *_subBasinValuesPt[iSubBasin];
+        }
     }
 
     for (int iUnitVal = 0; iUnitVal < _hydroUnitValuesPt.size(); ++iUnitVal) {
@@ -94,8 +96,10 @@ void Logger::Record() {
     assert(_cursor < _time.size());
 
     for (auto [values, pt] : std::views::zip(_subBasinValues, _subBasinValuesPt)) {
-        assert(pt);
-        values[_cursor] = *pt;
+        // A label of another structure variant is left unconnected (NaN).
+        if (pt != nullptr) {
+            values[_cursor] = *pt;
+        }
     }
 
     for (int iUnitVal = 0; iUnitVal < _hydroUnitValuesPt.size(); ++iUnitVal) {
diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index d77f1a1..6270eae 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -731,9 +731,14 @@ void ModelBuilder::ConnectLoggerToValues(SettingsModel& modelSettings) {
     double* valPt = nullptr;
 
     // Sub basin values. The sub-basin is catchment-level and built from the primary
-    // structure (1); select it so the positional indices below match its labels.
+    // structure (1). The value pointers are keyed by label string.
     modelSettings.SelectStructure(1);
-    int iLabel = 0;
+    vecStr subBasinLabels = modelSettings.GetSubBasinLogLabels();
+    std::map<string, int> subBasinLabelIndex;
+    for (int i = 0; i < static_cast<int>(subBasinLabels.size()); ++i) {
+        subBasinLabelIndex[subBasinLabels[i]] = i;
+    }
+    std::set<int> subBasinEtIndicesSeen;  // an ET label must be registered once
 
     for (int iBrickType = 0; iBrickType < modelSettings.GetSubBasinBrickCount(); ++iBrickType) {
         modelSettings.SelectSubBasinBrick(iBrickType);
@@ -749,8 +754,7 @@ void ModelBuilder::ConnectLoggerToValues(SettingsModel& modelSettings) {
                     std::format("ModelBuilder::ConnectLoggerToValues - Log item '{}' not found in sub-basin brick {}",
                                 logItem, iBrickType));
             }
-            _logger->SetSubBasinValuePointer(iLabel, valPt);
-            iLabel++;
+            _logger->SetSubBasinValuePointer(subBasinLabelIndex.at(brickSettings.name + ":" + logItem), valPt);
         }
 
         for (int iProcess = 0; iProcess < modelSettings.GetProcessCount(); ++iProcess) {
@@ -766,11 +770,11 @@ void ModelBuilder::ConnectLoggerToValues(SettingsModel& modelSettings) {
                                     "process {} of brick {}",
                                     logItem, iProcess, iBrickType));
                 }
-                _logger->SetSubBasinValuePointer(iLabel, valPt);
-                if (logItem == "output" && process->ToAtmosphere()) {
-                    _logger->AddSubBasinEtIndex(iLabel);
+                int idx = subBasinLabelIndex.at(brickSettings.name + ":" + processSettings.name + ":" + logItem);
+                _logger->SetSubBasinValuePointer(idx, valPt);
+                if (logItem == "output" && process->ToAtmosphere() && subBasinEtIndicesSeen.insert(idx).second) {
+                    _logger->AddSubBasinEtIndex(idx);
                 }
-                iLabel++;
             }
         }
     }
@@ -787,8 +791,7 @@ void ModelBuilder::ConnectLoggerToValues(SettingsModel& modelSettings) {
                                 "splitter {}",
                                 logItem, iSplitter));
             }
-            _logger->SetSubBasinValuePointer(iLabel, valPt);
-            iLabel++;
+            _logger->SetSubBasinValuePointer(subBasinLabelIndex.at(splitterSettings.name + ":" + logItem), valPt);
         }
     }
 
@@ -800,8 +803,7 @@ void ModelBuilder::ConnectLoggerToValues(SettingsModel& modelSettings) {
                 std::format("ModelBuilder::ConnectLoggerToValues - Generic log label '{}' not found in sub-basin",
                             genericLogLabel));
         }
-        _logger->SetSubBasinValuePointer(iLabel, valPt);
-        iLabel++;
+        _logger->SetSubBasinValuePointer(subBasinLabelIndex.at(genericLogLabel), valPt);
     }
 
     // Hydro unit values. Labels are the union across structure variants; each unit
-- 
2.43.0


From bd32a1398d4bb7895851dc98899a2225fecad64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 57/69] fix: refuse the model structures which cannot be built

---
 core/src/base/ModelBuilder.cpp       | 59 ++++++++++++++++++++++++++--
 core/src/base/ModelBuilder.h         |  1 +
 core/src/bricks/SurfaceComponent.cpp |  8 +++-
 core/src/containers/WaterContainer.h |  4 +-
 core/src/spatial/SubBasin.cpp        |  8 +++-
 5 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 6270eae..aca48a8 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -111,6 +111,13 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const BrickSettings& brickSettings = modelSettings.GetSubBasinBrickSettings(iBrick);
 
         auto brickPtr = Brick::Factory(brickSettings);
+        if (!brickPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not recognized.", brickSettings.type,
+                                               brickSettings.name));
+        }
+        if (_subBasin->HasBrick(brickSettings.name)) {
+            throw ModelConfigError(std::format("The brick '{}' is defined more than once.", brickSettings.name));
+        }
         Brick* brick = brickPtr.get();
         brick->SetName(brickSettings.name);
         brick->SetParameters(brickSettings);
@@ -138,6 +145,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const SplitterSettings& splitterSettings = modelSettings.GetSubBasinSplitterSettings(iSplitter);
 
         auto splitterPtr = Splitter::Factory(splitterSettings);
+        if (!splitterPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the splitter '{}' is not recognized.",
+                                               splitterSettings.type, splitterSettings.name));
+        }
         Splitter* splitter = splitterPtr.get();
         splitter->SetName(splitterSettings.name);
         splitter->SetParameters(splitterSettings);
@@ -166,6 +177,10 @@ void ModelBuilder::CreateHydroUnitsComponents(SettingsModel& modelSettings) {
 
         for (int iBrick : landCoversIndices) {
             CreateHydroUnitBrick(modelSettings, unit, iBrick);
+            const string& name = modelSettings.GetHydroUnitBrickSettings(iBrick).name;
+            if (!unit->GetBrick(name)->IsLandCover()) {
+                throw ModelConfigError(std::format("The type of the brick '{}' is not a land cover.", name));
+            }
         }
 
         for (int iBrick = 0; iBrick < modelSettings.GetHydroUnitBrickCount(); ++iBrick) {
@@ -183,6 +198,10 @@ void ModelBuilder::CreateHydroUnitsComponents(SettingsModel& modelSettings) {
             const SplitterSettings& splitterSettings = modelSettings.GetHydroUnitSplitterSettings(iSplitter);
 
             auto splitterPtr = Splitter::Factory(splitterSettings);
+            if (!splitterPtr) {
+                throw ModelConfigError(std::format("The type '{}' of the splitter '{}' is not recognized.",
+                                                   splitterSettings.type, splitterSettings.name));
+            }
             Splitter* splitter = splitterPtr.get();
             splitter->SetName(splitterSettings.name);
             splitter->SetParameters(splitterSettings);
@@ -209,6 +228,13 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     const BrickSettings& brickSettings = modelSettings.GetHydroUnitBrickSettings(iBrick);
 
     auto brickPtr = std::unique_ptr<Brick>(Brick::Factory(brickSettings));
+    if (!brickPtr) {
+        throw ModelConfigError(
+            std::format("The type '{}' of the brick '{}' is not recognized.", brickSettings.type, brickSettings.name));
+    }
+    if (unit->HasBrick(brickSettings.name)) {
+        throw ModelConfigError(std::format("The brick '{}' is defined more than once.", brickSettings.name));
+    }
     Brick* brick = brickPtr.get();
     brick->SetName(brickSettings.name);
     brick->SetParameters(brickSettings);
@@ -239,12 +265,24 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     }
 }
 
+void ModelBuilder::CheckSameProcesses(const Brick* brick, const BrickSettings& brickSettings) const {
+    bool same = brick->GetProcessCount() == brickSettings.processes.size();
+    for (size_t i = 0; same && i < brick->GetProcessCount(); ++i) {
+        same = brick->GetProcess(i)->GetName() == brickSettings.processes[i].name;
+    }
+    if (!same) {
+        throw ModelConfigError(
+            std::format("The processes of the brick '{}' are not those of the model structure.", brickSettings.name));
+    }
+}
+
 void ModelBuilder::UpdateSubBasinParameters(SettingsModel& modelSettings) {
     for (int iBrick = 0; iBrick < modelSettings.GetSubBasinBrickCount(); ++iBrick) {
         modelSettings.SelectSubBasinBrick(iBrick);
         const BrickSettings& brickSettings = modelSettings.GetSubBasinBrickSettings(iBrick);
-        Brick* brick = _subBasin->GetBrick(iBrick);
+        Brick* brick = _subBasin->GetBrick(brickSettings.name);
         brick->SetParameters(brickSettings);
+        CheckSameProcesses(brick, brickSettings);
 
         for (int iProcess = 0; iProcess < modelSettings.GetProcessCount(); ++iProcess) {
             modelSettings.SelectProcess(iProcess);
@@ -254,6 +292,9 @@ void ModelBuilder::UpdateSubBasinParameters(SettingsModel& modelSettings) {
         }
     }
 
+    if (_subBasin->GetSplitterCount() != modelSettings.GetSubBasinSplitterCount()) {
+        throw ModelConfigError("The splitters are not those of the model structure.");
+    }
     for (int iSplitter = 0; iSplitter < modelSettings.GetSubBasinSplitterCount(); ++iSplitter) {
         modelSettings.SelectSubBasinSplitter(iSplitter);
         const SplitterSettings& splitterSettings = modelSettings.GetSubBasinSplitterSettings(iSplitter);
@@ -274,6 +315,7 @@ void ModelBuilder::UpdateHydroUnitsParameters(SettingsModel& modelSettings) {
             const BrickSettings& brickSettings = modelSettings.GetHydroUnitBrickSettings(iBrick);
             Brick* brick = unit->GetBrick(modelSettings.GetHydroUnitBrickSettings(iBrick).name);
             brick->SetParameters(brickSettings);
+            CheckSameProcesses(brick, brickSettings);
 
             for (int iProcess = 0; iProcess < modelSettings.GetProcessCount(); ++iProcess) {
                 modelSettings.SelectProcess(iProcess);
@@ -283,6 +325,9 @@ void ModelBuilder::UpdateHydroUnitsParameters(SettingsModel& modelSettings) {
             }
         }
 
+        if (unit->GetSplitterCount() != modelSettings.GetHydroUnitSplitterCount()) {
+            throw ModelConfigError("The splitters are not those of the model structure.");
+        }
         for (int iSplitter = 0; iSplitter < modelSettings.GetHydroUnitSplitterCount(); ++iSplitter) {
             modelSettings.SelectHydroUnitSplitter(iSplitter);
             const SplitterSettings& splitterSettings = modelSettings.GetHydroUnitSplitterSettings(iSplitter);
@@ -298,8 +343,10 @@ void ModelBuilder::LinkSurfaceComponentsParents(SettingsModel& modelSettings, Hy
         if (!brickSettings.parent.empty()) {
             auto surfaceComponentBrick = dynamic_cast<SurfaceComponent*>(unit->GetBrick(brickSettings.name));
             auto landCoverBrick = dynamic_cast<LandCover*>(unit->GetBrick(brickSettings.parent));
-            assert(surfaceComponentBrick);
-            assert(landCoverBrick);
+            if (!surfaceComponentBrick || !landCoverBrick) {
+                throw ModelConfigError(std::format("The brick '{}' cannot be a surface component of the brick '{}'.",
+                                                   brickSettings.name, brickSettings.parent));
+            }
             surfaceComponentBrick->SetParent(landCoverBrick);
         }
     }
@@ -461,6 +508,11 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
             }
 
             for (const auto& output : processSettings.outputs) {
+                if (process->IsLateralProcess() != (output.target == "lateral")) {
+                    throw ModelConfigError(std::format("The process '{}' cannot have '{}' as target.",
+                                                       processSettings.name, output.target));
+                }
+
                 if (output.target == "outlet") {
                     auto fluxPtr = std::make_unique<FluxToOutlet>();
                     Flux* flux = fluxPtr.get();
@@ -474,7 +526,6 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                     process->AttachFluxOut(std::move(fluxPtr));
 
                 } else if (output.target == "lateral") {
-                    assert(process->IsLateralProcess());
                     auto lateralProcess = dynamic_cast<ProcessLateral*>(process);
 
                     for (auto& lateralConnection : unit->GetLateralConnections()) {
diff --git a/core/src/base/ModelBuilder.h b/core/src/base/ModelBuilder.h
index 0a9143a..ab457c6 100644
--- a/core/src/base/ModelBuilder.h
+++ b/core/src/base/ModelBuilder.h
@@ -72,6 +72,7 @@ class ModelBuilder {
     void CreateSubBasinComponents(SettingsModel& modelSettings);
     void CreateHydroUnitsComponents(SettingsModel& modelSettings);
     void CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit* unit, int iBrick);
+    void CheckSameProcesses(const Brick* brick, const BrickSettings& brickSettings) const;
     void LinkSurfaceComponentsParents(SettingsModel& modelSettings, HydroUnit* unit);
     void LinkSubBasinProcessesTargetBricks(SettingsModel& modelSettings);
     void LinkHydroUnitProcessesTargetBricks(SettingsModel& modelSettings, HydroUnit* unit);
diff --git a/core/src/bricks/SurfaceComponent.cpp b/core/src/bricks/SurfaceComponent.cpp
index 4bfd76b..e932faf 100644
--- a/core/src/bricks/SurfaceComponent.cpp
+++ b/core/src/bricks/SurfaceComponent.cpp
@@ -16,7 +16,9 @@ void SurfaceComponent::SetAreaFraction(double value) {
 }
 
 void SurfaceComponent::UpdateFluxFractions() {
-    assert(_parent);
+    if (!_parent) {
+        throw ModelConfigError(std::format("The surface component '{}' has no parent land cover.", GetName()));
+    }
     double fraction = _areaFraction * _parent->GetAreaFraction();
     for (const auto& process : _processes) {
         for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
@@ -29,7 +31,9 @@ void SurfaceComponent::UpdateFluxFractions() {
 }
 
 double SurfaceComponent::GetParentAreaFraction() const {
-    assert(_parent);
+    if (!_parent) {
+        throw ModelConfigError(std::format("The surface component '{}' has no parent land cover.", GetName()));
+    }
     return _parent->GetAreaFraction();
 }
 
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..8e5b8a8 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -97,7 +97,9 @@ class WaterContainer {
      * @return maximum capacity [mm]
      */
     [[nodiscard]] double GetMaximumCapacity() const {
-        assert(_capacity);
+        if (!_capacity) {
+            throw ModelConfigError("The water container has no maximum capacity.");
+        }
         return *_capacity;
     }
 
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index 3590567..487675d 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -86,7 +86,9 @@ ModelResult SubBasin::AssignFractions(SettingsBasin& basinSettings) {
                     continue;
                 }
                 auto brick = dynamic_cast<LandCover*>(genericBrick);
-                assert(brick);
+                if (!brick) {
+                    return std::unexpected(std::format("The brick '{}' is not a land cover.", elementSettings.name));
+                }
                 brick->SetAreaFraction(elementSettings.fraction);
                 // Capture the assigned extent as the initial one to restore on reset.
                 brick->SetInitialAreaFraction(elementSettings.fraction);
@@ -100,7 +102,9 @@ ModelResult SubBasin::AssignFractions(SettingsBasin& basinSettings) {
                     continue;
                 }
                 auto brick = dynamic_cast<SurfaceComponent*>(genericBrick);
-                assert(brick);
+                if (!brick) {
+                    return std::unexpected(std::format("The brick '{}' is not a surface component.", elementSettings.name));
+                }
                 brick->SetAreaFraction(elementSettings.fraction);
             }
         }
-- 
2.43.0


From d42f4ef953f471987f900634f7f3bf3bd1d3b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 58/69] fix: refuse the dates beyond the calendar

---
 core/src/base/UtilsDateTime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index dba4d83..95f1f7a 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -94,6 +94,10 @@ double UtilsDateTime::ToMJD(int year, int month, int day, int hour, int minute,
 }
 
 Time UtilsDateTime::FromMJD(double mjd) {
+    // Beyond the years of the calendar (also when not a number)
+    if (!(std::abs(mjd) < 1e7)) {
+        throw RuntimeError(std::format("The date ({} MJD) is not valid.", mjd));
+    }
     auto tp = MjdToSysTime(mjd);
     auto sd = floor<days>(tp);
     auto time_of_day = tp - sd;
-- 
2.43.0


From 22360a1631e2b1ce93328be5d03fa46a87c843f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 59/69] fix: make the log level safe to change while models run

---
 core/src/base/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Log.cpp b/core/src/base/Log.cpp
index 0cdb2de..4cc9741 100644
--- a/core/src/base/Log.cpp
+++ b/core/src/base/Log.cpp
@@ -1,5 +1,6 @@
 #include "Log.h"
 
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <mutex>
@@ -8,7 +9,7 @@
 namespace {
 
 struct LogState {
-    LogLevel level = LogLevel::Message;
+    std::atomic<LogLevel> level{LogLevel::Message};  // Read by running models while it is being changed.
     std::ofstream logFile;
     std::mutex mutex;
 };
-- 
2.43.0


From daf58ab11ae3a253f402ecc1e4a118688091f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 60/69] fix: apply the dated parameter values of sub-daily time
 steps

---
 core/src/base/ParameterModifier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ParameterModifier.cpp b/core/src/base/ParameterModifier.cpp
index 147b122..65596a2 100644
--- a/core/src/base/ParameterModifier.cpp
+++ b/core/src/base/ParameterModifier.cpp
@@ -82,7 +82,8 @@ float ParameterModifier::UpdateValue(double date) {
         case ParameterModifierType::Dates: {
             assert(!_dates.empty());
 
-            int i = Find(&_dates.front(), &_dates.back(), date);
+            // The dates of sub-daily time steps differ by rounding errors.
+            int i = Find(&_dates.front(), &_dates.back(), date, PRECISION);
 
             if (i < 0) {
                 LogError("The given date was not found in the reference dates of the parameter.");
-- 
2.43.0


From d254b12cd83805639e552d5976b1f154d70244f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 61/69] fix: a parameter without usable modifier values keeps
 its value

---
 core/src/base/ParameterModifier.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/ParameterModifier.cpp b/core/src/base/ParameterModifier.cpp
index 65596a2..051a139 100644
--- a/core/src/base/ParameterModifier.cpp
+++ b/core/src/base/ParameterModifier.cpp
@@ -53,6 +53,12 @@ bool ParameterModifier::SetDatesAndValues(const vecDouble& dates, const vecFloat
 }
 
 float ParameterModifier::UpdateValue(double date) {
+    // Values that are missing or were refused cannot be used.
+    if (_values.empty() || _values.size() != (_type == ParameterModifierType::Monthly ? 12 : _dates.size())) {
+        LogError("The values of the variable parameter are not properly set.");
+        return NAN_F;
+    }
+
     switch (_type) {
         case ParameterModifierType::Yearly: {
             assert(!_dates.empty());
-- 
2.43.0


From 9caa3f56999718f31c28ac47c422db91e16a1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 62/69] fix: refuse to initialize or apply a snow-to-ice action
 that is not attached to a model

---
 core/src/actions/ActionGlacierSnowToIceTransformation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
index 0dea910..a93ad52 100644
--- a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
+++ b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
@@ -15,7 +15,7 @@ bool ActionGlacierSnowToIceTransformation::Init() {
     // Loop over all hydro units in the sub-basin and register those with the specified land cover.
     _hydroUnitIds.clear();
 
-    if (_manager->GetSubBasin() == nullptr) {
+    if (_manager == nullptr || _manager->GetSubBasin() == nullptr) {
         LogError("The model is likely not initialized (setup()) as the sub-basin is not defined.");
         return false;
     }
@@ -44,6 +44,11 @@ void ActionGlacierSnowToIceTransformation::Reset() {
 }
 
 bool ActionGlacierSnowToIceTransformation::Apply(double) {
+    if (_manager == nullptr) {
+        LogError("The action must be added to a model before it can be applied.");
+        return false;
+    }
+
     auto subBasin = _manager->GetSubBasin();
 
     // Transform snow to ice for each hydro unit.
-- 
2.43.0


From 38adb9c484bc0718021d1f15e7046c0b350e80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:58 +0000
Subject: [PATCH 63/69] fix: a glacier whose unlimited storage is switched off
 by an updated parameter becomes limited

---
 core/src/bricks/Glacier.cpp          | 4 +---
 core/src/containers/WaterContainer.h | 8 +++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 37db1fb..3126729 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -22,9 +22,7 @@ void Glacier::SetParameters(const BrickSettings& brickSettings) {
     Brick::SetParameters(brickSettings);
     if (HasParameter(brickSettings, "infinite_storage")) {
         const float* valPtr = GetParameterValuePointer(brickSettings, "infinite_storage");
-        if (valPtr && !NearlyZero(*valPtr, EPSILON_F)) {
-            _ice->SetAsInfiniteStorage();
-        }
+        _ice->SetAsInfiniteStorage(valPtr && !NearlyZero(*valPtr, EPSILON_F));
     }
 
     if (HasParameter(brickSettings, "no_melt_when_snow_cover")) {
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 8e5b8a8..620cbfc 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -116,10 +116,12 @@ class WaterContainer {
     }
 
     /**
-     * Set the water container as an infinite storage.
+     * Set the water container as an infinite storage (or not).
+     *
+     * @param value true if the storage is infinite, false otherwise.
      */
-    void SetAsInfiniteStorage() {
-        _infiniteStorage = true;
+    void SetAsInfiniteStorage(bool value = true) {
+        _infiniteStorage = value;
     }
 
     /**
-- 
2.43.0


From 96d3cf1e3e8454bdbad9914f29e5e1916e587275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 64/69] fix: link an overflow declared as outflow:overflow as
 the overflow of its store

---
 core/src/base/ModelBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index aca48a8..bac3b9b 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -134,7 +134,7 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
             process->SetParameters(processSettings);
             brick->AddProcess(std::move(processPtr));
 
-            if (processSettings.type == "overflow") {
+            if (processSettings.type == "overflow" || processSettings.type == "outflow:overflow") {
                 brick->GetWaterContainer()->LinkOverflow(process);
             }
         }
@@ -257,7 +257,7 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
         process->SetParameters(processSettings);
         brick->AddProcess(std::move(processPtr));
 
-        if (processSettings.type == "overflow") {
+        if (processSettings.type == "overflow" || processSettings.type == "outflow:overflow") {
             brick->GetWaterContainer()->LinkOverflow(process);
         }
 
-- 
2.43.0


From 2e60ba2fca6c85205c8acfe9571a6b0fc16ac5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 65/69] fix: a full store without overflow holds back its
 inflow instead of ending the run on a rounding error

---
 core/src/containers/WaterContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index c40dec9..f24e7b6 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -167,7 +167,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
                     "WaterContainer::ApplyConstraints - Overflow exists but has no change rate pointer");
             }
             // Check that it is not only due to forcing
-            if (content + inputsStatic > *_capacity) {
+            if (inputsStatic > 0 && content + inputsStatic > *_capacity) {
                 throw ModelConfigError(
                     "Forcing is coming directly into a brick with limited capacity and no overflow.");
             }
-- 
2.43.0


From b6afb7b49b7bc45a06b8255eee57b62b7d3528aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 66/69] fix: keep the scheduled water when a routing base time
 gets shorter

---
 core/src/processes/ProcessRoutingGR4J.cpp | 15 ++++++++-------
 core/src/processes/ProcessRoutingGR6J.cpp | 11 ++++++-----
 core/src/processes/ProcessRoutingHBV.cpp  |  9 +++++----
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index b0810ec..b77cc6d 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -38,11 +38,9 @@ void ProcessRoutingGR4J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR4J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    std::copy_n(_initialStuh1.begin(), std::min(_initialStuh1.size(), _stuh1.size()), _stuh1.begin());
-    std::copy_n(_initialStuh2.begin(), std::min(_initialStuh2.size(), _stuh2.size()), _stuh2.begin());
     _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
@@ -224,9 +222,12 @@ void ProcessRoutingGR4J::_recomputeUH() {
         _uh2Ord[j - 1] = _sh2(static_cast<double>(j), X4) - _sh2(static_cast<double>(j - 1), X4);
     }
 
-    // Resize buffers, preserving existing state
-    _stuh1.resize(n1, 0.0);
-    _stuh2.resize(n2, 0.0);
+    // Extend the buffers, preserving existing state: when the base time got shorter, the water already
+    // scheduled beyond it remains due (the ordinates are padded with zeros).
+    _uh1Ord.resize(std::max(_uh1Ord.size(), _stuh1.size()), 0.0);
+    _uh2Ord.resize(std::max(_uh2Ord.size(), _stuh2.size()), 0.0);
+    _stuh1.resize(_uh1Ord.size(), 0.0);
+    _stuh2.resize(_uh2Ord.size(), 0.0);
 }
 
 double ProcessRoutingGR4J::_sh1(double t, double x4) {
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index a7f9588..c040be6 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -52,11 +52,9 @@ void ProcessRoutingGR6J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR6J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    std::copy_n(_initialStuh1.begin(), std::min(_initialStuh1.size(), _stuh1.size()), _stuh1.begin());
-    std::copy_n(_initialStuh2.begin(), std::min(_initialStuh2.size(), _stuh2.size()), _stuh2.begin());
     _r = _initialR;
     _rexp = _initialRexp;
     _qr = 0.0;
@@ -236,7 +234,10 @@ void ProcessRoutingGR6J::_recomputeUH() {
     gr_uh::ComputeOrdinates(*_uhBaseTime, _uh1Ord, _uh2Ord);
     _lastUhBaseTime = *_uhBaseTime;
 
-    // Resize buffers to match the ordinate lengths, preserving existing state.
+    // Extend the buffers, preserving existing state: when the base time got shorter, the water already
+    // scheduled beyond it remains due (the ordinates are padded with zeros).
+    _uh1Ord.resize(std::max(_uh1Ord.size(), _stuh1.size()), 0.0);
+    _uh2Ord.resize(std::max(_uh2Ord.size(), _stuh2.size()), 0.0);
     _stuh1.resize(_uh1Ord.size(), 0.0);
     _stuh2.resize(_uh2Ord.size(), 0.0);
 }
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index bf562f9..c8c84b8 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -42,9 +42,8 @@ void ProcessRoutingHBV::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingHBV::Reset() {
     ProcessOutflow::Reset();
+    _stuh = _initialStuh;
     _recomputeUH();
-    std::fill(_stuh.begin(), _stuh.end(), 0.0);
-    std::copy_n(_initialStuh.begin(), std::min(_initialStuh.size(), _stuh.size()), _stuh.begin());
     _previousContent = _initialPreviousContent;
     _processStorage = std::accumulate(_stuh.begin(), _stuh.end(), 0.0);
 }
@@ -141,8 +140,10 @@ void ProcessRoutingHBV::_recomputeUH() {
                         _cumulativeWeight(static_cast<double>(j - 1), maxbas);
     }
 
-    // Resize the delivery schedule, preserving existing state
-    _stuh.resize(n, 0.0);
+    // Extend the delivery schedule, preserving existing state: when the base length got shorter, the
+    // water already scheduled beyond it remains due (the ordinates are padded with zeros).
+    _uhOrd.resize(std::max(_uhOrd.size(), _stuh.size()), 0.0);
+    _stuh.resize(_uhOrd.size(), 0.0);
 }
 
 double ProcessRoutingHBV::_cumulativeWeight(double t, double maxbas) {
-- 
2.43.0


From cd1cbf99cb76a85a8cbbe080efac67c9d5998f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:36 +0000
Subject: [PATCH 67/69] fix: refuse distributed forcing whose units differ in
 period or time step

---
 core/src/base/TimeSeriesDistributed.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index af58464..633aae8 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -102,6 +102,16 @@ bool TimeSeriesDistributed::IsValid() const {
         }
     }
 
+    // Check that all units share the time properties of the series (those of the first one)
+    for (size_t i = 1; i < _data.size(); ++i) {
+        if (!NearlyEqual(_data[i]->GetStart(), GetStart()) || !NearlyEqual(_data[i]->GetEnd(), GetEnd()) ||
+            !NearlyEqual(_data[i]->GetTimeStepInDays(), GetTimeStepInDays())) {
+            LogError("TimeSeriesDistributed: Data at index {} (unit ID {}) differs in period or time step.",
+                     static_cast<int>(i), _unitIds[i]);
+            return false;
+        }
+    }
+
     // Check for duplicate unit IDs
     for (size_t i = 0; i < _unitIds.size(); ++i) {
         for (size_t j = i + 1; j < _unitIds.size(); ++j) {
-- 
2.43.0


From 01aeca56a32dbe034435e06040c4b7cd3c755635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:16 +0000
Subject: [PATCH 68/69] fix: the total outlet discharge leaves out the bricks
 named after an outlet

---
 core/src/base/Logger.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index 0c3fe3a..1ca9cb7 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -224,7 +224,15 @@ double Logger::GetTotalHydroUnits(const string& item, bool needsAreaWeighting) c
 }
 
 double Logger::GetTotalOutletDischarge() const {
-    return GetTotalSubBasin("outlet");
+    // The outlet itself, not the items of a brick whose name contains 'outlet'.
+    double sum = 0;
+    for (auto [label, values] : std::views::zip(_subBasinLabels, _subBasinValues)) {
+        if (label == "outlet") {
+            sum += values.sum();
+        }
+    }
+
+    return sum;
 }
 
 double Logger::GetTotalET() const {
-- 
2.43.0


From 94d5d19ff17c3526b0e6ad8bffb63bd32ba6cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:01 +0000
Subject: [PATCH 69/69] fix: the text output loses the digits of values and
 dates

---
 core/src/base/ResultWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/base/ResultWriter.cpp b/core/src/base/ResultWriter.cpp
index d173bee..9d4bc5d 100644
--- a/core/src/base/ResultWriter.cpp
+++ b/core/src/base/ResultWriter.cpp
@@ -2,6 +2,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <limits>
 
 #include "FileNetcdf.h"
 
@@ -106,6 +107,9 @@ bool ResultWriter::WriteCSV(const string& path, const axd& time, const vecStr& l
             return false;
         }
 
+        // Write the values (and the sub-daily dates) with all their digits
+        outFile.precision(std::numeric_limits<double>::max_digits10);
+
         // Write header
         outFile << "time";
         for (const auto& label : labels) {
-- 
2.43.0

