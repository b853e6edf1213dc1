From 60b7267c9c69042e973456a6371ae14f13d2677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 01/26] fix: SubtractA and DivideA do not compile when
 instantiated

ArraySignal has no arithmetic operators of its own; use the values.
---
 src/block/extra/divide.hpp   | 2 +-
 src/block/extra/subtract.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From 2c748faacb87732974dc64665292991ee9014dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 02/26] fix: DerivativeA does not compile when instantiated

---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..ee5608d 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
-- 
2.43.0


From 275b385bb71eef17bde4f1f0840544954f57cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 03/26] fix: InitialValue and InitialValueA do not compile when
 instantiated

They used signal accessors that do not exist.
---
 src/block/extra/initial_value.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..3ba8ab8 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,10 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in;
+            _init  = false;
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 40dfae205d2ec18cf9eb5d5461cd8e3461811ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 04/26] fix: order-reusing Simulator crashes on a model without
 states

The processing orders were only set up for models with state variables,
but used for every model.
---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From ea131c6e36a572294a0966cf269597943dd7fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 05/26] fix: order-reusing Simulator rejects models with bus
 memories or pipes

Bus block builders are always marked as processed, so they were dropped
from the new processing order and the size check failed.
---
 src/solver/simulator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..f059a45 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -46,6 +46,15 @@ void Simulator::process_model(double t, bool call_pre_step, bool call_post_step)
     {
         _new_po->clear();
 
+        // blocks that never have to be processed themselves, e.g. bus block builders
+        for (auto* base : *_current_po)
+        {
+            if (base->processed())
+            {
+                _new_po->emplace_back(base);
+            }
+        }
+
         bool any_processed;
         do
         {
-- 
2.43.0


From 5b274fb536dc0472e81d392e142f596d42c69225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 06/26] fix: FastSimulator refuses models processed before and
 some bus blocks

The processed flags left by another simulator made it find no block to
order, and it required bus block builders, which have nothing to do, to
have all the signals of their bus assigned.
---
 src/solver/fast_simulator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..6c10510 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -48,10 +48,13 @@ void FastSimulator::init(double t0)
 
     pooya_debug_verify0(_processing_order.empty());
 
+    // forget what a previous simulator of the same model has processed
+    _model._mark_unprocessed();
+
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
     {
-        if (dynamic_cast<Leaf*>(&c)) num_blocks++;
+        if (dynamic_cast<Leaf*>(&c) && !c.processed()) num_blocks++;
         return true;
     };
     _model.visit(enum_blocks_cb, 0);
@@ -62,7 +65,7 @@ void FastSimulator::init(double t0)
 
     auto add_blocks_cb = [&po](Block& c, uint32_t /*level*/) -> bool
     {
-        if (auto* p = dynamic_cast<Leaf*>(&c)) po.push_back(p);
+        if (auto* p = dynamic_cast<Leaf*>(&c); p && !p->processed()) po.push_back(p);
         return true;
     };
     _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From 686e87f01104d38d09ea5af3433e5ce70f404239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 07/26] fix: a simulator is broken after its initialization has
 failed

It counted as initialized, with its signal lists and processing orders
missing, partial or, after another init(), duplicated. Rebuild them in
every init() and set _initialized only when it has succeeded.
---
 src/solver/fast_simulator.cpp | 5 ++++-
 src/solver/simulator.cpp      | 7 +++++--
 src/solver/simulator_base.cpp | 8 ++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 6c10510..5aaf3db 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -45,8 +45,9 @@ void FastSimulator::init(double t0)
     pooya_trace("t0: " + std::to_string(t0));
 
     SimulatorBase::init(t0);
+    _initialized = false; // not before the initialization is complete
 
-    pooya_debug_verify0(_processing_order.empty());
+    _processing_order.clear();
 
     // forget what a previous simulator of the same model has processed
     _model._mark_unprocessed();
@@ -120,6 +121,8 @@ void FastSimulator::init(double t0)
     for (auto& sig : value_signals_) sig->clear();
 
     process_model(t0, true, true);
+
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f059a45..8538082 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -134,11 +134,12 @@ void Simulator::init(double t0)
     pooya_trace("t0: " + std::to_string(t0));
 
     SimulatorBase::init(t0);
+    _initialized = false; // not before the initialization is complete
 
     if (_reuse_order)
     {
-        pooya_debug_verify0(_processing_order1.empty());
-        pooya_debug_verify0(_processing_order2.empty());
+        _processing_order1.clear();
+        _processing_order2.clear();
 
         uint num_blocks     = 0;
         auto enum_blocks_cb = [&](Block& /*c*/, uint32_t /*level*/) -> bool
@@ -163,6 +164,8 @@ void Simulator::init(double t0)
     }
 
     process_model(t0, true, true);
+
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..a8a8659 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -34,6 +34,14 @@ void SimulatorBase::init(double t0)
 {
     pooya_trace("t0: " + std::to_string(t0));
 
+    // start over if a previous attempt has failed
+    _initialized = false;
+    value_signals_.clear();
+    scalar_state_signals_.clear();
+#ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
+#endif // POOYA_ARRAY_SIGNAL
+
     std::size_t state_variables_size{0};
 
     std::unordered_set<ValueSignalImpl*> value_signals;
-- 
2.43.0


From 4b1ad4e1e99d271893470d7da187dc46e6deec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 08/26] fix: Derivative outputs its input when evaluated at a
 committed time

post_step() stored the input instead of the output as the value to repeat
at the time of the last step.
---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index ee5608d..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From 2be3751cc1b1c9b00013ad7929b3a3b78fd3a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 09/26] fix: TriggeredIntegrator reacts to triggers of
 uncommitted evaluations

The trigger was latched in every evaluation, so that triggers seen in
intermediate stages and rejected trial steps reset the integrator, also
after it had already been reset for that trigger.
---
 src/block/extra/triggered_integrator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..4814311 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,13 +72,11 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        if (!_triggered)
-        {
-            _triggered = _trigger;
-        }
+        Base::post_step(t);
+        _triggered = _trigger;
     }
 
 protected:
-- 
2.43.0


From 28eeb874d80f890ccc117714e58259cac3792032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 10/26] fix: Delay outputs its initial value when old history
 is discarded

Discarding every sample older than the lifespan left delays between the
oldest remaining sample and the lifespan without the sample before them.
---
 src/block/extra/delay.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..715639a 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,8 +71,12 @@ public:
                 }
                 k++;
             }
-            _t.erase(_t.begin(), _t.begin() + k);
-            _x.erase(_x.begin(), _x.begin() + k);
+            // the last sample older than the lifespan is still needed for interpolation
+            if (k > 1)
+            {
+                _t.erase(_t.begin(), _t.begin() + k - 1);
+                _x.erase(_x.begin(), _x.begin() + k - 1);
+            }
         }
 
         pooya_debug_verify0(_t.empty() || (t > _t.back()));
-- 
2.43.0


From 16e9a74c8c2b23b12855403e38bfeb56f6fa0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 11/26] fix: Delay fails or divides by zero when a time is
 repeated

Requesting the current time again is allowed, but Delay stored a second
sample for the same time.
---
 src/block/extra/delay.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 715639a..a57adf5 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -79,6 +79,13 @@ public:
             }
         }
 
+        if (!_t.empty() && t == _t.back())
+        {
+            // repeated step
+            _x.back() = _s_x;
+            return;
+        }
+
         pooya_debug_verify0(_t.empty() || (t > _t.back()));
         _t.push_back(t);
         _x.push_back(_s_x);
-- 
2.43.0


From eef1cd7b92a36f4681c3f3c16a1f61fc74a18b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 12/26] fix: retrying a failed run repeats the sub-steps
 already committed

An exception after an accepted sub-step left _t_prev at the beginning of
the run while the blocks had advanced.
---
 src/solver/simulator_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index a8a8659..ccba705 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -232,6 +232,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     {
                         reset_with_state_variables(_state_variables);
                         process_model(t1, false, true);
+                        _t_prev = t1;
                     }
                 }
                 else
-- 
2.43.0


From 71b4d5c4f9ac79bde26e8d661f6751ea7d95f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 13/26] fix: running to a NaN time silently breaks the
 simulation

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index ccba705..fa34d17 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -162,7 +162,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
     if (_state_variables.size() > 0)
     {
-        if (t < _t_prev)
+        if (!(t >= _t_prev)) // also catches NaN
         {
             helper::pooya_throw_exception(__FILE__, __LINE__,
                                           "Simulation cannot go back in time. Aborting!\n  "
-- 
2.43.0


From 48589e20751ed90a02945385d2763b2fc9e57977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 14/26] fix: simulations on different threads corrupt the
 shared call trace

Keep one trace per thread.
---
 src/helper/trace.cpp | 2 +-
 src/helper/trace.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper/trace.cpp b/src/helper/trace.cpp
index 2578de2..a650c75 100644
--- a/src/helper/trace.cpp
+++ b/src/helper/trace.cpp
@@ -24,7 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 namespace pooya::helper
 {
 
-std::vector<PooyaTraceInfo> pooya_trace_info;
+thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 std::string pooya_trace_info_string()
 {
diff --git a/src/helper/trace.hpp b/src/helper/trace.hpp
index ea28f0e..bada8c8 100644
--- a/src/helper/trace.hpp
+++ b/src/helper/trace.hpp
@@ -43,7 +43,7 @@ struct PooyaTraceInfo
     std::string _msg;
 };
 
-extern std::vector<PooyaTraceInfo> pooya_trace_info;
+extern thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 class PooyaTracer
 {
-- 
2.43.0


From 55528a2168bcf0eadf04566b9b6b57febe32b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 15/26] fix: untracking a signal that is not tracked is
 undefined behaviour

History::untrack() erased the end iterator.
---
 src/solver/history.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..baae30f 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,7 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    if (auto it = std::find(_signals.begin(), _signals.end(), vsig); it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From 5e9176fc361fc0bf3ac9694067f916514e26e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 16/26] fix: a History is unusable after its first update has
 failed

When an allocation failed halfway, the records of the remaining signals were
never created and every later update() threw std::out_of_range.
---
 src/solver/history.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index baae30f..925ad5f 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -47,7 +47,7 @@ void History::untrack(const Signal& sig)
 void History::update(uint k, double t)
 {
     pooya_trace("k = " + std::to_string(k));
-    if (empty())
+    if (size() < _signals.size() || _signals.empty())
     {
         if (_signals.empty())
         {
@@ -55,6 +55,10 @@ void History::update(uint k, double t)
         }
         for (auto& sig : _signals)
         {
+            if (find(sig) != end())
+            {
+                continue; // left over from an update that failed
+            }
             if (dynamic_cast<ScalarSignalImpl*>(sig.get())
 #ifdef POOYA_INT_SIGNAL
                 || dynamic_cast<IntSignalImpl*>(sig.get())
-- 
2.43.0


From 9fbfd65af0bbb8a1b169e19d11d452375c78c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 17/26] fix: CSV export writes rows that were never recorded

Without a preceding shrink_to_fit() it wrote the uninitialized spare rows too.
---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 925ad5f..322c888 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -180,8 +180,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const uint n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From 43d217ea78da80c5516b694b39273d468bac7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 18/26] fix: errors of a CSV export are ignored

Failures to open, write or close the file went unnoticed.
---
 src/solver/history.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 322c888..8439991 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -155,6 +155,7 @@ void History::export_csv(const std::string& filename)
     }
 
     std::ofstream ofs(filename);
+    pooya_verify(ofs.is_open(), "could not open the file: " + filename);
 
     // header
     ofs << "time";
@@ -205,6 +206,9 @@ void History::export_csv(const std::string& filename)
         }
         ofs << "\n";
     }
+
+    ofs.close();
+    pooya_verify(ofs.good(), "could not write the file: " + filename);
 }
 
 } // namespace pooya
-- 
2.43.0


From d643c2ad9e46e4702614a0d8c6cbbe7db4c86c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 19/26] fix: CSV export depends on the global locale

A decimal comma or digit grouping made the columns unreadable.
---
 src/solver/history.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 8439991..5775ca8 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -16,6 +16,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 */
 
 #include <fstream>
+#include <locale>
 #include <memory>
 #include <string>
 
@@ -156,6 +157,7 @@ void History::export_csv(const std::string& filename)
 
     std::ofstream ofs(filename);
     pooya_verify(ofs.is_open(), "could not open the file: " + filename);
+    ofs.imbue(std::locale::classic());
 
     // header
     ofs << "time";
-- 
2.43.0


From 4a37d91b2c67df16c3171b8bfda65a9eb613a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 20/26] fix: a run never ends when the step size is below the
 resolution of time

With a minimum time step that the current time cannot resolve, t1 + new_h
equalled t1, or the length of the rejected step again and again.
---
 src/solver/simulator_base.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index fa34d17..981b2d8 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -15,6 +15,8 @@ COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER I
 OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 */
 
+#include <algorithm>
+#include <cmath>
 #include <unordered_set>
 
 #include "simulator_base.hpp"
@@ -220,6 +222,10 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                 _stepper->step(minor_solver_step_cb, t1, _state_variables_orig, t2, _state_variables, new_h);
 
                 double h = t2 - t1;
+                if (std::max(t1 + std::max(min_time_step, std::min(new_h, max_time_step)), std::nextafter(t1, t)) >= t2)
+                {
+                    force_accept = true; // the step cannot be shortened any further
+                }
                 if (force_accept || (new_h >= h) || (h <= min_time_step))
                 {
                     // accept this step
@@ -227,6 +233,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     new_h        = std::max(min_time_step, std::min(new_h, max_time_step));
                     t1           = t2;
                     t2           = std::min(t1 + new_h, t);
+                    t2           = std::max(t2, std::nextafter(t1, t));
 
                     if (t1 < t)
                     {
@@ -241,6 +248,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     force_accept = new_h <= min_time_step;
                     new_h        = std::max(min_time_step, std::min(new_h, max_time_step));
                     t2           = t1 + new_h;
+                    t2           = std::max(t2, std::nextafter(t1, t));
                 }
             }
         }
-- 
2.43.0


From d46a567850c54239f39c88dc24ac22b493aaf5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 21/26] fix: Rkf45 never enlarges its steps while the error
 estimate is zero

After a discontinuity in the derivative it kept the minimum step size, however
exact the solution was.
---
 src/solver/rkf45.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/rkf45.cpp b/src/solver/rkf45.cpp
index 328cf79..fcbfa9f 100644
--- a/src/solver/rkf45.cpp
+++ b/src/solver/rkf45.cpp
@@ -15,6 +15,8 @@ COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER I
 OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 */
 
+#include <limits>
+
 #include "rkf45.hpp"
 #include "src/helper/trace.hpp"
 
@@ -44,7 +46,7 @@ void Rkf45::step(StepperCallback callback, double t0, const Array& v0, double t1
           (10260. / 282150) * _K6;
 
     double max_abs = (v1 - _ZT).cwiseAbs().maxCoeff();
-    double s4      = max_abs > 0 ? (eps_abs * h) / (2 * max_abs) : 1;
+    double s4      = max_abs > 0 ? (eps_abs * h) / (2 * max_abs) : std::numeric_limits<double>::infinity();
 
     if (s4 < 0.31640625) // 0.31640625 == 0.75 ^ 4
     {
-- 
2.43.0


From f544f5964f7ca819b8628ac19844d3ae88bfe244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 22/26] fix: Delay histories get out of step when storing a
 sample fails

---
 src/block/extra/delay.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index a57adf5..2af119f 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -88,7 +88,15 @@ public:
 
         pooya_debug_verify0(_t.empty() || (t > _t.back()));
         _t.push_back(t);
-        _x.push_back(_s_x);
+        try
+        {
+            _x.push_back(_s_x);
+        }
+        catch (...)
+        {
+            _t.pop_back(); // keep both histories at the same length
+            throw;
+        }
     }
 
     void activation_function(double t) override
-- 
2.43.0


From 5878f6f70e3b5e8790a68d85104df67e67d57695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 23/26] fix: a virtual destructor for StepperBase

Deleting an integration method through a StepperBase pointer was undefined
behaviour: the arrays the method works with were never given back.
---
 src/solver/stepper_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/stepper_base.hpp b/src/solver/stepper_base.hpp
index 7b65823..83d5545 100644
--- a/src/solver/stepper_base.hpp
+++ b/src/solver/stepper_base.hpp
@@ -41,7 +41,8 @@ protected:
     }
 
 public:
-    StepperBase() = default;
+    StepperBase()          = default;
+    virtual ~StepperBase() = default;
 
     virtual void step(StepperCallback callback, double t0, const Array& v0, double t1, Array& v1, double& new_h) = 0;
 };
-- 
2.43.0


From 2d786b60d9fab24400e91643297fe0eea3b5eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 24/26] fix: a signal does not own its derivative signal

State signals that are derivatives of one another (x' = x, or x' = y and
y' = x) owned one another and were never given back, not even when the model,
the simulator and all handles were gone.
---
 src/signal/float_signal.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 33f9e62..aefab86 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -33,21 +33,23 @@ public:
     using Base = ValueSignalImpl;
     using Ptr  = std::shared_ptr<FloatSignalImplT<T>>;
 
-    typename Types<T>::SignalImpl* state_variable() const { return _deriv_sig.get(); }
+    typename Types<T>::SignalImpl* state_variable() const { return _deriv_sig.lock().get(); }
     std::size_t size() const { return _size; }
 
     void set_deriv_signal(const Signal& deriv_sig)
     {
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
-        _deriv_sig = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
-        pooya_verify(_size == _deriv_sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        auto sig   = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
+        _deriv_sig = sig;
+        pooya_verify(_size == sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
     }
 
-    typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
+    typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.lock().get(); }
 
 protected:
-    std::shared_ptr<typename Types<T>::SignalImpl> _deriv_sig{
-        nullptr}; // the derivative signal if this is a state variable, nullptr otherwise
+    // the derivative signal if this is a state variable, empty otherwise; it is kept alive by the blocks it is linked to
+    // (states can be the derivatives of one another, so a shared pointer would make a cycle)
+    std::weak_ptr<typename Types<T>::SignalImpl> _deriv_sig;
     const std::size_t _size;
 
     FloatSignalImplT(std::size_t size, std::string_view name) : Base(name), _size(size) {}
-- 
2.43.0


From 620682fcf4af88256303d284e0a617e9c9259a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 25/26] fix: the columns of an exported record come in the
 order in which the signals were tracked

They came in the order of the hash table, that is of the signals' addresses, so
the same program could write different files.
---
 src/solver/history.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 5775ca8..aab0461 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -161,22 +161,22 @@ void History::export_csv(const std::string& filename)
 
     // header
     ofs << "time";
-    for (const auto& h : *this)
+    for (const auto& sig : _signals) // the order of tracking, not the one of the hash table
     {
-        if (h.first)
+        if (auto h = find(sig); h != end())
         {
 #ifdef POOYA_ARRAY_SIGNAL
-            if (auto* pa = dynamic_cast<ArraySignalImpl*>(h.first.get()); pa)
+            if (auto* pa = dynamic_cast<ArraySignalImpl*>(sig.get()); pa)
             {
                 for (std::size_t k = 0; k < pa->size(); k++)
                 {
-                    ofs << "," << h.first->name().str() << "[" << k << "]";
+                    ofs << "," << sig->name().str() << "[" << k << "]";
                 }
             }
             else
 #endif // POOYA_ARRAY_SIGNAL
             {
-                ofs << "," << h.first->name().str();
+                ofs << "," << sig->name().str();
             }
         }
     }
@@ -187,22 +187,22 @@ void History::export_csv(const std::string& filename)
     for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
-        for (const auto& h : *this)
+        for (const auto& sig : _signals)
         {
-            if (h.first)
+            if (auto h = find(sig); h != end())
             {
 #ifdef POOYA_ARRAY_SIGNAL
-                if (auto* pa = dynamic_cast<ArraySignalImpl*>(h.first.get()); pa)
+                if (auto* pa = dynamic_cast<ArraySignalImpl*>(sig.get()); pa)
                 {
                     for (std::size_t j = 0; j < pa->size(); j++)
                     {
-                        ofs << "," << h.second(k, j);
+                        ofs << "," << h->second(k, j);
                     }
                 }
                 else
 #endif // POOYA_ARRAY_SIGNAL
                 {
-                    ofs << "," << h.second(k);
+                    ofs << "," << h->second(k);
                 }
             }
         }
-- 
2.43.0


From 8a3a79a7f44d1978b55d45496f4aa0af39a0de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 26/26] fix: signals and states are handled in the order of the
 blocks

They were in the order of a hash table of pointers, that is of the signals'
addresses: a stepping method was given the states, and the states were reported
in errors, in an order that differed from one run of the program to the next.
---
 src/solver/simulator_base.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 981b2d8..fde41da 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -46,6 +46,7 @@ void SimulatorBase::init(double t0)
 
     std::size_t state_variables_size{0};
 
+    // the signals are kept in the order of the blocks, these sets only tell which ones have been seen
     std::unordered_set<ValueSignalImpl*> value_signals;
     std::unordered_set<ScalarSignalImpl*> scalar_state_signals;
 #ifdef POOYA_ARRAY_SIGNAL
@@ -58,7 +59,10 @@ void SimulatorBase::init(double t0)
             const auto& signals = block.linked_signals();
             for (auto& sig : signals)
             {
-                value_signals.insert(sig.first.get());
+                if (value_signals.insert(sig.first.get()).second)
+                {
+                    value_signals_.emplace_back(sig.first);
+                }
 
                 if (auto* ps = dynamic_cast<ScalarSignalImpl*>(sig.first.get()); ps)
                 {
@@ -67,6 +71,8 @@ void SimulatorBase::init(double t0)
                             .insert(std::static_pointer_cast<ScalarSignalImpl>(ps->shared_from_this()).get())
                             .second)
                     {
+                        scalar_state_signals_.emplace_back(
+                            std::static_pointer_cast<ScalarSignalImpl>(ps->shared_from_this()));
                         state_variables_size++;
                     }
                 }
@@ -78,6 +84,8 @@ void SimulatorBase::init(double t0)
                             .insert(std::static_pointer_cast<ArraySignalImpl>(pa->shared_from_this()).get())
                             .second)
                     {
+                        array_state_signals_.emplace_back(
+                            std::static_pointer_cast<ArraySignalImpl>(pa->shared_from_this()));
                         state_variables_size += pa->size();
                     }
                 }
@@ -88,24 +96,6 @@ void SimulatorBase::init(double t0)
         },
         0);
 
-    value_signals_.reserve(value_signals.size());
-    for (auto* sig : value_signals)
-    {
-        value_signals_.emplace_back(std::static_pointer_cast<ValueSignalImpl>(sig->shared_from_this()));
-    }
-    scalar_state_signals_.reserve(scalar_state_signals.size());
-    for (auto* sig : scalar_state_signals)
-    {
-        scalar_state_signals_.emplace_back(std::static_pointer_cast<ScalarSignalImpl>(sig->shared_from_this()));
-    }
-#ifdef POOYA_ARRAY_SIGNAL
-    array_state_signals_.reserve(array_state_signals.size());
-    for (auto* sig : array_state_signals)
-    {
-        array_state_signals_.emplace_back(std::static_pointer_cast<ArraySignalImpl>(sig->shared_from_this()));
-    }
-#endif // POOYA_ARRAY_SIGNAL
-
     _state_variables.resize(state_variables_size);
     _state_variables_orig.resize(state_variables_size);
     _state_variable_derivs.resize(state_variables_size);
-- 
2.43.0

