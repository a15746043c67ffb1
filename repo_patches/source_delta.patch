From 513b381e515fd5bd89553f3a615f2c8e3d4d23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 01/17] fix: reuse_order dereferenced a null order for models
 without state variables

---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From 1f1c2d31949f0d63993f34a0af05627c594945e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 02/17] fix: reuse_order rejected models containing a bus
 memory or bus pipe

---
 src/solver/simulator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..2f9c9b1 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -131,10 +131,13 @@ void Simulator::init(double t0)
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
 
+        // blocks that are never unprocessed (e.g. bus block builders) do not take part in the processing order
+        _model._mark_unprocessed();
+
         uint num_blocks     = 0;
-        auto enum_blocks_cb = [&](Block& /*c*/, uint32_t /*level*/) -> bool
+        auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
         {
-            num_blocks++;
+            if (!c.processed()) num_blocks++;
             return true;
         };
         _model.visit(enum_blocks_cb, 0);
@@ -144,7 +147,7 @@ void Simulator::init(double t0)
 
         auto add_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
         {
-            _processing_order1.emplace_back(&c);
+            if (!c.processed()) _processing_order1.emplace_back(&c);
             return true;
         };
         _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From a4498523f550d4970979ec7177f4a232279c3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 03/17] fix: FastSimulator refused a model that another
 simulator has already processed

---
 src/solver/fast_simulator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..4228b10 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -48,10 +48,12 @@ void FastSimulator::init(double t0)
 
     pooya_debug_verify0(_processing_order.empty());
 
+    _model._mark_unprocessed();
+
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
     {
-        if (dynamic_cast<Leaf*>(&c)) num_blocks++;
+        if (dynamic_cast<Leaf*>(&c) && !c.processed()) num_blocks++;
         return true;
     };
     _model.visit(enum_blocks_cb, 0);
@@ -62,7 +64,7 @@ void FastSimulator::init(double t0)
 
     auto add_blocks_cb = [&po](Block& c, uint32_t /*level*/) -> bool
     {
-        if (auto* p = dynamic_cast<Leaf*>(&c)) po.push_back(p);
+        if (auto* p = dynamic_cast<Leaf*>(&c); p && !p->processed()) po.push_back(p);
         return true;
     };
     _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From 5917dfba6b01cfd6d6afb339d9d49abd91da3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 04/17] fix: initializing a simulator again duplicated its
 signals and overflowed the state vector

---
 src/solver/fast_simulator.cpp | 2 +-
 src/solver/simulator.cpp      | 4 ++--
 src/solver/simulator_base.cpp | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 4228b10..a7fe772 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -46,7 +46,7 @@ void FastSimulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    pooya_debug_verify0(_processing_order.empty());
+    _processing_order.clear();
 
     _model._mark_unprocessed();
 
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 2f9c9b1..a330fab 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -128,8 +128,8 @@ void Simulator::init(double t0)
 
     if (_reuse_order)
     {
-        pooya_debug_verify0(_processing_order1.empty());
-        pooya_debug_verify0(_processing_order2.empty());
+        _processing_order1.clear();
+        _processing_order2.clear();
 
         // blocks that are never unprocessed (e.g. bus block builders) do not take part in the processing order
         _model._mark_unprocessed();
diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..5a5c301 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -78,6 +78,12 @@ void SimulatorBase::init(double t0)
         },
         0);
 
+    value_signals_.clear();
+    scalar_state_signals_.clear();
+#ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
+#endif // POOYA_ARRAY_SIGNAL
+
     value_signals_.reserve(value_signals.size());
     for (auto* sig : value_signals)
     {
-- 
2.43.0


From 41591aaf3b7dd555fb2e89243620219a5ec8f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 05/17] fix: untracking a signal that is not tracked was
 undefined behaviour

---
 src/solver/history.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..eabad84 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,8 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    auto it   = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From 95820cf601d276252f560042c9ca219a09fc59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 06/17] fix: export_csv wrote the unused rows of a history that
 was not shrunk

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index eabad84..57b4d9d 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -177,8 +177,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const auto n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From 617eea6708a652bec03d8e61887dc21bbc5c22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 07/17] fix: Delay dropped a sample still needed within its
 lifespan and output the initial value

---
 src/block/extra/delay.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..6942498 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,6 +71,8 @@ public:
                 }
                 k++;
             }
+            // the last expired sample is still needed for interpolating up to the first one kept
+            if (k > 0) k--;
             _t.erase(_t.begin(), _t.begin() + k);
             _x.erase(_x.begin(), _x.begin() + k);
         }
-- 
2.43.0


From 2cf9cf4aec41691292ae9e0b0595daff50057ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 08/17] fix: Derivative output its input, not the derivative,
 at the time of the last step

---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..e2bf4ff 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From 1b9a9048f14ce206decec53797b26a7a9a0953a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 09/17] fix: InitialValue did not compile

---
 src/block/extra/initial_value.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..a88a351 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,16 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in;
+            _init  = false;
+
+            // the input is not needed anymore
+            if (auto* ptr = Base::find_linked_signal(Base::_s_in.impl()))
+            {
+                ptr->second = ptr->second & (~Base::SignalLinkType::Required);
+            }
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From a46eebdb8ff1f9171498a0c30d6e96430713852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 10/17] fix: SubtractA, DivideA and DerivativeA did not compile

---
 src/block/extra/derivative.hpp | 2 +-
 src/block/extra/divide.hpp     | 2 +-
 src/block/extra/subtract.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index e2bf4ff..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From 1ff40ca7460672c464e6b2e77b34047c80a70564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 11/17] fix: Bus try_at failed on a missing nested label and
 treated any signal as a bus

---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..41a8cd3 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -130,9 +130,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        BusImpl* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From acbb475bcb18c6fc1d4bf3da53ca1ecc5b43e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 12/17] fix: a refused signal reset left the handle null

---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From e047455aa65e26c27ea32f8c408b12958418e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 13/17] fix: TriggeredIntegrator was reset by triggers seen in
 rejected or trial evaluations

---
 src/block/extra/triggered_integrator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..4814311 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,13 +72,11 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        if (!_triggered)
-        {
-            _triggered = _trigger;
-        }
+        Base::post_step(t);
+        _triggered = _trigger;
     }
 
 protected:
-- 
2.43.0


From d0c5db9c59859990f9b66aaa6c76ede90c153b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 14/17] fix: the first step of a run ignored max_time_step

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 5a5c301..fa85480 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -199,7 +199,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
             double new_h;
             double t1         = _t_prev;
-            double t2         = t;
+            double t2         = std::min(t1 + max_time_step, t);
             bool force_accept = false;
             while (t1 < t)
             {
-- 
2.43.0


From 9b9a8e410549d34a29949fa682bff4aac3ee99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 15/17] fix: adding a submodel to itself or to its own
 descendant made a cycle

---
 src/block/block.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/block/block.cpp b/src/block/block.cpp
index 4dfa828..da2a9a1 100644
--- a/src/block/block.cpp
+++ b/src/block/block.cpp
@@ -39,6 +39,16 @@ bool Block::set_parent(Submodel& parent)
         return false;
     }
 
+    for (const Block* block = &parent; block; block = block->_parent)
+    {
+        if (block == this)
+        {
+            helper::pooya_show_warning(__FILE__, __LINE__,
+                                       full_name().str() + ": a block cannot be its own descendant!");
+            return false;
+        }
+    }
+
     _parent = &parent;
     parent.link_block(*this);
 
-- 
2.43.0


From d7ef7542e786adaa29c0f8374ecab04e7d3a9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 16/17] fix: errors in the fast simulator did not name the
 failing user-defined block

---
 src/solver/fast_simulator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index a7fe772..6907d10 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -35,7 +35,13 @@ void FastSimulator::process_model(double t, bool call_pre_step, bool call_post_s
     if (call_pre_step) _model.pre_step(t);
 
     for (auto& list : _processing_order)
-        for (auto* leaf : list) leaf->activation_function(t);
+    {
+        for (auto* leaf : list)
+        {
+            pooya_trace("block: " + leaf->full_name().str());
+            leaf->activation_function(t);
+        }
+    }
 
     if (call_post_step) _model.post_step(t);
 }
-- 
2.43.0


From 1c90f6c0ba430b8dbcd9b63d1fe04152570127eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 17/17] fix: the diagnostic call trace was shared by all
 threads, so that independent models could not be simulated concurrently

---
 src/helper/trace.cpp | 2 +-
 src/helper/trace.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper/trace.cpp b/src/helper/trace.cpp
index 2578de2..a650c75 100644
--- a/src/helper/trace.cpp
+++ b/src/helper/trace.cpp
@@ -24,7 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 namespace pooya::helper
 {
 
-std::vector<PooyaTraceInfo> pooya_trace_info;
+thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 std::string pooya_trace_info_string()
 {
diff --git a/src/helper/trace.hpp b/src/helper/trace.hpp
index ea28f0e..bada8c8 100644
--- a/src/helper/trace.hpp
+++ b/src/helper/trace.hpp
@@ -43,7 +43,7 @@ struct PooyaTraceInfo
     std::string _msg;
 };
 
-extern std::vector<PooyaTraceInfo> pooya_trace_info;
+extern thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 class PooyaTracer
 {
-- 
2.43.0

