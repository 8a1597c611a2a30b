From cb727ec66ff7e2fa362fa53c65e3f5c956032521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 01/84] fix: move assignment of BufferedTransferRPUDevice takes
 over the transfer buffers

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..387b3ca 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -109,7 +109,7 @@ template <typename T>
 BufferedTransferRPUDevice<T> &
 BufferedTransferRPUDevice<T>::operator=(BufferedTransferRPUDevice<T> &&other) noexcept {
   TransferRPUDevice<T>::operator=(std::move(other));
-  transfer_buffer_vec_ = std::move(transfer_buffer_vec_);
+  transfer_buffer_vec_ = std::move(other.transfer_buffer_vec_);
 
   return *this;
 }
-- 
2.43.0


From 2c601cb8262c8dbc291082abf0f731659a3f40d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 02/84] fix: swap of DenseBitLineMaker exchanges the value
 buffers

---
 src/rpucuda/dense_bit_line_maker.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpucuda/dense_bit_line_maker.h b/src/rpucuda/dense_bit_line_maker.h
index 5ea6f07..3f105c8 100644
--- a/src/rpucuda/dense_bit_line_maker.h
+++ b/src/rpucuda/dense_bit_line_maker.h
@@ -31,6 +31,8 @@ public:
     swap(a.containers_allocated_, b.containers_allocated_);
     swap(a.d_counts_, b.d_counts_);
     swap(a.x_counts_, b.x_counts_);
+    swap(a.d_values_, b.d_values_);
+    swap(a.x_values_, b.x_values_);
     swap(a.coincidences_, b.coincidences_);
     swap(a.rw_rng_, b.rw_rng_);
   }
-- 
2.43.0


From 91c83b1cc5e626f5856fc5d53b2929a3c445ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 03/84] fix: move assignment of RPUSimple takes over the weight
 clipper

---
 src/rpucuda/rpu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..734de56 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -390,6 +390,7 @@ template <typename T> RPUSimple<T> &RPUSimple<T>::operator=(RPUSimple<T> &&other
 
   wdrifter_ = std::move(other.wdrifter_);
   wremapper_ = std::move(other.wremapper_);
+  wclipper_ = std::move(other.wclipper_);
 
   last_update_m_batch_ = other.last_update_m_batch_;
 
-- 
2.43.0


From 473dc26ec9cf36d66a31ab3f0045728f2e0cf9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 04/84] fix: swap of SimpleRPUDeviceMetaParameter exchanges
 reset_std

---
 src/rpucuda/rpu_simple_device.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu_simple_device.h b/src/rpucuda/rpu_simple_device.h
index bfdb6dc..cfdc8ca 100644
--- a/src/rpucuda/rpu_simple_device.h
+++ b/src/rpucuda/rpu_simple_device.h
@@ -110,6 +110,7 @@ template <typename T> struct SimpleRPUDeviceMetaParameter : AbstractRPUDeviceMet
     swap(
         static_cast<AbstractRPUDeviceMetaParameter<T> &>(a),
         static_cast<AbstractRPUDeviceMetaParameter<T> &>(b));
+    swap(a.reset_std, b.reset_std);
   }
 };
 
-- 
2.43.0


From 5cfce172731078f4ee669147e3b8025e7edf886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 05/84] fix: loading a simulator tile restores the state of its
 weight drifter

The saved keys carry the prefix of the drifter, so that counting the bare prefix never found it.
---
 src/rpucuda/rpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 734de56..19fb335 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -467,21 +467,21 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
     }
   }
 
-  if (state.count("wdrifter")) {
+  if (!RPU::selectWithPrefix(state, "wdrifter").empty()) {
     if (!wdrifter_) {
       wdrifter_ = RPU::make_unique<WeightDrifter<T>>(this->x_size_ * this->d_size_, getPar().drift);
     }
     wdrifter_->loadExtra(state, "wdrifter", strict);
   }
 
-  if (state.count("wclipper")) {
+  if (!RPU::selectWithPrefix(state, "wclipper").empty()) {
     if (!wclipper_) {
       wclipper_ = RPU::make_unique<WeightClipper<T>>(this->x_size_, this->d_size_);
     }
     wclipper_->loadExtra(state, "wclipper", strict);
   }
 
-  if (state.count("wremapper")) {
+  if (!RPU::selectWithPrefix(state, "wremapper").empty()) {
     if (!wremapper_) {
       wremapper_ = RPU::make_unique<WeightRemapper<T>>(this->x_size_, this->d_size_);
     }
-- 
2.43.0


From 23a3151f985004e951fc85fed7e3f8c5877a7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 06/84] fix: loading a simulator tile restores the state of its
 weight modifier

---
 src/rpucuda/rpu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 19fb335..fc2c6fa 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -464,6 +464,7 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
   }
 
-- 
2.43.0


From 5745e1a0d294558a9d6ed990e9e715064b13f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 07/84] fix: hidden_weights_chi of mixed precision devices is
 restored from the hidden parameters

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..b890a81 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,20 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
-  rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
+  std::vector<T *> v(data_ptrs.begin(), data_ptrs.end() - 1);
+  rpu_device_->setDeviceParameter(out_weights, v);
+
+  // "hidden weights Chi"
+  size_t m = names.size() - 1;
+  setChi(data_ptrs[m]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From fe133f522c8c3f2c5bd086d42710c3ea00d8601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 08/84] fix: the inverted device parameters of one-sided
 devices mirror the copied device

---
 src/rpucuda/rpu_powstep_reference_device.h    | 2 +-
 src/rpucuda/rpu_pulsed_device.cpp             | 8 ++++----
 src/rpucuda/rpu_softbounds_reference_device.h | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpucuda/rpu_powstep_reference_device.h b/src/rpucuda/rpu_powstep_reference_device.h
index ba171b9..0bd94e1 100644
--- a/src/rpucuda/rpu_powstep_reference_device.h
+++ b/src/rpucuda/rpu_powstep_reference_device.h
@@ -127,7 +127,7 @@ template <typename T> class PowStepReferenceRPUDevice : public PulsedRPUDevice<T
         for (int i = 0; i < this->d_size_; ++i) {
           w_gamma_down_[i][j] = gamma_up[i][j];
           w_gamma_up_[i][j] = gamma_down[i][j];
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->w_reference_[i][j];
         }
       }
 
diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..a654a70 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -532,12 +532,12 @@ void PulsedRPUDevice<T>::copyInvertDeviceParameter(const PulsedRPUDeviceBase<T>
     for (int i = 0; i < this->d_size_; ++i) {
 
       // scaleup/down both have same sign
-      std::swap(w_scale_up_[i][j], w_scale_down_[i][j]);
+      w_scale_up_[i][j] = rpu->w_scale_down_[i][j];
+      w_scale_down_[i][j] = rpu->w_scale_up_[i][j];
 
       // min max have sign. mirror
-      T b = w_max_bound_[i][j];
-      w_max_bound_[i][j] = -w_min_bound_[i][j];
-      w_min_bound_[i][j] = -b;
+      w_max_bound_[i][j] = -rpu->w_min_bound_[i][j];
+      w_min_bound_[i][j] = -rpu->w_max_bound_[i][j];
     }
   }
 }
diff --git a/src/rpucuda/rpu_softbounds_reference_device.h b/src/rpucuda/rpu_softbounds_reference_device.h
index f2a5b56..7497f1b 100644
--- a/src/rpucuda/rpu_softbounds_reference_device.h
+++ b/src/rpucuda/rpu_softbounds_reference_device.h
@@ -87,7 +87,7 @@ template <typename T> class SoftBoundsReferenceRPUDevice : public PulsedRPUDevic
       /*invert copy DP */
       for (int j = 0; j < this->x_size_; ++j) {
         for (int i = 0; i < this->d_size_; ++i) {
-          w_reference_[i][j] = -w_reference_[i][j];
+          w_reference_[i][j] = -rpu->w_reference_[i][j];
         }
       }
 
-- 
2.43.0


From 8fa220faba07a96b74e157a39e856a615f8f9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 09/84] fix: setting hidden parameters keeps the persistent
 weights that were set

---
 src/rpucuda/rpu_pulsed_device.cpp | 20 +++++++++++++++++++-
 src/rpucuda/rpu_pulsed_device.h   |  3 ++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index a654a70..cf49ca3 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -334,9 +334,27 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
   }
 
   // update the weights according to the bounds
-  this->onSetWeights(out_weights);
+  this->onSetDeviceParameter(out_weights);
 };
 
+template <typename T> void PulsedRPUDevice<T>::onSetDeviceParameter(T **weights) {
+
+  if (!getPar().usesPersistentWeight()) {
+    this->onSetWeights(weights);
+    return;
+  }
+  // the persistent weights are among the device parameters: only apply the
+  // hard bounds, but do not overwrite them with the (noisy) visible weights
+  T *w = w_persistent_[0];
+  T *max_bound = w_max_bound_[0];
+  T *min_bound = w_min_bound_[0];
+  PRAGMA_SIMD
+  for (int i = 0; i < this->size_; ++i) {
+    w[i] = MIN(w[i], max_bound[i]);
+    w[i] = MAX(w[i], min_bound[i]);
+  }
+}
+
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
   return getPar().usesPersistentWeight() ? 1 : 0;
 }
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..a904a22 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -281,6 +281,7 @@ public:
   void diffuseWeights(T **weights, RNG<T> &rng) override;
   void clipWeights(T **weights, T add_clip) override;
   bool onSetWeights(T **weights) override;
+  void onSetDeviceParameter(T **weights);
   void
   resetCols(T **weights, int start_col, int n_cols, T reset_prob, RealWorldRNG<T> &rng) override;
   virtual void resetAtIndices(T **weights, std::vector<int> x_major_indices, RealWorldRNG<T> &rng);
@@ -412,7 +413,7 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
+    this->onSetDeviceParameter(out_weights);                                                       \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 386e98d2c977aa36f6a4605c9268cd59775d1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 10/84] fix: loading an analog tile restores the hidden weights
 of compound devices

---
 src/aihwkit/simulator/tiles/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..d482176 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -782,6 +782,11 @@ class SimulatorTileWrapper:
                 and callable(ensure_shared_weights)
             ):
                 ensure_shared_weights()  # pylint: disable=not-callable
+
+            # set_weights() re-initializes the hidden weights of compound
+            # devices (the parameters were needed before for the bounds)
+            self.tile.set_hidden_parameters(hidden_parameters)
+
             if analog_lr is not None:
                 self.tile.set_learning_rate(analog_lr)
 
-- 
2.43.0


From e206d950d43085c1cd5e7788d6ac00d22c14f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 11/84] fix: save and restore the refresh state of one-sided
 devices

---
 src/rpucuda/rpu_onesided_device.cpp | 35 +++++++++++++++++++++++++++++
 src/rpucuda/rpu_onesided_device.h   |  3 +++
 2 files changed, 38 insertions(+)

diff --git a/src/rpucuda/rpu_onesided_device.cpp b/src/rpucuda/rpu_onesided_device.cpp
index 720f236..c12c27c 100644
--- a/src/rpucuda/rpu_onesided_device.cpp
+++ b/src/rpucuda/rpu_onesided_device.cpp
@@ -416,6 +416,41 @@ template <typename T> bool OneSidedRPUDevice<T>::onSetWeights(T **weights) {
   return true; // modified device thus true
 }
 
+/*********************************************************************************/
+/* dump / load extra */
+
+template <typename T>
+void OneSidedRPUDevice<T>::dumpExtra(RPU::state_t &extra, const std::string prefix) {
+  VectorRPUDevice<T>::dumpExtra(extra, prefix);
+
+  RPU::state_t state;
+
+  RPU::insert(state, "g_plus", g_plus_);
+  RPU::insert(state, "g_minus", g_minus_);
+  RPU::insert(state, "refresh_counter", refresh_counter_);
+
+  refresh_fb_pass_->dumpExtra(state, "refresh_fb_pass");
+  refresh_pwu_->dumpExtra(state, "refresh_pwu");
+
+  RPU::insertWithPrefix(extra, state, prefix);
+}
+
+template <typename T>
+void OneSidedRPUDevice<T>::loadExtra(
+    const RPU::state_t &extra, const std::string prefix, bool strict) {
+
+  VectorRPUDevice<T>::loadExtra(extra, prefix, strict);
+
+  auto state = RPU::selectWithPrefix(extra, prefix);
+
+  RPU::load(state, "g_plus", g_plus_, strict);
+  RPU::load(state, "g_minus", g_minus_, strict);
+  RPU::load(state, "refresh_counter", refresh_counter_, strict);
+
+  refresh_fb_pass_->loadExtra(state, "refresh_fb_pass", strict);
+  refresh_pwu_->loadExtra(state, "refresh_pwu", strict);
+}
+
 template class OneSidedRPUDevice<float>;
 #ifdef RPU_USE_DOUBLE
 template class OneSidedRPUDevice<double>;
diff --git a/src/rpucuda/rpu_onesided_device.h b/src/rpucuda/rpu_onesided_device.h
index f01ad4b..7d6cdc9 100644
--- a/src/rpucuda/rpu_onesided_device.h
+++ b/src/rpucuda/rpu_onesided_device.h
@@ -103,6 +103,9 @@ public:
   void finishUpdateCycle(
       T **weights, const PulsedUpdateMetaParameter<T> &up, T current_lr, int m_batch_info) override;
 
+  void dumpExtra(RPU::state_t &extra, const std::string prefix) override;
+  void loadExtra(const RPU::state_t &extra, const std::string prefix, bool strict) override;
+
   void setHiddenUpdateIdx(int idx) override {};
 
   void doSparseUpdate(
-- 
2.43.0


From 32756945be6cf3e836321c5903074ee3940a0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 12/84] fix: a hidden step device keeps the weight within both
 bounds

---
 src/rpucuda/rpu_hidden_device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpucuda/rpu_hidden_device.cpp b/src/rpucuda/rpu_hidden_device.cpp
index 7947162..efbb11c 100644
--- a/src/rpucuda/rpu_hidden_device.cpp
+++ b/src/rpucuda/rpu_hidden_device.cpp
@@ -87,11 +87,13 @@ inline void update_once(
         dw_min_std > (T)0.0 ? ((T)1.0 + dw_min_std * rng->sampleGauss()) * scale_down : scale_down;
     w -= dw;
     w = MAX(w, min_bound);
+    w = MIN(w, max_bound);
   } else if (hw > (T)1.0) {
     hw = (T)0.0;
     T dw = dw_min_std > (T)0.0 ? ((T)1.0 + dw_min_std * rng->sampleGauss()) * scale_up : scale_up;
     w += dw;
     w = MIN(w, max_bound);
+    w = MAX(w, min_bound);
   }
 }
 
-- 
2.43.0


From 9457c67b8c7f9f0ca7057435b865b7a395910f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 13/84] fix: program_weights from an existing reference or with
 given inputs

---
 src/aihwkit/simulator/tiles/periphery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..4587101 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -278,12 +278,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
-- 
2.43.0


From 7788f5b3056be8ca667f941ea6f3d27f39a20c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 14/84] fix: setting the mapping scales to a number when they
 already exist

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4587101..810e6a4 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -524,7 +524,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From 08bcd2c4a2089feb802bd839dec747e30a612f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 15/84] fix: initialise the mapping scales of column-wise
 weight scaling

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 810e6a4..16a8e48 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -559,7 +559,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 mapping_scales = ones(
                     (1,), dtype=self.get_dtype(), device=self.device, requires_grad=False
                 )
-                self.set_mapping_scales(mapping_scales)
+            self.set_mapping_scales(mapping_scales)
 
     @no_grad()
     def init_input_processing(self) -> bool:
-- 
2.43.0


From 699603db8c98dbd58f091def83c3b24ed638ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 16/84] fix: the gradient scale of the input range applies to
 absolute gradients, too

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..966e40b 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 16a8e48..399520b 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1123,7 +1123,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From 04cc7ff6151ed4b6d871fd4b8852ecafc8dea78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 17/84] fix: drift read-out of tiles with transposed input

---
 src/aihwkit/simulator/tiles/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..6e96572 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -129,7 +129,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .to(self.device)
             )
             if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
+                self.drift_readout_tensor = self.drift_readout_tensor.transpose(
                     0, 1
                 ).clone()
         else:
-- 
2.43.0


From ff5772cf766317139e0e7679c8909a78545f402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 18/84] fix: drift starts from newly set weights instead of
 those programmed before

---
 src/aihwkit/simulator/tiles/inference.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 6e96572..173b5be 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -101,6 +101,16 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             )
             self.set_mapping_scales(mapping_scales)
 
+    @no_grad()
+    def set_weights(self, *args: Any, **kwargs: Any) -> None:
+        """Set the tile weights, see :meth:`TileWithPeriphery.set_weights`.
+
+        The weights that might have been programmed before are discarded.
+        """
+        # the drift has to start from the newly set weights
+        self.programmed_weights = None
+        super().set_weights(*args, **kwargs)
+
     @no_grad()
     def _forward_drift_readout_tensor(
         self, reset_if: bool = False, exact_reference: bool = False
-- 
2.43.0


From 771cbe64ba47d63c2c7b1a58dca64c703b4fce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 19/84] fix: a tile that loads a state dict does not share the
 configuration with its source

---
 src/aihwkit/simulator/tiles/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..56cc199 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -424,4 +424,7 @@ class TileModule(Module, TileModuleBase):
                 raise TileModuleError(msg)
 
             analog_state["rpu_config"] = analog_tile.rpu_config
+        else:
+            # the tile needs to own its configuration
+            analog_state["rpu_config"] = deepcopy(analog_state["rpu_config"])
         analog_tile.__setstate__(analog_state)
-- 
2.43.0


From 55a0d3526042869fcf40efa81b8e86e4835d9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 20/84] fix: keep references to the weights of the custom tile
 valid after an update

---
 src/aihwkit/simulator/tiles/custom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..439815d 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -132,7 +132,8 @@ class CustomSimulatorTile(SimulatorTile, Module):
         if self._update.gradient_noise:
             delta_w += self._update.gradient_noise * randn_like(delta_w)
 
-        self._analog_weight = self._analog_weight - self.learning_rate * delta_w  # type: ignore
+        # in-place, since the weights might be referenced from outside (see get_weights)
+        self._analog_weight -= self.learning_rate * delta_w  # type: ignore
 
     def set_config(self, rpu_config: "CustomRPUConfig") -> None:
         """Updated the configuration to allow on-the-fly changes.
-- 
2.43.0


From 85e2c634deca1cfdeb14d2fa87efeb60e0e69a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 21/84] fix: clip and remap the weights of the torch tile in
 place

---
 src/aihwkit/simulator/tiles/torch_tile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..36ec22b 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -128,11 +128,11 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
-            self.weight.data = scaled_weights / new_scale
+            self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
@@ -150,12 +150,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            self.weight.data.copy_(clamp(self.weight, -clip.fixed_value, clip.fixed_value))
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            self.weight.data.copy_(clamp(self.weight, -alpha, alpha))
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From 4e717cbb68f67aea1a7784198da739a55eae7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 22/84] fix: do not chop the input tensor of the caller in the
 transfer tile

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..3543014 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -214,7 +214,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input *= self.chopper
+            x_input = x_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 0508fca31bacc9e27056131cbe80368bc9b40177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 23/84] fix: return a reference of the weights from the
 transfer tile when asked to

---
 src/aihwkit/simulator/tiles/transfer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 3543014..1b4db1e 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -327,6 +327,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 If False (default), return a detached CPU copy.
         """
         # weight_tile.tile is a C++ tile that doesn't accept kwargs
+        if as_ref:
+            return self.weight_tile._get_tile_weights_ref()
         return self.weight_tile.tile.get_weights()
 
     def set_weights(self, weight: Tensor) -> None:
-- 
2.43.0


From 76a7670f2015f734cead8ecb80ba9ab20309d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 24/84] fix: do not share the hidden weights of the transfer
 tile with the given tensor

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 1b4db1e..a87051d 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -405,7 +405,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 weight = params[names.index(name), :, :]
                 if self.device_config.transfer_columns:
                     weight = weight.T
-                buffer.data = weight
+                buffer.data = weight.clone()
 
     def get_learning_rate(self) -> Optional[float]:
         """Get the learning rate of the tile.
-- 
2.43.0


From 73250592ebe5701c01328ca42d5d4642d2081190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 25/84] fix: chop the transferred dimension in the torch
 transfer tile

---
 src/aihwkit/simulator/tiles/transfer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index a87051d..b151f6a 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -120,7 +120,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
             self.register_buffer("reference_weight", reference_weight)
 
-        chopper = ones([self.x_size], dtype=dtype.as_torch())
+        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
@@ -214,7 +214,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input = x_input * self.chopper
+            if cfg.transfer_columns:
+                x_input = x_input * self.chopper
+            else:
+                d_input = d_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 7100e9b60241bc90547ef689ca48683ff35edda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 26/84] fix: range of the uniform random weights of the custom
 tile

---
 src/aihwkit/simulator/tiles/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 439815d..6ac568c 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -214,7 +214,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         """
         if bmin >= bmax:
             raise TileError("Bmin should be smaller than bmax")
-        self.set_weights(rand_like(self.get_weights()) / (bmax - bmin) - bmin)
+        self.set_weights(rand_like(self.get_weights()) * (bmax - bmin) + bmin)
 
     def get_meta_parameters(self) -> Any:
         """Returns meta parameters."""
-- 
2.43.0


From 3151faefcb9edef03a924d3eb36135e9381714f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 27/84] fix: quantized tile array without an output quantizer

---
 src/aihwkit/simulator/tiles/array.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..7de6072 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -226,6 +226,7 @@ class QuantizedTileModuleArray(TileModuleArray):
         # same bit-precision. The wide layers need to be quantized to equalize
         # the range across the different tiles and keep the precision down
         # in case of bias addition.
+        self.module_out_quantizer = None
         if self.analog_tile_count > 1:
             if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
                 self.module_out_quantizer = QuantizedActivation(
@@ -233,8 +234,6 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 # Enable the quantization
                 self.module_out_quantizer.quantized_acts()
-            else:
-                self.module_out_quantizer = None
 
         # Initialize the bias quantizer, if quantized periphery is defined
         if self.bias is not None:
@@ -251,7 +250,7 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 if periph_quant.learn_quant_params:
                     self.bias_quant_update_idx = Parameter(
-                        full((1,), 0.0, device=self.device), requires_grad=False
+                        full((1,), 0.0, device=self.bias.device), requires_grad=False
                     )
             else:
                 self.bias_quantizer = None
-- 
2.43.0


From 1ae3283d4a9496fa737c8e8025c0064cf7a8dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 28/84] fix: all-zero channels when remapping the weights of
 the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 36ec22b..d102869 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, clamp, randn, where
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,10 +128,14 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            if new_scale == 0.0:
+                return scales  # nothing to remap
             self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
+            # keep the scales of channels where all weights are zero
+            new_scale = where(new_scale > 0.0, new_scale, scales.view(-1))
             self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
-- 
2.43.0


From 93a8b1bc1e6781dc4568f4fa96ef688ce6a4abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 29/84] fix: discretize the weights per batch sample in the
 torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index d102869..40978be 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -244,7 +244,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
+            out_weight = inp_weight.clone().expand(target_shape)
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From 310f4e5fcbe6915f91a726abfde8af6e0f83c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 30/84] fix: read the weights of a tile with analog bias using
 given inputs

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 399520b..3397783 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -416,7 +416,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # calculate pseudo inverse (with bias, if necessary)
         if self.analog_bias:
-            ones_column = ones(self.in_size * over_sampling, 1, device=self.device, dtype=dtype)
+            ones_column = ones(x_values.shape[0], 1, device=self.device, dtype=dtype)
             x_values = cat([x_values, ones_column], axis=1)
 
         est_weight = lstsq(x_values, y_values).solution.T.cpu()  # pylint: disable=not-callable
-- 
2.43.0


From bc81b4ac867ac526ca3911bdab9f3322dda026d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 31/84] fix: programming a tile with all-zero target weights

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 3397783..7e72f78 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -297,7 +297,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         for _ in range(max_iter):
             y = self.tile.forward(x_values, False)
             error = y - target_values
-            if tolerance is not None and (error.abs().mean().item() / target_max) < tolerance:
+            if tolerance is not None and error.abs().mean().item() < tolerance * target_max:
                 break
             self.tile.update(x_values, error, False)  # type: ignore
 
-- 
2.43.0


From d0f69c8e403b6220de17942f61dcbff7afb86725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 32/84] fix: program the weights of layers with tiles other
 than inference tiles

---
 src/aihwkit/nn/modules/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/nn/modules/base.py b/src/aihwkit/nn/modules/base.py
index 3f346b3..3c831a6 100644
--- a/src/aihwkit/nn/modules/base.py
+++ b/src/aihwkit/nn/modules/base.py
@@ -348,7 +348,11 @@ class AnalogLayerBase:
         if self.training:  # type: ignore
             raise ModuleError("program_analog_weights can only be applied in evaluation mode")
         for analog_tile in self.analog_tiles():
-            analog_tile.program_weights(noise_model=noise_model)
+            if isinstance(analog_tile, InferenceTileWithPeriphery):
+                analog_tile.program_weights(noise_model=noise_model)
+            else:
+                # other tiles do not have a noise model
+                analog_tile.program_weights()
 
     def extra_repr(self) -> str:
         """Set the extra representation of the module.
-- 
2.43.0


From 33fddb5bd0f7a0f9df2756843549f31346c3c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 33/84] fix: get_weights returned the digital bias by reference
 instead of a copy

---
 src/aihwkit/simulator/tiles/array.py     | 2 +-
 src/aihwkit/simulator/tiles/periphery.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 7de6072..e88a688 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -149,7 +149,7 @@ class TileModuleArray(Module, TileModuleBase):
         weight = cat(weight_lst, 1)
 
         if self.bias is not None:
-            return weight, self.bias.data
+            return weight, self.bias.detach().cpu().clone()
         return weight, None
 
     def forward(self, x_input: Tensor, tensor_view: Optional[Tuple] = None) -> Tensor:
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 7e72f78..2d192b1 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -230,7 +230,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(combined_weights)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             return weight, bias
@@ -423,7 +423,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(est_weight)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             # we de-apply all scales
-- 
2.43.0


From c8d081659a0972de6e87ebe3c5cf293ea2b2f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 34/84] fix: conversion of models dropped modules that a
 sequence uses more than once

---
 src/aihwkit/nn/conversion.py        | 21 +++++++++++++++++----
 src/aihwkit/nn/modules/container.py |  5 +++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f148a62..e8dae76 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -77,6 +77,21 @@ def specific_rpu_config_id(
     return rpu_config
 
 
+def _replace_children(module: Module, new_children: Dict[str, Module]) -> None:
+    """Replace children of a module, under all names a child is registered with.
+
+    Args:
+        module: The (parent) module to change
+        new_children: the new modules by (first) name of the child to replace
+    """
+    children = module._modules  # pylint: disable=protected-access
+    for name, new_child in new_children.items():
+        old_child = children[name]
+        for key, child in children.items():
+            if child is old_child:
+                children[key] = new_child
+
+
 def convert_to_analog(
     module: Module,
     rpu_config: RPUConfigGeneric,
@@ -205,8 +220,7 @@ def convert_to_analog(
             mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
         )
 
-    for name, new_mod in convert_dic.items():
-        module._modules[name] = new_mod  # pylint: disable=protected-access
+    _replace_children(module, convert_dic)
 
     # in case of root, make sure it is wrapped as analog
     if ensure_analog_root and not module_name and not isinstance(module, AnalogLayerBase):
@@ -295,7 +309,6 @@ def convert_to_digital(
             )
         convert_dic[name] = mod.to_digital(mod)  # type: ignore
 
-    for name, new_mod in convert_dic.items():
-        module._modules[name] = new_mod  # pylint: disable=protected-access
+    _replace_children(module, convert_dic)
 
     return module
diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..19ef22b 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -77,12 +77,13 @@ class AnalogSequential(AnalogContainerBase, Sequential):
     @classmethod
     def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any) -> "AnalogSequential":
         """Construct AnalogSequential in-place from Sequential."""
-        return cls(OrderedDict(mod for mod in module.named_children()))
+        # named_children would drop modules that are used more than once
+        return cls(OrderedDict(module._modules))  # pylint: disable=protected-access
 
     @classmethod
     def to_digital(cls, module: "AnalogSequential", *args: Any, **kwargs: Any) -> Sequential:
         """Construct Sequential in-place from AnalogSequential."""
-        return Sequential(OrderedDict(mod for mod in module.named_children()))
+        return Sequential(OrderedDict(module._modules))  # pylint: disable=protected-access
 
 
 class AnalogWrapper(AnalogContainerBase):
-- 
2.43.0


From 2bc21986c3ece541b5418b57d9f51867d8ae0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 35/84] fix: wrapping a model used the class of another model
 with the same class name

---
 src/aihwkit/nn/modules/container.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 19ef22b..72d1425 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -101,7 +101,7 @@ class AnalogWrapper(AnalogContainerBase):
          model: model to wrap with the analog wrapper.
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, module: Optional[Module] = None, **__: Any) -> "AnalogWrapper":
@@ -115,10 +115,11 @@ class AnalogWrapper(AnalogContainerBase):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
         # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
+        key = (cls, module_cls)  # type: Tuple[Type, Type]
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, key, {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(self, module: Module):
         self.__dict__.update(module.__dict__)
-- 
2.43.0


From 9427e8f727a24572086729fd0626ef779db26da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 36/84] fix: optimizers were built from another optimizer class
 of the same name

---
 src/aihwkit/optim/analog_optimizer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..03a9eae 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,7 +7,7 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, Optional, Tuple, Type
 
 from torch import cat
 from torch.optim import Optimizer, SGD, Adam
@@ -193,7 +193,7 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         >>> optimizer = AnalogOptimizer(SGD, model.parameters(), lr=0.02)
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, optimizer_cls: Type, *_: Any, **__: Any) -> "AnalogOptimizer":
@@ -202,10 +202,11 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogOptimizer` and for the specific torch optimizer
         # (`optimizer_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, optimizer_cls), {})
+        key = (cls, optimizer_cls)  # type: Tuple[Type, Type]
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, key, {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(
         self, optimizer_cls: Type, *args: Any, **kwargs: Any  # pylint: disable=unused-argument
-- 
2.43.0


From 1f6ab871f9863ce6f1f4c11acd4501b242089dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 37/84] fix: regrouping lost the learning rate of parameter
 groups with analog tiles

---
 src/aihwkit/optim/analog_optimizer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 03a9eae..29bcb7e 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -37,10 +37,9 @@ class AnalogOptimizerMixin:
             rm_lst = []
             for param in group["params"]:
                 if isinstance(param, AnalogContext):
-                    param.analog_tile.set_learning_rate(
-                        self.defaults["lr"]  # type: ignore[attr-defined]
-                    )
-                    analog_param_groups.append({"params": [param]})
+                    param.analog_tile.set_learning_rate(group["lr"])
+                    # keep the options (e.g. the learning rate) of the original group
+                    analog_param_groups.append({**group, "params": [param]})
                     rm_lst.append(id(param))
 
             group["params"] = [p for p in group["params"] if id(p) not in rm_lst]
-- 
2.43.0


From ff2c8cb8ebe6c42252ac0e6b6a61a5d0e6c09757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 38/84] fix: recalculate convolution fold indices when the
 input shape changes at equal size

---
 src/aihwkit/nn/modules/conv.py        | 10 ++++------
 src/aihwkit/nn/modules/conv_mapped.py |  7 +++----
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..ef0249c 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -91,7 +91,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
             self.use_indexed = False
 
         self.fold_indices = Tensor().detach()
-        self.input_size = 0
+        self.input_size = None  # type: Optional[Tuple[int, ...]]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
         # Unregister weight/bias as a parameter but keep it for syncs
@@ -128,9 +128,8 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
     def _recalculate_indexes(self, x_input: Tensor) -> None:
         """Calculate and set the indexes of the analog tile."""
 
-        self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
-            x_input, self.in_channels
-        )
+        self.fold_indices, image_sizes, _ = self._calculate_indexes(x_input, self.in_channels)
+        self.input_size = x_input.shape[1:]
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
 
     @no_grad()
@@ -164,8 +163,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not self.analog_module.is_indexed():
+            if self.input_size != x_input.shape[1:] or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
             return self.analog_module(x_input, tensor_view=self.tensor_view)
 
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..46e845a 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -109,7 +109,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             self.use_indexed = True
         self.use_indexed = self.use_indexed and analog_tile.supports_indexed
 
-        self.input_size = 0
+        self.input_size = None  # type: Optional[Tuple[int, ...]]
         self.fold_indices_lst = []  # type: List[Tensor]
         self.tensor_view = (-1,)  # type: Tuple[int, ...]
 
@@ -194,7 +194,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             dimensional
 
         """
-        self.input_size = x_input.numel() / x_input.size(0)
+        self.input_size = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -234,8 +234,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not analog_tile.is_indexed():
+            if self.input_size != x_input.shape[1:] or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
 
         if self.analog_tile_count() == 1:
-- 
2.43.0


From 7739900898fdef6c46b226842e06fc6a503a3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 39/84] fix: apply learned output scales of indexed mapped
 convolutions along the channels

---
 src/aihwkit/nn/modules/conv_mapped.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 46e845a..bd9d904 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -239,7 +239,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
         if self.analog_tile_count() == 1:
             if use_indexed:
-                output = analog_tile(x_input)
+                output = analog_tile(x_input, tensor_view=self.tensor_view)
             else:
                 output = self._single_unfold(analog_tile, x_input)
 
@@ -256,7 +256,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
 
             for analog_tile in in_tiles:
                 if use_indexed:
-                    output = analog_tile(x)
+                    output = analog_tile(x, tensor_view=self.tensor_view)
                 else:
                     output = self._single_unfold(analog_tile, x)
                 out_result.append(output)
-- 
2.43.0


From 4b4d0ef291e5eab81c255216a38ede7d4470426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 40/84] fix: respect the padding mode in QuantConv2d

---
 .../low_precision_modules/quantized_base_modules.py  | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index 1a604ef..4da09dc 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -14,7 +14,7 @@
 
 from typing import Any, Optional
 from torch import Tensor, nn
-from torch.nn.functional import linear, conv2d, layer_norm, embedding
+from torch.nn.functional import linear, layer_norm, embedding
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import (
     FP32Acts,
@@ -39,15 +39,7 @@ class QuantConv2d(QuantizationHijacker, nn.Conv2d):
     def run_forward(
         self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any] = None
     ) -> Tensor:
-        return conv2d(
-            x.contiguous(),
-            weight.contiguous(),
-            bias,
-            self.stride,
-            self.padding,
-            self.dilation,
-            self.groups,
-        )
+        return self._conv_forward(x.contiguous(), weight.contiguous(), bias)
 
 
 class QuantLayerNorm(QuantizationHijacker, nn.LayerNorm):
-- 
2.43.0


From 414795d7d6152aa82b5c5df4e5303f742f638dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 41/84] fix: keep the data type of the cached parameters of
 quantized modules

---
 src/aihwkit/simulator/digital_low_precision/hijacker.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index cc7c65d..067cebb 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -6,13 +6,11 @@
 
 from copy import deepcopy
 
-import torch
 from torch import nn
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedModule
 from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
 from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
-from aihwkit.simulator.digital_low_precision.utils import to_numpy
 
 
 activations_list = [nn.ReLU, nn.ReLU6, nn.Hardtanh, nn.Sigmoid, nn.Tanh, nn.PReLU, nn.GELU]
@@ -84,8 +82,8 @@ class QuantizationHijacker(QuantizedModule):
 
         if self._caching and not self.training and self.cached_params is None:
             self.cached_params = (
-                torch.Tensor(to_numpy(weight)).to(weight.device),
-                torch.Tensor(to_numpy(bias)).to(bias.device) if bias is not None else None,
+                weight.detach().clone(),
+                bias.detach().clone() if bias is not None else None,
             )
         return weight, bias
 
-- 
2.43.0


From 8bbfe7c15a489d870b734dfbccbfc6ab142b432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 42/84] fix: drop the cached parameters of quantized modules
 when a state dict is loaded

---
 .../simulator/digital_low_precision/base_quantized_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
index 7abcb51..3bdf18f 100644
--- a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
+++ b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
@@ -138,6 +138,10 @@ class QuantizedModule(nn.Module):
         self.cached_params = None
         return super(QuantizedModule, self)._apply(*args, **kwargs)
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        self.cached_params = None
+        return super()._load_from_state_dict(*args, **kwargs)
+
     def extra_repr(self):
         quant_state = "weight_quant={}, act_quant={}".format(self._quant_w, self._quant_a)
         parent_repr = super().extra_repr()
-- 
2.43.0


From 112de0fa7abb79ae5455f5bd5d859df1ec1678f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 43/84] fix: quantize a module used under several names once
 and for all names

---
 src/aihwkit/nn/low_precision_conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index b35fdd0..4c027d6 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -10,7 +10,7 @@ from copy import deepcopy
 
 from torch.nn import Module, Linear, Conv2d
 
-from aihwkit.nn.conversion import convert_to_digital
+from aihwkit.nn.conversion import _replace_children, convert_to_digital
 from aihwkit.nn.low_precision_modules.conversion_utils import (
     DEFAULT_CONVERSIONS,
     LEAF_MODULES,
@@ -144,7 +144,7 @@ def quantize_model(
     else:
         # If the conversion is not defined, recursively call the function on the children
         quant_model = model
-        for name, mod in quant_model.named_children():
+        for name, mod in list(quant_model.named_children()):
             full_name = model_name + "." + name if model_name else name
             if full_name in quantization_map.excluded_modules:
                 continue
@@ -157,6 +157,6 @@ def quantize_model(
                     new_mod = QuantizedInputModule(
                         new_mod, quantization_map.input_activation_qconfig_map[full_name]
                     )
-                setattr(quant_model, name, new_mod)
+                _replace_children(quant_model, {name: new_mod})
 
     return quant_model
-- 
2.43.0


From c6c43f8b52d1a30dec0ec16307eeaa26917ebc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 44/84] fix: respect the maximal number of batches when
 calibrating quantization ranges

---
 src/aihwkit/inference/calibration/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 793d5c5..bc1106b 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -345,7 +345,7 @@ def calibrate_quantization_ranges(
         model.eval()
         device = next(model.parameters()).device
         for i, data in enumerate(loader):
-            if i > max_num_batches:
+            if i >= max_num_batches:
                 break
 
             if isinstance(data, (tuple, list)):
-- 
2.43.0


From afd602050d3c290ff489a969c9caa7c51c8f8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 45/84] fix: calibrating only the enabled layers failed for
 models with other layers

---
 src/aihwkit/inference/calibration/calibration.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index bc1106b..1f2ac19 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -249,21 +249,10 @@ def calibrate_input_ranges(
     for handle in handles:
         handle.remove()
 
-    # now create the input range fields
     for tile_name, tile in model.named_analog_tiles():
         rpu_config = tile.rpu_config
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
 
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-
-        if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
-            continue
-
-        if not force_all_layers and not rpu_config.pre_post.input_range.enable:
+        if tile_name not in cache:
             continue
 
         inputs = cache[tile_name]
-- 
2.43.0


From fee589fb7790776ef30536d6fc44ef76342aa6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 46/84] fix: calibration left tiles without inputs in perfect
 mode

---
 src/aihwkit/inference/calibration/calibration.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 1f2ac19..e29a025 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -255,6 +255,14 @@ def calibrate_input_ranges(
         if tile_name not in cache:
             continue
 
+        # Restore the tile if necessary
+        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+            tile_state = tile.__getstate__()
+            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                tile_name
+            ]
+            tile.__setstate__(tile_state)
+
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
@@ -269,14 +277,6 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
-- 
2.43.0


From 4966e1f6c6e78addf10ff7b2f01ad237aa5f3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 47/84] fix: store the calibration info also for the moving
 calibration types

---
 src/aihwkit/inference/calibration/calibration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index e29a025..bf208cf 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -264,7 +264,10 @@ def calibrate_input_ranges(
             tile.__setstate__(tile_state)
 
         inputs = cache[tile_name]
-        if inputs.numel() == 0:
+        if inputs.numel() == 0 and calibration_type in [
+            InputRangeCalibrationType.CACHE_QUANTILE,
+            InputRangeCalibrationType.MAX,
+        ]:
             if verbose:
                 print(f"Warning: Tile {tile_name} cached inputs is empty")
             continue
-- 
2.43.0


From 7891813ac99d6e6ed77f3dfac1fa107af834a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 48/84] fix: raise the documented error for an unknown bindings
 class

---
 src/aihwkit/simulator/parameters/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/helpers.py b/src/aihwkit/simulator/parameters/helpers.py
index 9c6a9a2..d277d6e 100644
--- a/src/aihwkit/simulator/parameters/helpers.py
+++ b/src/aihwkit/simulator/parameters/helpers.py
@@ -57,7 +57,7 @@ def get_bindings_class(params: Any, data_type: RPUDataType) -> Optional[Type]:
         module = getattr(module, data_type.value)
     param_class = getattr(module, class_name, None)
     if param_class is None:
-        ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
+        raise ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
     return param_class
 
 
-- 
2.43.0


From df5a94fb7a0d4f1d06d74f5d7ecb86077eb3cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 49/84] fix: given reference conductances of the noise models
 were not stored

---
 src/aihwkit/inference/noise/hermes.py | 3 ++-
 src/aihwkit/inference/noise/pcm.py    | 3 ++-
 src/aihwkit/inference/noise/reram.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..8ed8c51 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -133,7 +133,8 @@ class HermesNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 20.7 or 10.35 uS. Need to
diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..e121326 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -81,7 +81,8 @@ class PCMLikeNoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if prog_coeff_g_max_reference is None:
-            self.prog_coeff_g_max_reference = self.g_max
+            prog_coeff_g_max_reference = self.g_max
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
 
         if prog_coeff is None:
             # standard g_max are defined in respect to 25.0 uS. Need to
diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..78578c3 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -80,7 +80,8 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
             raise ValueError("g_max cannot be established from g_converter")
 
         if coeff_g_max_reference is None:
-            self.coeff_g_max_reference = self.g_max
+            coeff_g_max_reference = self.g_max
+        self.coeff_g_max_reference = coeff_g_max_reference
 
         if coeff_dic is None:
             # standard g_max are defined in respect to 40.0 uS. Need to
-- 
2.43.0


From ec62bda84f0986a8c7f76975719d40daab8bb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 50/84] fix: default coefficients of the ReRAM noise model
 refer to 40 uS

---
 src/aihwkit/inference/noise/reram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index 78578c3..9f38765 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -92,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From d8da1406dffc65ec35fcd8ae18239a0f215711fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 51/84] fix: apply the programming noise when no time has
 passed

---
 src/aihwkit/inference/noise/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..c34c3d7 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -66,6 +66,8 @@ class BaseNoiseModel:
                 noisy_conductances.append(
                     self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
                 )
+            else:
+                noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From 860a54e11e64007182890bad8b8ed7a8002613cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 52/84] fix: generating custom drift coefficients changed the
 target conductances

---
 src/aihwkit/inference/noise/pcm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index e121326..9ee5329 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -281,8 +281,7 @@ class CustomDriftPCMLikeNoiseModel(PCMLikeNoiseModel):
         g_min = torch_min(g_lst)
         g_max = torch_max(g_lst)
 
-        g_target[g_target > g_max] = g_max  # clip G values to g_max
-        g_target[g_target < g_min] = g_min  # clip G values to g_min
+        g_target = g_target.clamp(min=g_min.item(), max=g_max.item())  # clip to given range
 
         assert (g_target >= g_min).all(), "All G values must be >= g_min"
         assert (g_target <= g_max).all(), "All G values must be <= g_max"
-- 
2.43.0


From 9a86aa4933e3e8cf5666189633f952b27762dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 53/84] fix: check for missing keys of the custom drift model

---
 src/aihwkit/inference/noise/pcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index 9ee5329..308b5c1 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -230,7 +230,7 @@ class CustomDriftPCMLikeNoiseModel(PCMLikeNoiseModel):
         ), "custom_drift_model must be specified as dictionary"
 
         assert all(
-            key in ["g_lst", "nu_mean_lst", "nu_std_lst"] for key in self.custom_drift_model
+            key in self.custom_drift_model for key in ["g_lst", "nu_mean_lst", "nu_std_lst"]
         ), ("Missing required key in custom_drift_model: " "g_lst, nu_mean_lst, nu_std_lst")
         assert all(isinstance(val, List) for _, val in self.custom_drift_model.items()), (
             "Value corresponding to each key in " "custom_drift_model must be a list"
-- 
2.43.0


From e53bbd6669ca6738a21e95402ed0a0f2adabaead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 54/84] fix: constant weights gave invalid conductances with a
 single device

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From fd8166344009957fa83306e231e8182f6a7bde7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 55/84] fix: the baseline converter was not used for the
 baseline loss

---
 src/aihwkit/inference/converter/wpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/wpo.py b/src/aihwkit/inference/converter/wpo.py
index 795bc7a..bd2fc95 100644
--- a/src/aihwkit/inference/converter/wpo.py
+++ b/src/aihwkit/inference/converter/wpo.py
@@ -580,7 +580,7 @@ class WeightProgrammingOptimizer:
         # udpate rpu_config g_converter with baseline for comparison
         rpu_config.noise_model.g_converter = self.g_converter_baseline
         baseline_loss_params = deepcopy(self.__dict__)
-        baseline_loss_params.update({"get_baseline": True})
+        baseline_loss_params.update({"get_baseline": True, "rpu_config": rpu_config})
 
         loss_baseline = (
             sum(
-- 
2.43.0


From 6ac15cf87d8fe05b47c5ac6a759fe7bf69caa875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 56/84] fix: a failed weight programming optimization was
 returned as success

---
 src/aihwkit/inference/converter/wpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/wpo.py b/src/aihwkit/inference/converter/wpo.py
index bd2fc95..b3a52b0 100644
--- a/src/aihwkit/inference/converter/wpo.py
+++ b/src/aihwkit/inference/converter/wpo.py
@@ -634,7 +634,7 @@ class WeightProgrammingOptimizer:
         )
 
         # success if converged or beat baseline by margin
-        success = True if res.fun < 0.0 else res.fun
+        success = True if res.fun < 0.0 else bool(res.success)
 
         # invert loss in tnmse
         self.best_loss = (res.fun - self.loss_margin) * self.loss_baseline + self.loss_baseline
-- 
2.43.0


From 91003f300c46508e2fb49102092e2f811068106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 57/84] fix: resetting the MSE range estimator kept the sign of
 the data

---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index eecdb3c..0a71eb8 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -508,6 +508,7 @@ class MSE_Estimator(RangeEstimatorBase):
 
     def reset(self):
         super().reset()
+        self.one_sided_dist = None
         self.loss_array = None
 
 
-- 
2.43.0


From d3615e7f18a478deda2289397c30b6ab562315ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 58/84] fix: quantization manager without quantizer parameters

---
 .../simulator/digital_low_precision/quantization_manager.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index d5f5710..92b88f5 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -75,7 +75,7 @@ class QuantizationManager(nn.Module):
 
         # define quantizer
         self.quantizer: QuantizerBase = self.qmethod.cls(
-            per_channel=per_channel, axis=axis, **qparams
+            per_channel=per_channel, axis=axis, **self.qparams
         )
 
         # define range estimation method for quantizer initialisation
-- 
2.43.0


From 68608d9941ab84e57653640474042b528c758d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 59/84] fix: input dependent read noise failed for zero inputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 2207b7e..145ad4c 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -246,7 +246,7 @@ class AnalogMVMIRDropT(AnalogMVM):
         if t_integration > 0.:
             x = torch_log10(t_integration)
         else:
-            torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
+            x = torch.tensor(0., dtype=t_integration.dtype, device=t_integration.device)
 
         # Convert weights into conductance units
         conductances_lst, params = g_converter.convert_to_conductances(weight)
-- 
2.43.0


From 83272e3b1a9617619d01d976a5d4d8922785e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 60/84] fix: time-sliced IR drop failed with an odd number of
 outputs

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 145ad4c..4a9df69 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -84,7 +84,7 @@ class AnalogMVMIRDropT(AnalogMVM):
             IR drop in both directions (to north and south ADCs) in a
             symmetric tile design.
         """
-        shape = Size(mvm1.shape[0:-1]) + Size([2 * mvm1.shape[-1]])
+        shape = Size(mvm1.shape[0:-1]) + Size([mvm1.shape[-1] + mvm2.shape[-1]])
         mvm = empty(*shape).to(mvm1.device)
         mvm[..., 0::2] = mvm1
         mvm[..., 1::2] = mvm2
-- 
2.43.0


From 6b21d9ebb449d22e44e819f8f453acdb8992a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 61/84] fix: time-sliced IR drop failed for inputs that are not
 2-d

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 4a9df69..3b020b9 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -479,7 +479,7 @@ class AnalogMVMIRDropT(AnalogMVM):
 
         g_lst, params = g_converter.convert_to_conductances(new_weight)
 
-        mvm = zeros((input_.shape[0], g_lst[0].shape[1])).to(input_.device)
+        mvm = zeros((*input_.shape[:-1], g_lst[0].shape[1])).to(input_.device)
         # (f1, (gp1, gm1)), (f2, (gp2, gm2), ... , (fn, (gpn, gmn)) # low to highest significance
         for f_factor, g_lst_pair in zip(params.get("f_lst", [1.0]), zip(g_lst[::2], g_lst[1::2])):
             vth_nd, rth_nd = cls._thev_equiv(
-- 
2.43.0


From 4cbce56421f5f24add65c3cb12991773ed9ef96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 62/84] fix: split_mode_bit_shift was not a field of the IR
 drop parameters

---
 src/aihwkit/simulator/parameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/io.py b/src/aihwkit/simulator/parameters/io.py
index 9eb1f57..83b4860 100644
--- a/src/aihwkit/simulator/parameters/io.py
+++ b/src/aihwkit/simulator/parameters/io.py
@@ -330,7 +330,7 @@ class IOParametersIRDropT(IOParameters):
     of MAC tile.
     """
 
-    split_mode_bit_shift = 3
+    split_mode_bit_shift: int = 3
     """Number of bits in in LSB (remainder) that is fed to MVM
     tile in first phase of split mode PWM/DAC operation. Split mode
     PWM/DAC operation increases throughput / energy efficiency
-- 
2.43.0


From 014192387dd510ec6dbafef223859d483085459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 63/84] fix: number of gradients of the float precision cast

---
 src/aihwkit/extension/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/extension/functions.py b/src/aihwkit/extension/functions.py
index 1b91a45..f0f7672 100644
--- a/src/aihwkit/extension/functions.py
+++ b/src/aihwkit/extension/functions.py
@@ -29,7 +29,7 @@ class FloatPrecisionCastFunction(Function):
     @staticmethod
     def backward(ctx: Any, grad_in: Tensor) -> Tensor:
         # pylint: disable=unused-argument, arguments-differ
-        return grad_in
+        return grad_in, None, None, None
 
 
 class FloatPrecisionCast(Module):
-- 
2.43.0


From 1b967cd8811d59d25339f770163bd0021aef53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 64/84] fix: restore the weight scaling omega from a stored
 training experiment

---
 src/aihwkit/cloud/converter/v1/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 98766da..027cb08 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -136,7 +136,7 @@ class Function:
         if weight_scaling_omega is not None:
             if "rpu_config" not in kwargs or not hasattr(kwargs["rpu_config"], "mapping"):
                 raise ConversionError("Expect Mappable RPUConfig")
-            kwargs["rpu_config"].mapping.weights_scaling_omega = weight_scaling_omega
+            kwargs["rpu_config"].mapping.weight_scaling_omega = weight_scaling_omega
 
         return cls(**kwargs)
 
-- 
2.43.0


From 75445c7c273dd5ae3452fa916402a50fc5e86c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 65/84] fix: analog layers without bias were stored as having
 one

---
 src/aihwkit/cloud/converter/v1/i_mappings.py | 3 ++-
 src/aihwkit/cloud/converter/v1/mappings.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/cloud/converter/v1/i_mappings.py b/src/aihwkit/cloud/converter/v1/i_mappings.py
index 3773a73..738555b 100644
--- a/src/aihwkit/cloud/converter/v1/i_mappings.py
+++ b/src/aihwkit/cloud/converter/v1/i_mappings.py
@@ -148,7 +148,8 @@ class LayerFunction(Function):
         Raises ConversionError
         """
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            bias = getattr(source, "bias", None)
+            return bias is not None and bias is not False
         if field == "rpu_config":
             # preset_cls = type(source.analog_tile.rpu_config)
             analog_tile = next(source.analog_tiles())
diff --git a/src/aihwkit/cloud/converter/v1/mappings.py b/src/aihwkit/cloud/converter/v1/mappings.py
index 027cb08..f0acbef 100644
--- a/src/aihwkit/cloud/converter/v1/mappings.py
+++ b/src/aihwkit/cloud/converter/v1/mappings.py
@@ -155,7 +155,8 @@ class LayerFunction(Function):
     def get_field_value_to_proto(self, source: Any, field: str, default: Any = None) -> Any:
         """Get the value of a field."""
         if field == "bias":
-            return getattr(source, "bias", None) is not None
+            bias = getattr(source, "bias", None)
+            return bias is not None and bias is not False
 
         if field == "weight_scaling_omega":
             return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
-- 
2.43.0


From d86e4e6d4404df799df7ec39802de235726e86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 66/84] fix: weight templates given by an address failed

---
 src/aihwkit/experiments/experiments/inferencing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/experiments/experiments/inferencing.py b/src/aihwkit/experiments/experiments/inferencing.py
index d9128d7..bb0b301 100644
--- a/src/aihwkit/experiments/experiments/inferencing.py
+++ b/src/aihwkit/experiments/experiments/inferencing.py
@@ -175,6 +175,7 @@ class BasicInferencing(Experiment):
                 template_dir = "/tmp/weight_templates"
                 if weight_template_id.startswith("http"):
                     template_url = weight_template_id
+                    template_path = template_dir + "/" + weight_template_id.replace("/", "_")
                 else:
                     # print('weights_template_id: ', weight_template_id)
                     template_path = template_dir + "/" + weight_template_id + ".pth"
-- 
2.43.0


From e151813613b4b52c6f3b2e824c69fcc15354b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 67/84] fix: report partial results relative to the given
 number of repeats

---
 src/aihwkit/experiments/experiments/inferencing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/experiments/experiments/inferencing.py b/src/aihwkit/experiments/experiments/inferencing.py
index bb0b301..b4a198b 100644
--- a/src/aihwkit/experiments/experiments/inferencing.py
+++ b/src/aihwkit/experiments/experiments/inferencing.py
@@ -328,7 +328,7 @@ class BasicInferencing(Experiment):
                 accuracy_array.reshape(shape).std(axis=0),
                 error_array.reshape(shape).mean(axis=0),
                 loss_array.reshape(shape).mean(axis=0),
-                self.inference_repeats,
+                inference_repeats,
             )
         return deepcopy(repeat_results)
 
-- 
2.43.0


From 47872e17db0bf1ea696f6f49631612134f3bc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 68/84] fix: noise-free plots used the noisy transfer read

---
 src/aihwkit/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/visualization.py b/src/aihwkit/utils/visualization.py
index c520d01..1b57e72 100644
--- a/src/aihwkit/utils/visualization.py
+++ b/src/aihwkit/utils/visualization.py
@@ -272,7 +272,7 @@ def get_tile_for_plotting(
             setattr(dev, "refresh_update", UpdateParameters(pulse_type=PulseType.NONE))
 
         if hasattr(dev, "transfer_forward"):
-            setattr(dev, "refresh_forward", IOParameters(is_perfect=True))
+            setattr(dev, "transfer_forward", IOParameters(is_perfect=True))
 
         if hasattr(dev, "transfer_update"):
             setattr(dev, "transfer_update", UpdateParameters(pulse_type=PulseType.NONE))
-- 
2.43.0


From fa4bf8d969aa1a75ddb755706440427ce5ae4e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 69/84] fix: converting a legacy checkpoint failed without a
 model

---
 src/aihwkit/utils/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/legacy.py b/src/aihwkit/utils/legacy.py
index 135d037..1fccc5d 100644
--- a/src/aihwkit/utils/legacy.py
+++ b/src/aihwkit/utils/legacy.py
@@ -78,7 +78,7 @@ def convert_legacy_checkpoint(
             has_mapped = has_mapped or "Mapped" in analog_layer.__class__.__name__
             layer_dic[name] = analog_layer.__class__.__name__
 
-    if not has_mapped:
+    if model is not None and not has_mapped:
         for tile in model.analog_tiles():  # type: ignore
             tile.rpu_config.mapping.max_input_size = 0
             tile.rpu_config.mapping.max_output_size = 0
-- 
2.43.0


From a5a3f283e082433d00bb8d5c6632521a301b3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 70/84] fix: recognize checkpoints that need no conversion

---
 src/aihwkit/utils/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/utils/legacy.py b/src/aihwkit/utils/legacy.py
index 1fccc5d..4d65128 100644
--- a/src/aihwkit/utils/legacy.py
+++ b/src/aihwkit/utils/legacy.py
@@ -85,7 +85,7 @@ def convert_legacy_checkpoint(
 
     legacy_chkpt = deepcopy(legacy_chkpt)
     for key, value in legacy_chkpt.items():
-        if "analog_model.analog_tile_state" in key:
+        if key.split(".")[-1] == "analog_tile_state":
             # this is actually a new checkpoint. abort.
             rpu_config = deepcopy(value["rpu_config"])
             return legacy_chkpt, rpu_config
-- 
2.43.0


From 294e22e103df542f8ebc39a9f8c49eb2569e9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 71/84] fix: state dictionaries of analog models could not be
 copied

---
 src/aihwkit/optim/weight_view.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aihwkit/optim/weight_view.py b/src/aihwkit/optim/weight_view.py
index 6cb614a..19d50d4 100644
--- a/src/aihwkit/optim/weight_view.py
+++ b/src/aihwkit/optim/weight_view.py
@@ -197,6 +197,11 @@ class PlaceholderDataView(Tensor):
         kwargs = tree_map(unwrap, kwargs)
         return func(*args, **kwargs)
 
+    def __deepcopy__(self, memo: Any) -> "PlaceholderDataView":
+        """Copy the placeholder, so that state dictionaries can be copied."""
+        with DisableTorchFunction():  # pylint: disable=not-context-manager
+            return PlaceholderDataView(self.as_subclass(Tensor).detach().clone())
+
     def __repr__(self) -> str:
         """Return metadata summary without exposing meaningless backing values."""
         with DisableTorchFunction():  # pylint: disable=not-context-manager
-- 
2.43.0


From 017cabdb460718f6cde760f2f34213906a30e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 72/84] fix: checkpoints that need no conversion changed the
 mapping of the model

---
 src/aihwkit/utils/legacy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/utils/legacy.py b/src/aihwkit/utils/legacy.py
index 4d65128..58c8909 100644
--- a/src/aihwkit/utils/legacy.py
+++ b/src/aihwkit/utils/legacy.py
@@ -78,11 +78,6 @@ def convert_legacy_checkpoint(
             has_mapped = has_mapped or "Mapped" in analog_layer.__class__.__name__
             layer_dic[name] = analog_layer.__class__.__name__
 
-    if model is not None and not has_mapped:
-        for tile in model.analog_tiles():  # type: ignore
-            tile.rpu_config.mapping.max_input_size = 0
-            tile.rpu_config.mapping.max_output_size = 0
-
     legacy_chkpt = deepcopy(legacy_chkpt)
     for key, value in legacy_chkpt.items():
         if key.split(".")[-1] == "analog_tile_state":
@@ -90,6 +85,11 @@ def convert_legacy_checkpoint(
             rpu_config = deepcopy(value["rpu_config"])
             return legacy_chkpt, rpu_config
 
+    if model is not None and not has_mapped:
+        for tile in model.analog_tiles():  # type: ignore
+            tile.rpu_config.mapping.max_input_size = 0
+            tile.rpu_config.mapping.max_output_size = 0
+
     for key, value in legacy_chkpt.items():
         if "analog_tile_state" in key:
             rpu_config = value["rpu_config"]
-- 
2.43.0


From cc38a908f8995a61e0c1a5172eec079fa8147ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 73/84] fix: weights with one row less than the physical tile
 were not padded for the IR drop

---
 src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
index 3b020b9..8c83e24 100644
--- a/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
+++ b/src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py
@@ -106,10 +106,11 @@ class AnalogMVMIRDropT(AnalogMVM):
         Returns:
             Tuple[Tensor] containing the symmetrically 0-padded input_ and weight
         """
-        pad1 = int((phys_input_size - weight.shape[0]) / 2)
-        if pad1 == 0:
+        pad_size = phys_input_size - weight.shape[0]
+        if pad_size <= 0:
             return input_, weight
-        pad2 = phys_input_size - weight.shape[0] - pad1
+        pad1 = pad_size // 2
+        pad2 = pad_size - pad1
         input_pad_tuple = (pad1, pad2) + (0, 0) * (input_.dim() - 1)
         input_ = pad(input_, input_pad_tuple, "constant", 0)
         weight = pad(weight, (0, 0, pad1, pad2), "constant", 0)
-- 
2.43.0


From 311f12843ffdf3135b67e08144aada03193992d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 74/84] fix: the hooks of the analog summary were left in the
 model

---
 src/aihwkit/utils/analog_info.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index d25c72d..b630d8f 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -199,13 +199,17 @@ class AnalogInfo:
         self.total_tile_number = self.calculate_num_tiles()
         self.total_nb_analog = self.calculate_num_analog()
 
-    def register_hooks_recursively(self, module: Module, hook: Any) -> None:
+    def register_hooks_recursively(self, module: Module, hook: Any) -> List[Any]:
         """Hooks the function into all layers with no children (or
         only analog tiles as childrens).
+
+        Returns:
+            List of the handles to remove the hooks.
         """
 
+        handles = []
         if len(list(module.children())) == 0:
-            module.register_forward_hook(hook)
+            handles.append(module.register_forward_hook(hook))
         elif (
             isinstance(module, AnalogLayerBase)
             and not module.IS_CONTAINER
@@ -214,10 +218,11 @@ class AnalogInfo:
             )
             == 0
         ):  # type: ignore
-            module.register_forward_hook(hook)  # type: ignore
+            handles.append(module.register_forward_hook(hook))  # type: ignore
         else:
             for layer in module.children():
-                self.register_hooks_recursively(layer, hook)
+                handles.extend(self.register_hooks_recursively(layer, hook))
+        return handles
 
     def create_layer_summary(self) -> List[LayerInfo]:
         """Create the layer summary list.
@@ -233,10 +238,14 @@ class AnalogInfo:
             output_size = list(_output.size())
             layer_summary.append(LayerInfo(_, self.rpu_config, input_size, output_size))
 
-        self.register_hooks_recursively(self.model, get_size_hook)
+        handles = self.register_hooks_recursively(self.model, get_size_hook)
         device = next(self.model.parameters()).device
         dummy_var = zeros(self.input_size).to(device)
-        self.model(dummy_var)
+        try:
+            self.model(dummy_var)
+        finally:
+            for handle in handles:
+                handle.remove()
         return layer_summary
 
     def calculate_num_tiles(self) -> int:
-- 
2.43.0


From bee09af784970ab009256f2a572a304497660492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 75/84] fix: the analog summary changed the state of a model in
 training mode

---
 src/aihwkit/utils/analog_info.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/utils/analog_info.py b/src/aihwkit/utils/analog_info.py
index b630d8f..0b8a1df 100644
--- a/src/aihwkit/utils/analog_info.py
+++ b/src/aihwkit/utils/analog_info.py
@@ -16,7 +16,7 @@ import operator
 from typing import Optional, Any, List
 
 # Imports from PyTorch.
-from torch import zeros
+from torch import no_grad, zeros
 from torch.nn import Module
 
 from aihwkit.nn.modules.base import AnalogLayerBase
@@ -241,9 +241,14 @@ class AnalogInfo:
         handles = self.register_hooks_recursively(self.model, get_size_hook)
         device = next(self.model.parameters()).device
         dummy_var = zeros(self.input_size).to(device)
+        training_modules = [module for module in self.model.modules() if module.training]
+        self.model.eval()
         try:
-            self.model(dummy_var)
+            with no_grad():
+                self.model(dummy_var)
         finally:
+            for module in training_modules:
+                module.training = True
             for handle in handles:
                 handle.remove()
         return layer_summary
-- 
2.43.0


From f170f72134a88bc9c4f464e5fc01c42a012a9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:52 +0000
Subject: [PATCH 76/84] fix: a clipped negative output does not reset a failed
 positive bound test

With bm_test_negative_bound off, an output beyond the negative bound set the
bound test to passed again, so that an earlier output beyond the positive
bound stayed clipped instead of repeating the product with reduced inputs.
---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..bbaee99 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -705,7 +705,7 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        bound_test_passed = bound_test_passed && !io.bm_test_negative_bound;
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From c99169832c30a661bfe3f1da4c7342e6bbb57cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 77/84] fix: copy the running input scale of the forward and
 backward pass

The running average that AverageAbsMax noise management keeps is saved with
the state but was lost by copying, moving and swapping the pass.
---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 ++
 src/rpucuda/rpu_forward_backward_pass.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index bbaee99..b52c2e1 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -205,6 +205,7 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
+  aux_nm_value_ = other.aux_nm_value_;
   rng_ = other.rng_;
 }
 
@@ -235,6 +236,7 @@ ForwardBackwardPassIOManaged<T>::operator=(ForwardBackwardPassIOManaged<T> &&oth
   f_io_ = other.f_io_;
   b_io_ = other.b_io_;
   checked_implemented_ = other.checked_implemented_;
+  aux_nm_value_ = other.aux_nm_value_;
   rng_ = std::move(other.rng_);
 
   return *this;
diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index e4bb949..4ec5d0a 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -106,6 +106,7 @@ public:
     swap(a.f_io_, b.f_io_);
     swap(a.b_io_, b.b_io_);
     swap(a.checked_implemented_, b.checked_implemented_);
+    swap(a.aux_nm_value_, b.aux_nm_value_);
     swap(a.rng_, b.rng_);
 
     // others are tmps so far
-- 
2.43.0


From 8cacaf01810972de09ea4d1543449bd12a1a6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 78/84] fix: a pulse resolution given as number of steps is
 converted

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From a343b8936834d4d34ea65502785aa13b5ba58b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 79/84] fix: reset only the column that was read in a transfer
 of several columns

---
 src/rpucuda/rpu_transfer_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..3f1dbb5 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,8 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(
+          W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From e4a1cdb023d4a06d0a65501b99fb33e20e010cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 80/84] fix: the buffered transfer of rows wrote beyond its
 read buffer

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 387b3ca..47e9876 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From f37cc8be2a5ae7f2ad8b17187c8101bac366021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 81/84] fix: the choppers were applied to the wrong weights
 when reducing to the effective weight

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..e63530f 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -545,11 +545,14 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   T *A = *this->weights_vec_[0];
   int size = this->x_size_ * this->d_size_;
 
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
+  // Layout: W[d_idx * x_size + x_idx] (row-major, x as inner dimension)
   for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
+    int d_idx = idx / this->x_size_;
+    int x_idx = idx % this->x_size_;
+    T chop = (x_chopper[x_idx] != d_chopper[d_idx]) ? (T)-1.0 : (T)1.0;
     weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
   }
 }
-- 
2.43.0


From 1f3e18a608cc4bb562c97c0569c72256267bdc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 82/84] fix: a negative learning rate had no effect with mean
 count and deterministic implicit pulses

---
 src/rpucuda/dense_bit_line_maker.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..358a2e6 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -303,9 +303,10 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     // x counts
     generateCountsMean(
         x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
-    // d counts
+    // d counts (sign of lr is already applied to x)
     generateCountsMean(
-        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
+        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round,
+        (T)fabsf((float)lr));
 
     generateCoincidences(coincidences_, x_counts_, x_size_, d_counts_, d_size_, BL);
     break;
@@ -317,9 +318,10 @@ int *DenseBitLineMaker<T>::makeCoincidences(
     generateDetImplicit(
         x_values_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr);
 
-    // d counts
+    // d counts (sign of lr is already applied to x)
     generateDetImplicit(
-        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, lr);
+        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round,
+        (T)fabsf((float)lr));
 
     generateCoincidencesDetI(coincidences_, x_values_, x_size_, d_values_, d_size_, BL);
   } break;
-- 
2.43.0


From b65b736721ffb1ce4492a8a932097673646b8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:51 +0000
Subject: [PATCH 83/84] fix: a compound device in a vector cell did its
 transfers and refreshes on the wrong weights

---
 src/rpucuda/rpu_vector_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_vector_device.cpp b/src/rpucuda/rpu_vector_device.cpp
index fa3c74a..08b5b52 100644
--- a/src/rpucuda/rpu_vector_device.cpp
+++ b/src/rpucuda/rpu_vector_device.cpp
@@ -458,11 +458,12 @@ void VectorRPUDevice<T>::initUpdateCycle(
 
   if (par.singleDeviceUpdate()) {
     rpu_device_vec_[current_device_idx_]->initUpdateCycle(
-        weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
+        weights_vec_[current_device_idx_], up, current_lr, m_batch_info, x_input, x_inc, d_input,
+        d_inc);
   } else {
     for (size_t k = 0; k < rpu_device_vec_.size(); k++) {
       rpu_device_vec_[k]->initUpdateCycle(
-          weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
+          weights_vec_[k], up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc);
     }
   }
 }
@@ -514,12 +515,14 @@ void VectorRPUDevice<T>::finishUpdateCycle(
     T **weights, const PulsedUpdateMetaParameter<T> &up, T current_lr, int m_batch_info) {
 
   if (getPar().singleDeviceUpdate()) {
-    rpu_device_vec_[current_device_idx_]->finishUpdateCycle(weights, up, current_lr, m_batch_info);
+    rpu_device_vec_[current_device_idx_]->finishUpdateCycle(
+        weights_vec_[current_device_idx_], up, current_lr, m_batch_info);
   } else {
     for (size_t k = 0; k < rpu_device_vec_.size(); k++) {
-      rpu_device_vec_[k]->finishUpdateCycle(weights, up, current_lr, m_batch_info);
+      rpu_device_vec_[k]->finishUpdateCycle(weights_vec_[k], up, current_lr, m_batch_info);
     }
   }
+  this->reduceToWeights(weights); // the devices might have changed their weights
 
   // count updates
   current_update_idx_++;
-- 
2.43.0


From 81907bedb947d0282323e1755dc44e8badf4265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:32 +0000
Subject: [PATCH 84/84] fix: the drift moved a conductance of zero: wrong sign
 of the weight offset

---
 src/rpucuda/cuda/weight_drifter_cuda.cu | 2 +-
 src/rpucuda/weight_drifter.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/cuda/weight_drifter_cuda.cu b/src/rpucuda/cuda/weight_drifter_cuda.cu
index 20978ea..7b0ddaf 100644
--- a/src/rpucuda/cuda/weight_drifter_cuda.cu
+++ b/src/rpucuda/cuda/weight_drifter_cuda.cu
@@ -220,7 +220,7 @@ template <typename T> void WeightDrifterCuda<T>::apply(T *weights, T time_since_
   auto s = context_->getStream();
 
   current_t_ += time_since_last_call / par_.t0;
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < par_.reset_tol) {
     a = (T)0.0;
   }
diff --git a/src/rpucuda/weight_drifter.cpp b/src/rpucuda/weight_drifter.cpp
index 258721c..09756a0 100644
--- a/src/rpucuda/weight_drifter.cpp
+++ b/src/rpucuda/weight_drifter.cpp
@@ -115,7 +115,7 @@ void WeightDrifter<T>::apply(T *weights, T time_since_last_call, RNG<T> &rng) {
   current_t_ += time_since_last_call / par_.t0;
   T reset_tol = par_.reset_tol;
   bool simple = par_.isSimpleDrift();
-  T a = par_.g_offset * par_.wg_ratio + par_.w_offset;
+  T a = par_.g_offset * par_.wg_ratio - par_.w_offset;
   if ((T)fabsf(a) < reset_tol) {
     a = (T)0.0;
   }
-- 
2.43.0

