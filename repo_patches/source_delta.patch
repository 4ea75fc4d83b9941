From b41257cc67ced3f1b0f9b23369636c03f413fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 01/29] sim: guarded hooks (scalar type override, friend
 probe), off by default

---
 eskf_vio_backend/include/backend/backend.hpp               | 7 +++++++
 .../include/update/multi_view_vision_update.hpp            | 7 +++++++
 eskf_vio_backend/include/utility/typedef.hpp               | 4 ++++
 3 files changed, 18 insertions(+)

diff --git a/eskf_vio_backend/include/backend/backend.hpp b/eskf_vio_backend/include/backend/backend.hpp
index 6630744..6986c73 100644
--- a/eskf_vio_backend/include/backend/backend.hpp
+++ b/eskf_vio_backend/include/backend/backend.hpp
@@ -12,9 +12,16 @@
 #include <trianglation.hpp>
 #include <perspective_n_point.hpp>
 
+#ifdef ESKF_VIO_SIM
+struct SimProbe;    // 仅供仿真验证使用，默认关闭
+#endif
+
 namespace ESKF_VIO_BACKEND {
     /* ESKF VIO 后端控制器 */
     class Backend {
+#ifdef ESKF_VIO_SIM
+        friend struct ::SimProbe;
+#endif
     private:
         /* 参数配置相关 */
         Configurator *config = nullptr;         // 参数配置器
diff --git a/eskf_vio_backend/include/update/multi_view_vision_update.hpp b/eskf_vio_backend/include/update/multi_view_vision_update.hpp
index 0a9f79d..0876bd3 100644
--- a/eskf_vio_backend/include/update/multi_view_vision_update.hpp
+++ b/eskf_vio_backend/include/update/multi_view_vision_update.hpp
@@ -8,9 +8,16 @@
 #include <trianglation.hpp>
 #include <perspective_n_point.hpp>
 
+#ifdef ESKF_VIO_SIM
+struct SimProbe;    // 仅供仿真验证使用，默认关闭
+#endif
+
 namespace ESKF_VIO_BACKEND {
     /* 多目视觉观测更新管理器 */
     class MultiViewVisionUpdate {
+#ifdef ESKF_VIO_SIM
+        friend struct ::SimProbe;
+#endif
     public:
         // 指向相关管理器或工具的指针
         PropagateQueue *propagator = nullptr;
diff --git a/eskf_vio_backend/include/utility/typedef.hpp b/eskf_vio_backend/include/utility/typedef.hpp
index 3ef633b..da015b0 100644
--- a/eskf_vio_backend/include/utility/typedef.hpp
+++ b/eskf_vio_backend/include/utility/typedef.hpp
@@ -25,7 +25,11 @@ namespace ESKF_VIO_BACKEND {
     using fp64 = double;
 
     /* 矩阵类型定义 */
+#ifdef ESKF_VIO_SIM_SCALAR
+    using Scalar = ESKF_VIO_SIM_SCALAR;     // 仅供仿真验证使用，默认关闭
+#else
     using Scalar = float;
+#endif
     using Matrix = Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic>;
     using Vector = Eigen::Matrix<Scalar, Eigen::Dynamic, 1>;
     using Quaternion = Eigen::Quaternion<Scalar>;
-- 
2.43.0


From 425d327ea458fd917776a15aa0a54af78b398d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 02/29] fix: keep the newest accepted stamp per DataLoader and
 only advance it on acceptance

The function-local statics were shared by every loader of the process and were
overwritten by rejected messages, so a stepped-back clock let old data in and a
second estimator lost its first messages.
---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..8114928 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 最近一次接受的特征点追踪数据和 IMU 量测数据的时间戳
+        fp64 lastFeatTimeStamp = - INFINITY;
+        fp64 lastImuTimeStamp = - INFINITY;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..14e5eec 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -9,6 +9,8 @@ namespace ESKF_VIO_BACKEND {
         this->featMeas.clear();
         this->imuMeas.clear();
         this->timeStampOffset = static_cast<fp64>(-1);
+        this->lastFeatTimeStamp = - INFINITY;
+        this->lastImuTimeStamp = - INFINITY;
     }
 
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        lastTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From 4e85b332120fc72078bec79e92a0aaacf3120678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 03/29] fix: let the first message define the time origin after
 DataLoader::Clear

Clear set the offset to -1, so the origin was never taken from the first message
and every published stamp was one second too large.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 14e5eec..d26e203 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -8,7 +8,7 @@ namespace ESKF_VIO_BACKEND {
     void DataLoader::Clear(void) {
         this->featMeas.clear();
         this->imuMeas.clear();
-        this->timeStampOffset = static_cast<fp64>(-1);
+        this->timeStampOffset = NAN;
         this->lastFeatTimeStamp = - INFINITY;
         this->lastImuTimeStamp = - INFINITY;
     }
-- 
2.43.0


From 820a33460d901090b0edcaf964750ccc7b03cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 04/29] fix: buffer a copy of each handed-in message instead of
 the caller's object

Subtracting the time origin in place modified the caller's message, so a message
handed to two estimators, or handed in twice, was shifted twice while it was
already queued elsewhere.
---
 .../src/data_manager/data_loader.cpp          | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index d26e203..8127eaa 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -20,15 +20,20 @@ namespace ESKF_VIO_BACKEND {
         if (newFeatMeas->ids.size() != newFeatMeas->observes.size()) {
             return false;
         }
+        // 缓冲区中保存的是深拷贝，不修改也不依赖调用者手中的数据
+        std::shared_ptr<FeaturesMessage> feat = std::make_shared<FeaturesMessage>(*newFeatMeas);
+        for (auto &observe : feat->observes) {
+            observe = std::make_shared<FeatureObserve>(*observe);
+        }
         // 校准时间戳
         if (std::isnan(this->timeStampOffset)) {
             this->timeStampOffset = newFeatMeas->timeStamp;
         }
-        newFeatMeas->timeStamp -= this->timeStampOffset;
+        feat->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
-            this->featMeas.emplace_back(newFeatMeas);
-            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
+        if (feat->timeStamp > this->lastFeatTimeStamp) {
+            this->featMeas.emplace_back(feat);
+            this->lastFeatTimeStamp = feat->timeStamp;
         }
         return true;
     }
@@ -36,14 +41,16 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输入一刻 IMU 量测结果 */
     bool DataLoader::PushIMUMessage(const std::shared_ptr<IMUMessage> &newImuMeas) {
+        // 缓冲区中保存的是拷贝，不修改也不依赖调用者手中的数据
+        std::shared_ptr<IMUMessage> imu = std::make_shared<IMUMessage>(*newImuMeas);
         // 校准时间戳
         if (std::isnan(this->timeStampOffset)) {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
-        newImuMeas->timeStamp -= this->timeStampOffset;
-        if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
-            this->imuMeas.emplace_back(newImuMeas);
-            this->lastImuTimeStamp = newImuMeas->timeStamp;
+        imu->timeStamp -= this->timeStampOffset;
+        if (imu->timeStamp > this->lastImuTimeStamp) {
+            this->imuMeas.emplace_back(imu);
+            this->lastImuTimeStamp = imu->timeStamp;
         }
         return true;
     }
-- 
2.43.0


From ea0abfc8f4fb1596c77b9340b61f79656954126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 05/29] fix: refuse malformed and stale messages and report it
 to the caller

Absent messages, non-finite stamps or measurements, missing observation objects,
repeated feature ids and unknown cameras were queued (and crashed or poisoned the
filter later); pushes answered true for messages they had dropped.
---
 eskf_vio_backend/src/backend/backend.cpp      | 17 ++++++++++---
 .../src/data_manager/data_loader.cpp          | 25 +++++++++++++++++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 389b05c..ae224f6 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -6,15 +6,24 @@
 namespace ESKF_VIO_BACKEND {
     /* 输入一帧 IMU 数据 */
     bool Backend::GetIMUMessage(const std::shared_ptr<IMUMessage> &newImuMeas) {
-        this->dataloader.PushIMUMessage(newImuMeas);
-        return true;
+        return this->dataloader.PushIMUMessage(newImuMeas);
     }
 
 
     /* 输入一帧 Features 追踪数据 */
     bool Backend::GetFeaturesMessage(const std::shared_ptr<FeaturesMessage> &newFeatMeas) {
-        this->dataloader.PushFeaturesMessage(newFeatMeas);
-        return true;
+        // 剔除包含未配置相机的观测
+        if (newFeatMeas != nullptr) {
+            for (const auto &observe : newFeatMeas->observes) {
+                if (observe == nullptr) {
+                    return false;
+                }
+                for (const auto &item : observe->norms) {
+                    RETURN_FALSE_IF(item.first >= this->frameManager.extrinsics.size());
+                }
+            }
+        }
+        return this->dataloader.PushFeaturesMessage(newFeatMeas);
     }
 
 
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 8127eaa..6b947a3 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -1,6 +1,8 @@
 /* 内部依赖 */
 #include <data_loader.hpp>
 /* 外部依赖 */
+#include <cmath>
+#include <unordered_set>
 
 namespace ESKF_VIO_BACKEND {
 
@@ -17,9 +19,21 @@ namespace ESKF_VIO_BACKEND {
     /* 输入一帧特征点追踪结果 */
     bool DataLoader::PushFeaturesMessage(const std::shared_ptr<FeaturesMessage> &newFeatMeas) {
         // 检查 newFeatMeas 中数据是否合规
+        if (newFeatMeas == nullptr || !std::isfinite(newFeatMeas->timeStamp)) {
+            return false;
+        }
         if (newFeatMeas->ids.size() != newFeatMeas->observes.size()) {
             return false;
         }
+        std::unordered_set<uint32_t> checkedIds;
+        for (uint32_t i = 0; i < newFeatMeas->ids.size(); ++i) {
+            if (newFeatMeas->observes[i] == nullptr || checkedIds.insert(newFeatMeas->ids[i]).second == false) {
+                return false;
+            }
+            for (const auto &item : newFeatMeas->observes[i]->norms) {
+                RETURN_FALSE_IF_FALSE(item.second.allFinite());
+            }
+        }
         // 缓冲区中保存的是深拷贝，不修改也不依赖调用者手中的数据
         std::shared_ptr<FeaturesMessage> feat = std::make_shared<FeaturesMessage>(*newFeatMeas);
         for (auto &observe : feat->observes) {
@@ -34,13 +48,19 @@ namespace ESKF_VIO_BACKEND {
         if (feat->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(feat);
             this->lastFeatTimeStamp = feat->timeStamp;
+            return true;
         }
-        return true;
+        return false;
     }
 
 
     /* 输入一刻 IMU 量测结果 */
     bool DataLoader::PushIMUMessage(const std::shared_ptr<IMUMessage> &newImuMeas) {
+        // 检查 newImuMeas 中数据是否合规
+        if (newImuMeas == nullptr || !std::isfinite(newImuMeas->timeStamp) ||
+            !newImuMeas->accel.allFinite() || !newImuMeas->gyro.allFinite()) {
+            return false;
+        }
         // 缓冲区中保存的是拷贝，不修改也不依赖调用者手中的数据
         std::shared_ptr<IMUMessage> imu = std::make_shared<IMUMessage>(*newImuMeas);
         // 校准时间戳
@@ -51,8 +71,9 @@ namespace ESKF_VIO_BACKEND {
         if (imu->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(imu);
             this->lastImuTimeStamp = imu->timeStamp;
+            return true;
         }
-        return true;
+        return false;
     }
 
 
-- 
2.43.0


From 66b96a77c2e431240a3a30b4e486cc840a5dfbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 06/29] fix: keep feature measurements attached to their frames
 across tracking gaps

A feature lost for some frames and seen again had its new measurement stored
right behind the old one and was therefore attributed to an earlier frame;
entries without any camera measurement had the same effect or left a feature
with no measurement at all.
---
 .../vision_data/feature_manager.cpp            | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..e506e33 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,8 +56,16 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有任何相机观测的特征点等价于没有被追踪到
+            if (newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
+                // 若特征点中途丢失过，则用空观测补齐，保证观测与帧一一对应
+                while (it->second->FinalFrameID() + 1 < frameID) {
+                    it->second->observes.emplace_back(std::make_shared<FeatureObserve>());
+                }
                 // 对应特征点已经存在时，直接添加观测
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
@@ -97,6 +105,11 @@ namespace ESKF_VIO_BACKEND {
                     }
                     // 如果此特征点有多个观测，则删除对应观测
                     feature->observeNum -= feature->observes[frameID - feature->firstFrameID]->norms.size();
+                    // 如果剩余的都是补齐用的空观测，也准备删除
+                    if (feature->observeNum == 0) {
+                        needDelete.emplace_back(feature->id);
+                        continue;
+                    }
                     for (uint32_t i = frameID - feature->firstFrameID; i < feature->observes.size() - 1; ++i) {
                         feature->observes[i] = feature->observes[i + 1];
                     }
@@ -120,6 +133,11 @@ namespace ESKF_VIO_BACKEND {
                     }
                     // 如果此特征点有多个观测，则删除对应观测
                     feature->observeNum -= feature->observes[0]->norms.size();
+                    // 如果剩余的都是补齐用的空观测，也准备删除
+                    if (feature->observeNum == 0) {
+                        needDelete.emplace_back(feature->id);
+                        continue;
+                    }
                     for (uint32_t i = 0; i < feature->observes.size() - 1; ++i) {
                         feature->observes[i] = feature->observes[i + 1];
                     }
-- 
2.43.0


From cf9ece3b3771eaec67345b5099b05c280cd4ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 07/29] fix: drop the stale propagation queue on a failed
 update and all history on Reset

After a failed update or a Reset the old queue stayed: it kept being published
and a later initialisation appended old samples to it, so the filter restarted
with a wrong state, negative time steps and a covariance of the wrong size.
---
 eskf_vio_backend/src/backend/backend.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index ae224f6..4826236 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -83,6 +83,8 @@ namespace ESKF_VIO_BACKEND {
                 if (res == false) {
                     LogInfo(">> Vision update failed.");
                     this->status = NEED_INIT;
+                    // 序列递推结果已经失效，重新初始化时需要从头开始
+                    this->propagator.items.clear();
                     // 调整滑动窗口使其仅剩下一帧
                     while (this->frameManager.frames.size() > 1) {
                         this->MarginalizeFeatureFrameManager(MARG_OLDEST);
@@ -155,6 +157,13 @@ namespace ESKF_VIO_BACKEND {
     /* 重置 */
     void Backend::Reset(void) {
         this->status = NEED_INIT;
+        // 清空所有历史数据，仅保留标定结果（外参和 bias）
+        this->dataloader.Clear();
+        this->featureManager.features.clear();
+        this->frameManager.frames.clear();
+        this->attitudeEstimator.items.clear();
+        this->attitudeEstimator.errInt.setZero();
+        this->propagator.items.clear();
     }
 
 
-- 
2.43.0


From f454f2cd4d6a0df4abeb0fc84cb92f602303f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 08/29] fix: remove IMU biases exactly once, also during
 initialisation

The attitude estimator queued bias-corrected samples and the propagator removed
the bias from them a second time after an initialisation; the configured initial
biases never reached the attitude estimator.
---
 .../include/propagate/attitude_estimate.hpp            |  2 +-
 eskf_vio_backend/src/backend/backend_config.cpp        |  1 +
 eskf_vio_backend/src/propagate/attitude_estimate.cpp   | 10 +++++-----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/propagate/attitude_estimate.hpp b/eskf_vio_backend/include/propagate/attitude_estimate.hpp
index d72afdf..ddc6f1f 100644
--- a/eskf_vio_backend/include/propagate/attitude_estimate.hpp
+++ b/eskf_vio_backend/include/propagate/attitude_estimate.hpp
@@ -9,7 +9,7 @@ namespace ESKF_VIO_BACKEND {
     public:
         // 解算所得姿态
         Quaternion q_wb = Quaternion::Identity();
-        // 当前时刻点对应的 IMU 量测值
+        // 当前时刻点对应的 IMU 原始量测值（未扣除 bias，初始化时会重新输入到 propagator）
         Vector3 accel = Vector3::Zero();
         Vector3 gyro = Vector3::Zero();
         // 当前时间戳
diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index eff0d7e..ad6d4d8 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -19,6 +19,7 @@ namespace ESKF_VIO_BACKEND {
                                                       this->config->imu.sigmaBiasGyroRandomWalk);
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
+        this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
 
         this->frameManager.extrinsics.clear();
diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..b69a1e9 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -28,8 +28,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -41,15 +41,15 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
             Vector3 acc_b_measure = accel / accel.norm();
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From cc03ad20dd93d660802c105615480ed6666100aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 09/29] fix: align the initial attitude with gravity for every
 mounting

The small-angle quaternion misaligned large tilts by tens of degrees, and a level
or upside-down start divided zero by zero.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index b69a1e9..21abaac 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,12 +19,7 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From 52ca430f44f2a540784592072247ad951e4b1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 10/29] fix: integrate the gyroscope with the right sign in the
 attitude estimator

The attitude turned against the device and the accelerometer feedback was
unstable, so any rotation before the first camera message ruined the start.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 21abaac..709cff4 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From 388b883de3b4d5eb653a5a3093a35ef5dcf4ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 11/29] fix: survive a zero accelerometer reading and use the
 unbiased one for tilt feedback

A reading of exactly zero (free fall, sensor drop-out) divided by zero and turned
the attitude, and every estimate initialised from it, into NaN; the feedback
direction still contained the known accelerometer bias.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 709cff4..3dddb53 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -41,7 +41,9 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
+            Vector3 acc_b_measure = accel - this->bias_a;
+            // 自由落体时加速度观测不包含姿态信息，归一化保持为零向量，避免除以零
+            acc_b_measure.normalize();
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
-- 
2.43.0


From 2ac0b6fd5267c2d72dcc6e6515813003f9b3956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 12/29] fix: bound the attitude history while initialisation
 keeps failing

With a single frame in the window nothing was ever cleaned up, so the history
grew without limit; an outage longer than the history emptied it and read the
front of an empty queue.
---
 eskf_vio_backend/src/backend/backend.cpp             | 2 +-
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 4826236..dc11abb 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -100,7 +100,7 @@ namespace ESKF_VIO_BACKEND {
             }
 
             // 清空 attitude estimator 中记录的 imu 历史量测数据和姿态估计结果，仅保留最新两帧之间的
-            if (this->frameManager.frames.size() > 1) {
+            if (!this->frameManager.frames.empty()) {
                 fp64 timeStamp = (*this->frameManager.frames.rbegin())->timeStamp;
                 this->attitudeEstimator.CleanOldItems(timeStamp, this->dataloader.imuPeriod);
             }
diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 3dddb53..d26d602 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -118,7 +118,8 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        // 至少保留最新一项，作为后续姿态解算的起点
+        while (this->items.size() > 1 && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From 3a6daedd86993b95698f9e33edc60e172e2f418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 13/29] fix: refuse a camera update for which no state of its
 time exists

If IMU samples are missing around the camera message, the first remaining state
can be much later; the measurements were fused into that state anyway.
---
 eskf_vio_backend/src/propagate/sequence_propagator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eskf_vio_backend/src/propagate/sequence_propagator.cpp b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
index 3b58115..b5d26cd 100644
--- a/eskf_vio_backend/src/propagate/sequence_propagator.cpp
+++ b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
@@ -213,6 +213,10 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
         }
+        // IMU 数据存在缺口时，首个状态可能远晚于目标时刻，不能当作目标时刻的状态
+        if (this->items.front()->timeStamp - timeStamp > threshold) {
+            return false;
+        }
         LogInfo(">> Propagator reset at " << timeStamp << "s, first item time stamp is " <<
             this->items.front()->timeStamp << "s, " << this->items.size() << " items maintained.");
         return true;
-- 
2.43.0


From d9984bafc358d5ce095149cc5247f95c3f8dec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 14/29] fix: reject incomplete or damaged configuration
 matrices

Extra lines were written past the end of the matrix; missing or unreadable values
left stale or uninitialised numbers that were then used as parameters.
---
 eskf_vio_backend/src/config/config.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..ec14536 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -116,13 +116,14 @@ namespace ESKF_VIO_BACKEND {
         std::string oneLine;
         mat.resize(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                // 数据缺失或损坏时，整个文件不可用
+                RETURN_FALSE_IF(!(matData >> mat(row, col)));
             }
             ++row;
         }
-        return true;
+        return row == rows;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 08e85d26c9f4ba9d2f1aff0cbc94bb84a6498cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 15/29] fix: make the RANSAC sampling terminate for every
 random sequence and set size

Fewer than three matches, or a random sequence that repeats itself, looped forever.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..8656160 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,8 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        // 点数不足以采样时，直接返回失败
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
@@ -108,8 +109,11 @@ namespace ESKF_VIO_BACKEND {
             indice.clear();
             subPts3d.clear();
             subPts2d.clear();
-            while (indice.size() < 3) {
-                indice.insert(std::rand() % pts_3d.size());
+            // Floyd 采样，任意随机数序列都能在三次之内得到三个不同的索引
+            for (uint32_t last = pts_3d.size() - 3; last < pts_3d.size(); ++last) {
+                if (indice.insert(std::rand() % (last + 1)).second == false) {
+                    indice.insert(last);
+                }
             }
             for (auto it = indice.begin(); it != indice.end(); ++it) {
                 subPts3d.emplace_back(pts_3d[*it]);
-- 
2.43.0


From 5d17f54452099c92d4d5dbc5ca972eff45159ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 16/29] fix: return the best supported RANSAC pose instead of
 the last sampled one

Unless the early exit fired, the pose of the last, possibly contaminated, sample
was returned, even if an earlier sample or the start was better supported.
---
 .../src/geometry/perspective_n_point.cpp            | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 8656160..d88fcdb 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -95,8 +95,16 @@ namespace ESKF_VIO_BACKEND {
         uint32_t iter = this->ransacParam.maxIterateTimes;
         Quaternion best_q_wc = q_wc;
         Vector3 best_p_wc = p_wc;
-        uint32_t best_score = 0;
         uint32_t score = 0;
+        // 初值也参与得分比较
+        for (uint32_t i = 0; i < pts_3d.size(); ++i) {
+            Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
+            Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
+            if (r.squaredNorm() < this->ransacParam.inlierThres) {
+                ++score;
+            }
+        }
+        uint32_t best_score = score;
 
         // RANSAC 循环
         std::set<uint32_t> indice;
@@ -144,6 +152,9 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        // 输出得分最高的模型，而不是最后一次采样的模型
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
-- 
2.43.0


From 5a30bb389bef9c88fc79a576347018ffbdd30803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 17/29] fix: report the inlier marks of the returned pose only

Marks left in the caller's vector by an earlier call were kept, and points with a
non-finite residual were marked as inliers although they are not counted as such.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index d88fcdb..7e94fe8 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -167,11 +167,12 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), true);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-            if (r.squaredNorm() >= this->ransacParam.inlierThres) {
+            // 与 RANSAC 计分时的判断严格互补（残差可能为 nan）
+            if (!(r.squaredNorm() < this->ransacParam.inlierThres)) {
                 isInlier[i] = false;
             }
         }
-- 
2.43.0


From 8f25721484f4deae324b59c547dff3acc7d89f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 18/29] fix: measure intervals with the steady clock

The calendar clock can be stepped, which made intervals negative or hours long.
---
 eskf_vio_backend/include/utility/tick_tock.hpp | 2 +-
 eskf_vio_backend/src/utility/tick_tock.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/include/utility/tick_tock.hpp b/eskf_vio_backend/include/utility/tick_tock.hpp
index a5d56f1..d134ddc 100644
--- a/eskf_vio_backend/include/utility/tick_tock.hpp
+++ b/eskf_vio_backend/include/utility/tick_tock.hpp
@@ -9,7 +9,7 @@
 namespace ESKF_VIO_BACKEND {
     class TickTockTimer {
     private:
-        std::chrono::time_point<std::chrono::system_clock> timeStamp;
+        std::chrono::time_point<std::chrono::steady_clock> timeStamp;
     public:
         /* 构造函数与析构函数 */
         TickTockTimer();
diff --git a/eskf_vio_backend/src/utility/tick_tock.cpp b/eskf_vio_backend/src/utility/tick_tock.cpp
index a5df41d..d2dc9d3 100644
--- a/eskf_vio_backend/src/utility/tick_tock.cpp
+++ b/eskf_vio_backend/src/utility/tick_tock.cpp
@@ -4,12 +4,12 @@
 
 namespace ESKF_VIO_BACKEND {
     TickTockTimer::TickTockTimer() {
-        this->timeStamp = std::chrono::system_clock::now();
+        this->timeStamp = std::chrono::steady_clock::now();
     }
     TickTockTimer::~TickTockTimer() = default;
 
     Scalar TickTockTimer::TickTock() {
-        auto newTimeStamp = std::chrono::system_clock::now();
+        auto newTimeStamp = std::chrono::steady_clock::now();
         std::chrono::duration<double> diff = newTimeStamp - this->timeStamp;
         this->timeStamp = newTimeStamp;
         return Scalar(diff.count() * 1000.0);
-- 
2.43.0


From f9a6740f9c2cfc3d66adb683e4980a18cad6377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 19/29] fix: let PopPackedMessage create its output like
 PopOneMessage does

It dereferenced an empty output pointer, which PopOneMessage accepts.
---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 6b947a3..9b6743d 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -118,6 +118,9 @@ namespace ESKF_VIO_BACKEND {
 
     /* 仅当 features message 存在时，按时间戳输出下一捆数据 */
     bool DataLoader::PopPackedMessage(std::shared_ptr<CombinedMessage> &output) {
+        if (output == nullptr) {
+            output = std::make_shared<CombinedMessage>();
+        }
         output->Clear();
         // 如果队列为空，则返回 false
         if (this->imuMeas.empty() || this->featMeas.empty()) {
-- 
2.43.0


From ea134c848c9dd58a76b5063b1123073db263bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 20/29] fix: PopOneMessage no longer uses a queue element after
 removing it

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 9b6743d..df88a6f 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -86,8 +86,8 @@ namespace ESKF_VIO_BACKEND {
         output->Clear();
         // 如果队列都不为空，则输出时间戳最旧的数据
         if (!this->imuMeas.empty() && !this->featMeas.empty()) {
-            auto &imu = this->imuMeas.front();
-            auto &feat = this->featMeas.front();
+            const auto imu = this->imuMeas.front();
+            const auto feat = this->featMeas.front();
             if (feat->timeStamp <= imu->timeStamp) {
                 output->featMeas = feat;
                 this->featMeas.pop_front();
-- 
2.43.0


From 7db944d0bcb37e678cf458f608b4602ac4af9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 21/29] fix: triangulation survives an allocation failure
 inside the decomposition

Eigen's dynamic JacobiSVD destroys and rebuilds its QR preconditioner in place,
so an allocation failure there ended in a double free. Reduce the system by a QR
decomposition and run the SVD on the fixed-size triangular factor.
---
 eskf_vio_backend/src/geometry/trianglation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 39f64af..8b634bb 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -32,7 +32,11 @@ namespace ESKF_VIO_BACKEND {
             this->analyticTemp.A.row(2 * i) = norm[i][0] * pose.row(2) - pose.row(0);
             this->analyticTemp.A.row(2 * i + 1) = norm[i][1] * pose.row(2) - pose.row(1);
         }
-        Vector4 x = this->analyticTemp.A.jacobiSvd(Eigen::ComputeFullV).matrixV().rightCols<1>();
+        // 先做 QR 分解，再对固定大小的上三角矩阵做 SVD（动态大小的 JacobiSVD 在内存分配失败时会重复释放内存）
+        Eigen::ColPivHouseholderQR<Matrix> qr(this->analyticTemp.A);
+        Matrix44 R = qr.matrixQR().topRows<4>().triangularView<Eigen::Upper>();
+        Eigen::JacobiSVD<Matrix44> svd(R, Eigen::ComputeFullV);
+        Vector4 x = qr.colsPermutation() * svd.matrixV().rightCols<1>();
 
         // 检查计算结果是否正确
         if (std::fabs(x(3)) < 1e-6) {
-- 
2.43.0


From f4d1e415ed39ce1d38b917616cf28dc89462a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 22/29] fix: matrices stay intact when growing them runs out of
 memory

Eigen frees the old block before it asks for the new one, so a failed resize of
a matrix that outlives the call left a dangling pointer that was freed again
later. Build the new value first and move it in.
---
 .../src/geometry/trianglation.cpp             |  2 +-
 .../src/propagate/sequence_propagator.cpp     |  4 ++--
 .../src/update/multi_view_vision_update.cpp   | 24 ++++++++++---------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 8b634bb..7f7c72c 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -26,7 +26,7 @@ namespace ESKF_VIO_BACKEND {
         if (num < 2) {
             return false;
         }
-        this->analyticTemp.A.resize(num * 2, 4);
+        this->analyticTemp.A = Matrix(num * 2, 4);
         for (uint32_t i = 0; i < num; ++i) {
             auto pose = Utility::TransformMatrix(q_wc[i].inverse(), - (q_wc[i].inverse() * p_wc[i]));
             this->analyticTemp.A.row(2 * i) = norm[i][0] * pose.row(2) - pose.row(0);
diff --git a/eskf_vio_backend/src/propagate/sequence_propagator.cpp b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
index b5d26cd..5380d62 100644
--- a/eskf_vio_backend/src/propagate/sequence_propagator.cpp
+++ b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
@@ -27,7 +27,7 @@ namespace ESKF_VIO_BACKEND {
             newItem->imuCov.setZero();
             if (camExSize > 0) {
                 newItem->imuExCamCov.setZero(imuSize, camExSize);
-                this->exCamCov.setZero(camExSize, camExSize);
+                this->exCamCov = Matrix(Matrix::Zero(camExSize, camExSize));
             }
 
             // 从零开始创建的 propagate 起点，名义运动状态归为初值
@@ -144,7 +144,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // propagate IMU 与相机之间的协方差矩阵
-        item_1->imuExCamCov = this->F * item_0->imuExCamCov;
+        item_1->imuExCamCov = Eigen::Matrix<Scalar, IMU_STATE_SIZE, Eigen::Dynamic>(this->F * item_0->imuExCamCov);
 
         /* 协方差矩阵 propagate 过程 */
         /*
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 36a1ffd..0f10207 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -82,7 +82,8 @@ namespace ESKF_VIO_BACKEND {
         auto propagateItem = this->propagator->items.front();
         const uint32_t camExSize = (this->frameManager->extrinsics.size() + this->frameManager->frames.size() - 1) * 6;
         const uint32_t size = IMU_STATE_SIZE + camExSize;
-        this->covariance.setZero(size, size);
+        // 先构造临时矩阵再移动赋值，内存分配失败时原矩阵仍然有效（Eigen 原地 resize 失败会留下悬空指针），下同
+        this->covariance = Matrix(Matrix::Zero(size, size));
         // 维度检查
         RETURN_FALSE_IF(propagateItem->imuExCamCov.cols() != camExSize);
         // 填充雅可比矩阵的既有部分
@@ -194,7 +195,7 @@ namespace ESKF_VIO_BACKEND {
         for (uint32_t i = 0; i < this->features.size(); ++i) {
             this->Hx_rows += this->features[i]->observeNum * 2 - 3;
         }
-        this->Hx_r.setZero(this->Hx_rows, this->Hx_cols + 1);
+        this->Hx_r = Matrix(Matrix::Zero(this->Hx_rows, this->Hx_cols + 1));
 
         // 遍历每一个特征点，构造各自的量测方程，然后拼接到一起
         uint32_t rowsCount = 0;
@@ -287,7 +288,7 @@ namespace ESKF_VIO_BACKEND {
         Hf_Hx_r = QRSolver.householderQ().transpose() * Hf_Hx_r;
 
         // 裁剪出投影结果
-        Hx_r = Hf_Hx_r.block(3, 3, Hf_Hx_r.rows() - 3, Hf_Hx_r.cols() - 3);
+        Hx_r = Matrix(Hf_Hx_r.block(3, 3, Hf_Hx_r.rows() - 3, Hf_Hx_r.cols() - 3));
         // TODO: 添加 Huber 核函数，调整此特征点的 scale
         // Hx_r *= scale;
         return true;
@@ -302,15 +303,15 @@ namespace ESKF_VIO_BACKEND {
         Vector &&r = this->Hx_r.block(0, this->Hx_r.cols() - 1, this->Hx_r.rows(), 1);
         Matrix PHt = this->covariance * H.transpose();
         const Scalar R = this->measureNoise * this->measureNoise;
-        this->meas_covariance = H * PHt;
+        this->meas_covariance = Matrix(H * PHt);
         this->meas_covariance.diagonal().array() += R;     // S = H * P * Ht + R
-        this->K = PHt * Utility::Inverse(this->meas_covariance);    // K = P * Ht * Sinv
+        this->K = Matrix(PHt * Utility::Inverse(this->meas_covariance));    // K = P * Ht * Sinv
         // 更新误差状态向量
-        this->delta_x = this->K * r;       // dx = K * r
+        this->delta_x = Vector(this->K * r);       // dx = K * r
         Matrix I_KH = - this->K * H;
         I_KH.diagonal().array() += Scalar(1);
         static Matrix newCov;
-        newCov = I_KH * this->covariance;   // P = (I - K * H) * P
+        newCov = Matrix(I_KH * this->covariance);   // P = (I - K * H) * P
         // newCov = I_KH * this->covariance * I_KH.transpose() +
         //     this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
 
@@ -405,8 +406,9 @@ namespace ESKF_VIO_BACKEND {
         uint32_t camExSize = this->covariance.cols() - IMU_STATE_SIZE;
         auto propagateItem = this->propagator->items.front();
         propagateItem->imuCov = this->covariance.block(0, 0, IMU_STATE_SIZE, IMU_STATE_SIZE);
-        propagateItem->imuExCamCov = this->covariance.block(0, IMU_STATE_SIZE, IMU_STATE_SIZE, camExSize);
-        this->propagator->exCamCov = this->covariance.block(IMU_STATE_SIZE, IMU_STATE_SIZE, camExSize, camExSize);
+        propagateItem->imuExCamCov = Eigen::Matrix<Scalar, IMU_STATE_SIZE, Eigen::Dynamic>(
+            this->covariance.block(0, IMU_STATE_SIZE, IMU_STATE_SIZE, camExSize));
+        this->propagator->exCamCov = Matrix(this->covariance.block(IMU_STATE_SIZE, IMU_STATE_SIZE, camExSize, camExSize));
         return true;
     }
 
@@ -433,10 +435,10 @@ namespace ESKF_VIO_BACKEND {
                 this->covariance.conservativeResize(fullSize - 6, fullSize - 6);
                 return true;
             case MARG_OLDEST:
-                temp = this->covariance.block(0, imuExSize + 6, imuExSize, camSize - 6);
+                temp = Matrix(this->covariance.block(0, imuExSize + 6, imuExSize, camSize - 6));
                 this->covariance.block(0, imuExSize, imuExSize, camSize - 6) = temp;
                 this->covariance.block(imuExSize, 0, camSize - 6, imuExSize) = temp.transpose();
-                temp = this->covariance.bottomRightCorner(camSize - 6, camSize - 6);
+                temp = Matrix(this->covariance.bottomRightCorner(camSize - 6, camSize - 6));
                 this->covariance.block(imuExSize, imuExSize, camSize - 6, camSize - 6) = temp;
                 this->covariance.conservativeResize(fullSize - 6, fullSize - 6);
                 return true;
-- 
2.43.0


From f6bbe40a801b6132ebd4911fd5e7d35169c4db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 23/29] fix: points at a camera's centre are no longer taken as
 triangulated

Without parallax (standing still, or seen by one camera only) the linear
solution degenerates to the camera centre, whose depth is zero up to
rounding. Such points passed the check and made the update's Jacobians
explode, leaving an indefinite covariance.
---
 eskf_vio_backend/src/geometry/trianglation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 7f7c72c..e2bf2e4 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -16,6 +16,7 @@
 #define INNER_LOOP_MAX_ITER (10) //inner_loop_max_iteration
 #define OUTER_LOOP_MAX_ITER (10)//outer_loop_max_iteration
 #define ESTIMATION_PRECISION (5e-7)//estimation_precision
+#define MIN_DEPTH (0.1) // 有效的最小深度（没有视差时，解会退化到相机光心处）
 namespace ESKF_VIO_BACKEND {
 
     bool Trianglator::TrianglateAnalytic(const std::vector<Quaternion> &q_wc,
@@ -45,7 +46,7 @@ namespace ESKF_VIO_BACKEND {
         p_w = x.head<3>() / x(3);
         for (uint32_t i = 0; i < q_wc.size(); ++i) {
             Vector3 p_c = q_wc[i].inverse() * (p_w - p_wc[i]);
-            if (p_c.z() < 0) {
+            if (!(p_c.z() >= Scalar(MIN_DEPTH))) {
                 return false;
             }
         }
-- 
2.43.0


From 4b2ec8a08d2e4f4d6c4b4317f973456206c6ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 24/29] fix: every pose sample is solved from the given initial
 pose

A diverged model that happened to be supported by one point became the start
of all later samples, none of which could converge any more.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 7e94fe8..8686e4d 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -93,6 +93,8 @@ namespace ESKF_VIO_BACKEND {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
+        const Quaternion init_q_wc = q_wc;
+        const Vector3 init_p_wc = p_wc;
         Quaternion best_q_wc = q_wc;
         Vector3 best_p_wc = p_wc;
         uint32_t score = 0;
@@ -128,8 +130,9 @@ namespace ESKF_VIO_BACKEND {
                 subPts2d.emplace_back(pts_2d[*it]);
             }
             // 代入 PnP 模型，计算模型参数（这里如果能换成 P3P 模型会更好）
-            q_wc = best_q_wc;
-            p_wc = best_p_wc;
+            // 每次都从给定的初值出发，否则一个偶然得分的发散模型会使后续所有采样都无法收敛
+            q_wc = init_q_wc;
+            p_wc = init_p_wc;
             this->EstimatePose(subPts3d, subPts2d, q_wc, p_wc);
             // 将模型代入所有点对，计算得分
             score = 0;
-- 
2.43.0


From 1b7f87581ab754e8457988f65b5fdecb2c7795e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 25/29] fix: pose steps that overflow are refused instead of
 ending in a zero quaternion

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 8686e4d..b7f3fc1 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -51,7 +51,7 @@ namespace ESKF_VIO_BACKEND {
             // 求解高斯牛顿增量方程
             dx = H.ldlt().solve(b);
             Scalar norm_dx = dx.norm();
-            if (std::isnan(norm_dx) == true) {
+            if (std::isfinite(norm_dx) == false) {
                 return false;
             }
 
@@ -231,7 +231,7 @@ namespace ESKF_VIO_BACKEND {
             // 求解高斯牛顿增量方程
             dx = H.ldlt().solve(b);
             Scalar norm_dx = dx.norm();
-            if (std::isnan(norm_dx) == true) {
+            if (std::isfinite(norm_dx) == false) {
                 return false;
             }
 
-- 
2.43.0


From 3656f3d710a1a5f04524f3080fb26ebbb8cd9571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 26/29] fix: keep the configured gravity per estimator instead
 of in a process-wide variable

Configuring a second estimator replaced the gravity used by every estimator already
running in the process, which bent their attitude, velocity and position.
---
 eskf_vio_backend/include/propagate/attitude_estimate.hpp   | 3 +++
 eskf_vio_backend/include/propagate/sequence_propagator.hpp | 2 ++
 eskf_vio_backend/src/backend/backend_config.cpp            | 3 ++-
 eskf_vio_backend/src/propagate/attitude_estimate.cpp       | 4 ++--
 eskf_vio_backend/src/propagate/sequence_propagator.cpp     | 4 ++--
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/eskf_vio_backend/include/propagate/attitude_estimate.hpp b/eskf_vio_backend/include/propagate/attitude_estimate.hpp
index ddc6f1f..729647c 100644
--- a/eskf_vio_backend/include/propagate/attitude_estimate.hpp
+++ b/eskf_vio_backend/include/propagate/attitude_estimate.hpp
@@ -2,6 +2,7 @@
 /* 外部依赖 */
 /* 内部依赖 */
 #include <typedef.hpp>
+#include <imu_state.hpp>
 
 namespace ESKF_VIO_BACKEND {
     /* 姿态解算估计结果队列中的一个元素 */
@@ -29,6 +30,8 @@ namespace ESKF_VIO_BACKEND {
         // IMU bias，由 update 过程进行更新
         Vector3 bias_a = Vector3::Zero();
         Vector3 bias_g = Vector3::Zero();
+        // 在 w 系下的重力加速度
+        Vector3 gravity_w = IMUFullState::gravity_w;
         // 姿态解算的 PI 控制器，积分部分的误差累加值
         Scalar Kp = Scalar(0.001);
         Scalar Ki = Scalar(0.0001);
diff --git a/eskf_vio_backend/include/propagate/sequence_propagator.hpp b/eskf_vio_backend/include/propagate/sequence_propagator.hpp
index fb2b9b0..0dff127 100644
--- a/eskf_vio_backend/include/propagate/sequence_propagator.hpp
+++ b/eskf_vio_backend/include/propagate/sequence_propagator.hpp
@@ -39,6 +39,8 @@ namespace ESKF_VIO_BACKEND {
         // 无 update 时的 IMU bias
         Vector3 bias_a = Vector3::Zero();
         Vector3 bias_g = Vector3::Zero();
+        // 在 w 系下的重力加速度
+        Vector3 gravity_w = IMUFullState::gravity_w;
         // 无 update 且 items 为空时的 motion state 初值，初值将在 eskf vio backend 初始化时从姿态解算结果中获取
         IMUMotionState initState;
         // 离散时间状态方程和过程噪声
diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index ad6d4d8..f22926b 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -20,7 +20,8 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
         this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
-        IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
+        this->propagator.gravity_w = Vector3(0.0, 0.0, this->config->imu.gravityNorm);
+        this->attitudeEstimator.gravity_w = this->propagator.gravity_w;
 
         this->frameManager.extrinsics.clear();
         for (uint32_t i = 0; i < this->config->vision.default_p_bc.size(); ++i) {
diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index d26d602..616f56a 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -11,7 +11,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             /* 如果队列为空，则利用 accel 来给一个 attitude 初值 */
             Vector3 g_imu = accel - this->bias_a;
-            Vector3 g_word = IMUFullState::gravity_w;
+            Vector3 g_word = this->gravity_w;
             // 首先需要检查 accel 的模长是否和重力加速度一致，不一致的话不能初始化
             if (std::fabs(g_word.norm() - g_imu.norm()) > fp64(0.04)) {
                 LogInfo(">> Attitude estimator: imu accel norm " << g_imu.norm() <<
@@ -44,7 +44,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 acc_b_measure = accel - this->bias_a;
             // 自由落体时加速度观测不包含姿态信息，归一化保持为零向量，避免除以零
             acc_b_measure.normalize();
-            Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
+            Vector3 acc_b_target = item_0->q_wb.inverse() * this->gravity_w / this->gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
diff --git a/eskf_vio_backend/src/propagate/sequence_propagator.cpp b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
index 5380d62..c214697 100644
--- a/eskf_vio_backend/src/propagate/sequence_propagator.cpp
+++ b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
@@ -51,7 +51,7 @@ namespace ESKF_VIO_BACKEND {
         // 中值积分递推名义状态，同时计算出 accel 和 gyro 的中值
         Vector3 midAccel, midGyro;
         this->PropagateMotionNominalState(item_0, item_1,
-                                          this->bias_a, this->bias_g, IMUFullState::gravity_w,
+                                          this->bias_a, this->bias_g, this->gravity_w,
                                           midAccel, midGyro);
         // 中值积分递推误差状态方程，更新 covariance
         this->PropagateFullErrorStateCovariance(item_0, item_1, midAccel, midGyro);
@@ -70,7 +70,7 @@ namespace ESKF_VIO_BACKEND {
             // 中值积分递推名义状态，同时计算出 accel 和 gyro 的中值
             Vector3 midAccel, midGyro;
             this->PropagateMotionNominalState(item_0, item_1,
-                                              this->bias_a, this->bias_g, IMUFullState::gravity_w,
+                                              this->bias_a, this->bias_g, this->gravity_w,
                                               midAccel, midGyro);
             // 中值积分递推误差状态方程，更新 covariance
             this->PropagateFullErrorStateCovariance(item_0, item_1, midAccel, midGyro);
-- 
2.43.0


From 6e58e1cc891cfae9989e382d64f56da67c3bd605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 27/29] fix: refuse a feature message built from unequal
 numbers of ids and observations

The constructor emptied it, which left a valid-looking message of time zero that
could define the time origin.
---
 eskf_vio_backend/src/data_manager/data_typedef.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/data_typedef.cpp b/eskf_vio_backend/src/data_manager/data_typedef.cpp
index 6796ab7..a60f4d0 100644
--- a/eskf_vio_backend/src/data_manager/data_typedef.cpp
+++ b/eskf_vio_backend/src/data_manager/data_typedef.cpp
@@ -30,6 +30,8 @@ namespace ESKF_VIO_BACKEND {
         ids(ids), observes(observes), flag(flag), timeStamp(timeStamp) {
         if (this->ids.size() != this->observes.size()) {
             this->Clear();
+            // 无效的时间戳使得这一帧数据会被拒绝，而不是被当作零时刻的空数据
+            this->timeStamp = NAN;
             return;
         }
     }
-- 
2.43.0


From 4dc143f0c0b6a9483807c5d8f7277e8c5b1f42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 28/29] fix: use the Joseph form for the covariance update

In single precision (I - KH)P loses definiteness when an observation shrinks the
covariance strongly; the joint covariance became badly indefinite.
---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 0f10207..e7395c7 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -311,9 +311,8 @@ namespace ESKF_VIO_BACKEND {
         Matrix I_KH = - this->K * H;
         I_KH.diagonal().array() += Scalar(1);
         static Matrix newCov;
-        newCov = Matrix(I_KH * this->covariance);   // P = (I - K * H) * P
-        // newCov = I_KH * this->covariance * I_KH.transpose() +
-        //     this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
+        newCov = Matrix(I_KH * this->covariance * I_KH.transpose() +
+            this->K * this->K.transpose() * R);     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
 
         // check cov
         for (uint32_t i = 0; i < newCov.rows(); ++i) {
-- 
2.43.0


From ddcde464b63a024d99fa837e22378f1c0b1379fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 29/29] fix: refuse a camera update whose numbers are not
 finite

After a long interruption of all sensors (a suspended device) the covariance
can become so large that the innovation covariance is numerically singular in
single precision. The gain, and with it the published position, velocity,
attitude, biases and camera calibration, then became NaN. Such an update now
fails before any state is touched, and the estimator initialises again.
---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index e7395c7..9a05585 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -314,6 +314,9 @@ namespace ESKF_VIO_BACKEND {
         newCov = Matrix(I_KH * this->covariance * I_KH.transpose() +
             this->K * this->K.transpose() * R);     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
 
+        // 数值计算失效时（例如设备长时间休眠后协方差过大），放弃此次更新，避免输出无效的估计结果
+        RETURN_FALSE_IF(!this->delta_x.allFinite() || !newCov.allFinite());
+
         // check cov
         for (uint32_t i = 0; i < newCov.rows(); ++i) {
             if (newCov(i, i) < 0) {
-- 
2.43.0

