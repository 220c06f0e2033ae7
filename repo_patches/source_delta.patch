From 960809cadca669b17ad4c57023a8bbb3512e556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 01/48] fix: do not drop requests that arrive while a
 trajectory is being generated

The regenerate flag was cleared after dispatching a generation and again when
its result was swapped in, so a request made in between stayed pending for
ever. Clear it when the pending requests are consumed, under their mutex.
---
 src/dynamic_trajectory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..c6cb12d 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -246,7 +246,7 @@ namespace dynamic_traj_generator
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
+          computing_new_trajectory_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -274,7 +274,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -608,6 +607,9 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
+    // The pending requests are consumed here: later ones must raise the flag again.
+    computing_new_trajectory_ = true;
+    generate_new_traj_ = false;
     return next_trajectory_waypoints;
   }
 
@@ -676,7 +678,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 07e3e9400a8ecae20da775e84406f83116fc08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 02/48] fix: moving a waypoint without regeneration must not
 cancel a pending regeneration

---
 src/dynamic_trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index c6cb12d..0034928 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,9 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj) {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
-- 
2.43.0


From 6a6ab4c224d97f1adcce1b22b133b8a9f2e3e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/48] fix: apply in-place moves to waypoints still waiting
 for regeneration

---
 src/dynamic_trajectory.cpp | 40 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 0034928..f0ae91a 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -53,6 +53,25 @@ namespace dynamic_traj_generator
     }
   };
 
+  template <typename WaypointContainer>
+  static void resetWaypointThroughDeque(WaypointContainer &waypoints, const std::string &name,
+                                        const Eigen::Vector3d &position)
+  {
+    if (name == "")
+    {
+      return;
+    }
+    for (auto &waypoint : waypoints)
+    {
+      if (waypoint.getName() == name)
+      {
+        DYNAMIC_LOG("reseting waypoint ");
+        DYNAMIC_LOG(name);
+        waypoint.resetWaypoint(position);
+      }
+    }
+  };
+
   /******************************************************************************/
   /***************************** PUBLIC INTERFACE *******************************/
   /******************************************************************************/
@@ -285,6 +304,9 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
+          // waypoints that are still waiting for a regeneration are moved as well
+          resetWaypointThroughDeque(waypoints_to_be_set_, modification.first, modification.second);
+          resetWaypointThroughDeque(waypoints_to_be_added_, modification.first, modification.second);
         }
         waypoints_to_be_modified_.clear();
       }
@@ -540,24 +562,6 @@ namespace dynamic_traj_generator
     }
   }
 
-  void resetWaypointThroughDeque(DynamicWaypoint::Deque &waypoints, const std::string &name,
-                                 const Eigen::Vector3d &position)
-  {
-    if (name == "")
-    {
-      return;
-    }
-    for (auto &waypoint : waypoints)
-    {
-      if (waypoint.getName() == name)
-      {
-        DYNAMIC_LOG("reseting waypoint ");
-        DYNAMIC_LOG(name);
-        waypoint.resetWaypoint(position);
-      }
-    }
-  };
-
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-- 
2.43.0


From 26dca46bd44caf7a41a28526e80081a9e5c5e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 04/48] fix: read the trajectory pointer of
 ThreadSafeTrajectory under its lock

---
 .../thread_safe_trajectory.hpp                | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
index 9549dd0..97ad2e4 100644
--- a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
@@ -18,6 +18,11 @@ class ThreadSafeTrajectory
   std::shared_ptr<mav_trajectory_generation::Trajectory> trajectory_ptr_ = nullptr;
 
 private:
+  std::shared_ptr<mav_trajectory_generation::Trajectory> getPointer() const
+  {
+    std::lock_guard<std::mutex> lock(evaluate_mutex_);
+    return trajectory_ptr_;
+  }
   void reset(const std::shared_ptr<mav_trajectory_generation::Trajectory> &trajectory)
   {
     std::lock_guard<std::mutex> lock(evaluate_mutex_);
@@ -36,19 +41,19 @@ public:
   ThreadSafeTrajectory(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.getPointer());
   };
 
   ThreadSafeTrajectory(ThreadSafeTrajectory &&other)
   {
     /* std::cout<<"ThreadSafeTrajectory move constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.getPointer());
   };
 
   ThreadSafeTrajectory &operator=(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy assignment"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.getPointer());
     return *this;
   };
 
@@ -92,19 +97,19 @@ public:
 
   bool operator==(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ == trajectory_ptr_;
+    return other.getPointer() == getPointer();
   }
   bool operator!=(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ != trajectory_ptr_;
+    return other.getPointer() != getPointer();
   }
   bool operator==(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ == nullptr;
+    return getPointer() == nullptr;
   }
   bool operator!=(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ != nullptr;
+    return getPointer() != nullptr;
   }
 
   Eigen::VectorXd evaluate(double t, int derivative_order = 0) const
-- 
2.43.0


From 79a2a4ac7c6113c1b967603d27c5b51ac72abc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 05/48] fix: do not read pending moves and evaluation times
 without their locks

---
 .../dynamic_trajectory.hpp                            |  1 +
 src/dynamic_trajectory.cpp                            | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..57f9a9c 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -206,6 +206,7 @@ class DynamicTrajectory {
   bool checkStitchTrajectory();
   bool checkInSecurityZone();
   bool checkTrajectoryModifiers();
+  bool checkPendingModifications() const;
 
   bool checkTrajectoryGenerated();
   bool checkIfTrajectoryIsAlreadyGenerated() { return traj_ != nullptr; };
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index f0ae91a..049ee25 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -274,6 +274,7 @@ namespace dynamic_traj_generator
         new_parameters_ = parameters_;
         new_parameters_.global_time_last_trajectory_generated =
             parameters_.last_global_time_evaluated;
+        const double last_local_time_evaluated = parameters_.last_local_time_evaluated;
         parameters_mutex_.unlock();
 
         DYNAMIC_LOG("generate new trajectory");
@@ -286,7 +287,7 @@ namespace dynamic_traj_generator
           from_scratch_ = false;
           DYNAMIC_LOG("stitching new trajectory");
           next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
-              parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+              last_local_time_evaluated, next_trajectory_waypoint_);
         }
         else
         {
@@ -297,7 +298,7 @@ namespace dynamic_traj_generator
         generateTrajectory(next_trajectory_waypoint_, false);
       }
 
-      else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
+      else if (checkPendingModifications() && !computing_new_trajectory_)
       {
         // DYNAMIC_LOG("Modifying waypoints");
         const std::lock_guard<std::mutex> lock(todo_mutex);
@@ -700,6 +701,12 @@ namespace dynamic_traj_generator
     return false;
   };
 
+  bool DynamicTrajectory::checkPendingModifications() const
+  {
+    const std::lock_guard<std::mutex> lock(todo_mutex);
+    return !waypoints_to_be_modified_.empty();
+  }
+
   bool DynamicTrajectory::checkInSecurityZone()
   {
     if (traj_ == nullptr)
-- 
2.43.0


From 4ee509693bc51279604732ab4fec4f5244aa0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 06/48] fix: swap, evaluate and move waypoints under the
 trajectory lock

---
 src/dynamic_trajectory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 049ee25..9447c80 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -140,6 +140,8 @@ namespace dynamic_traj_generator
     // DYNAMIC_LOG("Evaluating trajectory");
     checkTrajectoryGenerated();
 
+    // position, velocity and acceleration have to belong to the same trajectory state
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     double global_time = t;
     // double global_time = t - time_constant_;
     double local_time = convertFromGlobalTime(t);
@@ -184,6 +186,7 @@ namespace dynamic_traj_generator
     {
       waitUntilTrajectoryIsGenerated();
     }
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     return convertIntoGlobalTime(traj_.getMaxTime());
   }
 
@@ -193,6 +196,7 @@ namespace dynamic_traj_generator
     {
       waitUntilTrajectoryIsGenerated();
     }
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     return convertIntoGlobalTime(traj_.getMinTime());
   }
 
@@ -481,6 +485,7 @@ namespace dynamic_traj_generator
                                                     const Eigen::Vector3d &position)
   {
     bool modified = false;
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     for (auto &waypoint : dynamic_waypoints_)
     {
@@ -671,6 +676,8 @@ namespace dynamic_traj_generator
     }
 
     // DYNAMIC_LOG("Checking trajectory generated");
+    // only one thread may take the new trajectory, and not in the middle of an evaluation
+    const std::lock_guard<std::mutex> traj_lock(traj_mutex_);
     future_mutex_.lock();
     bool future_traj_valid = future_traj_.valid();
     future_mutex_.unlock();
-- 
2.43.0


From 75ce35bf9ca4786b0205c97c50062b4fb471b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 07/48] fix: wait for the computation in progress before
 destroying the generator

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 57f9a9c..51ce031 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // the computation in progress uses the members of this object
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From a30a29cb62abc766bd1539b6957c1c9fced061b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 08/48] fix: read and clear the trajectory regenerated flag
 atomically

---
 src/dynamic_trajectory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 9447c80..3e9b2df 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -235,9 +235,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From d9f45fe34806e6d7616f66a3b2ec24296c5a85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 09/48] fix: keep the last evaluated time when a new trajectory
 is taken over

---
 src/dynamic_trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 3e9b2df..0b1d93a 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -427,6 +427,11 @@ namespace dynamic_traj_generator
     }
 
     parameters_mutex_.lock();
+    // keep the progress made while the new trajectory was being computed
+    new_parameters_.last_global_time_evaluated = parameters_.last_global_time_evaluated;
+    new_parameters_.last_local_time_evaluated =
+        new_parameters_.last_global_time_evaluated -
+        new_parameters_.global_time_last_trajectory_generated;
     parameters_ = new_parameters_;
     parameters_mutex_.unlock();
 
-- 
2.43.0


From 28dc1e1717d80783edd3f91a395fa5bb3d30b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 10/48] fix: do not fly again a waypoint reached exactly at the
 last evaluated time

---
 src/dynamic_trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 0b1d93a..60a0204 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -578,7 +578,7 @@ namespace dynamic_traj_generator
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
-      if (it->getTime() < last_t_eval) // && it->getTime() != 0.0f)
+      if (it->getTime() <= last_t_eval) // && it->getTime() != 0.0f)
       {
         DYNAMIC_LOG("Removing waypoint ");
         it = waypoints.erase(it);
-- 
2.43.0


From fa0141fed0c9700d0c4ca5c99cf8d69d778ce65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 11/48] fix: second derivative of the gaussian path modifier

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..e9ae819 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From e881664353606c4a9531f6d05dbc6f2304764478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 12/48] fix: a move at the very time of its waypoint must not
 give NaN references

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index e9ae819..40f37ff 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,7 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (sigma_ <= 0 || std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
     {
       return 0;
     }
-- 
2.43.0


From dbf70b79bea37dc9c33924d019c30b0074153d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 13/48] fix: copy the last sigma of a waypoint

---
 src/dynamic_waypoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..b1972b7 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -28,6 +28,7 @@ namespace dynamic_traj_generator
         t_assigned_(other.t_assigned_), name_(other.name_), index_(other.index_)
   {
     modifiers_ = other.modifiers_;
+    last_sigma_ = other.last_sigma_;
   }
 
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
-- 
2.43.0


From 827c4a5407eff3b2a35b7bdb52baa39a21b3f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 14/48] fix: initialise the vehicle position

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 51ce031..6a40500 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -92,7 +92,7 @@ class DynamicTrajectory {
   const int dimension_ = 3;
   std::atomic_bool from_scratch_ = true;
   const double a_max_ = MAV_MAX_ACCEL;
-  Eigen::Vector3d vehicle_position_;
+  Eigen::Vector3d vehicle_position_ = Eigen::Vector3d::Zero();
 
   mutable std::mutex traj_mutex_;
   mutable std::mutex future_mutex_;
-- 
2.43.0


From 4f26113f948e36510495e1d1afa68d47a849964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 15/48] fix: coincident waypoints must not get a segment of
 zero duration

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..0c35a64 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -258,6 +258,9 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -283,6 +286,7 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From f54047faa644130e3d0cf277c253a95f1e31233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 16/48] fix: sample a trajectory range from its start to its
 end

---
 .../src/trajectory.cpp                        | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..f16cb07 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -82,13 +82,19 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
                                int derivative_order,
                                std::vector<Eigen::VectorXd>* result,
                                std::vector<double>* sampling_times) const {
-  const size_t expected_number_of_samples = (t_end - t_start) / dt + 1;
-
   result->clear();
+  if (sampling_times != nullptr) {
+    sampling_times->clear();
+  }
+  if (segments_.empty() || t_end < t_start || !(dt > 0.0)) {
+    LOG(ERROR) << "Nothing to sample in this range!";
+    return;
+  }
+
+  const size_t expected_number_of_samples = (t_end - t_start) / dt + 1;
   result->reserve(expected_number_of_samples);
 
   if (sampling_times != nullptr) {
-    sampling_times->clear();
     sampling_times->reserve(expected_number_of_samples);
   }
 
@@ -113,9 +119,16 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
     return;
   }
 
+  // Make sure we don't go off the end of the segments (can happen if t_start is
+  // equal to trajectory max time).
+  if (i >= segments_.size()) {
+    i = segments_.size() - 1;
+  }
+
   // Go back to the start of this segment.
-  accumulated_time -= segments_[i].getTime();
-  double time_in_segment = t_start - accumulated_time;
+  double time_in_segment =
+      t_start - (accumulated_time - segments_[i].getTime());
+  accumulated_time = t_start;
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-- 
2.43.0


From 7027c9aec32508357f1d1cdb4e85ad613fced2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 17/48] fix: keep the segment times when extracting a dimension

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index f16cb07..a2ace4f 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -163,6 +163,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From 5198de2aecb4bb856560726a99edcbc5016b1d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 18/48] fix: scale time also when appending a dimension of
 different order

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..d6c3a32 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -243,12 +243,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
+        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
-- 
2.43.0


From 06eba2dc81d65a377d610120c4b795aa91e3be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 19/48] fix: polynomials of different order compare unequal
 instead of aborting

---
 .../include/mav_trajectory_generation/polynomial.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..a2b505b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -63,7 +63,7 @@ class Polynomial {
   int N() const { return N_; }
 
   inline bool operator==(const Polynomial& rhs) const {
-    return coefficients_ == rhs.coefficients_;
+    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;
   }
   inline bool operator!=(const Polynomial& rhs) const {
     return !operator==(rhs);
-- 
2.43.0


From f810d0678d7d5ef3bc5474d2ad3040ea39c022eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 20/48] fix: vertices of different dimension compare unequal
 instead of aborting

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index 0c35a64..01e267f 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -168,7 +168,7 @@ bool Vertex::hasConstraint(int derivative_order) const {
 }
 
 bool Vertex::isEqualTol(const Vertex& rhs, double tol) const {
-  if (constraints_.size() != rhs.constraints_.size()) return false;
+  if (D_ != rhs.D_ || constraints_.size() != rhs.constraints_.size()) return false;
   // loop through lhs constraint map
   for (typename Constraints::const_iterator it = cBegin(); it != cEnd(); ++it) {
     // look for matching key
-- 
2.43.0


From b87d7c030498b8c1ef90c1a780e65efae5cbb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 21/48] fix: find the smallest magnitude of a single dimension
 and report failures

---
 .../mav_trajectory_generation/src/segment.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index d6c3a32..33fff5d 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -125,10 +125,23 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   } else {
     // For dimension.size() == 1  we can simply evaluate the roots of the
     // derivative.
+    if (dimensions[0] < 0 || dimensions[0] >= D_) {
+      LOG(WARNING) << "Specified dimensions " << dimensions[0]
+                   << " are out of bounds [0.." << D_ - 1 << "]." << std::endl;
+      return false;
+    }
     if (!polynomials_[dimensions[0]].computeMinMaxCandidates(
             t_start, t_end, derivative, candidate_times)) {
       return false;
     }
+    // The magnitude has also a minimum wherever the value crosses zero.
+    std::vector<double> zero_crossings;
+    if (!polynomials_[dimensions[0]].computeMinMaxCandidates(
+            t_start, t_end, derivative - 1, &zero_crossings)) {
+      return false;
+    }
+    candidate_times->insert(candidate_times->end(), zero_crossings.begin(),
+                            zero_crossings.end());
   }
   return true;
 }
@@ -140,8 +153,10 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
-- 
2.43.0


From 7b4317c21c59f0a544fddefaf2deab8910d8a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 22/48] fix: a reflection is not a rotation matrix

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index be02f20..6c83556 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -178,7 +178,7 @@ inline bool isRotationMatrix(const Eigen::Matrix3d& mat){
     return false;
   }  
   // Check that det(R) = 1
-  if (mat.determinant() - 1.0 > kSmallValueCheck){
+  if (std::abs(mat.determinant() - 1.0) > kSmallValueCheck){
     std::cerr << "[mav_msgs::common] Rotation matrix requirement violated (det(R) = 1)" << std::endl;
     return false;
   }  
-- 
2.43.0


From 9fd880760aa2cbd5e0d03d7b201e80bf87e173fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 23/48] fix: rotation vector of a rotation by (about) half a
 turn

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 6c83556..a178776 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -233,6 +233,10 @@ inline bool vectorFromRotationMatrix(const Eigen::Matrix3d& mat,
   
   if (phi < kSmallValueCheck){
     *vec = Eigen::Vector3d::Zero();
+  } else if (phi > M_PI - 1.0e-2) {
+    // sin(phi) vanishes around half a turn
+    const Eigen::AngleAxisd angle_axis(mat);
+    *vec = angle_axis.angle() * angle_axis.axis();
   } else{
     Eigen::Matrix3d vec_skew = (mat - mat.transpose()) * phi / (2.0 * std::sin(phi));
     Eigen::Vector3d vec_unskewed;
-- 
2.43.0


From b96cc1ea27a419f89d8db6464d7e437ff32341e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 24/48] fix: no NaN pitch at the euler angle singularity

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index a178776..2222b6d 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -145,7 +145,7 @@ inline void getEulerAnglesFromQuaternion(const Eigen::Quaternion<double>& q,
 
     *euler_angles << std::atan2(2.0 * (q.w() * q.x() + q.y() * q.z()),
                            1.0 - 2.0 * (q.x() * q.x() + q.y() * q.y())),
-        std::asin(2.0 * (q.w() * q.y() - q.z() * q.x())),
+        std::asin(std::max(-1.0, std::min(1.0, 2.0 * (q.w() * q.y() - q.z() * q.x())))),
         std::atan2(2.0 * (q.w() * q.z() + q.x() * q.y()),
               1.0 - 2.0 * (q.y() * q.y() + q.z() * q.z()));
   }
-- 
2.43.0


From 8defb37e14d0ba8c57f1e96e7ee85f5c625e5757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 25/48] fix: YAML readers report malformed nodes instead of
 throwing or aborting

---
 .../mav_trajectory_generation/src/io.cpp      | 50 ++++++++++++++-----
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..0d69793 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -70,10 +70,15 @@ YAML::Node trajectoryToYaml(const Trajectory& trajectory) {
 bool coefficientsFromYaml(const YAML::Node& node,
                           Eigen::VectorXd* coefficients) {
   CHECK_NOTNULL(coefficients);
-  if (!node.IsSequence()) return false;
-  *coefficients = Eigen::VectorXd(node.size());
-  for (std::size_t i = 0; i < node.size(); ++i) {
-    (*coefficients)(i) = node[i].as<double>();
+  if (!node.IsDefined() || !node.IsSequence()) return false;
+  try {
+    *coefficients = Eigen::VectorXd(node.size());
+    for (std::size_t i = 0; i < node.size(); ++i) {
+      (*coefficients)(i) = node[i].as<double>();
+    }
+  } catch (const YAML::Exception& e) {
+    LOG(WARNING) << "Malformed coefficients: " << e.what();
+    return false;
   }
   return true;
 }
@@ -81,33 +86,50 @@ bool coefficientsFromYaml(const YAML::Node& node,
 bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
   CHECK_NOTNULL(segment);
 
+  if (!node.IsDefined() || !node.IsMap()) return false;
   if (!node[kNumCoefficientsKey]) return false;
   if (!node[kDimKey]) return false;
   if (!node[kSegmentTimeKey]) return false;
   if (!node[kCoefficientsKey]) return false;
   if (!node[kCoefficientsKey].IsSequence()) return false;
 
-  *segment =
-      Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());
+  try {
+    const int N = node[kNumCoefficientsKey].as<int>();
+    const int D = node[kDimKey].as<int>();
+    const uint64_t time_ns = node[kSegmentTimeKey].as<uint64_t>();
+
+    // Read the coefficients first to not trust N and D blindly.
+    if (static_cast<int>(node[kCoefficientsKey].size()) != D) return false;
+    std::vector<Eigen::VectorXd> coeffs(D);
+    for (int i = 0; i < D; ++i) {
+      if (!coefficientsFromYaml(node[kCoefficientsKey][i], &coeffs[i])) {
+        return false;
+      }
+      if (coeffs[i].size() != N) return false;
+    }
 
-  for (size_t i = 0; i < segment->D(); ++i) {
-    Eigen::VectorXd coeffs;
-    if (!coefficientsFromYaml(node[kCoefficientsKey][i], &coeffs)) return false;
-    (*segment)[i] = coeffs;
+    *segment = Segment(N, D);
+    for (int i = 0; i < D; ++i) (*segment)[i] = coeffs[i];
+    segment->setTimeNSec(time_ns);
+  } catch (const YAML::Exception& e) {
+    LOG(WARNING) << "Malformed segment: " << e.what();
+    return false;
   }
 
-  segment->setTimeNSec(node[kSegmentTimeKey].as<uint64_t>());
-
   return true;
 }
 
 bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments) {
   CHECK_NOTNULL(segments);
-  if (!node.IsSequence()) return false;
+  if (!node.IsDefined() || !node.IsSequence()) return false;
 
   segments->resize(node.size(), Segment(0, 0));
   for (size_t i = 0; i < node.size(); ++i) {
     if (!segmentFromYaml(node[i], &(*segments)[i])) return false;
+    if ((*segments)[i].N() != segments->front().N() ||
+        (*segments)[i].D() != segments->front().D()) {
+      return false;  // Segments do not belong together.
+    }
   }
 
   return true;
@@ -117,7 +139,9 @@ bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
   CHECK_NOTNULL(trajectory);
 
   Segment::Vector segments;
+  if (!node.IsDefined() || !node.IsMap()) return false;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
+  if (segments.empty()) return false;
   trajectory->setSegments(segments);
 
   return true;
-- 
2.43.0


From 1b38faf8bbc5e790ebcad21ed90ec7d13e165104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 26/48] fix: reading a damaged trajectory file fails instead of
 throwing or aborting

---
 .../include/mav_trajectory_generation/io.h    |  6 ++-
 .../mav_trajectory_generation/src/io.cpp      | 44 ++++---------------
 2 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..d765eb2 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -57,9 +57,11 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
+  if (!segmentsFromFile(filename, &segments) || segments.empty()) {
+    return false;
+  }
   trajectory->setSegments(segments);
-  return success;
+  return true;
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 0d69793..d5c1ecd 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -202,44 +202,16 @@ bool segmentsFromFile(const std::string& filename,
   segments->clear();
 
   // Parse YAML.
-  YAML::Node node = YAML::LoadFile(filename);
-
-  if (node[kSegmentsKey]) {
-    const YAML::Node& segments_yaml = node[kSegmentsKey];
-    for (size_t i = 0; i < segments_yaml.size(); i++) {
-      if (segments_yaml[i][kNumCoefficientsKey] && segments_yaml[i][kDimKey] &&
-          segments_yaml[i][kSegmentTimeKey] &&
-          segments_yaml[i][kCoefficientsKey]) {
-        // Header.
-        int N = segments_yaml[i][kNumCoefficientsKey].as<int>();
-        int D = segments_yaml[i][kDimKey].as<int>();
-        mav_trajectory_generation::Segment segment(N, D);
-        uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();
-        segment.setTimeNSec(t);
-        // Coefficients.
-        if (segments_yaml[i][kCoefficientsKey].size() != D) {
-          return false;  // Coefficients and dimensions do not coincide.
-        }
-        for (size_t j = 0; j < D; j++) {
-          if (segments_yaml[i][kCoefficientsKey][j].size() != N) {
-            return false;  // Number of coefficients does no coincide.
-          }
-          Eigen::VectorXd coeffs(N);
-          for (size_t k = 0; k < N; k++) {
-            coeffs(k) = segments_yaml[i][kCoefficientsKey][j][k].as<double>();
-          }
-          segment[j] = coeffs;
-        }
-        segments->push_back(segment);
-      } else {
-        return false;  // Wrong format, missing elements.
-      }
+  try {
+    const YAML::Node node = YAML::LoadFile(filename);
+    if (!node.IsMap() || !node[kSegmentsKey]) {
+      return false;  // No segments element.
     }
-  } else {
-    return false;  // No segments element.
+    return segmentsFromYaml(node[kSegmentsKey], segments);
+  } catch (const YAML::Exception& e) {
+    LOG(WARNING) << "Malformed file " << filename << ": " << e.what();
+    return false;
   }
-
-  return true;
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
-- 
2.43.0


From 49138b0aee8bf98b0bfb9656384791888b582bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 27/48] fix: do not write past the sampled states of short
 segments

---
 subpackages/mav_trajectory_generation/src/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index d5c1ecd..368a78d 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -258,7 +258,7 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   mav_trajectory_generation::Segment::Vector segments;
   trajectory.getSegments(&segments);
   double current_segment_time = 0.0;
-  for (int j = 0; j < segments.size(); ++j) {
+  for (int j = 0; j < segments.size() && j < output.rows(); ++j) {
     double segment_time = segments[j].getTime();
     current_segment_time += segment_time;
     output(j, 2 + 8 * dim) = current_segment_time;
-- 
2.43.0


From 40652d2e8bbdd712e541ee69ac7983eb1f41c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 28/48] fix: take the best solution found by the nonlinear
 optimiser, not the last one tried

---
 .../polynomial_optimization_nonlinear_impl.h  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index b8bd10f..e7bc61d 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -164,6 +164,16 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     return nlopt::FAILURE;
   }
 
+  // The last evaluation is not necessarily the best one: go back to the optimum.
+  std::vector<double> no_gradient;
+  objectiveFunctionTime(segment_times, no_gradient, this);
+  --optimization_info_.n_iterations;
+  for (const std::shared_ptr<ConstraintData>& constraint :
+       inequality_constraints_) {
+    evaluateMaximumMagnitudeConstraint(segment_times, no_gradient,
+                                       constraint.get());
+  }
+
   return result;
 }
 
@@ -220,6 +230,10 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
     }
   }
 
+  // The last evaluation is not necessarily the best one: go back to the optimum.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+
   // Scaling of segment times
   std::vector<double> relative_segment_times;
   poly_opt_.getSegmentTimes(&relative_segment_times);
@@ -519,6 +533,16 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
     return nlopt::FAILURE;
   }
 
+  // The last evaluation is not necessarily the best one: go back to the optimum.
+  std::vector<double> no_gradient;
+  objectiveFunctionTimeAndConstraints(initial_solution, no_gradient, this);
+  --optimization_info_.n_iterations;
+  for (const std::shared_ptr<ConstraintData>& constraint :
+       inequality_constraints_) {
+    evaluateMaximumMagnitudeConstraint(initial_solution, no_gradient,
+                                       constraint.get());
+  }
+
   return result;
 }
 
-- 
2.43.0


From a30bdc4f69f5101b608bd2e96ccf080843c8a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 29/48] fix: no abort for the extremum of a derivative beyond
 the polynomial's order

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 33fff5d..714efb6 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -93,6 +93,15 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   } else if (dimensions.size() > 1) {
     const int n_d = N_ - derivative;
     const int n_dd = n_d - 1;
+    if (n_dd <= 0) {
+      // The derivative is constant (or zero), so is its magnitude.
+      for (int dim : dimensions) {
+        if (dim < 0 || dim >= D_) return false;
+      }
+      candidate_times->push_back(t_start);
+      candidate_times->push_back(t_end);
+      return true;
+    }
     const int convolved_coefficients_length =
         Polynomial::getConvolutionLength(n_d, n_dd);
     Eigen::VectorXd convolved_coefficients(convolved_coefficients_length);
-- 
2.43.0


From 1ee59a46a5b4baec368c32b11e7887ebfb534d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 30/48] fix: a trajectory point built from values has no valid
 time stamp

---
 .../include/mav_msgs/eigen_mav_msgs.hpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
index a2a9ae6..5f4569d 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
@@ -186,7 +186,8 @@ struct EigenTrajectoryPoint {
                        const Eigen::Vector3d& _angular_velocity,
                        const Eigen::Vector3d& _angular_acceleration,
                        const MavActuation& _degrees_of_freedom = MavActuation::DOF4)
-      : time_from_start_ns(_time_from_start_ns),
+      : timestamp_ns(-1),
+        time_from_start_ns(_time_from_start_ns),
         position_W(_position),
         velocity_W(_velocity),
         acceleration_W(_acceleration),
-- 
2.43.0


From 8f919efcada58f7b0cd3aa8c0a70e33d9c0398bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 31/48] fix: the timer registry is shared by all threads and
 needs a lock

---
 .../include/mav_trajectory_generation/timing.h   |  3 +++
 .../mav_trajectory_generation/src/timing.cpp     | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..54d7a37 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -27,6 +27,7 @@
 #include <chrono>
 #include <limits>
 #include <map>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -178,6 +179,8 @@ class Timing {
   list_t timers_;
   map_t tag_map_;
   size_t max_tag_length_;
+  // The registry is shared by all threads of the process.
+  std::recursive_mutex mutex_;
 };
 
 #if DISABLE_TIMING
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..90ceba3 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -43,6 +43,7 @@ Timing::~Timing() {}
 
 // Static functions to query the timers:
 size_t Timing::GetHandle(std::string const& tag) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   // Search for an existing tag.
   map_t::iterator i = Instance().tag_map_.find(tag);
   if (i == Instance().tag_map_.end()) {
@@ -61,6 +62,7 @@ size_t Timing::GetHandle(std::string const& tag) {
 }
 
 std::string Timing::GetTag(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   std::string tag;
 
   // Perform a linear search for the tag.
@@ -104,40 +106,47 @@ void Timer::Stop() {
 bool Timer::IsTiming() const { return timing_; }
 
 void Timing::AddTime(size_t handle, double seconds) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   timers_[handle].acc_.Add(seconds);
 }
 
 double Timing::GetTotalSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Sum();
 }
 double Timing::GetTotalSeconds(std::string const& tag) {
   return GetTotalSeconds(GetHandle(tag));
 }
 double Timing::GetMeanSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Mean();
 }
 double Timing::GetMeanSeconds(std::string const& tag) {
   return GetMeanSeconds(GetHandle(tag));
 }
 size_t Timing::GetNumSamples(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.TotalSamples();
 }
 size_t Timing::GetNumSamples(std::string const& tag) {
   return GetNumSamples(GetHandle(tag));
 }
 double Timing::GetVarianceSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.LazyVariance();
 }
 double Timing::GetVarianceSeconds(std::string const& tag) {
   return GetVarianceSeconds(GetHandle(tag));
 }
 double Timing::GetMinSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Min();
 }
 double Timing::GetMinSeconds(std::string const& tag) {
   return GetMinSeconds(GetHandle(tag));
 }
 double Timing::GetMaxSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Max();
 }
 double Timing::GetMaxSeconds(std::string const& tag) {
@@ -145,6 +154,7 @@ double Timing::GetMaxSeconds(std::string const& tag) {
 }
 
 double Timing::GetHz(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return 1.0 / Instance().timers_[handle].acc_.RollingMean();
 }
 
@@ -157,6 +167,7 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::Print(std::ostream& out) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   map_t& tagMap = Instance().tag_map_;
 
   if (tagMap.empty()) {
@@ -197,7 +208,10 @@ std::string Timing::Print() {
   return ss.str();
 }
 
-void Timing::Reset() { Instance().tag_map_.clear(); }
+void Timing::Reset() {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
+  Instance().tag_map_.clear();
+}
 
 }  // namespace timing
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From d01d643ca4710307ee1f10c5121a991e38b4b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 32/48] fix: maximum of zero and negative samples

---
 .../include/mav_trajectory_generation/timing.h                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index 54d7a37..b93e026 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -43,7 +43,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
+        max_(std::numeric_limits<T>::lowest()) {}
 
   void Add(T sample) {
     if (window_samples_ < N) {
-- 
2.43.0


From 6a7a8aa05beb10c247ddb5a84711ead2367f71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 33/48] fix: stopping a timer that is not running records
 nothing

---
 subpackages/mav_trajectory_generation/src/timing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 90ceba3..ca64163 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -95,6 +95,8 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  // there is no interval to record
+  if (!timing_) return;
   std::chrono::time_point<std::chrono::system_clock> now =
       std::chrono::system_clock::now();
   double dt = std::chrono::duration<double>(now - time_).count();
-- 
2.43.0


From 6686e180da2ef518510342533caa3d898319ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 34/48] fix: apply the time factor in the velocity ramp time
 estimate

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index 01e267f..dbe4257 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -244,7 +244,7 @@ std::vector<double> estimateSegmentTimesVelocityRamp(
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
     vertices[i + 1].getConstraint(derivative_order::POSITION, &end);
-    double t = computeTimeVelocityRamp(start, end, v_max, a_max);
+    double t = computeTimeVelocityRamp(start, end, v_max, a_max) * time_factor;
     t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
-- 
2.43.0


From 40a9a5debb3ec168603651e5f9c5d55742e9dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 35/48] fix: small moves of a waypoint add up instead of being
 lost

---
 include/dynamic_trajectory_generator/dynamic_waypoint.hpp    | 3 +++
 .../dynamic_trajectory_generator/utils/traj_modifiers.hpp    | 3 ++-
 src/dynamic_waypoint.cpp                                     | 5 ++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_waypoint.hpp b/include/dynamic_trajectory_generator/dynamic_waypoint.hpp
index 48661bd..9c5f135 100644
--- a/include/dynamic_trajectory_generator/dynamic_waypoint.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_waypoint.hpp
@@ -16,6 +16,8 @@ namespace dynamic_traj_generator
     mav_trajectory_generation::Vertex vertex_;
     Eigen::Vector3d original_position_;
     Eigen::Vector3d current_position_;
+    // moves too small to modify the trajectory on their own
+    Eigen::Vector3d unapplied_difference_ = Eigen::Vector3d::Zero();
     double t_assigned_ = 0.0f;
     std::string name_ = "";
     int index_ = -1;
@@ -54,6 +56,7 @@ namespace dynamic_traj_generator
       original_position_ = current_position_;
       vertex_.addConstraint(0, current_position_);
       modifiers_.clear();
+      unapplied_difference_ = Eigen::Vector3d::Zero();
     };
     void resetWaypoint(const Eigen::Vector3d &position)
     {
diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 40f37ff..904df90 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -9,6 +9,7 @@
 #define SIGMA_FIXED 1.5
 #define SIGMA_COEFFICIENT 0.75
 #define MAX_REACTION_TIME 3
+#define MIN_INCREMENT 0.02
 
 class TrajModifier
 {
@@ -48,7 +49,7 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (sigma_ <= 0 || std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (sigma_ <= 0 || std::abs(increment_) < MIN_INCREMENT || std::abs(t - mu_) > max_reaction_time)
     {
       return 0;
     }
diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index b1972b7..3d070d9 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -29,6 +29,7 @@ namespace dynamic_traj_generator
   {
     modifiers_ = other.modifiers_;
     last_sigma_ = other.last_sigma_;
+    unapplied_difference_ = other.unapplied_difference_;
   }
 
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
@@ -38,7 +39,9 @@ namespace dynamic_traj_generator
     std::array<GaussianModifier, 3> modifiers;
     for (int i = 0; i < 3; i++)
     {
-      modifiers[i].setDifference(position[i] - current_position_[i]);
+      const double difference = position[i] - current_position_[i] + unapplied_difference_[i];
+      unapplied_difference_[i] = std::abs(difference) < MIN_INCREMENT ? difference : 0.0;
+      modifiers[i].setDifference(difference);
       modifiers[i].setModifierTime(t_assigned_);
 
       double sigma;
-- 
2.43.0


From d3dc8e7a54f6f4009f8d0477992ddc519f2a5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 36/48] fix: mean of integer samples is not an integer

---
 .../include/mav_trajectory_generation/timing.h                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index b93e026..5cc5bbc 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -68,10 +68,10 @@ class Accumulator {
 
   double Sum() const { return sum_; }
 
-  double Mean() const { return sum_ / total_samples_; }
+  double Mean() const { return static_cast<double>(sum_) / total_samples_; }
 
   double RollingMean() const {
-    return window_sum_ / std::min(window_samples_, N);
+    return static_cast<double>(window_sum_) / std::min(window_samples_, N);
   }
 
   double Max() const { return max_; }
-- 
2.43.0


From 8b9ea0437f6e51cce975f5a2e8cb34ac71a50db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 37/48] fix: report that a file could not be written completely

---
 subpackages/mav_trajectory_generation/src/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 368a78d..55dc978 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -187,7 +187,7 @@ bool segmentsToFile(
   fout << out.c_str();
   fout.close();
 
-  return true;
+  return !fout.fail();
 }
 
 bool segmentsFromFile(const std::string& filename,
@@ -271,7 +271,7 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   }
   fs << output;
   fs.close();
-  return true;
+  return !fs.fail();
 }
 
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 0c9bc63e36405bd1ff57e9efbddf58bb826e1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 38/48] fix: reading a directory as a trajectory file is a
 failure, not an exception

---
 subpackages/mav_trajectory_generation/src/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 55dc978..af0c093 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -208,7 +208,7 @@ bool segmentsFromFile(const std::string& filename,
       return false;  // No segments element.
     }
     return segmentsFromYaml(node[kSegmentsKey], segments);
-  } catch (const YAML::Exception& e) {
+  } catch (const std::exception& e) {  // Malformed or unreadable.
     LOG(WARNING) << "Malformed file " << filename << ": " << e.what();
     return false;
   }
-- 
2.43.0


From e239d72632681571f20352f2f22b5f74063fe634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 39/48] fix: stay at the end of the trajectory when its last
 waypoint has been moved

---
 src/dynamic_trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 60a0204..38b4625 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -462,8 +462,10 @@ namespace dynamic_traj_generator
     }
     if (local_time > traj.getMaxTime())
     {
+      // stay at the end, also when the last waypoint has been moved
+      if (order > 0) return Eigen::Vector3d::Zero();
+      global_time -= local_time - traj.getMaxTime();
       local_time = traj.getMaxTime();
-      // if (order > 0) return Eigen::Vector3d::Zero();
     }
 
     refs = traj.evaluate(local_time, order);
-- 
2.43.0


From 11c9ef5c41da9eecdc9b87d36b53e286e77f43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 40/48] fix: do not drop waypoints between the stitching points
 and the security zone

The second stitching point moved the start of the search for surviving
waypoints five computation times ahead of itself, so waypoints between it
and that moment were dropped without ever being visited. The security zone
compared waypoint times with a time of another scale.
---
 src/dynamic_trajectory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 38b4625..14d142b 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -548,7 +548,10 @@ namespace dynamic_traj_generator
       //                 computeSecurityTime(n_waypoints, new_parameters_.algorithm_time_constant);
       //
       // local_eval_t += 0.5f;  // FIXME: hardcoded
-      local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
+      if (i_waypoints_appended < N_WAYPOINTS_TO_APPEND - 1)
+      {
+        local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
+      }
     }
     // append the rest of the waypoints
 
@@ -725,7 +728,8 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    // the position of the reference on the time scale of the waypoints
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
-- 
2.43.0


From 3b924227a73bbb22017a83edea145f94240c7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 41/48] fix: compare waypoint times with the time of the
 reference

Waypoint times are on the time scale of the reference (time of the client
plus t_offset), but they were compared with the time of the client: waypoints
that had just been passed were flown again after a regeneration from scratch
or bent the reference when moved, and waypoints were reported as passed
before they were reached after a long computation from scratch.
---
 .../dynamic_trajectory_generator/dynamic_trajectory.hpp    | 2 +-
 src/dynamic_trajectory.cpp                                 | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 6a40500..2a5bac1 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -138,7 +138,7 @@ class DynamicTrajectory {
     // find values that are in t > parameters.last_local_time_evaluated
     // return a vector of waypoints 
     parameters_mutex_.lock();
-    double t = parameters_.last_global_time_evaluated;
+    double t = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     std::unique_lock<std::mutex> uniqueLock(dynamic_waypoints_mutex_);
     for (auto& waypoint : dynamic_waypoints_){
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 14d142b..2aee984 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -497,7 +497,8 @@ namespace dynamic_traj_generator
       if (waypoint.getName() == name && waypoint.getName() != "")
       {
         const std::lock_guard<std::mutex> lock3(parameters_mutex_);
-        waypoint.setCurrentPosition(position, parameters_.last_global_time_evaluated);
+        waypoint.setCurrentPosition(
+            position, parameters_.last_global_time_evaluated + parameters_.t_offset);
         modified = true;
         trajectory_regenerated_ = true;
       }
@@ -579,7 +580,7 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
@@ -655,7 +656,7 @@ namespace dynamic_traj_generator
 
     DYNAMIC_LOG("loading parameters");
     parameters_mutex_.lock();
-    double last_global_t_eval = parameters_.last_global_time_evaluated;
+    double last_global_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     double previous_t_global = parameters_.global_time_last_trajectory_generated;
     parameters_mutex_.unlock();
     DYNAMIC_LOG("parameters loaded");
-- 
2.43.0


From 6e290e058b37d96a3a040d822d83a546fa13121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 42/48] fix: waypoints handed back by the client keep nothing
 of their earlier trajectory

A waypoint obtained from the generator and passed to setWaypoints or
appendWaypoint again kept its old time and path corrections: it was dropped
when its old time lay before the stitching time, and the old corrections
bent the new path.
---
 src/dynamic_trajectory.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 2aee984..9e4ca0a 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -596,6 +596,13 @@ namespace dynamic_traj_generator
     }
   }
 
+  // waypoints handed in by the client may come from an earlier trajectory
+  static void forgetEarlierTrajectory(DynamicWaypoint &waypoint)
+  {
+    waypoint.resetWaypointWithCurrentPosition();
+    waypoint.setTime(0.0);
+  }
+
   DynamicWaypoint::Deque DynamicTrajectory::generateWaypointsForTheNextTrajectory()
   {
     DYNAMIC_LOG("Generating waypoints for the next trajectory");
@@ -615,11 +622,15 @@ namespace dynamic_traj_generator
     else
     {
       for (auto &waypoint : waypoints_to_be_set_)
+      {
         next_trajectory_waypoints.emplace_back(waypoint);
+        forgetEarlierTrajectory(next_trajectory_waypoints.back());
+      }
     }
     for (auto &waypoint : waypoints_to_be_added_)
     {
       next_trajectory_waypoints.emplace_back(waypoint);
+      forgetEarlierTrajectory(next_trajectory_waypoints.back());
     }
     for (auto &waypoint : waypoints_to_be_modified_)
     {
-- 
2.43.0


From e64a39d5861492e15978ace10d1cc79ff4654f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 43/48] fix: find all roots of a polynomial when the
 Jenkins-Traub iteration does not converge

---
 .../src/rpoly/rpoly_ak1.cpp                   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index e9d1240..2983a99 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -109,6 +109,26 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
   delete[] roots_real;
   delete[] roots_imag;
 
+  if (degree < n_coefficients - 1) {
+    // No convergence, some roots are missing: take the eigenvalues of the
+    // companion matrix, with the argument scaled such that the first and the
+    // last coefficient are of the same size.
+    degree = n_coefficients - 1;
+    roots->setZero(degree);
+    int n = degree;
+    while (n > 0 && coefficients_decreasing(n) == 0.0) n--;
+    const double scale = std::pow(
+        std::abs(coefficients_decreasing(n) / coefficients_decreasing(0)),
+        1.0 / n);
+    Eigen::MatrixXd companion = Eigen::MatrixXd::Zero(n, n);
+    for (int i = 0; i < n; ++i) {
+      companion(0, i) = -coefficients_decreasing(i + 1) /
+                        coefficients_decreasing(0) / std::pow(scale, i + 1);
+      if (i > 0) companion(i, i - 1) = 1.0;
+    }
+    if (n > 0) roots->head(n) = scale * companion.eigenvalues();
+  }
+
   if (degree > 0) {
     return true;
   } else {
-- 
2.43.0


From 8ebebd53e9dbf88c954bba988bed71e7e762add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 44/48] fix: leave the optimisation variables unbounded instead
 of bounding them at the largest number

---
 .../impl/polynomial_optimization_nonlinear_impl.h      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index e7bc61d..d9310c8 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -145,7 +145,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     // Set a lower bound on the segment time per segment to avoid numerical
     // issues.
     nlopt_->set_initial_step(initial_step);
-    nlopt_->set_upper_bounds(std::numeric_limits<double>::max());
+    nlopt_->set_upper_bounds(std::numeric_limits<double>::infinity());
     nlopt_->set_lower_bounds(kOptimizationTimeLowerBound);
     nlopt_->set_min_objective(
         &PolynomialOptimizationNonLinear<N>::objectiveFunctionTime, this);
@@ -196,7 +196,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
   try {
     // Set a lower bound on the segment time per segment to avoid numerical
     // issues.
-    nlopt_->set_upper_bounds(std::numeric_limits<double>::max());
+    nlopt_->set_upper_bounds(std::numeric_limits<double>::infinity());
     nlopt_->set_lower_bounds(kOptimizationTimeLowerBound);
     nlopt_->set_min_objective(&PolynomialOptimizationNonLinear<
                                   N>::objectiveFunctionTimeMellingerOuterLoop,
@@ -474,7 +474,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
   // Set segment time constraints
   for (size_t l = 0; l < n_segments; ++l) {
     lower_bounds.push_back(kOptimizationTimeLowerBound);
-    upper_bounds.push_back(std::numeric_limits<double>::max());
+    upper_bounds.push_back(std::numeric_limits<double>::infinity());
   }
   // Append free endpoint derivative constraints
   lower_bounds.insert(std::end(lower_bounds), std::begin(lower_bounds_free),
@@ -834,9 +834,9 @@ void PolynomialOptimizationNonLinear<_N>::
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
-                       std::numeric_limits<double>::lowest());
+                       -std::numeric_limits<double>::infinity());
   upper_bounds->resize(dim * n_free_constraints,
-                       std::numeric_limits<double>::max());
+                       std::numeric_limits<double>::infinity());
 
   // Add higher order derivative constraints (v_max and a_max)
   // Check at each vertex which of the derivatives is a free derivative.
-- 
2.43.0


From 3754eff73e99b17aaff71c297907f552fb46f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:40 +0000
Subject: [PATCH 45/48] fix: do not end the nonlinear optimisation with
 something worse than its start

---
 .../polynomial_optimization_nonlinear_impl.h  | 39 ++++++++++++++++---
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index d9310c8..6d42970 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -134,6 +134,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
   std::vector<double> initial_step, segment_times;
 
   poly_opt_.getSegmentTimes(&segment_times);
+  const std::vector<double> initial_solution = segment_times;
   const size_t n_segments = segment_times.size();
 
   initial_step.reserve(n_segments);
@@ -161,13 +162,25 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     result = nlopt_->optimize(segment_times, final_cost);
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
   // The last evaluation is not necessarily the best one: go back to the optimum.
   std::vector<double> no_gradient;
-  objectiveFunctionTime(segment_times, no_gradient, this);
+  final_cost = objectiveFunctionTime(segment_times, no_gradient, this);
   --optimization_info_.n_iterations;
+  // The optimiser may have started somewhere else (away from the bounds) or
+  // failed: do not end up worse than the initial solution.
+  if (optimization_parameters_.use_soft_constraints ||
+      inequality_constraints_.empty()) {
+    const double initial_cost =
+        objectiveFunctionTime(initial_solution, no_gradient, this);
+    --optimization_info_.n_iterations;
+    if (!(initial_cost <= final_cost)) {
+      objectiveFunctionTime(segment_times, no_gradient, this);
+      --optimization_info_.n_iterations;
+    }
+  }
   for (const std::shared_ptr<ConstraintData>& constraint :
        inequality_constraints_) {
     evaluateMaximumMagnitudeConstraint(segment_times, no_gradient,
@@ -522,24 +535,38 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
 
   double final_cost = std::numeric_limits<double>::max();
   int result;
+  std::vector<double> solution = initial_solution;
 
   try {
     timing::Timer timer_solve("optimize_nonlinear_full_total_time");
 
-    result = nlopt_->optimize(initial_solution, final_cost);
+    result = nlopt_->optimize(solution, final_cost);
     timer_solve.Stop();
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
   // The last evaluation is not necessarily the best one: go back to the optimum.
   std::vector<double> no_gradient;
-  objectiveFunctionTimeAndConstraints(initial_solution, no_gradient, this);
+  final_cost =
+      objectiveFunctionTimeAndConstraints(solution, no_gradient, this);
   --optimization_info_.n_iterations;
+  // The optimiser may have started somewhere else (away from the bounds) or
+  // failed: do not end up worse than the initial solution.
+  if (optimization_parameters_.use_soft_constraints ||
+      inequality_constraints_.empty()) {
+    const double initial_cost = objectiveFunctionTimeAndConstraints(
+        initial_solution, no_gradient, this);
+    --optimization_info_.n_iterations;
+    if (!(initial_cost <= final_cost)) {
+      objectiveFunctionTimeAndConstraints(solution, no_gradient, this);
+      --optimization_info_.n_iterations;
+    }
+  }
   for (const std::shared_ptr<ConstraintData>& constraint :
        inequality_constraints_) {
-    evaluateMaximumMagnitudeConstraint(initial_solution, no_gradient,
+    evaluateMaximumMagnitudeConstraint(solution, no_gradient,
                                        constraint.get());
   }
 
-- 
2.43.0


From 5d7ee7df738de81a97f064e743628a2a7ef3642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 46/48] fix: bound the free derivative that has the limit, not
 another one

---
 .../impl/polynomial_optimization_nonlinear_impl.h              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 6d42970..d746651 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -857,7 +857,6 @@ void PolynomialOptimizationNonLinear<_N>::
 
   const size_t n_free_constraints = poly_opt_.getNumberFreeConstraints();
   const size_t dim = poly_opt_.getDimension();
-  const int derivative_to_optimize = poly_opt_.getDerivativeToOptimize();
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
@@ -876,7 +875,7 @@ void PolynomialOptimizationNonLinear<_N>::
     const double value_hc = constraint_data->value;
 
     for (size_t v = 0; v < vertices.size(); ++v) {
-      for (int deriv = 0; deriv <= derivative_to_optimize; ++deriv) {
+      for (int deriv = 0; deriv < N / 2; ++deriv) {
         if (!vertices[v].hasConstraint(deriv)) {
           if (deriv == derivative_hc) {
             for (size_t k = 0; k < dim; ++k) {
-- 
2.43.0


From d267f7f25bbde27e4e614efa5bc7b29cac9b4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 47/48] fix: a move no longer applies to waypoints requested
 after it

---
 src/dynamic_trajectory.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 9e4ca0a..d67278f 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -117,6 +117,10 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
+    // waypoints that are still waiting for a regeneration are moved at once: the move does not
+    // concern those requested later
+    resetWaypointThroughDeque(waypoints_to_be_set_, name, position);
+    resetWaypointThroughDeque(waypoints_to_be_added_, name, position);
     if (generate_new_traj) {
       generate_new_traj_ = true;
     }
@@ -307,9 +311,6 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
-          // waypoints that are still waiting for a regeneration are moved as well
-          resetWaypointThroughDeque(waypoints_to_be_set_, modification.first, modification.second);
-          resetWaypointThroughDeque(waypoints_to_be_added_, modification.first, modification.second);
         }
         waypoints_to_be_modified_.clear();
       }
@@ -618,6 +619,10 @@ namespace dynamic_traj_generator
       next_trajectory_waypoints = (dynamic_waypoints_);
       filterPassedWaypoints(next_trajectory_waypoints);
       updateDynamicWaypointsPosition(next_trajectory_waypoints);
+      for (auto &waypoint : waypoints_to_be_modified_)
+      {
+        resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
+      }
     }
     else
     {
@@ -632,10 +637,6 @@ namespace dynamic_traj_generator
       next_trajectory_waypoints.emplace_back(waypoint);
       forgetEarlierTrajectory(next_trajectory_waypoints.back());
     }
-    for (auto &waypoint : waypoints_to_be_modified_)
-    {
-      resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
-    }
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
-- 
2.43.0


From 02c390a7def0af4c5690671ab729e8524958aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:31 +0000
Subject: [PATCH 48/48] fix: a linear optimiser used again for a problem
 without free derivatives

The free parameters of the problem solved before stayed and did not fit (assertion, or memory beyond the vector).
---
 .../impl/polynomial_optimization_linear_impl.h                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..8cae8eb 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -344,6 +344,8 @@ bool PolynomialOptimization<_N>::solveLinear() {
     DLOG(WARNING)
         << "No free constraints set in the vertices. Polynomial can "
            "not be optimized. Outputting fully constrained polynomial.";
+    // This object may have been used for a problem with free constraints.
+    for (Eigen::VectorXd& dp : free_constraints_compact_) dp.resize(0);
     updateSegmentsFromCompactConstraints();
     return true;
   }
-- 
2.43.0

