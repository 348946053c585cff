From 58680281461cf2b0e74186c5542f1c554db1dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 01/12] fix: apply gravity as a force (mass * g) in the linear
 dynamics

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..c6479a6 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,8 +187,9 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
-        model_.get_stochastic_force(), external_force, state_.dynamics.force);
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(), model_.get_stochastic_force(), external_force,
+        state_.dynamics.force);
 
     Vector3 position_derivative =
         get_vehicle_position_derivative(state_.kinematics.linear_velocity);
-- 
2.43.0


From a85c0c6d8dfa915abbb074af19edf51d0fae9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 02/12] fix: split long time steps into sub-steps that cover
 exactly dt

---
 .../multirotor_dynamic_model/dynamics.hpp              | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index c6479a6..738d751 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -34,6 +34,8 @@
 #ifndef MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 #define MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include "multirotor_dynamic_model/common/state.hpp"
@@ -148,10 +150,12 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
+      // Split the step into equal sub-steps that cover exactly dt
+      const int num_iter    = static_cast<int>(std::ceil(dt / LOWEST_UPDATE_FREQUENCY));
+      const Scalar sub_step = std::min(static_cast<Scalar>(dt / num_iter),
+                                       static_cast<Scalar>(LOWEST_UPDATE_FREQUENCY));
       for (int i = 0; i < num_iter; i++) {
-        process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
-                               enable_noise);
+        process_euler_explicit(actuation_angular_velocity, sub_step, external_force, enable_noise);
       }
       return;
     }
-- 
2.43.0


From 6c889d42571b3a2d9689b5091ce2e9c9e5f169b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 03/12] fix: dereference the pointer in Dynamics::set_state and
 set_model

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 738d751..65a4f20 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -267,7 +267,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -285,7 +285,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From d2c5f51daf05bc1c021f9d77a4a2698c8e08b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 04/12] fix: store the mixer matrix that
 Model::get_mixer_matrix returns

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..310694a 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -169,7 +169,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +196,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -477,9 +477,9 @@ public:
    *
    * Get the mixer matrix
    *
-   * @return MatrixN6 Mixer matrix
+   * @return Matrix6N Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From cb412dee9135b0b768ef4b9d893efa03afa7a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 05/12] fix: reject model parameters with a wrong number of
 motors

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 310694a..47407c2 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -510,6 +510,10 @@ public:
       std::cout << "ERROR: vehicle aero moment coefficient must be positive definite" << std::endl;
       return false;
     }
+    if (params.motors_params.size() != num_rotors) {
+      std::cout << "ERROR: number of motors must be equal to the number of rotors" << std::endl;
+      return false;
+    }
     for (auto &motor : params.motors_params) {
       if (motor.max_speed < motor.min_speed) {
         std::cout << "ERROR: motor max speed must be greater than min speed" << std::endl;
-- 
2.43.0


From d08037cca8d897410bde2360967655955fc71ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 06/12] fix: rotate forces from world to body for the IMU and
 back in the odometry

---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..44de6a1 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..2974b69 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -241,9 +241,10 @@ public:
    * @param dt Scalar Time step (s)
    */
   inline void update_imu(const Scalar dt) {
-    // Convert force from world to body frame
+    // Convert force from world to body frame, as force per unit of mass
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    dynamics_.get_state().dynamics.force / dynamics_.get_model_const().get_mass(),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From 1edce2987ef0c70b3560ff23bc9cd9e5e49cc297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 07/12] fix: use the precision of the simulator in
 set_control_mode

---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2974b69..d65fca2 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -319,10 +319,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From 76452835bab495213b3b0737a363fab285cc07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 08/12] fix: return the IMU measurement pair by value, not a
 reference to a temporary

---
 multirotor_simulator/imu_simulator/imu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..bab2fd3 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -236,7 +236,7 @@ public:
    * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From 24a95b253415ec8e834c4085efc9075ebe17848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 09/12] fix: take the parameters of all the rotors in
 IndiController

---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..d46e61e 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(
+      const IndiControllerParams<P, num_rotors> &params = IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From 540383d346677d342c3942a17a703a0e4391178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 10/12] fix: do not report saturation limits in PID get_params
 when saturation is disabled

---
 pid_controller/include/pid_controller/pid.hpp    | 4 +++-
 pid_controller/include/pid_controller/pid_1d.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..42cdda5 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -390,7 +390,9 @@ public:
     params.alpha                        = get_alpha();
     params.reset_integral_flag          = get_reset_integral_saturation_flag();
     params.proportional_saturation_flag = get_proportional_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    if (saturation_flag_) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..1482e0f 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -335,7 +335,9 @@ public:
     params.antiwindup_cte      = get_anti_windup();
     params.alpha               = get_alpha();
     params.reset_integral_flag = get_reset_integral_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    if (saturation_flag_) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
-- 
2.43.0


From 27521ee5a400d14ecf46d06af54089f5ebf5a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:51 +0000
Subject: [PATCH 11/12] fix: reset the saturated PID integral when the error
 changes sign

---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 42cdda5..0a482d0 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -632,7 +632,7 @@ protected:
     // axis
     if (reset_integral_flag_ != 0) {
       for (int j = 0; j < proportional_error.size(); j++) {
-        if (std::abs(integral_accum_error_[j]) > antiwindup_cte_[j]) {
+        if (std::abs(integral_accum_error_[j]) >= antiwindup_cte_[j]) {
           if (std::signbit(integral_accum_error_[j]) != std::signbit(proportional_error[j])) {
             integral_accum_error_[j] = 0.0;
           }
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 1482e0f..e053317 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -537,7 +537,7 @@ protected:
     // If sing of the error changes and the integrator is saturated, reset the
     // integral for each axis
     if (reset_integral_flag_ != 0) {
-      if (std::abs(integral_accum_error_) > antiwindup_cte_) {
+      if (std::abs(integral_accum_error_) >= antiwindup_cte_) {
         if (std::signbit(integral_accum_error_) != std::signbit(proportional_error)) {
           integral_accum_error_ = 0.0;
         }
-- 
2.43.0


From 8fd525e1899aa5ee9c0c4993bd441b2c05c22ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:04 +0000
Subject: [PATCH 12/12] fix: do not keep the floor force when a dynamics update
 is refused

update_dynamics() stored the force of the floor before the step; when the step was refused
(dt <= 0 throws) the force stayed and was applied to a later step of a vehicle above the floor.
---
 multirotor_simulator/multirotor_simulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index d65fca2..9c34281 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -136,11 +136,13 @@ public:
    * @param dt Scalar Time step (s)
    */
   void update_dynamics(const Scalar dt) {
+    Vector3 external_force = external_force_;
     if (floor_collision_enable_ && dynamics_.get_state().kinematics.position.z() < floor_height_) {
-      external_force_ =
+      external_force =
           -dynamics_.get_model_const().get_gravity() * dynamics_.get_model_const().get_mass();
     }
-    dynamics_.process_euler_explicit(actuation_motors_angular_velocity_, dt, external_force_,
+    // Throws if dt is not positive: the floor force must not be left for a later step
+    dynamics_.process_euler_explicit(actuation_motors_angular_velocity_, dt, external_force,
                                      !floor_collision_);
     external_force_  = Vector3::Zero();
     floor_collision_ = false;
-- 
2.43.0

