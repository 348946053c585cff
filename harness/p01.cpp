// P01: whatever is left out takes its documented neutral value: an object built with
// some parameters left out, or called with arguments left out, is indistinguishable
// from one in which the same values were written down.
#include "simops.hpp"
using namespace pbt;
using namespace ref;
using namespace simops;

template <typename T, typename U>
void leave(Ctx &c, bool out, T &lean, T &full, const U &neutral, const char *what, int &left) {
  if (out) {
    left++;
    full = neutral;
    if constexpr (std::is_arithmetic_v<T>) {
      c.check(lean == full, std::string("default of ") + what);
    } else {
      c.check(T(lean) == T(full), std::string("default of ") + what);
    }
  } else {
    lean = full;
  }
}
template <typename P>
void leave(Ctx &c, bool out, Eigen::Quaternion<P> &lean, Eigen::Quaternion<P> &full, const Eigen::Quaternion<P> &neutral,
           const char *what, int &left) {
  if (out) {
    left++;
    full = neutral;
    c.check(lean.coeffs() == full.coeffs(), std::string("default of ") + what);
  } else {
    lean = full;
  }
}

template <typename P, int D>
void lean_pid(Ctx &c, pid_controller::PIDParams<P, D> &lean, pid_controller::PIDParams<P, D> &full, int &left) {
  using V = Eigen::Matrix<P, D, 1>;
  V z = V::Zero(), o = V::Ones();
  auto out = [&] { return c.chance(1, 3); };
  leave(c, out(), lean.Kp_gains, full.Kp_gains, z, "Kp", left);
  leave(c, out(), lean.Ki_gains, full.Ki_gains, z, "Ki", left);
  leave(c, out(), lean.Kd_gains, full.Kd_gains, z, "Kd", left);
  leave(c, out(), lean.antiwindup_cte, full.antiwindup_cte, z, "the anti-windup", left);
  leave(c, out(), lean.alpha, full.alpha, o, "the derivative filter", left);
  leave(c, out(), lean.reset_integral_flag, full.reset_integral_flag, false, "the integral reset flag", left);
  leave(c, out(), lean.proportional_saturation_flag, full.proportional_saturation_flag, false, "the proportional flag", left);
  bool lim = out();
  leave(c, lim, lean.upper_output_saturation, full.upper_output_saturation, z, "the upper limit", left);
  leave(c, lim, lean.lower_output_saturation, full.lower_output_saturation, z, "the lower limit", left);
}

template <typename P, int D>
void pid(Ctx &c) {
  using Vec = Eigen::Matrix<P, D, 1>;
  using Pid = pid_controller::PID<P, D>;
  auto full = refpid::params<P, D>(c);
  pid_controller::PIDParams<P, D> lean;
  int left = 0;
  lean_pid<P, D>(c, lean, full, left);
  Pid a(lean), b(full, false);
  if (c.chance(1, 4)) {  // default construction, then the parameters
    a = Pid();
    a.update_pid_params(lean);
  }
  // nothing computed yet: nothing reported
  const Vec z = Vec::Zero();
  c.check(a.get_output() == z && a.get_proportional_error() == z && a.get_derivative_error() == z &&
              a.get_proportional_error_contribution() == z && a.get_integral_error_contribution() == z &&
              a.get_derivative_error_contribution() == z,
          "a new PID reports something");
  Vec e = Vec::Ones(), de;
  for (int k = 0, n = c.range(1, 8); k < n; k++) {
    if (c.chance(1, 6)) {
      auto t = refpid::params<P, D>(c, refpid::PER_AXIS);
      a.set_output_saturation(t.upper_output_saturation, t.lower_output_saturation);
      b.set_output_saturation(t.upper_output_saturation, t.lower_output_saturation, false);
      c.check(!a.get_proportional_saturation_flag(), "default saturation is proportional");
      left++;
    }
    e    = refpid::error<P, D>(c, e, true);
    P dt = refpid::step_time<P>(c);
    for (int j = 0; j < D; j++) de[j] = P(c.sreal(50));
    bool ed = c.chance(1, 3);
    Vec x   = ed ? a.compute_control(dt, e, de) : a.compute_control(dt, e);
    Vec y   = ed ? b.compute_control(dt, e, de) : b.compute_control(dt, e);
    c.check(x == y, "PID with parameters left out");
  }
  {
    auto t = refpid::params<P, D>(c, refpid::PER_AXIS);
    Vec o;
    for (int j = 0; j < D; j++) o[j] = P(c.sreal(200));
    c.check(Pid::saturate_output(o, t.upper_output_saturation, t.lower_output_saturation) ==
                Pid::saturate_output(o, t.upper_output_saturation, t.lower_output_saturation, false),
            "saturate_output with the flag left out");
  }
  if (left) c.nontrivial();
}

template <typename P>
void pid1(Ctx &c) {
  using Pid = pid_1d_controller::PID<P>;
  auto g    = refpid::params<P, 1>(c, c.u(2) ? refpid::PER_AXIS : refpid::NONE);
  pid_1d_controller::PIDParams<P> full, lean;
  full.Kp_gains                = g.Kp_gains[0];
  full.Ki_gains                = g.Ki_gains[0];
  full.Kd_gains                = g.Kd_gains[0];
  full.antiwindup_cte          = g.antiwindup_cte[0];
  full.alpha                   = g.alpha[0];
  full.reset_integral_flag     = g.reset_integral_flag;
  full.upper_output_saturation = g.upper_output_saturation[0];
  full.lower_output_saturation = g.lower_output_saturation[0];
  int left                     = 0;
  auto out                     = [&] { return c.chance(1, 3); };
  leave(c, out(), lean.Kp_gains, full.Kp_gains, P(0), "Kp", left);
  leave(c, out(), lean.Ki_gains, full.Ki_gains, P(0), "Ki", left);
  leave(c, out(), lean.Kd_gains, full.Kd_gains, P(0), "Kd", left);
  leave(c, out(), lean.antiwindup_cte, full.antiwindup_cte, P(0), "the anti-windup", left);
  leave(c, out(), lean.alpha, full.alpha, P(1), "the derivative filter", left);
  leave(c, out(), lean.reset_integral_flag, full.reset_integral_flag, false, "the integral reset flag", left);
  bool lim = out();
  leave(c, lim, lean.upper_output_saturation, full.upper_output_saturation, P(0), "the upper limit", left);
  leave(c, lim, lean.lower_output_saturation, full.lower_output_saturation, P(0), "the lower limit", left);
  Pid a(lean), b(full, false);
  if (c.chance(1, 4)) {
    a = Pid();
    a.update_params(lean);
  }
  Eigen::Matrix<P, 1, 1> e = Eigen::Matrix<P, 1, 1>::Ones();
  for (int k = 0, n = c.range(1, 8); k < n; k++) {
    e       = refpid::error<P, 1>(c, e, true);
    P dt    = refpid::step_time<P>(c), de = P(c.sreal(50));
    bool ed = c.chance(1, 3);
    P x     = ed ? a.compute_control(dt, e[0], de) : a.compute_control(dt, e[0]);
    P y     = ed ? b.compute_control(dt, e[0], de) : b.compute_control(dt, e[0]);
    c.check(x == y, "scalar PID with parameters left out");
  }
  if (left) c.nontrivial();
}

template <typename P, int N>
multirotor::model::ModelParams<P, N> lean_model(Ctx &c, multirotor::model::ModelParams<P, N> &full, int &left) {
  using MP = multirotor::model::ModelParams<P, N>;
  MP lean;
  auto out = [&] { return c.chance(1, 3); };
  c.check(int(lean.motors_params.size()) == N, "default number of rotors");
  for (size_t i = 0; i < size_t(N); i++) {
    gen::Motor<P> m;
    auto &f = full.motors_params[i];
    leave(c, out(), m.motor_rotation_direction, f.motor_rotation_direction, 1, "the rotation direction", left);
    if (out()) {
      left++;
      f.pose = gen::Motor<P>::IsometryTypeP::Identity();
      c.check(m.pose.matrix() == f.pose.matrix(), "default of the rotor pose");
    } else {
      m.pose = f.pose;
    }
    m.thrust_coefficient   = f.thrust_coefficient;
    m.torque_coefficient   = f.torque_coefficient;
    m.min_speed            = f.min_speed;
    m.max_speed            = f.max_speed;
    m.time_constant        = f.time_constant;
    m.rotational_inertia   = f.rotational_inertia;
    lean.motors_params[i]  = m;
  }
  lean.vehicle_mass    = full.vehicle_mass;
  lean.vehicle_inertia = full.vehicle_inertia;
  leave(c, out(), lean.vehicle_drag_coefficient, full.vehicle_drag_coefficient, P(0), "the drag coefficient", left);
  leave(c, out(), lean.vehicle_aero_moment_coefficient, full.vehicle_aero_moment_coefficient, gen::M3<P>(gen::M3<P>::Zero()),
        "the aerodynamic moment coefficient", left);
  leave(c, out(), lean.gravity, full.gravity, gen::V3<P>(P(0), P(0), P(-9.81)), "gravity", left);
  leave(c, out(), lean.force_process_noise_auto_correlation, full.force_process_noise_auto_correlation, P(0), "the force noise", left);
  leave(c, out(), lean.moment_process_noise_auto_correlation, full.moment_process_noise_auto_correlation, P(0), "the moment noise", left);
  return lean;
}
template <typename P, int N>
multirotor::state::State<P, N> lean_state(Ctx &c, multirotor::state::State<P, N> &full, int &left) {
  multirotor::state::State<P, N> s;
  using V = gen::V3<P>;
  using W = Eigen::Matrix<P, N, 1>;
  V z     = V::Zero();
  W w     = W::Zero();
  auto out = [&] { return c.chance(1, 3); };
  auto &k = s.kinematics, &f = full.kinematics;
  leave(c, out(), k.position, f.position, z, "the position", left);
  leave<P>(c, out(), k.orientation, f.orientation, Eigen::Quaternion<P>(P(1), P(0), P(0), P(0)), "the attitude", left);
  leave(c, out(), k.linear_velocity, f.linear_velocity, z, "the velocity", left);
  leave(c, out(), k.angular_velocity, f.angular_velocity, z, "the body rates", left);
  leave(c, out(), k.linear_acceleration, f.linear_acceleration, z, "the acceleration", left);
  leave(c, out(), k.angular_acceleration, f.angular_acceleration, z, "the angular acceleration", left);
  leave(c, out(), s.dynamics.force, full.dynamics.force, z, "the force", left);
  leave(c, out(), s.dynamics.torque, full.dynamics.torque, z, "the torque", left);
  leave(c, out(), s.actuators.motor_angular_velocity, full.actuators.motor_angular_velocity, w, "the rotor speeds", left);
  leave(c, out(), s.actuators.motor_angular_acceleration, full.actuators.motor_angular_acceleration, w, "the rotor accelerations", left);
  return s;
}

template <typename P, int N>
void dynamics(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  using V   = gen::V3<P>;
  auto full = gen::model_params<P, N>(c, true);
  auto fs   = gen::state<P, N>(c, full);
  int left  = 0;
  auto lean = lean_model<P, N>(c, full, left);
  auto ls   = lean_state<P, N>(c, fs, left);
  int seed  = c.u(2) ? 0 : 1 + int(c.u(1000));
  multirotor::dynamics::DynamicsParams<P, N> dp;
  dp.model_params = lean;
  dp.state        = ls;
  if (seed) dp.model_seed = seed;
  left += seed == 0;
  Dyn a = c.u(2) || seed ? Dyn(dp) : Dyn(lean, ls), b(full, seed, fs);
  if (seed == 0 && c.chance(1, 4)) a = Dyn(multirotor::model::Model<P, N>(lean), ls);
  c.check(same_state<P, N>(a.get_state(), b.get_state()), "initial state with fields left out");
  for (int k = 0, n = c.range(1, 6); k < n; k++) {
    auto w = gen::command<P, N>(c, full);
    V ext  = gen::vec<P>(c, 10);
    P dt   = gen::small_dt<P>(c);
    switch (c.u(3)) {
      case 0:
        a.process_euler_explicit(w, dt);
        b.process_euler_explicit(w, dt, V::Zero(), true);
        left++;
        break;
      case 1:
        a.process_euler_explicit(w, dt, ext);
        b.process_euler_explicit(w, dt, ext, true);
        left++;
        break;
      default: {
        bool noise = c.u(2);
        a.process_euler_explicit(w, dt, ext, noise);
        b.process_euler_explicit(w, dt, ext, noise);
      }
    }
    if (!gen::bounded(b.get_state()) || !b.get_state().dynamics.force.allFinite() || !b.get_state().dynamics.torque.allFinite()) break;
    c.check(same_state<P, N>(a.get_state(), b.get_state()), "dynamics with parameters left out");
  }
  if (left) c.nontrivial();
}

template <typename P>
void sensors(Ctx &c) {
  using V  = gen::V3<P>;
  using Q  = Eigen::Quaternion<P>;
  int left = 0;
  Q one(P(1), P(0), P(0), P(0));
  auto out  = [&] { return c.chance(1, 3); };
  auto full = gensim::imu_params<P>(c, true);
  imu::IMUParams<P> lean;
  leave(c, out(), lean.gyro_noise_var, full.gyro_noise_var, P(0), "the gyroscope noise", left);
  leave(c, out(), lean.accel_noise_var, full.accel_noise_var, P(0), "the accelerometer noise", left);
  leave(c, out(), lean.gyro_bias_noise_autocorr_time, full.gyro_bias_noise_autocorr_time, P(0), "the gyroscope bias noise", left);
  leave(c, out(), lean.accel_bias_noise_autocorr_time, full.accel_bias_noise_autocorr_time, P(0), "the accelerometer bias noise", left);
  leave<P>(c, out(), lean.imu_orientation, full.imu_orientation, one, "the sensor orientation", left);
  leave(c, out(), lean.seed, full.seed, 0, "the sensor seed", left);
  imu::IMU<P> a(lean), b(full);
  if (c.chance(1, 3)) {  // the trailing arguments left out
    int keep = int(c.u(6));
    left += 6 - keep;
    auto f                           = full;
    if (keep < 6) f.seed             = 0;
    if (keep < 5) f.imu_orientation  = one;
    if (keep < 4) f.accel_bias_noise_autocorr_time = 0;
    if (keep < 3) f.gyro_bias_noise_autocorr_time  = 0;
    if (keep < 2) f.accel_noise_var  = 0;
    if (keep < 1) f.gyro_noise_var   = 0;
    b = imu::IMU<P>(f);
    switch (keep) {
      case 0: a = imu::IMU<P>(); break;
      case 1: a = imu::IMU<P>(f.gyro_noise_var); break;
      case 2: a = imu::IMU<P>(f.gyro_noise_var, f.accel_noise_var); break;
      case 3: a = imu::IMU<P>(f.gyro_noise_var, f.accel_noise_var, f.gyro_bias_noise_autocorr_time); break;
      case 4:
        a = imu::IMU<P>(f.gyro_noise_var, f.accel_noise_var, f.gyro_bias_noise_autocorr_time, f.accel_bias_noise_autocorr_time);
        break;
      default:
        a = imu::IMU<P>(f.gyro_noise_var, f.accel_noise_var, f.gyro_bias_noise_autocorr_time, f.accel_bias_noise_autocorr_time,
                        f.imu_orientation);
    }
    c.cls("constructor arguments left out");
  }
  V z = V::Zero();
  c.check(a.get_measurement_gyro() == z && a.get_measurement_accel() == z, "a new IMU reports something");
  imu::InertialOdometryParams<P> lo, fo;
  fo.alpha                     = P(c.uniform(0.1, 1));
  fo.initial_world_orientation = gen::quat<P>(c);
  leave(c, out(), lo.alpha, fo.alpha, P(1), "the filter coefficient", left);
  leave<P>(c, out(), lo.initial_world_orientation, fo.initial_world_orientation, one, "the initial orientation", left);
  imu::InertialOdometry<P> u(lo), v(fo);
  if (c.chance(1, 4)) {
    if (c.u(2)) {
      u = imu::InertialOdometry<P>();
      v = imu::InertialOdometry<P>(P(1), one);
    } else {
      u = imu::InertialOdometry<P>(fo.alpha);
      v = imu::InertialOdometry<P>(fo.alpha, one);
    }
    left++;
    c.cls("constructor arguments left out");
  }
  c.check(u.get_position() == z && u.get_linear_velocity() == z && u.get_angular_velocity() == z && u.get_linear_acceleration() == z &&
              u.get_orientation().coeffs() == v.get_orientation().coeffs(),
          "a new odometry has moved");
  for (int k = 0, n = c.range(1, 5); k < n; k++) {
    P dt = P(c.logpos(1e-3, 0.1));
    V f = gen::vec<P>(c, 20), w = gen::vec<P>(c, 10), g1, a1, g2, a2;
    a.update(dt, f, w);
    b.update(dt, f, w);
    a.get_measurement(g1, a1);
    b.get_measurement(g2, a2);
    c.check(g1 == g2 && a1 == a2, "IMU with parameters left out");
    u.update(g1, a1, dt);
    v.update(g2, a2, dt);
    c.check(u.get_position() == v.get_position() && u.get_linear_velocity() == v.get_linear_velocity() &&
                u.get_orientation().coeffs() == v.get_orientation().coeffs() && u.get_angular_velocity() == v.get_angular_velocity() &&
                u.get_linear_acceleration() == v.get_linear_acceleration(),
            "odometry with parameters left out");
  }
  if (left) c.nontrivial();
}

template <typename P, int N>
multirotor::controller::ControllerParams<P, N> lean_ctl(Ctx &c, multirotor::controller::ControllerParams<P, N> &full, int &left) {
  using M6 = Eigen::Matrix<P, N, 6>;
  multirotor::controller::ControllerParams<P, N> lean;
  auto out = [&] { return c.chance(1, 4); };
  auto &la = lean.acro_controller_params, &fa = full.acro_controller_params;
  leave(c, out(), la.vehicle_mass, fa.vehicle_mass, P(0), "the controller's mass", left);
  leave(c, out(), la.kp_rot, fa.kp_rot, gen::M3<P>(gen::M3<P>::Zero()), "the attitude gain", left);
  leave(c, out(), la.gravity, fa.gravity, gen::V3<P>(P(0), P(0), P(-9.81)), "the controller's gravity", left);
  auto &li = lean.indi_controller_params, &fi = full.indi_controller_params;
  leave(c, out(), li.inertia, fi.inertia, gen::M3<P>(gen::M3<P>::Zero()), "the controller's inertia", left);
  leave(c, out(), li.mixer_matrix_inverse, fi.mixer_matrix_inverse, M6(M6::Zero()), "the inverse mixer", left);
  lean_pid<P, 3>(c, li.pid_params, fi.pid_params, left);
  lean_pid<P, 3>(c, lean.position_controller_params.pid_params, full.position_controller_params.pid_params, left);
  lean_pid<P, 3>(c, lean.velocity_controller_params.pid_params, full.velocity_controller_params.pid_params, left);
  lean_pid<P, 3>(c, lean.trajectory_controller_params.pid_params, full.trajectory_controller_params.pid_params, left);
  return lean;
}

template <typename P, int N>
void simulator(Ctx &c) {
  using S   = Sim<P, N>;
  using V   = gen::V3<P>;
  auto full = gensim::params<P, N>(c, true);
  multirotor::SimulatorParams<P, N> lean;
  int left = 0;
  lean.dynamics_params.model_params = lean_model<P, N>(c, full.dynamics_params.model_params, left);
  lean.dynamics_params.state        = lean_state<P, N>(c, full.dynamics_params.state, left);
  leave(c, c.chance(1, 3), lean.dynamics_params.model_seed, full.dynamics_params.model_seed, 0, "the model seed", left);
  lean.controller_params = lean_ctl<P, N>(c, full.controller_params, left);
  Eigen::Quaternion<P> one(P(1), P(0), P(0), P(0));
  if (c.chance(1, 3)) {
    full.imu_params      = imu::IMUParams<P>();
    full.imu_params.seed = 0;
    left++;
  } else {
    lean.imu_params = full.imu_params;
  }
  leave(c, c.chance(1, 3), lean.inertial_odometry_params.alpha, full.inertial_odometry_params.alpha, P(1), "the filter coefficient", left);
  leave<P>(c, c.chance(1, 3), lean.inertial_odometry_params.initial_world_orientation,
           full.inertial_odometry_params.initial_world_orientation, one, "the initial orientation", left);
  S a(lean), b(full);
  c.check(!a.get_armed() && !a.get_floor_collision_enabled() && a.get_floor_height() == P(0) &&
              a.get_control_mode() == ControlMode::MOTOR_W && a.get_yaw_control_mode() == YawControlMode::ANGLE,
          "initial modes");
  c.check(a.get_reference_position() == V::Zero() && a.get_reference_velocity() == V::Zero() && a.get_reference_acceleration() == V::Zero() &&
              a.get_reference_angular_velocity() == V::Zero() && a.get_reference_thrust() == P(0) && a.get_reference_yaw() == P(0) &&
              a.get_reference_yaw_rate() == P(0) && a.get_external_force() == V::Zero() && a.get_actuation_motors_angular_velocity().isZero(0) &&
              a.get_reference_motors_angular_velocity().isZero(0),
          "initial references");
  const auto &k = a.get_controller_const();
  c.check(k.get_desired_position() == V::Zero() && k.get_desired_linear_velocity() == V::Zero() && k.get_desired_linear_acceleration() == V::Zero() &&
              k.get_desired_thrust() == P(0) && k.get_desired_angular_velocity() == V::Zero() && k.get_desired_motor_angular_velocity().isZero(0),
          "a new controller asks for something");
  for (int j = 0, n = c.range(1, 10); j < n; j++) {
    std::string e = differs<P, N>(a, b);
    c.check(e.empty(), "simulator with parameters left out: " + e);
    if (c.chance(1, 6)) {
      auto m = ControlMode(c.u(6));
      a.set_control_mode(m);
      b.set_control_mode(m, YawControlMode::ANGLE);
      left++;
    } else if (c.chance(1, 6)) {
      a.enable_floor_collision();
      b.enable_floor_collision(P(0));
      left++;
    } else {
      auto q = op<P, N>(c, full);
      apply<P, N>(a, q);
      apply<P, N>(b, q);
    }
    if (!sane<P, N>(b)) break;
  }
  if (left) c.nontrivial();
}
static Reg a("pid<double,3>", pid<double, 3>, 2);
static Reg b("pid<float,3>", pid<float, 3>, 1);
static Reg d("pid1<double>", pid1<double>, 1);
static Reg e("dynamics<double,4>", dynamics<double, 4>, 2);
static Reg f("dynamics<float,6>", dynamics<float, 6>, 1);
static Reg g("sensors<double>", sensors<double>, 2);
static Reg h("sensors<float>", sensors<float>, 1);
static Reg i("simulator<double,4>", simulator<double, 4>, 2);
static Reg j("simulator<float,6>", simulator<float, 6>, 1);
