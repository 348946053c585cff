// O02: the sensors of the simulator report the simulated motion: the IMU reads
// body rates and force per mass in the body frame, the odometry integrates the
// IMU, and both agree with the true motion.
#include "gensim.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
struct Od {
  gen::V3<P> p, v, w, a;
  Eigen::Quaternion<P> q;
};

// what the sensors get, step by step
template <typename P, int N>
void feeding(Ctx &c) {
  using V   = gen::V3<P>;
  using Sim = multirotor::Simulator<P, N>;
  bool noise = c.chance(1, 3);
  auto prm   = gensim::params<P, N>(c, noise);
  Sim s(prm);
  imu::IMU<P> u(prm.imu_params);  // a sensor of the same make, fed by the oracle
  imu::InertialOdometry<P> io(prm.inertial_odometry_params);
  int n = c.len(1, 12, 300);
  Q mount = quat(prm.imu_params.imu_orientation);
  s.arm();
  s.set_refence_motors_angular_velocity(gen::command<P, N>(c, prm.dynamics_params.model_params));
  s.update_controller(P(0.01));
  bool real = false, imu_seen = false, floor = false;
  P height = 0;
  c.note("mass", prm.dynamics_params.model_params.vehicle_mass);
  for (int k = 0; k < n; k++) {
    P dt = P(c.logpos(1e-4, 0.009)), ds = c.u(10) == 9 ? P(c.logpos(0.01, 50)) : dt;  // the sensors take any time
    if (c.chance(1, 10)) {  // another vehicle, state or mounting
      if (c.chance(1, 4)) {  // other sensors
        if (c.u(2)) {
          prm.imu_params = gensim::imu_params<P>(c, noise);
          mount          = quat(prm.imu_params.imu_orientation);
          s.set_imu_params(prm.imu_params);
          u = imu::IMU<P>(prm.imu_params);
        } else {
          prm.inertial_odometry_params.alpha                     = P(c.u(2) ? 1.0 : c.uniform(0.1, 1));
          prm.inertial_odometry_params.initial_world_orientation = gen::quat<P>(c);
          s.set_inertial_odometry_params(prm.inertial_odometry_params);
          io = imu::InertialOdometry<P>(prm.inertial_odometry_params);
        }
        c.cls("sensor exchanged");
      } else if (c.chance(2, 3)) {
        refsim::intervene<P, N>(c, s.get_dynamics(), prm.dynamics_params.model_params, noise);
      } else {
        prm.imu_params.imu_orientation = gen::quat<P>(c);
        mount                          = quat(prm.imu_params.imu_orientation);
        s.get_imu().set_orientation(prm.imu_params.imu_orientation);
        u.set_orientation(prm.imu_params.imu_orientation);
        c.cls("mounting changed");
      }
    }
    if (c.chance(1, 6)) {  // what the sensors do not depend on
      switch (c.u(6)) {
        case 0: s.arm(); break;
        case 1: s.disarm(); break;
        case 2: s.set_control_mode(multirotor::ControlMode(c.u(6)), multirotor::YawControlMode(c.u(2))); break;
        case 3:  // far below, or near
          height = c.u(3) == 0 ? P(-1e30) : s.get_state().kinematics.position.z() + P(c.sreal(2));
          s.enable_floor_collision(height);
          floor = true;
          break;
        case 4:
          s.disable_floor_collision();
          floor = false;
          break;
        default: s.update_controller(dt);
      }
      c.cls("other simulator calls in between");
    }
    switch (c.u(8)) {
      case 0: s.get_dynamics().set_state(gen::state<P, N>(c, prm.dynamics_params.model_params)); break;
      case 1:
        if (gen::bounded(s.get_state()) && s.get_actuation_motors_angular_velocity().allFinite()) {
          const auto b = s.get_state().kinematics;
          s.update_dynamics(dt);
          const auto &k2 = s.get_state().kinematics;
          // on the floor: the sensors start again from there
          if (floor && k2.position.z() == height && k2.linear_velocity == V::Zero() && !(b.position.z() == height && b.linear_velocity.z() == P(0))) {
            u.reset();
            io.set_initial_orientation(k2.orientation);
            io.reset();
            c.cls("landed");
          }
        }
        break;
      case 2:
      case 3:
      case 4: {
        const auto st = s.get_state();
        s.update_imu(ds);
        V g, a;
        s.get_imu_measurement(g, a);
        V3 sf = irotate(quat(st.kinematics.orientation), v3(st.dynamics.force)) / R(double(prm.dynamics_params.model_params.vehicle_mass));
        if (!noise) {
          close3<P>(c, a, irotate(mount, sf), "accelerometer: force per mass in the sensor frame");
          close3<P>(c, g, irotate(mount, v3(st.kinematics.angular_velocity)), "gyroscope: body rates in the sensor frame");
        } else {
          V f(P(double(sf.x.v)), P(double(sf.y.v)), P(double(sf.z.v)));
          u.update(ds, f, st.kinematics.angular_velocity);
          double m = sf.x.m + sf.y.m + sf.z.m + 10 * (std::sqrt(double(prm.imu_params.accel_noise_var)) + 1e-6);
          double t = (sizeof(P) == 4 ? 1e-5 : 1e-13) * 30;
          V g2, a2;
          u.get_measurement(g2, a2);
          for (int i = 0; i < 3; i++) {
            c.close(double(a[i]), double(a2[i]), t * (m + std::fabs(double(a2[i]))), "accelerometer with noise");
            c.close(double(g[i]), double(g2[i]), t * (std::fabs(double(g2[i])) + double(st.kinematics.angular_velocity.norm()) + 1e-3), "gyroscope with noise");
          }
        }
        const auto &x = s.get_state();
        c.check(x.kinematics.position == st.kinematics.position && x.kinematics.angular_velocity == st.kinematics.angular_velocity &&
                    x.dynamics.force == st.dynamics.force,
                "reading the IMU changed the state");
        real |= st.dynamics.force.norm() > P(0) && st.kinematics.angular_velocity.norm() > P(0);
        imu_seen = true;
        break;
      }
      default: {
        V g, a;
        s.get_imu_measurement(g, a);
        io.update(g, a, ds);
        s.update_inertial_odometry(ds);
        V g2, a2;
        s.get_imu_measurement(g2, a2);
        c.check(g2 == g && a2 == a, "the odometry changed the IMU");
        Od<P> o, r;
        io.get_measurement(o.p, o.q, o.v, o.w, o.a);
        auto kin = s.get_odometry();
        multirotor::state::internal::Kinematics<P> k2;
        s.get_odometry(k2);
        s.get_inertial_odometry_const().get_measurement(r.p, r.q, r.v, r.w, r.a);
        auto eq = [&](const auto &x, const auto &y, const char *w) {
          for (int i = 0; i < x.size(); i++)
            c.close(double(x[i]), double(y[i]), (sizeof(P) == 4 ? 1e-5 : 1e-13) * (double(y.norm()) + 1e-6) * 20, w);
        };
        eq(kin.position, o.p, "odometry position");
        eq(kin.linear_velocity, o.v, "odometry velocity");
        eq(kin.angular_velocity, o.w, "odometry body rates");
        eq(kin.linear_acceleration, o.a, "odometry acceleration");
        eq(kin.orientation.coeffs(), o.q.coeffs(), "odometry attitude");
        c.check(kin.position == k2.position && kin.linear_velocity == k2.linear_velocity && kin.angular_velocity == k2.angular_velocity &&
                    kin.linear_acceleration == k2.linear_acceleration && kin.orientation.coeffs() == k2.orientation.coeffs() &&
                    kin.position == r.p && kin.linear_velocity == r.v && kin.orientation.coeffs() == r.q.coeffs(),
                "the odometry getters disagree");
        if (imu_seen) c.cls("odometry after a reading");
      }
    }
  }
  if (real) c.nontrivial();
}

// dead reckoning with perfect sensors follows the true motion: the difference is
// of the order of one time step of the motion
template <typename P>
void reckoning(Ctx &c) {
  using V  = gen::V3<P>;
  auto prm = gensim::flying<P>(c);
  auto &k0 = prm.dynamics_params.state.kinematics;
  k0.position    = gen::vec<P>(c, 10);
  k0.orientation = gen::quat<P>(c);
  k0.angular_velocity = V(P(c.uniform(-2, 2)), P(c.uniform(-2, 2)), P(c.uniform(-2, 2)));
  if (c.chance(1, 3)) prm.dynamics_params.model_params.force_process_noise_auto_correlation = P(1e-4);
  prm.inertial_odometry_params.alpha                     = P(1);
  prm.inertial_odometry_params.initial_world_orientation = k0.orientation;
  V p0 = k0.position;
  multirotor::Simulator<P, 4> s(prm);
  const auto &m = prm.dynamics_params.model_params;
  double hover = std::sqrt(double(m.vehicle_mass) * 9.81 / 4 / double(m.motors_params[0].thrust_coefficient));
  s.arm();
  auto cmd = [&] {
    Eigen::Matrix<P, 4, 1> w;
    double b = hover * c.uniform(0.7, 1.3);
    for (int i = 0; i < 4; i++) w[i] = P(b * c.uniform(0.995, 1.005));
    s.set_refence_motors_angular_velocity(w);
  };
  cmd();
  P dt  = P(c.logpos(1e-4, 5e-3));
  int n = int(std::min(2000.0, 1.0 / double(dt)));
  // the odometry is one step late in attitude: bounds accumulated from the motion
  double att = 0, dv = 0, dp = 0, h = double(dt), wmax = 0;
  const double eps = sizeof(P) == 4 ? 1.2e-7 : 2.3e-16;
  double wprev = double(k0.angular_velocity.norm());
  for (int k = 0; k < n; k++) {
    if (k && k % 100 == 0) cmd();
    s.update_controller(dt);
    s.update_dynamics(dt);
    s.update_imu(dt);
    s.update_inertial_odometry(dt);
    const auto &x = s.get_state();
    auto o        = s.get_odometry();
    double a = double(x.kinematics.linear_acceleration.norm()), al = double(x.kinematics.angular_acceleration.norm()),
           w = double(x.kinematics.angular_velocity.norm());
    wmax = std::max(wmax, std::max(w, wprev));
    att += al * h * h + 10 * eps;
    double ang = att + 2 * wmax * h;
    dv += a * ang * h + 10 * eps * (double(x.kinematics.linear_velocity.norm()) + a * h);
    dp += dv * h + double(x.kinematics.linear_velocity.norm()) * 0 + a * h * h + 10 * eps * double((x.kinematics.position - p0).norm() + x.kinematics.position.norm());
    wprev = w;
    if (wmax > 20) break;
    double dq = std::fabs(double(o.orientation.coeffs().dot(x.kinematics.orientation.coeffs())));
    double da = 2 * std::acos(std::min(1.0, dq));
    c.check(da <= 2 * att + 1e-3 * h + (sizeof(P) == 4 ? 3e-3 : 1e-7), "odometry attitude drifts from the truth");
    c.check(double((o.linear_velocity - x.kinematics.linear_velocity).norm()) <= 2 * dv + 1e-9, "odometry velocity drifts from the truth");
    c.check(double((o.position - (x.kinematics.position - p0)).norm()) <= 2 * dp + 1e-9, "odometry position drifts from the truth");
    c.check(o.angular_velocity == x.kinematics.angular_velocity || double((o.angular_velocity - x.kinematics.angular_velocity).norm()) <= 20 * eps * w, "odometry body rates");
  }
  c.note("dt", dt);
  c.note("n", n);
  c.note("bound dp", dp);
  c.nontrivial();
}
static Reg a("feeding<double,4>", feeding<double, 4>, 30);
static Reg b("feeding<float,4>", feeding<float, 4>, 15);
static Reg d("feeding<double,6>", feeding<double, 6>, 10);
static Reg e("feeding<float,6>", feeding<float, 6>, 10);
static Reg f("reckoning<double>", reckoning<double>, 4);
static Reg g("reckoning<float>", reckoning<float>, 2);
