// S03: floor collision: never below the floor after a step; a contact stops the
// vehicle, keeps its place and attitude and restarts the sensors.
#include "gensim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void floor_law(Ctx &c) {
  using V   = gen::V3<P>;
  using VN  = Eigen::Matrix<P, N, 1>;
  using Sim = multirotor::Simulator<P, N>;
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto prm  = gensim::params<P, N>(c, c.chance(1, 2));
  auto &mp  = prm.dynamics_params.model_params;
  P height  = P(c.u(3) == 0 ? 0.0 : c.sreal(20));
  auto place = [&](multirotor::state::State<P, N> st) {
    switch (c.u(5)) {
      case 0: st.kinematics.position.z() = height; break;
      case 1: st.kinematics.position.z() = height + P(c.logpos(1e-4, 0.5)); break;
      case 2: st.kinematics.position.z() = height - P(c.logpos(1e-3, 2)); break;
      case 3: st.kinematics.position.z() = height + P(c.logpos(0.1, 50)); break;
      default: break;
    }
    if (c.chance(1, 2)) st.kinematics.linear_velocity.z() = P(-c.logpos(0.01, 20));
    return st;
  };
  prm.dynamics_params.state = place(prm.dynamics_params.state);
  Sim s(prm);
  bool enabled = c.chance(9, 10);
  if (enabled) s.enable_floor_collision(height);
  c.note("floor", height);
  c.note("z", prm.dynamics_params.state.kinematics.position.z());
  if (c.chance(3, 4)) {
    s.arm();
    s.set_refence_motors_angular_velocity(gen::command<P, N>(c, mp));
    s.update_controller(P(0.01));
  }
  int n = c.len(1, 12, 500);
  bool contact = false;
  int contacts = 0, flights = 0;
  P dt = gen::small_dt<P>(c);
  for (int k = 0; k < n; k++) {
    if (c.chance(1, 10)) {
      s.set_refence_motors_angular_velocity(gen::command<P, N>(c, mp));
      s.update_controller(P(0.01));
    }
    if (c.chance(1, 8)) dt = c.u(4) == 0 ? P(c.logpos(0.011, 0.05)) : gen::small_dt<P>(c);
    if (!gen::bounded(s.get_state())) s.get_dynamics().set_state(place(gen::state<P, N>(c, mp)));
    if (c.chance(1, 20)) {
      if (enabled) {
        s.disable_floor_collision();
      } else {
        s.enable_floor_collision(height);
      }
      enabled = !enabled;
      c.check(s.get_floor_collision_enabled() == enabled && s.get_external_force() == V::Zero(), "floor switched");
      c.cls("floor switched in flight");
    }
    if (enabled && c.chance(1, 15)) {
      height = c.chance(1, 3) ? s.get_state().kinematics.position.z() : P(c.sreal(20));
      s.enable_floor_collision(height);
      c.check(s.get_floor_height() == height, "new floor height");
      c.cls("floor moved in flight");
    }
    if (c.chance(1, 3)) {
      s.update_imu(dt);
      s.update_inertial_odometry(dt);
    }
    Dyn d;
    s.get_dynamics(d);
    // below the floor at the beginning of the step: the floor carries the weight
    V ext = V::Zero();
    if (enabled && d.get_state().kinematics.position.z() < height) {
      ext = -(mp.gravity * mp.vehicle_mass);
      c.cls("starts below the floor");
    }
    auto od = s.get_odometry();
    V g0, a0, g1, a1;
    s.get_imu_measurement(g0, a0);
    d.process_euler_explicit(s.get_actuation_motors_angular_velocity(), dt, ext, !contact);
    if (!gen::bounded(d.get_state())) break;  // the scheme diverges for this model
    s.update_dynamics(dt);
    const auto &f = d.get_state(), &x = s.get_state();
    P z = f.kinematics.position.z();
    double near = (sizeof(P) == 4 ? 1e-5 : 1e-11) * (1 + std::fabs(double(z)) + std::fabs(double(height)));
    if (enabled && z != height && std::fabs(double(z) - double(height)) < near) {
      c.cls("stopped at a rounding-dependent branch");
      break;
    }
    bool hit = enabled && z < height;
    const double t = sizeof(P) == 4 ? 1e-4 : 1e-11;
    auto eq = [&](const auto &a, const auto &b, const char *w) {
      for (int i = 0; i < a.size(); i++) c.close(double(a[i]), double(b[i]), t * (1 + std::fabs(double(b[i])) + double(b.norm())), w);
    };
    if (enabled) c.check(x.kinematics.position.z() >= height, "below the floor after the step");
    eq(x.actuators.motor_angular_velocity, f.actuators.motor_angular_velocity, "rotors");
    eq(x.dynamics.force, f.dynamics.force, "force");
    eq(x.dynamics.torque, f.dynamics.torque, "torque");
    eq(x.kinematics.orientation.coeffs(), f.kinematics.orientation.coeffs(), "attitude");
    c.check(s.get_external_force() == V::Zero(), "the floor force is left behind");
    auto od2 = s.get_odometry();
    s.get_imu_measurement(g1, a1);
    if (hit) {
      contacts++;
      c.check(x.kinematics.position.z() == height, "height at contact");
      V p = x.kinematics.position, q = f.kinematics.position;
      p.z() = q.z() = P(0);
      eq(p, q, "place at contact");
      c.check(x.kinematics.linear_velocity == V::Zero() && x.kinematics.angular_velocity == V::Zero() &&
                  x.kinematics.linear_acceleration == V::Zero() && x.kinematics.angular_acceleration == V::Zero(),
              "motion after contact");
      V bg, ba;
      s.get_imu_const().get_bias(bg, ba);
      c.check(g1 == V::Zero() && a1 == V::Zero() && bg == V::Zero() && ba == V::Zero(), "IMU not restarted at contact");
      c.check(od2.position == V::Zero() && od2.linear_velocity == V::Zero() && od2.angular_velocity == V::Zero() &&
                  od2.linear_acceleration == V::Zero(),
              "odometry not restarted at contact");
      eq(od2.orientation.coeffs(), x.kinematics.orientation.coeffs(), "odometry attitude at contact");
    } else {
      flights++;
      eq(x.kinematics.position, f.kinematics.position, "position");
      eq(x.kinematics.linear_velocity, f.kinematics.linear_velocity, "velocity");
      eq(x.kinematics.angular_velocity, f.kinematics.angular_velocity, "body rates");
      eq(x.kinematics.linear_acceleration, f.kinematics.linear_acceleration, "acceleration");
      c.check(g1 == g0 && a1 == a0 && od2.position == od.position && od2.linear_velocity == od.linear_velocity &&
                  od2.orientation.coeffs() == od.orientation.coeffs(),
              "the dynamics changed the sensors without contact");
    }
    contact = hit;
  }
  c.note("contacts", contacts);
  c.note("free steps", flights);
  if (contacts) c.cls("contact");
  if (contacts && flights) c.nontrivial();
}

// a vehicle without thrust rests on the floor for ever; with thrust above its
// weight it leaves it
template <typename P>
void rest(Ctx &c) {
  using V  = gen::V3<P>;
  auto prm = gensim::flying<P>(c);
  P height = P(c.sreal(5));
  auto &k  = prm.dynamics_params.state.kinematics;
  k.position = V(P(c.sreal(10)), P(c.sreal(10)), height + P(c.u(2) ? c.logpos(1e-3, 3) : 0.0));
  k.orientation = gen::rpy<P>(0, 0, c.uniform(-3, 3));
  multirotor::Simulator<P, 4> s(prm);
  s.enable_floor_collision(height);
  // no longer than the time constant of the rotors: beyond it they oscillate about the command
  P dt = P(std::min(c.uniform(0.001, 0.01), double(prm.dynamics_params.model_params.motors_params[0].time_constant)));
  int fall = int(std::min(4000.0, 2.0 + 1.5 / double(dt)));
  P top = k.position.z();
  for (int i = 0; i < fall; i++) {
    s.update_controller(dt);
    s.update_dynamics(dt);
    P z = s.get_state().kinematics.position.z();
    c.check(z >= height && z <= top, "free fall onto the floor");
  }
  V p0 = s.get_state().kinematics.position;
  double low = double(height) + 2 * 9.81 * double(dt) * double(dt) + 1e-4;
  c.check(double(p0.z()) <= low, "the vehicle does not reach the floor");
  for (int i = 0; i < 50; i++) {
    s.update_controller(dt);
    s.update_dynamics(dt);
    V p = s.get_state().kinematics.position;
    c.check(p.x() == p0.x() && p.y() == p0.y() && double(p.z()) >= double(height) && double(p.z()) <= low, "the vehicle does not rest on the floor");
    c.check(std::fabs(double(s.get_state().kinematics.linear_velocity.z())) <= 2 * 9.82 * double(dt), "falling through the floor");
  }
  // take off
  s.arm();
  const auto &mp = prm.dynamics_params.model_params;
  double w = std::sqrt(1.5 * double(mp.vehicle_mass) * 9.81 / 4 / double(mp.motors_params[0].thrust_coefficient));
  s.set_refence_motors_angular_velocity(Eigen::Matrix<P, 4, 1>::Constant(P(w)));
  for (int i = 0; i < int(1.0 / double(dt)); i++) {
    s.update_controller(dt);
    s.update_dynamics(dt);
  }
  c.check(double(s.get_state().kinematics.position.z()) > double(height) + 0.5, "the vehicle does not take off");
  c.note("dt", dt);
  c.note("drop", top - height);
  c.nontrivial();
}
static Reg a("floor<double,4>", floor_law<double, 4>, 60);
static Reg b("floor<float,4>", floor_law<float, 4>, 20);
static Reg d("floor<double,6>", floor_law<double, 6>, 20);
static Reg e("floor<float,6>", floor_law<float, 6>, 20);
static Reg f("rest<double>", rest<double>, 1);
static Reg g("rest<float>", rest<float>, 1);
