// S04: the closed loop flies: a consistently configured vehicle reaches and holds
// what each mode asks for.
#include "gensim.hpp"
using namespace pbt;
using namespace ref;
using multirotor::ControlMode;
using multirotor::YawControlMode;

static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
template <typename P>
double yaw_of(const Eigen::Quaternion<P> &q) {
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  return std::atan2(2 * (w * z + x * y), 1 - 2 * (y * y + z * z));
}

template <typename P>
struct Flight {
  using V = gen::V3<P>;
  multirotor::Simulator<P, 4> s;
  P dt;
  double maxw;
  Flight(Ctx &c, multirotor::SimulatorParams<P, 4> p) : s(p) {
    dt   = P(c.u(2) ? 0.001 : c.uniform(0.0005, 0.002));
    maxw = double(p.dynamics_params.model_params.motors_params[0].max_speed);
  }
  void step(Ctx &c) {
    s.update_controller(dt);
    s.update_dynamics(dt);
    const auto &x = s.get_state();
    for (int i = 0; i < 4; i++) {
      double w = double(x.actuators.motor_angular_velocity[i]);
      c.check(w >= 0 && w <= maxw, "rotor outside its limits");
    }
    c.check(std::fabs(double(x.kinematics.orientation.norm()) - 1) < 1e-5, "attitude not unit");
    c.check(x.kinematics.position.allFinite() && x.kinematics.position.norm() < 1e4, "the vehicle flies away");
  }
  void run(Ctx &c, double seconds) {
    int n = int(seconds / double(dt));
    for (int i = 0; i < n; i++) step(c);
  }
};
template <typename P>
multirotor::SimulatorParams<P, 4> start(Ctx &c, bool drag) {
  auto p  = gensim::flying<P>(c);
  auto &k = p.dynamics_params.state.kinematics;
  k.position    = gen::V3<P>(P(c.sreal(20)), P(c.sreal(20)), P(c.sreal(20)));
  k.orientation = gen::rpy<P>(c.uniform(-0.3, 0.3), c.uniform(-0.3, 0.3), c.uniform(-3.1, 3.1));
  if (!drag) p.dynamics_params.model_params.vehicle_drag_coefficient = 0;
  const auto &m = p.dynamics_params.model_params;
  double w      = std::sqrt(double(m.vehicle_mass) * 9.81 / 4 / double(m.motors_params[0].thrust_coefficient));
  p.dynamics_params.state.actuators.motor_angular_velocity.setConstant(P(w));
  return p;
}
template <typename V>
double dist(const V &a, const V &b) {
  return double((a - b).norm());
}

template <typename P>
void position(Ctx &c) {
  using V = gen::V3<P>;
  Flight<P> f(c, start<P>(c, true));
  auto &s = f.s;
  s.arm();
  bool hover = c.u(3) == 0;
  V p0       = s.get_state().kinematics.position;
  s.set_control_mode(hover ? ControlMode::HOVER : ControlMode::POSITION);
  V goal   = p0;
  double y = yaw_of(s.get_state().kinematics.orientation);
  if (!hover) {
    goal = p0 + V(P(c.uniform(-3, 3)), P(c.uniform(-3, 3)), P(c.uniform(-2, 2)));
    y    = y + c.uniform(-1.5, 1.5);
    s.set_reference_position(goal);
    s.set_reference_yaw_angle(P(y));
  }
  c.note("from", gen::str(p0));
  c.note("to", gen::str(goal));
  f.run(c, 15);
  const auto &k = s.get_state().kinematics;
  c.note("reached", gen::str(k.position));
  c.check(dist(k.position, goal) < 0.05, "position not reached");
  c.check(k.linear_velocity.norm() < P(0.05), "not at rest");
  c.check(std::fabs(wrap(yaw_of(k.orientation) - y)) < 0.05, "heading not reached");
  for (int i = 0; i < 200; i++) {
    f.step(c);
    c.check(dist(k.position, goal) < 0.06, "position not held");
  }
  c.cls(hover ? "hover" : "position");
  c.nontrivial();
}

template <typename P>
void velocity(Ctx &c) {
  using V = gen::V3<P>;
  Flight<P> f(c, start<P>(c, false));
  auto &s = f.s;
  s.arm();
  bool rate = c.u(2);
  s.set_control_mode(ControlMode::VELOCITY, rate ? YawControlMode::RATE : YawControlMode::ANGLE);
  V goal(P(c.uniform(-3, 3)), P(c.uniform(-3, 3)), P(c.uniform(-1.5, 1.5)));
  double y = yaw_of(s.get_state().kinematics.orientation) + c.uniform(-1.5, 1.5), r = c.uniform(-0.8, 0.8);
  s.set_reference_velocity(goal);
  s.set_reference_yaw_angle(P(y));
  s.set_reference_yaw_rate(P(r));
  c.note("velocity", gen::str(goal));
  f.run(c, 10);
  const auto &k = s.get_state().kinematics;
  c.note("reached", gen::str(k.linear_velocity));
  c.check(dist(k.linear_velocity, goal) < 0.08, "velocity not reached");
  if (rate) {
    double y0 = yaw_of(k.orientation);
    f.run(c, 1);
    double got = wrap(yaw_of(k.orientation) - y0);
    c.close(got, r, 0.05, "yaw rate not reached");
    c.cls("yaw rate");
  } else {
    c.check(std::fabs(wrap(yaw_of(k.orientation) - y)) < 0.05, "heading not reached");
    c.cls("yaw angle");
  }
  c.nontrivial();
}

template <typename P>
void trajectory(Ctx &c) {
  using V = gen::V3<P>;
  Flight<P> f(c, start<P>(c, false));
  auto &s = f.s;
  s.arm();
  s.set_control_mode(ControlMode::TRAJECTORY);
  V p0 = s.get_state().kinematics.position, v(P(c.uniform(-2, 2)), P(c.uniform(-2, 2)), P(c.uniform(-1, 1)));
  double om = c.uniform(0.2, 0.8), ra = c.uniform(0, 1.5), y = c.uniform(-3, 3);
  bool circle = c.u(2);
  s.set_reference_yaw_angle(P(y));
  c.note("line", gen::str(v));
  c.note("radius", circle ? ra : 0.0);
  double t = 0;
  auto ref = [&](double tt, V &p, V &q, V &a) {
    p = p0 + v * P(tt);
    q = v;
    a = V::Zero();
    if (circle) {
      p += V(P(ra * std::sin(om * tt)), P(ra * (1 - std::cos(om * tt))), P(0));
      q += V(P(ra * om * std::cos(om * tt)), P(ra * om * std::sin(om * tt)), P(0));
      a += V(P(-ra * om * om * std::sin(om * tt)), P(ra * om * om * std::cos(om * tt)), P(0));
    }
  };
  V p, q, a;
  int n = int(12 / double(f.dt));
  for (int i = 0; i < n; i++) {
    ref(t, p, q, a);
    s.set_reference_trajectory(p, q, a);
    f.step(c);
    t += double(f.dt);
    if (t > 9) {
      ref(t, p, q, a);
      c.check(dist(s.get_state().kinematics.position, p) < 0.1 && dist(s.get_state().kinematics.linear_velocity, q) < 0.15, "trajectory not followed");
    }
  }
  c.check(std::fabs(wrap(yaw_of(s.get_state().kinematics.orientation) - y)) < 0.05, "heading not reached");
  c.nontrivial();
}

template <typename P>
void acro(Ctx &c) {
  using V  = gen::V3<P>;
  auto prm = start<P>(c, true);
  prm.dynamics_params.model_params.vehicle_aero_moment_coefficient.setZero();
  Flight<P> f(c, prm);
  auto &s = f.s;
  s.arm();
  s.set_control_mode(ControlMode::ACRO);
  V w(P(c.uniform(-1, 1)), P(c.uniform(-1, 1)), P(c.uniform(-1, 1)));
  double m = double(prm.dynamics_params.model_params.vehicle_mass), T = m * c.uniform(7, 14);
  s.set_reference_acro(P(T), w);
  f.run(c, 3);
  const auto &x = s.get_state();
  c.note("rates", gen::str(w));
  c.note("reached", gen::str(x.kinematics.angular_velocity));
  c.check(dist(x.kinematics.angular_velocity, w) < 0.08, "body rates not reached");
  // thrust along the body axis
  double th = 0;
  for (int i = 0; i < 4; i++) {
    double r = double(x.actuators.motor_angular_velocity[i]);
    th += double(prm.dynamics_params.model_params.motors_params[size_t(i)].thrust_coefficient) * r * r;
  }
  c.close(th, T, 0.02 * T, "thrust not reached");
  c.nontrivial();
}

// disarmed in flight: the rotors stop and the vehicle falls
template <typename P>
void cut(Ctx &c) {
  auto prm = start<P>(c, true);
  Flight<P> f(c, prm);
  auto &s = f.s;
  s.arm();
  s.set_control_mode(ControlMode(c.u(6)));
  f.run(c, 0.2);
  s.disarm();
  double z0 = double(s.get_state().kinematics.position.z());
  f.run(c, 2);
  c.check(s.get_state().actuators.motor_angular_velocity.norm() < P(1), "rotors still turning");
  c.check(double(s.get_state().kinematics.position.z()) < z0 - 2, "the vehicle does not fall");
  c.nontrivial();
}
static Reg a("position<double>", position<double>, 3);
static Reg b("position<float>", position<float>, 1);
static Reg d("velocity<double>", velocity<double>, 3);
static Reg e("trajectory<double>", trajectory<double>, 3);
static Reg f("trajectory<float>", trajectory<float>, 1);
static Reg g("acro<double>", acro<double>, 3);
static Reg h("velocity<float>", velocity<float>, 1);
static Reg i("cut<double>", cut<double>, 1);
