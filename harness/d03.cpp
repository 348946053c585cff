// D03: rotors follow a first-order lag to the clamped command and never leave
// their speed limits.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void motors(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto p    = gen::model_params<P, N>(c, false);
  if (c.chance(1, 2))
    for (int i = 0; i < N; i++) {  // every rotor with limits and lag of its own
      auto m                                    = gen::motor<P>(c, false);
      p.motors_params[size_t(i)].min_speed      = m.min_speed;
      p.motors_params[size_t(i)].max_speed      = m.max_speed;
      p.motors_params[size_t(i)].time_constant  = m.time_constant;
    }
  auto s0   = gen::state<P, N>(c, p);
  Dyn dyn(p, s0);
  int steps = c.range(1, c.chance(1, 20) ? 400 : 12);
  auto cmd  = gen::command<P, N>(c, p);
  P dt      = gen::small_dt<P>(c);
  c.note("steps", steps);
  c.note("cmd0", gen::str(cmd));
  c.note("w0", gen::str(s0.actuators.motor_angular_velocity));
  bool lag = false, sat = false;
  for (int k = 0; k < steps; k++) {
    if (k && c.chance(1, 3)) cmd = gen::command<P, N>(c, p);
    if (k && c.chance(1, 4)) dt = gen::small_dt<P>(c);
    if (c.chance(1, 10)) refsim::intervene<P, N>(c, dyn, p, false);
    auto s = dyn.get_state();
    if (!gen::bounded(s)) {
      // rotors do not depend on the body: put the body back, keep the rotors
      auto t      = s0;
      t.actuators = s.actuators;
      dyn.set_state(t);
      s = dyn.get_state();
    }
    dyn.process_euler_explicit(cmd, dt, gen::V3<P>::Zero(), c.chance(1, 2));
    const auto &n = dyn.get_state();
    auto r        = refsim::step<P, N>(p, s, cmd, double(dt), V3(), V3(), V3());
    for (int i = 0; i < N; i++) {
      const auto &m = p.motors_params[size_t(i)];
      P w           = n.actuators.motor_angular_velocity[i];
      c.check(w >= m.min_speed && w <= m.max_speed, "rotor speed outside its limits");
      close<P>(c, double(n.actuators.motor_angular_acceleration[i]), r.motor_a[size_t(i)], "rotor acceleration");
      close<P>(c, double(w), r.motor_w[size_t(i)], "rotor speed");
      lag |= std::fabs(double(n.actuators.motor_angular_acceleration[i])) > 1e-3;
      sat |= cmd[i] > m.max_speed || cmd[i] < m.min_speed;
      // a rotor inside its limits moves towards the clamped command and, when
      // the step is shorter than its time constant, never past it
      P d = std::min(std::max(cmd[i], m.min_speed), m.max_speed), w0 = s.actuators.motor_angular_velocity[i];
      if (w0 >= m.min_speed && w0 <= m.max_speed && double(dt) <= 0.999 * double(m.time_constant)) {
        double before = std::fabs(double(d) - double(w0)), after = std::fabs(double(d) - double(w));
        c.check(after <= before * (1 + 1e-6) + 1e-30, "rotor moves away from its command");
        c.check((double(d) - double(w)) * (double(d) - double(w0)) >= -1e-5 * before * (std::fabs(double(d)) + before) ,
                "rotor overshoots its command");
      }
    }
  }
  if (sat) c.cls("command outside limits");
  if (lag) {
    c.cls("rotors in transient");
    c.nontrivial();
  }
}

// a constant command is reached: exponential convergence
template <typename P, int N>
void settle(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto p    = gen::model_params<P, N>(c, false);
  for (auto &m : p.motors_params) m.time_constant = P(c.logpos(0.005, 0.1));
  p.vehicle_aero_moment_coefficient.setZero();
  p.vehicle_inertia *= P(1e6);
  p.vehicle_mass = P(1e6);
  auto s0 = gen::state<P, N>(c, p);
  s0.kinematics.angular_velocity.setZero();
  for (int i = 0; i < N; i++)
    s0.actuators.motor_angular_velocity[i] =
        std::min(std::max(s0.actuators.motor_angular_velocity[i], p.motors_params[size_t(i)].min_speed),
                 p.motors_params[size_t(i)].max_speed);
  Dyn dyn(p, s0);
  auto cmd  = gen::command<P, N>(c, p);
  P dt      = P(c.uniform(0.0005, 0.002));
  int steps = c.range(1, 300);
  for (int k = 0; k < steps; k++) dyn.process_euler_explicit(cmd, dt, gen::V3<P>::Zero(), false);
  for (int i = 0; i < N; i++) {
    const auto &m = p.motors_params[size_t(i)];
    double d  = std::min(std::max(double(cmd[i]), double(m.min_speed)), double(m.max_speed));
    double w0 = double(s0.actuators.motor_angular_velocity[i]);
    double want = d + (w0 - d) * std::pow(1.0 - double(dt) / double(m.time_constant), steps);
    c.close(double(dyn.get_state().actuators.motor_angular_velocity[i]), want,
            (sizeof(P) == 4 ? 1e-3 : 1e-9) * (1 + std::fabs(d) + std::fabs(w0)), "geometric approach to the command");
  }
  c.note("steps", steps);
  c.note("cmd", gen::str(cmd));
  if (steps > 5) c.nontrivial();
}
static Reg a("motors<double,4>", motors<double, 4>, 3);
static Reg b("motors<float,4>", motors<float, 4>, 1);
static Reg d("motors<double,6>", motors<double, 6>, 2);
static Reg e("motors<float,6>", motors<float, 6>, 1);
static Reg f("settle<double,4>", settle<double, 4>, 1);
static Reg n8("motors<double,8>", motors<double, 8>, 1);
static Reg n3("motors<double,3>", motors<double, 3>, 1);
