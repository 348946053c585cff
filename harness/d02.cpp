// D02: rotational dynamics follow Euler's equations in the body frame, and the
// attitude is integrated from the body rates and stays a unit quaternion.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void rotational(Ctx &c) {
  using Dyn      = multirotor::dynamics::Dynamics<P, N>;
  bool noise     = c.chance(1, 3);
  auto p         = gen::model_params<P, N>(c, noise);
  auto s0        = gen::state<P, N>(c, p);
  Dyn dyn        = Dyn(p, int(c.u(1000)), s0);
  int steps      = c.range(1, c.chance(1, 20) ? 300 : 12);
  c.note("inertia", gen::str(Eigen::Matrix<P, 9, 1>(Eigen::Map<Eigen::Matrix<P, 9, 1>>(p.vehicle_inertia.data()))));
  c.note("w0", gen::str(s0.kinematics.angular_velocity));
  c.note("q0", gen::strq(s0.kinematics.orientation));
  c.note("steps", steps);
  c.note("noise", noise);
  auto cmd = gen::command<P, N>(c, p);
  P dt     = gen::small_dt<P>(c);
  bool spin = false, torque = false;
  for (int k = 0; k < steps; k++) {
    if (k && c.chance(1, 4)) cmd = gen::command<P, N>(c, p);
    if (k && c.chance(1, 4)) dt = gen::small_dt<P>(c);
    if (c.chance(1, 10)) refsim::intervene<P, N>(c, dyn, p, noise);
    auto s = dyn.get_state();
    if (!gen::bounded(s)) break;
    bool en = noise && c.chance(1, 2);
    gen::V3<P> ext = gen::vec<P>(c, 20);
    dyn.process_euler_explicit(cmd, dt, ext, en);
    const auto &n = dyn.get_state();
    V3 nf, nm;
    if (en) {
      nf = v3(dyn.get_model_const().get_stochastic_force());
      nm = v3(dyn.get_model_const().get_stochastic_moment());
    }
    auto r  = refsim::step<P, N>(p, s, cmd, double(dt), v3(ext), nf, nm);
    auto near3 = [&](const gen::V3<P> &got, const V3 &want) {
      double m = std::max(want.x.m, std::max(want.y.m, want.z.m));
      for (int i = 0; i < 3; i++)
        if (!(std::fabs(double(got[i]) - double(want[i].v)) <= tol_of<P>(R(want[i].v, m)))) return false;
      return true;
    };
    auto matches = [&](const refsim::Step<N> &x) {
      return near3(n.dynamics.torque, x.torque) && near3(n.kinematics.angular_acceleration, x.ang_acc) &&
             near3(n.kinematics.angular_velocity, x.omega);
    };
    if (en && !matches(r)) {
      // known finding F1: the stochastic force is added where the stochastic
      // moment belongs; anything else is a violation
      auto f1 = refsim::step<P, N>(p, s, cmd, double(dt), v3(ext), nf, nf);
      if (matches(f1)) {
        c.finding("F1", "Dynamics::process_euler_explicit with process noise enabled adds the stochastic force "
                        "(not the stochastic moment) to the torque");
        r = f1;
      }
    }
    close3<P>(c, n.dynamics.torque, r.torque, "total torque");
    close3<P>(c, n.kinematics.angular_acceleration, r.ang_acc, "angular acceleration");
    close3<P>(c, n.kinematics.angular_velocity, r.omega, "angular velocity");
    closeq<P>(c, n.kinematics.orientation, r.q, "orientation");
    c.close(double(n.kinematics.orientation.norm()), 1.0, 50 * double(std::numeric_limits<P>::epsilon()),
            "orientation norm");
    spin |= s.kinematics.angular_velocity.norm() > 0.1;
    torque |= n.dynamics.torque.norm() > 1e-6;
  }
  if (noise) c.cls("process noise");
  if (spin && torque) {
    c.cls("spinning with torque");
    c.nontrivial();
  }
}

// the attitude stays a unit quaternion over long histories, even when the
// initial quaternion is not normalised
template <typename P, int N>
void unit_attitude(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto p    = gen::model_params<P, N>(c, false);
  auto s0   = gen::state<P, N>(c, p);
  P scale   = P(c.logpos(0.2, 5));
  s0.kinematics.orientation.coeffs() *= scale;
  s0.actuators.motor_angular_velocity.setZero();
  for (auto &m : p.motors_params) {
    m.min_speed = P(0);
    m.max_speed = P(100);
    m.thrust_coefficient = P(0);
    m.torque_coefficient = P(0);
    m.rotational_inertia = P(0);
  }
  p.vehicle_aero_moment_coefficient.setZero();
  Dyn dyn(p, s0);
  int steps = c.range(1, 400);
  P dt      = gen::small_dt<P>(c);
  c.note("scale", scale);
  c.note("w0", gen::str(s0.kinematics.angular_velocity));
  c.note("steps", steps);
  for (int k = 0; k < steps; k++) {
    if (!gen::bounded(dyn.get_state())) break;
    dyn.process_euler_explicit(Eigen::Matrix<P, N, 1>::Zero(), dt, gen::V3<P>::Zero(), false);
    c.close(double(dyn.get_state().kinematics.orientation.norm()), 1.0,
            50 * double(std::numeric_limits<P>::epsilon()), "orientation norm");
  }
  if (s0.kinematics.angular_velocity.norm() > 0.1 && steps > 10) c.nontrivial();
}
static Reg a("rotational<double,4>", rotational<double, 4>, 3);
static Reg b("rotational<float,4>", rotational<float, 4>, 1);
static Reg d("rotational<double,6>", rotational<double, 6>, 2);
static Reg e("rotational<float,6>", rotational<float, 6>, 1);
static Reg f("unit attitude<double,4>", unit_attitude<double, 4>, 1);
