// D04: a call advances the simulation by exactly dt, in sub-steps of at most
// 0.01 s, and a non-positive dt is refused without side effects.
#include "refsim.hpp"
#include "simops.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
bool same_state(const multirotor::state::State<P, N> &a, const multirotor::state::State<P, N> &b) {
  return a.kinematics.position == b.kinematics.position &&
         a.kinematics.orientation.coeffs() == b.kinematics.orientation.coeffs() &&
         a.kinematics.linear_velocity == b.kinematics.linear_velocity &&
         a.kinematics.angular_velocity == b.kinematics.angular_velocity &&
         a.kinematics.linear_acceleration == b.kinematics.linear_acceleration &&
         a.kinematics.angular_acceleration == b.kinematics.angular_acceleration &&
         a.dynamics.force == b.dynamics.force && a.dynamics.torque == b.dynamics.torque &&
         a.actuators.motor_angular_velocity == b.actuators.motor_angular_velocity &&
         a.actuators.motor_angular_acceleration == b.actuators.motor_angular_acceleration;
}

template <typename P>
P large_dt(Ctx &c, bool very = false) {
  switch (very && c.u(50) == 49 ? 6 : c.u(6)) {
    case 6: return P(c.logpos(1.5, 200));
    case 0: return P(0.02);
    case 1: return P(0.01 * c.range(2, 120));             // a multiple of the sub-step
    case 2: return std::nextafter(P(0.01 * c.range(1, 100)), P(10));
    case 3: return P(0.01 * c.range(1, 50) + c.uniform(0.0001, 0.0099));
    default: return P(c.logpos(0.0101, 1.5));
  }
}

// non-positive steps throw and change nothing, not even the noise sequence
template <typename P, int N>
void refuse(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto p    = gen::model_params<P, N>(c, true);
  auto s0   = gen::state<P, N>(c, p);
  Dyn a(p, 7, s0), b(p, 7, s0);
  auto cmd  = gen::command<P, N>(c, p);
  P good    = gen::small_dt<P>(c);
  int pre   = c.range(0, 3);
  for (int k = 0; k < pre; k++) {
    a.process_euler_explicit(cmd, good);
    b.process_euler_explicit(cmd, good);
  }
  // any positive step, however short, is accepted and leaves twins equal
  if (c.chance(1, 3)) {
    P tiny = c.u(3) == 0 ? std::numeric_limits<P>::min() : P(std::pow(10, -c.uniform(9, 30)));
    // without the noise, which grows as the step shrinks
    a.process_euler_explicit(cmd, tiny, gen::V3<P>::Zero(), false);
    b.process_euler_explicit(cmd, tiny, gen::V3<P>::Zero(), false);
    c.cls("tiny dt");
  }
  P bad = P(0);
  switch (c.u(5)) {
    case 0: bad = P(0); break;
    case 1: bad = P(-0.0); break;
    case 2: bad = -std::numeric_limits<P>::denorm_min(); break;
    default: bad = P(-c.logpos(1e-9, 100));
  }
  c.note("dt", bad);
  bool thrown = false;
  try {
    if (c.u(2)) a.process_euler_explicit(cmd, bad, gen::vec<P>(c, 10), c.u(2));
    else a.process_euler_explicit(cmd, bad);
  } catch (const std::invalid_argument &) {
    thrown = true;
  }
  c.check(thrown, "dt <= 0 did not throw std::invalid_argument");
  if (gen::bounded(b.get_state()))
    c.check(same_state<P, N>(a.get_state(), b.get_state()), "a refused step changed the state");
  a.process_euler_explicit(cmd, good);
  b.process_euler_explicit(cmd, good);
  if (gen::bounded(b.get_state()))
    c.check(same_state<P, N>(a.get_state(), b.get_state()), "a refused step changed later steps");
  if (pre > 0) c.nontrivial();
}

// whole simulators: one of two twins is asked for refused steps in between
template <typename P, int N>
void refuse_sim(Ctx &c) {
  using Sm = multirotor::Simulator<P, N>;
  auto prm = gensim::params<P, N>(c, c.chance(1, 2));
  Sm a(prm), b(prm);
  int n = c.len(1, 12, 200), refused = 0;
  std::string where;
  for (int k = 0; k < n; k++) {
    auto o = simops::op<P, N>(c, prm);
    simops::apply<P, N>(a, o);
    simops::apply<P, N>(b, o);
    if (!simops::sane<P, N>(a)) break;
    if (c.chance(1, 2)) {
      P bad = c.u(3) == 0 ? P(0) : P(-c.logpos(1e-9, 100));
      bool thrown = false;
      try {
        a.update_dynamics(bad);
      } catch (const std::invalid_argument &) {
        thrown = true;
      }
      c.check(thrown, "the simulator did not refuse dt <= 0");
      refused++;
      if (a.get_floor_collision_enabled() && a.get_state().kinematics.position.z() < a.get_floor_height()) c.cls("refused below the floor");
    }
    std::string e = simops::differs<P, N>(a, b);
    c.check(e.empty(), "a refused step of the simulator changed something: " + e);
  }
  if (refused && n > 2) c.nontrivial();
}

// closed forms: constant acceleration
template <typename P, int N>
void closed_form(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto p    = gen::model_params<P, N>(c, false);
  p.vehicle_drag_coefficient = P(0);
  auto s0 = gen::state<P, N>(c, p);
  for (auto &m : p.motors_params) m.thrust_coefficient = P(0);
  for (auto &m : p.motors_params) m.torque_coefficient = P(0);
  for (auto &m : p.motors_params) m.rotational_inertia = P(0);
  p.vehicle_aero_moment_coefficient.setZero();
  s0.kinematics.angular_velocity.setZero();
  if (c.chance(1, 3)) p.gravity.setZero();
  gen::V3<P> ext = gen::vec<P>(c, 20);
  Dyn dyn(p, s0);
  int calls = c.range(1, 4);
  double T  = 0;
  for (int k = 0; k < calls; k++) {
    P dt = c.u(4) ? large_dt<P>(c, true) : gen::small_dt<P>(c);
    c.note("dt", dt);
    T += double(dt);
    dyn.process_euler_explicit(gen::command<P, N>(c, p), dt, ext, false);
  }
  const auto &n = dyn.get_state();
  // sums of up to 100 T terms
  double rel = sizeof(P) == 4 ? std::max(3e-4, 100 * T * 3e-7) : std::max(1e-11, 100 * T * 6e-16);
  if (T > 10) c.cls("T > 10 s");
  for (int i = 0; i < 3; i++) {
    double v0 = s0.kinematics.linear_velocity[i], x0 = s0.kinematics.position[i];
    double a = double(p.gravity[i]) + double(ext[i]) / double(p.vehicle_mass);
    // the two terms may cancel: rounding is relative to their sizes, not to their sum
    double am = std::fabs(double(p.gravity[i])) + std::fabs(double(ext[i]) / double(p.vehicle_mass));
    c.close(double(n.kinematics.linear_velocity[i]), v0 + a * T, rel * (std::fabs(v0) + am * T + 1e-9),
            "velocity after T under constant force");
    // explicit Euler with steps <= 0.01 lags the parabola by at most a*T*0.01/2
    double want  = x0 + v0 * T + 0.5 * a * T * T;
    double slack = 0.5 * std::fabs(a) * T * 0.0100001 + rel * (std::fabs(x0) + std::fabs(v0) * T + am * T * T + 1e-9);
    c.close(double(n.kinematics.position[i]), want, slack, "position after T under constant force");
  }
  c.note("T", T);
  if (T > 0.015 && s0.kinematics.linear_velocity.norm() > 0.1) c.nontrivial();
}

template <typename P, int N>
double gap(const multirotor::state::State<P, N> &a, const multirotor::state::State<P, N> &b, double &scale) {
  double d = 0;
  scale    = 0;
  auto acc = [&](double x, double y, double s) {
    d     = std::max(d, std::fabs(x - y) / (s + std::fabs(x) + std::fabs(y)));
    if (x != x || y != y) d = 1e300;
  };
  for (int i = 0; i < 3; i++) {
    acc(a.kinematics.position[i], b.kinematics.position[i], 1 + b.kinematics.position.norm());
    acc(a.kinematics.linear_velocity[i], b.kinematics.linear_velocity[i], 1 + b.kinematics.linear_velocity.norm());
    acc(a.kinematics.angular_velocity[i], b.kinematics.angular_velocity[i], 1 + b.kinematics.angular_velocity.norm());
    acc(a.kinematics.linear_acceleration[i], b.kinematics.linear_acceleration[i],
        1 + b.kinematics.linear_acceleration.norm());
    acc(a.kinematics.angular_acceleration[i], b.kinematics.angular_acceleration[i],
        1 + b.kinematics.angular_acceleration.norm());
    acc(a.dynamics.force[i], b.dynamics.force[i], 1 + b.dynamics.force.norm());
    acc(a.dynamics.torque[i], b.dynamics.torque[i], 1e-3 + b.dynamics.torque.norm());
  }
  for (int i = 0; i < 4; i++) acc(a.kinematics.orientation.coeffs()[i], b.kinematics.orientation.coeffs()[i], 1);
  for (int i = 0; i < N; i++) {
    acc(a.actuators.motor_angular_velocity[i], b.actuators.motor_angular_velocity[i], 1);
    acc(a.actuators.motor_angular_acceleration[i], b.actuators.motor_angular_acceleration[i],
        1 + b.actuators.motor_angular_acceleration.norm());
  }
  return d;
}

// one long call = the composition of its equal sub-steps (same command, same
// external force, noise drawn per sub-step)
template <typename P, int N>
void composition(Ctx &c) {
  using Dyn  = multirotor::dynamics::Dynamics<P, N>;
  bool noise = c.chance(1, 2);
  gen::narrow() = true;
  auto p        = gen::model_params<P, N>(c, noise);
  gen::narrow() = false;
  p.vehicle_aero_moment_coefficient *= P(1e-2);
  p.force_process_noise_auto_correlation *= P(1e-3);
  p.moment_process_noise_auto_correlation *= P(1e-3);
  auto s0 = gen::state<P, N>(c, p);
  s0.kinematics.angular_velocity *= P(0.2);
  int seed       = int(c.u(50));
  auto cmd       = gen::command<P, N>(c, p);
  gen::V3<P> ext = gen::vec<P>(c, 20);
  P dt           = large_dt<P>(c);
  bool en        = noise && c.chance(3, 4);
  double ratio   = double(dt) / 0.01;
  int n          = int(std::ceil(ratio));
  bool edge      = std::fabs(ratio - std::round(ratio)) < 1e-5;
  std::vector<int> ns{n};
  if (edge) {
    // dt is a multiple of 0.01 up to rounding: either count is a legal split
    int k = int(std::round(ratio));
    ns    = {k, k + 1};
    c.cls("dt a multiple of 0.01");
  }
  c.note("dt", dt);
  c.note("noise", en);
  Dyn one(p, seed, s0);
  one.process_euler_explicit(cmd, dt, ext, en);
  double best = 1e300, scale = 0;
  for (int k : ns) {
    if (k < 1) continue;
    Dyn many(p, seed, s0);
    bool ok = true;
    P sub   = std::min(P(double(dt) / k), P(0.01));
    for (int i = 0; i < k && ok; i++) {
      many.process_euler_explicit(cmd, sub, ext, en);
      ok = gen::bounded(many.get_state()) && many.get_state().kinematics.angular_velocity.norm() < 60 &&
           many.get_state().kinematics.linear_velocity.norm() < 200;
    }
    if (!ok) {
      c.cls("diverging model, not compared");
      return;
    }
    // a run from hardly different a state tells how much the motion amplifies rounding
    double eps = sizeof(P) == 4 ? 1e-6 : 1e-12;
    int sign   = 1;
    auto near  = [&](P v) { return P(double(v) + (sign = -sign) * eps * (1 + std::fabs(double(v)))); };
    auto ps    = s0;
    for (int i = 0; i < 3; i++) {
      ps.kinematics.angular_velocity[i] = near(ps.kinematics.angular_velocity[i]);
      ps.kinematics.linear_velocity[i]  = near(ps.kinematics.linear_velocity[i]);
    }
    for (int i = 0; i < 4; i++) ps.kinematics.orientation.coeffs()[i] = near(ps.kinematics.orientation.coeffs()[i]);
    for (int i = 0; i < N; i++) ps.actuators.motor_angular_velocity[i] = near(ps.actuators.motor_angular_velocity[i]);
    Dyn moved(p, seed, ps);
    for (int i = 0; i < k; i++) moved.process_euler_explicit(cmd, sub, ext, en);
    if (!(gap<P, N>(moved.get_state(), many.get_state(), scale) < (sizeof(P) == 4 ? 1e-3 : 1e-6))) {
      c.cls("amplifies rounding, not compared");
      return;
    }
    best = std::min(best, gap<P, N>(one.get_state(), many.get_state(), scale));
  }
  c.check(best <= (sizeof(P) == 4 ? 5e-3 : 1e-8), "a long step differs from the composition of its sub-steps");
  c.nontrivial();
}
// the simulator passes the whole time step on: it moves as its dynamics alone would
template <typename P, int N>
void whole(Ctx &c) {
  using Sm = multirotor::Simulator<P, N>;
  auto prm = gensim::params<P, N>(c, c.chance(1, 2));
  Sm s(prm);
  if (c.chance(1, 2)) s.arm();
  int n     = c.range(1, 3);
  bool real = false;
  for (int k = 0; k < n; k++) {
    s.set_refence_motors_angular_velocity(gen::command<P, N>(c, prm.dynamics_params.model_params));
    s.update_controller(P(0.01));
    P dt = c.u(4) ? large_dt<P>(c, true) : gen::small_dt<P>(c);
    c.note("dt", dt);
    typename std::remove_reference<decltype(s.get_dynamics())>::type d;
    s.get_dynamics(d);
    d.process_euler_explicit(s.get_actuation_motors_angular_velocity(), dt);
    s.update_dynamics(dt);
    if (!gen::bounded(d.get_state())) {
      c.cls("diverging model, not compared");
      c.check(!gen::bounded(s.get_state()), "the simulator does not follow its diverging dynamics");
      return;
    }
    c.check(same_state<P, N>(s.get_state(), d.get_state()), "the simulator's step is not the dynamics' step");
    real |= dt > P(0.01);
    if (dt > P(2)) c.cls("dt > 2 s");
  }
  if (real) c.nontrivial();
}
static Reg a1("refuse<double,4>", refuse<double, 4>, 1);
static Reg a2("refuse<float,6>", refuse<float, 6>, 1);
static Reg b1("closed form<double,4>", closed_form<double, 4>, 2);
static Reg b2("closed form<float,4>", closed_form<float, 4>, 1);
static Reg b3("closed form<double,6>", closed_form<double, 6>, 1);
static Reg c1("composition<double,4>", composition<double, 4>, 3);
static Reg c2("composition<double,6>", composition<double, 6>, 1);
static Reg c3("composition<float,4>", composition<float, 4>, 1);
static Reg a3("refuse_sim<double,4>", refuse_sim<double, 4>, 1);
static Reg a4("refuse_sim<float,4>", refuse_sim<float, 4>, 1);
static Reg d1("whole<double,4>", whole<double, 4>, 1);
static Reg d2("whole<float,6>", whole<float, 6>, 1);
