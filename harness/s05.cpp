// S05: reproducible, isolated, replaceable: equal parameters and equal calls give
// equal histories; simulators and copies share nothing; the accessors of the parts
// agree; replacing one part leaves the others alone.
#include "simops.hpp"
using namespace pbt;
using namespace ref;
using namespace simops;
using multirotor::ControlMode;
using multirotor::YawControlMode;

template <typename P, int N>
void twins(Ctx &c) {
  auto prm = gensim::params<P, N>(c, true), oth = gensim::params<P, N>(c, true);
  Sim<P, N> a(prm), z(oth), b(prm);
  // a simulator that was something else before
  Sim<P, N> d(oth);
  for (int k = 0, n = c.range(0, 3); k < n; k++) apply<P, N>(d, op<P, N>(c, oth));
  d = Sim<P, N>(prm);
  std::vector<Op<P, N>> ops;
  int n = c.len(1, 14, 300), fork = c.range(0, n - 1);
  int drive = 0;
  for (int k = 0; k < n; k++) {
    auto o = op<P, N>(c, prm);
    ops.push_back(o);
    if (o.kind > 11) drive++;
    apply<P, N>(a, o);
    if (c.chance(1, 3)) apply<P, N>(z, op<P, N>(c, oth));  // a stranger in between
    if (!sane<P, N>(a)) return;
    if (k == fork) {
      // a copy in the middle of the history carries on alone
      Sim<P, N> cp(a), keep(a);
      for (int j = 0; j < 4; j++) apply<P, N>(cp, op<P, N>(c, prm));
      std::string w = differs<P, N>(a, keep);
      c.check(w.empty(), "using a copy changed the original: " + w);
      // and, given the same calls, does the same
      Sim<P, N> x(a), y(a);
      for (int j = 0; j < 4; j++) {
        auto q = op<P, N>(c, prm);
        apply<P, N>(x, q);
        if (!sane<P, N>(x)) break;
        apply<P, N>(y, q);
        std::string e = differs<P, N>(x, y);
        c.check(e.empty(), "two copies diverge: " + e);
      }
    }
  }
  for (auto &o : ops) {
    apply<P, N>(b, o);
    apply<P, N>(d, o);
  }
  std::string w = differs<P, N>(a, b);
  c.check(w.empty(), "same calls, different " + w);
  w = differs<P, N>(a, d);
  c.check(w.empty(), "an earlier life shows in the " + w);
  c.note("ops", n);
  c.note("steps", drive);
  if (drive > 1) c.nontrivial();
}

// parts: accessors and replacement
template <typename P, int N>
void parts(Ctx &c) {
  using Sm  = Sim<P, N>;
  auto prm  = gensim::params<P, N>(c, true), oth = gensim::params<P, N>(c, true);
  Sm s(prm);
  for (int k = 0, n = c.range(0, 6); k < n; k++) apply<P, N>(s, op<P, N>(c, prm));
  if (!sane<P, N>(s)) throw Discard();
  // the three accessors of every part show the same object
  typename std::remove_reference<decltype(s.get_dynamics())>::type dyn;
  typename std::remove_reference<decltype(s.get_controller())>::type ctl;
  typename std::remove_reference<decltype(s.get_imu())>::type im;
  typename std::remove_reference<decltype(s.get_inertial_odometry())>::type od;
  s.get_dynamics(dyn);
  s.get_controller(ctl);
  s.get_imu(im);
  s.get_inertial_odometry(od);
  c.check(&s.get_dynamics() == &s.get_dynamics_const() && &s.get_controller() == &s.get_controller_const() &&
              &s.get_imu() == &s.get_imu_const() && &s.get_inertial_odometry() == &s.get_inertial_odometry_const() &&
              &s.get_state() == &s.get_dynamics().get_state(),
          "the accessors show different parts");
  multirotor::state::State<P, N> st;
  s.get_state(st);
  c.check(same_state<P, N>(st, s.get_state()) && same_state<P, N>(dyn.get_state(), st), "state accessors");
  {
    multirotor::state::State<P, N> s2;
    dyn.get_state(s2);
    c.check(same_state<P, N>(s2, st), "state accessors of the dynamics");
    // pointer forms; a null pointer changes nothing
    multirotor::dynamics::Dynamics<P, N> t;
    const multirotor::state::State<P, N> *null_state = nullptr;
    const multirotor::model::Model<P, N> *null_model = nullptr;
    t.set_state(&s2);
    c.check(same_state<P, N>(t.get_state(), st), "set_state by pointer");
    t.set_state(null_state);
    c.check(same_state<P, N>(t.get_state(), st), "set_state with a null pointer");
    t.set_model(&dyn.get_model_const());
    c.check(t.get_model_const().get_mass() == dyn.get_model_const().get_mass(), "set_model by pointer");
    t.set_model(null_model);
    c.check(t.get_model_const().get_mass() == dyn.get_model_const().get_mass(), "set_model with a null pointer");
    multirotor::model::Model<P, N> md;
    dyn.get_model(md);
    c.check(md.get_mass() == prm.dynamics_params.model_params.vehicle_mass && &dyn.get_model() == &dyn.get_model_const(), "model accessors");
    // same model, same state, same noise sequence: same future
    multirotor::dynamics::Dynamics<P, N> u(md, s2), r(dyn);
    for (int k = 0; k < 3; k++) {
      auto w = gen::command<P, N>(c, prm.dynamics_params.model_params);
      P dt   = gen::small_dt<P>(c);
      if (!gen::bounded(t.get_state())) break;
      t.process_euler_explicit(w, dt);
      u.process_euler_explicit(w, dt);
      r.process_euler_explicit(w, dt);
      if (!gen::bounded(t.get_state())) break;
      c.check(same_state<P, N>(t.get_state(), u.get_state()) && same_state<P, N>(t.get_state(), r.get_state()), "copies of the dynamics diverge");
    }
    if (c.chance(1, 2)) {
      // every way to construct the dynamics
      auto &dp = prm.dynamics_params;
      multirotor::dynamics::Dynamics<P, N> d1(dp), d2(dp.model_params, dp.model_seed, dp.state),
          d3(multirotor::model::Model<P, N>(dp.model_params, dp.model_seed), dp.state), d4(dp.model_params, dp.state);
      c.check(same_state<P, N>(d1.get_state(), dp.state) && same_state<P, N>(d2.get_state(), dp.state) && same_state<P, N>(d3.get_state(), dp.state) &&
                  same_state<P, N>(d4.get_state(), dp.state),
              "initial state");
      auto w = gen::command<P, N>(c, prm.dynamics_params.model_params);
      P dt   = gen::small_dt<P>(c);
      d1.process_euler_explicit(w, dt);
      d2.process_euler_explicit(w, dt);
      d3.process_euler_explicit(w, dt);
      if (gen::bounded(d1.get_state()) && d1.get_state().dynamics.force.allFinite() && d1.get_state().dynamics.torque.allFinite())
        c.check(same_state<P, N>(d1.get_state(), d2.get_state()) && same_state<P, N>(d1.get_state(), d3.get_state()), "the constructors of the dynamics differ");
    }
  }
  // a simulator put together from the parts handed out by value goes on like the original
  {
    Sm x(s), y(s), other(oth);
    y.get_dynamics()          = other.get_dynamics();
    y.get_controller()        = other.get_controller();
    y.get_imu()               = other.get_imu();
    y.get_inertial_odometry() = other.get_inertial_odometry();
    y.get_dynamics()          = dyn;
    y.get_controller()        = ctl;
    y.get_imu()               = im;
    y.get_inertial_odometry() = od;
    for (int j = 0, m = c.range(0, 6); j <= m; j++) {
      if (!sane<P, N>(x)) break;
      std::string e = differs<P, N>(x, y);
      c.check(e.empty(), "the parts handed out by value are not those of the simulator: " + e);
      auto q = op<P, N>(c, prm);
      apply<P, N>(x, q);
      apply<P, N>(y, q);
    }
  }
  // replace one part: as a fresh one, the others as they were
  Sm before(s), fresh(oth);
  int which = int(c.u(4));
  if (which == 0) s.set_dynamics_params(oth.dynamics_params);
  if (which == 1) s.set_controller_params(oth.controller_params);
  if (which == 2) s.set_imu_params(oth.imu_params);
  if (which == 3) s.set_inertial_odometry_params(oth.inertial_odometry_params);
  c.cls("replaced " + std::to_string(which));
  const Sm &D = which == 0 ? fresh : before, &K = which == 1 ? fresh : before, &I = which == 2 ? fresh : before, &O = which == 3 ? fresh : before;
  c.check(same_state<P, N>(s.get_state(), D.get_state()), "state after replacing a part");
  c.check(s.get_dynamics_const().get_model_const().get_mass() == D.get_dynamics_const().get_model_const().get_mass(), "model after replacing a part");
  gen::V3<P> g1, a1, g2, a2, x1, y1, x2, y2;
  s.get_imu_measurement(g1, a1);
  I.get_imu_measurement(g2, a2);
  s.get_imu_const().get_bias(x1, y1);
  I.get_imu_const().get_bias(x2, y2);
  c.check(g1 == g2 && a1 == a2 && x1 == x2 && y1 == y2, "IMU after replacing a part");
  auto o1 = s.get_odometry(), o2 = O.get_odometry();
  c.check(o1.position == o2.position && o1.linear_velocity == o2.linear_velocity && o1.orientation.coeffs() == o2.orientation.coeffs(), "odometry after replacing a part");
  c.check(s.get_controller_const().get_desired_motor_angular_velocity() == K.get_controller_const().get_desired_motor_angular_velocity() &&
              s.get_controller_const().get_acro_controller_const().get_kp_rot() == K.get_controller_const().get_acro_controller_const().get_kp_rot() &&
              s.get_controller_const().get_indi_controller_const().get_inertia() == K.get_controller_const().get_indi_controller_const().get_inertia(),
          "controller after replacing a part");
  c.check(s.get_reference_position() == before.get_reference_position() && s.get_control_mode() == before.get_control_mode() &&
              s.get_armed() == before.get_armed() && s.get_reference_yaw() == before.get_reference_yaw() &&
              s.get_actuation_motors_angular_velocity() == before.get_actuation_motors_angular_velocity(),
          "commands after replacing a part");
  // setting the parameters of a part is exchanging that part, now and later
  {
    Sm x(s), y(before);
    using Dynamics   = typename std::remove_reference<decltype(y.get_dynamics())>::type;
    using Controller = typename std::remove_reference<decltype(y.get_controller())>::type;
    using Imu        = typename std::remove_reference<decltype(y.get_imu())>::type;
    using Odometry   = typename std::remove_reference<decltype(y.get_inertial_odometry())>::type;
    if (which == 0) y.get_dynamics() = Dynamics(oth.dynamics_params);
    if (which == 1) y.get_controller() = Controller(oth.controller_params);
    if (which == 2) y.get_imu() = Imu(oth.imu_params);
    if (which == 3) y.get_inertial_odometry() = Odometry(oth.inertial_odometry_params);
    for (int j = 0, m = c.range(0, 6); j <= m; j++) {
      if (!sane<P, N>(x)) break;
      std::string e = differs<P, N>(x, y);
      c.check(e.empty(), "set_*_params is not a replacement of the part: " + e);
      auto q = op<P, N>(c, prm);
      apply<P, N>(x, q);
      apply<P, N>(y, q);
    }
  }
  // the next reading and the next step come from the new part
  P dt = P(c.logpos(1e-3, 0.009));
  gen::V3<P> f = gen::vec<P>(c, 10), w = gen::vec<P>(c, 10);
  Sm i2(I);
  s.get_imu().update(dt, f, w);
  i2.get_imu().update(dt, f, w);
  s.get_imu_measurement(g1, a1);
  i2.get_imu_measurement(g2, a2);
  c.check(g1 == g2 && a1 == a2, "IMU after replacing a part");
  Sm O2(O);
  s.get_inertial_odometry().update(w, f, dt);
  O2.get_inertial_odometry().update(w, f, dt);
  o1 = s.get_odometry();
  o2 = O2.get_odometry();
  c.check(o1.position == o2.position && o1.linear_velocity == o2.linear_velocity && o1.orientation.coeffs() == o2.orientation.coeffs(), "odometry after replacing a part");
  c.nontrivial();
}
static Reg a("twins<double,4>", twins<double, 4>, 3);
static Reg b("twins<float,4>", twins<float, 4>, 1);
static Reg d("twins<double,6>", twins<double, 6>, 2);
static Reg e("parts<double,4>", parts<double, 4>, 2);
static Reg f("parts<float,6>", parts<float, 6>, 1);
