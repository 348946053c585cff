// M03: model parameters are validated as a whole: an invalid set leaves the
// model as it was, a valid one takes effect completely.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
using Params = multirotor::model::ModelParams<P, N>;

// everything a model reports, as numbers
template <typename P, int N>
std::vector<double> snapshot(multirotor::model::Model<P, N> &m) {
  std::vector<double> o;
  auto put  = [&](double v) { o.push_back(v); };
  auto putm = [&](const auto &x) {
    for (int i = 0; i < x.rows(); i++)
      for (int j = 0; j < x.cols(); j++) put(double(x(i, j)));
  };
  auto par = [&](const Params<P, N> &p) {
    put(double(p.vehicle_mass));
    putm(p.vehicle_inertia);
    put(double(p.vehicle_drag_coefficient));
    putm(p.vehicle_aero_moment_coefficient);
    putm(p.gravity);
    put(double(p.force_process_noise_auto_correlation));
    put(double(p.moment_process_noise_auto_correlation));
  };
  auto mot = [&](const std::vector<gen::Motor<P>> &v) {
    put(double(v.size()));
    for (auto &x : v) {
      put(x.motor_rotation_direction);
      put(double(x.thrust_coefficient));
      put(double(x.torque_coefficient));
      putm(x.pose.matrix());
      put(double(x.min_speed));
      put(double(x.max_speed));
      put(double(x.time_constant));
      put(double(x.rotational_inertia));
    }
  };
  par(m.get_params());
  mot(m.get_params().motors_params);
  mot(m.get_motors());
  put(m.get_num_rotors());
  put(double(m.get_mass()));
  putm(m.get_vehicle_inertia());
  put(double(m.get_vehicle_drag_coefficient()));
  putm(m.get_vehicle_aero_moment_coefficient());
  putm(m.get_gravity());
  put(double(m.get_force_process_noise_auto_correlation()));
  put(double(m.get_moment_process_noise_auto_correlation()));
  putm(m.get_mixer_matrix());
  putm(m.get_mixer_force_vector());
  putm(m.get_mixer_force_matrix());
  putm(m.get_mixer_torque_matrix());
  putm(m.get_mixer_inertia_matrix());
  Eigen::Matrix<P, N, 1> w, a;
  for (int i = 0; i < N; i++) {
    w[i] = P(100 + 37 * i);
    a[i] = P(3 - i);
  }
  gen::V3<P> v(P(1.5), P(-2), P(0.25));
  put(double(m.get_force_thrust_by_motors(w)));
  putm(m.get_force_vector_thrust_by_motors(w));
  putm(m.get_torque_by_motors(w, a));
  putm(m.get_drag_force(v));
  putm(m.get_aerodynamic_moment(v));
  return o;
}

template <typename P, int N>
std::vector<double> expected(const Params<P, N> &p) {
  multirotor::model::Model<P, N> fresh(p);
  return snapshot<P, N>(fresh);
}

// the parameters the model reports are the ones given, field by field
template <typename P, int N>
void reports(Ctx &c, const multirotor::model::Model<P, N> &m, const Params<P, N> &p) {
  c.check(m.get_mass() == p.vehicle_mass && m.get_params().vehicle_mass == p.vehicle_mass, "mass");
  c.check(m.get_vehicle_inertia() == p.vehicle_inertia && m.get_params().vehicle_inertia == p.vehicle_inertia, "inertia");
  c.check(m.get_vehicle_drag_coefficient() == p.vehicle_drag_coefficient &&
              m.get_params().vehicle_drag_coefficient == p.vehicle_drag_coefficient,
          "drag");
  c.check(m.get_vehicle_aero_moment_coefficient() == p.vehicle_aero_moment_coefficient &&
              m.get_params().vehicle_aero_moment_coefficient == p.vehicle_aero_moment_coefficient,
          "aero");
  c.check(m.get_gravity() == p.gravity && m.get_params().gravity == p.gravity, "gravity");
  c.check(m.get_force_process_noise_auto_correlation() == p.force_process_noise_auto_correlation &&
              m.get_params().force_process_noise_auto_correlation == p.force_process_noise_auto_correlation,
          "force noise");
  c.check(m.get_moment_process_noise_auto_correlation() == p.moment_process_noise_auto_correlation &&
              m.get_params().moment_process_noise_auto_correlation == p.moment_process_noise_auto_correlation,
          "moment noise");
  c.check(m.get_num_rotors() == N && m.get_motors().size() == size_t(N), "number of rotors");
  for (int i = 0; i < N; i++) {
    const auto &a = m.get_motors()[size_t(i)], &b = p.motors_params[size_t(i)];
    c.check(a.motor_rotation_direction == b.motor_rotation_direction && a.thrust_coefficient == b.thrust_coefficient &&
                a.torque_coefficient == b.torque_coefficient && a.pose.matrix() == b.pose.matrix() &&
                a.min_speed == b.min_speed && a.max_speed == b.max_speed && a.time_constant == b.time_constant &&
                a.rotational_inertia == b.rotational_inertia,
            "rotor parameters");
  }
}

// symmetric, all diagonal entries positive, determinant negative
template <typename P>
gen::M3<P> indefinite(Ctx &c) {
  gen::M3<P> f;
  double m = c.logpos(1e-3, 10), x = m, y = m * c.logpos(0.2, 5), z = m * c.logpos(0.2, 5);
  f << P(x), P(0), P(0), P(0), P(y), P(0), P(0), P(0), P(z);
  int i = int(c.u(3)), j = (i + 1) % 3;
  P o     = P((c.u(2) ? 1 : -1) * c.uniform(1.5, 20)) * std::sqrt(f(i, i) * f(j, j));
  f(i, j) = f(j, i) = o;
  return f;
}

// break one aspect of a valid set
template <typename P, int N>
std::string spoil(Ctx &c, Params<P, N> &p) {
  P neg   = P(-c.logpos(1e-9, 1e3));
  auto &m = p.motors_params[size_t(c.u(N))];
  switch (c.u(12)) {
    case 10: p.vehicle_inertia = indefinite<P>(c); return "inertia with negative determinant, positive diagonal";
    case 11: p.vehicle_aero_moment_coefficient = indefinite<P>(c); return "aero coefficient with negative determinant, positive diagonal";
    case 0: p.vehicle_mass = neg; return "negative mass";
    case 1: p.vehicle_drag_coefficient = neg; return "negative drag";
    case 2: {
      gen::M3<P> f = gen::spd<P>(c, 1e-3, 10, 10);
      p.vehicle_inertia = c.u(2) ? gen::M3<P>(-f) : gen::M3<P>(f * Eigen::DiagonalMatrix<P, 3>(P(1), P(-1), P(1)));
      return "inertia with negative determinant";
    }
    case 3: {
      gen::M3<P> f = gen::spd<P>(c, 1e-3, 10, 10);
      p.vehicle_aero_moment_coefficient =
          c.u(2) ? gen::M3<P>(-f) : gen::M3<P>(f * Eigen::DiagonalMatrix<P, 3>(P(-1), P(1), P(1)));
      return "aero coefficient with negative determinant";
    }
    case 4: {
      size_t n = c.u(2) ? size_t(N) + 1 + c.u(3) : size_t(c.u(N));
      p.motors_params.resize(n, p.motors_params[0]);
      return "wrong number of motors";
    }
    case 5: m.max_speed = m.min_speed - P(c.logpos(1e-2, 1e3)); return "max speed below min speed";
    case 6: m.time_constant = neg; return "negative time constant";
    case 7: m.rotational_inertia = neg; return "negative rotational inertia";
    case 8: m.thrust_coefficient = neg; return "negative thrust coefficient";
    default: m.torque_coefficient = neg; return "negative torque coefficient";
  }
}

template <typename P, int N>
void updates(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  auto cur    = gen::model_params<P, N>(c, true);
  Model model(cur, int(c.u(50)));
  auto want = snapshot<P, N>(model);
  reports<P, N>(c, model, cur);
  int ops   = c.len(1, 6, 60);
  bool bad = false;
  for (int k = 0; k < ops; k++) {
    auto p = gen::model_params<P, N>(c, true);
    for (auto &m : p.motors_params)
      if (c.chance(1, 12)) m.max_speed = m.min_speed;
    if (c.chance(1, 2)) {
      std::string why = spoil<P, N>(c, p);
      if (c.chance(1, 6) && !p.motors_params.empty() && p.motors_params.size() == size_t(N)) spoil<P, N>(c, p);
      c.cls(why);
      c.note("op", why);
      c.check(!model.check_params(p), "accepted: " + why);
      model.update_params(p);
      auto got = snapshot<P, N>(model);
      c.check(got == want, "rejected parameters changed the model: " + why);
      reports<P, N>(c, model, cur);
      bad = true;
    } else {
      c.cls("valid update");
      if (c.u(2)) p = gen::partly<P, N>(c, cur, p);
      c.note("op", "valid update, mass " + std::to_string(double(p.vehicle_mass)));
      c.check(model.check_params(p), "valid parameters rejected");
      model.update_params(p);
      cur      = p;
      want     = expected<P, N>(p);
      auto got = snapshot<P, N>(model);
      c.check(got == want, "model after update differs from a fresh model");
      reports<P, N>(c, model, cur);
    }
  }
  if (bad) c.nontrivial();
}

// an update through Dynamics::get_model() drives the next step
template <typename P, int N>
void in_dynamics(Ctx &c) {
  using Dyn = multirotor::dynamics::Dynamics<P, N>;
  auto p0 = gen::model_params<P, N>(c, false), p1 = gen::model_params<P, N>(c, false);
  if (c.u(2)) p1 = gen::partly<P, N>(c, p0, p1);
  auto s  = gen::state<P, N>(c, p1);
  Dyn a(p0, s), b(p1, s);
  bool invalid = c.chance(1, 2);
  if (invalid) {
    b = Dyn(p0, s);
    spoil<P, N>(c, p1);
    c.cls("invalid update");
  }
  if (c.u(2)) {
    a.get_model().update_params(p1);
  } else {
    multirotor::model::Model<P, N> m = a.get_model();
    m.update_params(p1);
    a.set_model(m);
  }
  auto cmd = gen::command<P, N>(c, p0);
  P dt     = gen::small_dt<P>(c);
  for (int k = 0; k < 3; k++) {
    a.process_euler_explicit(cmd, dt, gen::V3<P>::Zero(), false);
    b.process_euler_explicit(cmd, dt, gen::V3<P>::Zero(), false);
    const auto &x = a.get_state(), &y = b.get_state();
    if (!gen::bounded(y)) break;
    c.check(x.kinematics.position == y.kinematics.position && x.kinematics.linear_velocity == y.kinematics.linear_velocity &&
                x.kinematics.angular_velocity == y.kinematics.angular_velocity &&
                x.actuators.motor_angular_velocity == y.actuators.motor_angular_velocity,
            "dynamics do not use the updated model");
  }
  c.note("mass", p1.vehicle_mass);
  c.nontrivial();
}
static Reg a("updates<double,4>", updates<double, 4>, 3);
static Reg b("updates<float,4>", updates<float, 4>, 1);
static Reg d("updates<double,6>", updates<double, 6>, 2);
static Reg e("updates<float,6>", updates<float, 6>, 1);
static Reg f("in_dynamics<double,4>", in_dynamics<double, 4>, 1);
static Reg g("in_dynamics<float,6>", in_dynamics<float, 6>, 1);
