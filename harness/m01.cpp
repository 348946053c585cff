// M01: the mixer maps rotor speeds and accelerations to the wrench that the
// sum of the individual rotors produces.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void mixer(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  using Vec   = Eigen::Matrix<P, N, 1>;
  auto p      = gen::model_params<P, N>(c, false);
  bool upd    = c.chance(1, 3);
  auto p0     = upd ? gen::model_params<P, N>(c, false) : p;
  Model model(p0, int(c.u(100)));
  if (upd) {
    c.cls("mixer after update_params");
    int n = c.len(1, 3, 20);
    for (int k = 0; k < n; k++) {
      p = gen::partly<P, N>(c, p0, k ? gen::model_params<P, N>(c, false) : p);
      model.update_params(p);
      p0 = p;
    }
  }
  Vec w, a;
  for (int i = 0; i < N; i++) {
    w[i] = P(c.sreal(6000));
    a[i] = P(c.sreal(20000));
  }
  std::array<R, N> rw, ra, zero;
  for (int i = 0; i < N; i++) {
    rw[size_t(i)] = R(double(w[i]));
    ra[size_t(i)] = R(double(a[i]));
  }
  for (int i = 0; i < N; i++) c.note("rotor pos", gen::str(p.motors_params[size_t(i)].pose.translation()));
  c.note("w", gen::str(w));
  c.note("a", gen::str(a));
  auto ref = refsim::rotor_wrench<P, N>(p, rw, ra);
  close<P>(c, double(model.get_force_thrust_by_motors(w)), ref.force.z, "collective thrust");
  close3<P>(c, model.get_force_vector_thrust_by_motors(w), ref.force, "rotor force");
  close3<P>(c, model.get_torque_by_motors(w, a), ref.torque, "rotor torque");
  // the static forms with the mixers the getters report
  close<P>(c, double(Model::get_force_thrust_by_motors(model.get_mixer_force_vector(), w)), ref.force.z,
           "collective thrust (static)");
  close3<P>(c, Model::get_force_vector_thrust_by_motors(model.get_mixer_force_matrix(), w), ref.force,
            "rotor force (static)");
  close3<P>(c,
            Model::get_torque_by_motors(model.get_mixer_torque_matrix(), model.get_mixer_inertia_matrix(), w, a),
            ref.torque, "rotor torque (static)");
  // columns: one rotor at a time
  const auto M = model.get_mixer_matrix();
  auto M6      = Model::template compute_mixer_matrix<6>(p.motors_params);
  auto M6b     = Model::compute_mixer_matrix_6D(p.motors_params);
  auto J       = Model::compute_mixer_inertia_matrix(p.motors_params);
  for (int i = 0; i < N; i++) {
    std::array<R, N> e, z;
    e[size_t(i)] = R(1.0);
    auto f       = refsim::rotor_wrench<P, N>(p, e, z);
    auto g       = refsim::rotor_wrench<P, N>(p, z, e);
    for (const auto &m : {M, M6, M6b}) {
      Eigen::Matrix<P, 3, 1> top = m.col(i).head(3), bot = m.col(i).tail(3);
      close3<P>(c, top, f.force, "mixer matrix force column");
      close3<P>(c, bot, f.torque, "mixer matrix torque column");
    }
    Eigen::Matrix<P, 3, 1> fm = model.get_mixer_force_matrix().col(i), tm = model.get_mixer_torque_matrix().col(i),
                           jm = model.get_mixer_inertia_matrix().col(i), jc = J.col(i);
    close3<P>(c, fm, f.force, "mixer force matrix column");
    close3<P>(c, tm, f.torque, "mixer torque matrix column");
    close3<P>(c, jm, g.torque, "mixer inertia matrix column");
    close3<P>(c, jc, g.torque, "computed mixer inertia column");
    R fz(f.force.z.v, std::max(f.force.x.m, std::max(f.force.y.m, f.force.z.m)));
    close<P>(c, double(model.get_mixer_force_vector()[i]), fz, "mixer force vector entry");
  }
  // reversing every rotor reverses the wrench of the speeds
  Vec mw = -w;
  Eigen::Matrix<P, 3, 1> f2 = model.get_force_vector_thrust_by_motors(mw);
  close3<P>(c, f2, -ref.force, "force of reversed rotors");
  if (w.cwiseAbs().maxCoeff() > P(1)) c.nontrivial();
}

// rotors in the plane with vertical axes: the 4-row mixer is the 6-row one with
// the zero rows removed
template <typename P, int N>
void planar(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  std::vector<gen::Motor<P>> v;
  for (int i = 0; i < N; i++) {
    v.push_back(gen::motor<P>(c, true));
    // height does not matter for vertical rotors
    if (c.chance(1, 2)) v.back().pose.translation().z() = P(c.sreal(1));
  }
  auto m4  = Model::template compute_mixer_matrix<4>(v);
  auto m4b = Model::compute_mixer_matrix_4D(v);
  auto m4c = Model::compute_mixer_matrix(v);
  auto m6  = Model::template compute_mixer_matrix<6>(v);
  for (int i = 0; i < N; i++) {
    const auto &m = v[size_t(i)];
    double kf = m.thrust_coefficient, kt = m.torque_coefficient, x = m.pose.translation().x(), y = m.pose.translation().y();
    double want[4] = {kf, y * kf, -x * kf, double(m.motor_rotation_direction) * kt};
    for (int r = 0; r < 4; r++) {
      double tol = (sizeof(P) == 4 ? 1e-5 : 1e-13) * std::fabs(want[r]) + 1e-38;
      c.close(double(m4(r, i)), want[r], tol, "4-row mixer entry");
      c.close(double(m4b(r, i)), want[r], tol, "4-row mixer entry (4D)");
      c.close(double(m4c(r, i)), want[r], tol, "default mixer entry");
      c.close(double(m6(r + 2, i)), want[r], tol, "6-row mixer entry");
    }
    c.check(std::fabs(double(m6(0, i))) <= 1e-6 * kf && std::fabs(double(m6(1, i))) <= 1e-6 * kf,
            "vertical rotor pushes sideways");
  }
  c.note("rotor 0", gen::str(v[0].pose.translation()));
  c.nontrivial();
}
static Reg a("mixer<double,4>", mixer<double, 4>, 3);
static Reg b("mixer<float,4>", mixer<float, 4>, 1);
static Reg d("mixer<double,6>", mixer<double, 6>, 2);
static Reg e("mixer<float,6>", mixer<float, 6>, 1);
static Reg f("mixer<double,8>", mixer<double, 8>, 1);
static Reg f1("mixer<double,1>", mixer<double, 1>, 1);
static Reg g("planar<double,4>", planar<double, 4>, 1);
static Reg h("planar<float,6>", planar<float, 6>, 1);
