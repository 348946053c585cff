// M02: standard airframe configurations (docs/CommonConfigurations.md).
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
double tolr() {
  return sizeof(P) == 4 ? 2e-6 : 1e-14;
}

template <typename P, int N>
void config(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  P kf = P(c.logpos(1e-9, 10)), kt = P(c.logpos(1e-10, 10)), x = P(c.logpos(1e-3, 10)), y = P(c.logpos(1e-3, 10)),
    mn = P(c.sreal(500)), mx = mn + P(c.zlogpos(1e-3, 1e4)), tc = P(c.zlogpos(1e-5, 10)), J = P(c.zlogpos(1e-9, 10));
  if (c.chance(1, 3)) y = x;
  if (c.u(30) == 29) (c.u(2) ? x : y) = P(0);  // all rotors in one line
  std::vector<gen::Motor<P>> v;
  std::vector<std::array<double, 2>> pos;
  double dx = x, dy = y;
  if (N == 4) {
    if (c.u(2)) {
      c.cls("x");
      v   = Model::create_quadrotor_x_config(kf, kt, x, y, mn, mx, tc, J);
      pos = {{dx, -dy}, {dx, dy}, {-dx, dy}, {-dx, -dy}};
    } else {
      c.cls("plus");
      v   = Model::create_quadrotor_plus_config(kf, kt, x, y, mn, mx, tc, J);
      pos = {{dx, 0}, {0, dy}, {-dx, 0}, {0, -dy}};
    }
  } else {
    c.cls("hexa");
    v = Model::create_hexacopter_config(kf, kt, x, mn, mx, tc, J);
    for (int i = 0; i < 6; i++) pos.push_back({dx * std::cos(i * M_PI / 3), dx * std::sin(i * M_PI / 3)});
    dy = dx;
  }
  c.note("kf", kf);
  c.note("kt", kt);
  c.note("x", x);
  c.note("y", y);
  c.check(v.size() == size_t(N), "number of rotors");
  const double scale = std::max(dx, dy);
  for (int i = 0; i < N; i++) {
    const auto &m = v[size_t(i)];
    c.check(m.thrust_coefficient == kf && m.torque_coefficient == kt, "coefficients of the rotor");
    c.check(m.min_speed == mn && m.max_speed == mx, "speed limits of the rotor");
    c.check(m.time_constant == tc && m.rotational_inertia == J, "lag and inertia of the rotor");
    c.check(m.motor_rotation_direction == (i % 2 == 0 ? 1 : -1), "rotation direction of the rotor");
    c.close(double(m.pose.translation().x()), pos[size_t(i)][0], tolr<P>() * scale, "rotor x");
    c.close(double(m.pose.translation().y()), pos[size_t(i)][1], tolr<P>() * scale, "rotor y");
    c.close(double(m.pose.translation().z()), 0, tolr<P>() * scale, "rotor z");
    c.check((m.pose.linear() - gen::M3<P>::Identity()).norm() <= P(tolr<P>()), "rotor axis is vertical");
  }
  // the model built from it: matrices of docs/CommonConfigurations.md
  multirotor::model::ModelParams<P, N> p;
  p.motors_params   = v;
  p.vehicle_mass    = P(c.logpos(0.1, 10));
  p.vehicle_inertia = gen::M3<P>::Identity();
  Model model(p);
  auto m4 = Model::compute_mixer_matrix_4D(v);
  for (int i = 0; i < N; i++) {
    double s        = i % 2 == 0 ? 1 : -1;
    double col[4]   = {double(kf), pos[size_t(i)][1] * double(kf), -pos[size_t(i)][0] * double(kf), s * double(kt)};
    double mag[4]   = {double(kf), scale * double(kf), scale * double(kf), double(kt)};
    for (int r = 0; r < 4; r++) {
      c.close(double(m4(r, i)), col[r], 4 * tolr<P>() * mag[r], "documented mixer matrix");
      c.close(double(model.get_mixer_matrix()(r + 2, i)), col[r], 4 * tolr<P>() * mag[r], "mixer matrix of the model");
    }
    c.close(double(model.get_mixer_inertia_matrix()(2, i)), s * double(J), 4 * tolr<P>() * double(J), "inertia row");
  }
  // equal speeds: pure thrust N kf w^2, no torque
  P w = P(c.logpos(1, 3000));
  Eigen::Matrix<P, N, 1> ws = Eigen::Matrix<P, N, 1>::Constant(w), al = Eigen::Matrix<P, N, 1>::Constant(P(c.sreal(100)));
  double f1 = double(kf) * double(w) * double(w);
  c.close(double(model.get_force_thrust_by_motors(ws)), N * f1, 20 * tolr<P>() * N * f1, "hover thrust");
  Eigen::Matrix<P, 3, 1> t = model.get_torque_by_motors(ws, al);
  double tt = N * (f1 * scale + double(kt) * double(w) * double(w) + double(J) * std::fabs(double(al[0])));
  for (int k = 0; k < 3; k++) c.close(double(t[k]), 0, 20 * tolr<P>() * tt, "torque at equal speeds");
  // full control authority: thrust and the three torques are independent
  Eigen::Matrix<double, 4, N> n4 = m4.template cast<double>();
  n4.row(0) /= double(kf);
  n4.row(1) /= double(kf) * dy;
  n4.row(2) /= double(kf) * dx;
  n4.row(3) /= double(kt);
  if (dx == 0 || dy == 0) return;
  Eigen::JacobiSVD<Eigen::MatrixXd> svd{Eigen::MatrixXd(n4)};
  c.check(svd.singularValues()[3] > 0.5, "configuration is not fully actuated");
  if (x != y) c.cls("x != y");
  c.nontrivial();
}
static Reg a("config<double,4>", config<double, 4>, 3);
static Reg b("config<float,4>", config<float, 4>, 1);
static Reg d("config<double,6>", config<double, 6>, 2);
static Reg e("config<float,6>", config<float, 6>, 1);
