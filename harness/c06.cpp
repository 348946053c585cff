// C06: body-rate controller and control allocation.
#include "refctl.hpp"
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

// law over histories: rate PID -> torque with the gyroscopic term -> squared
// rotor speeds through the inverse mixer -> signed square root
template <typename P, int N>
void law(Ctx &c) {
  using V = gen::V3<P>;
  using C = indi_controller::IndiController<P, N>;
  auto prm = refctl::indi_params<P, N>(c);
  C ctl;
  switch (c.u(3)) {
    case 0: ctl = C(prm); break;
    case 1: ctl = C(prm.inertia, prm.mixer_matrix_inverse, prm.pid_params); break;
    default:
      ctl = C(refctl::indi_params<P, N>(c));
      ctl.update_params(prm);
      c.cls("reconfigured");
  }
  refpid::Pid<P, 3> pid;
  pid.configure(prm.pid_params);
  int n  = c.len(1, 8, 400);
  P dt   = refpid::step_time<P>(c);
  bool real = false;
  for (int k = 0; k < n; k++) {
    if (k && c.chance(1, 8)) {
      switch (c.u(5)) {
        case 0: {
          auto t      = refctl::indi_params<P, N>(c);
          prm.inertia = gen::partly(c, prm.inertia, t.inertia);
          ctl.update_inertia(prm.inertia);
          break;
        }
        case 1: {
          auto t                   = refctl::indi_params<P, N>(c);
          prm.mixer_matrix_inverse = gen::partly(c, prm.mixer_matrix_inverse, t.mixer_matrix_inverse);
          ctl.update_mixer_matrix_inverse(prm.mixer_matrix_inverse);
          break;
        }
        case 2:
          prm = refctl::partly<P, N>(c, prm, refctl::indi_params<P, N>(c));
          ctl.update_params(prm);
          pid.configure(prm.pid_params);
          break;
        case 3:
          ctl.reset_controller();
          pid.restart();
          break;
        default:
          prm.pid_params = refpid::changed<P, 3>(c, prm.pid_params);
          ctl.update_pid_params(prm.pid_params);
          pid.configure(prm.pid_params);
      }
      c.cls("changed in flight");
    }
    c.check(ctl.get_inertia() == prm.inertia && ctl.get_mixer_matrix_inverse() == prm.mixer_matrix_inverse,
            "parameters in force");
    V w = gen::vec<P>(c, 30), wd = gen::vec<P>(c, 30);
    P T = P(c.u(6) == 0 ? c.sreal(100) : c.zlogpos(0.01, 500));
    if (c.chance(1, 3)) dt = refpid::step_time<P>(c);
    bool zero = false;
    for (int i = 0; i < 3; i++) zero |= w[i] == wd[i];
    if (zero && pid.reset_flag) continue;  // the sign of a zero error is not defined
    auto m = ctl.acro_to_motor_angular_velocity(w, T, wd, dt);
    close_each<P>(c, ctl.get_angular_velocity_error(), v3(wd) - v3(w), "rate error");
    V e = ctl.get_angular_velocity_error();
    pid.template step<V>(double(dt), e, nullptr);
    if (pid.ambiguous) {
      c.cls("stopped at a rounding-dependent branch");
      break;
    }
    V al = ctl.get_desired_angular_acceleration();
    for (int i = 0; i < 3; i++) close<P>(c, double(al[i]), pid.out[size_t(i)], "angular acceleration asked for");
    V3 tq = refctl::torque(m3(prm.inertia), v3(al), v3(wd));
    close3<P>(c, ctl.get_desired_torque(), tq, "torque asked for");
    c.check(ctl.get_desired_thrust()[0] == P(0) && ctl.get_desired_thrust()[1] == P(0) && ctl.get_desired_thrust()[2] == T,
            "thrust asked for");
    c.check(ctl.get_motor_angular_velocity() == m, "get_motor_angular_velocity");
    refctl::check_motors<P, N>(c, m, refctl::allocation<P, N>(prm.mixer_matrix_inverse, double(T), tq));
    if (k < 3) {
      c.note("rates", gen::str(w) + " -> " + gen::str(wd));
      c.note("thrust", T);
      c.note("rotors", gen::str(m));
    }
    real |= m.norm() > P(0) && al.norm() > P(0);
  }
  if (real) c.nontrivial();
}

// quadrotor: the inverse of the mixer really allocates the wrench: rotors turning
// at the commanded speeds produce the thrust and the torque asked for
template <typename P>
void quad(Ctx &c) {
  using Model = multirotor::model::Model<P, 4>;
  using V     = gen::V3<P>;
  P kf = P(c.logpos(1e-8, 1e-4)), kt = P(double(kf) * c.logpos(0.005, 0.5)), x = P(c.logpos(0.03, 1.5)),
    y = P(double(x) * c.logpos(0.3, 3));
  std::vector<gen::Motor<P>> ms;
  int kind = int(c.u(3));
  if (kind == 0) {
    ms = Model::create_quadrotor_x_config(kf, kt, x, y, P(0), P(5000), P(0.02), P(1e-6));
    c.cls("x");
  } else if (kind == 1) {
    ms = Model::create_quadrotor_plus_config(kf, kt, x, y, P(0), P(5000), P(0.02), P(1e-6));
    c.cls("plus");
  } else {
    ms = Model::create_quadrotor_x_config(kf, kt, x, y, P(0), P(5000), P(0.02), P(1e-6));
    for (auto &m : ms) {  // irregular but still independent
      m.thrust_coefficient *= P(c.uniform(0.7, 1.4));
      m.torque_coefficient *= P(c.uniform(0.7, 1.4));
      m.pose.translation()[0] *= P(c.uniform(0.7, 1.4));
      m.pose.translation()[1] *= P(c.uniform(0.7, 1.4));
    }
    c.cls("irregular");
  }
  auto mix = Model::template compute_mixer_matrix<6>(ms);
  auto inv = indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(mix);
  double T = c.zlogpos(0.1, 500);
  Eigen::Matrix<double, 6, 1> want;
  want << 0, 0, T, c.sreal(5), c.sreal(5), c.sreal(1);
  Eigen::Matrix<double, 4, 1> sq  = inv.template cast<double>() * want;
  Eigen::Matrix<double, 6, 1> got = Eigen::Matrix<double, 6, 1>::Zero();
  double scale[6] = {0}, unit[6] = {0}, big = 0;
  for (int i = 0; i < 4; i++) {
    double s = 0;
    for (int j = 0; j < 6; j++) s += std::fabs(double(inv(i, j)) * want[j]);
    big = std::max(big, s);
  }
  for (int i = 0; i < 4; i++) {
    const auto &m = ms[size_t(i)];
    double f = double(m.thrust_coefficient) * sq[i], tx = double(m.pose.translation()[0]), ty = double(m.pose.translation()[1]);
    double col[6] = {0, 0, f, ty * f, -tx * f, double(m.motor_rotation_direction) * double(m.torque_coefficient) * sq[i]};
    for (int j = 0; j < 6; j++) {
      got[j] += col[j];
      unit[j] = std::max(unit[j], sq[i] != 0 ? std::fabs(col[j] / sq[i]) : 0);
    }
  }
  for (int j = 0; j < 6; j++) scale[j] = 4 * unit[j] * big;
  double cond = 0;
  {
    // amplification from the spread of the scaled mixer
    Eigen::Matrix4d A;
    for (int i = 0; i < 4; i++) {
      A(0, i) = double(mix(2, i)) / double(kf);
      A(1, i) = double(mix(3, i)) / double(kf) / double(y);
      A(2, i) = double(mix(4, i)) / double(kf) / double(x);
      A(3, i) = double(mix(5, i)) / double(kt);
    }
    Eigen::JacobiSVD<Eigen::Matrix4d> svd(A);
    cond = svd.singularValues()[0] / svd.singularValues()[3];
  }
  if (cond > 200) throw Discard();
  const double eps = sizeof(P) == 4 ? 1.2e-7 : 2.3e-16;
  for (int j = 0; j < 6; j++)
    c.close(got[j], want[j], 3e3 * eps * cond * (scale[j] + std::fabs(want[j])) + 1e-30, "wrench of the allocated rotor speeds");
  for (int i = 0; i < 4; i++) c.check(inv(i, 0) == P(0) && inv(i, 1) == P(0), "lateral force in the allocation");
  c.note("want", gen::str(want));
  c.note("squared", gen::str(sq));
  // through the controller, at rest: the torque is I*(PID output)
  indi_controller::IndiControllerParams<P, 4> prm;
  prm.inertia              = gen::spd<P>(c, 1e-3, 1);
  prm.mixer_matrix_inverse = inv;
  for (int i = 0; i < 3; i++) prm.pid_params.Kp_gains[i] = P(c.uniform(0.1, 5));
  indi_controller::IndiController<P, 4> ctl(prm);
  V w = gen::vec<P>(c, 5);
  auto m = ctl.acro_to_motor_angular_velocity(w, P(T), V::Zero(), P(0.01));
  double f2 = 0, f2s = 0, kfm = 0, big2 = 0;
  for (int i = 0; i < 4; i++) {
    double f = double(ms[size_t(i)].thrust_coefficient) * double(m[i]) * std::fabs(double(m[i]));
    f2 += f;
    f2s += std::fabs(f);
    kfm = std::max(kfm, double(ms[size_t(i)].thrust_coefficient));
  }
  for (int i = 0; i < 4; i++) {
    double s = std::fabs(double(inv(i, 2)) * T);
    for (int j = 0; j < 3; j++) s += std::fabs(double(inv(i, 3 + j)) * double(ctl.get_desired_torque()[j]));
    big2 = std::max(big2, s);
  }
  c.close(f2, double(P(T)), 3e3 * eps * cond * (f2s + 4 * kfm * big2 + T) + 1e-30, "collective thrust");
  if (T > 0) c.nontrivial();
}
static Reg a("law<double,4>", law<double, 4>, 3);
static Reg b("law<float,4>", law<float, 4>, 1);
static Reg d("law<double,6>", law<double, 6>, 2);
static Reg e("law<float,6>", law<float, 6>, 1);
// rotors that lean: the lateral forces are not allocated, thrust and torque are
template <typename P>
void leaning(Ctx &c) {
  using Model = multirotor::model::Model<P, 4>;
  P kf = P(c.logpos(1e-7, 1e-4)), kt = P(double(kf) * c.logpos(0.02, 0.5)), x = P(c.logpos(0.05, 1.5)), y = P(double(x) * c.logpos(0.5, 2));
  multirotor::model::ModelParams<P, 4> prm;
  auto &ms = prm.motors_params;
  ms       = c.u(2) ? Model::create_quadrotor_x_config(kf, kt, x, y, P(0), P(5000), P(0.02), P(1e-6))
                    : Model::create_quadrotor_plus_config(kf, kt, x, y, P(0), P(5000), P(0.02), P(1e-6));
  double lean = c.u(2) ? 0.5 : c.logpos(1e-4, 0.5);
  for (auto &m : ms) m.pose.rotate(Eigen::AngleAxis<P>(P(c.uniform(-lean, lean)), gen::unit<P>(c)));
  const auto mix = Model::template compute_mixer_matrix<6>(ms);
  const auto inv = indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(mix);
  Eigen::Matrix4d A, cols;
  const double unit[4] = {double(kf), double(kf) * double(y), double(kf) * double(x), double(kt)};
  std::array<R, 4> none{};
  for (size_t i = 0; i < 4; i++) {
    std::array<R, 4> one{};
    one[i]  = R(1.0);
    auto wr = refsim::rotor_wrench<P, 4>(prm, one, none);
    double v[4] = {double(wr.force.z.v), double(wr.torque.x.v), double(wr.torque.y.v), double(wr.torque.z.v)};
    for (int j = 0; j < 4; j++) {
      cols(j, int(i)) = v[j];
      A(j, int(i))    = v[j] / unit[j];
    }
  }
  Eigen::JacobiSVD<Eigen::Matrix4d> svd(A);
  double cond = svd.singularValues()[0] / svd.singularValues()[3];
  if (!(cond < 200)) throw Discard();
  Eigen::Matrix<double, 6, 1> want;
  want << 0, 0, c.zlogpos(0.1, 500), c.sreal(5), c.sreal(5), c.sreal(1);
  Eigen::Vector4d sq = inv.template cast<double>() * want, got = cols * sq;
  double big = 0;
  for (int i = 0; i < 4; i++) big = std::max(big, (inv.row(i).transpose().template cast<double>().array() * want.array()).abs().sum());
  const double eps = sizeof(P) == 4 ? 1.2e-7 : 2.3e-16;
  for (int j = 0; j < 4; j++)
    c.close(got[j], want[j + 2], 1e4 * eps * cond * (cols.row(j).cwiseAbs().sum() * big + std::fabs(want[j + 2])) + 1e-30, "wrench of leaning rotors");
  for (int i = 0; i < 4; i++) c.check(inv(i, 0) == P(0) && inv(i, 1) == P(0), "lateral force in the allocation");
  c.note("want", gen::str(want));
  c.note("lean", lean);
  c.nontrivial();
}
static Reg h("leaning<double>", leaning<double>, 1);
static Reg i("leaning<float>", leaning<float>, 1);
static Reg f("quad<double>", quad<double>, 2);
static Reg g("quad<float>", quad<float>, 1);
