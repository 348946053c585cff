// C05: attitude controller: thrust vector for an acceleration, body rates towards
// the attitude with that thrust and the heading asked for.
#include "refctl.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
struct Setup {
  acro_controller::AcroControllerParams<P> prm;
  acro_controller::AcroController<P> ctl;
};
template <typename P>
Setup<P> make(Ctx &c) {
  using C = acro_controller::AcroController<P>;
  Setup<P> s{refctl::acro_params<P>(c), C()};
  auto other = [&] { return C(refctl::acro_params<P>(c)); };
  switch (c.u(5)) {
    case 0: s.ctl = C(s.prm); break;
    case 1: s.ctl = C(s.prm.vehicle_mass, s.prm.kp_rot, s.prm.gravity); break;
    case 2:
      s.ctl = other();
      s.ctl.update_params(s.prm);
      c.cls("reconfigured");
      break;
    case 3:
      s.ctl = other();
      s.ctl.update_kp_rot(s.prm.kp_rot);
      s.ctl.update_gravity(s.prm.gravity);
      s.ctl.update_vehicle_mass(s.prm.vehicle_mass);
      c.cls("reconfigured piecewise");
      break;
    default:
      s.prm.gravity = gen::V3<P>(0, 0, P(-9.81));
      s.ctl         = C(s.prm.vehicle_mass, s.prm.kp_rot);
  }
  c.check(s.ctl.get_vehicle_mass() == s.prm.vehicle_mass && s.ctl.get_gravity() == s.prm.gravity &&
              s.ctl.get_kp_rot() == s.prm.kp_rot,
          "parameters in force");
  return s;
}

template <typename P>
void law(Ctx &c) {
  using V = gen::V3<P>;
  auto s  = make<P>(c);
  V a     = gen::vec<P>(c, 40);
  V t     = s.ctl.acceleration_to_thrust(a);
  close_each<P>(c, t, (v3(a) - v3(s.prm.gravity)) * R(double(s.prm.vehicle_mass)), "thrust for the acceleration");
  int n = c.range(1, 4);
  c.note("kp", gen::str(V(s.prm.kp_rot.diagonal())));
  for (int k = 0; k < n; k++) {
    if (c.chance(1, 3)) t = gen::vec<P>(c, 100);
    gen::M3<P> cur = gen::quat<P>(c).toRotationMatrix();
    P yaw          = gen::heading<P>(c);
    V w            = s.ctl.yaw_angle_to_angular_velocity(cur, yaw, t);
    auto r         = refctl::attitude(cur, double(yaw), v3(t), s.prm.kp_rot);
    c.note("thrust", gen::str(t));
    c.note("yaw", yaw);
    c.note("rates", gen::str(w));
    for (int i = 0; i < 3; i++) c.check(std::isfinite(double(w[i])), "rates not finite");
    c.check(s.ctl.get_desired_angular_velocity() == w, "get_desired_angular_velocity");
    if (r.degenerate) {
      c.cls("degenerate thrust or heading");
      continue;
    }
    double kn = s.prm.kp_rot.template cast<double>().norm();
    double tol = (sizeof(P) == 4 ? 2e-5 : 1e-12) * (kn + 1e-30) * r.cond;
    for (int i = 0; i < 3; i++) c.close(double(w[i]), r.w[i], tol, "commanded body rate");
    // only the direction of the thrust counts
    P k1 = P(c.logpos(0.01, 100));
    V t2 = t * k1, w2 = s.ctl.yaw_angle_to_angular_velocity(cur, yaw, t2);
    for (int i = 0; i < 3; i++) c.close(double(w2[i]), double(w[i]), tol, "rates depend on the size of the thrust");
    // the desired attitude itself needs no rotation
    gen::M3<P> rd;
    for (int i = 0; i < 9; i++) rd(i / 3, i % 3) = P(r.Rd[i / 3][i % 3]);
    w2 = s.ctl.yaw_angle_to_angular_velocity(rd, yaw, t);
    for (int i = 0; i < 3; i++) c.close(double(w2[i]), 0, tol, "rates at the desired attitude");
    if (kn > 0 && w.norm() > P(0)) c.nontrivial();
  }
}

// turning the world about the vertical turns nothing in the body
template <typename P>
void heading(Ctx &c) {
  using V = gen::V3<P>;
  auto s  = make<P>(c);
  V t     = gen::vec<P>(c, 100);
  Eigen::Quaternion<P> q = gen::quat<P>(c);
  P yaw = P(c.uniform(-3, 3)), d = P(c.uniform(-3, 3));
  gen::M3<P> z = gen::rpy<P>(0, 0, double(d)).toRotationMatrix(), cur = q.toRotationMatrix(), cur2 = z * cur;
  V t2 = z * t;
  auto r = refctl::attitude(cur, double(yaw), v3(t), s.prm.kp_rot);
  if (r.degenerate) {
    c.cls("degenerate");
    return;
  }
  V w = s.ctl.yaw_angle_to_angular_velocity(cur, yaw, t), w2 = s.ctl.yaw_angle_to_angular_velocity(cur2, P(yaw + d), t2);
  double tol = (sizeof(P) == 4 ? 4e-5 : 1e-12) * (s.prm.kp_rot.template cast<double>().norm() + 1e-30) * r.cond;
  for (int i = 0; i < 3; i++) c.close(double(w2[i]), double(w[i]), tol, "rates depend on the choice of north");
  c.note("turn", d);
  c.note("rates", gen::str(w));
  if (w.norm() > P(0)) c.nontrivial();
}

// a vehicle that follows the commanded rates turns to the attitude asked for
template <typename P>
void converge(Ctx &c) {
  using V = gen::V3<P>;
  acro_controller::AcroControllerParams<P> prm;
  prm.vehicle_mass = P(c.logpos(0.1, 10));
  prm.kp_rot.setZero();
  double kmax = 0, kmin = 1e9;
  for (int i = 0; i < 3; i++) {
    double k = c.uniform(1, 20);
    prm.kp_rot(i, i) = P(k);
    kmax = std::max(kmax, k);
    kmin = std::min(kmin, k);
  }
  acro_controller::AcroController<P> ctl(prm);
  // a thrust that a flying vehicle asks for: upwards
  V acc(P(c.uniform(-5, 5)), P(c.uniform(-5, 5)), P(c.uniform(-5, 8)));
  V t   = ctl.acceleration_to_thrust(acc);
  P yaw = P(c.uniform(-3.1, 3.1));
  Eigen::Quaternion<P> q = gen::quat<P>(c);
  gen::M3<P> cur0        = q.toRotationMatrix();
  auto r                 = refctl::attitude(cur0, double(yaw), v3(t), prm.kp_rot);
  if (r.degenerate) throw Discard();
  auto psi = [&](const Eigen::Quaternion<P> &x) {
    gen::M3<P> m = x.toRotationMatrix();
    double tr    = 0;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) tr += double(r.Rd[i][j]) * double(m(i, j));
    return 0.5 * (3 - tr);
  };
  double p0 = psi(q);
  if (p0 > 1.9) {  // half a turn away: an equilibrium of the law
    c.cls("half a turn away");
    return;
  }
  double dt = 0.05 / kmax;
  int steps = int(std::min(3000.0, 12.0 / (kmin * dt)));
  double last = p0;
  for (int k = 0; k < steps; k++) {
    gen::M3<P> m = q.toRotationMatrix();
    V w          = ctl.yaw_angle_to_angular_velocity(m, yaw, t);
    Eigen::Vector3d wd = w.template cast<double>();
    double a = wd.norm() * dt;
    if (a > 0) {
      Eigen::Quaterniond d(Eigen::AngleAxisd(a, wd.normalized()));
      Eigen::Quaterniond x = (q.template cast<double>() * d).normalized();
      q = x.cast<P>();
    }
    double p = psi(q);
    c.check(p <= last + (sizeof(P) == 4 ? 1e-5 : 1e-11), "the attitude error grows");
    last = p;
  }
  c.check(last < 0.02, "the attitude asked for is not reached");
  c.note("initial error", p0);
  c.note("final error", last);
  if (p0 > 0.05) c.nontrivial();
}
static Reg a("law<double>", law<double>, 60);
static Reg b("law<float>", law<float>, 30);
static Reg d("heading<double>", heading<double>, 20);
static Reg e("heading<float>", heading<float>, 10);
static Reg f("converge<double>", converge<double>, 2);
static Reg g("converge<float>", converge<float>, 1);
