// O01: inertial odometry: low-pass filter, attitude integration and double
// integration of the acceleration, over histories with resets.
#include "imu_simulator/inertial_odometry.hpp"
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
struct St {
  gen::V3<P> p, v, w, a;
  Eigen::Quaternion<P> q;
};
template <typename P>
St<P> read(Ctx &c, const imu::InertialOdometry<P> &io) {
  St<P> s;
  io.get_measurement(s.p, s.q, s.v, s.w, s.a);
  c.check(s.p == io.get_position() && s.q.coeffs() == io.get_orientation().coeffs() && s.v == io.get_linear_velocity() &&
              s.w == io.get_angular_velocity() && s.a == io.get_linear_acceleration(),
          "get_measurement and the single getters disagree");
  return s;
}

template <typename P>
void history(Ctx &c) {
  using V  = gen::V3<P>;
  using Qe = Eigen::Quaternion<P>;
  P alpha  = c.u(3) == 0 ? P(1) : P(c.uniform(0.01, 1));
  Qe q0    = gen::quat<P>(c);
  int how  = int(c.u(5));
  imu::InertialOdometryParams<P> prm;
  prm.alpha                     = alpha;
  prm.initial_world_orientation = q0;
  imu::InertialOdometry<P> io = how == 0 ? imu::InertialOdometry<P>(prm) : imu::InertialOdometry<P>(alpha, q0);
  if (how == 1) {
    imu::InertialOdometry<P> t(alpha, gen::quat<P>(c));
    t.set_initial_orientation(q0);
    io = t;
    c.cls("initial orientation set later");
  }
  if (how == 2) {
    io    = imu::InertialOdometry<P>();
    alpha = P(1);
    q0    = Qe::Identity();
    c.cls("defaults");
  }
  if (how == 3) {
    io = imu::InertialOdometry<P>(alpha);
    q0 = Qe::Identity();
  }
  c.note("alpha", alpha);
  c.note("q0", gen::strq(q0));
  auto fresh = [&](const St<P> &s, const char *m) {
    c.check(s.p == V::Zero() && s.v == V::Zero() && s.w == V::Zero() && s.a == V::Zero() && s.q.coeffs() == q0.coeffs(), m);
  };
  fresh(read(c, io), "initial state");
  // reference filter memory, accumulated: tolerance from the magnitudes
  V3 gf, af;
  int n     = c.len(1, 10, 600);
  bool real = false;
  for (int k = 0; k < n; k++) {
    if (c.chance(1, 12)) {
      io.reset();
      gf = V3();
      af = V3();
      fresh(read(c, io), "state after reset");
      c.cls("reset");
    }
    if (c.chance(1, 15)) {
      auto b = read(c, io);
      q0     = gen::quat<P>(c);
      io.set_initial_orientation(q0);
      auto s = read(c, io);
      c.check(s.p == b.p && s.v == b.v && s.w == b.w && s.a == b.a, "set_initial_orientation changed more than the attitude");
      c.check(s.q.coeffs() == q0.coeffs(), "set_initial_orientation");
      c.cls("attitude set in flight");
    }
    V g = gen::vec<P>(c, c.u(8) ? 30 : 3000), a = gen::vec<P>(c, c.u(8) ? 60 : 1e6);
    P dt   = P(c.u(8) == 0 ? 0.0 : c.logpos(1e-5, c.u(8) ? 0.2 : 60));
    auto b = read(c, io);
    io.update(g, a, dt);
    auto s = read(c, io);
    R al = R(double(alpha)), be = R(1.0) - al, h = R(double(dt));
    gf = al * v3(g) + be * gf;
    af = al * v3(a) + be * af;
    close_each<P>(c, s.w, gf, "angular velocity: filtered gyroscope");
    V3 acc = rotate(quat(b.q), af);
    close3<P>(c, s.a, acc, "acceleration in the world frame");
    closeq<P>(c, s.q, integrate(quat(b.q), gf, h), "attitude");
    close_each<P>(c, s.v, v3(b.v) + v3(s.a) * h, "velocity");
    close_each<P>(c, s.p, v3(b.p) + v3(s.v) * h, "position");
    c.close(double(s.q.norm()), 1, sizeof(P) == 4 ? 1e-5 : 1e-13, "attitude not unit");
    real |= g.norm() > 0 && a.norm() > 0 && dt > 0;
    if (k < 4) c.note("update", gen::str(g) + gen::str(a) + " dt " + std::to_string(double(dt)));
  }
  if (alpha < P(1)) c.cls("filtering");
  if (real) c.nontrivial();
}

// metamorphic: turning the initial attitude turns the whole estimate; linearity
// of the translation in the acceleration; the filter settles on a constant input
template <typename P>
void frames(Ctx &c) {
  using V  = gen::V3<P>;
  using Qe = Eigen::Quaternion<P>;
  P alpha  = c.u(3) == 0 ? P(1) : P(c.uniform(0.05, 1));
  Qe q0 = gen::quat<P>(c), r = gen::quat<P>(c), rq = (r * q0).normalized();
  imu::InertialOdometry<P> a(alpha, q0), b(alpha, rq), dbl(alpha, q0);
  P k   = P(c.sreal(3));
  int n = c.len(1, 12, 200);
  const double eps = sizeof(P) == 4 ? 1.2e-7 : 2.3e-16;
  double sv = 0, sp = 0, T = 0;
  for (int i = 0; i < n; i++) {
    V g = gen::vec<P>(c, 10), f = gen::vec<P>(c, 30);
    P dt = P(c.logpos(1e-4, 0.1));
    a.update(g, f, dt);
    b.update(g, f, dt);
    V kf = f * k;
    dbl.update(g, kf, dt);
    T += double(dt);
    sv += 30 * 1.8 * double(dt);
    sp += sv * double(dt);
    double t = 400 * eps * (i + 2);
    V ra = r * a.get_linear_acceleration(), rv = r * a.get_linear_velocity(), rp = r * a.get_position();
    for (int j = 0; j < 3; j++) {
      c.close(double(b.get_linear_acceleration()[j]), double(ra[j]), t * 60, "acceleration in a turned frame");
      c.close(double(b.get_linear_velocity()[j]), double(rv[j]), t * sv, "velocity in a turned frame");
      c.close(double(b.get_position()[j]), double(rp[j]), t * sp, "position in a turned frame");
      c.close(double(dbl.get_linear_velocity()[j]), double(k) * double(a.get_linear_velocity()[j]), t * sv * (1 + std::fabs(double(k))), "velocity linear in the acceleration");
      c.close(double(dbl.get_position()[j]), double(k) * double(a.get_position()[j]), t * sp * (1 + std::fabs(double(k))), "position linear in the acceleration");
    }
    Qe d = (b.get_orientation() * (r * a.get_orientation()).conjugate());
    c.close(std::fabs(double(d.w())), 1, t + 1e-3 * eps, "attitude in a turned frame");
    c.check(a.get_angular_velocity() == b.get_angular_velocity(), "body rates depend on the frame");
    c.check(dbl.get_orientation().coeffs() == a.get_orientation().coeffs(), "attitude depends on the acceleration");
  }
  c.note("alpha", alpha);
  c.note("turn", gen::strq(r));
  c.note("n", n);
  c.nontrivial();
}
static Reg a("history<double>", history<double>, 4);
static Reg b("history<float>", history<float>, 2);
static Reg d("frames<double>", frames<double>, 2);
static Reg e("frames<float>", frames<float>, 1);
