// Q01: quaternion kinematics, Euler angles and vector helpers.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
using Quat = Eigen::Quaternion<P>;

template <typename P, int D>
void vectors(Ctx &c) {
  using Vec = Eigen::Matrix<P, D, 1>;
  namespace u = multirotor::utils;
  Vec v;
  for (int i = 0; i < D; i++) v[i] = P(c.u(8) == 7 ? (c.u(2) ? 1 : -1) * c.logpos(1e-15, 1e18) : c.sreal(c.u(2) ? 1e4 : 1));
  Vec sq = u::squared_keep_sign(v), rt = u::sqrt_keep_sign(v);
  const double t = sizeof(P) == 4 ? 1e-5 : 1e-13;
  for (int i = 0; i < D; i++) {
    double x = v[i];
    c.close(double(sq[i]), x * std::fabs(x), t * x * x + 1e-37, "squared_keep_sign");
    c.close(double(rt[i]), std::copysign(std::sqrt(std::fabs(x)), x), t * std::sqrt(std::fabs(x)) + 1e-37, "sqrt_keep_sign");
  }
  Vec back = u::sqrt_keep_sign(sq), back2 = u::squared_keep_sign(rt);
  for (int i = 0; i < D; i++) {
    c.close(double(back[i]), double(v[i]), t * std::fabs(double(v[i])) + 1e-18, "sqrt of square");
    c.close(double(back2[i]), double(v[i]), t * std::fabs(double(v[i])) + 1e-18, "square of sqrt");
  }
  // clamp
  float lo = float(c.sreal(100)), hi = lo + float(c.zlogpos(1e-3, 1e3));
  if (hi < lo) hi = lo;
  Vec w = v;
  u::clamp_vector(w, lo, hi);
  bool inside = true;
  for (int i = 0; i < D; i++) {
    P want = v[i] < P(lo) ? P(lo) : (v[i] > P(hi) ? P(hi) : v[i]);
    c.check(w[i] == want, "clamp_vector");
    inside &= w[i] == v[i];
  }
  c.note("v", gen::str(v));
  c.note("lo", lo);
  c.note("hi", hi);
  if (!inside) c.cls("clamped");
  c.nontrivial();
}

template <typename P>
void quaternion(Ctx &c) {
  namespace u = multirotor::utils;
  using Vec   = gen::V3<P>;
  Quat<P> q   = gen::quat<P>(c);
  Vec w       = gen::vec<P>(c, 50);
  c.note("q", gen::strq(q));
  c.note("w", gen::str(w));
  Q rq = quat(q);
  V3 rw = v3(w);
  Q d   = rq * Q{R(0.0), rw.x, rw.y, rw.z};
  Eigen::Matrix<P, 4, 1> g = u::get_quaternion_derivative(q, w);
  // coefficients in the order of Eigen: x y z w
  const R want[4] = {d.x * R(0.5), d.y * R(0.5), d.z * R(0.5), d.w * R(0.5)};
  double m = 0, dt0 = 0;
  for (auto &x : want) m = std::max(m, x.m);
  for (int i = 0; i < 4; i++) {
    close<P>(c, double(g[i]), R(want[i].v, m), "quaternion derivative");
    dt0 += double(g[i]) * double(q.coeffs()[i]);
  }
  c.close(dt0, 0, (sizeof(P) == 4 ? 1e-5 : 1e-13) * (1 + w.norm()), "derivative leaves the unit sphere");
  // linear in the angular velocity
  P k = P(c.sreal(10));
  Vec kw = w * k;
  Eigen::Matrix<P, 4, 1> g2 = u::get_quaternion_derivative(q, kw);
  for (int i = 0; i < 4; i++) c.close(double(g2[i]), double(k) * double(g[i]), (sizeof(P) == 4 ? 1e-5 : 1e-13) * std::fabs(double(k)) * (1e-30 + w.norm()) + 1e-30, "derivative is not linear");
  // one integration step
  double dt = c.u(4) == 0 ? 0.0 : c.logpos(1e-6, 0.1);
  Quat<P> n = u::get_quaternion_integrate(q, w, dt);
  closeq<P>(c, n, integrate(rq, rw, R(dt)), "quaternion integration");
  c.close(double(n.norm()), 1, sizeof(P) == 4 ? 1e-5 : 1e-13, "integrated quaternion is not unit");
  if (w.norm() > 0 && dt > 0) c.nontrivial();
}

// quaternions of any length: the law is the same and the result is unit, also at rest
template <typename P>
void unnormalised(Ctx &c) {
  namespace u = multirotor::utils;
  Quat<P> q   = gen::quat<P>(c);
  P scale     = P(c.logpos(0.05, 20));
  q.coeffs() *= scale;
  gen::V3<P> w = gen::vec<P>(c, 50);
  switch (c.u(4)) {
    case 0: w.setZero(); break;
    case 1: w[int(c.u(3))] = P(0); break;
    case 2: w *= P(c.logpos(1e-9, 1)); break;
    default: break;
  }
  double dt = c.u(4) == 0 ? 0.0 : c.logpos(1e-6, 0.1);
  c.note("q", gen::strq(q));
  c.note("w", gen::str(w));
  Q rq  = quat(q);
  V3 rw = v3(w);
  Q d   = rq * Q{R(0.0), rw.x, rw.y, rw.z};
  Eigen::Matrix<P, 4, 1> g = u::get_quaternion_derivative(q, w);
  const R want[4] = {d.x * R(0.5), d.y * R(0.5), d.z * R(0.5), d.w * R(0.5)};
  double m = 0;
  for (auto &x : want) m = std::max(m, x.m);
  for (int i = 0; i < 4; i++) close<P>(c, double(g[i]), R(want[i].v, m), "quaternion derivative");
  Quat<P> n = u::get_quaternion_integrate(q, w, dt);
  c.close(double(n.norm()), 1, sizeof(P) == 4 ? 1e-5 : 1e-13, "integrated quaternion is not unit");
  closeq<P>(c, n, integrate(rq, rw, R(dt)), "quaternion integration");
  if (std::fabs(double(scale) - 1) > 0.01) c.nontrivial();
}

// constant angular velocity about a fixed axis: many steps give the rotation by
// the total angle (up to the truncation of the scheme)
template <typename P>
void spin(Ctx &c) {
  namespace u = multirotor::utils;
  Quat<P> q0  = gen::quat<P>(c);
  gen::V3<P> ax = gen::unit<P>(c);
  double rate = c.logpos(0.01, 5);
  int n       = c.range(1, 200);
  double dt   = c.logpos(1e-4, 1e-2);
  Quat<P> q   = q0;
  gen::V3<P> w = ax * P(rate);
  for (int i = 0; i < n; i++) q = u::get_quaternion_integrate(q, w, dt);
  // the Euler step rotates by 2 atan(rate dt / 2)
  double ang = n * 2 * std::atan(rate * dt / 2);
  Q r{R(std::cos(ang / 2)), R(double(ax[0]) * std::sin(ang / 2)), R(double(ax[1]) * std::sin(ang / 2)),
      R(double(ax[2]) * std::sin(ang / 2))};
  Q want = quat(q0) * r;
  double g[4] = {double(q.w()), double(q.x()), double(q.y()), double(q.z())};
  double x[4] = {double(want.w.v), double(want.x.v), double(want.y.v), double(want.z.v)};
  double dp   = 0;
  for (int i = 0; i < 4; i++) dp += g[i] * x[i];
  for (int i = 0; i < 4; i++)
    c.close(g[i] * (dp < 0 ? -1 : 1), x[i], (sizeof(P) == 4 ? 2e-6 : 1e-14) * (n + 10), "spin about a fixed axis");
  c.note("rate", rate);
  c.note("n", n);
  c.note("dt", dt);
  if (n > 3) c.nontrivial();
}

// Euler angles (yaw-pitch-roll) give the attitude back
template <typename P>
void euler(Ctx &c) {
  Quat<P> q = gen::quat<P>(c);
  P s       = c.u(3) == 0 ? P(c.logpos(0.1, 10)) : P(1);  // any non-zero scale: normalised first
  Quat<P> in(q.w() * s, q.x() * s, q.y() * s, q.z() * s);
  P r, p, y;
  multirotor::state::internal::quaternion_to_Euler(in, r, p, y);
  c.note("q", gen::strq(in));
  c.note("rpy", std::to_string(double(r)) + " " + std::to_string(double(p)) + " " + std::to_string(double(y)));
  const double pi = M_PI * (1 + 1e-7);
  c.check(std::fabs(double(r)) <= pi && std::fabs(double(y)) <= pi && std::fabs(double(p)) <= pi / 2, "range of the angles");
  double sinp = 2 * (double(q.w()) * double(q.y()) - double(q.z()) * double(q.x()));
  double cosp = std::sqrt(std::max(0.0, 1 - sinp * sinp));
  // the angles are ill conditioned towards gimbal lock, where roll and yaw are
  // not unique
  const double eps = sizeof(P) == 4 ? 1.2e-7 : 2.3e-16;
  c.close(std::sin(double(p)), sinp, 40 * eps, "pitch");
  if (cosp * cosp > 1e3 * eps) {
    auto b      = gen::rpy<double>(double(r), double(p), double(y));
    double g[4] = {b.w(), b.x(), b.y(), b.z()}, x[4] = {double(q.w()), double(q.x()), double(q.y()), double(q.z())};
    double dp   = 0;
    for (int i = 0; i < 4; i++) dp += g[i] * x[i];
    for (int i = 0; i < 4; i++) c.close(g[i] * (dp < 0 ? -1 : 1), x[i], 40 * eps / (cosp * cosp), "attitude from Euler angles");
    // q and -q: same angles
    Quat<P> mq(-in.w(), -in.x(), -in.y(), -in.z());
    P r2, p2, y2;
    multirotor::state::internal::quaternion_to_Euler(mq, r2, p2, y2);
    auto wrap = [](double a) { return std::fabs(std::remainder(a, 2 * M_PI)); };
    c.check(wrap(double(r2) - double(r)) <= 100 * eps / (cosp * cosp) && wrap(double(y2) - double(y)) <= 100 * eps / (cosp * cosp),
            "opposite quaternion, different angles");
    c.cls("away from gimbal lock");
  } else {
    c.cls("gimbal lock");
  }
  if (s != P(1)) c.cls("not normalised");
  c.nontrivial();
}
static Reg a("vectors<double,3>", vectors<double, 3>, 2);
static Reg b("vectors<float,4>", vectors<float, 4>, 1);
static Reg b2("vectors<double,6>", vectors<double, 6>, 1);
static Reg d("quaternion<double>", quaternion<double>, 2);
static Reg e("quaternion<float>", quaternion<float>, 1);
static Reg f("spin<double>", spin<double>, 1);
static Reg g("spin<float>", spin<float>, 1);
static Reg h("euler<double>", euler<double>, 2);
static Reg i("euler<float>", euler<float>, 1);
static Reg j("unnormalised<double>", unnormalised<double>, 2);
static Reg k("unnormalised<float>", unnormalised<float>, 1);
