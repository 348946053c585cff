// Independent reference arithmetic.
//
// R carries a value (long double) together with a magnitude: the value of the
// same expression with every operand replaced by its absolute value and every
// subtraction by an addition.  K * eps * magnitude bounds the rounding error of
// any reasonable evaluation order of the expression, so comparisons need no
// hand-tuned tolerances and do not depend on how the code associates its terms.
#ifndef VERIF_REF_HPP_
#define VERIF_REF_HPP_

#include <array>
#include <cmath>
#include <limits>
#include <string>

#include "pbt.hpp"

namespace ref {

struct R {
  long double v = 0;
  double m      = 0;
  R() {}
  R(double x) : v(x), m(std::fabs(x)) {}
  R(long double x, double mm) : v(x), m(mm) {}
};
inline R operator+(const R &a, const R &b) { return R(a.v + b.v, a.m + b.m); }
inline R operator-(const R &a, const R &b) { return R(a.v - b.v, a.m + b.m); }
inline R operator-(const R &a) { return R(-a.v, a.m); }
inline R operator*(const R &a, const R &b) { return R(a.v * b.v, a.m * b.m); }
inline R operator/(const R &a, const R &b) {
  double bv = std::fabs(double(b.v));
  return R(a.v / b.v, (a.m / bv) * (b.m / bv));
}
inline R &operator+=(R &a, const R &b) { return a = a + b; }
inline R sqrt(const R &a) {
  if (a.v <= 0) return R(0.0L, std::sqrt(a.m));
  double s = std::sqrt(double(a.v));
  return R(std::sqrt(a.v), a.m / s);
}
inline R signed_sq(const R &a) { return R(a.v * std::fabs(a.v), a.m * a.m); }
inline R signed_sqrt(const R &a) {
  long double s = std::sqrt(std::fabs(a.v));
  // the relative error halves, but close to zero the absolute error is sqrt-like
  double cap = 1e6 * std::sqrt(a.m);
  double m   = s > 0 ? std::min(a.m / double(s), cap) : cap;
  return R(a.v < 0 ? -s : s, std::max(m, double(s)));
}
inline R clamp(const R &a, double lo, double hi) {
  return a.v < lo ? R((long double)lo, std::max(a.m, std::fabs(lo)))
                  : (a.v > hi ? R((long double)hi, std::max(a.m, std::fabs(hi))) : a);
}

struct V3 {
  R x, y, z;
  R &operator[](int i) { return i == 0 ? x : (i == 1 ? y : z); }
  const R &operator[](int i) const { return i == 0 ? x : (i == 1 ? y : z); }
};
inline V3 operator+(const V3 &a, const V3 &b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(const V3 &a, const V3 &b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator-(const V3 &a) { return {-a.x, -a.y, -a.z}; }
inline V3 operator*(const V3 &a, const R &s) { return {a.x * s, a.y * s, a.z * s}; }
inline V3 operator*(const R &s, const V3 &a) { return a * s; }
inline V3 operator/(const V3 &a, const R &s) { return {a.x / s, a.y / s, a.z / s}; }
inline R dot(const V3 &a, const V3 &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(const V3 &a, const V3 &b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline R norm(const V3 &a) { return sqrt(dot(a, a)); }

struct M3 {
  R a[3][3];
};
inline V3 operator*(const M3 &m, const V3 &v) {
  V3 o;
  for (int i = 0; i < 3; i++) o[i] = m.a[i][0] * v.x + m.a[i][1] * v.y + m.a[i][2] * v.z;
  return o;
}
inline M3 operator*(const M3 &m, const M3 &n) {
  M3 o;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) o.a[i][j] = m.a[i][0] * n.a[0][j] + m.a[i][1] * n.a[1][j] + m.a[i][2] * n.a[2][j];
  return o;
}
inline M3 transpose(const M3 &m) {
  M3 o;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) o.a[i][j] = m.a[j][i];
  return o;
}
inline R det(const M3 &m) {
  return m.a[0][0] * (m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1]) -
         m.a[0][1] * (m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0]) +
         m.a[0][2] * (m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0]);
}
// solve m x = b by Cramer's rule
inline V3 solve(const M3 &m, const V3 &b) {
  R d = det(m);
  V3 o;
  for (int k = 0; k < 3; k++) {
    M3 t = m;
    for (int i = 0; i < 3; i++) t.a[i][k] = b[i];
    o[k] = det(t) / d;
  }
  return o;
}
struct Q {
  R w, x, y, z;
};
inline Q operator*(const Q &a, const Q &b) {
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
          a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
inline Q conj(const Q &q) { return {q.w, -q.x, -q.y, -q.z}; }
// rotation of v by the unit quaternion q, written as the full sandwich product
inline V3 rotate(const Q &q, const V3 &v) {
  Q p{R(0.0), v.x, v.y, v.z};
  Q r = (q * p) * conj(q);
  return {r.x, r.y, r.z};
}
inline V3 irotate(const Q &q, const V3 &v) { return rotate(conj(q), v); }
inline M3 to_matrix(const Q &q) {
  M3 m;
  for (int j = 0; j < 3; j++) {
    V3 e;
    e[j] = R(1.0);
    V3 c = rotate(q, e);
    for (int i = 0; i < 3; i++) m.a[i][j] = c[i];
  }
  return m;
}
// one explicit Euler step of qdot = 1/2 q (x) (0, w), normalised
inline Q integrate(const Q &q, const V3 &w, const R &dt) {
  Q d = q * Q{R(0.0), w.x, w.y, w.z};
  R h = R(0.5) * dt;
  Q n{q.w + d.w * h, q.x + d.x * h, q.y + d.y * h, q.z + d.z * h};
  R l = sqrt(n.w * n.w + n.x * n.x + n.y * n.y + n.z * n.z);
  return {n.w / l, n.x / l, n.y / l, n.z / l};
}

// ---- conversions from Eigen ------------------------------------------------
template <typename V>
V3 v3(const V &v) {
  return {R(double(v[0])), R(double(v[1])), R(double(v[2]))};
}
template <typename M>
M3 m3(const M &m) {
  M3 o;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) o.a[i][j] = R(double(m(i, j)));
  return o;
}
template <typename T>
Q quat(const T &q) {
  return {R(double(q.w())), R(double(q.x())), R(double(q.y())), R(double(q.z()))};
}

// ---- comparison --------------------------------------------------------------
template <typename P>
double tol_of(const R &r, double k = 1.0) {
  const double K = sizeof(P) == 4 ? 200.0 : 4000.0;
  return k * K * double(std::numeric_limits<P>::epsilon()) * r.m + (sizeof(P) == 4 ? 1e-36 : 1e-290);
}
template <typename P>
void close(pbt::Ctx &c, double got, const R &want, const std::string &what, double k = 1.0) {
  c.close(got, double(want.v), tol_of<P>(want, k), what);
}
template <typename P, typename V>
void close3(pbt::Ctx &c, const V &got, const V3 &want, const std::string &what, double k = 1.0) {
  // one scale for the three axes: a rotation mixes them
  double m = std::max(want.x.m, std::max(want.y.m, want.z.m));
  for (int i = 0; i < 3; i++) {
    R w(want[i].v, m);
    c.close(double(got[i]), double(w.v), tol_of<P>(w, k), what + "[" + std::to_string(i) + "]");
  }
}
// per-axis comparison, no mixing
template <typename P, typename V>
void close_each(pbt::Ctx &c, const V &got, const V3 &want, const std::string &what, double k = 1.0) {
  for (int i = 0; i < 3; i++) {
    c.close(double(got[i]), double(want[i].v), tol_of<P>(want[i], k), what + "[" + std::to_string(i) + "]");
  }
}
template <typename P, typename T>
void closeq(pbt::Ctx &c, const T &got, const Q &want, const std::string &what, double k = 1.0) {
  double m = std::max(std::max(want.w.m, want.x.m), std::max(want.y.m, want.z.m));
  const R *w[4] = {&want.w, &want.x, &want.y, &want.z};
  double g[4]   = {double(got.w()), double(got.x()), double(got.y()), double(got.z())};
  const char *n[4] = {".w", ".x", ".y", ".z"};
  // q and -q are the same attitude
  double dp = 0;
  for (int i = 0; i < 4; i++) dp += g[i] * double(w[i]->v);
  if (dp < 0)
    for (double &x : g) x = -x;
  for (int i = 0; i < 4; i++) c.close(g[i], double(w[i]->v), tol_of<P>(R(w[i]->v, m), k), what + n[i]);
}

}  // namespace ref

#endif
