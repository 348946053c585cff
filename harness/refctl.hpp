// Reference of the attitude law and of the control allocation, and generators of
// controller configurations.
#ifndef VERIF_REFCTL_HPP_
#define VERIF_REFCTL_HPP_

#include "gens.hpp"
#include "multirotor_controllers/multirotor_controllers.hpp"
#include "refpid.hpp"

namespace refctl {

using namespace ref;
typedef long double L;

struct Att {
  double w[3]       = {0, 0, 0};
  bool degenerate   = false;  // no thrust direction, or heading along the thrust
  double cond       = 1;      // amplification of the input errors
  L Rd[3][3];
};

// desired attitude: third axis along the thrust, first axis in the plane of the
// thrust and the heading; commanded rate  w = -Kp * vee(Rd'R - R'Rd)/2
template <typename M>
Att attitude(const M &cur, double yaw, const V3 &thrust, const M &kp) {
  Att o;
  L t[3] = {thrust.x.v, thrust.y.v, thrust.z.v};
  L n    = std::sqrt(t[0] * t[0] + t[1] * t[1] + t[2] * t[2]);
  double mag = thrust.x.m + thrust.y.m + thrust.z.m;
  if (!(n > 1e-4 * mag) || n == 0) {
    o.degenerate = true;
    return o;
  }
  L z[3] = {t[0] / n, t[1] / n, t[2] / n}, x0[3] = {std::cos(L(yaw)), std::sin(L(yaw)), 0};
  auto cr = [](const L *a, const L *b, L *r) {
    r[0] = a[1] * b[2] - a[2] * b[1];
    r[1] = a[2] * b[0] - a[0] * b[2];
    r[2] = a[0] * b[1] - a[1] * b[0];
  };
  L y[3], x[3];
  cr(z, x0, y);
  L ny = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]);
  if (ny < 1e-3) {
    o.degenerate = true;
    return o;
  }
  for (L &v : y) v /= ny;
  cr(y, z, x);
  o.cond = double(mag / n) / double(ny) * (1 + std::fabs(yaw));
  for (int i = 0; i < 3; i++) {
    o.Rd[i][0] = x[i];
    o.Rd[i][1] = y[i];
    o.Rd[i][2] = z[i];
  }
  auto rel = [&](int a, int b) {  // (Rd' R)(a,b)
    L s = 0;
    for (int i = 0; i < 3; i++) s += o.Rd[i][a] * L(cur(i, b));
    return s;
  };
  L e[3] = {(rel(2, 1) - rel(1, 2)) / 2, (rel(0, 2) - rel(2, 0)) / 2, (rel(1, 0) - rel(0, 1)) / 2};
  for (int i = 0; i < 3; i++) o.w[i] = double(-(L(kp(i, 0)) * e[0] + L(kp(i, 1)) * e[1] + L(kp(i, 2)) * e[2]));
  return o;
}

template <typename P>
acro_controller::AcroControllerParams<P> acro_params(pbt::Ctx &c) {
  acro_controller::AcroControllerParams<P> p;
  p.vehicle_mass = P(gen::logwide(c, 0.02, 100, 1e-3, 1e4));
  p.gravity      = c.chance(1, 3) ? gen::vec<P>(c, 20) : gen::V3<P>(0, 0, P(-9.81));
  if (c.chance(1, 4)) {
    for (int i = 0; i < 9; i++) p.kp_rot(i / 3, i % 3) = P(c.sreal(10));
  } else {
    p.kp_rot.setZero();
    for (int i = 0; i < 3; i++) p.kp_rot(i, i) = P(c.u(24) == 23 ? c.logpos(1e-3, 1000) : c.zlogpos(0.1, 50));
  }
  return p;
}

template <typename P, int N>
indi_controller::IndiControllerParams<P, N> indi_params(pbt::Ctx &c) {
  indi_controller::IndiControllerParams<P, N> p;
  if (c.chance(1, 4)) {
    for (int i = 0; i < 9; i++) p.inertia(i / 3, i % 3) = P(c.sreal(1));
  } else {
    p.inertia = gen::spd<P>(c, 1e-4, 10);
  }
  for (int i = 0; i < N; i++)
    for (int j = 0; j < 6; j++) p.mixer_matrix_inverse(i, j) = P(c.u(8) == 0 ? 0.0 : c.sreal(j < 3 ? 1e6 : 1e7));
  p.pid_params = refpid::params<P, 3>(c);
  return p;
}

template <typename P>
acro_controller::AcroControllerParams<P> partly(pbt::Ctx &c, const acro_controller::AcroControllerParams<P> &a, const acro_controller::AcroControllerParams<P> &b) {
  auto o = a;
  switch (c.u(5)) {
    case 0: return b;
    case 1: o.vehicle_mass = b.vehicle_mass; break;
    case 2: o.gravity = gen::partly(c, a.gravity, b.gravity); break;
    default: o.kp_rot = gen::partly(c, a.kp_rot, b.kp_rot);
  }
  return o;
}
template <typename P, int N>
indi_controller::IndiControllerParams<P, N> partly(pbt::Ctx &c, const indi_controller::IndiControllerParams<P, N> &a, const indi_controller::IndiControllerParams<P, N> &b) {
  auto o = a;
  switch (c.u(4)) {
    case 0: return b;
    case 1: o.inertia = gen::partly(c, a.inertia, b.inertia); break;
    case 2: o.mixer_matrix_inverse = gen::partly(c, a.mixer_matrix_inverse, b.mixer_matrix_inverse); break;
    default: o.pid_params = refpid::partly<P, 3>(c, a.pid_params, b.pid_params);
  }
  return o;
}

// squared rotor speeds of an allocation
template <typename P, int N>
std::array<R, N> allocation(const Eigen::Matrix<P, N, 6> &inv, double thrust, const V3 &torque) {
  std::array<R, N> o;
  for (int i = 0; i < N; i++) {
    R s = R(double(inv(i, 2))) * R(thrust);
    for (int j = 0; j < 3; j++) s += R(double(inv(i, 3 + j))) * torque[j];
    o[size_t(i)] = s;
  }
  return o;
}
inline V3 torque(const M3 &I, const V3 &alpha, const V3 &w) { return I * alpha + cross(w, I * w); }

template <typename P, int N, typename V>
void check_motors(pbt::Ctx &c, const V &got, const std::array<R, N> &want) {
  for (int i = 0; i < N; i++) {
    double w = double(got[i]);
    close<P>(c, w * std::fabs(w), want[size_t(i)], "squared rotor speed command");
  }
}

}  // namespace refctl

#endif
