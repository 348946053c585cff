// Generators for the types of the library, shared by the harnesses.
#ifndef VERIF_GENS_HPP_
#define VERIF_GENS_HPP_

#include <Eigen/Dense>
#include <Eigen/Geometry>

#include "multirotor_dynamic_model/dynamics.hpp"
#include "multirotor_dynamic_model/model.hpp"
#include "partly.hpp"
#include "pbt.hpp"
#include "ref.hpp"

namespace gen {

template <typename P>
using V3 = Eigen::Matrix<P, 3, 1>;
template <typename P>
using M3 = Eigen::Matrix<P, 3, 3>;

template <typename P, int D = 3>
Eigen::Matrix<P, D, 1> vec(pbt::Ctx &c, double maxabs) {
  Eigen::Matrix<P, D, 1> v;
  switch (c.u(30)) {
    case 0:
    case 1:
    case 2:
    case 3: v.setZero(); return v;
    case 29: maxabs *= 9; break;  // far outside the usual range
    case 28: maxabs *= 1e-5; break;
    default: break;
  }
  for (int i = 0; i < D; i++) v[i] = P(c.sreal(maxabs));
  return v;
}

// unit vector
template <typename P>
V3<P> unit(pbt::Ctx &c) {
  switch (c.u(5)) {
    case 0: return V3<P>(0, 0, 1);
    case 1: {
      V3<P> v = V3<P>::Zero();
      v[int(c.u(3))] = c.u(2) ? P(-1) : P(1);
      return v;
    }
    default: {
      double z = c.uniform(-1, 1), a = c.uniform(-M_PI, M_PI), s = std::sqrt(std::max(0.0, 1 - z * z));
      return V3<P>(P(s * std::cos(a)), P(s * std::sin(a)), P(z)).normalized();
    }
  }
}

template <typename P>
Eigen::Quaternion<P> rpy(double r, double p, double y) {
  double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2),
         cy = std::cos(y / 2), sy = std::sin(y / 2);
  Eigen::Quaterniond q(cy * cp * cr + sy * sp * sr, cy * cp * sr - sy * sp * cr, cy * sp * cr + sy * cp * sr,
                       sy * cp * cr - cy * sp * sr);
  q.normalize();
  Eigen::Quaternion<P> o(P(q.w()), P(q.x()), P(q.y()), P(q.z()));
  o.normalize();
  return o;
}

// unit quaternion: identity, pure yaw, quarter/half turns, tilted, near gimbal
// lock, upside down, arbitrary; either sign
template <typename P>
Eigen::Quaternion<P> quat(pbt::Ctx &c) {
  Eigen::Quaternion<P> q;
  switch (c.u(10)) {
    case 0: q = Eigen::Quaternion<P>::Identity(); break;
    case 9: {  // hardly turned
      double a = std::pow(10, -c.uniform(0.5, 8));
      q        = rpy<P>(a * c.uniform(-1, 1), a * c.uniform(-1, 1), a * c.uniform(-1, 1));
      break;
    }
    case 1: q = rpy<P>(0, 0, c.real(-M_PI, M_PI)); break;
    case 2: q = rpy<P>(0, 0, (double(c.u(5)) - 2) * M_PI / 2); break;
    case 3: q = rpy<P>(c.uniform(-0.6, 0.6), c.uniform(-0.6, 0.6), c.uniform(-M_PI, M_PI)); break;
    case 4: q = rpy<P>(c.real(-M_PI, M_PI), (c.u(2) ? 1 : -1) * (M_PI / 2 - std::pow(10, -c.uniform(0, 12))), c.real(-M_PI, M_PI)); break;
    case 5: q = rpy<P>((c.u(2) ? 1 : -1) * M_PI, c.uniform(-1, 1), c.uniform(-M_PI, M_PI)); break;
    default: {
      Eigen::Matrix<double, 4, 1> a;
      for (int i = 0; i < 4; i++) a[i] = c.uniform(-1, 1);
      if (a.norm() < 1e-3) a = Eigen::Matrix<double, 4, 1>(0, 0, 0, 1);
      a.normalize();
      q = Eigen::Quaternion<P>(P(a[3]), P(a[0]), P(a[1]), P(a[2]));
      q.normalize();
    }
  }
  if (c.chance(1, 6)) q.coeffs() = -q.coeffs();
  return q;
}

// symmetric positive definite, condition number bounded
template <typename P>
M3<P> spd(pbt::Ctx &c, double lo, double hi, double maxratio = 100) {
  double base = c.logpos(lo, hi);
  Eigen::Vector3d d;
  for (int i = 0; i < 3; i++) d[i] = base * std::pow(maxratio, c.u(3) == 0 ? 0.0 : c.uniform(-0.5, 0.5));
  M3<P> m;
  if (c.chance(1, 3)) {
    Eigen::Matrix3d r = quat<double>(c).toRotationMatrix();
    Eigen::Matrix3d t = r * d.asDiagonal() * r.transpose();
    t                 = 0.5 * (t + t.transpose().eval());
    m                 = t.cast<P>();
  } else {
    m = Eigen::Matrix3d(d.asDiagonal()).cast<P>();
  }
  return m;
}

// the same diagonal with products of inertia of other signs, or the axes exchanged (same trace and
// determinant): still positive definite
template <typename P>
M3<P> reflected(pbt::Ctx &c, const M3<P> &m) {
  M3<P> o = m;
  if (c.u(3) == 0) {
    int r = 1 + int(c.u(2));
    for (int j = 0; j < 9; j++) o(j / 3, j % 3) = m((j / 3 + r) % 3, (j + r) % 3);
    return o;
  }
  int i = int(c.u(3));
  for (int j = 0; j < 3; j++)
    if (j != i) {
      o(i, j) = -o(i, j);
      o(j, i) = -o(j, i);
    }
  return o;
}

template <typename P>
using Motor = multirotor::model::MotorParams<P>;

template <typename P>
Motor<P> motor(pbt::Ctx &c, bool planar) {
  Motor<P> m;
  m.motor_rotation_direction = c.u(2) ? -1 : 1;
  m.thrust_coefficient       = P(c.zlogpos(1e-8, 1e-3));
  m.torque_coefficient       = P(c.zlogpos(1e-9, 1e-4));
  m.pose                     = Motor<P>::IsometryTypeP::Identity();
  m.pose.translation()       = V3<P>(P(c.sreal(2)), P(c.sreal(2)), planar ? P(0) : P(c.sreal(1)));
  if (!narrow() && c.u(24) == 23) m.pose.translation() *= P(20);
  if (!planar && c.chance(2, 3)) m.pose.linear() = quat<P>(c).toRotationMatrix();
  switch (c.u(4)) {
    case 0: m.min_speed = P(0); break;
    case 1: m.min_speed = P(c.uniform(0, 500)); break;
    case 2: m.min_speed = P(-c.uniform(0, 2000)); break;
    default: m.min_speed = P(c.sreal(100));
  }
  m.max_speed          = m.min_speed + P(c.u(12) == 0 ? 0.0 : logwide(c, 0.1, 5000, 1e-4, 1e5));
  m.time_constant      = P(logwide(c, 1e-3, 2, 1e-6, 100));
  m.rotational_inertia = P(c.zlogpos(1e-8, 1e-2));
  return m;
}

template <typename P, int N>
std::vector<Motor<P>> motors(pbt::Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  P kf = P(c.logpos(1e-8, 1e-4)), kt = P(c.logpos(1e-9, 1e-5)), x = P(c.logpos(0.02, 2)), y = P(c.logpos(0.02, 2)),
    mn = P(c.u(3) == 0 ? c.sreal(200) : 0.0), mx = mn + P(c.logpos(10, 5000)), tc = P(logwide(c, 1e-3, 1, 1e-5, 50)),
    J = P(c.zlogpos(1e-8, 1e-3));
  int kind = int(c.u(4));
  std::vector<Motor<P>> v;
  if (kind == 0 && N == 4) {
    c.cls("motors:x-config");
    return Model::create_quadrotor_x_config(kf, kt, x, y, mn, mx, tc, J);
  }
  if (kind == 1 && N == 4) {
    c.cls("motors:plus-config");
    return Model::create_quadrotor_plus_config(kf, kt, x, y, mn, mx, tc, J);
  }
  if (kind <= 1 && N == 6) {
    c.cls("motors:hexa-config");
    return Model::create_hexacopter_config(kf, kt, x, mn, mx, tc, J);
  }
  bool planar = kind == 2;
  c.cls(planar ? "motors:random planar" : "motors:random 3D poses");
  for (int i = 0; i < N; i++) v.push_back(motor<P>(c, planar));
  return v;
}

template <typename P, int N>
multirotor::model::ModelParams<P, N> model_params(pbt::Ctx &c, bool noise = false) {
  multirotor::model::ModelParams<P, N> p;
  p.motors_params                        = motors<P, N>(c);
  p.vehicle_mass                         = P(logwide(c, 0.02, 100, 1e-3, 1e4));
  p.vehicle_inertia                      = spd<P>(c, 1e-4, 10);
  p.vehicle_drag_coefficient             = P(!narrow() && c.u(24) == 23 ? c.logpos(10, 1000) : c.zlogpos(1e-4, 10));
  p.vehicle_aero_moment_coefficient      = M3<P>::Zero();
  if (c.chance(2, 3)) {
    if (c.u(2)) {
      p.vehicle_aero_moment_coefficient = spd<P>(c, 1e-6, 1);
    } else {
      M3<P> m;
      for (int i = 0; i < 9; i++) m(i / 3, i % 3) = P(c.sreal(0.1));
      if (m.determinant() < 0) m.row(0) = -m.row(0).eval();
      // clearly positive: rounding must not decide whether the set is valid
      if (!(double(m.determinant()) >= 1e-3 * double(m.row(0).norm()) * double(m.row(1).norm()) * double(m.row(2).norm())) ||
          m.determinant() == P(0))
        m.setZero();
      p.vehicle_aero_moment_coefficient = m;
    }
  }
  switch (c.u(4)) {
    case 0: p.gravity = V3<P>(0, 0, P(-9.81)); break;
    case 1: p.gravity = vec<P>(c, 20); break;
    default: p.gravity = V3<P>(0, 0, P(-9.81)); break;
  }
  p.force_process_noise_auto_correlation  = P(noise ? c.zlogpos(1e-6, 10) : 0.0);
  p.moment_process_noise_auto_correlation = P(noise ? c.zlogpos(1e-8, 1) : 0.0);
  return p;
}

// a set that differs from p in some respect only; with noise on or off as p's
template <typename P, int N>
multirotor::model::ModelParams<P, N> partly(pbt::Ctx &c,
                                            const multirotor::model::ModelParams<P, N> &p,
                                            const multirotor::model::ModelParams<P, N> &q) {
  auto r   = p;
  size_t i = c.u(N);
  auto &m        = r.motors_params[i];
  const auto &mq = q.motors_params[i];
  switch (c.u(18)) {
    case 0: r.vehicle_mass = q.vehicle_mass; break;
    case 1: r.vehicle_inertia = q.vehicle_inertia; break;
    case 2: r.vehicle_inertia = reflected<P>(c, p.vehicle_inertia); break;
    case 3: r.vehicle_inertia *= P(c.logpos(0.1, 10)); break;
    case 4: r.motors_params = q.motors_params; break;
    case 5: r.gravity = partly(c, p.gravity, q.gravity); break;
    case 6: r.vehicle_drag_coefficient = q.vehicle_drag_coefficient; break;
    case 7: r.vehicle_aero_moment_coefficient = q.vehicle_aero_moment_coefficient; break;
    case 8: m = mq; break;
    case 9: m.pose = mq.pose; break;
    case 10: m.pose.translation() = partly(c, V3<P>(m.pose.translation()), V3<P>(mq.pose.translation())); break;
    case 11: m.motor_rotation_direction = -m.motor_rotation_direction; break;
    case 12: m.thrust_coefficient = mq.thrust_coefficient; break;
    case 13: m.torque_coefficient = mq.torque_coefficient; break;
    case 14:
      m.min_speed = mq.min_speed;
      m.max_speed = mq.max_speed;
      break;
    case 15: m.time_constant = mq.time_constant; break;
    case 16: m.rotational_inertia = mq.rotational_inertia; break;
    default:
      r.force_process_noise_auto_correlation  = q.force_process_noise_auto_correlation;
      r.moment_process_noise_auto_correlation = q.moment_process_noise_auto_correlation;
  }
  return r;
}

template <typename P, int N>
multirotor::state::State<P, N> state(pbt::Ctx &c, const multirotor::model::ModelParams<P, N> &p) {
  multirotor::state::State<P, N> s;
  s.kinematics.position             = vec<P>(c, !narrow() && c.u(24) == 23 ? 5e5 : 1000);
  s.kinematics.orientation          = quat<P>(c);
  s.kinematics.linear_velocity      = vec<P>(c, 50);
  s.kinematics.angular_velocity     = vec<P>(c, 30);
  s.kinematics.linear_acceleration  = vec<P>(c, 20);
  s.kinematics.angular_acceleration = vec<P>(c, 20);
  s.dynamics.force                  = vec<P>(c, 20);
  s.dynamics.torque                 = vec<P>(c, 2);
  for (int i = 0; i < N; i++) {
    const auto &m = p.motors_params[size_t(i)];
    double lo = m.min_speed, hi = m.max_speed;
    switch (c.u(6)) {
      case 0: s.actuators.motor_angular_velocity[i] = P(lo); break;
      case 1: s.actuators.motor_angular_velocity[i] = P(hi); break;
      case 2: s.actuators.motor_angular_velocity[i] = P(c.sreal(6000)); break;  // maybe outside
      default: s.actuators.motor_angular_velocity[i] = P(c.uniform(lo, hi));
    }
    s.actuators.motor_angular_acceleration[i] = P(c.sreal(1000));
  }
  return s;
}

template <typename P, int N>
Eigen::Matrix<P, N, 1> command(pbt::Ctx &c, const multirotor::model::ModelParams<P, N> &p) {
  Eigen::Matrix<P, N, 1> v;
  for (int i = 0; i < N; i++) {
    const auto &m = p.motors_params[size_t(i)];
    double lo = m.min_speed, hi = m.max_speed;
    switch (c.u(6)) {
      case 0: v[i] = P(0); break;
      case 1: v[i] = c.u(2) ? m.max_speed : m.min_speed; break;
      case 2: v[i] = P(c.sreal(c.u(8) == 7 ? 2e5 : 20000)); break;
      default: v[i] = P(c.uniform(lo, hi));
    }
  }
  return v;
}

// any heading: several turns, now and then many
template <typename P>
P heading(pbt::Ctx &c) {
  return P(c.u(6) == 5 ? c.sreal(2000) : c.real(-7, 7));
}

// any int, small ones included, and another that a careless conversion may confuse with it
inline int seed(pbt::Ctx &c) {
  switch (c.u(6)) {
    case 0: return int(c.u(10));
    case 1: return -int(c.u(1000));
    case 2: return int(uint32_t(c.u(uint64_t(1) << 32)));
    default: return 1 + int(c.u(1000000));
  }
}
// the engine takes seeds modulo 2^31-1, and 0 as 1: those it starts alike from
inline bool alike(int a, int b) {
  using E = std::default_random_engine;
  return E(E::result_type(a)) == E(E::result_type(b));
}
inline int other_seed(pbt::Ctx &c, int s) {
  int o;
  switch (c.u(6)) {
    case 0: o = seed(c); break;
    case 1: o = int(uint32_t(s) ^ (uint32_t(1) << c.u(32))); break;
    case 2: o = int(0u - uint32_t(s)); break;
    default: o = int(uint32_t(s) + 1 + uint32_t(c.u(1000)));
  }
  while (alike(o, s)) o = int(uint32_t(o) + 1);
  return o;
}

// time step accepted without sub-stepping: 0 < dt <= 0.01
template <typename P>
P small_dt(pbt::Ctx &c) {
  switch (c.u(5)) {
    case 0: return P(0.001);
    case 1: {
      P d = P(0.01);
      return double(d) > 0.01 ? std::nextafter(d, P(0)) : d;
    }
    case 2: return P(c.logpos(c.u(4) == 3 ? 1e-9 : 1e-5, 0.0099));
    default: return P(c.logpos(1e-5, 0.0099));
  }
}

// the explicit Euler scheme diverges for stiff generated models: histories stop
// before numbers leave this range
template <typename S>
bool bounded(const S &s) {
  return s.kinematics.angular_velocity.norm() < 300 && s.kinematics.linear_velocity.norm() < 3000 &&
         s.kinematics.position.norm() < 1e7;
}

template <typename T>
std::string str(const T &v) {
  std::ostringstream o;
  o << std::setprecision(9) << "[";
  for (int i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i];
  o << "]";
  return o.str();
}
template <typename T>
std::string strq(const T &q) {
  std::ostringstream o;
  o << std::setprecision(9) << "[w " << q.w() << " " << q.x() << " " << q.y() << " " << q.z() << "]";
  return o.str();
}

}  // namespace gen

#endif
