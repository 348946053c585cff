// Independent reference of one explicit Euler step of the multirotor dynamics
// (docs/Dynamics.md, docs/Kinematics.md, docs/Actuation.md), written without the
// library's mixers, helpers or Eigen products.
#ifndef VERIF_REFSIM_HPP_
#define VERIF_REFSIM_HPP_

#include "gens.hpp"

namespace refsim {

using namespace ref;

template <typename P, int N>
using Params = multirotor::model::ModelParams<P, N>;
template <typename P, int N>
using State = multirotor::state::State<P, N>;

template <int N>
struct Wrench {
  V3 force, torque;
};

// sum of the rotors' forces and moments in body frame
template <typename P, int N>
Wrench<N> rotor_wrench(const Params<P, N> &p, const std::array<R, N> &w, const std::array<R, N> &acc) {
  Wrench<N> o;
  for (int i = 0; i < N; i++) {
    const auto &m = p.motors_params[size_t(i)];
    V3 axis;  // rotor axis in body frame: third column of the pose rotation
    for (int k = 0; k < 3; k++) axis[k] = R(double(m.pose.matrix()(k, 2)));
    V3 arm;
    for (int k = 0; k < 3; k++) arm[k] = R(double(m.pose.matrix()(k, 3)));
    R ww    = signed_sq(w[size_t(i)]);
    R dir   = R(double(m.motor_rotation_direction));
    V3 f    = axis * (R(double(m.thrust_coefficient)) * ww);
    o.force = o.force + f;
    o.torque = o.torque + cross(arm, f) + axis * (dir * R(double(m.torque_coefficient)) * ww) +
               axis * (dir * R(double(m.rotational_inertia)) * acc[size_t(i)]);
  }
  return o;
}

inline V3 drag(double k, const V3 &v) {
  return {-(R(k) * signed_sq(v.x)), -(R(k) * signed_sq(v.y)), -(R(k) * signed_sq(v.z))};
}
inline V3 aero(const M3 &c, const V3 &w) { return -((c * w) * norm(w)); }

template <int N>
struct Step {
  std::array<R, N> motor_w, motor_a;
  V3 force, torque, lin_acc, ang_acc, pos, vel, omega;
  Q q;
};

template <typename P, int N, typename Cmd>
Step<N> step(const Params<P, N> &p,
             const State<P, N> &s,
             const Cmd &cmd,
             double dt,
             const V3 &ext,
             const V3 &noise_f,
             const V3 &noise_m) {
  Step<N> o;
  std::array<R, N> w;
  R h(dt);
  for (int i = 0; i < N; i++) {
    const auto &m = p.motors_params[size_t(i)];
    double lo = m.min_speed, hi = m.max_speed;
    w[size_t(i)]         = R(double(s.actuators.motor_angular_velocity[i]));
    R want               = clamp(R(double(cmd[i])), lo, hi);
    // the clamp of a far-away command is exact: its magnitude is the limit's
    want.m               = std::fabs(double(want.v));
    o.motor_a[size_t(i)] = (want - w[size_t(i)]) / R(double(m.time_constant));
    o.motor_w[size_t(i)] = clamp(w[size_t(i)] + o.motor_a[size_t(i)] * h, lo, hi);
  }
  V3 omega = v3(s.kinematics.angular_velocity), vel = v3(s.kinematics.linear_velocity);
  Q q       = quat(s.kinematics.orientation);
  M3 I      = m3(p.vehicle_inertia);
  auto wr   = rotor_wrench<P, N>(p, w, o.motor_a);
  o.torque  = wr.torque + aero(m3(p.vehicle_aero_moment_coefficient), omega) + noise_m - cross(omega, I * omega);
  o.ang_acc = solve(I, o.torque);
  R mass(double(p.vehicle_mass));
  o.force = rotate(q, wr.force) + v3(p.gravity) * mass + drag(double(p.vehicle_drag_coefficient), vel) + noise_f + ext;
  o.lin_acc = o.force / mass;
  o.pos     = v3(s.kinematics.position) + vel * h;
  o.vel     = vel + o.lin_acc * h;
  o.omega   = omega + o.ang_acc * h;
  o.q       = integrate(q, omega, h);
  return o;
}

// what a user may do to a running simulation between two steps: give the model new
// parameters (p follows), exchange the model, the state, or the whole object
template <typename P, int N>
void intervene(pbt::Ctx &c, multirotor::dynamics::Dynamics<P, N> &dyn, multirotor::model::ModelParams<P, N> &p, bool noise) {
  using Model = multirotor::model::Model<P, N>;
  using Dyn   = multirotor::dynamics::Dynamics<P, N>;
  // new parameters: entirely, or only one group of them
  auto fresh = [&] {
    auto q = gen::model_params<P, N>(c, noise);
    return c.chance(3, 4) ? gen::partly<P, N>(c, p, q) : q;
  };
  switch (c.u(6)) {
    case 0:
    case 1:
      p = fresh();
      dyn.get_model().update_params(p);
      c.cls("parameters updated in flight");
      break;
    case 2: {  // a refused set changes nothing
      auto q         = fresh();
      q.vehicle_mass = -q.vehicle_mass;
      dyn.get_model().update_params(q);
      c.cls("parameters refused in flight");
      break;
    }
    case 3:
      p = fresh();
      dyn.set_model(Model(p, int(c.u(1000))));
      c.cls("model exchanged in flight");
      break;
    case 4:
      dyn.set_state(gen::state<P, N>(c, p));
      c.cls("state set in flight");
      break;
    default: {
      Dyn copy(dyn);
      auto q = fresh();
      dyn    = Dyn(q, gen::state<P, N>(c, q));
      dyn    = copy;
      c.cls("assigned in flight");
    }
  }
}

}  // namespace refsim

#endif
