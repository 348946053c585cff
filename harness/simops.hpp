// Operations on whole simulators that can be applied twice, and comparison of
// everything observable of two simulators.
#ifndef VERIF_SIMOPS_HPP_
#define VERIF_SIMOPS_HPP_

#include "gensim.hpp"

namespace simops {

using multirotor::ControlMode;
using multirotor::YawControlMode;

template <typename P, int N>
bool same_state(const multirotor::state::State<P, N> &a, const multirotor::state::State<P, N> &b) {
  return a.kinematics.position == b.kinematics.position && a.kinematics.orientation.coeffs() == b.kinematics.orientation.coeffs() &&
         a.kinematics.linear_velocity == b.kinematics.linear_velocity && a.kinematics.angular_velocity == b.kinematics.angular_velocity &&
         a.kinematics.linear_acceleration == b.kinematics.linear_acceleration &&
         a.kinematics.angular_acceleration == b.kinematics.angular_acceleration && a.dynamics.force == b.dynamics.force &&
         a.dynamics.torque == b.dynamics.torque && a.actuators.motor_angular_velocity == b.actuators.motor_angular_velocity &&
         a.actuators.motor_angular_acceleration == b.actuators.motor_angular_acceleration;
}
template <typename P, int N>
using Sim = multirotor::Simulator<P, N>;

template <typename P, int N>
std::string differs(const Sim<P, N> &a, const Sim<P, N> &b) {
  if (!same_state<P, N>(a.get_state(), b.get_state())) return "state";
  gen::V3<P> g1, a1, g2, a2, x1, y1, x2, y2;
  a.get_imu_measurement(g1, a1);
  b.get_imu_measurement(g2, a2);
  if (!(g1 == g2 && a1 == a2)) return "IMU reading";
  a.get_imu_const().get_bias(x1, y1);
  b.get_imu_const().get_bias(x2, y2);
  if (!(x1 == x2 && y1 == y2)) return "IMU bias";
  auto o1 = a.get_odometry(), o2 = b.get_odometry();
  if (!(o1.position == o2.position && o1.linear_velocity == o2.linear_velocity && o1.orientation.coeffs() == o2.orientation.coeffs() &&
        o1.angular_velocity == o2.angular_velocity && o1.linear_acceleration == o2.linear_acceleration))
    return "odometry";
  if (!(a.get_actuation_motors_angular_velocity() == b.get_actuation_motors_angular_velocity())) return "actuation";
  if (!(a.get_reference_position() == b.get_reference_position() && a.get_reference_velocity() == b.get_reference_velocity() &&
        a.get_reference_acceleration() == b.get_reference_acceleration() && a.get_reference_angular_velocity() == b.get_reference_angular_velocity() &&
        a.get_reference_thrust() == b.get_reference_thrust() && a.get_reference_yaw() == b.get_reference_yaw() &&
        a.get_reference_yaw_rate() == b.get_reference_yaw_rate() && a.get_control_mode() == b.get_control_mode() &&
        a.get_yaw_control_mode() == b.get_yaw_control_mode() && a.get_armed() == b.get_armed()))
    return "references";
  if (a.get_floor_collision_enabled() != b.get_floor_collision_enabled() || a.get_floor_height() != b.get_floor_height() ||
      !(a.get_external_force() == b.get_external_force()) ||
      !(a.get_reference_motors_angular_velocity() == b.get_reference_motors_angular_velocity()))
    return "floor or rotor references";
  const auto &k1 = a.get_controller_const(), &k2 = b.get_controller_const();
  if (!(k1.get_desired_motor_angular_velocity() == k2.get_desired_motor_angular_velocity() &&
        k1.get_desired_thrust() == k2.get_desired_thrust() && k1.get_desired_angular_velocity() == k2.get_desired_angular_velocity() &&
        k1.get_desired_linear_acceleration() == k2.get_desired_linear_acceleration() &&
        k1.get_desired_linear_velocity() == k2.get_desired_linear_velocity() && k1.get_desired_position() == k2.get_desired_position()))
    return "controller";
  return "";
}

// one operation, fully described by numbers, so that it can be applied twice
template <typename P, int N>
struct Op {
  int kind = 0;
  int i1 = 0, i2 = 0;
  P s1 = 0, s2 = 0;
  gen::V3<P> a, b, d;
  Eigen::Matrix<P, N, 1> w;
  multirotor::state::State<P, N> st;
};
template <typename P, int N>
Op<P, N> op(pbt::Ctx &c, const multirotor::SimulatorParams<P, N> &prm) {
  Op<P, N> o;
  o.kind = int(c.u(14));
  o.i1   = int(c.u(6));
  o.i2   = int(c.u(2));
  o.s1   = P(c.sreal(5));
  o.s2   = P(c.logpos(1e-4, 0.02));
  o.a    = gen::vec<P>(c, 10);
  o.b    = gen::vec<P>(c, 5);
  o.d    = gen::vec<P>(c, 5);
  o.w    = gen::command<P, N>(c, prm.dynamics_params.model_params);
  if (o.kind == 10) o.st = gen::state<P, N>(c, prm.dynamics_params.model_params);
  return o;
}
template <typename P, int N>
void apply(Sim<P, N> &s, const Op<P, N> &o) {
  switch (o.kind) {
    case 0: s.arm(); break;
    case 1:
      if (o.i1 == 0) s.disarm();
      break;
    case 2: s.set_control_mode(ControlMode(o.i1), YawControlMode(o.i2)); break;
    case 3: s.set_refence_motors_angular_velocity(o.w); break;
    case 4: s.set_reference_acro(P(std::fabs(double(o.s1))), o.b); break;
    case 5: s.set_reference_trajectory(o.a, o.b, o.d); break;
    case 6:
      s.set_reference_yaw_angle(o.s1);
      s.set_reference_yaw_rate(o.s1);
      break;
    case 7:
      if (o.i2) {
        s.enable_floor_collision(o.s1);
      } else {
        s.disable_floor_collision();
      }
      break;
    case 8: s.update_imu(o.s2); break;
    case 9: s.update_inertial_odometry(o.s2); break;
    case 10: s.get_dynamics().set_state(o.st); break;
    case 11: s.update_controller(o.s2); break;
    default:
      if (gen::bounded(s.get_state()) && s.get_actuation_motors_angular_velocity().allFinite()) {
        // the motors of a history must not pick up non-finite commands
        s.update_controller(o.s2);
        if (s.get_actuation_motors_angular_velocity().allFinite()) s.update_dynamics(o.s2);
        s.update_imu(o.s2);
        s.update_inertial_odometry(o.s2);
      }
  }
}
template <typename P, int N>
bool sane(const Sim<P, N> &s) {
  const auto &x = s.get_state();
  gen::V3<P> g, a;
  s.get_imu_measurement(g, a);
  auto o = s.get_odometry();
  const auto &k = s.get_controller_const();
  return gen::bounded(x) && x.dynamics.force.allFinite() && x.dynamics.torque.allFinite() && g.allFinite() && a.allFinite() &&
         o.position.allFinite() && o.orientation.coeffs().allFinite() && o.linear_velocity.allFinite() && o.linear_acceleration.allFinite() &&
         s.get_actuation_motors_angular_velocity().allFinite() && k.get_desired_motor_angular_velocity().allFinite() &&
         k.get_desired_angular_velocity().allFinite() && k.get_desired_linear_acceleration().allFinite() &&
         k.get_desired_linear_velocity().allFinite() && std::isfinite(double(k.get_desired_thrust()));
}

}  // namespace simops

#endif  // VERIF_SIMOPS_HPP_
