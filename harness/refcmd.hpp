// Model of the simulator's command interface: arming, control modes, references.
#ifndef VERIF_REFCMD_HPP_
#define VERIF_REFCMD_HPP_

#include "gensim.hpp"

namespace refcmd {

using multirotor::ControlMode;
using multirotor::YawControlMode;

// yaw of an attitude; false when it is not well defined
template <typename P>
bool yaw_of(const Eigen::Quaternion<P> &q, double &yaw) {
  double w = q.w(), x = q.x(), y = q.y(), z = q.z(), n = w * w + x * x + y * y + z * z;
  double s = 2 * (w * z + x * y) / n, k = 1 - 2 * (y * y + z * z) / n;
  yaw = std::atan2(s, k);
  return s * s + k * k > (sizeof(P) == 4 ? 1e-3 : 1e-8);
}

template <typename P, int N>
struct Model {
  using V  = gen::V3<P>;
  using VN = Eigen::Matrix<P, N, 1>;
  bool armed = false, floor = false;
  P height = 0, thrust = 0, yaw = 0, rate = 0;
  V rates = V::Zero(), pos = V::Zero(), vel = V::Zero(), acc = V::Zero();
  VN motors        = VN::Zero();
  ControlMode mode = ControlMode::MOTOR_W;
  YawControlMode ym = YawControlMode::ANGLE;

  void arm() {
    armed  = true;
    thrust = P(9.81);
    rates.setZero();
    pos.z() = height;
  }
  // setting the mode in force again keeps the references; returns whether it switched.
  // `sim_yaw` stands in where the attitude has no definite yaw.
  bool switch_mode(ControlMode cm, YawControlMode y, const multirotor::state::State<P, N> &st, P sim_yaw) {
    if (cm == mode && y == ym) return false;
    mode = cm;
    ym   = y;
    pos  = st.kinematics.position;
    double a;
    yaw = yaw_of(st.kinematics.orientation, a) ? P(a) : sim_yaw;
    vel.setZero();
    acc.setZero();
    rates.setZero();
    thrust = 0;
    return true;
  }
  // a controller update in yaw rate mode: the commanded angle leads the current one by rate / gain
  bool lead_yaw(const multirotor::state::State<P, N> &st, double kz, P sim_yaw) {
    if (!armed || ym != YawControlMode::RATE) return false;
    double y;
    bool ok     = yaw_of(st.kinematics.orientation, y);
    double step = kz == 0 ? 0.0 : double(rate) / kz;
    yaw         = ok && std::fabs(step) < 1e3 ? P(y + step) : sim_yaw;
    return true;
  }
  void check_yaw(pbt::Ctx &c, P y) const {
    c.close(std::remainder(double(y) - double(yaw), 2 * M_PI), 0,
            (sizeof(P) == 4 ? 1e-3 : 1e-7) + (sizeof(P) == 4 ? 1e-6 : 1e-14) * std::fabs(double(y)), "yaw reference");
  }
};

}  // namespace refcmd

#endif  // VERIF_REFCMD_HPP_
