// Reference of the whole control cascade (position -> velocity -> acceleration ->
// thrust and body rates -> rotor speeds), checked stage by stage against the
// controller's own intermediate values, so that rounding does not accumulate.
#ifndef VERIF_REFCASCADE_HPP_
#define VERIF_REFCASCADE_HPP_

#include "refctl.hpp"

namespace refcascade {

using namespace ref;

template <typename P, int N>
multirotor::controller::ControllerParams<P, N> params(pbt::Ctx &c) {
  multirotor::controller::ControllerParams<P, N> p;
  p.acro_controller_params                  = refctl::acro_params<P>(c);
  p.indi_controller_params                  = refctl::indi_params<P, N>(c);
  p.position_controller_params.pid_params   = refpid::params<P, 3>(c);
  p.trajectory_controller_params.pid_params = refpid::params<P, 3>(c);
  p.velocity_controller_params.pid_params   = refpid::params<P, 3>(c);
  return p;
}

// new parameters for a controller that has a: some or all of them, in part or entirely
template <typename P, int N>
multirotor::controller::ControllerParams<P, N> changed(pbt::Ctx &c, const multirotor::controller::ControllerParams<P, N> &a) {
  auto b = params<P, N>(c);
  if (c.u(2) == 0) return b;
  auto pid = [&](const auto &x, const auto &y) { return c.u(2) ? refpid::partly<P, 3>(c, x, y) : x; };
  auto o   = a;
  if (c.u(2)) o.acro_controller_params = refctl::partly<P>(c, a.acro_controller_params, b.acro_controller_params);
  if (c.u(2)) o.indi_controller_params = refctl::partly<P, N>(c, a.indi_controller_params, b.indi_controller_params);
  o.position_controller_params.pid_params   = pid(a.position_controller_params.pid_params, b.position_controller_params.pid_params);
  o.velocity_controller_params.pid_params   = pid(a.velocity_controller_params.pid_params, b.velocity_controller_params.pid_params);
  o.trajectory_controller_params.pid_params = pid(a.trajectory_controller_params.pid_params, b.trajectory_controller_params.pid_params);
  return o;
}

template <typename P, int N>
struct Cascade {
  using V   = gen::V3<P>;
  using M   = gen::M3<P>;
  using Ctl = multirotor::controller::Controller<P, N>;
  using Prm = multirotor::controller::ControllerParams<P, N>;
  Prm prm;
  refpid::Pid<P, 3> pos, vel, traj, indi;
  bool stop = false;  // a branch hangs on the last bits, or on the sign of zero

  explicit Cascade(const Prm &p) { update(p); }
  // other parameters, the memory of the controllers stays
  void update(const Prm &p) {
    prm = p;
    pos.configure(p.position_controller_params.pid_params);
    vel.configure(p.velocity_controller_params.pid_params);
    traj.configure(p.trajectory_controller_params.pid_params);
    indi.configure(p.indi_controller_params.pid_params);
  }
  void restart() {
    pos.restart();
    vel.restart();
    traj.restart();
    indi.restart();
  }
  void step(pbt::Ctx &c, refpid::Pid<P, 3> &pid, double dt, const V &e, const V *de, const V &out, const V &ff,
            const char *what) {
    for (size_t i = 0; i < 3; i++)
      if (e[int(i)] == P(0) && pid.reset_flag && !pid.first) {  // the sign of zero matters to a saturated integral
        double a = std::fabs(double(pid.acc[i].v)), t = tol_of<P>(pid.acc[i]);
        if (a > t && a + t >= pid.aw[i]) stop = true;
      }
    pid.template step<V>(dt, e, de);
    if (pid.ambiguous) stop = true;
    if (stop) return;
    for (int i = 0; i < 3; i++) close<P>(c, double(out[i]), pid.out[size_t(i)] + R(double(ff[i])), what);
  }
  // ---- stages -----------------------------------------------------------------
  void position(pbt::Ctx &c, const Ctl &k, const V &p, const V &pd, double dt, const V &out) {
    const auto &pc = k.get_position_controller_const();
    close_each<P>(c, pc.get_position_error(), v3(pd) - v3(p), "position error");
    step(c, pos, dt, pc.get_position_error(), nullptr, out, V::Zero(), "velocity for the position");
    if (!stop) c.check(pc.get_desired_linear_velocity() == out, "position controller get_desired_linear_velocity");
  }
  void velocity(pbt::Ctx &c, const Ctl &k, const V &v, const V &vd, double dt, const V &out) {
    const auto &vc = k.get_velocity_controller_const();
    close_each<P>(c, vc.get_velocity_error(), v3(vd) - v3(v), "velocity error");
    step(c, vel, dt, vc.get_velocity_error(), nullptr, out, V::Zero(), "acceleration for the velocity");
    if (!stop) c.check(vc.get_desired_linear_acceleration() == out, "velocity controller get_desired_linear_acceleration");
  }
  void trajectory(pbt::Ctx &c, const Ctl &k, const V &p, const V &v, const V &pd, const V &vd, const V &ad, double dt,
                  const V &out) {
    const auto &tc = k.get_trajectory_controller_const();
    close_each<P>(c, tc.get_position_error(), v3(pd) - v3(p), "trajectory position error");
    close_each<P>(c, tc.get_velocity_error(), v3(vd) - v3(v), "trajectory velocity error");
    V e = tc.get_position_error(), de = tc.get_velocity_error();
    step(c, traj, dt, e, &de, out, ad, "acceleration for the trajectory");
  }
  void acceleration(pbt::Ctx &c, const V &a, const M &cur, double yaw, double thrust, const V &w) {
    const auto &ap = prm.acro_controller_params;
    V3 t           = (v3(a) - v3(ap.gravity)) * R(double(ap.vehicle_mass));
    R tb           = t.x * R(double(cur(0, 2))) + t.y * R(double(cur(1, 2))) + t.z * R(double(cur(2, 2)));
    double tol     = tol_of<P>(tb);
    for (int i = 0; i < 3; i++) c.check(std::isfinite(double(w[i])), "body rates not finite");
    c.check(thrust >= 0, "negative thrust");
    c.close(thrust, std::max(0.0, double(tb.v)), tol, "thrust along the body axis");
    if (tb.v < -tol) {
      c.check(w == V::Zero(), "body rates while the thrust points away");
      c.cls("thrust against the body axis");
      return;
    }
    if (tb.v < tol) return;
    auto r = refctl::attitude(cur, yaw, t, ap.kp_rot);
    // the square of the thrust must be representable
    double size = double(std::fabs(t.x.v) + std::fabs(t.y.v) + std::fabs(t.z.v));
    bool square = size < 0.1 * std::sqrt(double(std::numeric_limits<P>::max())) &&
                  size > 1e3 * std::sqrt(double(std::numeric_limits<P>::min()));
    if (r.degenerate || !square) {
      c.cls("degenerate thrust or heading");
      return;
    }
    double kn = ap.kp_rot.template cast<double>().norm();
    for (int i = 0; i < 3; i++)
      c.close(double(w[i]), r.w[i], (sizeof(P) == 4 ? 2e-5 : 1e-12) * (kn + 1e-30) * r.cond, "body rate for the attitude");
  }
  template <typename VN>
  void acro(pbt::Ctx &c, const Ctl &k, const V &w, double T, const V &wd, double dt, const VN &out) {
    const auto &ic = k.get_indi_controller_const();
    close_each<P>(c, ic.get_angular_velocity_error(), v3(wd) - v3(w), "rate error");
    V al = ic.get_desired_angular_acceleration();
    step(c, indi, dt, ic.get_angular_velocity_error(), nullptr, al, V::Zero(), "angular acceleration for the rates");
    if (stop) return;
    const auto &ip = prm.indi_controller_params;
    V3 tq          = refctl::torque(m3(ip.inertia), v3(al), v3(wd));
    refctl::check_motors<P, N>(c, out, refctl::allocation<P, N>(ip.mixer_matrix_inverse, T, tq));
    c.check(ic.get_motor_angular_velocity() == out, "indi controller get_motor_angular_velocity");
  }
  // ---- whole modes: from the getters of the controller ---------------------------
  template <typename VN>
  void check_acro(pbt::Ctx &c, const Ctl &k, const V &w, double T, const V &wd, double dt, const VN &out) {
    c.check(double(k.get_desired_thrust()) == T && k.get_desired_angular_velocity() == wd, "acro references");
    c.check(k.get_desired_motor_angular_velocity() == out, "get_desired_motor_angular_velocity");
    acro(c, k, w, T, wd, dt, out);
  }
  template <typename VN>
  void check_acceleration(pbt::Ctx &c, const Ctl &k, const M &cur, const V &w, const V &a, double yaw, double dt,
                          const VN &out) {
    c.check(k.get_desired_linear_acceleration() == a, "get_desired_linear_acceleration");
    acceleration(c, a, cur, yaw, double(k.get_desired_thrust()), k.get_desired_angular_velocity());
    V wd = k.get_desired_angular_velocity();
    check_acro(c, k, w, double(k.get_desired_thrust()), wd, dt, out);
  }
  template <typename VN>
  void check_velocity(pbt::Ctx &c, const Ctl &k, const V &v, const M &cur, const V &w, const V &vd, double yaw, double dt,
                      const VN &out) {
    c.check(k.get_desired_linear_velocity() == vd, "get_desired_linear_velocity");
    V a = k.get_desired_linear_acceleration();
    velocity(c, k, v, vd, dt, a);
    if (!stop) check_acceleration(c, k, cur, w, a, yaw, dt, out);
  }
  template <typename VN>
  void check_position(pbt::Ctx &c, const Ctl &k, const V &p, const M &cur, const V &v, const V &w, const V &pd, double yaw,
                      double dt, const VN &out) {
    c.check(k.get_desired_position() == pd, "get_desired_position");
    V vd = k.get_desired_linear_velocity();
    position(c, k, p, pd, dt, vd);
    if (!stop) check_velocity(c, k, v, cur, w, vd, yaw, dt, out);
  }
  template <typename VN>
  void check_trajectory(pbt::Ctx &c, const Ctl &k, const V &p, const V &v, const M &cur, const V &w, const V &pd,
                        const V &vd, const V &ad, double yaw, double dt, const VN &out) {
    c.check(k.get_desired_position() == pd && k.get_desired_linear_velocity() == vd, "trajectory references");
    V a = k.get_desired_linear_acceleration();
    trajectory(c, k, p, v, pd, vd, ad, dt, a);
    if (!stop) check_acceleration(c, k, cur, w, a, yaw, dt, out);
  }
};

}  // namespace refcascade

#endif
