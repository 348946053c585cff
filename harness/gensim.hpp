// Generators for the simulator, shared by the O02 and S harnesses.
#ifndef VERIF_GENSIM_HPP_
#define VERIF_GENSIM_HPP_

#include "multirotor_simulator.hpp"
#include "refcascade.hpp"
#include "refsim.hpp"

namespace gensim {

template <typename P>
imu::IMUParams<P> imu_params(pbt::Ctx &c, bool noise) {
  imu::IMUParams<P> p;
  if (noise) {
    p.gyro_noise_var                 = P(c.zlogpos(1e-6, 0.1));
    p.accel_noise_var                = P(c.zlogpos(1e-6, 0.1));
    p.gyro_bias_noise_autocorr_time  = P(c.zlogpos(1e-8, 1e-2));
    p.accel_bias_noise_autocorr_time = P(c.zlogpos(1e-8, 1e-2));
  }
  if (c.chance(1, 2)) p.imu_orientation = gen::quat<P>(c);
  p.seed = gen::seed(c);
  return p;
}

template <typename P, int N>
multirotor::SimulatorParams<P, N> params(pbt::Ctx &c, bool noise) {
  multirotor::SimulatorParams<P, N> p;
  p.dynamics_params.model_params = gen::model_params<P, N>(c, noise);
  p.dynamics_params.state        = gen::state<P, N>(c, p.dynamics_params.model_params);
  p.dynamics_params.model_seed   = gen::seed(c);
  p.controller_params            = refcascade::params<P, N>(c);
  p.imu_params                   = imu_params<P>(c, noise);
  p.inertial_odometry_params.alpha                     = P(c.u(2) ? 1.0 : c.uniform(0.1, 1));
  p.inertial_odometry_params.initial_world_orientation = gen::quat<P>(c);
  return p;
}

// a vehicle and controllers that fly: the configuration of the repository's own
// example, with mass, size, motors and inertia varied consistently
template <typename P>
multirotor::SimulatorParams<P, 4> flying(pbt::Ctx &c) {
  using Model = multirotor::model::Model<P, 4>;
  multirotor::SimulatorParams<P, 4> p;
  auto &m  = p.dynamics_params.model_params;
  double k = c.logpos(0.5, 3);
  m.gravity                         = gen::V3<P>(0, 0, P(-9.81));
  m.vehicle_mass                    = P(k);
  m.vehicle_inertia                 = gen::V3<P>(P(0.0049 * k * c.uniform(0.8, 1.2)), P(0.0049 * k * c.uniform(0.8, 1.2)), P(0.0069 * k * c.uniform(0.8, 1.2))).asDiagonal();
  m.vehicle_drag_coefficient        = P(c.uniform(0.0, 0.2));
  m.vehicle_aero_moment_coefficient = gen::V3<P>::Constant(P(c.uniform(0, 0.004))).asDiagonal();
  m.force_process_noise_auto_correlation  = 0;
  m.moment_process_noise_auto_correlation = 0;
  double kf = 1.91e-6 * k * c.uniform(0.9, 1.3), kt = kf * c.uniform(0.1, 0.16), d = 0.08 * c.uniform(0.9, 1.6), tc = c.uniform(0.005, 0.02);
  if (c.u(2)) {
    m.motors_params = Model::create_quadrotor_x_config(P(kf), P(kt), P(d), P(d * c.uniform(0.8, 1.2)), P(0), P(2200), P(tc), P(6.62e-6));
    c.cls("x frame");
  } else {
    m.motors_params = Model::create_quadrotor_plus_config(P(kf), P(kt), P(d * 1.4), P(d * 1.4), P(0), P(2200), P(tc), P(6.62e-6));
    c.cls("plus frame");
  }
  auto &ip                = p.controller_params.indi_controller_params;
  ip.inertia              = m.vehicle_inertia;
  ip.mixer_matrix_inverse = indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(Model::template compute_mixer_matrix<6>(m.motors_params));
  auto all = [](double v) { return gen::V3<P>::Constant(P(v)); };
  ip.pid_params.Kp_gains       = all(9);
  ip.pid_params.Ki_gains       = all(3);
  ip.pid_params.Kd_gains       = all(0.3);
  ip.pid_params.alpha          = all(0.6);
  ip.pid_params.antiwindup_cte = all(1);
  auto &ap        = p.controller_params.acro_controller_params;
  ap.gravity      = m.gravity;
  ap.vehicle_mass = m.vehicle_mass;
  ap.kp_rot       = gen::V3<P>(P(6), P(6), P(4)).asDiagonal();
  auto &tp          = p.controller_params.trajectory_controller_params.pid_params;
  tp.Kp_gains       = all(4);
  tp.Ki_gains       = all(0.01);
  tp.Kd_gains       = all(3.5);
  tp.antiwindup_cte = all(1);
  p.controller_params.velocity_controller_params.pid_params.Kp_gains = all(1.5);
  auto &pp    = p.controller_params.position_controller_params.pid_params;
  pp.Kp_gains = all(0.6);
  return p;
}

}  // namespace gensim

#endif
