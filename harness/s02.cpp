// S02: every control mode drives the rotors through its own part of the cascade,
// from the current state and the current references; a disarmed vehicle gets no
// command.
#include "refcmd.hpp"
using namespace pbt;
using namespace ref;
using multirotor::ControlMode;
using multirotor::YawControlMode;

template <typename P, int N>
void dispatch(Ctx &c) {
  using V   = gen::V3<P>;
  using VN  = Eigen::Matrix<P, N, 1>;
  using Sim = multirotor::Simulator<P, N>;
  auto prm  = gensim::params<P, N>(c, false);
  Sim s(prm);
  refcascade::Cascade<P, N> r(prm.controller_params);
  refcmd::Model<P, N> m;
  // deliberately tell-tale references, for all modes or for some
  auto refs = [&](bool all) {
    auto pick = [&](int one_in) { return all || c.u(uint32_t(one_in)) == 0; };
    if (pick(3)) s.set_refence_motors_angular_velocity(m.motors = gen::command<P, N>(c, prm.dynamics_params.model_params));
    if (pick(3)) {
      m.thrust = P(c.u(5) == 4 ? c.sreal(100) : c.zlogpos(0.1, 100));
      m.rates  = gen::vec<P>(c, 5);
      s.set_reference_acro(m.thrust, m.rates);
    }
    if (pick(3)) {
      m.pos = gen::vec<P>(c, 50);
      m.vel = gen::vec<P>(c, 5);
      m.acc = gen::vec<P>(c, 5);
      s.set_reference_trajectory(m.pos, m.vel, m.acc);
    }
    if (c.u(3) == 0) s.set_reference_velocity(m.vel = gen::vec<P>(c, 5));
    if (c.u(3) == 0) s.set_reference_position(m.pos = gen::vec<P>(c, 50));
    if (pick(3)) s.set_reference_yaw_angle(m.yaw = gen::heading<P>(c));
    if (pick(3)) s.set_reference_yaw_rate(m.rate = P(c.sreal(2)));
  };
  int n     = c.len(1, 8, 200);
  bool real = false;
  auto arm = [&] {
    s.arm();
    m.arm();
  };
  bool settled = true;  // no contact with a floor to carry over to the next step
  auto floor = [&] {    // sets the height that arming starts from; is no part of any control law
    s.enable_floor_collision(m.height = P(c.u(4) == 0 ? c.sreal(20) : double(s.get_state().kinematics.position.z()) + c.sreal(1)));
    m.floor = true;
    if (c.u(2)) {
      s.disable_floor_collision();
      m.floor = false;
    }
    c.cls("floor");
  };
  if (c.chance(1, 8)) floor();
  if (c.chance(9, 10)) arm();
  for (int k = 0; k < n && !r.stop; k++) {
    if (c.chance(1, 10)) {
      s.disarm();
      m.armed = false;
    }
    if (c.chance(1, 6)) arm();
    if (k == 0 || c.chance(1, 3)) {
      auto cm = ControlMode(c.u(6));
      auto ym = YawControlMode(c.u(2));
      s.set_control_mode(cm, ym);
      m.switch_mode(cm, ym, s.get_state(), s.get_reference_yaw());
    }
    if (c.chance(k == 0 ? 3 : 1, 4)) refs(c.u(2));
    if (c.chance(1, 3)) s.get_dynamics().set_state(gen::state<P, N>(c, prm.dynamics_params.model_params));
    if (c.chance(1, 12)) {
      s.get_controller().reset_controller();
      r.restart();
    }
    if (c.chance(1, 15)) {
      prm.controller_params = refcascade::params<P, N>(c);
      s.set_controller_params(prm.controller_params);
      r = refcascade::Cascade<P, N>(prm.controller_params);
      c.cls("controller replaced");
    }
    if (c.chance(1, 10)) {  // other parameters for the running controllers
      auto t  = refcascade::changed<P, N>(c, prm.controller_params);
      auto &l = s.get_controller();
      if (c.u(2)) {
        prm.controller_params = t;
        l.update_params(t);
      } else {
        switch (c.u(5)) {
          case 0: l.update_acro_controller_params((prm.controller_params.acro_controller_params = t.acro_controller_params)); break;
          case 1: l.update_indi_controller_params((prm.controller_params.indi_controller_params = t.indi_controller_params)); break;
          case 2: l.update_position_controller_params((prm.controller_params.position_controller_params = t.position_controller_params)); break;
          case 3: l.update_velocity_controller_params((prm.controller_params.velocity_controller_params = t.velocity_controller_params)); break;
          default: l.update_trajectory_controller_params((prm.controller_params.trajectory_controller_params = t.trajectory_controller_params));
        }
      }
      r.update(prm.controller_params);
      c.cls("controller parameters updated");
    }
    if (c.chance(1, 15)) {
      refsim::intervene<P, N>(c, s.get_dynamics(), prm.dynamics_params.model_params, false);
    }
    if (c.chance(1, 12)) floor();
    if (m.floor && c.chance(1, 6)) {
      s.disable_floor_collision();
      m.floor = false;
    }
    if (c.chance(1, 10)) {  // the sensors are no part of it either
      s.update_imu(P(0.01));
      s.update_inertial_odometry(P(0.01));
    }
    P dt          = refpid::step_time<P>(c);
    const auto st = s.get_state();
    s.update_controller(dt);
    VN out       = s.get_actuation_motors_angular_velocity();
    const auto &x = s.get_state().kinematics;
    c.check(x.position == st.kinematics.position && x.linear_velocity == st.kinematics.linear_velocity &&
                x.angular_velocity == st.kinematics.angular_velocity,
            "the controller moved the vehicle");
    if (!m.armed) {
      c.check(out == VN::Zero(), "actuation while disarmed");
      c.cls("disarmed");
      continue;
    }
    const auto &ctl = s.get_controller_const();
    gen::M3<P> cur  = x.orientation.toRotationMatrix();
    // the yaw that was asked for, up to rounding; the cascade is then held to it exactly
    if (m.lead_yaw(s.get_state(), double(prm.controller_params.acro_controller_params.kp_rot(2, 2)), s.get_reference_yaw()))
      c.cls("yaw rate");
    m.check_yaw(c, s.get_reference_yaw());
    double h = double(dt), yaw = double(s.get_reference_yaw());
    c.cls("mode " + std::to_string(int(m.mode)));
    switch (m.mode) {
      case ControlMode::MOTOR_W: c.check(out == m.motors, "rotor speeds passed through"); break;
      case ControlMode::ACRO: r.check_acro(c, ctl, x.angular_velocity, double(m.thrust), m.rates, h, out); break;
      case ControlMode::TRAJECTORY:
        r.check_trajectory(c, ctl, x.position, x.linear_velocity, cur, x.angular_velocity, m.pos, m.vel, m.acc, yaw, h, out);
        break;
      case ControlMode::VELOCITY:
        r.check_velocity(c, ctl, x.linear_velocity, cur, x.angular_velocity, m.vel, yaw, h, out);
        break;
      default:  // POSITION and HOVER
        r.check_position(c, ctl, x.position, cur, x.linear_velocity, x.angular_velocity, m.pos, yaw, h, out);
    }
    real |= out.norm() > P(0);
    // the command in force is what moves the vehicle
    if (!r.stop && c.chance(1, 2) && out.allFinite() && gen::bounded(s.get_state())) {
      typename std::remove_reference<decltype(s.get_dynamics())>::type d;
      s.get_dynamics(d);
      P ds = gen::small_dt<P>(c);
      s.update_dynamics(ds);
      d.process_euler_explicit(out, ds);
      c.check(s.get_state().actuators.motor_angular_velocity == d.get_state().actuators.motor_angular_velocity,
              "the rotors do not follow the actuation");
      if (!m.floor && settled)
        c.check(s.get_state().kinematics.position == d.get_state().kinematics.position &&
                    s.get_state().kinematics.linear_velocity == d.get_state().kinematics.linear_velocity &&
                    s.get_state().kinematics.angular_velocity == d.get_state().kinematics.angular_velocity &&
                    s.get_state().kinematics.orientation.coeffs() == d.get_state().kinematics.orientation.coeffs(),
                "the dynamics do not follow the actuation");
      settled = !m.floor;
      c.check(s.get_actuation_motors_angular_velocity() == out, "the dynamics changed the actuation");
      c.cls("dynamics step");
    }
    if (k < 3) c.note("rotors", gen::str(out));
  }
  if (r.stop) c.cls("stopped at a rounding-dependent branch");
  if (real) c.nontrivial();
}
static Reg a("dispatch<double,4>", dispatch<double, 4>, 3);
static Reg b("dispatch<float,4>", dispatch<float, 4>, 1);
static Reg d("dispatch<double,6>", dispatch<double, 6>, 1);
static Reg e("dispatch<float,6>", dispatch<float, 6>, 1);
