// S01: arming, control modes and references: a model of the simulator's command
// interface against the real one over generated operation sequences.
#include "refcmd.hpp"
using namespace pbt;
using namespace ref;
using refcmd::Model;
using multirotor::ControlMode;
using multirotor::YawControlMode;

template <typename T>
bool same(const T &a, const T &b) {
  for (int i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}

template <typename P, int N>
void compare(Ctx &c, const multirotor::Simulator<P, N> &s, const Model<P, N> &m, const Eigen::Matrix<P, N, 1> &act) {
  using V  = gen::V3<P>;
  using VN = Eigen::Matrix<P, N, 1>;
  bool b1, b2;
  P h, t, y, r;
  V v1, v2, v3_, v4, v5;
  VN n1, n2;
  ControlMode cm;
  YawControlMode ym;
  s.get_armed(b1);
  s.get_floor_collision_enabled(b2);
  s.get_floor_height(h);
  s.get_reference_thrust(t);
  s.get_reference_yaw(y);
  s.get_reference_yaw_rate(r);
  s.get_reference_angular_velocity(v1);
  s.get_reference_position(v2);
  s.get_reference_velocity(v3_);
  s.get_reference_acceleration(v4);
  s.get_external_force(v5);
  s.get_reference_motors_angular_velocity(n1);
  s.get_actuation_motors_angular_velocity(n2);
  s.get_control_mode(cm);
  s.get_yaw_control_mode(ym);
  c.check(b1 == s.get_armed() && b2 == s.get_floor_collision_enabled() && h == s.get_floor_height() &&
              t == s.get_reference_thrust() && y == s.get_reference_yaw() && r == s.get_reference_yaw_rate() &&
              v1 == s.get_reference_angular_velocity() && v2 == s.get_reference_position() &&
              v3_ == s.get_reference_velocity() && v4 == s.get_reference_acceleration() && v5 == s.get_external_force() &&
              n1 == s.get_reference_motors_angular_velocity() && n2 == s.get_actuation_motors_angular_velocity() &&
              cm == s.get_control_mode() && ym == s.get_yaw_control_mode(),
          "the two forms of a getter disagree");
  c.check(b1 == m.armed, "armed");
  c.check(b2 == m.floor, "floor collision enabled");
  c.check(h == m.height, "floor height");
  c.check(cm == m.mode, "control mode");
  c.check(ym == m.ym, "yaw control mode");
  c.check(t == m.thrust, "thrust reference");
  c.check(v1 == m.rates, "body rate reference");
  c.check(v2 == m.pos, "position reference");
  c.check(v3_ == m.vel, "velocity reference");
  c.check(v4 == m.acc, "acceleration reference");
  c.check(n1 == m.motors, "rotor speed reference");
  c.check(r == m.rate, "yaw rate reference");
  m.check_yaw(c, y);
  // no command reaches the rotors of a disarmed vehicle; else the last one stays in force
  if (!m.armed) c.check(n2 == VN::Zero(), "actuation while disarmed");
  c.check(same(n2, act), "the actuation changed without a controller update");
}

template <typename P, int N>
void machine(Ctx &c) {
  using V   = gen::V3<P>;
  using Sim = multirotor::Simulator<P, N>;
  auto prm  = gensim::params<P, N>(c, c.chance(1, 4));
  Sim s(prm);
  Model<P, N> m;
  Eigen::Matrix<P, N, 1> act = Eigen::Matrix<P, N, 1>::Zero();  // the command in force
  compare<P, N>(c, s, m, act);
  int n        = c.len(1, 16, 400);
  int switches = 0, drives = 0;
  std::string ops;
  for (int k = 0; k < n; k++) {
    if (c.chance(1, 8)) {  // nothing of this concerns the commands
      switch (c.u(5)) {
        case 0:
          prm.controller_params = refcascade::changed<P, N>(c, prm.controller_params);
          s.get_controller().update_params(prm.controller_params);
          break;
        case 1:
          prm.controller_params = refcascade::params<P, N>(c);
          s.set_controller_params(prm.controller_params);
          break;
        case 2: refsim::intervene<P, N>(c, s.get_dynamics(), prm.dynamics_params.model_params, false); break;
        case 3: s.get_controller().reset_controller(); break;
        default:
          s.update_imu(P(0.01));
          s.update_inertial_odometry(P(0.01));
      }
      ops += "other ";
      compare<P, N>(c, s, m, act);
    }
    switch (c.u(15)) {
      case 0:
        s.arm();
        m.arm();
        ops += "arm ";
        break;
      case 1:
        s.disarm();
        m.armed = false;
        act.setZero();
        ops += "disarm ";
        break;
      case 2:
      case 3: {
        auto cm = ControlMode(c.u(6));
        auto ym = YawControlMode(c.u(2));
        if (ym == YawControlMode::ANGLE && c.chance(1, 2)) {
          s.set_control_mode(cm);
        } else {
          s.set_control_mode(cm, ym);
        }
        ops += "mode" + std::to_string(int(cm)) + (ym == YawControlMode::RATE ? "r " : "a ");
        if (!m.switch_mode(cm, ym, s.get_state(), s.get_reference_yaw())) {
          c.cls("mode set again");
          break;  // references stay
        }
        switches++;
        break;
      }
      case 4: {
        Eigen::Matrix<P, N, 1> v = gen::command<P, N>(c, prm.dynamics_params.model_params);
        s.set_refence_motors_angular_velocity(v);
        m.motors = v;
        ops += "rotors ";
        break;
      }
      case 5: {
        P t = P(c.u(4) == 3 ? c.sreal(100) : c.zlogpos(0.1, 100));
        V w = gen::vec<P>(c, c.u(4) == 0 ? 500 : 5);
        s.set_reference_acro(t, w);
        m.thrust = t;
        m.rates  = w;
        ops += "acro ";
        break;
      }
      case 6: {
        V p = gen::vec<P>(c, c.u(12) == 11 ? 1e5 : 50), v = gen::vec<P>(c, 5), a = gen::vec<P>(c, 5);
        s.set_reference_trajectory(p, v, a);
        m.pos = p;
        m.vel = v;
        m.acc = a;
        ops += "traj ";
        break;
      }
      case 7: {
        V v = gen::vec<P>(c, 5);
        s.set_reference_velocity(v);
        m.vel = v;
        ops += "vel ";
        break;
      }
      case 8: {
        V p = gen::vec<P>(c, c.u(12) == 11 ? 1e5 : 50);
        s.set_reference_position(p);
        m.pos = p;
        ops += "pos ";
        break;
      }
      case 9: {
        P y = gen::heading<P>(c);
        s.set_reference_yaw_angle(y);
        m.yaw = y;
        ops += "yaw ";
        break;
      }
      case 10: {
        P y = P(c.sreal(c.u(4) == 0 ? 100 : 4));
        s.set_reference_yaw_rate(y);
        m.rate = y;
        ops += "rate ";
        break;
      }
      case 11:
        if (c.chance(1, 2)) {
          P h = P(c.sreal(20));
          bool dflt = c.chance(1, 4);
          if (dflt) {
            s.enable_floor_collision();
            h = 0;
          } else {
            s.enable_floor_collision(h);
          }
          m.floor  = true;
          m.height = h;
          ops += "floor ";
        } else {
          s.disable_floor_collision();
          m.floor = false;
          ops += "nofloor ";
        }
        break;
      case 12: {
        // anywhere
        auto x = gen::state<P, N>(c, prm.dynamics_params.model_params);
        s.get_dynamics().set_state(x);
        ops += "state ";
        break;
      }
      case 13: {
        P dt = refpid::step_time<P>(c);
        s.update_controller(dt);
        act = s.get_actuation_motors_angular_velocity();
        if (m.armed && m.mode == ControlMode::MOTOR_W) c.check(act == m.motors, "rotor speeds passed through");
        double kz = double(prm.controller_params.acro_controller_params.kp_rot(2, 2));
        if (m.lead_yaw(s.get_state(), kz, s.get_reference_yaw())) c.cls("yaw rate");
        if (m.armed) drives++;
        ops += "control ";
        break;
      }
      default: {
        if (!gen::bounded(s.get_state())) break;
        if (act.allFinite()) s.update_dynamics(P(c.logpos(1e-4, 0.005)));
        ops += "dynamics ";
      }
    }
    compare<P, N>(c, s, m, act);
  }
  c.note("ops", ops);
  if (switches) c.cls("mode switched");
  if (drives) c.cls("controlled while armed");
  if (switches && n > 3) c.nontrivial();
}
static Reg a("machine<double,4>", machine<double, 4>, 3);
static Reg b("machine<float,4>", machine<float, 4>, 1);
static Reg d("machine<double,6>", machine<double, 6>, 1);
static Reg e("machine<float,6>", machine<float, 6>, 1);
