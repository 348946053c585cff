// D05: physical symmetries of the dynamics (metamorphic relations between two
// runs; no formula of the library is restated).
#include "refsim.hpp"
using namespace pbt;

using P = double;
template <int N>
using Params = multirotor::model::ModelParams<P, N>;
template <int N>
using St = multirotor::state::State<P, N>;
template <int N>
using Dyn = multirotor::dynamics::Dynamics<P, N>;
using V   = Eigen::Vector3d;

struct Cmp {
  Ctx &c;
  std::string what;
  void v(const V &a, const V &b, const char *f, double s = 1) {
    double tol = 1e-8 * (s + a.norm() + b.norm());
    for (int i = 0; i < 3; i++) c.close(a[i], b[i], tol, what + ": " + f);
  }
  void q(const Eigen::Quaterniond &a, const Eigen::Quaterniond &b) {
    c.check(std::fabs(std::fabs(a.coeffs().dot(b.coeffs())) - 1) < 1e-8, what + ": orientation");
  }
  template <typename W>
  void w(const W &a, const W &b, const char *f) {
    for (int i = 0; i < a.size(); i++) c.close(a[i], b[i], 1e-8 * (1 + a.norm()), what + ": " + f);
  }
};

template <int N>
struct Plan {
  Params<N> p;
  St<N> s;
  struct Op {
    Eigen::Matrix<P, N, 1> cmd;
    V ext;
    double dt;
  };
  std::vector<Op> ops;
};

template <int N>
Plan<N> plan(Ctx &c, bool planar_gravity) {
  gen::narrow() = true;
  Plan<N> o;
  o.p = gen::model_params<P, N>(c, false);
  o.p.vehicle_aero_moment_coefficient *= 0.01;
  if (planar_gravity) o.p.gravity = V(0, 0, c.u(3) ? -9.81 : c.sreal(20));
  o.s = gen::state<P, N>(c, o.p);
  o.s.kinematics.angular_velocity *= 0.3;
  int n = c.range(1, 25);
  typename Plan<N>::Op op;
  for (int i = 0; i < n; i++) {
    if (i == 0 || c.chance(1, 3)) op.cmd = gen::command<P, N>(c, o.p);
    if (i == 0 || c.chance(1, 3)) op.ext = gen::vec<P>(c, 20);
    if (i == 0 || c.chance(1, 4)) op.dt = c.chance(1, 6) ? c.uniform(0.011, 0.05) : gen::small_dt<P>(c);
    o.ops.push_back(op);
  }
  c.note("mass", o.p.vehicle_mass);
  c.note("drag", o.p.vehicle_drag_coefficient);
  c.note("q0", gen::strq(o.s.kinematics.orientation));
  c.note("steps", n);
  return o;
}

// runs both plans in lockstep and relates the states after each step
template <int N, typename F>
void lockstep(Ctx &c, const Plan<N> &a, const Plan<N> &b, F rel) {
  // a third run from hardly different a state tells how much the motion amplifies rounding
  auto ps   = a.s;
  int sign  = 1;
  auto near = [&](double v) { return v + (sign = -sign) * 1e-12 * (1 + std::fabs(v)); };
  for (int i = 0; i < 3; i++) {
    ps.kinematics.angular_velocity[i] = near(ps.kinematics.angular_velocity[i]);
    ps.kinematics.linear_velocity[i]  = near(ps.kinematics.linear_velocity[i]);
  }
  for (int i = 0; i < 4; i++) ps.kinematics.orientation.coeffs()[i] = near(ps.kinematics.orientation.coeffs()[i]);
  for (int i = 0; i < N; i++) ps.actuators.motor_angular_velocity[i] = near(ps.actuators.motor_angular_velocity[i]);
  Dyn<N> x(a.p, a.s), y(b.p, b.s), z(a.p, ps);
  bool moved = false;
  auto off   = [](const V &u, const V &v) { return (u - v).norm() > 1e-6 * (1 + u.norm()); };
  for (size_t i = 0; i < a.ops.size(); i++) {
    x.process_euler_explicit(a.ops[i].cmd, a.ops[i].dt, a.ops[i].ext, false);
    y.process_euler_explicit(b.ops[i].cmd, b.ops[i].dt, b.ops[i].ext, false);
    if (!gen::bounded(x.get_state()) || x.get_state().kinematics.angular_velocity.norm() > 60 ||
        x.get_state().dynamics.torque.norm() > 1e4 || x.get_state().kinematics.angular_acceleration.norm() > 1e4) {
      c.cls("diverging, stopped");
      break;
    }
    z.process_euler_explicit(a.ops[i].cmd, a.ops[i].dt, a.ops[i].ext, false);
    const auto &k = x.get_state().kinematics, &l = z.get_state().kinematics;
    if (off(k.angular_velocity, l.angular_velocity) || off(k.linear_velocity, l.linear_velocity) ||
        off(k.angular_acceleration, l.angular_acceleration) || off(k.linear_acceleration, l.linear_acceleration) ||
        off(x.get_state().dynamics.force, z.get_state().dynamics.force) ||
        off(x.get_state().dynamics.torque, z.get_state().dynamics.torque)) {
      c.cls("amplifies rounding, stopped");
      break;
    }
    rel(x.get_state(), y.get_state());
    moved |= i > 0;
  }
  if (moved) c.nontrivial();
}

template <int N>
void translation(Ctx &c) {
  auto a = plan<N>(c, false);
  auto b = a;
  V d    = gen::vec<P>(c, 500);
  b.s.kinematics.position += d;
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    Cmp k{c, "translation"};
    k.v(x.kinematics.position + d, y.kinematics.position, "position", 1000);
    k.v(x.kinematics.linear_velocity, y.kinematics.linear_velocity, "velocity");
    k.v(x.kinematics.angular_velocity, y.kinematics.angular_velocity, "angular velocity");
    k.v(x.dynamics.force, y.dynamics.force, "force");
    k.v(x.dynamics.torque, y.dynamics.torque, "torque");
    k.q(x.kinematics.orientation, y.kinematics.orientation);
  });
}

// rotating the world about the gravity axis (any angle without drag; quarter
// turns with the per-axis drag law)
template <int N>
void yaw_rotation(Ctx &c) {
  auto a = plan<N>(c, true);
  bool quarter = c.chance(1, 2);
  if (!quarter) a.p.vehicle_drag_coefficient = 0;
  double psi = quarter ? (1 + double(c.u(3))) * M_PI / 2 : c.uniform(-M_PI, M_PI);
  Eigen::Quaterniond z = gen::rpy<P>(0, 0, psi);
  Eigen::Matrix3d R    = z.toRotationMatrix();
  if (quarter) R = R.array().round().matrix();
  auto b = a;
  b.s.kinematics.position        = R * a.s.kinematics.position;
  b.s.kinematics.linear_velocity = R * a.s.kinematics.linear_velocity;
  b.s.kinematics.orientation     = z * a.s.kinematics.orientation;
  for (auto &o : b.ops) o.ext = R * o.ext;
  c.cls(quarter ? "quarter turn, with drag" : "any angle, no drag");
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    Cmp k{c, "rotation about gravity"};
    k.v(R * x.kinematics.position, y.kinematics.position, "position", 100);
    k.v(R * x.kinematics.linear_velocity, y.kinematics.linear_velocity, "velocity");
    k.v(R * x.kinematics.linear_acceleration, y.kinematics.linear_acceleration, "acceleration");
    k.v(R * x.dynamics.force, y.dynamics.force, "force");
    k.v(x.kinematics.angular_velocity, y.kinematics.angular_velocity, "angular velocity");
    k.v(x.dynamics.torque, y.dynamics.torque, "torque");
    k.q(z * x.kinematics.orientation, y.kinematics.orientation);
  });
}

// mirror through the x-z plane
template <int N>
void mirror(Ctx &c) {
  auto a = plan<N>(c, false);
  Eigen::Matrix3d S = Eigen::Vector3d(1, -1, 1).asDiagonal();
  auto pv = [&](const V &w) { return V(-(S * w)); };  // pseudo-vector
  auto b = a;
  for (auto &m : b.p.motors_params) {
    m.motor_rotation_direction = -m.motor_rotation_direction;
    V t                        = m.pose.translation();
    Eigen::Matrix3d r          = m.pose.linear();
    m.pose.translation()       = S * t;
    m.pose.linear()            = S * r * S;
  }
  b.p.vehicle_inertia                 = S * a.p.vehicle_inertia * S;
  b.p.vehicle_aero_moment_coefficient = S * a.p.vehicle_aero_moment_coefficient * S;
  b.p.gravity                         = S * a.p.gravity;
  b.s.kinematics.position             = S * a.s.kinematics.position;
  b.s.kinematics.linear_velocity      = S * a.s.kinematics.linear_velocity;
  b.s.kinematics.angular_velocity     = pv(a.s.kinematics.angular_velocity);
  auto mq = [](const Eigen::Quaterniond &q) { return Eigen::Quaterniond(q.w(), -q.x(), q.y(), -q.z()); };
  b.s.kinematics.orientation = mq(a.s.kinematics.orientation);
  for (auto &o : b.ops) o.ext = S * o.ext;
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    Cmp k{c, "mirror"};
    k.v(S * x.kinematics.position, y.kinematics.position, "position");
    k.v(S * x.kinematics.linear_velocity, y.kinematics.linear_velocity, "velocity");
    k.v(pv(x.kinematics.angular_velocity), y.kinematics.angular_velocity, "angular velocity");
    k.v(S * x.dynamics.force, y.dynamics.force, "force");
    k.v(pv(x.dynamics.torque), y.dynamics.torque, "torque");
    k.q(mq(x.kinematics.orientation), y.kinematics.orientation);
  });
}

// relabelling the rotors does not change the motion of the body
template <int N>
void relabel(Ctx &c) {
  auto a = plan<N>(c, false);
  for (auto &m : a.p.motors_params)
    if (c.chance(1, 2)) {
      auto k          = gen::motor<P>(c, false);
      m.time_constant = k.time_constant;
      m.max_speed     = m.min_speed + std::fabs(k.max_speed);
    }
  auto b = a;
  std::vector<int> perm(N);
  for (int i = 0; i < N; i++) perm[size_t(i)] = i;
  for (int i = N - 1; i > 0; i--) std::swap(perm[size_t(i)], perm[size_t(c.u(uint64_t(i) + 1))]);
  for (int i = 0; i < N; i++) {
    int j                                  = perm[size_t(i)];
    b.p.motors_params[size_t(i)]           = a.p.motors_params[size_t(j)];
    b.s.actuators.motor_angular_velocity[i] = a.s.actuators.motor_angular_velocity[j];
    for (size_t k = 0; k < a.ops.size(); k++) b.ops[k].cmd[i] = a.ops[k].cmd[j];
  }
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    Cmp k{c, "rotor relabelling"};
    k.v(x.kinematics.position, y.kinematics.position, "position");
    k.v(x.kinematics.linear_velocity, y.kinematics.linear_velocity, "velocity");
    k.v(x.kinematics.angular_velocity, y.kinematics.angular_velocity, "angular velocity");
    k.q(x.kinematics.orientation, y.kinematics.orientation);
    Eigen::Matrix<P, N, 1> w;
    for (int i = 0; i < N; i++) w[i] = x.actuators.motor_angular_velocity[perm[size_t(i)]];
    k.w(w, y.actuators.motor_angular_velocity, "rotor speeds");
  });
}

// q and -q are the same attitude
template <int N>
void double_cover(Ctx &c) {
  auto a = plan<N>(c, false);
  auto b = a;
  b.s.kinematics.orientation.coeffs() = -b.s.kinematics.orientation.coeffs();
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    Cmp k{c, "q and -q"};
    k.v(x.kinematics.position, y.kinematics.position, "position");
    k.v(x.dynamics.force, y.dynamics.force, "force");
    k.v(x.kinematics.angular_velocity, y.kinematics.angular_velocity, "angular velocity");
    k.q(x.kinematics.orientation, y.kinematics.orientation);
  });
}

// an observer moving at constant velocity sees the same motion (no drag)
template <int N>
void galilean(Ctx &c) {
  auto a = plan<N>(c, false);
  a.p.vehicle_drag_coefficient = 0;
  auto b = a;
  V u    = gen::vec<P>(c, 50);
  b.s.kinematics.linear_velocity += u;
  double t = 0;
  size_t i = 0;
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    t += a.ops[i++].dt;
    Cmp k{c, "moving observer"};
    k.v(x.kinematics.position + u * t, y.kinematics.position, "position", 100);
    k.v(x.kinematics.linear_velocity + u, y.kinematics.linear_velocity, "velocity", 100);
    k.v(x.kinematics.linear_acceleration, y.kinematics.linear_acceleration, "acceleration");
    k.v(x.kinematics.angular_velocity, y.kinematics.angular_velocity, "angular velocity");
    k.q(x.kinematics.orientation, y.kinematics.orientation);
  });
}

// scaling mass and every non-gravitational force alike leaves the motion alone;
// in particular free fall does not depend on the mass
template <int N>
void mass_scaling(Ctx &c) {
  auto a   = plan<N>(c, false);
  double k = c.logpos(0.05, 20);
  bool ff  = c.chance(1, 3);
  if (ff) {
    c.cls("free fall");
    a.p.vehicle_drag_coefficient = 0;
    for (auto &m : a.p.motors_params) m.thrust_coefficient = 0;
    for (auto &o : a.ops) o.ext.setZero();
  }
  auto b = a;
  b.p.vehicle_mass *= k;
  b.p.vehicle_drag_coefficient *= k;
  b.p.vehicle_inertia *= k;
  b.p.vehicle_aero_moment_coefficient *= k;
  for (auto &m : b.p.motors_params) {
    m.thrust_coefficient *= k;
    m.torque_coefficient *= k;
    m.rotational_inertia *= k;
  }
  for (auto &o : b.ops) o.ext *= k;
  c.note("scale", k);
  lockstep<N>(c, a, b, [&](const St<N> &x, const St<N> &y) {
    Cmp m{c, "mass scaling"};
    m.v(x.kinematics.position, y.kinematics.position, "position");
    m.v(x.kinematics.linear_velocity, y.kinematics.linear_velocity, "velocity");
    m.v(x.kinematics.angular_velocity, y.kinematics.angular_velocity, "angular velocity");
    m.v(x.kinematics.linear_acceleration, y.kinematics.linear_acceleration, "acceleration");
    m.v(x.dynamics.force * k, y.dynamics.force, "force");
    m.v(x.dynamics.torque * k, y.dynamics.torque, "torque");
    m.q(x.kinematics.orientation, y.kinematics.orientation);
    if (ff) m.v(x.kinematics.linear_acceleration, a.p.gravity, "free-fall acceleration");
  });
}

// the gyroscopic term does no work, and a vehicle in equilibrium stays there
template <int N>
void equilibrium(Ctx &c) {
  auto a  = plan<N>(c, true);
  auto &p = a.p;
  p.gravity = V(0, 0, -9.81);
  // identical upright rotors on a regular polygon, alternating spins
  double kf = c.logpos(1e-7, 1e-5), kt = c.logpos(1e-8, 1e-6), r = c.logpos(0.05, 1);
  double w = std::sqrt(p.vehicle_mass * 9.81 / (N * kf));
  for (int i = 0; i < N; i++) {
    auto &m = p.motors_params[size_t(i)];
    m.pose  = gen::Motor<P>::IsometryTypeP::Identity();
    m.pose.translation() = V(r * std::cos(2 * M_PI * i / N), r * std::sin(2 * M_PI * i / N), c.sreal(0.2));
    m.motor_rotation_direction = i % 2 ? -1 : 1;
    m.thrust_coefficient       = kf;
    m.torque_coefficient       = kt;
    m.min_speed                = 0;
    m.max_speed                = 2 * w;
  }
  St<N> s;
  s.kinematics.position    = a.s.kinematics.position;
  s.kinematics.orientation = gen::rpy<P>(0, 0, c.uniform(-M_PI, M_PI));
  s.actuators.motor_angular_velocity.setConstant(w);
  Dyn<N> d(p, s);
  for (auto &o : a.ops) d.process_euler_explicit(Eigen::Matrix<P, N, 1>::Constant(w), o.dt, V::Zero(), false);
  const auto &n = d.get_state();
  Cmp k{c, "hover equilibrium"};
  k.v(n.kinematics.position, s.kinematics.position, "position");
  k.v(n.kinematics.linear_velocity, V::Zero(), "velocity");
  double amp = r * p.vehicle_mass * 9.81 / p.vehicle_inertia.diagonal().minCoeff();
  k.v(n.kinematics.angular_velocity, V::Zero(), "angular velocity", 1 + amp);
  c.note("w", w);
  c.nontrivial();
}

template <int N>
void gyroscopic(Ctx &c) {
  auto a = plan<N>(c, false);
  a.p.vehicle_aero_moment_coefficient.setZero();
  for (auto &m : a.p.motors_params) {
    m.thrust_coefficient = 0;
    m.torque_coefficient = 0;
    m.rotational_inertia = 0;
  }
  Dyn<N> d(a.p, a.s);
  V w0 = a.s.kinematics.angular_velocity;
  d.process_euler_explicit(a.ops[0].cmd, gen::small_dt<P>(c), a.ops[0].ext, false);
  V al       = d.get_state().kinematics.angular_acceleration;
  double pow_ = w0.dot(a.p.vehicle_inertia * al);
  double sc   = w0.norm() * w0.norm() * w0.norm() * a.p.vehicle_inertia.norm();
  c.close(pow_, 0, 1e-9 * sc + 1e-300, "the gyroscopic torque does work on a free body");
  c.close((a.p.vehicle_inertia * w0).dot(a.p.vehicle_inertia * al), 0,
          1e-9 * sc * a.p.vehicle_inertia.norm() + 1e-300, "angular momentum of a free body changes magnitude");
  if (w0.norm() > 0.1) c.nontrivial();
}

#define BOTH(f, name, w)                       \
  static Reg f##4(name "<4>", f<4>, w);        \
  static Reg f##6(name "<6>", f<6>, 1);
BOTH(translation, "translation", 1)
BOTH(yaw_rotation, "rotation about gravity", 2)
BOTH(mirror, "mirror", 2)
BOTH(relabel, "rotor relabelling", 2)
BOTH(double_cover, "q and -q", 1)
BOTH(galilean, "moving observer", 1)
BOTH(mass_scaling, "mass scaling", 2)
BOTH(equilibrium, "hover equilibrium", 1)
BOTH(gyroscopic, "gyroscopic", 1)
