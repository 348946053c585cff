// D01: translational dynamics follow Newton's law in the world frame.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void translational(Ctx &c) {
  using Dyn  = multirotor::dynamics::Dynamics<P, N>;
  bool noise = c.chance(1, 3);
  auto p     = gen::model_params<P, N>(c, noise);
  auto s0    = gen::state<P, N>(c, p);
  int seed   = int(c.u(1000));
  multirotor::dynamics::DynamicsParams<P, N> dp;
  dp.model_params = p;
  dp.state        = s0;
  dp.model_seed   = seed;
  int ctor        = int(c.u(4));
  Dyn dyn         = ctor == 0   ? Dyn(dp)
                    : ctor == 1 ? Dyn(p, s0)
                    : ctor == 2 ? Dyn(p, seed, s0)
                                : Dyn(multirotor::model::Model<P, N>(p, seed), s0);
  int steps       = c.range(1, c.chance(1, 20) ? 300 : 12);
  c.note("mass", p.vehicle_mass);
  c.note("drag", p.vehicle_drag_coefficient);
  c.note("gravity", gen::str(p.gravity));
  c.note("q0", gen::strq(s0.kinematics.orientation));
  c.note("v0", gen::str(s0.kinematics.linear_velocity));
  c.note("steps", steps);
  bool thrust = false, tilted = false, moving = false;
  auto cmd = gen::command<P, N>(c, p);
  P dt     = gen::small_dt<P>(c);
  gen::V3<P> ext = gen::vec<P>(c, c.u(24) == 23 ? 5000 : 50);
  for (int k = 0; k < steps; k++) {
    if (k && c.chance(1, 4)) cmd = gen::command<P, N>(c, p);
    if (k && c.chance(1, 4)) dt = gen::small_dt<P>(c);
    if (k && c.chance(1, 4)) ext = gen::vec<P>(c, c.u(24) == 23 ? 5000 : 50);
    if (c.chance(1, 10)) refsim::intervene<P, N>(c, dyn, p, noise);
    bool en   = noise && c.chance(1, 2);
    auto s    = dyn.get_state();
    if (!gen::bounded(s)) break;
    int form  = int(c.u(3));
    V3 e      = v3(ext);
    if (form == 0) {
      dyn.process_euler_explicit(cmd, dt, ext, en);
    } else if (form == 1) {
      en = true;
      dyn.process_euler_explicit(cmd, dt, ext);
    } else {
      en = true;
      e  = V3();
      dyn.process_euler_explicit(cmd, dt);
    }
    const auto &n = dyn.get_state();
    V3 nf;
    if (en) nf = v3(dyn.get_model_const().get_stochastic_force());
    auto r = refsim::step<P, N>(p, s, cmd, double(dt), e, nf, V3());
    close3<P>(c, n.dynamics.force, r.force, "total force");
    close3<P>(c, n.kinematics.linear_acceleration, r.lin_acc, "linear acceleration");
    close3<P>(c, n.kinematics.linear_velocity, r.vel, "linear velocity");
    close_each<P>(c, n.kinematics.position, r.pos, "position");
    thrust |= s.actuators.motor_angular_velocity.norm() > 1;
    tilted |= std::fabs(double(s.kinematics.orientation.x())) + std::fabs(double(s.kinematics.orientation.y())) > 0.05;
    moving |= s.kinematics.linear_velocity.norm() > 0.01;
  }
  if (noise) c.cls("process noise");
  if (steps > 12) c.cls("long history");
  if (p.vehicle_mass != P(1) && thrust && tilted && moving) {
    c.cls("tilted, thrusting, moving, mass != 1");
    c.nontrivial();
  }
}
static Reg a("translational<double,4>", translational<double, 4>, 3);
static Reg b("translational<float,4>", translational<float, 4>, 1);
static Reg d("translational<double,6>", translational<double, 6>, 2);
static Reg e("translational<float,6>", translational<float, 6>, 1);
static Reg n8("translational<double,8>", translational<double, 8>, 1);
static Reg n3("translational<double,3>", translational<double, 3>, 1);
