// C07: position, velocity and trajectory controllers and their composition, over
// histories that mix modes, resets and reconfiguration.
#include "refcascade.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void cascade(Ctx &c) {
  using V   = gen::V3<P>;
  using Cas = refcascade::Cascade<P, N>;
  using Ctl = typename Cas::Ctl;
  auto prm  = refcascade::params<P, N>(c);
  Ctl k;
  switch (c.u(3)) {
    case 0: k = Ctl(prm); break;
    case 1:
      k = Ctl(prm.acro_controller_params, prm.indi_controller_params, prm.position_controller_params,
              prm.trajectory_controller_params, prm.velocity_controller_params);
      break;
    default:
      k = Ctl(refcascade::params<P, N>(c));
      k.update_params(prm);
  }
  Cas r(prm);
  int n     = c.len(1, 6, 200);
  bool real = false;
  for (int s = 0; s < n && !r.stop; s++) {
    if (c.chance(1, 6)) {
      auto t = refcascade::changed<P, N>(c, r.prm);
      switch (c.u(8)) {
        case 0:
          k.reset_controller();
          r.restart();
          c.cls("reset");
          break;
        case 1:
          r.prm = t;
          k.update_params(t);
          r.pos.configure(t.position_controller_params.pid_params);
          r.vel.configure(t.velocity_controller_params.pid_params);
          r.traj.configure(t.trajectory_controller_params.pid_params);
          r.indi.configure(t.indi_controller_params.pid_params);
          break;
        case 2:
          r.prm.acro_controller_params = t.acro_controller_params;
          k.update_acro_controller_params(t.acro_controller_params);
          break;
        case 3:
          r.prm.indi_controller_params = t.indi_controller_params;
          k.update_indi_controller_params(t.indi_controller_params);
          r.indi.configure(t.indi_controller_params.pid_params);
          break;
        case 4:
          r.prm.position_controller_params = t.position_controller_params;
          k.update_position_controller_params(t.position_controller_params);
          r.pos.configure(t.position_controller_params.pid_params);
          break;
        case 5:
          r.prm.velocity_controller_params = t.velocity_controller_params;
          k.update_velocity_controller_params(t.velocity_controller_params);
          r.vel.configure(t.velocity_controller_params.pid_params);
          break;
        case 6:
          r.prm.trajectory_controller_params = t.trajectory_controller_params;
          k.update_trajectory_controller_params(t.trajectory_controller_params);
          r.traj.configure(t.trajectory_controller_params.pid_params);
          break;
        default:  // through the references handed out
          r.prm.velocity_controller_params = t.velocity_controller_params;
          k.get_velocity_controller().update_params(t.velocity_controller_params);
          k.get_position_controller().reset_controller();
          r.vel.configure(t.velocity_controller_params.pid_params);
          r.pos.restart();
      }
      c.cls("changed in flight");
    }
    V p = gen::vec<P>(c, 100), v = gen::vec<P>(c, 20), w = gen::vec<P>(c, 10), pd = gen::vec<P>(c, 100),
      vd = gen::vec<P>(c, 20), ad = gen::vec<P>(c, 20), wd = gen::vec<P>(c, 10);
    gen::M3<P> cur = gen::quat<P>(c).toRotationMatrix();
    P yaw = gen::heading<P>(c), T = P(c.u(6) == 5 ? c.sreal(200) : c.zlogpos(0.01, 200)), dt = refpid::step_time<P>(c);
    double h = double(dt), y = double(yaw);
    V opd = k.get_desired_position(), ovd = k.get_desired_linear_velocity(), oad = k.get_desired_linear_acceleration();
    int mode = int(c.u(9));
    c.cls("op " + std::to_string(mode));
    if (s < 4) c.note("op", mode);
    switch (mode) {
      case 0: {
        auto m = k.compute_acro_control(w, T, wd, dt);
        r.check_acro(c, k, w, double(T), wd, h, m);
        c.check(k.get_desired_position() == opd && k.get_desired_linear_velocity() == ovd && k.get_desired_linear_acceleration() == oad, "outer references changed");
        break;
      }
      case 1: {
        auto m = k.compute_acceleration_control(cur, w, ad, yaw, dt);
        r.check_acceleration(c, k, cur, w, ad, y, h, m);
        c.check(k.get_desired_position() == opd && k.get_desired_linear_velocity() == ovd, "outer references changed");
        break;
      }
      case 2: {
        auto m = k.compute_velocity_control(v, cur, w, vd, yaw, dt);
        r.check_velocity(c, k, v, cur, w, vd, y, h, m);
        c.check(k.get_desired_position() == opd, "outer references changed");
        break;
      }
      case 3: {
        auto m = k.compute_position_control(p, cur, v, w, pd, yaw, dt);
        r.check_position(c, k, p, cur, v, w, pd, y, h, m);
        break;
      }
      case 4: {
        auto m = k.compute_trajectory_control(p, v, cur, w, pd, vd, ad, yaw, dt);
        r.check_trajectory(c, k, p, v, cur, w, pd, vd, ad, y, h, m);
        break;
      }
      case 5: {
        V o = k.convert_position_to_linear_velocity(p, pd, dt);
        r.position(c, k, p, pd, h, o);
        break;
      }
      case 6: {
        V o = k.convert_linear_velocity_to_linear_acceleration(v, vd, dt);
        r.velocity(c, k, v, vd, h, o);
        break;
      }
      case 7: {
        V o = k.convert_trajectory_to_linear_acceleration(p, v, pd, vd, ad, dt);
        r.trajectory(c, k, p, v, pd, vd, ad, h, o);
        auto q = k.convert_linear_acceleration_to_acro(ad, cur, yaw, dt);
        r.acceleration(c, ad, cur, y, double(q.first), q.second);
        break;
      }
      default: {
        auto o = k.convert_acro_to_motor_angular_velocity(w, T, wd, dt);
        r.acro(c, k, w, double(T), wd, h, o);
      }
    }
    c.check(k.get_acro_controller_const().get_kp_rot() == r.prm.acro_controller_params.kp_rot, "parameters in force");
    // yaw rate through the attitude law
    P cy = P(c.uniform(-3, 3)), rate = P(c.sreal(3));
    double kz = double(r.prm.acro_controller_params.kp_rot(2, 2));
    R want = kz == 0 ? R(double(cy)) : R(double(cy)) + R(double(rate)) / R(kz);
    close<P>(c, k.yaw_rate_to_angle(cy, rate), want, "yaw angle for a yaw rate");
    real = true;
  }
  if (r.stop) c.cls("stopped at a rounding-dependent branch");
  if (real) c.nontrivial();
}

// the single controllers, with the constructors and updates of their own
template <typename P>
void single(Ctx &c) {
  using V = gen::V3<P>;
  auto a = refpid::params<P, 3>(c), b = refpid::params<P, 3>(c), d = refpid::params<P, 3>(c);
  for (auto *x : {&a, &b, &d}) x->reset_integral_flag = false;
  position_controller::PositionControllerParams<P> pp;
  velocity_controller::VelocityControllerParams<P> vp;
  trajectory_controller::TrajectoryControllerParams<P> tp;
  pp.pid_params = a;
  vp.pid_params = b;
  tp.pid_params = d;
  position_controller::PositionController<P> pc(pp);
  velocity_controller::VelocityController<P> vc(vp);
  trajectory_controller::TrajectoryController<P> tc(tp);
  if (c.chance(1, 2)) {
    pc = position_controller::PositionController<P>();
    vc = velocity_controller::VelocityController<P>();
    tc = trajectory_controller::TrajectoryController<P>();
    pc.update_params(pp);
    vc.update_params(vp);
    tc.update_params(tp);
    c.cls("configured later");
  }
  refpid::Pid<P, 3> rp, rv, rt;
  rp.configure(a);
  rv.configure(b);
  rt.configure(d);
  int n = c.len(1, 10, 300);
  for (int k = 0; k < n; k++) {
    V x = gen::vec<P>(c, 100), xd = gen::vec<P>(c, 100), v = gen::vec<P>(c, 20), vd = gen::vec<P>(c, 20), ad = gen::vec<P>(c, 20);
    P dt = refpid::step_time<P>(c);
    if (c.chance(1, 10)) {
      pc.reset_controller();
      rp.restart();
      tc.reset_controller();
      rt.restart();
    }
    V o1 = pc.position_to_linear_velocity(x, xd, dt), o2 = vc.linear_velocity_to_linear_acceleration(v, vd, dt),
      o3 = tc.trajectory_to_linear_acceleration(x, v, xd, vd, ad, dt);
    V e = pc.get_position_error(), ev = vc.get_velocity_error(), et = tc.get_position_error(), dv = tc.get_velocity_error();
    close_each<P>(c, e, v3(xd) - v3(x), "position error");
    close_each<P>(c, ev, v3(vd) - v3(v), "velocity error");
    close_each<P>(c, et, v3(xd) - v3(x), "trajectory position error");
    close_each<P>(c, dv, v3(vd) - v3(v), "trajectory velocity error");
    rp.template step<V>(double(dt), e, nullptr);
    rv.template step<V>(double(dt), ev, nullptr);
    rt.template step<V>(double(dt), et, &dv);
    for (int i = 0; i < 3; i++) {
      size_t j = size_t(i);
      close<P>(c, double(o1[i]), rp.out[j], "velocity for the position");
      close<P>(c, double(o2[i]), rv.out[j], "acceleration for the velocity");
      close<P>(c, double(o3[i]), rt.out[j] + R(double(ad[i])), "acceleration for the trajectory");
    }
    c.check(pc.get_desired_linear_velocity() == o1 && vc.get_desired_linear_acceleration() == o2, "outputs kept");
    if (k < 2) c.note("out", gen::str(o1) + gen::str(o2) + gen::str(o3));
  }
  c.nontrivial();
}
static Reg a("cascade<double,4>", cascade<double, 4>, 3);
static Reg b("cascade<float,4>", cascade<float, 4>, 1);
static Reg d("cascade<double,6>", cascade<double, 6>, 2);
static Reg e("cascade<float,6>", cascade<float, 6>, 1);
static Reg f("single<double>", single<double>, 2);
static Reg g("single<float>", single<float>, 1);
