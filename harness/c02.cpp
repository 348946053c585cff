// C02: scalar PID law over arbitrary call histories, and agreement with the
// vector PID axis by axis.
#include "refpid.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
pid_1d_controller::PIDParams<P> scalar(const pid_controller::PIDParams<P, 1> &v) {
  pid_1d_controller::PIDParams<P> o;
  o.Kp_gains                = v.Kp_gains[0];
  o.Ki_gains                = v.Ki_gains[0];
  o.Kd_gains                = v.Kd_gains[0];
  o.antiwindup_cte          = v.antiwindup_cte[0];
  o.alpha                   = v.alpha[0];
  o.reset_integral_flag     = v.reset_integral_flag;
  o.upper_output_saturation = v.upper_output_saturation[0];
  o.lower_output_saturation = v.lower_output_saturation[0];
  return o;
}
static int kind(Ctx &c) { return c.u(2) ? refpid::PER_AXIS : refpid::NONE; }

template <typename P>
void history(Ctx &c) {
  using Pid = pid_1d_controller::PID<P>;
  using Vec = Eigen::Matrix<P, 1, 1>;
  auto cfg  = refpid::params<P, 1>(c, kind(c));
  Pid pid(scalar<P>(cfg), false);
  refpid::Pid<P, 1> ref;
  ref.configure(cfg);
  int steps = c.len(1, 16, 1000);
  Vec e     = Vec::Ones();
  P dt      = refpid::step_time<P>(c);
  c.note("kp", cfg.Kp_gains[0]);
  c.note("ki", cfg.Ki_gains[0]);
  c.note("kd", cfg.Kd_gains[0]);
  c.note("aw", cfg.antiwindup_cte[0]);
  c.note("alpha", cfg.alpha[0]);
  c.note("reset flag", cfg.reset_integral_flag);
  c.note("up", cfg.upper_output_saturation[0]);
  c.note("lo", cfg.lower_output_saturation[0]);
  bool integ = false, deriv = false, clipped = false, reset = false;
  for (int k = 0; k < steps; k++) {
    if (k && c.chance(1, 12)) {
      auto t = refpid::changed<P, 1>(c, cfg, kind(c));
      bool s = ref.sat;
      int op = int(c.u(8));
      c.note("op", op);
      switch (op) {
        case 0:
          pid.reset_controller();
          ref.restart();
          break;
        case 1:
          cfg = t;
          pid.update_params(scalar<P>(cfg));
          ref.configure(cfg);
          break;
        case 2:
          pid.set_gains(t.Kp_gains[0], t.Ki_gains[0], t.Kd_gains[0]);
          cfg.Kp_gains = t.Kp_gains;
          cfg.Ki_gains = t.Ki_gains;
          cfg.Kd_gains = t.Kd_gains;
          ref.configure(cfg);
          ref.sat = s;
          break;
        case 3:
          pid.set_anti_windup(t.antiwindup_cte[0]);
          pid.set_alpha(t.alpha[0]);
          cfg.antiwindup_cte = t.antiwindup_cte;
          cfg.alpha          = t.alpha;
          ref.configure(cfg);
          ref.sat = s;
          break;
        case 4:
          t = refpid::params<P, 1>(c, refpid::PER_AXIS);
          pid.set_output_saturation(t.upper_output_saturation[0], t.lower_output_saturation[0]);
          cfg.upper_output_saturation = t.upper_output_saturation;
          cfg.lower_output_saturation = t.lower_output_saturation;
          ref.configure(cfg);
          ref.sat = true;
          break;
        case 5:
          pid.disable_output_saturation();
          ref.sat = false;
          break;
        case 6:
          pid.set_kp(t.Kp_gains[0]);
          pid.set_ki(t.Ki_gains[0]);
          pid.set_kd(t.Kd_gains[0]);
          cfg.Kp_gains = t.Kp_gains;
          cfg.Ki_gains = t.Ki_gains;
          cfg.Kd_gains = t.Kd_gains;
          ref.configure(cfg);
          ref.sat = s;
          break;
        default: {
          bool f = c.u(2);
          pid.set_reset_integral_saturation_flag(f);
          cfg.reset_integral_flag = f;
          ref.reset_flag          = f;
        }
      }
    }
    if (k == 0 || c.chance(5, 6)) e = refpid::error<P, 1>(c, e, true);
    if (k && c.chance(1, 4)) dt = refpid::step_time<P>(c);
    R before        = ref.acc[0];
    bool explicit_d = c.chance(1, 4);
    Vec de(P(c.sreal(50)));
    if (c.chance(1, 3)) {
      P st = P(c.sreal(100)), rf = st + e[0];
      if (c.u(2)) {
        e[0] = Pid::get_error(st, rf);
      } else {
        P sd = P(c.sreal(10)), rd = sd + de[0], p1, d1;
        Pid::get_error(st, rf, sd, rd, p1, d1);
        e[0] = p1;
        close<P>(c, double(d1), R(double(rd)) - R(double(sd)), "derivative error");
        de[0] = d1;
      }
      close<P>(c, double(e[0]), R(double(rf)) - R(double(st)), "proportional error");
      if (e[0] == P(0)) e[0] = P(0.25);
    }
    P out = explicit_d ? pid.compute_control(dt, e[0], de[0]) : pid.compute_control(dt, e[0]);
    ref.template step<Vec>(double(dt), e, explicit_d ? &de : nullptr);
    if (ref.ambiguous) {
      c.cls("stopped at a rounding-dependent branch");
      break;
    }
    close<P>(c, double(out), ref.out[0], "output");
    close<P>(c, double(pid.get_output()), ref.out[0], "get_output");
    close<P>(c, double(pid.get_proportional_error_contribution()), ref.p[0], "proportional term");
    close<P>(c, double(pid.get_integral_error_contribution()), ref.i[0], "integral term");
    close<P>(c, double(pid.get_derivative_error_contribution()), ref.d[0], "derivative term");
    c.check(pid.get_proportional_error() == e[0], "stored proportional error");
    if (explicit_d) c.check(pid.get_derivative_error() == de[0], "stored derivative error");
    integ |= std::fabs(double(ref.i[0].v)) > 1e-6;
    deriv |= std::fabs(double(ref.d[0].v)) > 1e-6;
    clipped |= ref.aw[0] != 0 && std::fabs(double(ref.acc[0].v)) == ref.aw[0];
    reset |= ref.reset_flag && before.v != 0 && double(before.v) * double(e[0]) < 0 && std::fabs(double(before.v)) >= ref.aw[0];
    c.note("e", e[0]);
    c.note("aw", ref.aw[0]);
    c.note("acc", double(ref.acc[0].v));
    c.note("dt", dt);
  }
  if (clipped) c.cls("integral clipped by anti-windup");
  if (reset) c.cls("integral reset on sign change");
  if (ref.sat) c.cls("saturated output");
  if (steps > 16) c.cls("long history");
  if (integ && deriv && steps > 1) c.nontrivial();
}

// three scalar PIDs are the vector PID
template <typename P>
void agree(Ctx &c) {
  auto cfg = refpid::params<P, 3>(c, kind(c));
  // a bound on some axes only counts for all axes of the vector
  if (!cfg.antiwindup_cte.isZero(0))
    for (int j = 0; j < 3; j++)
      if (cfg.antiwindup_cte[j] == P(0)) cfg.antiwindup_cte[j] = P(1);
  pid_controller::PID<P, 3> v(cfg, false);
  std::vector<pid_1d_controller::PID<P>> s;
  for (int j = 0; j < 3; j++) {
    pid_1d_controller::PIDParams<P> o;
    o.Kp_gains                = cfg.Kp_gains[j];
    o.Ki_gains                = cfg.Ki_gains[j];
    o.Kd_gains                = cfg.Kd_gains[j];
    o.antiwindup_cte          = cfg.antiwindup_cte[j];
    o.alpha                   = cfg.alpha[j];
    o.reset_integral_flag     = cfg.reset_integral_flag;
    o.upper_output_saturation = cfg.upper_output_saturation[j];
    o.lower_output_saturation = cfg.lower_output_saturation[j];
    s.emplace_back(o, false);
  }
  refpid::Pid<P, 3> ref;
  ref.configure(cfg);
  using Vec = Eigen::Matrix<P, 3, 1>;
  Vec e     = Vec::Ones();
  int steps = c.len(1, 25, 400);
  for (int k = 0; k < steps; k++) {
    e    = refpid::error<P, 3>(c, e, true);
    P dt = refpid::step_time<P>(c);
    Vec de;
    for (int j = 0; j < 3; j++) de[j] = P(c.sreal(50));
    bool ed = c.chance(1, 4);
    if (c.chance(1, 15)) {
      v.reset_controller();
      for (auto &x : s) x.reset_controller();
      ref.restart();
    }
    Vec o = ed ? v.compute_control(dt, e, de) : v.compute_control(dt, e);
    ref.template step<Vec>(double(dt), e, ed ? &de : nullptr);
    if (ref.ambiguous) break;
    for (int j = 0; j < 3; j++) {
      P x = ed ? s[size_t(j)].compute_control(dt, e[j], de[j]) : s[size_t(j)].compute_control(dt, e[j]);
      c.close(double(x), double(o[j]), tol_of<P>(ref.out[size_t(j)]), "scalar and vector PID disagree");
    }
  }
  c.note("steps", steps);
  if (steps > 2) c.nontrivial();
}
static Reg a("history<double>", history<double>, 4);
static Reg b("history<float>", history<float>, 2);
static Reg d("agree<double>", agree<double>, 1);
static Reg e("agree<float>", agree<float>, 1);
