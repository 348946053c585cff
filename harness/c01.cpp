// C01: vector PID law over arbitrary call histories.
#include "refpid.hpp"
using namespace pbt;
using namespace ref;

template <typename V>
static std::string vs(const V &v) {
  std::ostringstream o;
  o << std::setprecision(9) << "[";
  for (int i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i];
  return o.str() + "]";
}

template <typename P, int D>
void history(Ctx &c) {
  using Pid = pid_controller::PID<P, D>;
  using Vec = Eigen::Matrix<P, D, 1>;
  auto cfg  = refpid::params<P, D>(c);
  Pid pid(cfg, false);
  refpid::Pid<P, D> ref;
  ref.configure(cfg);
  int steps = c.len(1, 14, 700);
  Vec e     = Vec::Ones();
  P dt      = refpid::step_time<P>(c);
  bool integ = false, deriv = false, clipped = false, reset = false;
  c.note("kp", vs(cfg.Kp_gains));
  c.note("ki", vs(cfg.Ki_gains));
  c.note("kd", vs(cfg.Kd_gains));
  c.note("aw", vs(cfg.antiwindup_cte));
  c.note("alpha", vs(cfg.alpha));
  c.note("reset flag", cfg.reset_integral_flag);
  c.note("up", vs(cfg.upper_output_saturation));
  c.note("lo", vs(cfg.lower_output_saturation));
  for (int k = 0; k < steps; k++) {
    if (k && c.chance(1, 12)) {
      switch (c.u(7)) {
        case 0:
          pid.reset_controller();
          ref.restart();
          c.note("op", "reset");
          break;
        case 1:
          cfg = refpid::changed<P, D>(c, cfg);
          pid.update_pid_params(cfg);
          ref.configure(cfg);
          c.note("op", "update");
          break;
        case 2: {
          auto t = refpid::changed<P, D>(c, cfg);
          pid.set_gains(t.Kp_gains, t.Ki_gains, t.Kd_gains);
          cfg.Kp_gains = t.Kp_gains;
          cfg.Ki_gains = t.Ki_gains;
          cfg.Kd_gains = t.Kd_gains;
          bool s       = ref.sat;
          ref.configure(cfg);
          ref.sat = s;
          break;
        }
        case 3: {
          auto t = refpid::changed<P, D>(c, cfg);
          pid.set_anti_windup(t.antiwindup_cte);
          pid.set_alpha(t.alpha);
          cfg.antiwindup_cte = t.antiwindup_cte;
          cfg.alpha          = t.alpha;
          bool s             = ref.sat;
          ref.configure(cfg);
          ref.sat = s;
          break;
        }
        case 4: {
          auto t = refpid::params<P, D>(c, c.u(2) ? refpid::PER_AXIS : refpid::PROPORTIONAL);
          if (refpid::limited(cfg) && c.u(2)) t = refpid::partly<P, D>(c, cfg, t);
          pid.set_output_saturation(t.upper_output_saturation, t.lower_output_saturation, t.proportional_saturation_flag);
          cfg.upper_output_saturation      = t.upper_output_saturation;
          cfg.lower_output_saturation      = t.lower_output_saturation;
          cfg.proportional_saturation_flag = t.proportional_saturation_flag;
          ref.configure(cfg);
          break;
        }
        case 5:
          pid.disable_output_saturation();
          ref.sat = false;
          break;
        default: {
          bool f = c.u(2);
          pid.set_reset_integral_saturation_flag(f);
          cfg.reset_integral_flag = f;
          ref.reset_flag          = f;
        }
      }
    }
    if (k == 0 || c.chance(5, 6)) e = refpid::error<P, D>(c, e, true);
    if (k && c.chance(1, 4)) dt = refpid::step_time<P>(c);
    std::array<R, D> before = ref.acc;
    bool explicit_d = c.chance(1, 4);
    Vec de, out;
    for (int j = 0; j < D; j++) de[j] = P(c.sreal(50));
    // errors from states and references
    if (c.chance(1, 3)) {
      Vec st, rf, p1, d1, sd = Vec::Zero(), rd = de;
      for (int j = 0; j < D; j++) st[j] = P(c.sreal(100));
      rf = st + e;
      if (c.u(2)) {
        e = Pid::get_error(st, rf);
      } else {
        for (int j = 0; j < D; j++) sd[j] = P(c.sreal(10));
        rd = sd + de;
        Pid::get_error(st, rf, sd, rd, p1, d1);
        e = p1;
        for (int j = 0; j < D; j++)
          close<P>(c, double(d1[j]), R(double(rd[j])) - R(double(sd[j])), "derivative error");
        de = d1;
      }
      bool zero = false;
      for (int j = 0; j < D; j++) {
        close<P>(c, double(e[j]), R(double(rf[j])) - R(double(st[j])), "proportional error");
        zero |= e[j] == P(0);
      }
      if (zero) e = Vec::Constant(P(0.25));
    }
    out = explicit_d ? pid.compute_control(dt, e, de) : pid.compute_control(dt, e);
    ref.template step<Vec>(double(dt), e, explicit_d ? &de : nullptr);
    if (ref.ambiguous) {
      c.cls("stopped at a rounding-dependent branch");
      break;
    }
    for (int j = 0; j < D; j++) {
      size_t s = size_t(j);
      close<P>(c, double(out[j]), ref.out[s], "output");
      close<P>(c, double(pid.get_output()[j]), ref.out[s], "get_output");
      close<P>(c, double(pid.get_proportional_error_contribution()[j]), ref.p[s], "proportional term");
      close<P>(c, double(pid.get_integral_error_contribution()[j]), ref.i[s], "integral term");
      close<P>(c, double(pid.get_derivative_error_contribution()[j]), ref.d[s], "derivative term");
      c.check(pid.get_proportional_error()[j] == e[j], "stored proportional error");
      if (explicit_d) c.check(pid.get_derivative_error()[j] == de[j], "stored derivative error");
      integ |= std::fabs(double(ref.i[s].v)) > 1e-6;
      deriv |= std::fabs(double(ref.d[s].v)) > 1e-6;
      clipped |= ref.aw[s] != 0 && std::fabs(double(ref.acc[s].v)) == ref.aw[s];
      reset |= ref.reset_flag && before[s].v != 0 && double(before[s].v) * double(e[j]) < 0 &&
               std::fabs(double(before[s].v)) >= ref.aw[s];
    }
    c.note("e", vs(e));
    c.note("dt", dt);
  }
  if (clipped) c.cls("integral clipped by anti-windup");
  if (reset) c.cls("integral reset on sign change");
  if (ref.sat) c.cls(ref.prop ? "proportional saturation" : "per-axis saturation");
  if (steps > 14) c.cls("long history");
  if (integ && deriv && steps > 1) c.nontrivial();
}
static Reg a("history<double,3>", history<double, 3>, 4);
static Reg b("history<float,3>", history<float, 3>, 2);
static Reg d("history<double,1>", history<double, 1>, 2);
static Reg e("history<float,1>", history<float, 1>, 1);
static Reg f("history<double,6>", history<double, 6>, 1);
