// C03: output saturation.
#include "refpid.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int D>
using Vec = Eigen::Matrix<P, D, 1>;

template <typename P, int D>
void limits(Ctx &c, Vec<P, D> &up, Vec<P, D> &lo, bool around_zero) {
  for (int j = 0; j < D; j++) {
    if (around_zero) {
      up[j] = P(c.u(10) == 0 ? 0.0 : c.logpos(1e-3, 1e3));
      lo[j] = P(c.u(10) == 0 && up[j] > 0 ? 0.0 : -c.logpos(1e-3, 1e3));
    } else {
      lo[j] = P(c.sreal(500));
      up[j] = lo[j] + P(c.logpos(1e-3, 1e3));
    }
  }
}
template <typename P, int D>
Vec<P, D> input(Ctx &c, const Vec<P, D> &up, const Vec<P, D> &lo) {
  Vec<P, D> x;
  for (int j = 0; j < D; j++) {
    switch (c.u(6)) {
      case 0: x[j] = P(0); break;
      case 1: x[j] = up[j]; break;
      case 2: x[j] = lo[j]; break;
      case 3: x[j] = P(c.uniform(double(lo[j]), double(up[j]))); break;
      default: x[j] = P(c.sreal(1e5));
    }
  }
  return x;
}

template <typename P, int D>
void judge(Ctx &c, const Vec<P, D> &x, const Vec<P, D> &o, const Vec<P, D> &up, const Vec<P, D> &lo, bool prop) {
  const double t = sizeof(P) == 4 ? 1e-5 : 1e-12;
  bool inside    = true;
  for (int j = 0; j < D; j++) inside &= x[j] <= up[j] && x[j] >= lo[j];
  if (inside) {
    for (int j = 0; j < D; j++) c.check(o[j] == x[j], "admissible output changed");
    return;
  }
  if (!prop) {
    for (int j = 0; j < D; j++) {
      P w = x[j] > up[j] ? up[j] : (x[j] < lo[j] ? lo[j] : x[j]);
      c.check(o[j] == w, "per-axis saturation is not the nearest admissible value");
    }
    return;
  }
  // within the limits, same direction, no more than needed
  double nx = 0, dot = 0;
  for (int j = 0; j < D; j++) {
    c.check(double(o[j]) <= double(up[j]) * (1 + t) + 1e-30 && double(o[j]) >= double(lo[j]) * (1 + t) - 1e-30,
            "proportional saturation leaves the limits");
    nx += double(x[j]) * double(x[j]);
    dot += double(x[j]) * double(o[j]);
  }
  double k = dot / nx;
  c.check(k >= -t && k <= 1 + t, "proportional saturation scales outside [0,1]");
  bool touch = false;
  for (int j = 0; j < D; j++) {
    c.close(double(o[j]), k * double(x[j]), 10 * t * std::fabs(k) * std::sqrt(nx) + 1e-30, "proportional saturation changes the direction");
    touch |= x[j] > up[j] && double(o[j]) >= double(up[j]) * (1 - t) - 1e-30;
    touch |= x[j] < lo[j] && double(o[j]) <= double(lo[j]) * (1 - t) + 1e-30;
  }
  c.check(touch, "proportional saturation shrinks more than needed");
}

template <typename P, int D>
void statics(Ctx &c) {
  using Pid = pid_controller::PID<P, D>;
  bool prop = c.chance(1, 2);
  Vec<P, D> up, lo;
  limits<P, D>(c, up, lo, prop);
  auto x = input<P, D>(c, up, lo);
  auto o = (!prop && c.u(2)) ? Pid::saturate_output(x, up, lo) : Pid::saturate_output(x, up, lo, prop);
  judge<P, D>(c, x, o, up, lo, prop);
  if (!prop) {
    Vec<P, D> again = Pid::saturate_output(o, up, lo, false);
    c.check(again == o, "saturation is not idempotent");
  }
  for (int j = 0; j < D; j++) {
    P y = pid_1d_controller::PID<P>::saturate_output(x[j], up[j], lo[j]);
    P w = x[j] > up[j] ? up[j] : (x[j] < lo[j] ? lo[j] : x[j]);
    c.check(y == w, "scalar saturation");
  }
  bool over = false;
  for (int j = 0; j < D; j++) {
    c.note("x", x[j]);
    c.note("up", up[j]);
    c.note("lo", lo[j]);
    over |= x[j] > up[j] || x[j] < lo[j];
  }
  if (over) {
    c.cls(prop ? "proportional, saturating" : "per-axis, saturating");
    c.nontrivial();
  }
}

// through the controller: the output is the saturation of the sum of its terms,
// whatever the history
template <typename P, int D>
void controller(Ctx &c) {
  using Pid = pid_controller::PID<P, D>;
  auto cfg  = refpid::params<P, D>(c, c.u(2) ? refpid::PER_AXIS : refpid::PROPORTIONAL);
  bool late = c.chance(1, 2);
  Vec<P, D> up = cfg.upper_output_saturation, lo = cfg.lower_output_saturation;
  bool prop = cfg.proportional_saturation_flag;
  if (late) cfg.upper_output_saturation = cfg.lower_output_saturation = Vec<P, D>::Zero();
  Pid pid(cfg, false);
  if (late) {
    if (prop || c.u(2)) pid.set_output_saturation(up, lo, prop);
    else pid.set_output_saturation(up, lo);
    c.cls("limits set after construction");
  }
  Vec<P, D> e = Vec<P, D>::Ones();
  int steps   = c.len(1, 12, 400);
  bool over   = false;
  for (int k = 0; k < steps; k++) {
    e    = refpid::error<P, D>(c, e, true);
    P dt = refpid::step_time<P>(c);
    if (prop && c.chance(1, 10)) {
      prop = false;
      pid.set_proportional_saturation_flag(false);
    }
    Vec<P, D> de;
    for (int j = 0; j < D; j++) de[j] = P(c.sreal(50));
    Vec<P, D> o = c.chance(1, 3) ? pid.compute_control(dt, e, de) : pid.compute_control(dt, e);
    Vec<P, D> raw;
    double tol = sizeof(P) == 4 ? 1e-5 : 1e-12;
    for (int j = 0; j < D; j++) {
      double a = pid.get_proportional_error_contribution()[j], b = pid.get_integral_error_contribution()[j],
             d = pid.get_derivative_error_contribution()[j];
      raw[j]   = P(a + b + d);
      double s = std::fabs(a) + std::fabs(b) + std::fabs(d);
      over |= raw[j] > up[j] || raw[j] < lo[j];
      if (!prop) {
        c.check(o[j] <= up[j] && o[j] >= lo[j], "output outside its limits");
        double w = std::min(std::max(a + b + d, double(lo[j])), double(up[j]));
        c.close(double(o[j]), w, tol * s, "output is not the saturated sum of its terms");
      } else {
        c.check(double(o[j]) <= double(up[j]) + tol * (std::fabs(double(up[j])) + 1e-9) &&
                    double(o[j]) >= double(lo[j]) - tol * (std::fabs(double(lo[j])) + 1e-9),
                "output outside its limits");
      }
    }
    c.check(pid.get_output() == o, "get_output is not the returned output");
    if (prop) {
      // same direction as the sum
      double f = 1;
      for (int j = 0; j < D; j++) {
        if (raw[j] > up[j]) f = std::min(f, double(up[j]) / double(raw[j]));
        if (raw[j] < lo[j]) f = std::min(f, double(lo[j]) / double(raw[j]));
      }
      for (int j = 0; j < D; j++) {
        double s = std::fabs(double(pid.get_proportional_error_contribution()[j])) +
                   std::fabs(double(pid.get_integral_error_contribution()[j])) +
                   std::fabs(double(pid.get_derivative_error_contribution()[j]));
        double m = 0;
        for (int i = 0; i < D; i++)
          m = std::max(m, (std::fabs(double(pid.get_proportional_error_contribution()[i])) +
                           std::fabs(double(pid.get_integral_error_contribution()[i])) +
                           std::fabs(double(pid.get_derivative_error_contribution()[i]))) /
                              std::max(1e-9, std::fabs(double(raw[i]))));
        c.close(double(o[j]), f * double(raw[j]), 10 * tol * f * (s + m * std::fabs(double(raw[j]))), "output is not the scaled sum of its terms");
      }
    }
  }
  c.note("steps", steps);
  if (over) {
    c.cls(prop ? "proportional, saturating" : "per-axis, saturating");
    c.nontrivial();
  }
}
static Reg a("statics<double,3>", statics<double, 3>, 3);
static Reg b("statics<float,3>", statics<float, 3>, 2);
static Reg d("statics<double,1>", statics<double, 1>, 1);
static Reg e("statics<double,6>", statics<double, 6>, 1);
static Reg f("controller<double,3>", controller<double, 3>, 2);
static Reg g("controller<float,3>", controller<float, 3>, 1);
static Reg h("controller<double,2>", controller<double, 2>, 1);
