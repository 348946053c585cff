// Reference PID with integral anti-windup, filtered derivative and output
// saturation, and generators of PID configurations.
#ifndef VERIF_REFPID_HPP_
#define VERIF_REFPID_HPP_

#include <Eigen/Dense>

#include "partly.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "pid_controller/pid.hpp"
#include "pid_controller/pid_1d.hpp"

namespace refpid {

using ref::R;

template <typename P, int D>
struct Pid {
  std::array<double, D> kp{}, ki{}, kd{}, aw{}, alpha{}, up{}, lo{};
  bool reset_flag = false, sat = false, prop = false;
  bool bounded() const {  // a bound on any axis limits every axis, to its own bound
    for (double a : aw)
      if (a != 0) return true;
    return false;
  }
  // state
  bool first = true;
  std::array<R, D> acc, filt;
  std::array<double, D> last{};
  std::array<bool, D> fuzzy{}, clipped{};  // clipped: acc is exactly the limit
  // last step
  std::array<R, D> p, i, d, out, raw;
  bool ambiguous = false;  // a branch hangs on the last bits: stop the history

  void configure(const pid_controller::PIDParams<P, D> &c) {
    for (int j = 0; j < D; j++) {
      size_t k = size_t(j);
      kp[k]    = double(c.Kp_gains[j]);
      ki[k]    = double(c.Ki_gains[j]);
      kd[k]    = double(c.Kd_gains[j]);
      aw[k]    = double(c.antiwindup_cte[j]);
      alpha[k] = double(c.alpha[j]);
      up[k]    = double(c.upper_output_saturation[j]);
      lo[k]    = double(c.lower_output_saturation[j]);
    }
    reset_flag = c.reset_integral_flag;
    prop       = c.proportional_saturation_flag;
    sat        = limits_valid();
  }
  bool limits_valid() const {
    bool any = false;
    for (size_t k = 0; k < size_t(D); k++) any |= up[k] != 0 || lo[k] != 0;
    if (!any) return false;
    for (size_t k = 0; k < size_t(D); k++)
      if (!(up[k] > lo[k])) return false;
    return true;
  }
  void restart() { first = true; }

  template <typename V>
  void step(double dt, const V &e, const V *de) {
    if (first) {
      first = false;
      for (size_t k = 0; k < size_t(D); k++) {
        acc[k] = filt[k] = R(0.0);
        fuzzy[k] = clipped[k] = false;
        last[k]          = double(e[int(k)]);
      }
    }
    for (size_t k = 0; k < size_t(D); k++) {
      const R ek = R(double(e[int(k)]));
      p[k] = R(kp[k]) * ek;
      // a saturated integral is dropped when the error changes sign
      if (reset_flag) {
        double a   = std::fabs(double(acc[k].v));
        bool near  = fuzzy[k] || (!clipped[k] && std::fabs(a - aw[k]) <= ref::tol_of<P>(acc[k]));
        bool signs = std::signbit(double(acc[k].v)) != std::signbit(double(ek.v));
        if (near && aw[k] > 0 && signs) ambiguous = true;
        // an integral that is zero up to rounding may be reset or not
        bool tiny = a <= ref::tol_of<P>(acc[k]);
        if (a >= aw[k] && (signs || tiny)) acc[k] = tiny ? R(acc[k].v, acc[k].m) : R(0.0);
      }
      acc[k] += ek * R(dt);
      fuzzy[k] = clipped[k] = false;
      if (bounded()) {
        double t = ref::tol_of<P>(acc[k]);
        if (aw[k] != 0 && std::fabs(std::fabs(double(acc[k].v)) - aw[k]) <= t) fuzzy[k] = true;
        clipped[k] = std::fabs(acc[k].v) > aw[k];
        // at the limit up to rounding: whether it is limited is open, the error stays
        double m = fuzzy[k] ? acc[k].m : aw[k];
        if (acc[k].v > aw[k]) acc[k] = R(aw[k], m);
        if (acc[k].v < -aw[k]) acc[k] = R(-aw[k], m);
      }
      i[k] = R(ki[k]) * acc[k];
      if (de) {
        d[k] = R(kd[k]) * R(double((*de)[int(k)]));
      } else {
        R inc   = (ek - R(last[k])) / R(dt);
        filt[k] = R(alpha[k]) * inc + (R(1.0) - R(alpha[k])) * filt[k];
        d[k]    = R(kd[k]) * filt[k];
      }
      last[k] = double(ek.v);
      raw[k]  = p[k] + i[k] + d[k];
    }
    out = saturate(raw);
  }

  std::array<R, D> saturate(const std::array<R, D> &x) const {
    std::array<R, D> o = x;
    if (!sat) return o;
    if (!prop) {
      for (size_t k = 0; k < size_t(D); k++) o[k] = ref::clamp(x[k], lo[k], up[k]);
      return o;
    }
    // scale of every axis; the smallest one counts, with the error of the worst
    // axis that could have been chosen instead
    R f(1.0);
    std::array<R, D> g;
    for (size_t k = 0; k < size_t(D); k++) {
      g[k] = x[k].v > 0 ? R(up[k]) / x[k] : (x[k].v < 0 ? R(lo[k]) / x[k] : R(1e30));
      if (g[k].v < f.v) f = g[k];
    }
    for (size_t k = 0; k < size_t(D); k++)
      if (g[k].v <= f.v * 1.01L && g[k].v > 0) f.m = std::max(f.m, double(f.v / g[k].v) * g[k].m);
    // an axis known only roughly may or may not have been the one that counts
    double least = 1, most = 1;
    for (size_t k = 0; k < size_t(D); k++) {
      double t = ref::tol_of<P>(x[k]), hi = double(x[k].v) + t, lw = double(x[k].v) - t;
      if (hi > up[k]) least = std::min(least, up[k] / hi);
      if (lw < lo[k]) least = std::min(least, lo[k] / lw);
      if (lw > up[k]) most = std::min(most, up[k] / lw);
      if (hi < lo[k]) most = std::min(most, lo[k] / hi);
    }
    f.m = std::max(f.m, 2 * std::max(double(f.v) - least, most - double(f.v)) / ref::tol_of<P>(R(0.0L, 1.0)));
    for (size_t k = 0; k < size_t(D); k++) o[k] = x[k] * f;
    return o;
  }
};

enum Sat { ANY, NONE, PER_AXIS, PROPORTIONAL };

template <typename P, int D>
pid_controller::PIDParams<P, D> params(pbt::Ctx &c, int want = ANY) {
  pid_controller::PIDParams<P, D> o;
  bool aw = c.chance(2, 3);
  for (int j = 0; j < D; j++) {
    o.Kp_gains[j]       = P(c.u(8) == 0 ? c.sreal(20) : c.zlogpos(0.01, 100));
    o.Ki_gains[j]       = P(c.u(8) == 0 ? c.sreal(20) : c.zlogpos(0.01, 100));
    o.Kd_gains[j]       = P(c.u(8) == 0 ? c.sreal(20) : c.zlogpos(0.001, 10));
    o.antiwindup_cte[j] = aw ? P(gen::logwide(c, 0.01, 20, 1e-5, 1e5)) : P(0);
    o.alpha[j]          = P(c.u(3) == 0 ? 1.0 : c.real(0, 1));
  }
  if (D > 1 && aw && c.chance(1, 8)) o.antiwindup_cte[int(c.u(D))] = P(0);
  o.reset_integral_flag = c.chance(1, 2);
  int kind              = want == ANY ? int(c.u(3)) + 1 : want;
  if (kind != NONE) {
    bool prop                      = kind == PROPORTIONAL;
    o.proportional_saturation_flag = prop;
    for (int j = 0; j < D; j++) {
      if (prop || c.chance(2, 3)) {
        o.upper_output_saturation[j] = P(gen::logwide(c, 0.01, 100, 1e-5, 1e5));
        o.lower_output_saturation[j] = c.u(2) ? P(-gen::logwide(c, 0.01, 100, 1e-5, 1e5)) : P(-o.upper_output_saturation[j]);
      } else {  // interval of any position
        o.lower_output_saturation[j] = P(c.sreal(50));
        o.upper_output_saturation[j] = o.lower_output_saturation[j] + P(gen::logwide(c, 0.01, 100, 2e-4, 1e5));
      }
    }
  }
  return o;
}

template <typename T>
bool limited(const T &p) {
  return !(p.upper_output_saturation.isZero(0) && p.lower_output_saturation.isZero(0));
}
// a set that differs from a in some respects only
template <typename P, int D>
pid_controller::PIDParams<P, D> partly(pbt::Ctx &c, const pid_controller::PIDParams<P, D> &a, const pid_controller::PIDParams<P, D> &b) {
  auto o   = a;
  int what = int(c.u(8));
  bool all = what == 7;
  if (all || what == 0) o.Kp_gains = gen::partly(c, a.Kp_gains, b.Kp_gains);
  if (all || what == 1) o.Ki_gains = gen::partly(c, a.Ki_gains, b.Ki_gains);
  if (all || what == 2) o.Kd_gains = gen::partly(c, a.Kd_gains, b.Kd_gains);
  if (all || what == 3) o.alpha = gen::partly(c, a.alpha, b.alpha);
  if (all || what == 4)
    o.antiwindup_cte = a.antiwindup_cte.isZero(0) || b.antiwindup_cte.isZero(0) ? b.antiwindup_cte : gen::partly(c, a.antiwindup_cte, b.antiwindup_cte);
  if (all || what == 5) o.reset_integral_flag = b.reset_integral_flag;
  if (all || what == 6) {
    if (limited(a) && limited(b) && a.proportional_saturation_flag == b.proportional_saturation_flag) {
      int j                        = int(c.u(D));
      o.upper_output_saturation[j] = b.upper_output_saturation[j];
      // one limit alone when that leaves an interval around the same place
      if (c.u(2) || !(double(o.upper_output_saturation[j]) - double(o.lower_output_saturation[j]) > 1e-3))
        o.lower_output_saturation[j] = b.lower_output_saturation[j];
    } else {
      o.upper_output_saturation      = b.upper_output_saturation;
      o.lower_output_saturation      = b.lower_output_saturation;
      o.proportional_saturation_flag = b.proportional_saturation_flag;
    }
  }
  return o;
}
// new parameters for a controller that has p: entirely, or in part
template <typename P, int D>
pid_controller::PIDParams<P, D> changed(pbt::Ctx &c, const pid_controller::PIDParams<P, D> &p, int want = ANY) {
  auto q = params<P, D>(c, want);
  return c.u(2) ? partly<P, D>(c, p, q) : q;
}

// error of a control loop: several magnitudes, changes of sign, sometimes
// repeated; never exactly zero when the sign decides
template <typename P, int D>
Eigen::Matrix<P, D, 1> error(pbt::Ctx &c, const Eigen::Matrix<P, D, 1> &last, bool nonzero) {
  Eigen::Matrix<P, D, 1> e;
  int kind  = int(c.u(5));
  bool wide = c.u(24) == 23;
  for (int j = 0; j < D; j++) {
    switch (kind) {
      case 0: e[j] = last[j]; break;
      case 1: e[j] = P(-last[j]); break;
      case 2: e[j] = last[j] + P(c.sreal(0.1)); break;
      default: e[j] = P(c.sreal(wide ? 1e5 : 100));
    }
    if (nonzero && e[j] == P(0)) e[j] = c.u(2) ? P(-0.125) : P(0.125);
  }
  return e;
}

template <typename P>
P step_time(pbt::Ctx &c) {
  return P(c.u(3) == 0 ? 0.01 : c.u(20) == 19 ? c.logpos(1e-7, 60) : c.logpos(1e-4, 2));
}

}  // namespace refpid

#endif
