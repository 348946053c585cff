// C04: PID configuration and life cycle.
#include "refpid.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int D>
using Vec = Eigen::Matrix<P, D, 1>;
template <typename P, int D>
using Par = pid_controller::PIDParams<P, D>;

template <typename P, int D>
void same(Ctx &c, const Par<P, D> &a, const Par<P, D> &b, const std::string &what) {
  c.check(a.Kp_gains == b.Kp_gains && a.Ki_gains == b.Ki_gains && a.Kd_gains == b.Kd_gains, what + ": gains");
  c.check(a.antiwindup_cte == b.antiwindup_cte, what + ": anti-windup");
  c.check(a.alpha == b.alpha, what + ": alpha");
  c.check(a.reset_integral_flag == b.reset_integral_flag, what + ": reset flag");
  c.check(a.upper_output_saturation == b.upper_output_saturation && a.lower_output_saturation == b.lower_output_saturation,
          what + ": limits");
  if (!a.upper_output_saturation.isZero(0) || !a.lower_output_saturation.isZero(0))
    c.check(a.proportional_saturation_flag == b.proportional_saturation_flag, what + ": proportional flag");
}

// drive two controllers with the same inputs: identical outputs
template <typename P, int D>
void twins(Ctx &c, pid_controller::PID<P, D> &a, pid_controller::PID<P, D> &b, const std::string &what) {
  Vec<P, D> e = Vec<P, D>::Ones(), de;
  int steps   = c.range(1, 8);
  for (int k = 0; k < steps; k++) {
    e    = refpid::error<P, D>(c, e, true);
    P dt = refpid::step_time<P>(c);
    for (int j = 0; j < D; j++) de[j] = P(c.sreal(50));
    bool ed     = c.chance(1, 3);
    Vec<P, D> x = ed ? a.compute_control(dt, e, de) : a.compute_control(dt, e);
    Vec<P, D> y = ed ? b.compute_control(dt, e, de) : b.compute_control(dt, e);
    c.check(x == y, what + ": outputs differ");
    c.check(a.get_integral_error_contribution() == b.get_integral_error_contribution(), what + ": integral terms differ");
    c.check(a.get_derivative_error_contribution() == b.get_derivative_error_contribution(),
            what + ": derivative terms differ");
  }
}

template <typename P, int D>
void warm(Ctx &c, pid_controller::PID<P, D> &a) {
  Vec<P, D> e = Vec<P, D>::Ones(), de;
  int steps   = c.range(0, 8);
  for (int k = 0; k < steps; k++) {
    e    = refpid::error<P, D>(c, e, true);
    P dt = refpid::step_time<P>(c);
    for (int j = 0; j < D; j++) de[j] = P(c.sreal(50));
    if (c.chance(1, 3)) a.compute_control(dt, e, de);
    else a.compute_control(dt, e);
  }
}

template <typename P, int D>
void lifecycle(Ctx &c) {
  using Pid = pid_controller::PID<P, D>;
  auto cfg  = refpid::params<P, D>(c);
  Pid a(cfg, false);
  same<P, D>(c, a.get_params(), cfg, "constructor/get_params");
  warm<P, D>(c, a);
  int kind = int(c.u(7));
  c.note("kind", kind);
  switch (kind) {
    case 0: {  // reset: as new
      c.cls("reset");
      a.reset_controller();
      same<P, D>(c, a.get_params(), cfg, "reset keeps the parameters");
      Pid b(cfg, false);
      twins<P, D>(c, a, b, "reset against fresh");
      break;
    }
    case 1: {  // update then reset: as new with the new parameters
      c.cls("update and reset");
      auto n = refpid::changed<P, D>(c, cfg);
      a.update_pid_params(n);
      same<P, D>(c, a.get_params(), n, "update/get_params");
      c.check(a.get_output_saturation_flag() == !(n.upper_output_saturation.isZero(0) && n.lower_output_saturation.isZero(0)),
              "saturation flag");
      a.reset_controller();
      Pid b(n, false);
      twins<P, D>(c, a, b, "updated against fresh");
      break;
    }
    case 2: {  // writing back what was read changes nothing, the state included
      c.cls("write back");
      Pid b(a);
      b.update_pid_params(b.get_params());
      twins<P, D>(c, a, b, "write back");
      break;
    }
    case 3: {  // a copy is independent
      c.cls("copy");
      Pid b(a), keep(a);
      warm<P, D>(c, b);
      b.update_pid_params(refpid::params<P, D>(c));
      b.reset_controller();
      same<P, D>(c, a.get_params(), cfg, "copy independence");
      twins<P, D>(c, a, keep, "copy");
      break;
    }
    case 4: {  // setters one by one are the update
      c.cls("setters");
      auto n = refpid::changed<P, D>(c, cfg);
      if (c.u(2)) {
        a.set_gains(n.Kp_gains, n.Ki_gains, n.Kd_gains);
      } else {
        a.set_gains_kp(n.Kp_gains);
        a.set_gains_ki(n.Ki_gains);
        a.set_gains_kd(n.Kd_gains);
      }
      a.set_anti_windup(n.antiwindup_cte);
      a.set_alpha(n.alpha);
      a.set_reset_integral_saturation_flag(n.reset_integral_flag);
      bool sat = !(n.upper_output_saturation.isZero(0) && n.lower_output_saturation.isZero(0));
      if (sat) a.set_output_saturation(n.upper_output_saturation, n.lower_output_saturation, n.proportional_saturation_flag);
      else a.disable_output_saturation();
      Vec<P, D> kp, ki, kd, up, lo;
      a.get_gains(kp, ki, kd);
      c.check(kp == n.Kp_gains && ki == n.Ki_gains && kd == n.Kd_gains, "get_gains");
      c.check(a.get_gains_kp() == n.Kp_gains && a.get_gains_ki() == n.Ki_gains && a.get_gains_kd() == n.Kd_gains,
              "get_gains_k*");
      c.check(a.get_anti_windup() == n.antiwindup_cte && a.get_alpha() == n.alpha, "get_anti_windup/get_alpha");
      c.check(a.get_reset_integral_saturation_flag() == n.reset_integral_flag, "reset flag");
      c.check(a.get_output_saturation_flag() == sat, "saturation flag");
      if (sat) {
        a.get_saturation_limits(up, lo);
        c.check(up == n.upper_output_saturation && lo == n.lower_output_saturation, "limits");
        c.check(a.get_proportional_saturation_flag() == n.proportional_saturation_flag, "proportional flag");
      }
      same<P, D>(c, a.get_params(), n, "setters/get_params");
      a.reset_controller();
      Pid b(n, false);
      twins<P, D>(c, a, b, "setters against fresh");
      break;
    }
    case 5: {  // limits that are not an interval switch the saturation off
      c.cls("invalid limits");
      auto n = refpid::params<P, D>(c, refpid::PER_AXIS);
      int j  = int(c.u(D));
      if (c.u(2)) {
        n.upper_output_saturation[j] = n.lower_output_saturation[j] - P(c.logpos(1e-3, 1e3));
      } else {
        n.upper_output_saturation[j] = n.lower_output_saturation[j];
      }
      if (n.upper_output_saturation.isZero(0) && n.lower_output_saturation.isZero(0)) n.lower_output_saturation[j] = n.upper_output_saturation[j] = P(1);
      if (c.u(2)) {
        a.set_output_saturation(n.upper_output_saturation, n.lower_output_saturation, c.u(2));
      } else {
        auto m                    = cfg;
        m.upper_output_saturation = n.upper_output_saturation;
        m.lower_output_saturation = n.lower_output_saturation;
        a.update_pid_params(m);
      }
      c.check(!a.get_output_saturation_flag(), "saturation with invalid limits");
      auto off = cfg;
      off.upper_output_saturation.setZero();
      off.lower_output_saturation.setZero();
      same<P, D>(c, a.get_params(), off, "invalid limits/get_params");
      a.reset_controller();
      Pid b(off, false);
      twins<P, D>(c, a, b, "invalid limits");
      break;
    }
    default: {  // defaults: a silent controller
      c.cls("default");
      Pid b;
      Vec<P, D> e = Vec<P, D>::Ones();
      e           = refpid::error<P, D>(c, e, true);
      P dt        = refpid::step_time<P>(c);
      c.check(b.compute_control(dt, e) == Vec<P, D>::Zero() && b.compute_control(dt, e, e) == Vec<P, D>::Zero(),
              "default PID has gains");
      c.check(!b.get_output_saturation_flag(), "default PID saturates");
      same<P, D>(c, b.get_params(), Par<P, D>(), "default parameters");
      b.update_pid_params(cfg);
      b.reset_controller();
      Pid d(cfg, true);
      twins<P, D>(c, b, d, "default then update");
    }
  }
  c.nontrivial();
}

// any sequence of configuration, reset and computation: what was set last is what
// the getters report, what later outputs use, and nothing else changes
template <typename P, int D>
struct Shadow {
  Par<P, D> cfg;  // limits zero when the saturation is off
  bool prop_known = true;  // unspecified after a refused set_output_saturation
  bool spans_zero() const {
    for (int j = 0; j < D; j++)
      if (!(cfg.upper_output_saturation[j] > 0 && cfg.lower_output_saturation[j] < 0)) return false;
    return true;
  }
  void limits(const Vec<P, D> &up, const Vec<P, D> &lo, bool prop) {
    bool ok = true;
    for (int j = 0; j < D; j++) ok &= up[j] > lo[j];
    cfg.upper_output_saturation      = ok ? up : Vec<P, D>(Vec<P, D>::Zero());
    cfg.lower_output_saturation      = ok ? lo : Vec<P, D>(Vec<P, D>::Zero());
    cfg.proportional_saturation_flag = prop;
  }
  bool sat() const { return !(cfg.upper_output_saturation.isZero(0) && cfg.lower_output_saturation.isZero(0)); }
};

template <typename P, int D>
void machine(Ctx &c) {
  using Pid = pid_controller::PID<P, D>;
  // parameter sets that come back
  std::vector<Par<P, D>> pool;
  int np = c.range(1, 3);
  for (int k = 0; k < np; k++) {
    auto q = refpid::params<P, D>(c, c.u(4) ? (c.u(2) ? refpid::PER_AXIS : refpid::PROPORTIONAL) : refpid::NONE);
    pool.push_back(k && c.u(2) ? refpid::partly<P, D>(c, pool.back(), q) : q);
  }
  auto pick = [&]() -> const Par<P, D> & { return pool[c.u(uint32_t(pool.size()))]; };
  Shadow<P, D> m;
  refpid::Pid<P, D> ref;
  bool follow = true;
  std::string ops;
  auto sync = [&](Pid &a) {
    ref.configure(m.cfg);
    same<P, D>(c, a.get_params(), m.cfg, "after " + ops);
    c.check(a.get_output_saturation_flag() == m.sat(), "saturation flag after " + ops);
    Vec<P, D> kp, ki, kd, up, lo;
    a.get_gains(kp, ki, kd);
    c.check(kp == m.cfg.Kp_gains && ki == m.cfg.Ki_gains && kd == m.cfg.Kd_gains, "get_gains after " + ops);
    c.check(a.get_gains_kp() == kp && a.get_gains_ki() == ki && a.get_gains_kd() == kd, "get_gains_k* after " + ops);
    c.check(a.get_anti_windup() == m.cfg.antiwindup_cte && a.get_alpha() == m.cfg.alpha &&
                a.get_reset_integral_saturation_flag() == m.cfg.reset_integral_flag,
            "getters after " + ops);
    if (m.sat()) {
      a.get_saturation_limits(up, lo);
      c.check(up == m.cfg.upper_output_saturation && lo == m.cfg.lower_output_saturation, "limits after " + ops);
    }
    if (m.prop_known) {
      c.check(a.get_proportional_saturation_flag() == m.cfg.proportional_saturation_flag, "proportional flag after " + ops);
      c.check(a.get_params().proportional_saturation_flag == m.cfg.proportional_saturation_flag,
              "reported proportional flag after " + ops);
    }
  };
  m.cfg = pick();
  Pid a(m.cfg, false);
  ops = "construct ";
  sync(a);
  Vec<P, D> e = Vec<P, D>::Ones(), de;
  int n       = c.len(2, 14, 300);
  int sets = 0, computes = 0;
  for (int k = 0; k < n; k++) {
    const auto &t = pick();
    switch (c.u(15)) {
      case 0: {
        auto w   = t;
        bool bad = c.chance(1, 8) && !(w.upper_output_saturation.isZero(0) && w.lower_output_saturation.isZero(0));
        if (bad) {  // one axis with limits the wrong way round: no limits at all
          int x = int(c.u(D));
          std::swap(w.upper_output_saturation[x], w.lower_output_saturation[x]);
        }
        a.update_pid_params(w);
        m.cfg = w;
        m.limits(w.upper_output_saturation, w.lower_output_saturation, w.proportional_saturation_flag);
        m.prop_known = !bad;
        ops += bad ? "bad-update " : "update ";
        sets++;
        break;
      }
      case 1:
        a.set_gains(t.Kp_gains, t.Ki_gains, t.Kd_gains);
        m.cfg.Kp_gains = t.Kp_gains;
        m.cfg.Ki_gains = t.Ki_gains;
        m.cfg.Kd_gains = t.Kd_gains;
        ops += "gains ";
        sets++;
        break;
      case 2: a.set_gains_kp(m.cfg.Kp_gains = t.Kp_gains); ops += "kp "; sets++; break;
      case 3: a.set_gains_ki(m.cfg.Ki_gains = t.Ki_gains); ops += "ki "; sets++; break;
      case 4: a.set_gains_kd(m.cfg.Kd_gains = t.Kd_gains); ops += "kd "; sets++; break;
      case 5: a.set_anti_windup(m.cfg.antiwindup_cte = t.antiwindup_cte); ops += "windup "; sets++; break;
      case 6: a.set_alpha(m.cfg.alpha = t.alpha); ops += "alpha "; sets++; break;
      case 7: a.set_reset_integral_saturation_flag(m.cfg.reset_integral_flag = c.u(2)); ops += "flag "; sets++; break;
      case 8:
      case 9: {
        Vec<P, D> up = t.upper_output_saturation, lo = t.lower_output_saturation;
        if (up.isZero(0) && lo.isZero(0)) up.setConstant(P(1)), lo.setConstant(P(-1));
        bool bad = c.chance(1, 5), prop = t.proportional_saturation_flag;
        if (bad) {
          int j = int(c.u(D));
          if (c.u(2)) std::swap(up[j], lo[j]);
          else up[j] = lo[j];
          if (!(up[j] == lo[j] || up[j] < lo[j])) break;
        }
        a.set_output_saturation(up, lo, prop);
        m.limits(up, lo, prop);
        m.prop_known = m.sat();
        ops += bad ? "bad-limits " : "limits ";
        sets++;
        break;
      }
      case 10:
        a.disable_output_saturation();
        m.limits(Vec<P, D>::Zero(), Vec<P, D>::Zero(), m.cfg.proportional_saturation_flag);
        ops += "unlimited ";
        sets++;
        break;
      case 11:
        a.reset_controller();
        ref.restart();
        ops += "reset ";
        break;
      case 12: {
        // a fresh controller with what was read, after a reset of a copy
        Pid b(a), f(a.get_params(), false), h(m.cfg, false), f2(f);
        b.reset_controller();
        twins<P, D>(c, b, f, "reset copy against rebuilt after " + ops);
        twins<P, D>(c, f2, h, "rebuilt against asked after " + ops);
        c.cls("rebuilt");
        break;
      }
      case 13: {
        // limits that exclude zero are not scaled onto (unspecified)
        bool v = c.u(2) && (!m.sat() || m.spans_zero());
        a.set_proportional_saturation_flag(v);
        m.cfg.proportional_saturation_flag = v;
        m.prop_known                       = true;
        ops += v ? "proportional " : "per-axis ";
        sets++;
        break;
      }
      default: {
        int steps = c.range(1, 3);
        for (int q = 0; q < steps; q++) {
          e    = refpid::error<P, D>(c, e, true);
          P dt = refpid::step_time<P>(c);
          for (int j = 0; j < D; j++) de[j] = P(c.sreal(50));
          bool ed       = c.chance(1, 3);
          Vec<P, D> out = ed ? a.compute_control(dt, e, de) : a.compute_control(dt, e);
          if (!follow) continue;
          ref.template step<Vec<P, D>>(double(dt), e, ed ? &de : nullptr);
          if (ref.ambiguous) {
            follow = false;
            c.cls("reference stopped at a rounding-dependent branch");
            continue;
          }
          for (int j = 0; j < D; j++) close<P>(c, double(out[j]), ref.out[size_t(j)], "output after " + ops);
          computes++;
        }
        ops += "compute ";
      }
    }
    sync(a);
  }
  c.note("ops", ops);
  if (sets && computes) c.nontrivial();
}

// ---- scalar PID --------------------------------------------------------------
template <typename P>
using Par1 = pid_1d_controller::PIDParams<P>;
template <typename P>
Par1<P> params1(Ctx &c, int want) {
  auto v = refpid::params<P, 1>(c, want);
  Par1<P> o;
  o.Kp_gains                = v.Kp_gains[0];
  o.Ki_gains                = v.Ki_gains[0];
  o.Kd_gains                = v.Kd_gains[0];
  o.antiwindup_cte          = v.antiwindup_cte[0];
  o.alpha                   = v.alpha[0];
  o.reset_integral_flag     = v.reset_integral_flag;
  o.upper_output_saturation = v.upper_output_saturation[0];
  o.lower_output_saturation = v.lower_output_saturation[0];
  return o;
}
template <typename P>
void same1(Ctx &c, const Par1<P> &a, const Par1<P> &b, const std::string &what) {
  c.check(a.Kp_gains == b.Kp_gains && a.Ki_gains == b.Ki_gains && a.Kd_gains == b.Kd_gains, what + ": gains");
  c.check(a.antiwindup_cte == b.antiwindup_cte && a.alpha == b.alpha, what + ": anti-windup, alpha");
  c.check(a.reset_integral_flag == b.reset_integral_flag, what + ": reset flag");
  c.check(a.upper_output_saturation == b.upper_output_saturation && a.lower_output_saturation == b.lower_output_saturation,
          what + ": limits");
}
template <typename P>
void drive1(Ctx &c, pid_1d_controller::PID<P> &a, pid_1d_controller::PID<P> *b, const std::string &what, int lo) {
  Eigen::Matrix<P, 1, 1> e;
  e[0]      = P(1);
  int steps = c.range(lo, 8);
  for (int k = 0; k < steps; k++) {
    e       = refpid::error<P, 1>(c, e, true);
    P dt    = refpid::step_time<P>(c);
    P de    = P(c.sreal(50));
    bool ed = c.chance(1, 3);
    P x     = ed ? a.compute_control(dt, e[0], de) : a.compute_control(dt, e[0]);
    if (!b) continue;
    P y = ed ? b->compute_control(dt, e[0], de) : b->compute_control(dt, e[0]);
    c.check(x == y, what + ": outputs differ");
  }
}
template <typename P>
void lifecycle1(Ctx &c) {
  using Pid = pid_1d_controller::PID<P>;
  auto kind = [&] { return c.u(2) ? refpid::PER_AXIS : refpid::NONE; };
  auto cfg  = params1<P>(c, kind());
  Pid a(cfg, false);
  same1<P>(c, a.get_params(), cfg, "constructor/get_params");
  drive1<P>(c, a, nullptr, "", 0);
  switch (c.u(7)) {
    case 0: {
      c.cls("reset");
      a.reset_controller();
      same1<P>(c, a.get_params(), cfg, "reset keeps the parameters");
      Pid b(cfg, false);
      drive1<P>(c, a, &b, "reset against fresh", 1);
      break;
    }
    case 1: {
      c.cls("update and reset");
      auto n = params1<P>(c, kind());
      a.update_params(n);
      same1<P>(c, a.get_params(), n, "update/get_params");
      a.reset_controller();
      Pid b(n, false);
      drive1<P>(c, a, &b, "updated against fresh", 1);
      break;
    }
    case 2: {
      c.cls("write back");
      Pid b(a);
      b.update_params(b.get_params());
      drive1<P>(c, a, &b, "write back", 1);
      break;
    }
    case 3: {
      c.cls("copy");
      Pid b(a), keep(a);
      drive1<P>(c, b, nullptr, "", 1);
      b.update_params(params1<P>(c, kind()));
      b.reset_controller();
      same1<P>(c, a.get_params(), cfg, "copy independence");
      drive1<P>(c, a, &keep, "copy", 1);
      break;
    }
    case 4: {
      c.cls("setters");
      auto n = params1<P>(c, kind());
      if (c.u(2)) {
        a.set_gains(n.Kp_gains, n.Ki_gains, n.Kd_gains);
      } else {
        a.set_kp(n.Kp_gains);
        a.set_ki(n.Ki_gains);
        a.set_kd(n.Kd_gains);
      }
      a.set_anti_windup(n.antiwindup_cte);
      a.set_alpha(n.alpha);
      a.set_reset_integral_saturation_flag(n.reset_integral_flag);
      bool sat = n.upper_output_saturation != 0 || n.lower_output_saturation != 0;
      if (sat) a.set_output_saturation(n.upper_output_saturation, n.lower_output_saturation);
      else a.disable_output_saturation();
      P kp, ki, kd, up, lo;
      a.get_gains(kp, ki, kd);
      c.check(kp == n.Kp_gains && ki == n.Ki_gains && kd == n.Kd_gains, "get_gains");
      c.check(a.get_kp() == n.Kp_gains && a.get_ki() == n.Ki_gains && a.get_kd() == n.Kd_gains, "get_k*");
      c.check(a.get_anti_windup() == n.antiwindup_cte && a.get_alpha() == n.alpha, "get_anti_windup/get_alpha");
      c.check(a.get_reset_integral_saturation_flag() == n.reset_integral_flag, "reset flag");
      c.check(a.get_output_saturation_flag() == sat, "saturation flag");
      if (sat) {
        a.get_saturation_limits(up, lo);
        c.check(up == n.upper_output_saturation && lo == n.lower_output_saturation, "limits");
      }
      same1<P>(c, a.get_params(), n, "setters/get_params");
      a.reset_controller();
      Pid b(n, false);
      drive1<P>(c, a, &b, "setters against fresh", 1);
      break;
    }
    case 5: {
      c.cls("invalid limits");
      P lo = P(c.sreal(50)), up = c.u(2) ? lo : P(lo - P(c.logpos(1e-2, 1e3)));
      if (lo == P(0) && up == P(0)) up = lo = P(1);
      if (c.u(2)) {
        a.set_output_saturation(up, lo);
      } else {
        auto m                    = cfg;
        m.upper_output_saturation = up;
        m.lower_output_saturation = lo;
        a.update_params(m);
      }
      c.check(!a.get_output_saturation_flag(), "saturation with invalid limits");
      auto off                    = cfg;
      off.upper_output_saturation = off.lower_output_saturation = P(0);
      same1<P>(c, a.get_params(), off, "invalid limits/get_params");
      a.reset_controller();
      Pid b(off, false);
      drive1<P>(c, a, &b, "invalid limits", 1);
      break;
    }
    default: {
      c.cls("default");
      Pid b;
      P e = P(c.sreal(100)), dt = refpid::step_time<P>(c);
      c.check(b.compute_control(dt, e) == P(0) && b.compute_control(dt, e, e) == P(0), "default PID has gains");
      same1<P>(c, b.get_params(), Par1<P>(), "default parameters");
      b.update_params(cfg);
      b.reset_controller();
      Pid d(cfg, true);
      drive1<P>(c, b, &d, "default then update", 1);
    }
  }
  c.nontrivial();
}
template <typename P>
void machine1(Ctx &c) {
  using Pid = pid_1d_controller::PID<P>;
  std::vector<Par1<P>> pool;
  int np = c.range(1, 3);
  for (int k = 0; k < np; k++) pool.push_back(params1<P>(c, c.u(4) ? refpid::PER_AXIS : refpid::NONE));
  auto pick = [&]() -> const Par1<P> & { return pool[c.u(uint32_t(pool.size()))]; };
  Par1<P> cfg;
  refpid::Pid<P, 1> ref;
  bool follow = true;
  std::string ops;
  auto limits = [&](P up, P lo) {
    cfg.upper_output_saturation = up > lo ? up : P(0);
    cfg.lower_output_saturation = up > lo ? lo : P(0);
  };
  auto sync = [&](Pid &a) {
    pid_controller::PIDParams<P, 1> w;
    w.Kp_gains[0]                  = cfg.Kp_gains;
    w.Ki_gains[0]                  = cfg.Ki_gains;
    w.Kd_gains[0]                  = cfg.Kd_gains;
    w.antiwindup_cte[0]            = cfg.antiwindup_cte;
    w.alpha[0]                     = cfg.alpha;
    w.reset_integral_flag          = cfg.reset_integral_flag;
    w.upper_output_saturation[0]   = cfg.upper_output_saturation;
    w.lower_output_saturation[0]   = cfg.lower_output_saturation;
    w.proportional_saturation_flag = false;
    ref.configure(w);
    same1<P>(c, a.get_params(), cfg, "after " + ops);
    bool sat = cfg.upper_output_saturation != 0 || cfg.lower_output_saturation != 0;
    c.check(a.get_output_saturation_flag() == sat, "saturation flag after " + ops);
    P kp, ki, kd, up, lo;
    a.get_gains(kp, ki, kd);
    c.check(kp == cfg.Kp_gains && ki == cfg.Ki_gains && kd == cfg.Kd_gains, "get_gains after " + ops);
    c.check(a.get_kp() == kp && a.get_ki() == ki && a.get_kd() == kd, "get_k* after " + ops);
    c.check(a.get_anti_windup() == cfg.antiwindup_cte && a.get_alpha() == cfg.alpha &&
                a.get_reset_integral_saturation_flag() == cfg.reset_integral_flag,
            "getters after " + ops);
    if (sat) {
      a.get_saturation_limits(up, lo);
      c.check(up == cfg.upper_output_saturation && lo == cfg.lower_output_saturation, "limits after " + ops);
    }
  };
  cfg = pick();
  Pid a(cfg, false);
  ops = "construct ";
  sync(a);
  Eigen::Matrix<P, 1, 1> e = Eigen::Matrix<P, 1, 1>::Ones(), de;
  int n                    = c.len(2, 14, 300);
  int sets = 0, computes = 0;
  for (int k = 0; k < n; k++) {
    const auto &t = pick();
    switch (c.u(14)) {
      case 0:
        a.update_params(t);
        cfg = t;
        ops += "update ";
        sets++;
        break;
      case 1:
        a.set_gains(t.Kp_gains, t.Ki_gains, t.Kd_gains);
        cfg.Kp_gains = t.Kp_gains;
        cfg.Ki_gains = t.Ki_gains;
        cfg.Kd_gains = t.Kd_gains;
        ops += "gains ";
        sets++;
        break;
      case 2: a.set_kp(cfg.Kp_gains = t.Kp_gains); ops += "kp "; sets++; break;
      case 3: a.set_ki(cfg.Ki_gains = t.Ki_gains); ops += "ki "; sets++; break;
      case 4: a.set_kd(cfg.Kd_gains = t.Kd_gains); ops += "kd "; sets++; break;
      case 5: a.set_anti_windup(cfg.antiwindup_cte = t.antiwindup_cte); ops += "windup "; sets++; break;
      case 6: a.set_alpha(cfg.alpha = t.alpha); ops += "alpha "; sets++; break;
      case 7: a.set_reset_integral_saturation_flag(cfg.reset_integral_flag = c.u(2)); ops += "flag "; sets++; break;
      case 8:
      case 9: {
        P up = t.upper_output_saturation, lo = t.lower_output_saturation;
        if (up == P(0) && lo == P(0)) up = P(1), lo = P(-1);
        bool bad = c.chance(1, 5);
        if (bad) {
          if (c.u(2)) std::swap(up, lo);
          else up = lo;
        }
        a.set_output_saturation(up, lo);
        limits(up, lo);
        ops += bad ? "bad-limits " : "limits ";
        sets++;
        break;
      }
      case 10:
        a.disable_output_saturation();
        limits(P(0), P(0));
        ops += "unlimited ";
        sets++;
        break;
      case 11:
        a.reset_controller();
        ref.restart();
        ops += "reset ";
        break;
      case 12: {
        Pid b(a), f(a.get_params(), false), h(cfg, false), f2(f);
        b.reset_controller();
        drive1<P>(c, b, &f, "reset copy against rebuilt after " + ops, 1);
        drive1<P>(c, f2, &h, "rebuilt against asked after " + ops, 1);
        c.cls("rebuilt");
        break;
      }
      default: {
        int steps = c.range(1, 3);
        for (int q = 0; q < steps; q++) {
          e       = refpid::error<P, 1>(c, e, true);
          P dt    = refpid::step_time<P>(c);
          de[0]   = P(c.sreal(50));
          bool ed = c.chance(1, 3);
          P out   = ed ? a.compute_control(dt, e[0], de[0]) : a.compute_control(dt, e[0]);
          if (!follow) continue;
          ref.template step<Eigen::Matrix<P, 1, 1>>(double(dt), e, ed ? &de : nullptr);
          if (ref.ambiguous) {
            follow = false;
            c.cls("reference stopped at a rounding-dependent branch");
            continue;
          }
          close<P>(c, double(out), ref.out[0], "output after " + ops);
          computes++;
        }
        ops += "compute ";
      }
    }
    sync(a);
  }
  c.note("ops", ops);
  if (sets && computes) c.nontrivial();
}
static Reg a("lifecycle<double,3>", lifecycle<double, 3>, 3);
static Reg b("lifecycle<float,3>", lifecycle<float, 3>, 2);
static Reg d("lifecycle<double,1>", lifecycle<double, 1>, 1);
static Reg e("lifecycle1<double>", lifecycle1<double>, 2);
static Reg f("lifecycle1<float>", lifecycle1<float>, 1);
static Reg g("machine<double,3>", machine<double, 3>, 3);
static Reg h("machine<float,3>", machine<float, 3>, 2);
static Reg i("machine<double,1>", machine<double, 1>, 1);
static Reg j("machine1<double>", machine1<double>, 2);
static Reg k("machine1<float>", machine1<float>, 1);
