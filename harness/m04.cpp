// M04: process noise: white, zero mean, variance correlation/dt, reproducible
// from the seed, absent when disabled.
#include "refsim.hpp"
#include "stats.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void laws(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  auto p      = gen::model_params<P, N>(c, false);
  auto q      = p;
  p.force_process_noise_auto_correlation  = P(c.logpos(1e-6, 100));
  p.moment_process_noise_auto_correlation = P(c.logpos(1e-8, 10));
  q.force_process_noise_auto_correlation  = P(c.logpos(1e-6, 100));
  q.moment_process_noise_auto_correlation = P(c.logpos(1e-8, 10));
  int seed = gen::seed(c);
  c.note("seed", seed);
  c.note("force corr", p.force_process_noise_auto_correlation);
  c.note("moment corr", p.moment_process_noise_auto_correlation);
  Model a(p, seed), twin(p, seed), scaled(q, seed), other(p, gen::other_seed(c, seed));
  if (c.chance(1, 4)) {
    Model t(q, seed);
    t.update_params(p);  // correlations in force are the current ones
    a = t;
    c.cls("correlation set by update_params");
  }
  const double tol = sizeof(P) == 4 ? 2e-5 : 1e-12;
  int steps        = c.len(1, 6, 300);
  bool differs     = false;
  c.check(twin.get_stochastic_force().norm() == P(0) && twin.get_stochastic_moment().norm() == P(0),
          "noise before the first step");
  for (int k = 0; k < steps; k++) {
    double dt1 = c.logpos(1e-5, c.u(6) ? 1 : 1e3), dt2 = c.logpos(1e-5, c.u(6) ? 1 : 1e3);
    bool asfloat = c.chance(1, 3);
    if (asfloat) {
      a.set_stochastic_noise(float(dt1));
      twin.set_stochastic_noise(float(dt1));
    } else {
      a.set_stochastic_noise(dt1);
      twin.set_stochastic_noise(dt1);
    }
    scaled.set_stochastic_noise(dt2);
    other.set_stochastic_noise(dt1);
    c.check(a.get_stochastic_force() == twin.get_stochastic_force() &&
                a.get_stochastic_moment() == twin.get_stochastic_moment(),
            "same seed, different noise");
    double sf  = std::sqrt(double(p.force_process_noise_auto_correlation) / dt1),
           sm  = std::sqrt(double(p.moment_process_noise_auto_correlation) / dt1),
           sf2 = std::sqrt(double(q.force_process_noise_auto_correlation) / dt2),
           sm2 = std::sqrt(double(q.moment_process_noise_auto_correlation) / dt2);
    double t = asfloat ? 1e-5 : tol;
    for (int i = 0; i < 3; i++) {
      double z1 = double(a.get_stochastic_force()[i]) / sf, z2 = double(scaled.get_stochastic_force()[i]) / sf2;
      double m1 = double(a.get_stochastic_moment()[i]) / sm, m2 = double(scaled.get_stochastic_moment()[i]) / sm2;
      c.close(z1, z2, t * (std::fabs(z2) + 1e-3), "noise force does not scale with sqrt(correlation/dt)");
      c.close(m1, m2, t * (std::fabs(m2) + 1e-3), "noise moment does not scale with sqrt(correlation/dt)");
      c.check(std::fabs(z1) < 9 && std::fabs(m1) < 9, "noise amplitude");

    }
    differs |= a.get_stochastic_force() != other.get_stochastic_force();
    if (c.chance(1, 4)) {
      // disabled, or a step without duration: none
      switch (c.u(4)) {
        case 0: a.disable_stochastic_noise(); break;
        case 1: a.set_stochastic_noise(0.0); break;
        case 2: a.set_stochastic_noise(-c.logpos(1e-6, 10)); break;
        default: a.set_stochastic_noise(-float(c.logpos(1e-6, 10)));
      }
      c.check(a.get_stochastic_force() == gen::V3<P>::Zero() && a.get_stochastic_moment() == gen::V3<P>::Zero(),
              "noise while disabled");
      c.cls("disabled");
      a = twin;  // a copy carries on with the same sequence
    }
  }
  c.check(differs, "different seeds, same noise");
  c.nontrivial();
}

// a history with interruptions: equal for equal seeds, never the same draw again,
// and never that of another seed
template <typename P, int N>
void interrupted(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  auto p      = gen::model_params<P, N>(c, false);
  p.force_process_noise_auto_correlation  = P(c.logpos(1e-4, 100));
  p.moment_process_noise_auto_correlation = P(c.logpos(1e-4, 100));
  int seed = gen::seed(c);
  Model a(p, seed), b(p, seed), o(p, gen::other_seed(c, seed));
  std::vector<std::array<double, 3>> seen;
  int n = c.len(2, 12, 300), stops = 0;
  for (int k = 0; k < n; k++) {
    auto all = [&](auto f) {
      f(a);
      f(b);
      f(o);
    };
    if (c.chance(1, 3)) {
      double t = c.logpos(1e-6, 10);
      switch (c.u(6)) {
        case 0:
        case 1: all([](Model &m) { m.disable_stochastic_noise(); }); break;
        case 2: all([](Model &m) { m.set_stochastic_noise(0.0); }); break;
        case 3: all([&](Model &m) { m.set_stochastic_noise(-t); }); break;
        case 4: all([&](Model &m) { m.update_params(p); }); break;
        default: {
          auto q         = gen::model_params<P, N>(c, false);
          q.vehicle_mass = P(-1);
          all([&](Model &m) { m.update_params(q); });
        }
      }
      stops++;
    }
    double dt = c.logpos(1e-4, 1);
    all([&](Model &m) { m.set_stochastic_noise(dt); });
    c.check(a.get_stochastic_force() == b.get_stochastic_force() && a.get_stochastic_moment() == b.get_stochastic_moment(),
            "same seed and history, different noise");
    c.check(!(a.get_stochastic_force() == o.get_stochastic_force()) && !(a.get_stochastic_moment() == o.get_stochastic_moment()),
            "another seed, same noise");
    std::array<double, 3> z;
    for (int i = 0; i < 3; i++) z[size_t(i)] = double(a.get_stochastic_force()[i]) * std::sqrt(dt);
    for (auto &y : seen) {
      double g = 0, m = 0;
      for (size_t i = 0; i < 3; i++) {
        g = std::max(g, std::fabs(y[i] - z[i]));
        m = std::max(m, std::fabs(z[i]));
      }
      c.check(g > (sizeof(P) == 4 ? 1e-6 : 1e-12) * m, "the noise sequence starts over");
    }
    seen.push_back(z);
  }
  c.note("seed", seed);
  c.note("interruptions", stops);
  if (stops) c.nontrivial();
}

// zero correlation: no noise of that kind
template <typename P, int N>
void zero(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  auto p      = gen::model_params<P, N>(c, false);
  bool f = c.u(2), m = c.u(2);
  p.force_process_noise_auto_correlation  = f ? P(c.logpos(1e-6, 100)) : P(0);
  p.moment_process_noise_auto_correlation = m ? P(c.logpos(1e-6, 100)) : P(0);
  Model a(p, int(c.u(100000)));
  for (int k = 0; k < 3; k++) {
    a.set_stochastic_noise(c.logpos(1e-5, 1));
    c.check((a.get_stochastic_force().norm() > P(0)) == f, "force noise against its correlation");
    c.check((a.get_stochastic_moment().norm() > P(0)) == m, "moment noise against its correlation");
  }
  if (f != m) c.nontrivial();
}

// statistics of a long run: zero mean, unit variance after scaling, axes,
// force/moment and consecutive samples uncorrelated
template <typename P>
void statistics(Ctx &c, int n, int lags) {
  using Model = multirotor::model::Model<P, 4>;
  auto p      = gen::model_params<P, 4>(c, false);
  p.force_process_noise_auto_correlation  = P(c.logpos(1e-4, 10));
  p.moment_process_noise_auto_correlation = P(c.logpos(1e-4, 10));
  int seed = c.u(2) ? gen::seed(c) : 1 + int(c.u(10000000));
  Model a(p, seed);
  double dt   = c.logpos(1e-4, 0.1);
  bool vary   = c.chance(1, 2);
  std::vector<std::array<double, 6>> z;
  z.reserve(n);
  for (int k = 0; k < n; k++) {
    double h = vary ? dt * (1 + k % 7) : dt;
    a.set_stochastic_noise(h);
    std::array<double, 6> x;
    for (int i = 0; i < 3; i++) {
      x[size_t(i)]     = double(a.get_stochastic_force()[i]) / std::sqrt(double(p.force_process_noise_auto_correlation) / h);
      x[size_t(i + 3)] = double(a.get_stochastic_moment()[i]) / std::sqrt(double(p.moment_process_noise_auto_correlation) / h);
    }
    z.push_back(x);
  }
  stats::white(c, z, lags, sizeof(P) == 8);
  c.note("seed", seed);
  c.note("dt", dt);
  c.nontrivial();
}
template <typename P>
void shorter(Ctx &c) {
  c.cls("3000-sample run");
  statistics<P>(c, 3000, 3);
}
template <typename P>
void tails(Ctx &c) {
  c.cls("20000-sample run");
  statistics<P>(c, 20000, 1);
}
static Reg a("laws<double,4>", laws<double, 4>, 200);
static Reg b("laws<float,4>", laws<float, 4>, 100);
static Reg d("laws<double,6>", laws<double, 6>, 100);
static Reg i1("interrupted<double,4>", interrupted<double, 4>, 100);
static Reg i2("interrupted<float,6>", interrupted<float, 6>, 50);
static Reg z("zero<double,4>", zero<double, 4>, 40);
static Reg zz("zero<float,6>", zero<float, 6>, 40);
static Reg e("statistics<double>", shorter<double>, 3);
static Reg f("statistics<float>", shorter<float>, 3);
static Reg g("tails<double>", tails<double>, 1);
