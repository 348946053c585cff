// I02: white noise with the configured variance, random-walk bias with the
// configured intensity, both reproducible from the seed.
#include "imu_simulator/imu.hpp"
#include "refsim.hpp"
#include "stats.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
imu::IMUParams<P> params(Ctx &c, bool positive) {
  imu::IMUParams<P> p;
  auto v = [&](double lo, double hi) { return P(positive ? c.logpos(lo, hi) : c.zlogpos(lo, hi)); };
  p.gyro_noise_var                 = v(1e-6, 10);
  p.accel_noise_var                = v(1e-6, 10);
  p.gyro_bias_noise_autocorr_time  = v(1e-6, 10);
  p.accel_bias_noise_autocorr_time = v(1e-6, 10);
  p.imu_orientation                = gen::quat<P>(c);
  p.seed                           = gen::seed(c);
  return p;
}

template <typename P>
struct Sample {
  gen::V3<P> gyro, acc, bg, ba;
};
template <typename P>
Sample<P> read(const imu::IMU<P> &u) {
  Sample<P> s;
  u.get_measurement(s.gyro, s.acc);
  u.get_bias(s.bg, s.ba);
  return s;
}
template <typename P>
bool same(const Sample<P> &a, const Sample<P> &b) {
  return a.gyro == b.gyro && a.acc == b.acc && a.bg == b.bg && a.ba == b.ba;
}

// same seed, other variances and time steps: the normalised noise and bias
// increments are the same numbers
template <typename P>
void scaling(Ctx &c) {
  using V = gen::V3<P>;
  auto p = params<P>(c, true), q = params<P>(c, true);
  q.seed = p.seed;
  imu::IMU<P> a(p), b(q), twin(p);
  auto ini = read(a);
  c.check(same(ini, read(twin)), "same seed, different initial bias");
  const double eps = sizeof(P) == 4 ? 1.2e-7 : 2.3e-16;
  auto eqz         = [&](const V &x, double sx, double mx, const V &y, double sy, double my, const char *what) {
    for (int i = 0; i < 3; i++)
      c.close(double(x[i]) / sx, double(y[i]) / sy,
              60 * eps * (std::fabs(double(x[i]) / sx) + mx / sx + my / sy + 1), what);
  };
  {
    auto sb = read(b);
    eqz(ini.bg, std::sqrt(double(p.gyro_noise_var)), 0, sb.bg, std::sqrt(double(q.gyro_noise_var)), 0, "initial gyro bias");
    eqz(ini.ba, std::sqrt(double(p.accel_noise_var)), 0, sb.ba, std::sqrt(double(q.accel_noise_var)), 0, "initial accel bias");
  }
  int n = c.len(1, 6, 200);
  c.note("seed", p.seed);
  c.note("gyro var", p.gyro_noise_var);
  c.note("accel var", p.accel_noise_var);
  c.note("gyro walk", p.gyro_bias_noise_autocorr_time);
  c.note("accel walk", p.accel_bias_noise_autocorr_time);
  c.note("n", n);
  for (int k = 0; k < n; k++) {
    if (c.chance(1, 3)) {
      auto t = params<P>(c, true);
      q.gyro_noise_var = t.gyro_noise_var;
      q.accel_noise_var = t.accel_noise_var;
      b.set_noise_variances(q.gyro_noise_var, q.accel_noise_var);
      if (c.chance(1, 2)) {
        q.gyro_bias_noise_autocorr_time = t.gyro_bias_noise_autocorr_time;
        q.accel_bias_noise_autocorr_time = t.accel_bias_noise_autocorr_time;
        if (c.chance(1, 2)) {
          b.set_bias_autocorrelation_time(q.gyro_bias_noise_autocorr_time, q.accel_bias_noise_autocorr_time);
        } else {
          b.set_bias(gen::vec<P>(c, 2), gen::vec<P>(c, 2), q.gyro_bias_noise_autocorr_time, q.accel_bias_noise_autocorr_time);
        }
      }
      c.cls("reconfigured");
    }
    if (c.chance(1, 4)) {
      b.reset();
      auto s = read(b);
      c.check(s.gyro == V::Zero() && s.acc == V::Zero() && s.bg == V::Zero() && s.ba == V::Zero(), "reset");
      c.cls("reset");
    }
    if (c.chance(1, 4)) {
      // no elapsed time: no draw either
      auto s = read(b);
      b.update(c.u(2) ? P(0) : P(-0.01), gen::vec<P>(c, 2), gen::vec<P>(c, 2));
      c.check(same(s, read(b)), "update without elapsed time");
      c.cls("dt <= 0");
    }
    P vg, va;
    b.get_variances(vg, va);
    c.check(vg == q.gyro_noise_var && va == q.accel_noise_var, "get_variances");
    V f1 = gen::vec<P>(c, 20), w1 = gen::vec<P>(c, 20), f2 = gen::vec<P>(c, 20), w2 = gen::vec<P>(c, 20);
    P d1 = P(c.logpos(1e-4, c.u(6) ? 1 : 1e3)), d2 = P(c.logpos(1e-4, c.u(6) ? 1 : 1e3));
    auto pa = read(a), pb = read(b);
    a.update(d1, f1, w1);
    twin.update(d1, f1, w1);
    b.update(d2, f2, w2);
    auto sa = read(a), sb = read(b);
    c.check(same(sa, read(twin)), "same seed and history, different readings");
    auto noise = [&](const V &m, const Eigen::Quaternion<P> &o, const V &x, const V &bias, double &mag) {
      V3 r = irotate(quat(o), v3(x)) + v3(bias);
      V out;
      mag = 0;
      for (int i = 0; i < 3; i++) {
        mag    = std::max(mag, double(r[i].m) + std::fabs(double(m[i])));
        out[i] = P(double((long double)(m[i]) - r[i].v));
      }
      return out;
    };
    double m1, m2;
    V n1 = noise(sa.gyro, p.imu_orientation, w1, sa.bg, m1), n2 = noise(sb.gyro, q.imu_orientation, w2, sb.bg, m2);
    eqz(n1, std::sqrt(double(p.gyro_noise_var)), m1, n2, std::sqrt(double(q.gyro_noise_var)), m2, "gyro noise does not scale with the standard deviation");
    n1 = noise(sa.acc, p.imu_orientation, f1, sa.ba, m1);
    n2 = noise(sb.acc, q.imu_orientation, f2, sb.ba, m2);
    eqz(n1, std::sqrt(double(p.accel_noise_var)), m1, n2, std::sqrt(double(q.accel_noise_var)), m2, "accel noise does not scale with the standard deviation");
    V i1 = sa.bg - pa.bg, i2 = sb.bg - pb.bg;
    eqz(i1, std::sqrt(double(p.gyro_bias_noise_autocorr_time) * double(d1)), double(sa.bg.norm() + pa.bg.norm()), i2,
        std::sqrt(double(q.gyro_bias_noise_autocorr_time) * double(d2)), double(sb.bg.norm() + pb.bg.norm()),
        "gyro bias step does not scale with sqrt(intensity dt)");
    i1 = sa.ba - pa.ba;
    i2 = sb.ba - pb.ba;
    eqz(i1, std::sqrt(double(p.accel_bias_noise_autocorr_time) * double(d1)), double(sa.ba.norm() + pa.ba.norm()), i2,
        std::sqrt(double(q.accel_bias_noise_autocorr_time) * double(d2)), double(sb.ba.norm() + pb.ba.norm()),
        "accel bias step does not scale with sqrt(intensity dt)");
  }
  c.nontrivial();
}

// a zero parameter silences exactly its own noise
template <typename P>
void zeros(Ctx &c) {
  using V = gen::V3<P>;
  auto p  = params<P>(c, true);
  bool z[4];
  for (bool &b : z) b = c.u(2);
  if (z[0]) p.gyro_noise_var = 0;
  if (z[1]) p.accel_noise_var = 0;
  if (z[2]) p.gyro_bias_noise_autocorr_time = 0;
  if (z[3]) p.accel_bias_noise_autocorr_time = 0;
  imu::IMU<P> u(p);
  auto s = read(u);
  c.check((s.bg == V::Zero()) == z[0] && (s.ba == V::Zero()) == z[1], "initial bias against the variance");
  u.reset();
  u.update(P(c.logpos(1e-3, 1)), V::Zero(), V::Zero());
  s = read(u);
  c.check((s.bg == V::Zero()) == z[2], "gyro bias walk against its intensity");
  c.check((s.ba == V::Zero()) == z[3], "accel bias walk against its intensity");
  c.check((s.gyro == s.bg) == z[0], "gyro noise against its variance");
  c.check((s.acc == s.ba) == z[1], "accel noise against its variance");
  c.note("zero", std::to_string(z[0]) + std::to_string(z[1]) + std::to_string(z[2]) + std::to_string(z[3]));
  if (z[0] || z[1] || z[2] || z[3]) c.nontrivial();
}

// seeding: equal seeds give equal sequences whatever happened before, different
// seeds give different ones
template <typename P>
void seeds(Ctx &c) {
  using V = gen::V3<P>;
  auto p = params<P>(c, true), q = p;
  q.seed = gen::other_seed(c, p.seed);
  imu::IMU<P> a(p), b(q);
  auto up = [&](imu::IMU<P> &u, P dt, const V &f, const V &w) {
    u.update(dt, f, w);
    return read(u);
  };
  V f = gen::vec<P>(c, 20), w = gen::vec<P>(c, 20);
  P dt = P(c.logpos(1e-3, 1));
  {
    imu::IMU<P> a2(a), b2(b);
    c.check(!same(read(a2), read(b2)), "different seeds, same initial bias");
    auto x = up(a2, dt, f, w), y = up(b2, dt, f, w);
    c.check(!(x.gyro - x.bg == y.gyro - y.bg), "different seeds, same noise");
    // a copy carries on as the original would
    c.check(same(up(a, dt, f, w), x), "a copy draws another sequence");
  }
  int h1 = c.range(0, 5), h2 = c.range(0, 5);
  for (int i = 0; i < h1; i++) up(a, dt, w, f);
  for (int i = 0; i < h2; i++) up(b, dt, f, w);
  int s = gen::seed(c);
  a.set_random_seed(s);
  b.set_random_seed(s);
  V bg = gen::vec<P>(c, 1), ba = gen::vec<P>(c, 1);
  a.set_bias(bg, ba, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
  b.set_bias(bg, ba, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
  int n = c.len(1, 4, 200);
  gen::V3<P> last = V::Zero();
  for (int i = 0; i < n; i++) {
    auto x = up(a, dt, f, w), y = up(b, dt, f, w);
    c.check(same(x, y), "same seed set, different readings");
    V z = x.gyro - x.bg;
    c.check(i == 0 || !(z == last), "noise repeats itself");
    last = z;
  }
  c.note("seed", s);
  c.note("history", std::to_string(h1) + "/" + std::to_string(h2));
  c.nontrivial();
}

// long runs: 12 normalised channels, zero mean, unit variance, uncorrelated
// with each other and in time
template <typename P>
void statistics(Ctx &c, int n, int lags) {
  auto p = params<P>(c, true);
  p.imu_orientation = Eigen::Quaternion<P>::Identity();
  imu::IMU<P> u(p);
  P dt        = P(c.logpos(1e-3, 0.1));
  std::vector<std::array<double, 12>> z;
  double s[4] = {std::sqrt(double(p.gyro_noise_var)), std::sqrt(double(p.accel_noise_var)),
                 std::sqrt(double(p.gyro_bias_noise_autocorr_time) * double(dt)),
                 std::sqrt(double(p.accel_bias_noise_autocorr_time) * double(dt))};
  for (int k = 0; k < n; k++) {
    u.reset();  // keeps the bias small, so that the noise can be separated
    u.update(dt, gen::V3<P>::Zero(), gen::V3<P>::Zero());
    auto r = read(u);
    std::array<double, 12> x;
    for (int i = 0; i < 3; i++) {
      size_t j = size_t(i);
      x[j]     = double(r.gyro[i] - r.bg[i]) / s[0];
      x[3 + j] = double(r.acc[i] - r.ba[i]) / s[1];
      x[6 + j] = double(r.bg[i]) / s[2];
      x[9 + j] = double(r.ba[i]) / s[3];
    }
    z.push_back(x);
  }
  stats::white(c, z, lags, false);
  c.note("seed", p.seed);
  c.note("gyro var", p.gyro_noise_var);
  c.nontrivial();
}
static Reg a("scaling<double>", scaling<double>, 3000);
static Reg b("scaling<float>", scaling<float>, 1000);
static Reg d("zeros<double>", zeros<double>, 1000);
static Reg e("zeros<float>", zeros<float>, 500);
static Reg f("seeds<double>", seeds<double>, 2000);
static Reg g("seeds<float>", seeds<float>, 1000);
template <typename P>
void shorter(Ctx &c) {
  statistics<P>(c, 2000, 3);
}
template <typename P>
void tails(Ctx &c) {
  statistics<P>(c, 15000, 1);
}
static Reg h("statistics<double>", shorter<double>, 20);
static Reg i("statistics<float>", shorter<float>, 10);
static Reg k("tails<double>", tails<double>, 3);
