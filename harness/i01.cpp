// I01: what the IMU reports: the angular velocity and the specific force of the
// body in the sensor frame plus the current bias, over histories of updates,
// resets and reconfigurations.
#include "imu_simulator/imu.hpp"
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P>
void readings(Ctx &c, const imu::IMU<P> &u, gen::V3<P> &gyro, gen::V3<P> &acc) {
  u.get_measurement(gyro, acc);
  auto pr = u.get_measurement();
  gen::V3<P> g2, a2;
  u.get_measurement_gyro(g2);
  u.get_measurement_accel(a2);
  c.check(pr.first == gyro && pr.second == acc && g2 == gyro && a2 == acc && u.get_measurement_gyro() == gyro &&
              u.get_measurement_accel() == acc,
          "the reading accessors disagree");
}

// no white noise, bias constant: the reading is deterministic
template <typename P>
void model(Ctx &c) {
  using V = gen::V3<P>;
  Eigen::Quaternion<P> q = gen::quat<P>(c);
  int seed = gen::seed(c);
  int how  = int(c.u(4));
  imu::IMUParams<P> prm;
  if (how != 3) prm.imu_orientation = q;
  prm.seed = seed;
  imu::IMU<P> u = how == 0 ? imu::IMU<P>(0, 0, 0, 0, q, seed) : imu::IMU<P>(prm);
  if (how == 2) {
    imu::IMU<P> t(0, 0, 0, 0, gen::quat<P>(c), seed);
    t.set_orientation(q);
    u = t;
  }
  if (how == 3) q = Eigen::Quaternion<P>::Identity();
  c.cls("constructed " + std::to_string(how));
  V bg = V::Zero(), ba = V::Zero(), gyro, acc, x, y;
  readings(c, u, gyro, acc);
  c.check(gyro == V::Zero() && acc == V::Zero(), "reading before the first update");
  u.get_bias(x, y);
  c.check(x == V::Zero() && y == V::Zero(), "initial bias without noise");
  int n = c.len(1, 10, 300);
  c.note("mount", gen::strq(q));
  bool real = false;
  for (int k = 0; k < n; k++) {
    switch (c.u(8)) {
      case 0: {
        q = gen::quat<P>(c);
        u.set_orientation(q);
        c.cls("set_orientation");
        break;
      }
      case 1: {
        bg = gen::vec<P>(c, 5);
        ba = gen::vec<P>(c, 5);
        u.set_bias(bg, ba, 0, 0);
        c.cls("set_bias");
        c.note("bias", gen::str(bg) + gen::str(ba));
        break;
      }
      case 2: {
        u.reset();
        bg.setZero();
        ba.setZero();
        readings(c, u, gyro, acc);
        c.check(gyro == V::Zero() && acc == V::Zero(), "reading after reset");
        c.cls("reset");
        break;
      }
      case 3: {
        // no time elapsed: nothing changes
        V g0, a0;
        readings(c, u, g0, a0);
        u.update(c.u(2) ? P(0) : P(-c.logpos(1e-6, 10)), gen::vec<P>(c, 50), gen::vec<P>(c, 50));
        readings(c, u, gyro, acc);
        c.check(gyro == g0 && acc == a0, "update without elapsed time changed the reading");
        c.cls("dt <= 0");
        break;
      }
      default: {
        V f = gen::vec<P>(c, 100), w = gen::vec<P>(c, 40);
        P dt = P(c.logpos(c.u(4) == 3 ? 1e-12 : 1e-6, 2));
        u.update(dt, f, w);
        readings(c, u, gyro, acc);
        close3<P>(c, gyro, irotate(quat(q), v3(w)) + v3(bg), "gyroscope");
        close3<P>(c, acc, irotate(quat(q), v3(f)) + v3(ba), "accelerometer");
        real |= f.norm() > 0 && w.norm() > 0;
        c.note("update", gen::str(f) + gen::str(w) + gen::str(gyro) + gen::str(acc));
      }
    }
    u.get_bias(x, y);
    c.check(x == bg && y == ba, "bias");
  }
  if (real) c.nontrivial();
}

// with noise: the signal enters additively and rotated, whatever the noise is:
// two sensors with the same seed and configuration differ by the rotated
// difference of their inputs
template <typename P>
void additive(Ctx &c) {
  using V = gen::V3<P>;
  imu::IMUParams<P> prm;
  prm.gyro_noise_var                 = P(c.zlogpos(1e-6, 1));
  prm.accel_noise_var                = P(c.zlogpos(1e-6, 1));
  prm.gyro_bias_noise_autocorr_time  = P(c.zlogpos(1e-6, 1));
  prm.accel_bias_noise_autocorr_time = P(c.zlogpos(1e-6, 1));
  prm.imu_orientation                = gen::quat<P>(c);
  prm.seed                           = gen::seed(c);
  imu::IMU<P> a(prm), b(prm.gyro_noise_var, prm.accel_noise_var, prm.gyro_bias_noise_autocorr_time,
                        prm.accel_bias_noise_autocorr_time, prm.imu_orientation, prm.seed);
  c.note("mount", gen::strq(prm.imu_orientation));
  c.note("gyro var", prm.gyro_noise_var);
  c.note("accel var", prm.accel_noise_var);
  int n = c.len(1, 6, 200);
  for (int k = 0; k < n; k++) {
    V f1 = gen::vec<P>(c, 50), f2 = gen::vec<P>(c, 50), w1 = gen::vec<P>(c, 20), w2 = gen::vec<P>(c, 20);
    P dt = P(c.logpos(1e-4, 1));
    a.update(dt, f1, w1);
    b.update(dt, f2, w2);
    V g1, g2, a1, a2, x1, x2, y1, y2;
    readings(c, a, g1, a1);
    readings(c, b, g2, a2);
    V dg = g1 - g2, da = a1 - a2;
    auto scale = [&](V3 v, const V &p, const V &q) {
      for (int i = 0; i < 3; i++) v[i].m += double(p.norm()) + double(q.norm());
      return v;
    };
    Q q = quat(prm.imu_orientation);
    close3<P>(c, dg, scale(irotate(q, v3(w1) - v3(w2)), g1, g2), "gyroscope difference");
    close3<P>(c, da, scale(irotate(q, v3(f1) - v3(f2)), a1, a2), "accelerometer difference");
    a.get_bias(x1, y1);
    b.get_bias(x2, y2);
    c.check(x1 == x2 && y1 == y2, "the bias depends on the motion");
  }
  c.nontrivial();
}
static Reg a("model<double>", model<double>, 3);
static Reg b("model<float>", model<float>, 2);
static Reg d("additive<double>", additive<double>, 2);
static Reg e("additive<float>", additive<float>, 1);
