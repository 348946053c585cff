// M05: aerodynamic drag and moment oppose the motion, quadratically.
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

template <typename P, int N>
void aero(Ctx &c) {
  using Model = multirotor::model::Model<P, N>;
  using Vec   = gen::V3<P>;
  auto p      = gen::model_params<P, N>(c, false);
  bool psd    = c.chance(1, 2);
  if (psd) p.vehicle_aero_moment_coefficient = c.u(4) == 0 ? gen::M3<P>(gen::M3<P>::Zero()) : gen::spd<P>(c, 1e-6, 10);
  Model m(p);
  Vec v = gen::vec<P>(c, 300), w = gen::vec<P>(c, 100);
  double k = p.vehicle_drag_coefficient;
  c.note("k", k);
  c.note("v", gen::str(v));
  c.note("w", gen::str(w));
  auto fd = refsim::drag(k, v3(v));
  auto ma = refsim::aero(m3(p.vehicle_aero_moment_coefficient), v3(w));
  Vec f = m.get_drag_force(v), fs = Model::get_drag_force(P(k), v), t = m.get_aerodynamic_moment(w),
      ts = Model::get_aerodynamic_moment(p.vehicle_aero_moment_coefficient, w);
  close_each<P>(c, f, fd, "drag force");
  close_each<P>(c, fs, fd, "drag force (static)");
  close3<P>(c, t, ma, "aerodynamic moment");
  close3<P>(c, ts, ma, "aerodynamic moment (static)");
  // dissipative
  for (int i = 0; i < 3; i++) c.check(double(f[i]) * double(v[i]) <= 0, "drag pushes along the motion");
  if (psd) {
    double pw = 0, mg = 0;
    for (int i = 0; i < 3; i++) {
      pw += double(t[i]) * double(w[i]);
      mg += std::fabs(double(t[i]) * double(w[i]));
    }
    c.check(pw <= mg * (sizeof(P) == 4 ? 1e-4 : 1e-12), "aerodynamic moment drives the rotation");
    c.cls("positive semidefinite coefficient");
  }
  // odd and quadratic
  double s = c.uniform(-3, 3);
  Vec v2 = v * P(s), w2 = w * P(s);
  Vec f2 = m.get_drag_force(v2), t2 = m.get_aerodynamic_moment(w2);
  double q   = s * std::fabs(s);
  double tol = sizeof(P) == 4 ? 1e-4 : 1e-12;
  for (int i = 0; i < 3; i++) {
    c.close(double(f2[i]), q * double(f[i]), tol * std::fabs(q * double(f[i])) + 1e-30, "drag is not quadratic");
    c.close(double(t2[i]), q * double(t[i]), tol * (std::fabs(q) * std::max(std::max(ma.x.m, ma.y.m), ma.z.m)) + 1e-30,
            "aerodynamic moment is not quadratic");
  }
  if (v.norm() > 0 && w.norm() > 0 && k > 0) c.nontrivial();
}
static Reg a("aero<double,4>", aero<double, 4>, 3);
static Reg b("aero<float,4>", aero<float, 4>, 2);
static Reg d("aero<double,6>", aero<double, 6>, 1);
