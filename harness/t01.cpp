// T01: the text forms of the state and of the odometry carry every variable, in
// the documented order, once.
#include "imu_simulator/inertial_odometry.hpp"
#include "refsim.hpp"
using namespace pbt;
using namespace ref;

static std::vector<double> csv(Ctx &c, const std::string &t) {
  std::vector<double> v;
  const char *s = t.c_str();
  while (true) {
    char *e  = nullptr;
    double x = std::strtod(s, &e);
    c.check(e != s, "empty or non-numeric field in: " + t);
    v.push_back(x);
    if (*e == '\0') break;
    c.check(*e == ',', "separator in: " + t);
    s = e + 1;
  }
  return v;
}
static double labelled(Ctx &c, const std::string &t, const std::string &label) {
  size_t n = 0, at = std::string::npos;
  std::string key = label + ": ";
  for (size_t p = t.find(key); p != std::string::npos; p = t.find(key, p + 1)) {
    n++;
    at = p;
  }
  c.check(n == 1, "label " + label + " must appear once");
  return std::strtod(t.c_str() + at + key.size(), nullptr);
}

// the value parsed from text with enough digits is the value itself
template <typename P>
struct Cmp {
  Ctx &c;
  double rel;
  void operator()(double got, double want, const char *what) const {
    c.close(got, want, rel * std::fabs(want), what);
  }
};

template <typename P>
void attitude(Ctx &c, const double *rpy, const Eigen::Quaternion<P> &q, double rel) {
  const double eps = std::max(sizeof(P) == 4 ? 1.2e-7 : 2.3e-16, rel);
  double sinp = 2 * (double(q.w()) * double(q.y()) - double(q.z()) * double(q.x()));
  double cosp = std::sqrt(std::max(0.0, 1 - sinp * sinp));
  c.close(std::sin(rpy[1]), sinp, 50 * eps, "pitch");
  if (cosp * cosp > 1e3 * eps) {
    auto b      = gen::rpy<double>(rpy[0], rpy[1], rpy[2]);
    double g[4] = {b.w(), b.x(), b.y(), b.z()}, x[4] = {double(q.w()), double(q.x()), double(q.y()), double(q.z())};
    double dp   = 0;
    for (int i = 0; i < 4; i++) dp += g[i] * x[i];
    for (int i = 0; i < 4; i++) c.close(g[i] * (dp < 0 ? -1 : 1), x[i], 50 * eps / (cosp * cosp), "attitude");
  }
}

struct CoutCapture {
  std::ostringstream o;
  std::streambuf *old;
  std::ios fmt{nullptr};
  explicit CoutCapture(int prec) {
    fmt.copyfmt(std::cout);
    old = std::cout.rdbuf(o.rdbuf());
    std::cout << std::setprecision(prec);
  }
  ~CoutCapture() {
    std::cout.rdbuf(old);
    std::cout.copyfmt(fmt);
  }
};

template <typename P, int N>
void state(Ctx &c) {
  namespace st = multirotor::state;
  auto p       = gen::model_params<P, N>(c, false);
  auto s       = gen::state<P, N>(c, p);
  if (c.u(4) == 0) {  // of any size
    auto big = [&] { return c.u(2) ? P(1) : P(c.logpos(1e-15, 1e15)); };
    s.kinematics.position *= big();
    s.kinematics.linear_velocity *= big();
    s.kinematics.angular_velocity *= big();
    s.kinematics.linear_acceleration *= big();
    s.kinematics.angular_acceleration *= big();
    s.dynamics.force *= big();
    s.dynamics.torque *= big();
    s.actuators.motor_angular_velocity *= big();
    s.actuators.motor_angular_acceleration *= big();
    c.cls("very large or small values");
  }
  const auto q = s.kinematics.orientation;
  if (c.u(4) == 0) {  // of any length: the same angles
    s.kinematics.orientation.coeffs() *= P(c.logpos(0.1, 10));
    c.cls("attitude not normalised");
  }
  int prec     = c.u(4) == 0 ? 6 : std::numeric_limits<P>::max_digits10;
  double rel   = prec == 6 ? 6e-6 : (sizeof(P) == 4 ? 1e-8 : 0.0);
  Cmp<P> eq{c, rel};
  auto text = [&](auto &&x) {
    std::ostringstream o;
    o << std::setprecision(prec) << x;
    return o.str();
  };
  std::string t = text(s);
  c.note("csv", t);
  auto v = csv(c, t);
  c.check(int(v.size()) == 24 + 2 * N, "number of fields");
  const auto &k = s.kinematics;
  for (int i = 0; i < 3; i++) {
    size_t j = size_t(i);
    eq(v[j], double(k.position[i]), "position");
    eq(v[6 + j], double(k.linear_velocity[i]), "linear velocity");
    eq(v[9 + j], double(k.angular_velocity[i]), "angular velocity");
    eq(v[12 + j], double(k.linear_acceleration[i]), "linear acceleration");
    eq(v[15 + j], double(k.angular_acceleration[i]), "angular acceleration");
    eq(v[18 + j], double(s.dynamics.force[i]), "force");
    eq(v[21 + j], double(s.dynamics.torque[i]), "torque");
  }
  attitude<P>(c, &v[3], q, rel);
  for (int i = 0; i < N; i++) {
    eq(v[size_t(24 + i)], double(s.actuators.motor_angular_velocity[i]), "motor speed");
    eq(v[size_t(24 + N + i)], double(s.actuators.motor_angular_acceleration[i]), "motor acceleration");
  }
  // the parts print as the whole does
  std::string parts = text(s.kinematics) + "," + text(s.dynamics) + "," + text(s.actuators);
  c.check(parts == t, "whole differs from its parts");
  // labelled forms
  std::string lab;
  if (c.chance(1, 2)) {
    CoutCapture cap(prec);
    st::print_state(s);
    lab = cap.o.str();
    c.cls("print_state");
  } else {
    std::ostringstream o;
    o << std::setprecision(prec);
    st::internal::print_kinematics(o, s.kinematics) << " ";
    st::internal::print_dynamics(o, s.dynamics) << " ";
    st::internal::print_actuators(o, s.actuators);
    lab = o.str();
  }
  const char *ax[3] = {"_x", "_y", "_z"};
  double rpy[3]     = {labelled(c, lab, "orientation_roll"), labelled(c, lab, "orientation_pitch"),
                       labelled(c, lab, "orientation_yaw")};
  attitude<P>(c, rpy, q, rel);
  for (int i = 0; i < 3; i++) {
    auto L = [&](const char *n) { return labelled(c, lab, std::string(n) + ax[i]); };
    eq(L("position"), double(k.position[i]), "labelled position");
    eq(L("linear_velocity"), double(k.linear_velocity[i]), "labelled linear velocity");
    eq(L("angular_velocity"), double(k.angular_velocity[i]), "labelled angular velocity");
    eq(L("linear_acceleration"), double(k.linear_acceleration[i]), "labelled linear acceleration");
    eq(L("angular_acceleration"), double(k.angular_acceleration[i]), "labelled angular acceleration");
    eq(L("force"), double(s.dynamics.force[i]), "labelled force");
    eq(L("torque"), double(s.dynamics.torque[i]), "labelled torque");
  }
  for (int i = 0; i < N; i++) {
    std::string m = "motor_" + std::to_string(i);
    eq(labelled(c, lab, m + "_angular_velocity"), double(s.actuators.motor_angular_velocity[i]), "labelled motor speed");
    eq(labelled(c, lab, m + "_angular_acceleration"), double(s.actuators.motor_angular_acceleration[i]),
       "labelled motor acceleration");
  }
  c.cls(prec == 6 ? "default precision" : "full precision");
  c.nontrivial();
}

template <typename P>
void odometry(Ctx &c) {
  imu::InertialOdometry<P> io(P(c.u(2) ? 1.0 : c.uniform(0.05, 1)), gen::quat<P>(c));
  int n = c.range(0, 4);
  for (int i = 0; i < n; i++) io.update(gen::vec<P>(c, 20), gen::vec<P>(c, 40), P(c.logpos(1e-4, 0.5)));
  int prec   = c.u(4) == 0 ? 6 : std::numeric_limits<P>::max_digits10;
  double rel = prec == 6 ? 6e-6 : (sizeof(P) == 4 ? 1e-8 : 0.0);
  Cmp<P> eq{c, rel};
  std::ostringstream o, l;
  o << std::setprecision(prec) << io;
  l << std::setprecision(prec);
  print_state(l, io);
  c.note("csv", o.str());
  auto v = csv(c, o.str());
  c.check(v.size() == 15, "number of fields");
  std::string lab   = l.str();
  const char *ax[3] = {"_x", "_y", "_z"};
  for (int i = 0; i < 3; i++) {
    size_t j = size_t(i);
    auto L   = [&](const char *nm) { return labelled(c, lab, std::string(nm) + ax[i]); };
    eq(v[j], double(io.get_position()[i]), "position");
    eq(v[6 + j], double(io.get_linear_velocity()[i]), "linear velocity");
    eq(v[9 + j], double(io.get_angular_velocity()[i]), "angular velocity");
    eq(v[12 + j], double(io.get_linear_acceleration()[i]), "linear acceleration");
    eq(L("position"), double(io.get_position()[i]), "labelled position");
    eq(L("linear_velocity"), double(io.get_linear_velocity()[i]), "labelled linear velocity");
    eq(L("angular_velocity"), double(io.get_angular_velocity()[i]), "labelled angular velocity");
    eq(L("linear_acceleration"), double(io.get_linear_acceleration()[i]), "labelled linear acceleration");
  }
  attitude<P>(c, &v[3], io.get_orientation(), rel);
  double rpy[3] = {labelled(c, lab, "orientation_roll"), labelled(c, lab, "orientation_pitch"),
                   labelled(c, lab, "orientation_yaw")};
  attitude<P>(c, rpy, io.get_orientation(), rel);
  if (n) c.nontrivial();
}
static Reg a("state<double,4>", state<double, 4>, 2);
static Reg b("state<float,4>", state<float, 4>, 1);
static Reg d("state<double,6>", state<double, 6>, 2);
static Reg e("state<float,6>", state<float, 6>, 1);
static Reg f("odometry<double>", odometry<double>, 2);
static Reg g("odometry<float>", odometry<float>, 1);
