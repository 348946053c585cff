// Small property-based testing engine.
//
// A test case is a finite sequence of integer "choices".  Generators draw
// choices from a Source; in random mode the choices come from a seeded
// mt19937_64, in replay mode from a recorded list, in fuzz mode from the bytes
// libFuzzer supplies.  Shrinking edits the recorded list (delete blocks, zero,
// minimise values) and keeps an edit whenever the property still fails, so every
// generator shrinks without code of its own.  Choice 0 always means "simplest".
#ifndef VERIF_PBT_HPP_
#define VERIF_PBT_HPP_

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <time.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure : public std::runtime_error {
  explicit Failure(const std::string &m) : std::runtime_error(m) {}
};
struct Discard {};

class Source {
public:
  enum Mode { RANDOM, REPLAY };
  explicit Source(uint64_t seed) : mode_(RANDOM), rng_(seed) {}
  explicit Source(const std::vector<uint64_t> &v) : mode_(REPLAY), in_(v) {}

  // uniform in [0, bound)
  uint64_t draw(uint64_t bound) {
    uint64_t v = 0;
    if (bound > 1) {
      if (mode_ == RANDOM) {
        v = std::uniform_int_distribution<uint64_t>(0, bound - 1)(rng_);
      } else if (pos_ < in_.size()) {
        v = in_[pos_] < bound ? in_[pos_] : in_[pos_] % bound;
      }
    }
    pos_++;
    rec.push_back(v);
    if (rec.size() > 200000) throw Discard();
    return v;
  }
  std::vector<uint64_t> rec;

private:
  Mode mode_;
  std::mt19937_64 rng_{0};
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
};

class Ctx {
public:
  explicit Ctx(Source &s) : src(s) {}
  Source &src;
  bool verbose     = false;
  bool is_nontriv  = false;
  std::vector<std::string> notes;
  std::set<std::string> classes;
  std::map<std::string, std::string> findings;
  const std::set<std::string> *known = nullptr;
  uint64_t checks = 0;

  // ---- generators -------------------------------------------------------
  uint64_t u(uint64_t n) { return src.draw(n); }
  int range(int lo, int hi) { return lo + static_cast<int>(src.draw(uint64_t(hi - lo) + 1)); }
  // length of a history: mostly up to hi, sometimes five times that, rarely up to longest
  int len(int lo, int hi, int longest) {
    uint64_t k = src.draw(120);
    return range(lo, k == 119 ? longest : k >= 108 ? std::min(longest, 5 * hi) : hi);
  }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return src.draw(den) >= den - num; }
  // uniform fraction in [0,1); coarse or fine resolution
  double frac() {
    if (src.draw(4) == 0) return double(src.draw(17)) / 17.0;
    return double(src.draw(uint64_t(1) << 53)) / 9007199254740992.0;
  }
  // real number in [lo,hi], biased to zero / bounds / integers
  double real(double lo, double hi) {
    double simple = (lo <= 0 && hi >= 0) ? 0.0 : (lo > 0 ? lo : hi);
    switch (src.draw(12)) {
      case 0: return simple;
      case 1: return lo;
      case 2: return hi;
      case 3: {
        double a = std::ceil(lo), b = std::floor(hi);
        if (a > b) return simple;
        double n = std::min(b - a + 1, 1e6);
        double s = std::min(std::max(0.0, a), b);
        double v = s + double(src.draw(uint64_t(n)));
        if (v > b) v = a + (v - b - 1);
        return v;
      }
      default: return lo + (hi - lo) * frac();
    }
  }
  // plain uniform, no bias
  double uniform(double lo, double hi) { return lo + (hi - lo) * frac(); }
  // positive, log-uniform in [lo,hi]; simplest is the representable "nice" value
  double logpos(double lo, double hi) {
    switch (src.draw(12)) {
      case 0: return (lo <= 1 && hi >= 1) ? 1.0 : std::exp(0.5 * (std::log(lo) + std::log(hi)));
      case 1: return lo;
      case 2: return hi;
      default: return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * frac());
    }
  }
  // positive or exactly zero
  double zlogpos(double lo, double hi) { return src.draw(5) == 0 ? 0.0 : logpos(lo, hi); }
  // signed, several magnitudes, |v| <= m
  double sreal(double m) {
    switch (src.draw(10)) {
      case 0: return 0.0;
      case 1: return (src.draw(2) ? -1.0 : 1.0) * std::min(1.0, m);
      case 2: return (src.draw(2) ? -1.0 : 1.0) * m;
      case 3:
      case 4:
      case 5: {
        double mag = m * std::pow(10.0, -6.0 * frac());
        return src.draw(2) ? -mag : mag;
      }
      default: return m * (2.0 * frac() - 1.0);
    }
  }

  // ---- reporting ----------------------------------------------------------
  template <typename T>
  void note(const char *label, const T &v) {
    if (!verbose) return;
    std::ostringstream o;
    o << std::setprecision(17) << label << "=" << v;
    notes.push_back(o.str());
  }
  void cls(const std::string &c) { classes.insert(c); }
  void nontrivial() { is_nontriv = true; }
  [[noreturn]] void fail(const std::string &m) { throw Failure(m); }
  void check(bool ok, const std::string &m) {
    checks++;
    if (!ok) throw Failure(m);
  }
  // A behaviour recorded in known_findings.json (not an alarm), or a failure
  // when the id is not recorded there.
  void finding(const std::string &id, const std::string &m) {
    if (known && known->count(id)) {
      findings.emplace(id, m);
      return;
    }
    throw Failure(m);
  }
  void close(double got, double want, double tol, const std::string &what) {
    checks++;
    // also rejects NaN on either side
    if (!(std::fabs(got - want) <= tol)) {
      std::ostringstream o;
      o << std::setprecision(17) << what << ": got " << got << " want " << want << " tol " << tol;
      throw Failure(o.str());
    }
  }
};

struct Prop {
  std::string name;
  std::function<void(Ctx &)> fn;
  int weight;
};
inline std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}
struct Reg {
  Reg(const std::string &n, std::function<void(Ctx &)> f, int w = 1) { props().push_back({n, f, w}); }
};

// ---------------------------------------------------------------------------
struct Outcome {
  enum K { OK, FAIL, DISCARD, CRASH } k = OK;
  std::string msg;
};

inline std::vector<uint64_t> *g_current_rec = nullptr;
inline std::string g_crash_path;
inline uint64_t g_current_idx = 0;
inline size_t g_current_prop  = 0;

inline void crash_handler(int sig) {
  // async-signal-unsafe formatting is avoided: numbers are written by hand
  if (!g_crash_path.empty()) {
    int fd = open(g_crash_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      auto put = [&](uint64_t v) {
        char b[24];
        int i  = 23;
        b[i--] = '\n';
        do {
          b[i--] = char('0' + v % 10);
          v /= 10;
        } while (v);
        ssize_t r = write(fd, b + i + 1, size_t(23 - i));
        (void)r;
      };
      put(g_current_idx);
      put(g_current_prop);
      put(uint64_t(sig));
      if (g_current_rec)
        for (uint64_t v : *g_current_rec) put(v);
      close(fd);
    }
  }
  _exit(70);
}

inline void install_handlers() {
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGXCPU, SIGPROF}) signal(s, crash_handler);
}
inline void arm_cpu_timer(int seconds) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
constexpr int CASE_CPU_LIMIT = 60;  // s of CPU time for one case: a hang

inline Outcome run_one(const Prop &p, Ctx &c) {
  Outcome o;
  try {
    p.fn(c);
  } catch (const Discard &) {
    o.k = Outcome::DISCARD;
  } catch (const Failure &f) {
    o.k   = Outcome::FAIL;
    o.msg = f.what();
  } catch (const std::exception &e) {
    o.k   = Outcome::FAIL;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.k   = Outcome::FAIL;
    o.msg = "unexpected exception";
  }
  return o;
}

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += char(ch);
    } else if (ch < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += char(ch);
    }
  }
  return o + "\"";
}

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_rec(size_t p, const std::vector<uint64_t> &r) {
  uint64_t h = mix(p, r.size());
  for (uint64_t v : r) h = mix(h, v);
  return h;
}

// run a candidate in a child: survives crashes and hangs; returns fail message
// or "" when the candidate does not fail
inline std::string run_isolated(const Prop &p,
                                const std::vector<uint64_t> &choices,
                                const std::set<std::string> &known,
                                std::vector<uint64_t> *used) {
  int fds[2];
  if (pipe(fds) != 0) return "";
  pid_t pid = fork();
  if (pid == 0) {
    ::close(fds[0]);
    g_crash_path.clear();
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    dup2(devnull, 2);
    arm_cpu_timer(CASE_CPU_LIMIT);
    Source s(choices);
    Ctx c(s);
    c.known   = &known;
    Outcome o = run_one(p, c);
    std::ostringstream out;
    out << (o.k == Outcome::FAIL ? "F" : "O") << o.msg << "\n";
    for (uint64_t v : s.rec) out << v << " ";
    std::string t = out.str();
    size_t off    = 0;
    while (off < t.size()) {
      ssize_t w = write(fds[1], t.data() + off, t.size() - off);
      if (w <= 0) break;
      off += size_t(w);
    }
    _exit(0);
  }
  ::close(fds[1]);
  std::string t;
  char buf[65536];
  ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) > 0) t.append(buf, size_t(n));
  ::close(fds[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || t.empty()) {
    if (used) *used = choices;
    return "crash, abort, sanitizer report or hang";
  }
  if (t[0] != 'F') return "";
  size_t nl = t.find('\n');
  if (used) {
    used->clear();
    std::istringstream is(t.substr(nl + 1));
    uint64_t v;
    while (is >> v) used->push_back(v);
  }
  std::string m = t.substr(1, nl - 1);
  return m.empty() ? "failed" : m;
}

inline std::vector<uint64_t> shrink(const Prop &p,
                                    std::vector<uint64_t> best,
                                    const std::set<std::string> &known,
                                    std::string &msg,
                                    int budget) {
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (budget-- <= 0) return false;
    std::vector<uint64_t> used;
    std::string m = run_isolated(p, c, known, &used);
    if (m.empty()) return false;
    if (used.size() > c.size()) used.resize(c.size());
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) {
      if (!(c.size() < best.size() || (c.size() == best.size() && c < best))) return false;
      best = c;
    } else {
      best = used;
    }
    msg = m;
    return true;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && budget > 0; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && budget > 0;) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + long(i), c.begin() + long(i + len));
        if (attempt(c)) {
          progress = true;
        } else {
          // zero the block instead
          std::vector<uint64_t> z(best);
          bool any = false;
          for (size_t k = i; k < i + len; k++) {
            any |= z[k] != 0;
            z[k] = 0;
          }
          if (any && attempt(z)) progress = true;
          i += len;
        }
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && budget > 0; i++) {
      uint64_t lo = 0, hi = best[i];
      while (hi > lo && budget > 0) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c(best);
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          if (i >= best.size()) break;
          hi = std::min(mid, best[i]);
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------------------
inline int run_main(int argc, char **argv) {
  uint64_t seed = 1, cases = 1000, first = 0;
  int workers = 8;
  std::string out, replay, replay_out, only, shrink_from;
  double max_seconds = 0;
  std::set<std::string> known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt      = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = std::stoull(nxt());
    else if (a == "--cases") cases = std::stoull(nxt());
    else if (a == "--first") first = std::stoull(nxt());
    else if (a == "--workers") workers = std::stoi(nxt());
    else if (a == "--out") out = nxt();
    else if (a == "--replay") replay = nxt();
    else if (a == "--replay-out") replay_out = nxt();
    else if (a == "--only") only = nxt();
    else if (a == "--shrink-from") shrink_from = nxt();
    else if (a == "--max-seconds") max_seconds = std::stod(nxt());
    else if (a == "--known") known.insert(nxt());
  }
  auto &P = props();

  std::string name;
  std::vector<uint64_t> ch;
  auto load = [&](const std::string &path) {
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
      if (line.rfind("prop ", 0) == 0) name = line.substr(5);
      if (line.rfind("choices", 0) == 0) {
        std::istringstream is(line.substr(7));
        uint64_t v;
        while (is >> v) ch.push_back(v);
      }
    }
  };
  // minimise a failing case found elsewhere (by the fuzzer)
  if (!shrink_from.empty()) {
    load(shrink_from);
    for (auto &p : P)
      if (p.name == name) {
        int confirmed = 0;
        for (int k = 0; k < 3; k++) confirmed += !run_isolated(p, ch, known, nullptr).empty();
        if (!confirmed) return 0;
        std::string msg       = run_isolated(p, ch, known, nullptr);
        std::vector<uint64_t> best = shrink(p, ch, known, msg, 4000);
        std::ofstream f(replay_out);
        f << "# replay of a failing case: <harness binary> --replay <this file>\nprop " << name << "\nchoices";
        for (auto v : best) f << " " << v;
        f << "\nmessage " << msg << "\n";
        return 1;
      }
    return 2;
  }
  if (!replay.empty()) {
    load(replay);
    for (auto &p : P)
      if (p.name == name) {
        Source s(ch);
        Ctx c(s);
        c.verbose = true;
        c.known   = &known;
        Outcome o = run_one(p, c);
        for (auto &n : c.notes) std::cout << n << "\n";
        if (o.k == Outcome::FAIL) {
          std::cout << "FAILED " << name << ": " << o.msg << "\n";
          return 1;
        }
        std::cout << "PASSED " << name << "\n";
        return 0;
      }
    std::cerr << "no such property in replay: " << name << "\n";
    return 2;
  }

  std::vector<size_t> wheel;
  for (size_t i = 0; i < P.size(); i++) {
    if (!only.empty() && P[i].name.find(only) == std::string::npos) continue;
    for (int k = 0; k < P[i].weight; k++) wheel.push_back(i);
  }
  if (wheel.empty()) return 2;

  char tmpl[] = "/tmp/pbtXXXXXX";
  if (!mkdtemp(tmpl)) return 2;
  std::string dir = tmpl;
  std::vector<pid_t> pids;
  fflush(nullptr);
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      // the code under test prints on stdout and stderr for rejected parameters
      int devnull = open("/dev/null", O_WRONLY);
      dup2(devnull, 1);
      g_crash_path = dir + "/crash." + std::to_string(w);
      dup2(devnull, 2);
      install_handlers();
      uint64_t n = 0, disc = 0, checks = 0, nontriv = 0;
      std::unordered_set<uint64_t> distinct;
      std::map<std::string, uint64_t> cls;
      std::map<std::string, std::string> finds;
      std::vector<std::string> samples;
      std::map<std::string, int> sample_count;
      uint64_t failed_idx = UINT64_MAX;
      std::string fmsg;
      std::vector<uint64_t> frec;
      size_t fprop = 0;
      timespec t0;
      clock_gettime(CLOCK_MONOTONIC, &t0);
      for (uint64_t i = first + uint64_t(w); i < first + cases; i += uint64_t(workers)) {
        if (max_seconds > 0) {
          // the budget only ends the search early; it decides nothing
          timespec t1;
          clock_gettime(CLOCK_MONOTONIC, &t1);
          if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > max_seconds) break;
        }
        size_t pi = wheel[i % wheel.size()];
        Source s(mix(mix(seed, 0xABCDEF), i));
        Ctx c(s);
        c.known        = &known;
        g_current_rec  = &s.rec;
        g_current_idx  = i;
        g_current_prop = pi;
        arm_cpu_timer(CASE_CPU_LIMIT);
        Outcome o = run_one(P[pi], c);
        checks += c.checks;
        if (o.k == Outcome::DISCARD) {
          disc++;
          continue;
        }
        n++;
        for (auto &x : c.classes) cls[P[pi].name + ": " + x]++;
        cls[P[pi].name]++;
        for (auto &x : c.findings) finds.insert(x);
        if (o.k == Outcome::FAIL) {
          failed_idx = i;
          fmsg       = o.msg;
          frec       = s.rec;
          fprop      = pi;
          break;
        }
        if (c.is_nontriv) {
          nontriv++;
          distinct.insert(hash_rec(pi, s.rec));
          if (w == 0 && sample_count[P[pi].name] < 2) {
            sample_count[P[pi].name]++;
            Source s2(s.rec);
            Ctx c2(s2);
            c2.verbose    = true;
            c2.known      = &known;
            g_current_rec = &s2.rec;
            run_one(P[pi], c2);
            std::string t = P[pi].name + " [case " + std::to_string(i) + "]";
            size_t cnt    = 0;
            for (auto &x : c2.notes) {
              if (t.size() > 900 || cnt++ > 40) {
                t += " ...";
                break;
              }
              t += " " + x;
            }
            samples.push_back(t);
          }
        }
      }
      std::ofstream f(dir + "/res." + std::to_string(w));
      f << n << " " << disc << " " << checks << " " << nontriv << " " << distinct.size() << "\n";
      f << cls.size() << "\n";
      for (auto &x : cls) f << x.second << " " << x.first << "\n";
      f << finds.size() << "\n";
      for (auto &x : finds) f << x.first << "\t" << x.second << "\n";
      f << samples.size() << "\n";
      for (auto &x : samples) {
        std::string t = x;
        for (auto &ch : t)
          if (ch == '\n') ch = ';';
        f << t << "\n";
      }
      if (failed_idx != UINT64_MAX) {
        std::string t = fmsg;
        for (auto &ch : t)
          if (ch == '\n') ch = ';';
        f << "FAIL " << failed_idx << " " << fprop << " " << frec.size();
        for (auto v : frec) f << " " << v;
        f << "\n" << t << "\n";
      } else {
        f << "NOFAIL\n";
      }
      f.close();
      std::vector<uint64_t> hs(distinct.begin(), distinct.end());
      std::ofstream hf(dir + "/hash." + std::to_string(w), std::ios::binary);
      hf.write(reinterpret_cast<const char *>(hs.data()), std::streamsize(hs.size() * sizeof(uint64_t)));
      hf.close();
      _exit(0);
    }
    pids.push_back(pid);
  }
  uint64_t n = 0, disc = 0, checks = 0, nontriv = 0, distinct = 0;
  std::map<std::string, uint64_t> cls;
  std::map<std::string, std::string> finds;
  std::vector<std::string> samples;
  struct F {
    uint64_t idx;
    size_t prop;
    std::vector<uint64_t> rec;
    std::string msg;
  };
  std::vector<F> fails;
  std::vector<uint64_t> hashes;
  bool engine_error = false;
  for (int w = 0; w < workers; w++) {
    int st = 0;
    waitpid(pids[size_t(w)], &st, 0);
    std::ifstream f(dir + "/res." + std::to_string(w));
    std::string line;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && f) {
      uint64_t a, b, c, d, e;
      f >> a >> b >> c >> d >> e;
      n += a;
      disc += b;
      checks += c;
      nontriv += d;
      {
        std::ifstream hf(dir + "/hash." + std::to_string(w), std::ios::binary);
        size_t o = hashes.size();
        hashes.resize(o + e);
        hf.read(reinterpret_cast<char *>(hashes.data() + o), std::streamsize(e * sizeof(uint64_t)));
      }
      size_t k;
      f >> k;
      for (size_t i = 0; i < k; i++) {
        uint64_t v;
        f >> v;
        f.get();
        std::getline(f, line);
        cls[line] += v;
      }
      f >> k;
      f.get();
      for (size_t i = 0; i < k; i++) {
        std::getline(f, line);
        size_t tab = line.find('\t');
        finds.emplace(line.substr(0, tab), line.substr(tab + 1));
      }
      f >> k;
      f.get();
      for (size_t i = 0; i < k; i++) {
        std::getline(f, line);
        samples.push_back(line);
      }
      f >> line;
      if (line == "FAIL") {
        F x;
        size_t len;
        f >> x.idx >> x.prop >> len;
        x.rec.resize(len);
        for (auto &v : x.rec) f >> v;
        f.get();
        std::getline(f, x.msg);
        fails.push_back(x);
      }
    } else {
      std::ifstream cf(dir + "/crash." + std::to_string(w));
      F x;
      uint64_t sig = 0;
      if (cf >> x.idx >> x.prop >> sig) {
        uint64_t v;
        while (cf >> v) x.rec.push_back(v);
        x.msg = "crash (signal " + std::to_string(sig) + ")";
        fails.push_back(x);
      } else {
        // sanitizers end the process without a signal we catch: the seed of the
        // case is not known, so run this worker's cases one by one in children
        engine_error = true;
      }
    }
  }
  if (engine_error && fails.empty()) {
    for (uint64_t i = first; i < first + cases && fails.empty(); i++) {
      size_t pi = wheel[i % wheel.size()];
      pid_t pid = fork();
      if (pid == 0) {
        int devnull = open("/dev/null", O_WRONLY);
        dup2(devnull, 1);
        dup2(devnull, 2);
        arm_cpu_timer(CASE_CPU_LIMIT);
        Source s(mix(mix(seed, 0xABCDEF), i));
        Ctx c(s);
        c.known = &known;
        run_one(P[pi], c);
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        // regenerate the choices from the seed: a long random tape prefix is the
        // case itself, so store the seed form
        F x;
        x.idx  = i;
        x.prop = pi;
        x.msg  = "crash or sanitizer report";
        fails.push_back(x);
      }
    }
  }
  {
    for (int w = 0; w < workers; w++) {
      for (const char *k : {"/res.", "/crash.", "/hash."}) unlink((dir + k + std::to_string(w)).c_str());
    }
    rmdir(dir.c_str());
  }

  std::sort(hashes.begin(), hashes.end());
  distinct = uint64_t(std::unique(hashes.begin(), hashes.end()) - hashes.begin());

  std::string status = "ok", fail_msg, fail_prop;
  std::vector<uint64_t> best;
  int confirmed = 0;
  if (!fails.empty()) {
    size_t bi = 0;
    for (size_t i = 1; i < fails.size(); i++)
      if (fails[i].idx < fails[bi].idx) bi = i;
    F &x      = fails[bi];
    fail_prop = P[x.prop].name;
    fail_msg  = x.msg;
    best      = x.rec;
    std::vector<uint64_t> used;
    bool rep = !run_isolated(P[x.prop], best, known, &used).empty();
    if (rep) {
      best = shrink(P[x.prop], best, known, fail_msg, 4000);
    }
    for (int k = 0; k < 3; k++) {
      if (!run_isolated(P[x.prop], best, known, nullptr).empty()) confirmed++;
    }
    status = confirmed >= 1 ? "fail" : "unconfirmed";
    if (!replay_out.empty()) {
      std::ofstream f(replay_out);
      f << "# replay of a failing case: <harness binary> --replay <this file>\n";
      f << "prop " << fail_prop << "\n";
      f << "case " << x.idx << "\nseed " << seed << "\n";
      f << "choices";
      for (auto v : best) f << " " << v;
      f << "\nmessage " << fail_msg << "\n";
      f.close();
    }
  }
  std::ostringstream j;
  j << "{\"status\":" << jstr(status) << ",\"seed\":" << seed << ",\"cases\":" << n << ",\"discarded\":" << disc
    << ",\"checks\":" << checks << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct;
  j << ",\"classes\":{";
  bool firstc = true;
  for (auto &x : cls) {
    if (!firstc) j << ",";
    firstc = false;
    j << jstr(x.first) << ":" << x.second;
  }
  j << "},\"findings\":{";
  firstc = true;
  for (auto &x : finds) {
    if (!firstc) j << ",";
    firstc = false;
    j << jstr(x.first) << ":" << jstr(x.second);
  }
  j << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) j << (i ? "," : "") << jstr(samples[i]);
  j << "],\"fail_prop\":" << jstr(fail_prop) << ",\"fail_msg\":" << jstr(fail_msg) << ",\"confirmed\":" << confirmed
    << "}\n";
  if (!out.empty()) {
    std::ofstream f(out);
    f << j.str();
  } else {
    std::cout << j.str();
  }
  return status == "ok" ? 0 : (status == "fail" ? 1 : 3);
}

}  // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  auto &P = pbt::props();
  if (size < 1) return 0;
  size_t pi = data[0] % P.size();
  std::vector<uint64_t> ch;
  for (size_t i = 1; i + 4 <= size; i += 4) {
    uint32_t v;
    memcpy(&v, data + i, 4);
    ch.push_back((uint64_t(v) << 21) ^ v);
  }
  static std::set<std::string> known = [] {
    std::set<std::string> k;
    const char *e = getenv("PBT_KNOWN");
    std::istringstream is(e ? e : "");
    std::string s;
    while (is >> s) k.insert(s);
    return k;
  }();
  pbt::Source s(ch);
  pbt::Ctx c(s);
  c.known        = &known;
  pbt::Outcome o = pbt::run_one(P[pi], c);
  if (o.k == pbt::Outcome::FAIL) {
    const char *path = getenv("PBT_FUZZ_REPLAY");
    if (path) {
      std::ofstream f(path);
      f << "prop " << P[pi].name << "\nchoices";
      for (auto v : s.rec) f << " " << v;
      f << "\nmessage " << o.msg << "\n";
    }
    abort();
  }
  return 0;
}
#else
int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
#endif

#endif  // VERIF_PBT_HPP_
