// Statistical laws of a run of supposedly independent standard normal samples.
#ifndef VERIF_STATS_HPP_
#define VERIF_STATS_HPP_
#include <algorithm>
#include <array>
#include <cmath>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace stats {

// Chernoff exponent: P(a binomial count at least as extreme) <= exp(-this)
inline double binomial_exponent(double n, double count, double p) {
  double q = count / n;
  double a = q > 0 ? q * std::log(q / p) : 0;
  double b = q < 1 ? (1 - q) * std::log((1 - q) / (1 - p)) : 0;
  return n * (a + b);
}

// z[k][i]: sample k of channel i, scaled to unit variance. All bounds correspond to
// probabilities below 1e-14 per statistic for independent normal samples.
template <size_t N>
void white(pbt::Ctx &c, const std::vector<std::array<double, N>> &z, int lags, bool distinct) {
  const double n = double(z.size());
  const double b = 8 / std::sqrt(n);
  const size_t K = z.size();
  for (size_t i = 0; i < N; i++) {
    double m = 0, v = 0;
    for (size_t k = 0; k < K; k++) {
      m += z[k][i];
      v += z[k][i] * z[k][i];
    }
    c.check(std::fabs(m / n) < b, "mean of the noise");
    c.check(std::fabs(v / n - 1) < b * 1.6, "variance of the noise");
    // dependence between channels and in time, of the values and of their squares
    for (int lag = 0; lag <= lags; lag++)
      for (size_t j = 0; j < N; j++) {
        if (lag == 0 && j >= i) continue;
        double x = 0, y = 0;
        for (size_t k = size_t(lag); k < K; k++) {
          double p = z[k][i], q = z[k - size_t(lag)][j];
          x += p * q;
          y += (p * p - 1) * (q * q - 1);
        }
        const char *what = lag == 0 ? "noise channels depend on one another" : i == j ? "noise depends on earlier noise" : "noise depends on earlier noise of another channel";
        c.check(std::fabs(x / n) < b, what);
        c.check(std::fabs(y / n) < 4 * b, std::string(what) + " (squares)");
      }
  }
  // no step comes twice
  std::vector<size_t> order(K);
  for (size_t k = 0; k < K; k++) order[k] = k;
  std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return z[x][0] < z[y][0]; });
  for (size_t k = 0; k < K; k++)
    for (size_t l = k + 1; l < K && l < k + 8 && z[order[l]][0] - z[order[k]][0] < 1e-4; l++) {
      double g = 0;
      for (size_t i = 0; i < N; i++) g = std::max(g, std::fabs(z[order[k]][i] - z[order[l]][i]));
      c.check(g >= 1e-4, "the noise sequence starts over");
    }
  // the distribution, channels pooled by threes (one quantity) and altogether
  const double at[] = {-3.5, -3, -2.5, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5};
  auto law = [&](size_t lo, size_t hi, const std::string &what) {
    std::vector<double> v;
    for (auto &x : z)
      for (size_t i = lo; i < hi; i++) v.push_back(x[i]);
    std::sort(v.begin(), v.end());
    const double m = double(v.size());
    for (double t : at) {
      double below = double(std::lower_bound(v.begin(), v.end(), t) - v.begin());
      c.check(binomial_exponent(m, below, 0.5 * std::erfc(-t / std::sqrt(2.0))) < 38, what);
    }
    for (double t : {0.05, 0.2, 3.0, 3.5}) {
      double out = double((std::lower_bound(v.begin(), v.end(), -t) - v.begin()) + (v.end() - std::upper_bound(v.begin(), v.end(), t)));
      c.check(binomial_exponent(m, out, std::erfc(t / std::sqrt(2.0))) < 38, what + " (tails)");
    }
    // fresh draws do not come from a small set
    if (distinct) {
      size_t same = 0;
      for (size_t k = 1; k < v.size(); k++) same += v[k] == v[k - 1];
      c.check(double(same) < 0.01 * m, "noise values repeat");
    }
  };
  for (size_t i = 0; i + 3 <= N; i += 3) law(i, i + 3, "noise is not normal");
  law(0, N, "noise is not normal");
}

}  // namespace stats
#endif
