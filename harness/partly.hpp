// Values that differ from others in part.
#ifndef VERIF_PARTLY_HPP_
#define VERIF_PARTLY_HPP_

#include <Eigen/Dense>

#include "pbt.hpp"

namespace gen {

// harnesses that compare runs with absolute tolerances keep to the usual ranges
inline bool &narrow() {
  static bool n = false;
  return n;
}
// usually in [lo, hi], now and then in the wider range
inline double logwide(pbt::Ctx &c, double lo, double hi, double wlo, double whi) {
  return !narrow() && c.u(24) == 23 ? c.logpos(wlo, whi) : c.logpos(lo, hi);
}

// some elements of a, the rest of b: one element, one row, one column, all but one
template <typename T>
T partly(pbt::Ctx &c, const T &a, const T &b) {
  T o   = b;
  int r = int(c.u(uint32_t(o.rows()))), k = int(c.u(uint32_t(o.cols())));
  switch (c.u(5)) {
    case 0: break;
    case 1:
      o       = a;
      o(r, k) = b(r, k);
      break;
    case 2:
      o        = a;
      o.row(r) = b.row(r);
      break;
    case 3:
      o        = a;
      o.col(k) = b.col(k);
      break;
    default: o(r, k) = a(r, k);
  }
  return o;
}

}  // namespace gen

#endif
