// Helpers shared by the harnesses.
#ifndef VERIF_HARNESS_UTIL_H_
#define VERIF_HARNESS_UTIL_H_
#include <sys/mman.h>

#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <sstream>

#include "mc.h"

namespace vu {
// Heap array of exactly n elements, so that the address sanitizer (where used)
// sees the first element past either end.
template <typename T = double>
struct Buf {
  std::unique_ptr<T[]> p;
  int n;
  explicit Buf(int n) : p(new T[n]), n(n) {}
  T& operator[](int i) { return p[i]; }
  const T& operator[](int i) const { return p[i]; }
  T* data() { return p.get(); }
  operator T*() { return p.get(); }
};
// Buffer whose last element ends at an inaccessible page and whose
// predecessors are NaN: reads or writes past the end crash, writes before the
// start are found by Intact().  `slot` selects one of a few reusable mappings.
struct Guarded {
  static constexpr int kBytes = 1 << 16;
  double* p;
  int n;
  explicit Guarded(int slot, int n) : n(n) {
    static char* base[16] = {};
    if (base[slot] == nullptr) {
      base[slot] = static_cast<char*>(mmap(nullptr, kBytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      mprotect(base[slot] + kBytes, 4096, PROT_NONE);
    }
    p = reinterpret_cast<double*>(base[slot] + kBytes) - n;
    for (int i = 1; i <= 64; ++i) p[-i] = std::numeric_limits<double>::quiet_NaN();
  }
  bool Intact() const {
    for (int i = 1; i <= 64; ++i) if (p[-i] == p[-i]) return false;
    return true;
  }
  double& operator[](int i) { return p[i]; }
  const double& operator[](int i) const { return p[i]; }
  double* data() { return p; }
  operator double*() { return p; }
};
// Small integers (exact in floating point) that differ from cell to cell.
inline double Cell(int i, int salt) {
  return static_cast<double>((((i + 1) * 7919 + salt * 104729) % 31) - 15) + ((i % 5) == salt % 5 ? 17 : 0);
}
inline double Inf() { return std::numeric_limits<double>::infinity(); }
inline double NaN() { return std::numeric_limits<double>::quiet_NaN(); }
inline bool Same(double a, double b) { return a == b || (a != a && b != b); }
// |a-b| within tol of the larger magnitude (absolute near zero).
inline bool Near(double a, double b, double tol) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return a != a && b != b;
  return std::abs(a - b) <= tol * std::max(1.0, std::max(std::abs(a), std::abs(b)));
}
template <typename V>
std::string Str(const V& v, int n) {
  std::ostringstream s;
  s.precision(17);
  s << "[";
  for (int i = 0; i < n; ++i) s << (i ? " " : "") << v[i];
  s << "]";
  return s.str();
}
}  // namespace vu
#endif
