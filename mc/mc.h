// Bounded exhaustive explorer ("stateless model checker") for real code.
//
// A scenario is a function that is re-executed from scratch for every sequence
// of answers to mc::Choose().  The driver enumerates *all* such sequences in
// depth-first order (first alternative first), sharded over processes.  Inputs,
// operation sequences, environment answers and thread schedules are all
// expressed as choices, so one replay format covers every violation.
//
// Rules for scenario bodies:
//   * deterministic given the choices; no clock, no randomness, no addresses;
//   * MC_EXPECT records a failure and continues, MC_REQUIRE records and returns;
//   * fatal CHECKs in the code under test abort the worker and are reported as
//     violations unless wrapped in mc::Dies().
#ifndef VERIF_MC_MC_H_
#define VERIF_MC_MC_H_

#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

// ---- choices -------------------------------------------------------------
// Returns every value in [0, n) in turn.  n must only depend on earlier choices
// and on the (deterministic) behaviour of the code under test.
int Choose(int n, const char* what = "");
// Inclusive range.
inline int Range(int lo, int hi, const char* what = "") {
  return lo + Choose(hi - lo + 1, what);
}
inline bool Flip(const char* what = "") { return Choose(2, what) == 1; }
template <typename T>
T Pick(const std::vector<T>& v, const char* what = "") {
  return v[Choose(static_cast<int>(v.size()), what)];
}
template <typename T>
T Pick(std::initializer_list<T> v, const char* what = "") {
  return v.begin()[Choose(static_cast<int>(v.size()), what)];
}
// True when the remaining body must not matter (the current choice prefix
// belongs to another shard): return early after picking the input shape.
bool Skipping();
// True while re-executing the choice prefix shared with the previous
// execution: states visited now were already visited then.
bool Replaying();
// Visited-set pruning: true if `state` was already expanded (by another path)
// with at least `remaining` steps to go.  Always false while Replaying().
bool Seen(uint64_t state, int remaining);
uint64_t PrefixHash();  // hash of the choices taken so far in this execution

// ---- bookkeeping ---------------------------------------------------------
void State(uint64_t h);          // a distinct model/implementation state
void Step(int n = 1);            // a transition taken on the implementation
void Outcome(uint64_t h);        // folded into the execution's observation
void Cover(const char* tag);     // coverage counter, reported in evidence
extern int in_explorer;          // > 0 while the explorer itself runs (and allocates)
void Trivial();                  // marks this execution as trivial (not counted)
void Note(const std::string& s); // human readable trace line (kept on demand)
bool Tracing();                  // true if Note() lines will be kept
bool Thorough();
// Tier dependent bound.
inline int Bound(int quick, int thorough) {
  return Thorough() ? thorough : quick;
}
// The same, with a smaller bound for runs of a scenario with sanitizers.
bool Light();
inline int Bound(int quick, int thorough, int light) {
  return Light() ? light : Bound(quick, thorough);
}

// ---- failures ------------------------------------------------------------
void RecordFailure(const char* file, int line, const std::string& msg);
bool Failed();
class FailStream {
 public:
  FailStream(const char* f, int l, const char* cond) : f_(f), l_(l) {
    s_ << cond << " ";
    s_.precision(17);
  }
  ~FailStream() { RecordFailure(f_, l_, s_.str()); }
  std::ostream& stream() { return s_; }

 private:
  const char* f_;
  int l_;
  std::ostringstream s_;
};
struct Void {
  void operator&&(std::ostream&) const {}
};
#define MC_EXPECT(cond)                            \
  __builtin_expect(static_cast<bool>(cond), 1)     \
      ? (void)0                                    \
      : ::mc::Void() &&                            \
            ::mc::FailStream(__FILE__, __LINE__, #cond).stream()
#define MC_REQUIRE(cond)                                              \
  if (__builtin_expect(static_cast<bool>(cond), 1)) {                 \
  } else                                                              \
    return ::mc::Void() &&                                            \
           ::mc::FailStream(__FILE__, __LINE__, #cond).stream()
#define MC_FAIL() ::mc::FailStream(__FILE__, __LINE__, "").stream()

// Runs f; true if it hit a fatal CHECK / LOG(FATAL) of the code under test.
bool Dies(const std::function<void()>& f, std::string* msg = nullptr);

// ---- hashing -------------------------------------------------------------
inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t HashD(double d, uint64_t h) {
  if (d == 0) d = 0;  // -0 == 0
  if (d != d) return Mix(h, 0x7ff8deadull);
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return Mix(h, u);
}
struct H {
  uint64_t h = 0x243f6a8885a308d3ull;
  H& operator()(uint64_t v) { h = Mix(h, v); return *this; }
  H& operator()(int v) { return (*this)(static_cast<uint64_t>(static_cast<int64_t>(v))); }
  H& operator()(bool v) { return (*this)(static_cast<uint64_t>(v)); }
  H& operator()(double d) { h = HashD(d, h); return *this; }
  H& operator()(const std::string& s) { h = HashBytes(s.data(), s.size(), h); return *this; }
  template <typename T>
  H& operator()(const std::vector<T>& v) {
    (*this)(static_cast<uint64_t>(v.size()));
    for (const auto& x : v) (*this)(x);
    return *this;
  }
  H& D(const double* p, int n) { for (int i = 0; i < n; ++i) (*this)(p[i]); return *this; }
};

// ---- registration --------------------------------------------------------
struct ScenarioOptions {
  int split = 2;           // choices that make up a shard prefix
  double exec_timeout = 20; // seconds for one execution
  bool thorough_only = false;
  bool single = false;     // run in one shard only
  bool no_skip_throw = false;  // choices are also made where one cannot throw
  int weight = 1;
};
using Body = void (*)();
int Register(const char* name, Body body, ScenarioOptions o);
#define MC_SCENARIO(name, ...)                                       \
  static void McBody_##name();                                       \
  static const int mc_reg_##name = ::mc::Register(                   \
      #name, &McBody_##name, ::mc::ScenarioOptions{__VA_ARGS__});    \
  static void McBody_##name()

}  // namespace mc

#endif  // VERIF_MC_MC_H_
