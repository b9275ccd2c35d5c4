// Stand-in for the part of absl/log (>= 20240116) that Ceres uses.  The
// sandbox only has an Abseil that predates absl/log, so the verification
// harnesses supply these macros themselves.  Semantics kept:
//   * LOG(sev) << ...      INFO/WARNING/ERROR are discarded unless
//                          VERIF_LOG=1 is in the environment; FATAL aborts.
//   * CHECK*/QCHECK*       always evaluated, failure is fatal.
//   * DCHECK*              evaluated unless NDEBUG (the harness builds keep
//                          them on: no -DNDEBUG).
//   * VLOG(n)              disabled unless verif::vlog_level >= n; operands are
//                          still type-checked.
// A fatal failure calls verif::FatalHook when one is installed (it may throw);
// otherwise prints the message and aborts, as absl does.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_

#include <cstdio>
#include <cstdlib>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>

namespace verif {

struct FatalError {
  std::string message;
};
using FatalHookFn = void (*)(const char* file, int line,
                             const std::string& msg);
// Installed by harnesses; may throw (e.g. verif::FatalError).
inline FatalHookFn FatalHook = nullptr;
inline int vlog_level = 0;
inline bool LogEnabled() {
  static const bool on = std::getenv("VERIF_LOG") != nullptr;
  return on;
}

class LogMessage {
 public:
  LogMessage(const char* file, int line, bool print)
      : file_(file), line_(line), print_(print) {}
  ~LogMessage() {
    if (print_) {
      std::fprintf(stderr, "%s:%d] %s\n", file_, line_, stream_.str().c_str());
    }
  }
  std::ostream& stream() { return stream_; }

 private:
  const char* file_;
  int line_;
  bool print_;
  std::ostringstream stream_;
};

class LogMessageFatal {
 public:
  LogMessageFatal(const char* file, int line) : file_(file), line_(line) {}
  LogMessageFatal(const char* file, int line, const std::string& prefix)
      : file_(file), line_(line) {
    stream_ << prefix << " ";
  }
  [[noreturn]] ~LogMessageFatal() noexcept(false) {
    const std::string msg = stream_.str();
    if (FatalHook != nullptr) FatalHook(file_, line_, msg);
    std::fprintf(stderr, "F %s:%d] %s\n", file_, line_, msg.c_str());
    std::fflush(stdout);
    std::abort();
  }
  std::ostream& stream() { return stream_; }

 private:
  const char* file_;
  int line_;
  std::ostringstream stream_;
};

struct Voidify {
  void operator&&(std::ostream&) const&& {}
};

template <typename T>
void PrintTo(std::ostream& os, const T& v) {
  if constexpr (std::is_same_v<T, std::nullptr_t>) {
    os << "nullptr";
  } else if constexpr (std::is_enum_v<T>) {
    os << static_cast<long long>(v);
  } else {
    os << v;
  }
}

template <typename A, typename B>
std::string MakeCheckOpString(const A& a, const B& b, const char* text) {
  std::ostringstream s;
  s << "Check failed: " << text << " (";
  PrintTo(s, a);
  s << " vs. ";
  PrintTo(s, b);
  s << ")";
  return s.str();
}

#define VERIF_DEFINE_CHECK_OP(name, op)                                    \
  template <typename A, typename B>                                        \
  inline std::unique_ptr<std::string> Check##name##Impl(                   \
      const A& a, const B& b, const char* text) {                          \
    if (__builtin_expect(static_cast<bool>(a op b), 1)) return nullptr;    \
    return std::make_unique<std::string>(MakeCheckOpString(a, b, text));   \
  }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
VERIF_DEFINE_CHECK_OP(EQ, ==)
VERIF_DEFINE_CHECK_OP(NE, !=)
VERIF_DEFINE_CHECK_OP(LE, <=)
VERIF_DEFINE_CHECK_OP(LT, <)
VERIF_DEFINE_CHECK_OP(GE, >=)
VERIF_DEFINE_CHECK_OP(GT, >)
#pragma GCC diagnostic pop
#undef VERIF_DEFINE_CHECK_OP

}  // namespace verif

#define VERIF_LOG_INFO \
  ::verif::LogMessage(__FILE__, __LINE__, ::verif::LogEnabled()).stream()
#define VERIF_LOG_WARNING VERIF_LOG_INFO
#define VERIF_LOG_ERROR VERIF_LOG_INFO
#define VERIF_LOG_DFATAL VERIF_LOG_FATAL
#define VERIF_LOG_FATAL ::verif::LogMessageFatal(__FILE__, __LINE__).stream()

#define LOG(severity) VERIF_LOG_##severity
#define DLOG(severity) VERIF_LOG_##severity
#define LOG_IF(severity, cond) \
  !(cond) ? (void)0 : ::verif::Voidify() && LOG(severity)
#define LOG_EVERY_N(severity, n) LOG(severity)
#define LOG_FIRST_N(severity, n) LOG(severity)

#define VLOG_IS_ON(n) (::verif::vlog_level >= (n))
#define VLOG(n) \
  !VLOG_IS_ON(n) ? (void)0 : ::verif::Voidify() && VERIF_LOG_INFO

#endif  // VERIF_SHIM_ABSL_LOG_LOG_H_
