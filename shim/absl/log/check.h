// Stand-in for absl/log/check.h; see log.h in this directory.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_

#include "absl/log/log.h"

#define CHECK(cond)                                                     \
  __builtin_expect(static_cast<bool>(cond), 1)                          \
      ? (void)0                                                         \
      : ::verif::Voidify() && ::verif::LogMessageFatal(                 \
                                  __FILE__, __LINE__,                   \
                                  "Check failed: " #cond)               \
                                  .stream()
#define VERIF_CHECK_OP(name, op, a, b)                                     \
  while (auto verif_check_str =                                            \
             ::verif::Check##name##Impl((a), (b), #a " " #op " " #b))      \
  ::verif::LogMessageFatal(__FILE__, __LINE__, *verif_check_str).stream()

#define CHECK_EQ(a, b) VERIF_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) VERIF_CHECK_OP(NE, !=, a, b)
#define CHECK_LE(a, b) VERIF_CHECK_OP(LE, <=, a, b)
#define CHECK_LT(a, b) VERIF_CHECK_OP(LT, <, a, b)
#define CHECK_GE(a, b) VERIF_CHECK_OP(GE, >=, a, b)
#define CHECK_GT(a, b) VERIF_CHECK_OP(GT, >, a, b)
#define QCHECK(c) CHECK(c)
#define PCHECK(c) CHECK(c)

#ifdef NDEBUG
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#endif

#endif  // VERIF_SHIM_ABSL_LOG_CHECK_H_
