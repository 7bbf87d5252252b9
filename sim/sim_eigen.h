// Force-included before every translation unit (library and harness).
// Eigen's own precondition checks become a simulator report instead of silent undefined behaviour.
#pragma once
#ifdef __cplusplus
extern "C" [[noreturn]] void sim_eigen_fail(const char *expr, const char *file, int line);
#define eigen_assert(x) ((x) ? static_cast<void>(0) : sim_eigen_fail(#x, __FILE__, __LINE__))
#endif
