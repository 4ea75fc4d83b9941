// Force-included into every translation unit of the simulation build: turns Eigen's range and size checks
// into a recorded crash of the simulated system instead of undefined behaviour.
#pragma once
#ifdef __cplusplus
extern "C" void sim_assert_fail(const char *what, const char *file, int line) __attribute__((noreturn));
#define eigen_assert(x) do { if (!(x)) sim_assert_fail(#x, __FILE__, __LINE__); } while (0)
#endif
