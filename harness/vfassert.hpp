// Force-included in every translation unit (harness and library).
#pragma once
#include <stdexcept>
#include <string>
#include <cstring>
// Eigen's own run-time checks are turned into a (non runtime_error) exception
// so that one failing case does not hide the following ones.
namespace vf {
struct EigenAssertError : std::logic_error {
  using std::logic_error::logic_error;
};
[[noreturn]] inline void eigen_assert_fail(const char *e, const char *f,
                                           int l) {
  const char *b = std::strrchr(f, '/');
  throw EigenAssertError(std::string(b ? b + 1 : f) + ":" + std::to_string(l) +
                         ": " + e);
}
} // namespace vf
#ifndef VF_PLAIN_ASSERT
#define eigen_assert(x)                                                        \
  do {                                                                         \
    if (!(x))                                                                  \
      ::vf::eigen_assert_fail(#x, __FILE__, __LINE__);                         \
  } while (false)
#endif

