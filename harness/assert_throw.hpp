// Force-included into every translation unit of the replayer and of the library
// under test: failed checks (Boost and Eigen assertions) become exceptions, so a
// refused operation is observable without ending the process.
#pragma once
#include <stdexcept>
#include <string>
namespace vp
{
struct Refused : public std::logic_error
{
  explicit Refused(const std::string & s) : std::logic_error(s) {}
};
} // namespace vp
#define eigen_assert(x)                                  \
  do                                                     \
  {                                                      \
    if(!(x)) throw vp::Refused(std::string("eigen: ") + #x); \
  } while(false)
