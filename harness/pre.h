// Force-included before every translation unit: Eigen's internal consistency assertions (sizes, index ranges)
// raise an exception instead of being compiled out, so that an out-of-range access is observed, not silently executed.
#ifndef VMC_PRE_H
#define VMC_PRE_H
#ifdef __cplusplus
#include <stdexcept>
struct vmc_assert_error : std::logic_error { using std::logic_error::logic_error; };
inline void vmc_assert_fail(const char *e,const char *f) { throw vmc_assert_error(std::string("eigen assertion failed: ")+e+" in "+f); }
#ifndef eigen_assert
#define eigen_assert(x) do { if (!(x)) vmc_assert_fail(#x,__FILE__); } while(0)
#endif
#endif
#endif
