// neo's own complex type in the generic workloads. Built with MON_LEAN (after a full build failed) they use std::complex instead,
// so that a change which only compiles for std::complex can still be decided.
#pragma once
#include <neo/complex/scalar_complex.hpp>

#include <complex>

namespace mon {
#if defined(MON_LEAN)
using c64  = std::complex<float>;
using c128 = std::complex<double>;
#else
using c64  = neo::complex64;
using c128 = neo::complex128;
#endif
}  // namespace mon
