// C02: in-place mixed-radix plans (radix 3, 4, 5) compute the discrete Fourier transform.
#include "plan_check.hpp"

#include "cx.hpp"
#include <neo/fft.hpp>

using namespace mon;

namespace {

auto body() -> void
{
    using namespace neo::fft;
    plan_sections<c2c_dif3_plan<std::complex<float>>>("dif3<cf>", 3, 4, 7, 8, 28, 1200, 1, true);
    plan_sections<c2c_dif3_plan<mon::c128>>("dif3<c128>", 3, 4, 7, 8, 28, 1200, 1, true);
    plan_sections<c2c_dif5_plan<std::complex<float>>>("dif5<cf>", 5, 3, 5, 5, 24, 1000, 1, true);
    plan_sections<c2c_dif5_plan<mon::c128>>("dif5<c128>", 5, 3, 5, 5, 24, 1000, 1, true);
    plan_sections<c2c_dit4_plan<std::complex<float>>>("dit4<cf>", 4, 3, 6, 7, 24, 1200, 1);
    plan_sections<c2c_dit4_plan<mon::c128>>("dit4<c128>", 4, 3, 6, 7, 24, 1200, 1);
    plan_sections<c2c_dif4_plan<std::complex<double>>>("dif4<cd>", 4, 3, 6, 7, 24, 1200, 1);
    plan_sections<c2c_dif4_plan<mon::c64>>("dif4<c64>", 4, 3, 6, 7, 24, 1200, 1);
}

}  // namespace

MON_MAIN(body)
