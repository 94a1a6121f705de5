// C02: Stockham autosort plans compute the discrete Fourier transform.
#include "plan_check.hpp"

#include "cx.hpp"
#include <neo/fft.hpp>

using namespace mon;

namespace {

auto body() -> void
{
    using namespace neo::fft;
    plan_sections<c2c_stockham_dif2r_plan<std::complex<float>>>("stockham2r<cf>", 2, 7, 12, 14, 30, 1200, 2);
    plan_sections<c2c_stockham_dif2r_plan<mon::c128>>("stockham2r<c128>", 2, 7, 12, 14, 30, 1200, 0);
    plan_sections<c2c_stockham_dif2i_plan<std::complex<double>>>("stockham2i<cd>", 2, 7, 12, 14, 30, 1200, 2);
    plan_sections<c2c_stockham_dif2i_plan<mon::c64>>("stockham2i<c64>", 2, 7, 12, 14, 30, 1200, 0);
    plan_sections<c2c_stockham_dif3_plan<std::complex<float>>>("stockham3<cf>", 3, 4, 7, 8, 28, 1200, 1);
    plan_sections<c2c_stockham_dif4_plan<std::complex<double>>>("stockham4<cd>", 4, 3, 6, 7, 24, 1200, 1);
    plan_sections<c2c_stockham_dif5_plan<mon::c64>>("stockham5<c64>", 5, 3, 5, 5, 24, 1000, 1);
    plan_sections<c2c_stockham_dif8_plan<std::complex<float>>>("stockham8<cf>", 8, 2, 4, 4, 20, 800, 1);
    plan_sections<c2c_stockham_dit4_plan<mon::c128>>("stockham_dit4<c128>", 4, 3, 6, 7, 24, 1200, 1);
}

}  // namespace

MON_MAIN(body)
