// C01: the default radix-2 plan and its kernels compute the discrete Fourier transform.
#include "plan_check.hpp"

#include "cx.hpp"
#include <neo/fft.hpp>

#if defined(NEO_HAS_XSIMD)
    #include <neo/config/xsimd.hpp>
#endif

using namespace mon;

namespace {

/// Largest single allocation allowed, so that a plan which should be refused cannot exhaust the machine instead.
thread_local std::size_t new_limit = static_cast<std::size_t>(-1);

}  // namespace

auto operator new(std::size_t n) -> void*
{
    if (n <= new_limit) {
        if (auto* p = std::malloc(n == 0 ? 1 : n); p != nullptr) {
            return p;
        }
    }
    throw std::bad_alloc{};
}
auto operator delete(void* p) noexcept -> void { std::free(p); }
auto operator delete(void* p, std::size_t) noexcept -> void { std::free(p); }

namespace {

namespace k = neo::fft::kernel;

template<typename Batch, typename Kernel>
auto batch_kernel(char const* name) -> void
{
    using SC = typename Batch::value_type;
    using SB = typename Batch::real_batch;
    using T  = typename SC::value_type;
    section(name, 22, 400, [=](Case& c) {
        auto const order = static_cast<std::size_t>(c.index) % 11;
        auto const n     = std::size_t{1} << order;
        auto const sign  = c.rng.chance(1, 2) ? -1 : 1;
        c.desc("%s order=%zu sign=%d stream=%lld", name, order, sign, c.index);
        constexpr auto lanes = SB::size;
        auto in              = std::vector<std::vector<SC>>{};
        int cls{};
        for (std::size_t l = 0; l < lanes; ++l) {
            in.push_back(complex_signal<SC>(c.rng, n, cls));
        }
        auto x  = stdex::mdarray<Batch, stdex::dextents<std::size_t, 1>>{n};
        auto tw = stdex::mdarray<Batch, stdex::dextents<std::size_t, 1>>{std::max<std::size_t>(n / 2, 1)};
        for (std::size_t i = 0; i < n; ++i) {
            T re[lanes], im[lanes];
            for (std::size_t l = 0; l < lanes; ++l) {
                re[l] = in[l][i].real();
                im[l] = in[l][i].imag();
            }
            x(i) = Batch{SB::load_unaligned(re), SB::load_unaligned(im)};
        }
        auto const lut = neo::fft::make_twiddle_lut_radix2<SC>(n, dir_of(sign));
        for (std::size_t i = 0; i < n / 2; ++i) {
            tw(i) = Batch{SB::broadcast(lut(i).real()), SB::broadcast(lut(i).imag())};
        }
        neo::fft::bitrevorder(x.to_mdspan());
        Kernel{}(x.to_mdspan(), tw.to_mdspan());
        auto got = std::vector<std::vector<cld>>(lanes, std::vector<cld>(n));
        for (std::size_t i = 0; i < n; ++i) {
            T re[lanes], im[lanes];
            x(i).real().store_unaligned(re);
            x(i).imag().store_unaligned(im);
            for (std::size_t l = 0; l < lanes; ++l) {
                got[l][i] = {static_cast<ld>(re[l]), static_cast<ld>(im[l])};
            }
        }
        for (std::size_t l = 0; l < lanes; ++l) {
            auto const ref = dft_oracle(to_ld(in[l]), sign);
            auto const tol = fft_tol<T>(n, norm2(to_ld(in[l])), peak(ref));
            auto const err = max_err(got[l], ref);
            c.check(err <= tol, "batch_kernel", [&] { return str("lane %zu err %Lg tol %Lg", l, err, tol); });
            c.compared(n);
        }
    });
}

template<typename C>
auto misc(char const* name) -> void
{
    using T = typename C::value_type;
    section(name, 40, 800, [=](Case& c) {
        auto const n   = c.rng.size(1, 3000);
        auto const idx = c.rng.size(0, n * 2);
        auto const s   = c.rng.chance(1, 2) ? -1 : 1;
        c.desc("%s twiddle n=%zu k=%zu sign=%d", name, n, idx, s);
        auto const w   = to_ld(neo::fft::twiddle<C>(n, idx, dir_of(s)));
        auto const r   = root(n, idx, s);
        auto const tol = eps<T>() * 40;
        c.check(std::abs(w.real() - r.real()) <= tol && std::abs(w.imag() - r.imag()) <= tol, "twiddle", [&] { return str("(%Lg,%Lg) want (%Lg,%Lg)", w.real(), w.imag(), r.real(), r.imag()); });
        auto const order = c.rng.size(0, 12);
        auto const sz    = std::size_t{1} << order;
        auto const lut   = neo::fft::make_twiddle_lut_radix2<C>(sz, dir_of(s));
        c.check(lut.extent(0) == sz / 2, "twiddle_lut_size");
        for (std::size_t i = 0; i < sz / 2 && i < lut.extent(0); ++i) {
            auto const g = to_ld(lut(i));
            auto const e = root(sz, i, s);
            c.check(std::abs(g.real() - e.real()) <= tol && std::abs(g.imag() - e.imag()) <= tol, "twiddle_lut", [&] { return str("n=%zu i=%zu", sz, i); });
        }
        // unsupported orders are refused
        auto const bad = neo::fft::c2c_dit2_plan<C>::max_order() + (c.index % 2 == 0 ? 1 : c.rng.size(1, 30));
        auto threw     = false;
        new_limit      = std::size_t{1} << 26;
        try {
            auto plan = neo::fft::c2c_dit2_plan<C>{neo::fft::from_order, bad};
        } catch (std::bad_alloc const&) {
        } catch (std::exception const&) {
            threw = true;
        }
        new_limit = static_cast<std::size_t>(-1);
        c.check(threw, "order_not_refused", [&] { return str("order %zu", bad); });
        c.check(neo::fft::c2c_dit2_plan<C>::max_size() == (std::size_t{1} << neo::fft::c2c_dit2_plan<C>::max_order()), "max_size");
    });
}

/// The largest supported orders, one unit vector each; its image is known in closed form.
template<typename C>
auto largest(char const* name) -> void
{
    using Plan = neo::fft::fft_plan<C>;
    section(name, 1, 3, [=](Case& c) {
        auto const order = std::min<std::size_t>(g.thorough ? 27 - static_cast<std::size_t>(c.index) : 25, Plan::max_order());
        auto const n     = std::size_t{1} << order;
        auto const sign  = c.rng.chance(1, 2) ? -1 : 1;
        auto const at    = c.rng.pick(c.rng.size(0, n - 1), n - 1 - c.rng.size(0, 9), n / 2 + c.rng.size(0, 9));
        c.desc("%s order=%zu sign=%d unit vector %zu", name, order, sign, at);
        auto plan = Plan{neo::fft::from_order, order};
        c.check(plan.size() == n, "size_order");
        auto a = Buf<C>(n);
        impulse_case<C>(c, a, at, sign, 1, [&](auto x) { plan(x, dir_of(sign)); });
        c.count("largest_transforms");
    }, 400);
}

/// A plan of the user's own that transforms out of place: the helpers hand it both views and the right direction.
template<typename C>
struct UserPlan
{
    using value_type = C;
    std::size_t calls{0};
    template<typename In, typename Out>
    auto operator()(In in, Out out, neo::fft::direction dir) -> void
    {
        using T = typename C::value_type;
        ++calls;
        auto const n = static_cast<std::size_t>(in.extent(0));
        auto v       = std::vector<cld>(n);
        for (std::size_t i = 0; i < n; ++i) {
            v[i] = to_ld(C{in(i).real(), in(i).imag()});
        }
        auto const y = dft_naive(v, dir == neo::fft::direction::forward ? -1 : 1);
        for (std::size_t i = 0; i < n; ++i) {
            out(i) = C{static_cast<T>(y[i].real()), static_cast<T>(y[i].imag())};
        }
    }
};

template<typename C>
auto user_plan(char const* name) -> void
{
    using T = typename C::value_type;
    section(name, 20, 200, [=](Case& c) {
        auto const n    = c.rng.size(1, 40);
        auto const sign = c.index % 2 == 0 ? -1 : 1;
        c.desc("%s n=%zu sign=%d stream=%lld", name, n, sign, c.index);
        int cls{};
        auto const x = complex_signal<C>(c.rng, n, cls);
        auto a = Buf<C>(n), o = Buf<C>(n);
        a.set(x);
        auto plan = UserPlan<C>{};
        sign < 0 ? neo::fft::fft(plan, contiguous_const(a), contiguous(o)) : neo::fft::ifft(plan, contiguous_const(a), contiguous(o));
        auto const ref = dft_naive(to_ld(x), sign);
        c.check(plan.calls == 1, "user_plan_calls");
        c.check(max_err(to_ld(o.get()), ref) <= fft_tol<T>(n, norm2(to_ld(x)), peak(ref)), "user_plan");
        c.check(same_bits(a.get(), x), "input_changed");
    });
}

auto body() -> void
{
    user_plan<std::complex<float>>("user_plan<cf>");
    user_plan<std::complex<double>>("user_plan<cd>");
    section("oracle_selfcheck", 12, 12, [](Case& c) {
        auto const n = std::array<std::size_t, 12>{1, 2, 3, 16, 25, 27, 64, 81, 125, 128, 144, 243}[static_cast<std::size_t>(c.index)];
        c.desc("recursive oracle against the definition, n=%zu", n);
        auto x = std::vector<cld>(n);
        for (auto& z : x) {
            z = {c.rng.sym(), c.rng.sym()};
        }
        c.check(max_err(dft_rec(x, -1), dft_naive(x, -1)) < 1e-15L * static_cast<ld>(n), "oracle");
    });

    plan_sections<neo::fft::fft_plan<std::complex<float>>>("fft_plan<cf>", 2, 8, 13, 17, 80, 3000, 5);
    plan_sections<neo::fft::fft_plan<std::complex<double>>>("fft_plan<cd>", 2, 8, 13, 17, 80, 3000, 5);
    plan_sections<neo::fft::fft_plan<mon::c64>>("fft_plan<c64>", 2, 8, 13, 17, 60, 2000, 5);
    plan_sections<neo::fft::fft_plan<mon::c128>>("fft_plan<c128>", 2, 8, 13, 17, 60, 2000, 5);
    plan_sections<neo::fft::c2c_dit2_plan<std::complex<float>, k::c2c_dit2_v1>>("dit2_v1<cf>", 2, 7, 13, 15, 40, 1000, 3);
    plan_sections<neo::fft::c2c_dit2_plan<mon::c128, k::c2c_dit2_v1>>("dit2_v1<c128>", 2, 7, 13, 15, 40, 1000, 0);
    plan_sections<neo::fft::c2c_dit2_plan<std::complex<double>, k::c2c_dit2_v2>>("dit2_v2<cd>", 2, 7, 13, 15, 40, 1000, 3);
    plan_sections<neo::fft::c2c_dit2_plan<mon::c64, k::c2c_dit2_v2>>("dit2_v2<c64>", 2, 7, 13, 15, 40, 1000, 0);
    plan_sections<neo::fft::c2c_dit2_plan<std::complex<float>, k::c2c_dit2_v4>>("dit2_v4<cf>", 2, 7, 13, 15, 40, 1000, 3);
    plan_sections<neo::fft::c2c_dit2_plan<mon::c128, k::c2c_dit2_v4>>("dit2_v4<c128>", 2, 7, 13, 15, 40, 1000, 0);
    if constexpr (fast_build) {
        largest<std::complex<float>>("largest<cf>");
    }
    misc<std::complex<float>>("misc<cf>");
    misc<std::complex<double>>("misc<cd>");
    misc<mon::c64>("misc<c64>");
#if defined(NEO_HAS_XSIMD)
    batch_kernel<xsimd::batch<std::complex<float>>, k::c2c_dit2_v1>("batch_f_v1");
    batch_kernel<xsimd::batch<std::complex<float>>, k::c2c_dit2_v2>("batch_f_v2");
    batch_kernel<xsimd::batch<std::complex<float>>, k::c2c_dit2_v3>("batch_f_v3");
    batch_kernel<xsimd::batch<std::complex<float>>, k::c2c_dit2_v4>("batch_f_v4");
    batch_kernel<xsimd::batch<std::complex<double>>, k::c2c_dit2_v3>("batch_d_v3");
#endif
}

}  // namespace

MON_MAIN(body)
