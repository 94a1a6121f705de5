// C22: integer helpers, sizes/orders and the index permutations.
#include "spectral.hpp"

#include <neo/bit.hpp>
#include "cx.hpp"
#include <neo/complex/split_complex.hpp>
#include <neo/convolution/mode.hpp>
#include <neo/fft/reference/bitrevorder.hpp>
#include <neo/fft/reference/digitrevorder.hpp>
#include <neo/fft/order.hpp>
#include <neo/math.hpp>

using namespace mon;

namespace {

using i128 = __int128;

template<typename U>
auto bits_case(Case& c, U x) -> void
{
    constexpr auto w = std::numeric_limits<U>::digits;
    if (x != 0) {
        auto lg = 0;
        while (lg + 1 < w && (static_cast<i128>(1) << (lg + 1)) <= static_cast<i128>(x)) {
            ++lg;
        }
        c.check(neo::bit_log2(x) == static_cast<U>(lg), "bit_log2", [&] { return str("x=%llu got %llu want %d", (unsigned long long)x, (unsigned long long)neo::bit_log2(x), lg); });
        auto const up = (static_cast<i128>(1) << lg) == static_cast<i128>(x) ? lg : lg + 1;
        if (up < w) {
            auto const want = static_cast<U>(static_cast<i128>(1) << up);
            c.check(neo::bit_ceil(x) == want, "bit_ceil", [&] { return str("x=%llu got %llu", (unsigned long long)x, (unsigned long long)neo::bit_ceil(x)); });
            c.check(neo::detail::bit_ceil_fallback(x) == want, "bit_ceil_portable", [&] { return str("x=%llu got %llu", (unsigned long long)x, (unsigned long long)neo::detail::bit_ceil_fallback(x)); });
            c.check(neo::fft::next_order(x) == static_cast<U>(up), "next_order", [&] { return str("x=%llu got %llu", (unsigned long long)x, (unsigned long long)neo::fft::next_order(x)); });
        }
    }
    c.check(neo::is_even(x) == (x % 2 == 0) && neo::is_odd(x) == (x % 2 != 0), "parity", [&] { return str("x=%llu", (unsigned long long)x); });
}

template<typename S>
auto signed_case(Case& c, S x) -> void
{
    c.check(neo::is_even(x) == (x % 2 == 0) && neo::is_odd(x) == (x % 2 != 0), "parity", [&] { return str("x=%lld", (long long)x); });
    if (x > 0) {
        auto up = 0;
        while ((static_cast<i128>(1) << up) < static_cast<i128>(x)) {
            ++up;
        }
        c.check(neo::fft::next_order(x) == static_cast<S>(up), "next_order", [&] { return str("x=%lld got %lld", (long long)x, (long long)neo::fft::next_order(x)); });
    }
}

template<typename T>
auto div_case(Case& c, T x, T y) -> void
{
    // x >= 0, y > 0, x + y - 1 representable
    auto const want = static_cast<T>((static_cast<i128>(x) + y - 1) / y);
    c.check(neo::idiv(x, y) == want, "idiv", [&] { return str("%lld / %lld got %lld", (long long)x, (long long)y, (long long)neo::idiv(x, y)); });
}

template<typename T, T Base>
auto pow_all(Case& c) -> void
{
    auto v = static_cast<i128>(1);
    for (T e = 0;; ++e) {
        if (v > static_cast<i128>(std::numeric_limits<T>::max()) || e > 140) {
            break;
        }
        c.check(neo::ipow<Base>(e) == static_cast<T>(v), "ipow_static", [&] { return str("%lld^%lld got %lld", (long long)Base, (long long)e, (long long)neo::ipow<Base>(e)); });
        c.check(neo::ipow(Base, e) == static_cast<T>(v), "ipow", [&] { return str("%lld^%lld got %lld", (long long)Base, (long long)e, (long long)neo::ipow(Base, e)); });
        if constexpr (Base == T(2)) {
            c.check(neo::fft::size(e) == static_cast<T>(v), "fft_size", [&] { return str("2^%lld", (long long)e); });
            c.check(neo::fft::next_order(neo::fft::size(e)) == e, "order_of_size", [&] { return str("%lld", (long long)e); });
        }
        v *= Base;
    }
}

template<typename T>
auto pow_bases(Case& c) -> void
{
    pow_all<T, 2>(c);
    pow_all<T, 3>(c);
    pow_all<T, 4>(c);
    pow_all<T, 5>(c);
    pow_all<T, 7>(c);
    pow_all<T, 8>(c);
    pow_all<T, 10>(c);
    pow_all<T, 16>(c);
    pow_all<T, 17>(c);
    pow_all<T, 32>(c);
    pow_all<T, 64>(c);
}

template<typename T>
auto rand_wide(Rng& r) -> T
{
    auto const sh = r.range(0, 63);
    auto const v  = r.u64() >> sh;
    auto const e  = r.range(0, 3);
    auto const p  = std::uint64_t{1} << r.range(0, 62);
    return static_cast<T>(e == 0 ? p : e == 1 ? p + 1 : e == 2 ? p - 1 : v);
}

auto reverse(std::size_t i, std::size_t base, std::size_t digits) -> std::size_t
{
    auto o = std::size_t{0};
    for (std::size_t d = 0; d < digits; ++d) {
        o = o * base + i % base;
        i /= base;
    }
    return o;
}

template<typename C>
auto permutations(char const* name) -> void
{
    using T = typename C::value_type;
    section(name, 33, 210, [=](Case& c) {
        auto const order = static_cast<std::size_t>(c.index) < 26 ? static_cast<std::size_t>(c.index) % 13 : 13 + static_cast<std::size_t>(c.index) % 7;
        auto const n     = std::size_t{1} << order;
        auto const st    = c.rng.chance(1, 3) ? std::size_t{1} : c.rng.stride();
        c.desc("%s bit reversal order=%zu stride=%zu stream=%lld", name, order, st, c.index);
        auto plan = neo::fft::bitrevorder_plan{order};
        auto a    = Buf<C>(n, st, c.rng.size(0, 2));
        auto b    = Buf<C>(n, 1);
        auto re   = Buf<T>(n, st);
        auto im   = Buf<T>(n, c.rng.step());
        auto f    = Buf<T>(2 * n, st);
        auto f2   = Buf<T>(2 * n, 1);
        for (std::size_t i = 0; i < n; ++i) {
            auto const r = static_cast<T>(i), q = static_cast<T>(i) + T(0.5);
            a[i] = b[i] = C{r, q};
            re[i]       = r;
            im[i]       = q;
            f[2 * i] = f2[2 * i] = r;
            f[2 * i + 1] = f2[2 * i + 1] = q;
        }
        plan(strided(a));
        neo::fft::bitrevorder(contiguous(b));
        plan(neo::split_complex{strided(re), strided(im)});
        plan(strided(f));
        neo::fft::bitrevorder(contiguous(f2));
        for (std::size_t i = 0; i < n; ++i) {
            auto const j = reverse(i, 2, order);
            auto const r = static_cast<T>(j), q = static_cast<T>(j) + T(0.5);
            c.check(a[i].real() == r && a[i].imag() == q, "bitrev_plan", [&] { return str("i=%zu", i); });
            c.check(b[i].real() == r && b[i].imag() == q, "bitrev", [&] { return str("i=%zu", i); });
            c.check(re[i] == r && im[i] == q, "bitrev_split", [&] { return str("i=%zu", i); });
            c.check(f[2 * i] == r && f[2 * i + 1] == q, "bitrev_interleaved_plan", [&] { return str("i=%zu", i); });
            c.check(f2[2 * i] == r && f2[2 * i + 1] == q, "bitrev_interleaved", [&] { return str("i=%zu", i); });
        }
        c.check(a.intact() && b.intact() && re.intact() && im.intact() && f.intact() && f2.intact(), "out_of_range_write");
    });
}

template<std::size_t Radix, typename C>
auto digits(char const* name, std::size_t max_digits) -> void
{
    using T = typename C::value_type;
    section(name, static_cast<long long>(max_digits + 1), static_cast<long long>(max_digits + 2), [=](Case& c) {
        auto const d = static_cast<std::size_t>(c.index);
        auto n       = std::size_t{1};
        for (std::size_t i = 0; i < d; ++i) {
            n *= Radix;
        }
        c.desc("%s digits=%zu n=%zu", name, d, n);
        auto plan = neo::fft::digitrevorder_plan<Radix>{n};
        auto a    = Buf<C>(n, c.rng.stride(), 1);
        for (auto rep = 0; rep < 2; ++rep) {
            for (std::size_t i = 0; i < n; ++i) {
                a[i] = C{static_cast<T>(i), T(rep)};
            }
            plan(strided(a));
            for (std::size_t i = 0; i < n; ++i) {
                auto const j = reverse(i, Radix, d);
                c.check(a[i].real() == static_cast<T>(j), "digitrev", [&] { return str("i=%zu got %g want %zu", i, double(a[i].real()), j); });
            }
        }
        c.check(a.intact(), "out_of_range_write");
    });
}

auto body() -> void
{
    section("bits8_all", 1, 1, [](Case& c) {
        c.desc("every 8-bit value");
        for (auto i = 0; i < 256; ++i) {
            bits_case(c, static_cast<std::uint8_t>(i));
            signed_case(c, static_cast<std::int8_t>(i));
        }
    });
    section("bits16_all", 1, 1, [](Case& c) {
        c.desc("every 16-bit value");
        for (auto i = 0; i < 65536; ++i) {
            bits_case(c, static_cast<std::uint16_t>(i));
            signed_case(c, static_cast<std::int16_t>(i));
        }
    });
    section("bits_wide", 60, 3000, [](Case& c) {
        c.desc("wide values stream=%lld", c.index);
        for (auto i = 0; i < 400; ++i) {
            bits_case(c, rand_wide<std::uint32_t>(c.rng));
            bits_case(c, rand_wide<std::uint64_t>(c.rng));
            bits_case(c, rand_wide<unsigned long long>(c.rng));
            signed_case(c, rand_wide<int>(c.rng));
            signed_case(c, rand_wide<long long>(c.rng));
        }
    });
    section("pow", 1, 1, [](Case& c) {
        c.desc("every representable power of the listed bases");
        pow_bases<int>(c);
        pow_bases<unsigned>(c);
        pow_bases<long long>(c);
        pow_bases<std::size_t>(c);
        pow_bases<std::int16_t>(c);
        pow_bases<std::uint8_t>(c);
    });
    section("pow_runtime", 8, 200, [](Case& c) {
        c.desc("runtime bases stream=%lld", c.index);
        for (auto i = 0; i < 100; ++i) {
            auto const base = c.rng.range(-40, 40);
            auto v          = static_cast<i128>(1);
            for (auto e = 0; e < 70; ++e) {
                if (v > INT64_MAX || v < INT64_MIN) {
                    break;
                }
                c.check(neo::ipow(static_cast<std::int64_t>(base), static_cast<std::int64_t>(e)) == static_cast<std::int64_t>(v), "ipow", [&] { return str("%lld^%d", (long long)base, e); });
                v *= base;
            }
        }
    });
    section("idiv", 40, 2000, [](Case& c) {
        c.desc("ceiling division stream=%lld", c.index);
        if (c.index == 0) {
            for (auto x = 0; x <= 127; ++x) {
                for (auto y = 1; y <= 127 && x + y - 1 <= 127; ++y) {
                    div_case(c, static_cast<std::int8_t>(x), static_cast<std::int8_t>(y));
                }
            }
            for (auto x = 0; x <= 255; ++x) {
                for (auto y = 1; y <= 255 && x + y - 1 <= 255; ++y) {
                    div_case(c, static_cast<std::uint8_t>(x), static_cast<std::uint8_t>(y));
                }
            }
        }
        for (auto i = 0; i < 500; ++i) {
            auto const x = rand_wide<std::uint64_t>(c.rng) >> 2;
            auto y       = (rand_wide<std::uint64_t>(c.rng) >> 2) | (i % 2);
            y            = y == 0 ? 1 : y;
            div_case(c, static_cast<std::size_t>(x), static_cast<std::size_t>(y));
            div_case(c, static_cast<long long>(x), static_cast<long long>(y));
            auto const xi = static_cast<int>(x % 1000000000U);
            auto const yi = static_cast<int>(y % 1000000000U) + 1;
            div_case(c, xi, yi);
            auto const k = 1 + static_cast<int>(y % 5000U);
            div_case(c, k * (xi % 100000), k);
        }
    });
    section("output_size", 10, 200, [](Case& c) {
        c.desc("full convolution length stream=%lld", c.index);
        for (auto i = 0; i < 300; ++i) {
            auto const a = c.rng.size(1, 100000), b = c.rng.size(1, 100000);
            c.check(neo::convolution::output_size<neo::convolution::mode::full>(a, b) == a + b - 1, "output_size");
            c.check(neo::convolution::output_size<neo::convolution::mode::full>(int(a), int(b)) == int(a + b - 1), "output_size");
        }
    });
    section("bit_cast", 10, 200, [](Case& c) {
        c.desc("bit_cast stream=%lld", c.index);
        for (auto i = 0; i < 500; ++i) {
            auto const u = static_cast<std::uint32_t>(c.rng.u64());
            auto const f = neo::bit_cast<float>(u);
            std::uint32_t back{};
            std::memcpy(&back, &f, 4);
            c.check(back == u && neo::bit_cast<std::uint32_t>(f) == u, "bit_cast");
            auto const d = c.rng.normal() * 1e10;
            std::uint64_t q{};
            std::memcpy(&q, &d, 8);
            c.check(neo::bit_cast<std::uint64_t>(d) == q, "bit_cast");
        }
    });
    permutations<std::complex<float>>("permute<cf>");
    permutations<mon::c128>("permute<c128>");
    digits<2, std::complex<float>>("digits2", 18);
    digits<3, std::complex<float>>("digits3", fast_build ? 13 : 11);
    digits<4, std::complex<double>>("digits4", fast_build ? 10 : 9);
    digits<5, mon::c64>("digits5", 8);
    digits<8, std::complex<float>>("digits8", fast_build ? 7 : 6);
}

}  // namespace

MON_MAIN(body)
