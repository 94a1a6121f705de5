// mdspan views over guarded buffers and long double transform oracles.
#pragma once

#include "mon.hpp"

#include <neo/config.hpp>

#include <neo/complex.hpp>
#include <neo/container/mdspan.hpp>
#include <neo/fft/direction.hpp>

namespace mon {

using cld = std::complex<ld>;

template<typename T, typename Index = std::size_t>
auto contiguous(Buf<T>& b)
{
    return stdex::mdspan<T, stdex::dextents<Index, 1>>{b.data(), stdex::dextents<Index, 1>{static_cast<Index>(b.n)}};
}

template<typename T, typename Index = std::size_t>
auto contiguous_const(Buf<T>& b)
{
    return stdex::mdspan<T const, stdex::dextents<Index, 1>>{b.data(), stdex::dextents<Index, 1>{static_cast<Index>(b.n)}};
}

template<typename T, typename Index = std::size_t>
auto strided(Buf<T>& b)
{
    auto const m = stdex::layout_stride::mapping<stdex::dextents<Index, 1>>{
        stdex::dextents<Index, 1>{static_cast<Index>(b.n)}, std::array<Index, 1>{static_cast<Index>(b.stride)}
    };
    return stdex::mdspan<T, stdex::dextents<Index, 1>, stdex::layout_stride>{b.data(), m};
}

template<typename T, typename Index = std::size_t>
auto strided_const(Buf<T>& b)
{
    auto const m = stdex::layout_stride::mapping<stdex::dextents<Index, 1>>{
        stdex::dextents<Index, 1>{static_cast<Index>(b.n)}, std::array<Index, 1>{static_cast<Index>(b.stride)}
    };
    return stdex::mdspan<T const, stdex::dextents<Index, 1>, stdex::layout_stride>{b.data(), m};
}

/// exp(sign * 2 pi i k / n), k reduced exactly
inline auto root(std::size_t n, std::size_t k, int sign) -> cld
{
    auto const r = static_cast<ld>(k % n) / static_cast<ld>(n);
    return {std::cos(2 * pi_l * r), static_cast<ld>(sign) * std::sin(2 * pi_l * r)};
}

inline auto roots(std::size_t n, int sign) -> std::vector<cld>
{
    auto w = std::vector<cld>(n);
    for (std::size_t k = 0; k < n; ++k) {
        w[k] = root(n, k, sign);
    }
    return w;
}

/// The definition.
inline auto dft_naive(std::vector<cld> const& x, int sign) -> std::vector<cld>
{
    auto const n = x.size();
    auto const w = roots(n, sign);
    auto y       = std::vector<cld>(n);
    for (std::size_t k = 0; k < n; ++k) {
        auto re = 0.0L, im = 0.0L;
        auto j = std::size_t{0};
        for (std::size_t i = 0; i < n; ++i) {
            re += x[i].real() * w[j].real() - x[i].imag() * w[j].imag();
            im += x[i].real() * w[j].imag() + x[i].imag() * w[j].real();
            j += k;
            if (j >= n) {
                j -= n;
            }
        }
        y[k] = {re, im};
    }
    return y;
}

/// Recursive mixed radix over long double, for sizes where the definition is too slow.
inline auto dft_rec(std::vector<cld> const& x, int sign) -> std::vector<cld>
{
    auto const n = x.size();
    auto p       = std::size_t{2};
    while (p * p <= n && n % p != 0) {
        ++p;
    }
    if (n <= 8 || n % p != 0 || p == n || p * p > n) {
        return dft_naive(x, sign);
    }
    auto const m = n / p;
    auto sub     = std::vector<std::vector<cld>>{};
    for (std::size_t r = 0; r < p; ++r) {
        auto s = std::vector<cld>(m);
        for (std::size_t i = 0; i < m; ++i) {
            s[i] = x[i * p + r];
        }
        sub.push_back(dft_rec(s, sign));
    }
    auto const w = roots(n, sign);
    auto y       = std::vector<cld>(n);
    for (std::size_t k = 0; k < n; ++k) {
        auto acc = cld{};
        for (std::size_t r = 0; r < p; ++r) {
            auto const& a = sub[r][k % m];
            auto const& b = w[(r * k) % n];
            acc += cld{a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()};
        }
        y[k] = acc;
    }
    return y;
}

inline auto dft_oracle(std::vector<cld> const& x, int sign) -> std::vector<cld>
{
    return x.size() <= 128 ? dft_naive(x, sign) : dft_rec(x, sign);
}

template<typename C>
auto to_ld(C const& z) -> cld
{
    return {static_cast<ld>(z.real()), static_cast<ld>(z.imag())};
}

template<typename C>
auto to_ld(std::vector<C> const& v) -> std::vector<cld>
{
    auto o = std::vector<cld>(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
        o[i] = to_ld(v[i]);
    }
    return o;
}

inline auto norm2(std::vector<cld> const& x) -> ld
{
    auto s = 0.0L;
    for (auto const& z : x) {
        s += z.real() * z.real() + z.imag() * z.imag();
    }
    return std::sqrt(s);
}

inline auto max_err(std::vector<cld> const& a, std::vector<cld> const& b, std::size_t* where = nullptr) -> ld
{
    auto e = 0.0L;
    for (std::size_t i = 0; i < a.size(); ++i) {
        auto d = std::max(std::abs(a[i].real() - b[i].real()), std::abs(a[i].imag() - b[i].imag()));
        if (!(d == d)) {
            d = std::numeric_limits<ld>::infinity();
        }
        if (d > e) {
            e = d;
            if (where != nullptr) {
                *where = i;
            }
        }
    }
    return e;
}

inline auto peak(std::vector<cld> const& x) -> ld
{
    auto s = 0.0L;
    for (auto const& z : x) {
        s = std::max({s, std::abs(z.real()), std::abs(z.imag())});
    }
    return s;
}

/// Error budget of one length-n transform in T. `norm` = |x|_2 (rounding of the butterflies), `top` = largest output
/// (rounding of the twiddle angles leaks a fixed fraction of a concentrated spectrum).
/// what rounding of results too small to be normal may cost
template<typename T>
constexpr auto floor_of() -> ld
{
    return 64 * static_cast<ld>(std::numeric_limits<T>::min());
}

template<typename T>
auto fft_tol(std::size_t n, ld norm, ld top) -> ld
{
    return 8 * eps<T>() * (std::log2(static_cast<ld>(n)) + 2) * (norm + top) + floor_of<T>();
}

/// loudness of a whole signal; wide: anywhere in the range of the number type that leaves room for the sums of a transform
template<typename T>
auto loudness(Rng& r, bool wide = true) -> double
{
    auto const top = sizeof(T) == 4 ? 24.0 : 140.0;
    return wide && r.chance(1, 5) ? std::pow(10.0, top * r.sym()) : r.pick(1.0, 1.0, 1e-6, 1e5);
}

template<typename C>
auto complex_signal(Rng& r, std::size_t n, int& cls, bool wide = true) -> std::vector<C>
{
    using T   = typename C::value_type;
    int c1{}, c2{};
    auto const amp = loudness<T>(r, wide);
    auto const re  = real_signal(r, n, c1, amp);
    auto im        = real_signal(r, n, c2, amp);
    auto kind      = r.range(0, 5);
    if (kind == 0) {
        std::fill(im.begin(), im.end(), 0.0);
    }
    auto v = std::vector<C>(n);
    for (std::size_t i = 0; i < n; ++i) {
        v[i] = kind == 1 ? C{T(0), static_cast<T>(im[i])} : C{static_cast<T>(re[i]), static_cast<T>(im[i])};
    }
    cls = c1 * 10 + c2;
    return v;
}

}  // namespace mon
