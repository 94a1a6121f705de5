// Streaming convolver drivers and long double references.
#pragma once

#include "spectral.hpp"

#include "cx.hpp"
#include <neo/convolution.hpp>
#include <neo/fft.hpp>

namespace mon {

namespace nc = neo::convolution;

template<typename T>
constexpr auto is_sparse = false;
template<typename O, typename F, typename C>
constexpr auto is_sparse<nc::uniform_partitioned_convolver<O, F, nc::sparse_filter<C>>> = true;

/// any length of at least one block per call
template<typename T>
constexpr auto is_chunked = false;
template<typename C, typename F, typename G>
constexpr auto is_chunked<nc::overlap_add_convolver<C, F, G>> = true;

using Mask = std::function<bool(std::size_t, std::size_t)>;

template<typename C>
struct Spectra
{
    std::size_t parts{}, bins{};
    std::vector<C> v;
    auto view() const { return stdex::mdspan<C const, stdex::dextents<std::size_t, 2>>{v.data(), stdex::dextents<std::size_t, 2>{parts, bins}}; }
};

/// The library's own partitioning of a one-channel impulse response
template<typename C>
auto partition_of(std::vector<typename C::value_type> const& h, std::size_t block) -> Spectra<C>
{
    using T      = typename C::value_type;
    auto const m = stdex::mdspan<T const, stdex::dextents<std::size_t, 2>>{h.data(), stdex::dextents<std::size_t, 2>{1, h.size()}};
    auto p       = nc::uniform_partition(m, block);
    auto s       = Spectra<C>{std::size_t(p.extent(1)), std::size_t(p.extent(2)), {}};
    for (std::size_t i = 0; i < s.parts; ++i) {
        for (std::size_t k = 0; k < s.bins; ++k) {
            s.v.push_back(C{p(0, i, k).real(), p(0, i, k).imag()});
        }
    }
    return s;
}

template<typename Conv, typename C>
auto set_filter(Conv& conv, Spectra<C> const& s, Mask const& keep = {}, [[maybe_unused]] std::function<void(std::size_t, std::size_t, bool)> const* seen = nullptr) -> void
{
    if constexpr (is_sparse<Conv>) {
        conv.filter(s.view(), [&](auto row, auto col, auto value) {
            auto const r = static_cast<std::size_t>(row);
            auto const k = static_cast<std::size_t>(col);
            if (seen != nullptr) {
                (*seen)(r, k, r < s.parts && k < s.bins && value.real() == s.v[r * s.bins + k].real() && value.imag() == s.v[r * s.bins + k].imag());
            }
            return !keep || keep(r, k);
        });
    } else {
        conv.filter(s.view());
    }
}

template<typename T>
auto convolve_ref(std::vector<T> const& x, std::vector<T> const& h) -> std::vector<ld>
{
    auto y = std::vector<ld>(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) {
        auto s = 0.0L;
        for (std::size_t j = 0; j < h.size() && j <= i; ++j) {
            s += static_cast<ld>(h[j]) * static_cast<ld>(x[i - j]);
        }
        y[i] = s;
    }
    return y;
}

template<typename T>
auto norm_of(std::vector<T> const& v) -> ld
{
    auto s = 0.0L;
    for (auto a : v) {
        s += static_cast<ld>(a) * static_cast<ld>(a);
    }
    return std::sqrt(s);
}

/// rounding budget of a partitioned convolution: the transforms, and one rounding per partition summed up (of equal signs
/// when the signals are constant)
template<typename T>
auto conv_tol(std::size_t block, std::size_t taps, ld xnorm, ld hnorm) -> ld
{
    auto const parts = static_cast<ld>(taps) / static_cast<ld>(block);
    return 8 * eps<T>() * (std::log2(static_cast<ld>(block)) + 5 + parts / 16) * xnorm * hnorm + floor_of<T>();
}

template<typename T>
auto audio(Rng& r, std::size_t n, int& cls, bool full_scale = false) -> std::vector<T>
{
    // from far below the noise floor of a converter to far above full scale
    auto const amp = full_scale ? 1.0 : r.chance(1, 12) ? std::pow(10.0, (sizeof(T) == 4 ? 13.0 : 70.0) * r.sym()) : r.pick(1.0, 1.0, 1.0, 1.0, 1e-3, 1e-5, 1e-8, 1e-10, 50.0, 1e4);
    auto const v   = real_signal(r, n, cls, amp);
    return std::vector<T>(v.begin(), v.end());
}

/// One stream through one convolver, block by block, through a guarded buffer of the given stride
template<typename T>
struct Stream
{
    std::vector<T> x, y;
    std::size_t pos{0};
    explicit Stream(std::vector<T> in) : x(std::move(in)), y(x.size()) {}
    auto left() const -> std::size_t { return x.size() - pos; }
    template<typename Conv>
    auto step(Case& c, Conv& conv, std::size_t n) -> void
    {
        n           = std::min(n, left());
        auto const st = c.rng.chance(1, 4) ? std::size_t{2} : std::size_t{1};
        auto b        = Buf<T>(n, st, c.rng.size(0, 3));
        for (std::size_t i = 0; i < n; ++i) {
            b[i] = x[pos + i];
        }
        if (st == 1) {
            conv(contiguous(b));
        } else {
            conv(strided(b));
        }
        for (std::size_t i = 0; i < n; ++i) {
            y[pos + i] = b[i];
        }
        pos += n;
        c.check(b.intact(), "out_of_range_write");
        c.count("blocks");
    }
};

template<typename T>
auto compare(Case& c, std::vector<T> const& got, std::vector<ld> const& want, ld tol, std::string const& key) -> bool
{
    auto worst = 0.0L;
    auto at    = std::size_t{0};
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto e = std::abs(static_cast<ld>(got[i]) - want[i]);
        e      = e == e ? e : 1e30L;
        if (e > worst) {
            worst = e;
            at    = i;
        }
    }
    c.metric(key + "_err_over_tol", worst / tol);
    c.compared(want.size());
    return c.check(worst <= tol, key, [&] { return str("sample %zu of %zu: got %Lg want %Lg tol %Lg", at, want.size(), static_cast<ld>(got[at]), want[at], tol); });
}

/// A very long stream of tiny blocks (past every 8 and 16 bit counter) through one convolver; the error budget is that of
/// the samples still in reach, not of the whole stream.
template<typename Conv>
auto marathon(Case& c, char const* name, std::size_t calls) -> void
{
    using C          = typename Conv::value_type;
    using T          = typename C::value_type;
    auto const block = std::size_t{2} << c.rng.size(0, 1);
    auto const parts = c.rng.size(1, 5);
    auto const hlen  = block * (parts - 1) + c.rng.size(1, block);
    auto h           = std::vector<T>(hlen);
    for (auto& v : h) {
        v = static_cast<T>(c.rng.sym());
    }
    c.desc("%s marathon block=%zu ir=%zu calls=%zu stream=%lld", name, block, hlen, calls, c.index);
    auto conv = Conv{};
    set_filter(conv, partition_of<C>(h, block));
    auto cuts  = std::vector<std::size_t>(calls, block);
    auto total = std::size_t{0};
    for (auto& n : cuts) {
        if (is_chunked<Conv> && c.index % 2 == 0) {
            n = block + c.rng.size(0, block);
        }
        total += n;
    }
    auto x = std::vector<T>(total), y = std::vector<T>(total);
    for (auto& v : x) {
        v = static_cast<T>(c.rng.sym());
    }
    auto buf = Buf<T>(2 * block, 1, 1);
    auto pos = std::size_t{0};
    for (auto n : cuts) {
        std::copy_n(x.data() + pos, n, buf.data());
        conv(stdex::mdspan<T, stdex::dextents<std::size_t, 1>>{buf.data(), stdex::dextents<std::size_t, 1>{n}});
        std::copy_n(buf.data(), n, y.data() + pos);
        pos += n;
    }
    c.check(buf.intact(), "out_of_range_write");
    compare(c, y, convolve_ref(x, h), conv_tol<T>(block, hlen, std::sqrt(static_cast<ld>(hlen + 4 * block)), norm_of(h)), "marathon");
    c.count("marathon_calls", calls);
}

/// Very long blocks (past every 16 bit size): few non-zero samples and taps keep the reference cheap.
template<typename Conv>
auto grand(Case& c, char const* name, std::size_t order) -> void
{
    using C          = typename Conv::value_type;
    using T          = typename C::value_type;
    auto const block = std::size_t{1} << order;
    auto const parts = c.rng.size(1, 3);
    auto const hlen  = block * (parts - 1) + c.rng.size(block / 2, block);
    auto const nblk  = parts + c.rng.size(1, 2);
    auto sparse      = [&](std::size_t n, std::size_t taps) {
        auto v = std::vector<T>(n);
        for (std::size_t i = 0; i < taps; ++i) {
            auto const at = i == 0 ? std::size_t{0} : i == 1 ? n - 1 : i % 3 == 0 ? std::min(n - 1, (i / 3) * block / 4) : c.rng.size(0, n - 1);
            v[at]         = static_cast<T>(c.rng.sym() + (i % 2 == 0 ? 1.5 : -1.5));
        }
        return v;
    };
    auto const h = sparse(hlen, 12);
    auto const x = sparse(nblk * block, 30);
    c.desc("%s long block=%zu ir=%zu blocks=%zu stream=%lld", name, block, hlen, nblk, c.index);
    auto want = std::vector<ld>(x.size());
    for (std::size_t j = 0; j < h.size(); ++j) {
        for (std::size_t i = 0; h[j] != T(0) && i + j < x.size(); ++i) {
            want[i + j] += static_cast<ld>(h[j]) * static_cast<ld>(x[i]);
        }
    }
    auto conv = Conv{};
    set_filter(conv, partition_of<C>(h, block));
    auto s = Stream<T>{x};
    while (s.left() > 0) {
        s.step(c, conv, block);
    }
    compare(c, s.y, want, conv_tol<T>(block, h.size(), norm_of(x), norm_of(h)), "long_blocks");
    c.count(str("block_order.%zu", order));
}

/// Frequency-domain block convolution with an arbitrary half spectrum per partition, in long double.
struct RefBlockConv
{
    std::size_t block;
    std::vector<std::vector<cld>> filter;  // [partition][bin]
    bool save;                             // overlap-save, else overlap-add
    std::vector<std::vector<cld>> history{};
    std::vector<ld> window{}, overlap{};

    auto operator()(std::vector<ld> const& in) -> std::vector<ld>
    {
        auto const n = 2 * block;
        window.resize(n);
        overlap.resize(block);
        auto frame = std::vector<cld>(n);
        if (save) {
            for (std::size_t i = 0; i < block; ++i) {
                window[i]         = window[i + block];
                window[i + block] = in[i];
            }
            for (std::size_t i = 0; i < n; ++i) {
                frame[i] = window[i];
            }
        } else {
            for (std::size_t i = 0; i < block; ++i) {
                frame[i] = in[i];
            }
        }
        history.insert(history.begin(), dft_oracle(frame, -1));
        if (history.size() > filter.size()) {
            history.pop_back();
        }
        auto acc = std::vector<cld>(n);
        for (std::size_t p = 0; p < history.size(); ++p) {
            for (std::size_t k = 0; k <= block; ++k) {
                auto const& a = history[p][k];
                auto const& b = filter[p][k];
                acc[k] += cld{a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()};
            }
        }
        acc[0]     = acc[0].real();
        acc[block] = acc[block].real();
        for (std::size_t k = 1; k < block; ++k) {
            acc[n - k] = std::conj(acc[k]);
        }
        auto const t = dft_oracle(acc, 1);
        auto out     = std::vector<ld>(block);
        for (std::size_t i = 0; i < block; ++i) {
            if (save) {
                out[i] = t[block + i].real() / static_cast<ld>(n);
            } else {
                out[i]     = t[i].real() / static_cast<ld>(n) + overlap[i];
                overlap[i] = t[block + i].real() / static_cast<ld>(n);
            }
        }
        return out;
    }
};

}  // namespace mon
