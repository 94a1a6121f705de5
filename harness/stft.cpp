// C05: short-time transform, windows, bin frequencies and impulse partitioning.
#include "plan_check.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/convolution/uniform_partition.hpp>
#include <neo/fft.hpp>
#include <neo/fft/rfftfreq.hpp>
#include <neo/fft/stft.hpp>
#include <neo/math/windowing.hpp>

using namespace mon;

namespace {

template<typename T>
auto matrix(Case& c, std::size_t ch, std::size_t len) -> std::vector<std::vector<T>>
{
    auto m = std::vector<std::vector<T>>{};
    for (std::size_t i = 0; i < ch; ++i) {
        int cls{};
        auto const v = real_signal(c.rng, len, cls, c.rng.chance(1, 6) ? loudness<T>(c.rng) : c.rng.pick(1.0, 1.0, 1.0, 1e-6, 1e4));
        m.emplace_back(v.begin(), v.end());
    }
    if (c.rng.chance(1, 6)) {
        // infinities and NaN spoil the frames that hold them, no other
        auto const bad = c.rng.pick(std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN());
        auto const run = c.rng.size(1, std::max<std::size_t>(1, len / 4));
        auto const at  = c.rng.size(0, len - 1);
        auto& v        = m[c.rng.size(0, ch - 1)];
        std::fill(v.begin() + static_cast<std::ptrdiff_t>(at), v.begin() + static_cast<std::ptrdiff_t>(std::min(len, at + run)), static_cast<T>(bad));
    }
    return m;
}

auto win(int kind, std::size_t i, std::size_t n) -> ld
{
    auto const co = std::cos(2 * pi_l * static_cast<ld>(i) / static_cast<ld>(n - 1));
    return kind == 0 ? 1.0L : kind == 1 ? 0.5L - 0.5L * co : 0.54L - 0.46L * co;
}

/// result[ch][frame][bin] against the definition
template<typename T, typename R>
auto judge(Case& c, R const& result, std::vector<std::vector<T>> const& x, std::size_t frame, std::size_t hop, std::size_t n, int window, char const* key) -> void
{
    auto const len    = x[0].size();
    auto const frames = (len + hop - 1) / hop;
    auto const bins   = n / 2 + 1;
    auto const shape  = result.extent(0) == x.size() && result.extent(1) == frames && result.extent(2) == bins;
    c.check(shape, std::string{key} + "_shape", [&] {
        return str("got %zux%zux%zu want %zux%zux%zu", std::size_t(result.extent(0)), std::size_t(result.extent(1)), std::size_t(result.extent(2)), x.size(), frames, bins);
    });
    if (!shape) {
        return;
    }
    for (std::size_t ch = 0; ch < x.size(); ++ch) {
        for (std::size_t f = 0; f < frames; ++f) {
            auto seg = std::vector<cld>(n);
            auto finite = true;
            auto raw = 0.0L;  // window values carry an absolute rounding error
            for (std::size_t i = 0; i < frame; ++i) {
                auto const at = f * hop + i;
                finite = finite && (at >= len || std::isfinite(x[ch][at]));
                raw += at < len ? static_cast<ld>(x[ch][at]) * static_cast<ld>(x[ch][at]) : 0.0L;
                seg[i]        = at < len ? static_cast<ld>(x[ch][at]) * win(window, i, n) : 0.0L;
            }
            if (!finite) {
                c.count("non_finite_frames");
                continue;
            }
            auto const ref = dft_oracle(seg, -1);
            auto const tol = 2 * fft_tol<T>(n, norm2(seg) + std::sqrt(raw) / 4, peak(ref));
            auto worst     = 0.0L;
            auto bad       = std::size_t{0};
            for (std::size_t k = 0; k < bins; ++k) {
                auto const z = to_ld(result(ch, f, k));
                auto e       = std::max(std::abs(z.real() - ref[k].real()), std::abs(z.imag() - ref[k].imag()));
                e            = e == e ? e : 1e30L;
                if (e > worst) {
                    worst = e;
                    bad   = k;
                }
            }
            c.metric(std::string{key} + "_err_over_tol", worst / tol);
            c.check(worst <= tol, key, [&] { return str("channel %zu frame %zu/%zu bin %zu err %Lg tol %Lg", ch, f, frames, bad, worst, tol); });
            c.compared(bins);
        }
    }
}

template<typename T>
struct Mat
{
    std::size_t ch, len, pitch, step;
    Buf<T> b;
    /// channel after channel, or (`interleaved`) sample after sample
    Mat(std::vector<std::vector<T>> const& x, std::size_t extra, bool interleaved = false)
        : ch{x.size()}
        , len{x[0].size()}
        , pitch{interleaved ? 1 : len + extra}
        , step{interleaved ? ch + extra : 1}
        , b((ch - 1) * pitch + (len - 1) * step + 1)
    {
        for (std::size_t i = 0; i < b.n; ++i) {
            b[i] = T(1e9);  // between rows: must never be read into a result
        }
        for (std::size_t i = 0; i < ch; ++i) {
            for (std::size_t j = 0; j < len; ++j) {
                b[i * pitch + j * step] = x[i][j];
            }
        }
    }
    auto view()
    {
        using ext    = stdex::dextents<std::size_t, 2>;
        auto const m = stdex::layout_stride::mapping<ext>{
            ext{ch, len}, std::array<std::size_t, 2>{pitch, step}
        };
        return stdex::mdspan<T const, ext, stdex::layout_stride>{b.data(), m};
    }
    auto plainable() const -> bool { return step == 1 && (ch == 1 || pitch == len); }
    auto plain() { return stdex::mdspan<T const, stdex::dextents<std::size_t, 2>>{b.data(), stdex::dextents<std::size_t, 2>{ch, len}}; }
};

template<typename T>
auto stft(char const* name) -> void
{
    section(name, 120, 4000, [=](Case& c) {
        // now and then very many frames, very many channels or a long transform
        auto const many  = c.index % 20 == 7 ? c.rng.pick(std::size_t{257}, std::size_t{300}, std::size_t{1025}, fast_build ? std::size_t{65600} : std::size_t{4097}) : std::size_t{0};
        auto const wide  = c.index % 20 == 13;
        auto const long_ = c.index % 20 == 17;
        auto const order = many != 0 ? std::size_t{1} : wide ? c.rng.size(1, 3) : long_ ? 9 + static_cast<std::size_t>(c.index / 20) % (fast_build ? 7 : 4) : c.rng.size(1, 8);
        auto const n     = std::size_t{1} << order;
        auto const tsize = c.rng.chance(2, 3) ? n : c.rng.size(n / 2 + 1, n);
        auto const frame = c.rng.chance(1, 2) ? tsize : c.rng.size(1, tsize);
        auto const over  = c.rng.chance(1, 3) ? std::size_t{0} : c.rng.size(0, frame - 1);
        auto const hop   = frame - over;
        auto const len   = many != 0 ? many * hop + c.rng.size(0, 2) : long_ ? c.rng.size(1, hop * 3) : c.rng.chance(1, 3) ? hop * c.rng.size(1, 6) : c.rng.size(1, std::max<std::size_t>(2, std::min<std::size_t>(400, hop * 8)));
        auto const ch    = wide ? c.rng.pick(std::size_t{128}, std::size_t{257}, std::size_t{300}) : c.rng.size(1, many != 0 ? 1 : 3);
        auto const kind  = static_cast<int>(c.rng.range(0, 2));
        c.desc("%s ch=%zu len=%zu frame=%zu transform=%zu overlap=%zu window=%d stream=%lld", name, ch, len, frame, tsize, over, kind, c.index);
        auto const x = matrix<T>(c, ch, len);
        auto m       = Mat<T>(x, c.rng.size(0, 3), c.rng.chance(1, 4));
        auto opt     = neo::fft::stft_options<T>{};
        opt.frame_size     = frame;
        opt.transform_size = tsize;
        opt.overlap_size   = over;
        if (kind == 0) {
            opt.window = neo::rectangular_window<T>{};
        } else if (kind == 2) {
            opt.window = neo::hamming_window<T>{};
        }
        auto const before = m.b.get();
        if (c.rng.chance(1, 2)) {
            auto plan = neo::fft::stft_plan<T>{opt};
            judge(c, plan(m.view()), x, frame, hop, n, kind, "stft");
            if (m.plainable()) {
                judge(c, plan(m.plain()), x, frame, hop, n, kind, "stft_contiguous");
            }
            // the same plan on another signal
            auto const x2 = matrix<T>(c, 1, c.rng.size(1, 3 * frame));
            auto m2       = Mat<T>(x2, 0);
            judge(c, plan(m2.plain()), x2, frame, hop, n, kind, "stft_reuse");
        } else {
            judge(c, neo::fft::stft(m.view(), opt), x, frame, hop, n, kind, "stft");
        }
        c.check(same_bits(m.b.get(), before), "input_changed");
        // the one-argument form
        auto const x3 = matrix<T>(c, 1, c.rng.size(1, 3 * n));
        auto m3       = Mat<T>(x3, 0);
        judge(c, neo::fft::stft(m3.plain(), n), x3, n, n - n / 2, n, 1, "stft_default");
    });
}

template<typename T>
auto partition(char const* name) -> void
{
    section(name, 120, 4000, [=](Case& c) {
        auto const many  = edge_size(c, 15, 1025);
        auto const block = std::size_t{1} << (many != 0 ? c.rng.size(0, 2) : c.index % 15 == 9 ? 8 + static_cast<std::size_t>(c.index / 15) % (fast_build ? 8 : 5) : c.rng.size(0, 7));
        auto const len   = many != 0 ? block * many - c.rng.size(0, block - 1) : block > 128 ? c.rng.size(1, block * 3) : c.rng.chance(1, 3) ? block * c.rng.size(1, 5) : c.rng.size(1, std::min<std::size_t>(500, block * 7));
        auto const ch    = c.index % 25 == 11 ? c.rng.size(250, 300) : c.rng.size(1, 3);
        c.desc("%s ch=%zu len=%zu block=%zu stream=%lld", name, ch, len, block, c.index);
        auto const x = matrix<T>(c, ch, len);
        auto m       = Mat<T>(x, c.rng.size(0, 3), c.rng.chance(1, 4));
        auto const before = m.b.get();
        judge(c, neo::convolution::uniform_partition(m.view(), block), x, block, block, 2 * block, 0, "uniform_partition");
        if (m.plainable()) {
            judge(c, neo::convolution::uniform_partition(m.plain(), block), x, block, block, 2 * block, 0, "uniform_partition_contiguous");
        }
        c.check(same_bits(m.b.get(), before), "input_changed");
    });
}

template<typename T>
auto windows(char const* name) -> void
{
    section(name, 80, 3000, [=](Case& c) {
        auto const n = c.index < 30 ? static_cast<std::size_t>(c.index) + 2 : c.index % 10 == 9 ? std::array<std::size_t, 7>{65537, 32769, 257, 70001, 1025, 32768, 65536}[static_cast<std::size_t>(c.index / 10) % 7] : c.rng.size(2, 3000);
        c.desc("%s n=%zu", name, n);
        auto const tol = eps<T>() * 16;
        auto r = neo::rectangular_window<T>{};
        auto h = neo::hann_window<T>{};
        auto m = neo::hamming_window<T>{};
        auto a  = Buf<T>(n, c.rng.stride(), 1);
        auto b  = Buf<T>(n, 1, 1);
        neo::fill_window(strided(a), h);
        neo::fill_window(contiguous(b), m);
        auto const g1 = neo::generate_window<T>(n);
        auto const g2 = neo::generate_window<T, neo::hamming_window<T>>(n);
        c.check(g1.extent(0) == n && g2.extent(0) == n, "window_length");
        for (std::size_t i = 0; i < n; ++i) {
            auto close = [&](ld got, int kind, char const* key) {
                auto const w = win(kind, i, n);
                c.check(std::abs(got - w) <= tol, key, [&] { return str("i=%zu got %Lg want %Lg", i, got, w); });
            };
            close(r(i, n), 0, "rectangular");
            close(h(i, n), 1, "hann");
            close(m(i, n), 2, "hamming");
            close(h(static_cast<int>(i), static_cast<int>(n)), 1, "hann");
            close(m(static_cast<int>(i), static_cast<int>(n)), 2, "hamming");
            close(a[i], 1, "fill_window");
            close(b[i], 2, "fill_window");
            close(g1(i), 1, "generate_window");
            close(g2(i), 2, "generate_window");
        }
        c.check(a.intact() && b.intact(), "out_of_range_write");
        auto const fs = c.rng.pick(44100.0, 48000.0, 1.0, 192000.0, 8000.0, 44100.1, 22050.7, 0.3, c.rng.unit() * 100.0 + 1e-3);
        auto v        = Buf<T>(n, 1, 1);
        neo::rfftfreq(contiguous(v), 1.0 / fs);
        for (std::size_t i = 0; i < n; ++i) {
            auto const w  = static_cast<ld>(i) * static_cast<ld>(fs) / static_cast<ld>(n);
            auto const t  = 8 * eps<T>() * std::max(w, 1e-20L);
            auto const f1 = static_cast<ld>(neo::rfftfreq<T>(n, i, 1.0 / fs));
            auto const f2 = static_cast<ld>(neo::rfftfreq<T>(static_cast<int>(n), static_cast<int>(i), 1.0 / fs));
            c.check(std::abs(f1 - w) <= t && std::abs(f2 - w) <= t, "rfftfreq", [&] { return str("n=%zu i=%zu got %Lg want %Lg", n, i, f1, w); });
            c.check(std::abs(static_cast<ld>(v[i]) - w) <= t, "rfftfreq_vector", [&] { return str("n=%zu i=%zu got %Lg want %Lg", n, i, static_cast<ld>(v[i]), w); });
        }
        c.check(v.intact(), "out_of_range_write");
        // single values far beyond what would fit in memory, through several integer types
        for (int k = 0; k < 40; ++k) {
            auto const len = static_cast<std::uint64_t>(c.rng.range(2, 1LL << c.rng.range(1, 45)));
            auto const at  = static_cast<std::uint64_t>(c.rng.range(0, static_cast<long long>(len) - 1));
            auto one       = [&]<typename I>(I) {
                if (len > static_cast<std::uint64_t>(std::numeric_limits<I>::max())) {
                    return;
                }
                auto const sz  = static_cast<I>(len);
                auto const ix  = static_cast<I>(at);
                auto const w   = static_cast<ld>(at) * static_cast<ld>(fs) / static_cast<ld>(len);
                auto const got = static_cast<ld>(neo::rfftfreq<T>(sz, ix, 1.0 / fs));
                c.check(std::abs(got - w) <= 8 * eps<T>() * std::max(w, 1e-20L), "rfftfreq", [&] { return str("n=%llu i=%llu got %Lg want %Lg", static_cast<unsigned long long>(len), static_cast<unsigned long long>(at), got, w); });
                for (int kind = 0; kind < 3; ++kind) {
                    auto const g = static_cast<ld>(kind == 0 ? r(ix, sz) : kind == 1 ? h(ix, sz) : m(ix, sz));
                    c.check(std::abs(g - win(kind, at, len)) <= tol, "window_value", [&] { return str("kind=%d i=%llu n=%llu got %Lg", kind, static_cast<unsigned long long>(at), static_cast<unsigned long long>(len), g); });
                }
                c.count("integer_types");
            };
            one(std::int8_t{});
            one(std::uint8_t{});
            one(std::int16_t{});
            one(std::uint16_t{});
            one(std::int32_t{});
            one(std::uint32_t{});
            one(std::int64_t{});
            one(std::uint64_t{});
        }
    });
}

auto body() -> void
{
    stft<float>("stft<float>");
    stft<double>("stft<double>");
    partition<float>("partition<float>");
    partition<double>("partition<double>");
    windows<float>("windows<float>");
    windows<double>("windows<double>");
}

}  // namespace

MON_MAIN(body)
