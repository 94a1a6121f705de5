// C10: overlap-add and overlap-save framing.
#include "conv_check.hpp"

using namespace mon;

namespace {

template<typename Ola, bool Save>
auto framing(char const* name, int quick, int thorough) -> void
{
    using C = typename Ola::value_type;
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const large = c.index % 40 == 17;
        auto block       = std::size_t{1} << (large ? c.rng.size(8, 11) : 1 + static_cast<std::size_t>(c.index) % 7);
        if (c.rng.chance(1, 2)) {
            block = c.rng.chance(1, 8) ? 1 : c.rng.size(1, large ? 2100 : 130);
        }
        // tails shorter than a block, longer than it, and longer than several
        auto const filter = c.rng.chance(1, 2)   ? c.rng.size(1, block + 1)
                          : c.rng.chance(1, 2)   ? c.rng.size(1, 4 * block)
                          : large                ? c.rng.size(1, 2 * block)
                                                 : c.rng.size(1, 17 * std::min<std::size_t>(block, 24));
        auto const nfft = [&] {
            auto n = std::size_t{1};
            while (n < block + filter - 1) {
                n *= 2;
            }
            return n;
        }();
        auto const identity = c.rng.chance(1, 4);
        auto const hlen     = identity ? std::size_t{1} : filter;
        auto const nblk     = c.rng.size(1, large ? 4 : c.rng.chance(1, 10) ? 60 : 12);
        int hc{}, xc{};
        auto const h = identity ? std::vector<T>{T(1)} : audio<T>(c.rng, hlen, hc);
        auto const x = audio<T>(c.rng, nblk * block, xc);
        c.desc("%s block=%zu filter=%zu transform=%zu blocks=%zu identity=%d stream=%lld", name, block, filter, nfft, nblk, int(identity), c.index);
        auto ola = Ola{block, filter};
        c.check(ola.block_size() == block && ola.filter_size() == filter && ola.transform_size() == nfft, "sizes", [&] {
            return str("block %zu filter %zu transform %zu", std::size_t(ola.block_size()), std::size_t(ola.filter_size()), std::size_t(ola.transform_size()));
        });
        auto hp = std::vector<cld>(nfft);
        for (std::size_t i = 0; i < hlen; ++i) {
            hp[i] = static_cast<ld>(h[i]);
        }
        auto const hs    = dft_oracle(hp, -1);
        auto y           = std::vector<T>(x.size());
        auto const xnorm = norm_of(x);
        for (std::size_t b = 0; b < nblk; ++b) {
            auto const st = c.rng.chance(1, 4) ? c.rng.stride() : std::size_t{1};
            auto buf      = Buf<T>(block, st, c.rng.size(0, 2));
            for (std::size_t i = 0; i < block; ++i) {
                buf[i] = x[b * block + i];
            }
            auto calls    = 0;
            auto callback = [&](auto spectrum) {
                ++calls;
                c.check(std::size_t(spectrum.extent(0)) == nfft / 2 + 1, "spectrum_size", [&] { return str("%zu want %zu", std::size_t(spectrum.extent(0)), nfft / 2 + 1); });
                // the frame handed out: the last transform_size samples (save) or the block and zeros (add)
                auto frame = std::vector<cld>(nfft);
                for (std::size_t i = 0; i < nfft; ++i) {
                    if (Save) {
                        auto const at = static_cast<std::ptrdiff_t>((b + 1) * block + i) - static_cast<std::ptrdiff_t>(nfft);
                        frame[i]      = at >= 0 ? static_cast<ld>(x[static_cast<std::size_t>(at)]) : 0.0L;
                    } else {
                        frame[i] = i < block ? static_cast<ld>(x[b * block + i]) : 0.0L;
                    }
                }
                auto const ref = dft_oracle(frame, -1);
                auto const tol = fft_tol<T>(nfft, norm2(frame), peak(ref));
                auto worst     = 0.0L;
                for (std::size_t k = 0; k <= nfft / 2; ++k) {
                    auto const z = to_ld(C(spectrum[k]));
                    auto e       = std::max(std::abs(z.real() - ref[k].real()), std::abs(z.imag() - ref[k].imag()));
                    worst        = std::max(worst, e == e ? e : 1e30L);
                }
                c.check(worst <= tol, "frame_spectrum", [&] { return str("block %zu err %Lg tol %Lg", b, worst, tol); });
                if (!identity) {
                    for (std::size_t k = 0; k <= nfft / 2; ++k) {
                        auto const z = to_ld(C(spectrum[k])) * hs[k];
                        spectrum[k]  = C{static_cast<T>(z.real()), static_cast<T>(z.imag())};
                    }
                }
            };
            if (st == 1) {
                ola(contiguous(buf), callback);
            } else {
                ola(strided(buf), callback);
            }
            c.check(calls == 1, "callback_once", [&] { return str("%d calls", calls); });
            c.check(buf.intact(), "out_of_range_write");
            for (std::size_t i = 0; i < block; ++i) {
                y[b * block + i] = buf[i];
            }
            c.count("blocks");
        }
        compare(c, y, convolve_ref(x, h), conv_tol<T>(nfft, 1, xnorm, norm_of(h)), identity ? "identity" : "filtered");
    });
}

/// tiny blocks for very long: an untouched spectrum has to give the input back, block after block
template<typename Ola, bool Save>
auto marathon_frames(Case& c, char const* name) -> void
{
    using C           = typename Ola::value_type;
    using T           = typename C::value_type;
    auto const block  = c.rng.size(1, 5);
    auto const filter = c.rng.size(1, 4 * block);
    auto const calls  = std::size_t{66000} + c.rng.size(0, 3000) + (fast_build ? 66000 : 0);
    c.desc("%s marathon block=%zu filter=%zu calls=%zu stream=%lld", name, block, filter, calls, c.index);
    auto ola   = Ola{block, filter};
    auto delay = c.rng.size(0, filter - 1);  // a pure delay, applied per bin
    auto n     = static_cast<std::size_t>(ola.transform_size());
    auto rot   = std::vector<C>(n / 2 + 1);
    for (std::size_t k = 0; k < rot.size(); ++k) {
        auto const a = -2.0L * 3.14159265358979323846264338327950288L * static_cast<ld>((k * delay) % n) / static_cast<ld>(n);
        rot[k]       = C{static_cast<T>(std::cos(a)), static_cast<T>(std::sin(a))};
    }
    auto x = std::vector<T>(calls * block), y = x;
    for (auto& v : x) {
        v = static_cast<T>(c.rng.sym());
    }
    auto buf = Buf<T>(block, 1, 1);
    auto cb  = std::size_t{0};
    for (std::size_t b = 0; b < calls; ++b) {
        std::copy_n(x.data() + b * block, block, buf.data());
        ola(contiguous(buf), [&](auto spectrum) {
            ++cb;
            for (std::size_t k = 0; k < rot.size(); ++k) {
                spectrum[k] = C(spectrum[k]) * rot[k];
            }
        });
        std::copy_n(buf.data(), block, y.data() + b * block);
    }
    c.check(cb == calls, "callback_once", [&] { return str("%zu callbacks in %zu calls", cb, calls); });
    c.check(buf.intact(), "out_of_range_write");
    auto want = std::vector<ld>(x.size());
    for (std::size_t i = delay; i < x.size(); ++i) {
        want[i] = static_cast<ld>(x[i - delay]);
    }
    compare(c, y, want, conv_tol<T>(n, 1, std::sqrt(static_cast<ld>(2 * n)), 1.0L), "marathon");
    c.count("marathon_calls", calls);
}

/// long blocks: a per-bin delay has to hand every sample of the frame through
template<typename Ola, bool Save>
auto long_blocks(Case& c, char const* name) -> void
{
    using C          = typename Ola::value_type;
    using T          = typename C::value_type;
    auto block       = std::size_t{1} << ((fast_build ? 12 : 10) + static_cast<std::size_t>(c.index / 4) % 4);
    if (c.rng.chance(1, 3)) {
        block -= c.rng.size(1, block / 3);
    }
    auto const whole = c.rng.chance(2, 3);
    auto filter      = whole ? block + 1 : c.rng.size(2, block + 1);
    if (c.rng.chance(1, 3)) {
        filter = 3 * block + 1;
    }
    auto const calls = std::size_t{6};
    auto const delay = c.rng.chance(2, 3) ? filter - 1 : c.rng.size(0, filter - 1);
    c.desc("%s long block=%zu filter=%zu delay=%zu stream=%lld", name, block, filter, delay, c.index);
    auto ola = Ola{block, filter};
    auto n   = static_cast<std::size_t>(ola.transform_size());
    auto w   = roots(n, -1);
    auto x   = std::vector<T>(calls * block), y = x;
    for (auto& v : x) {
        v = static_cast<T>(c.rng.sym());
    }
    for (std::size_t b = 0; b < calls; ++b) {
        auto buf = Buf<T>(block, 1, c.rng.size(0, 2));
        std::copy_n(x.data() + b * block, block, buf.data());
        ola(contiguous(buf), [&](auto spectrum) {
            c.check(std::size_t(spectrum.extent(0)) == n / 2 + 1, "spectrum_size");
            for (auto i = 0; i < 4; ++i) {
                auto const k = i == 0 ? n / 2 : c.rng.size(0, n / 2);
                auto re = 0.0L, im = 0.0L;
                for (std::size_t t = 0; t < (Save ? n : block); ++t) {
                    auto const at = Save ? static_cast<std::ptrdiff_t>((b + 1) * block + t) - static_cast<std::ptrdiff_t>(n) : static_cast<std::ptrdiff_t>(b * block + t);
                    if (at >= 0) {
                        auto const v = static_cast<ld>(x[static_cast<std::size_t>(at)]);
                        re += v * w[(k * t) % n].real();
                        im += v * w[(k * t) % n].imag();
                    }
                }
                auto const z   = to_ld(C(spectrum[k]));
                auto const tol = fft_tol<T>(n, std::sqrt(static_cast<ld>(n)), std::sqrt(static_cast<ld>(n)));
                auto const e   = std::max(std::abs(z.real() - re), std::abs(z.imag() - im));
                c.check(e <= tol, "frame_spectrum", [&] { return str("block %zu bin %zu err %Lg tol %Lg", b, k, e, tol); });
            }
            for (std::size_t k = 0; k <= n / 2; ++k) {
                auto const z = to_ld(C(spectrum[k])) * w[(k * delay) % n];
                spectrum[k]  = C{static_cast<T>(z.real()), static_cast<T>(z.imag())};
            }
        });
        c.check(buf.intact(), "out_of_range_write");
        std::copy_n(buf.data(), block, y.data() + b * block);
    }
    auto want = std::vector<ld>(x.size());
    for (std::size_t i = delay; i < x.size(); ++i) {
        want[i] = static_cast<ld>(x[i - delay]);
    }
    compare(c, y, want, conv_tol<T>(n, 1, 16.0L, 1.0L), "long_blocks");
    c.count("long_blocks", calls);
}

auto body() -> void
{
    section("long_blocks", 16, 160, [](Case& c) {
        switch (c.index % 4) {
            case 0: return long_blocks<nc::overlap_save<std::complex<float>>, true>(c, "overlap_save<cf>");
            case 1: return long_blocks<nc::overlap_add<std::complex<float>>, false>(c, "overlap_add<cf>");
            case 2: return long_blocks<nc::overlap_save<std::complex<double>>, true>(c, "overlap_save<cd>");
            default: return long_blocks<nc::overlap_add<std::complex<double>>, false>(c, "overlap_add<cd>");
        }
    }, 100);
    section("marathon", 4, 40, [](Case& c) {
        switch (c.index % 4) {
            case 0: return marathon_frames<nc::overlap_save<std::complex<float>>, true>(c, "overlap_save<cf>");
            case 1: return marathon_frames<nc::overlap_add<std::complex<float>>, false>(c, "overlap_add<cf>");
            case 2: return marathon_frames<nc::overlap_save<std::complex<double>>, true>(c, "overlap_save<cd>");
            default: return marathon_frames<nc::overlap_add<std::complex<double>>, false>(c, "overlap_add<cd>");
        }
    }, 100);
    using F = std::complex<float>;
    using D = std::complex<double>;
    framing<nc::overlap_save<F>, true>("overlap_save<cf>", 160, 6000);
    framing<nc::overlap_save<D>, true>("overlap_save<cd>", 160, 6000);
    framing<nc::overlap_save<mon::c64>, true>("overlap_save<c64>", 60, 2000);
    framing<nc::overlap_add<F>, false>("overlap_add<cf>", 160, 6000);
    framing<nc::overlap_add<D>, false>("overlap_add<cd>", 160, 6000);
    framing<nc::overlap_add<mon::c128>, false>("overlap_add<c128>", 60, 2000);
}

}  // namespace

MON_MAIN(body)
