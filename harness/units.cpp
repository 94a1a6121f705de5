// C23: decibel, mel, A-weighting and fast logarithms against long double references.
#include "mon.hpp"

#include <neo/config.hpp>
#include <neo/container/mdspan.hpp>
#include <neo/math/a_weighting.hpp>
#include <neo/math/fast_math.hpp>
#include <neo/unit.hpp>

using namespace mon;

namespace {

template<typename T>
auto db(char const* name) -> void
{
    section(name, 60, 5000, [=](Case& c) {
        c.desc("%s 400 gains, stream %lld", name, c.index);
        for (int k = 0; k < 400; ++k) {
            auto gain = T{};
            switch (c.rng.range(0, 9)) {
                case 0: gain = T(0); break;
                case 1: gain = static_cast<T>(-c.rng.unit() * 10); break;
                case 2: gain = static_cast<T>(std::ldexp(1.0 + c.rng.unit(), static_cast<int>(c.rng.range(-120, 120)))); break;
                case 3: gain = static_cast<T>(std::pow(10.0, static_cast<double>(c.rng.range(-8, 8)))); break;
                case 4: gain = c.rng.chance(1, 2) ? std::numeric_limits<T>::min() : -T(0); break;
                case 5: gain = std::numeric_limits<T>::denorm_min(); break;
                // the whole range of the type, subnormal numbers included
                case 6: gain = static_cast<T>(std::ldexp(1.0 + c.rng.unit(), static_cast<int>(c.rng.range(std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, std::numeric_limits<T>::max_exponent - 2)))); break;
                default: gain = static_cast<T>(c.rng.unit() * 4);
            }
            auto const deep     = static_cast<T>(c.rng.range(-7000, -400));
            auto const floor_db = c.rng.chance(1, 3) ? T(-144) : c.rng.chance(1, 3) ? deep : c.rng.chance(1, 8) ? c.rng.pick(std::numeric_limits<T>::lowest(), -std::numeric_limits<T>::infinity()) : static_cast<T>(c.rng.range(-400, 60));
            auto const want     = [&](T fl) -> ld {
                if (gain <= T(0)) {
                    return static_cast<ld>(fl);
                }
                return std::max(static_cast<ld>(fl), 20 * std::log10(static_cast<ld>(gain)));
            };
            auto const w1 = want(floor_db);
            auto const w2 = want(T(-144));
            auto const g1 = static_cast<ld>(neo::amplitude_to_db(gain, floor_db));
            auto const g2 = static_cast<ld>(neo::amplitude_to_db(gain));
            auto const g3 = static_cast<ld>(neo::amplitude_to_db<neo::precision::accurate>(gain));
            auto info     = [&] { return str("gain %La floor %La: %La %La, want %La %La", static_cast<ld>(gain), static_cast<ld>(floor_db), g1, g2, w1, w2); };
            auto tol      = [](ld w) { return 8 * eps<T>() * (std::abs(w) + 1); };
            c.check(g1 == w1 || std::abs(g1 - w1) <= tol(w1), "db_floor", info);
            c.check(std::abs(g2 - w2) <= tol(w2) && g2 == g3, "db_default", info);
            c.check(g1 >= static_cast<ld>(floor_db) && g2 >= -144.0L, "db_below_floor", info);
            if (gain <= T(0)) {
                c.check(g1 == static_cast<ld>(floor_db) && g2 == -144.0L, "db_nonpositive", info);
            }
            // the estimate stays within 0.01 dB of the accurate value over the normal range of float
            if (gain <= T(0) || (gain >= T(1e-37) && gain <= T(1e37))) {
                auto const e1 = static_cast<ld>(neo::amplitude_to_db<neo::precision::estimate>(gain, floor_db));
                auto const e2 = static_cast<ld>(neo::amplitude_to_db<neo::precision::estimate>(gain));
                c.check((e1 == w1 || std::abs(e1 - w1) <= 0.01L) && std::abs(e2 - w2) <= 0.01L, "db_estimate", [&] { return str("gain %La: %La want %La", static_cast<ld>(gain), e1, w1); });
                c.check(e1 >= static_cast<ld>(floor_db) && e2 >= -144.0L, "db_estimate_below_floor");
            }
        }
    });
}

auto fast() -> void
{
    section("fast_log", 64, 2048, [](Case& c) {
        c.desc("fast_log2/10 stream %lld", c.index);
        auto worst = 0.0L;
        for (int k = 0; k < 2000; ++k) {
            auto const e = static_cast<int>(c.rng.range(-126, 127));
            auto const x = static_cast<float>(std::ldexp(c.rng.chance(1, 10) ? 1.0 : 1.0 + c.rng.unit(), e));
            if (!(x < std::numeric_limits<float>::infinity())) {
                continue;
            }
            auto const w  = std::log2(static_cast<ld>(x));
            auto const e2 = std::abs(static_cast<ld>(neo::fast_log2(x)) - w);
            auto const e10 = std::abs(static_cast<ld>(neo::fast_log10(x)) - std::log10(static_cast<ld>(x)));
            worst = std::max(worst, e2);
            c.check(e2 <= 5e-4L, "fast_log2", [&] { return str("x=%La err %Lg", static_cast<ld>(x), e2); });
            c.check(e10 <= 2e-4L, "fast_log10", [&] { return str("x=%La err %Lg", static_cast<ld>(x), e10); });
        }
        c.count("fast_log2_worst_err_e9", static_cast<std::uint64_t>(worst * 1e9L));
    });
}

template<typename T>
auto mel(char const* name) -> void
{
    section(name, 80, 5000, [=](Case& c) {
        auto const edge = edge_size(c, 4);
        auto const n    = edge != 0 ? edge : c.index % 8 == 0 ? static_cast<std::size_t>(c.index / 8 % 4) : c.rng.size(0, 130);
        auto const fmin = c.rng.chance(1, 3) ? T(0) : static_cast<T>(c.rng.unit() * 2000);
        auto const down = c.rng.chance(1, 6);
        auto const fmax = c.rng.chance(1, 6) ? fmin : down ? static_cast<T>(static_cast<double>(fmin) * c.rng.unit()) : static_cast<T>(static_cast<double>(fmin) + c.rng.unit() * 20000 + 1);
        auto const str_ = c.rng.step();
        c.desc("%s n=%zu stride=%zu fmin=%g fmax=%g", name, n, str_, double(fmin), double(fmax));
        auto h2m = [](ld h) { return 2595 * std::log10(1 + h / 700); };
        auto m2h = [](ld m) { return 700 * (std::pow(10.0L, m / 2595) - 1); };
        for (int k = 0; k < 60; ++k) {
            auto const h  = static_cast<T>(c.rng.chance(1, 8) ? 0.0 : c.rng.unit() * 48000);
            auto const gm = static_cast<ld>(neo::hertz_to_mel(h));
            c.check(std::abs(gm - h2m(static_cast<ld>(h))) <= 32 * eps<T>() * (2595.0L + std::abs(gm)), "hertz_to_mel", [&] { return str("%Lg", static_cast<ld>(h)); });
            auto const m  = static_cast<T>(c.rng.chance(1, 8) ? 0.0 : c.rng.unit() * 5000);
            auto const gh = static_cast<ld>(neo::mel_to_hertz(m));
            auto const wh = m2h(static_cast<ld>(m));
            c.check(std::abs(gh - wh) <= 64 * eps<T>() * (700.0L + wh), "mel_to_hertz", [&] { return str("%Lg got %Lg want %Lg", static_cast<ld>(m), gh, wh); });
        }
        auto buf = Buf<T>(n, str_, 1);
        auto map = stdex::layout_stride::mapping<stdex::dextents<std::size_t, 1>>{stdex::dextents<std::size_t, 1>{n}, std::array<std::size_t, 1>{str_}};
        auto v   = stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_stride>{buf.data(), map};
        neo::mel_frequencies(v, fmin, fmax);
        auto const lo = h2m(static_cast<ld>(fmin)), hi = h2m(static_cast<ld>(fmax));
        for (std::size_t i = 0; i < n; ++i) {
            auto const w = n == 1 ? static_cast<ld>(fmin) : m2h(lo + (hi - lo) * static_cast<ld>(i) / static_cast<ld>(n - 1));
            auto const g = static_cast<ld>(buf[i]);
            c.check(std::abs(g - w) <= 256 * eps<T>() * (700.0L + w), "mel_frequencies", [&] { return str("i=%zu got %Lg want %Lg", i, g, w); });
        }
        c.check(buf.intact(), "out_of_range_write");
    });
}

template<typename T>
auto aw(char const* name) -> void
{
    section(name, 60, 4000, [=](Case& c) {
        c.desc("%s stream %lld", name, c.index);
        for (int k = 0; k < 200; ++k) {
            auto const f  = static_cast<T>(c.rng.chance(1, 4) ? 20.0 + c.rng.unit() * 20000 : std::pow(10.0, c.rng.unit() * 6 - 1));
            auto const fq = static_cast<ld>(f) * static_cast<ld>(f);
            auto sq       = [](ld v) { return v * v; };
            auto const w  = 2.0L + 20.0L * (std::log10(sq(12194.217L)) + 2.0L * std::log10(fq) - std::log10(fq + sq(12194.217L)) - std::log10(fq + sq(20.598997L)) - 0.5L * std::log10(fq + sq(107.65265L)) - 0.5L * std::log10(fq + sq(737.86223L)));
            auto const g  = static_cast<ld>(neo::a_weighting(f));
            c.check(std::abs(g - w) <= 4000 * eps<T>(), "a_weighting", [&] { return str("f=%Lg got %Lg want %Lg", static_cast<ld>(f), g, w); });
        }
        c.check(std::abs(static_cast<ld>(neo::a_weighting(T(1000)))) < 0.01L, "a_weighting_1k");
    });
}

auto body() -> void
{
    db<float>("db_float");
    db<double>("db_double");
    fast();
    mel<float>("mel_float");
    mel<double>("mel_double");
    aw<float>("a_weighting_float");
    aw<double>("a_weighting_double");
}

}  // namespace

MON_MAIN(body)
