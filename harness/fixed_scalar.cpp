// C13: fixed-point scalars against an exact integer model.
#include "mon.hpp"

#include <neo/fixed_point.hpp>

#include <cfenv>

using namespace mon;

namespace {

template<typename I>
auto sat(std::int64_t x) -> std::int64_t
{
    return std::clamp<std::int64_t>(x, std::numeric_limits<I>::min(), std::numeric_limits<I>::max());
}

// floor(x / 2^f)
auto floor_shift(std::int64_t x, int f) -> std::int64_t
{
    auto const d = std::int64_t{1} << f;
    auto q       = x / d;
    if (x % d != 0 && x < 0) {
        --q;
    }
    return q;
}

template<typename I, int F>
auto pair_ok(Case& c, I a, I b) -> void
{
    using Q      = neo::fixed_point<I, F>;
    auto const x = Q{neo::underlying_value, a};
    auto const y = Q{neo::underlying_value, b};
    auto const A = std::int64_t{a};
    auto const B = std::int64_t{b};
    auto info    = [&](char const* op, std::int64_t got, std::int64_t want) {
        return str("int%d F=%d %lld %s %lld: got %lld want %lld", int(sizeof(I) * 8), F, (long long)A, op, (long long)B, (long long)got, (long long)want);
    };
    if (auto const w = sat<I>(A + B), g = std::int64_t{(x + y).value()}; g != w) {
        c.fail("add", info("+", g, w));
    }
    if (auto const w = sat<I>(A - B), g = std::int64_t{(x - y).value()}; g != w) {
        c.fail("sub", info("-", g, w));
    }
    if (auto const w = sat<I>(floor_shift(A * B, F)), g = std::int64_t{(x * y).value()}; g != w) {
        c.fail("mul", info("*", g, w));
    }
    if ((x == y) != (A == B) || (x != y) != (A != B) || (x < y) != (A < B) || (x <= y) != (A <= B) || (x > y) != (A > B)
        || (x >= y) != (A >= B)) {
        c.fail("compare", info("cmp", 0, 0));
    }
    c.compared(9);
}

template<typename I, int F>
auto unary_ok(Case& c, I a) -> void
{
    using Q      = neo::fixed_point<I, F>;
    auto const x = Q{neo::underlying_value, a};
    auto const A = std::int64_t{a};
    auto const m = str("int%d F=%d value %lld", int(sizeof(I) * 8), F, (long long)A);
    auto const w = std::ldexp(static_cast<double>(A), -F);
    c.check(x.value() == a, "value", [&] { return m; });
    c.check((+x).value() == a, "plus", [&] { return m; });
    c.check(std::int64_t{(-x).value()} == sat<I>(-A), "negate", [&] { return m + str(" got %d", int((-x).value())); });
    c.check(neo::to_float(x) == static_cast<float>(w), "to_float", [&] { return m; });
    c.check(neo::to_double(x) == w, "to_double", [&] { return m; });
    c.check(static_cast<float>(x) == static_cast<float>(w), "cast_float", [&] { return m; });
    c.check(static_cast<double>(x) == w, "cast_double", [&] { return m; });
    c.check(Q{static_cast<float>(w)}.value() == a, "roundtrip_float", [&] { return m; });
    c.check(Q{w}.value() == a, "roundtrip_double", [&] { return m; });
    c.check(Q{}.value() == 0, "default_zero", [&] { return m; });
}

/// truncation toward zero of x*2^F, saturated
template<typename I, int F>
auto from_real(ld x) -> std::int64_t
{
    auto const s = std::ldexp(x, F);
    if (s >= static_cast<ld>(std::numeric_limits<I>::max())) {
        return std::numeric_limits<I>::max();
    }
    if (s <= static_cast<ld>(std::numeric_limits<I>::min())) {
        return std::numeric_limits<I>::min();
    }
    return static_cast<std::int64_t>(std::trunc(s));
}

template<typename I, int F>
auto ctor_float(Case& c, float x) -> void
{
    if (std::isnan(x)) {
        return;
    }
    using Q      = neo::fixed_point<I, F>;
    auto const g = std::int64_t{Q{x}.value()};
    auto const w = from_real<I, F>(static_cast<ld>(x));
    if (g != w) {
        c.fail("from_float", str("int%d F=%d x=%a: got %lld want %lld", int(sizeof(I) * 8), F, double(x), (long long)g, (long long)w));
    }
    c.compared(1);
}

template<typename I, int F>
auto ctor_double(Case& c, double x) -> void
{
    if (std::isnan(x)) {
        return;
    }
    using Q       = neo::fixed_point<I, F>;
    auto const g  = std::int64_t{Q{x}.value()};
    auto const w1 = from_real<I, F>(static_cast<ld>(x));
    auto const w2 = from_real<I, F>(static_cast<ld>(static_cast<float>(x)));
    if (g != w1 && g != w2) {
        c.fail("from_double", str("int%d F=%d x=%a: got %lld want %lld or %lld", int(sizeof(I) * 8), F, x, (long long)g, (long long)w1, (long long)w2));
    }
    c.compared(1);
}

template<typename I, int F>
auto width() -> void
{
    using L         = std::numeric_limits<I>;
    auto const name = [](char const* s) {
        static std::map<std::string, std::string> keep;
        auto k = str("%s_i%d_f%d", s, int(sizeof(I) * 8), F);
        return keep.emplace(k, k).first->second.c_str();
    };

    section(name("unary_all"), 1, 1, [](Case& c) {
        c.desc("every value of int%d F=%d", int(sizeof(I) * 8), F);
        for (int v = L::min(); v <= L::max(); ++v) {
            unary_ok<I, F>(c, static_cast<I>(v));
        }
    });

    if constexpr (sizeof(I) == 1) {
        section(name("pairs_all"), 1, 1, [](Case& c) {
            c.desc("every pair of int8 F=%d", F);
            for (int a = L::min(); a <= L::max(); ++a) {
                for (int b = L::min(); b <= L::max(); ++b) {
                    pair_ok<I, F>(c, static_cast<I>(a), static_cast<I>(b));
                }
            }
        });
    } else {
        section(name("pairs_edge"), 12, 40, [](Case& c) {
            auto const edges = std::array<int, 12>{L::min(), L::min() + 1, -16385, -16384, -2, -1, 0, 1, 2, 16384, L::max() - 1, L::max()};
            auto const a     = c.index < 12 ? edges[static_cast<std::size_t>(c.index)] : static_cast<int>(c.rng.range(L::min(), L::max()));
            c.desc("int16 F=%d a=%d against every b, both orders", F, a);
            for (int b = L::min(); b <= L::max(); ++b) {
                pair_ok<I, F>(c, static_cast<I>(a), static_cast<I>(b));
                pair_ok<I, F>(c, static_cast<I>(b), static_cast<I>(a));
            }
        });
        section(name("pairs_random"), 4, 64, [](Case& c) {
            c.desc("int16 F=%d 30000 random pairs, stream %lld", F, c.index);
            for (int k = 0; k < 30000; ++k) {
                pair_ok<I, F>(c, static_cast<I>(c.rng.u64()), static_cast<I>(c.rng.u64()));
            }
        });
    }

    section(name("from_real"), 6, 60, [](Case& c) {
        c.desc("conversions int%d F=%d stream %lld", int(sizeof(I) * 8), F, c.index);
        auto const step = std::ldexp(1.0, -F);
        auto const lim  = std::ldexp(1.0, int(sizeof(I)) * 8 - 1 - F);
        if (c.index == 0) {
            for (double x : {0.0, -0.0, lim, -lim, lim - step, -lim - step, 1.0e9, -1.0e9, 3.0e38, -3.0e38, 1e300, -1e300, 1e-300, 0.999999999, -0.999999999, 1.0, -1.0,
                             double(std::numeric_limits<float>::max()), -double(std::numeric_limits<float>::max()), 2147483647.0, 2147483648.0, -2147483648.0, 65536.0, -65537.0}) {
                ctor_double<I, F>(c, x);
                ctor_float<I, F>(c, static_cast<float>(x));
            }
            ctor_float<I, F>(c, std::numeric_limits<float>::infinity());
            ctor_float<I, F>(c, -std::numeric_limits<float>::infinity());
            ctor_double<I, F>(c, std::numeric_limits<double>::infinity());
            ctor_double<I, F>(c, -std::numeric_limits<double>::infinity());
            // both neighbours of every representable value
            for (int v = L::min() - 2; v <= L::max() + 2; ++v) {
                auto const x = static_cast<float>(v) * static_cast<float>(step);
                for (float y : {x, std::nextafter(x, 1e30F), std::nextafter(x, -1e30F)}) {
                    ctor_float<I, F>(c, y);
                    ctor_double<I, F>(c, static_cast<double>(y));
                }
            }
        }
        for (int k = 0; k < 4000; ++k) {
            ctor_float<I, F>(c, static_cast<float>(c.rng.sym() * lim * 1.25));
            ctor_double<I, F>(c, c.rng.sym() * lim * 1.25);
            auto f      = 0.0F;
            auto bits   = static_cast<std::uint32_t>(c.rng.u64());
            std::memcpy(&f, &bits, 4);
            ctor_float<I, F>(c, f);
            auto d     = 0.0;
            auto bits2 = c.rng.u64();
            std::memcpy(&d, &bits2, 8);
            ctor_double<I, F>(c, d);
        }
    });
}

auto body() -> void
{
    width<std::int8_t, 7>();
    width<std::int8_t, 6>();
    width<std::int8_t, 5>();
    width<std::int8_t, 3>();
    width<std::int8_t, 1>();
    width<std::int16_t, 15>();
    width<std::int16_t, 14>();
    width<std::int16_t, 13>();
    width<std::int16_t, 12>();
    width<std::int16_t, 11>();
    width<std::int16_t, 8>();
    width<std::int16_t, 4>();
    width<std::int16_t, 1>();

#if !defined(MON_ASAN)
    // every pair of q15 operands, in 256 slices
    section("q15_all_pairs", 256, 256, [](Case& c) {
        c.desc("all q15 pairs, lhs slice %lld of 256", c.index);
        auto bad = std::uint64_t{0};
        for (int a = -32768 + static_cast<int>(c.index) * 256; a < -32768 + (static_cast<int>(c.index) + 1) * 256; ++a) {
            auto const x = neo::q15{neo::underlying_value, static_cast<std::int16_t>(a)};
            auto local   = std::uint32_t{0};
            for (int b = -32768; b <= 32767; ++b) {
                auto const y = neo::q15{neo::underlying_value, static_cast<std::int16_t>(b)};
                auto const s = std::min(std::max(a + b, -32768), 32767);
                auto const d = std::min(std::max(a - b, -32768), 32767);
                auto const p = std::min((a * b - ((a * b) & 32767)) / 32768, 32767);
                local += static_cast<std::uint32_t>((x + y).value() != s) + static_cast<std::uint32_t>((x - y).value() != d)
                       + static_cast<std::uint32_t>((x * y).value() != p);
            }
            bad += local;
            c.compared(3 * 65536);
        }
        c.check(bad == 0, "q15_pairs", [&] { return str("%llu mismatches", (unsigned long long)bad); });
    });
    section("q15_all_floats", 64, 1024, [](Case& c) {
        // thorough: every finite float; quick: every 16th
        auto const total = g.thorough ? 1024U : 64U;
        auto const span  = std::uint64_t{1} << 32;
        auto const per   = span / 1024U;
        auto const base  = g.thorough ? per * static_cast<std::uint64_t>(c.index) : per * (static_cast<std::uint64_t>(c.index) * 16U + mix(g.seed) % 16U);
        c.desc("q15 from float bit patterns %llx..+%llx", (unsigned long long)base, (unsigned long long)per);
        (void)total;
        for (auto k = std::uint64_t{0}; k < per; k += g.thorough ? 1 : 7) {
            auto const bits = static_cast<std::uint32_t>(base + k);
            auto f          = 0.0F;
            std::memcpy(&f, &bits, 4);
            ctor_float<std::int16_t, 15>(c, f);
        }
    });
#endif
}

}  // namespace

MON_MAIN(body)
