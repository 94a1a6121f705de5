// C16: every lane of a floating-point batch operation is the IEEE scalar result.
#include "mon.hpp"

#include <neo/simd.hpp>

#include <functional>

using namespace mon;

namespace {

template<typename T>
auto bits(T x) -> std::uint64_t
{
    auto r = std::uint64_t{0};
    std::memcpy(&r, &x, sizeof(T));
    return r;
}

template<typename T>
auto from_bits(std::uint64_t b) -> T
{
    T x;
    std::memcpy(&x, &b, sizeof(T));
    return x;
}

template<typename T>
auto is_nan(T x) -> bool
{
    return x != x;
}

template<typename T>
auto same(T a, T b) -> bool
{
    return (is_nan(a) && is_nan(b)) || bits(a) == bits(b);
}

template<typename T>
auto special(Rng& r) -> T
{
    constexpr auto w  = sizeof(T) * 8;
    constexpr auto ex = w == 16 ? 5 : w == 32 ? 8 : 11;
    constexpr auto mb = w - 1 - ex;
    auto const sign   = (r.u64() & 1U) << (w - 1);
    auto const emax   = (std::uint64_t{1} << ex) - 1;
    auto const m      = r.u64() & ((std::uint64_t{1} << mb) - 1);
    switch (r.range(0, 9)) {
        case 0: return from_bits<T>(sign);                                          // zero
        case 1: return from_bits<T>(sign | (emax << mb));                           // infinity
        case 2: return from_bits<T>(sign | (emax << mb) | (std::uint64_t{1} << (mb - 1)));  // NaN
        case 3: return from_bits<T>(sign | m);                                      // subnormal
        case 4: return from_bits<T>(sign | ((emax - 1) << mb) | m);                 // huge
        case 5: return from_bits<T>(sign | ((emax >> 1) << mb));                    // one
        case 6: return from_bits<T>(sign | (((emax >> 1) + static_cast<std::uint64_t>(r.range(-3, 3))) << mb) | m);
        default: {
            auto x = from_bits<T>(r.u64());
            return is_nan(x) ? T(1) : x;
        }
    }
}

template<typename T>
auto scalar(int op, T a, T b) -> T
{
    if constexpr (sizeof(T) == 2) {
        auto const x = static_cast<float>(a);
        auto const y = static_cast<float>(b);
        return static_cast<T>(op == 0 ? x + y : op == 1 ? x - y : x * y);
    } else {
        volatile T x = a, y = b;
        return op == 0 ? x + y : op == 1 ? x - y : x * y;
    }
}

template<typename Batch>
auto run(char const* name) -> void
{
    using T          = typename Batch::value_type;
    constexpr auto N = Batch::size;
    static std::map<std::string, std::string> keep;
    auto const k = std::string{"lanes_"} + name;
    section(keep.emplace(k, k).first->second.c_str(), 120, 6000, [=](Case& c) {
        auto const skew = c.rng.size(0, N + 1);
        c.desc("%s skew=%zu stream=%lld", name, skew, c.index);
        c.check(N * sizeof(T) == sizeof(typename Batch::register_type), "batch_size");
        c.check(Batch::alignment == alignof(typename Batch::register_type) && alignof(Batch) >= Batch::alignment, "batch_alignment");
        auto A = Buf<T>(N, 1, skew);
        auto B = Buf<T>(N, 1, c.rng.size(0, N));
        auto O = Buf<T>(N, 1, c.rng.size(0, N));
        for (int rep = 0; rep < 60; ++rep) {
            for (std::size_t i = 0; i < N; ++i) {
                A[i] = special<T>(c.rng);
                B[i] = special<T>(c.rng);
            }
            auto const x = Batch::load_unaligned(A.data());
            auto const y = Batch::load_unaligned(B.data());
            auto chk     = [&](char const* key, Batch r, auto want, bool exact) {
                r.store_unaligned(O.data());
                for (std::size_t i = 0; i < N; ++i) {
                    T const w = want(i);
                    if (!(exact ? bits<T>(O[i]) == bits<T>(w) : same<T>(O[i], w))) {
                        c.fail(key, str("%s lane %zu: %llx,%llx got %llx want %llx", name, i, (unsigned long long)bits<T>(A[i]), (unsigned long long)bits<T>(B[i]),
                                        (unsigned long long)bits<T>(O[i]), (unsigned long long)bits<T>(w)));
                        break;
                    }
                }
                c.compared(N);
            };
            chk("load_store", x, [&](auto i) { return A[i]; }, true);
            chk("add", x + y, [&](auto i) { return scalar<T>(0, A[i], B[i]); }, false);
            chk("sub", x - y, [&](auto i) { return scalar<T>(1, A[i], B[i]); }, false);
            chk("mul", x * y, [&](auto i) { return scalar<T>(2, A[i], B[i]); }, false);
            auto const s = A[static_cast<std::size_t>(rep) % N];
            chk("broadcast", Batch::broadcast(s), [&](auto) { return s; }, true);
            chk("register", Batch{static_cast<typename Batch::register_type>(y)}, [&](auto i) { return B[i]; }, true);
        }
        c.check(A.intact() && B.intact() && O.intact(), "out_of_range_write");
    });

    if constexpr (sizeof(T) == 2) {
        static std::map<std::string, std::string> keep2;
        auto const k2 = std::string{"half_pairs_"} + name;
        section(keep2.emplace(k2, k2).first->second.c_str(), 64, 1024, [=](Case& c) {
            // 1024 slices of 64 left operands against every right operand; quick takes a rotating 1/16 and a stride
            auto const slice = g.thorough ? c.index : c.index * 16 + static_cast<long long>(mix(g.seed) % 16U);
            c.desc("%s slice %lld", name, slice);
            for (int a = 0; a < 64; a += g.thorough ? 1 : 9) {
                auto const av = from_bits<T>(static_cast<std::uint64_t>(slice * 64 + a));
                auto const x  = Batch::broadcast(av);
                T in[N], out[3][N];
                for (unsigned b0 = 0; b0 < 65536; b0 += N) {
                    for (std::size_t i = 0; i < N; ++i) {
                        in[i] = from_bits<T>(b0 + i);
                    }
                    auto const y = Batch::load_unaligned(in);
                    (x + y).store_unaligned(out[0]);
                    (x - y).store_unaligned(out[1]);
                    (x * y).store_unaligned(out[2]);
                    for (int op = 0; op < 3; ++op) {
                        for (std::size_t i = 0; i < N; ++i) {
                            auto const w = scalar<T>(op, av, in[i]);
                            if (!same<T>(out[op][i], w)) {
                                c.fail(op == 0 ? "add" : op == 1 ? "sub" : "mul", str("%s %llx op%d %llx", name, (unsigned long long)bits(av), op, (unsigned long long)bits(in[i])));
                                return;
                            }
                        }
                    }
                }
                c.compared(3 * 65536);
            }
        });
    }
}

auto body() -> void
{
#if defined(NEO_HAS_ISA_SSE2)
    run<neo::float32x4>("float32x4");
    run<neo::float64x2>("float64x2");
    run<neo::float32x>("float32x");
    run<neo::float64x>("float64x");
    section("native_width", 1, 1, [](Case& c) {
        c.desc("float32x has %zu lanes", std::size_t(neo::float32x::size));
    #if defined(__AVX512F__)
        c.check(neo::float32x::size == 16 && neo::float64x::size == 8, "native_width");
    #elif defined(__AVX__)
        c.check(neo::float32x::size == 8 && neo::float64x::size == 4, "native_width");
    #else
        c.check(neo::float32x::size == 4 && neo::float64x::size == 2, "native_width");
    #endif
    });
#endif
#if defined(NEO_HAS_ISA_AVX)
    run<neo::float32x8>("float32x8");
    run<neo::float64x4>("float64x4");
#endif
#if defined(NEO_HAS_ISA_AVX512F)
    run<neo::float32x16>("float32x16");
    run<neo::float64x8>("float64x8");
#endif
#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
    run<neo::float16x8>("float16x8");
    run<neo::float16x16>("float16x16");
#endif
}

}  // namespace

MON_MAIN(body)
