// C14: bulk and SIMD fixed-point arithmetic equals the scalar rule, bit for bit.
#include "mon.hpp"

#include <neo/fixed_point.hpp>

using namespace mon;

namespace {

template<typename I>
auto sat(std::int64_t x) -> I
{
    return static_cast<I>(std::clamp<std::int64_t>(x, std::numeric_limits<I>::min(), std::numeric_limits<I>::max()));
}

template<typename I, int F>
auto model(int op, I a, I b) -> I
{
    auto const A = std::int64_t{a};
    auto const B = std::int64_t{b};
    if (op == 0) {
        return sat<I>(A + B);
    }
    if (op == 1) {
        return sat<I>(A - B);
    }
    auto const p = A * B;
    auto const d = std::int64_t{1} << F;
    auto q       = p / d;
    if (p % d != 0 && p < 0) {
        --q;
    }
    return sat<I>(q);
}

template<typename I>
auto value(Rng& r) -> I
{
    switch (r.range(0, 7)) {
        case 0: return std::numeric_limits<I>::min();
        case 1: return std::numeric_limits<I>::max();
        case 2: return static_cast<I>(r.range(-2, 2));
        case 3: return static_cast<I>(std::numeric_limits<I>::min() + r.range(0, 3));
        default: return static_cast<I>(r.u64());
    }
}

constexpr char const* op_name[] = {"add", "subtract", "multiply"};

template<std::size_t Extent, typename Q>
auto call(int op, std::span<Q const, Extent> a, std::span<Q const, Extent> b, std::span<Q, Extent> o) -> void
{
    if (op == 0) {
        neo::add(a, b, o);
    } else if (op == 1) {
        neo::subtract(a, b, o);
    } else {
        neo::multiply(a, b, o);
    }
}

template<typename I, int F>
auto bulk_case(Case& c) -> void
{
    using Q            = neo::fixed_point<I, F>;
    auto const edge    = edge_size(c, 40);
    auto const n       = edge != 0 ? edge : c.rng.chance(1, 3) ? c.rng.size(0, 40) : c.rng.size(0, 300);
    auto const op      = static_cast<int>(c.rng.range(0, 2));
    auto const alias   = static_cast<int>(c.rng.range(0, 4));  // 1: out is lhs, 2: out is rhs, 3: all the same
    auto const sa      = c.rng.size(0, 17);
    auto const sb      = c.rng.size(0, 17);
    auto const so      = c.rng.size(0, 17);
    c.desc("%s int%d F=%d n=%zu alias=%d skew=%zu/%zu/%zu", op_name[op], int(sizeof(I) * 8), F, n, alias, sa, sb, so);

    auto A = Buf<Q>(n, 1, sa);
    auto B = Buf<Q>(n, 1, sb);
    auto O = Buf<Q>(n, 1, so);
    for (std::size_t i = 0; i < n; ++i) {
        A[i] = Q{neo::underlying_value, value<I>(c.rng)};
        B[i] = Q{neo::underlying_value, value<I>(c.rng)};
        O[i] = Q{neo::underlying_value, value<I>(c.rng)};
    }
    auto const a = A.get();
    auto const b = alias == 3 ? a : B.get();
    auto* lp     = A.data();
    auto* rp     = alias == 3 ? A.data() : B.data();
    auto* op_    = (alias == 1 || alias == 3) ? A.data() : alias == 2 ? B.data() : O.data();

    if (n == 64 || n == 19 || n == 32 || n == 8) {
        c.count("static_extent");
        auto st = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
            call<N>(op, std::span<Q const, N>{lp, N}, std::span<Q const, N>{rp, N}, std::span<Q, N>{op_, N});
        };
        n == 64 ? st(std::integral_constant<std::size_t, 64>{}) : n == 19 ? st(std::integral_constant<std::size_t, 19>{}) : n == 32 ? st(std::integral_constant<std::size_t, 32>{}) : st(std::integral_constant<std::size_t, 8>{});
    } else {
        call<std::dynamic_extent>(op, std::span<Q const>{lp, n}, std::span<Q const>{rp, n}, std::span<Q>{op_, n});
    }

    for (std::size_t i = 0; i < n; ++i) {
        auto const w = model<I, F>(op, a[i].value(), b[i].value());
        auto const g = op_[i].value();
        if (!c.check(g == w, std::string{"bulk_"} + op_name[op], [&] {
                return str("i=%zu of %zu: %d,%d got %d want %d", i, n, int(a[i].value()), int(b[i].value()), int(g), int(w));
            })) {
            break;
        }
    }
    if (op_ != A.data()) {
        c.check(same_bits(A.get(), a), "input_changed", [&] { return std::string{"lhs"}; });
    }
    if (op_ != B.data()) {
        auto const bb = B.get();
        c.check(alias == 3 || same_bits(bb, b), "input_changed", [&] { return std::string{"rhs"}; });
    }
    c.check(A.intact() && B.intact() && O.intact(), "out_of_range_write");
    c.count(std::string{"elements."} + op_name[op], n);
}

template<typename Batch>
auto batch_case(Case& c, char const* name) -> void
{
    using Q        = typename Batch::value_type;
    using I        = typename Q::storage_type;
    constexpr auto N = Batch::size;
    constexpr auto F = Q::fractional_bits;
    auto const skew  = c.rng.size(0, 7);
    c.desc("%s skew=%zu stream=%lld", name, skew, c.index);
    c.check(N * sizeof(Q) == sizeof(typename Batch::register_type), "batch_size");
    auto A = Buf<Q>(N, 1, skew);
    auto B = Buf<Q>(N, 1, skew);
    auto O = Buf<Q>(N, 1, skew);
    for (int rep = 0; rep < 40; ++rep) {
        for (std::size_t i = 0; i < N; ++i) {
            A[i] = Q{neo::underlying_value, value<I>(c.rng)};
            B[i] = Q{neo::underlying_value, value<I>(c.rng)};
        }
        auto const x = Batch::load_unaligned(A.data());
        auto const y = Batch::load_unaligned(B.data());
        auto chk     = [&](char const* key, Batch r, auto want) {
            r.store_unaligned(O.data());
            for (std::size_t i = 0; i < N; ++i) {
                auto const w = want(i);
                auto const g = O[i].value();
                if (g != w) {
                    c.fail(std::string{"batch_"} + key, str("%s lane %zu: %d,%d got %d want %d", name, i, int(A[i].value()), int(B[i].value()), int(g), int(w)));
                    break;
                }
            }
            c.compared(N);
        };
        chk("load_store", x, [&](auto i) { return A[i].value(); });
        chk("add", x + y, [&](auto i) { return model<I, F>(0, A[i].value(), B[i].value()); });
        chk("sub", x - y, [&](auto i) { return model<I, F>(1, A[i].value(), B[i].value()); });
        if constexpr (requires { x * y; }) {
            chk("mul", x * y, [&](auto i) { return model<I, F>(2, A[i].value(), B[i].value()); });
            c.count(std::string{"batch_mul."} + name);
        }
        auto const s = A[rep % N];
        chk("broadcast", Batch::broadcast(s), [&](auto) { return s.value(); });
        chk("register", Batch{static_cast<typename Batch::register_type>(y)}, [&](auto i) { return B[i].value(); });
    }
    c.check(A.intact() && B.intact() && O.intact(), "out_of_range_write");
}

template<typename Batch>
auto batch_pairs(char const* name) -> void
{
    // every pair of operands goes through the batch multiply (q15) / all three operations (q7)
    using Q = typename Batch::value_type;
    using I = typename Q::storage_type;
    constexpr auto N = Batch::size;
    static std::map<std::string, std::string> keep;
    auto const k = std::string{"all_pairs_"} + name;
    section(keep.emplace(k, k).first->second.c_str(), 16, 256, [=](Case& c) {
        auto const slice = g.thorough ? c.index : c.index * 16 + static_cast<long long>(mix(g.seed) % 16U);
        c.desc("%s lhs slice %lld of 256 against every rhs", name, slice);
        using L  = std::numeric_limits<I>;
        auto const width = (int(L::max()) - int(L::min()) + 1) / 256;
        auto buf = std::array<Q, N>{};
        auto out = std::array<Q, N>{};
        for (int a = L::min() + static_cast<int>(slice) * width; a < L::min() + (static_cast<int>(slice) + 1) * width; ++a) {
            auto const x = Batch::broadcast(Q{neo::underlying_value, static_cast<I>(a)});
            for (int b0 = L::min(); b0 <= L::max(); b0 += static_cast<int>(N)) {
                for (std::size_t i = 0; i < N; ++i) {
                    buf[i] = Q{neo::underlying_value, static_cast<I>(b0 + static_cast<int>(i))};
                }
                auto const y = Batch::load_unaligned(buf.data());
                auto cmp     = [&](int op, Batch r) {
                    r.store_unaligned(out.data());
                    auto bad = 0;
                    for (std::size_t i = 0; i < N; ++i) {
                        auto const p = op == 0 ? a + int(buf[i].value()) : op == 1 ? a - int(buf[i].value()) : (a * int(buf[i].value())) >> Q::fractional_bits;
                        bad += out[i].value() != std::min(std::max(p, int(L::min())), int(L::max()));
                    }
                    if (bad != 0) {
                        c.fail(std::string{"batch_"} + (op == 0 ? "add" : op == 1 ? "sub" : "mul"), str("%s lhs=%d rhs from %d", name, a, b0));
                    }
                };
                cmp(0, x + y);
                cmp(1, x - y);
                if constexpr (requires { x * y; }) {
                    cmp(2, x * y);
                }
            }
            c.compared(65536);
        }
    });
}

template<typename Batch>
auto batch(char const* name) -> void
{
    static std::map<std::string, std::string> keep;
    auto const k = std::string{"batch_"} + name;
    section(keep.emplace(k, k).first->second.c_str(), 40, 1500, [=](Case& c) { batch_case<Batch>(c, name); });
#if !defined(MON_ASAN)
    batch_pairs<Batch>(name);
#endif
}

template<typename I, int F>
auto bulk() -> void
{
    static std::map<std::string, std::string> keep;
    auto const k = str("bulk_i%d_f%d", int(sizeof(I) * 8), F);
    section(keep.emplace(k, k).first->second.c_str(), F + 1 == int(sizeof(I) * 8) ? 700 : 300, F + 1 == int(sizeof(I) * 8) ? 20000 : 8000, bulk_case<I, F>);
}

#if !defined(MON_ASAN)
template<typename I, int F>
auto bulk_all_pairs() -> void
{
    static std::map<std::string, std::string> keep;
    auto const k = str("bulk_all_i%d_f%d", int(sizeof(I) * 8), F);
    section(keep.emplace(k, k).first->second.c_str(), 32, 256, [](Case& c) {
        using Q  = neo::fixed_point<I, F>;
        using L  = std::numeric_limits<I>;
        auto const count = int(L::max()) - int(L::min()) + 1;
        auto const slice = g.thorough ? c.index : c.index * 8 + static_cast<long long>(mix(g.seed) % 8U);
        auto const width = count / 256;
        c.desc("int%d F=%d lhs slice %lld of 256 against every rhs", int(sizeof(I) * 8), F, slice);
        auto rhs = std::vector<Q>(static_cast<std::size_t>(count));
        auto lhs = rhs;
        auto out = rhs;
        for (int i = 0; i < count; ++i) {
            rhs[static_cast<std::size_t>(i)] = Q{neo::underlying_value, static_cast<I>(L::min() + i)};
        }
        for (int a = L::min() + static_cast<int>(slice) * width; a < L::min() + (static_cast<int>(slice) + 1) * width; a += (sizeof(I) == 1 || g.thorough) ? 1 : 4) {
            std::fill(lhs.begin(), lhs.end(), Q{neo::underlying_value, static_cast<I>(a)});
            for (int op = 0; op < 3; ++op) {
                call<std::dynamic_extent>(op, std::span<Q const>{lhs}, std::span<Q const>{rhs}, std::span<Q>{out});
                auto bad = 0;
                for (int i = 0; i < count; ++i) {
                    auto const b = L::min() + i;
                    auto const p = op == 0 ? a + b : op == 1 ? a - b : (a * b) >> F;
                    bad += out[static_cast<std::size_t>(i)].value() != std::min(std::max(p, int(L::min())), int(L::max()));
                }
                if (bad != 0) {
                    c.fail(std::string{"bulk_"} + op_name[op], str("int%d F=%d lhs=%d: %d of %d products differ", int(sizeof(I) * 8), F, a, bad, count));
                }
                c.compared(static_cast<std::uint64_t>(count));
            }
        }
    });
}
#endif

auto body() -> void
{
    []<int... F>(std::integer_sequence<int, F...>) { (bulk<std::int8_t, F>(), ...); }(std::make_integer_sequence<int, 8>{});
    []<int... F>(std::integer_sequence<int, F...>) { (bulk<std::int16_t, F>(), ...); }(std::make_integer_sequence<int, 16>{});
#if !defined(MON_ASAN)
    bulk_all_pairs<std::int8_t, 7>();
    bulk_all_pairs<std::int8_t, 6>();
    bulk_all_pairs<std::int8_t, 5>();
    bulk_all_pairs<std::int8_t, 1>();
    bulk_all_pairs<std::int16_t, 15>();
    bulk_all_pairs<std::int16_t, 14>();
    bulk_all_pairs<std::int16_t, 13>();
    bulk_all_pairs<std::int16_t, 11>();
#endif
#if defined(NEO_HAS_ISA_SSE2)
    batch<neo::q7x16>("q7x16");
    batch<neo::q15x8>("q15x8");
#endif
#if defined(NEO_HAS_ISA_AVX2)
    batch<neo::q7x32>("q7x32");
    batch<neo::q15x16>("q15x16");
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
    batch<neo::q7x64>("q7x64");
    batch<neo::q15x32>("q15x32");
#endif
}

}  // namespace

MON_MAIN(body)
