// C15: fixed-point complex numbers against an exact integer model.
#include "mon.hpp"

#include <neo/fixed_point.hpp>
#include <neo/fixed_point/complex.hpp>

using namespace mon;

namespace {

template<typename I>
auto sat(std::int64_t x) -> std::int64_t
{
    return std::clamp<std::int64_t>(x, std::numeric_limits<I>::min(), std::numeric_limits<I>::max());
}

auto fl(std::int64_t x, int f) -> std::int64_t
{
    auto const d = std::int64_t{1} << f;
    auto q       = x / d;
    return (x % d != 0 && x < 0) ? q - 1 : q;
}

template<typename I>
auto value(Rng& r) -> I
{
    switch (r.range(0, 6)) {
        case 0: return std::numeric_limits<I>::min();
        case 1: return std::numeric_limits<I>::max();
        case 2: return static_cast<I>(r.range(-2, 2));
        default: return static_cast<I>(r.u64());
    }
}

template<typename Q, bool Mul>
auto run(char const* name) -> void
{
    using I = typename Q::storage_type;
    using Z = neo::fixed_point_complex<Q>;
    section(name, 60, 3000, [=](Case& c) {
        c.desc("%s 400 operand pairs, stream %lld", name, c.index);
        auto const q = [](I v) { return Q{neo::underlying_value, v}; };
        for (int k = 0; k < 400; ++k) {
            auto a = value<I>(c.rng), b = value<I>(c.rng), d = value<I>(c.rng), e = value<I>(c.rng);
            if (c.rng.chance(1, 8)) {
                e = b;
            }
            auto const x = Z{q(a), q(b)};
            auto const y = Z{q(d), q(e)};
            auto info    = [&](char const* op, Z r) {
                return str("(%d,%d) %s (%d,%d) = (%d,%d)", int(a), int(b), op, int(d), int(e), int(r.real().value()), int(r.imag().value()));
            };
            c.check(x.real().value() == a && x.imag().value() == b, "accessors", [&] { return info("get", x); });
            auto t = Z{};
            c.check(t.real().value() == 0 && t.imag().value() == 0, "default_zero");
            t.real(q(a));
            c.check(t.real().value() == a && t.imag().value() == 0, "set_real", [&] { return info("set", t); });
            t.imag(q(b));
            c.check(t.real().value() == a && t.imag().value() == b, "set_imag", [&] { return info("set", t); });
            auto const u = Z{q(a)};
            c.check(u.real().value() == a && u.imag().value() == 0, "from_real", [&] { return info("real", u); });
            auto const s = x + y;
            c.check(s.real().value() == sat<I>(std::int64_t{a} + d) && s.imag().value() == sat<I>(std::int64_t{b} + e), "add", [&] { return info("+", s); });
            auto const m = x - y;
            c.check(m.real().value() == sat<I>(std::int64_t{a} - d) && m.imag().value() == sat<I>(std::int64_t{b} - e), "sub", [&] { return info("-", m); });
            if constexpr (Mul) {
                auto const p       = x * y;
                constexpr auto sh  = 17;
                auto const product = [&](std::int64_t lr, std::int64_t li, std::int64_t rr, std::int64_t ri) {
                    return std::pair{fl(lr * rr, sh) - fl(li * ri, sh), fl(lr * ri, sh) + fl(li * rr, sh)};
                };
                auto const got  = std::pair{std::int64_t{p.real().value()}, std::int64_t{p.imag().value()}};
                auto const good = product(a, b, d, e);
                auto const know = product(a, b, d, b);
                c.compared(1);
                if (got == good) {
                    c.count("product_right");
                } else if (got == know) {
                    c.count("product_lhs_imag");
                    c.fail("complex_mul_uses_lhs_imag", info("*", p) + str(" want (%lld,%lld)", (long long)good.first, (long long)good.second));
                } else {
                    c.fail("mul", info("*", p) + str(" want (%lld,%lld)", (long long)good.first, (long long)good.second));
                }
            }
        }
    });
}

auto body() -> void
{
    run<neo::q15, true>("complex_q15");
    run<neo::q7, false>("complex_q7");
    run<neo::fixed_point<std::int16_t, 14>, true>("complex_i16_f14");
}

}  // namespace

MON_MAIN(body)
