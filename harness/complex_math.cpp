// C21: scalar_complex arithmetic and the math function objects.
#include "mon.hpp"

#include <neo/complex.hpp>
#include <neo/math/abs.hpp>
#include <neo/math/conj.hpp>
#include <neo/math/float_equality.hpp>
#include <neo/math/imag.hpp>
#include <neo/math/log2.hpp>
#include <neo/math/polar.hpp>
#include <neo/math/real.hpp>

using namespace mon;

namespace {

template<typename T>
auto draw(Rng& r, int& cls) -> T
{
    cls = static_cast<int>(r.range(0, 5));
    constexpr auto e = sizeof(T) == 2 ? 4 : sizeof(T) == 4 ? 20 : 150;
    switch (cls) {
        case 0: return T(0);
        case 1: return T(r.chance(1, 2) ? 1 : -1);
        case 2: return static_cast<T>(r.sym());
        case 3: return static_cast<T>(std::ldexp(r.sym() < 0 ? -1.0 - r.unit() : 1.0 + r.unit(), static_cast<int>(r.range(-e, e))));
        case 4: return static_cast<T>(static_cast<double>(r.range(-9, 9)));
        default: return static_cast<T>(r.normal());
    }
}

template<typename T>
auto L(T x) -> ld
{
    if constexpr (sizeof(T) == 2) {
        return static_cast<ld>(static_cast<float>(x));
    } else {
        return static_cast<ld>(x);
    }
}

template<typename T>
auto tiny() -> ld  // absolute slack for results in the subnormal range
{
    return sizeof(T) == 2 ? 0x1p-23L : sizeof(T) == 4 ? 0x1p-140L : 0x1p-1060L;
}

template<typename T>
auto arithmetic(char const* name) -> void
{
    using Z = neo::scalar_complex<T>;
    section(name, 200, 20000, [=](Case& c) {
        c.desc("%s 100 operand pairs, stream %lld", name, c.index);
        for (int k = 0; k < 100; ++k) {
            int q{};
            auto const a = draw<T>(c.rng, q), b = draw<T>(c.rng, q), d = draw<T>(c.rng, q), e = draw<T>(c.rng, q), s = draw<T>(c.rng, q);
            auto const x = Z{a, b};
            auto const y = Z{d, e};
            auto info    = [&](char const* op, Z r) {
                return str("(%La,%La) %s (%La,%La) = (%La,%La)", L(a), L(b), op, L(d), L(e), L(r.real()), L(r.imag()));
            };
            auto near = [&](char const* key, Z r, ld re, ld im, ld scale) {
                auto const tol = 8 * eps<T>() * scale + tiny<T>();
                c.check(std::abs(L(r.real()) - re) <= tol && std::abs(L(r.imag()) - im) <= tol, key, [&] { return info(key, r) + str(" want (%La,%La)", re, im); });
            };
            auto is = [&](char const* key, Z r, T re, T im) { c.check(same_bits(r.real(), re) && same_bits(r.imag(), im), key, [&] { return info(key, r); }); };
            auto equal = [&](char const* key, Z r, T re, T im) { c.check(r.real() == re && r.imag() == im, key, [&] { return info(key, r); }); };

            is("construct", x, a, b);
            is("construct_real", Z{a}, a, T(0));
            is("value_init", Z{}, T(0), T(0));
            {
                auto t = Z{};
                t.real(a);
                is("set_real", t, a, T(0));
                t.imag(b);
                is("set_imag", t, a, b);
            }
            equal("plus", +x, a, b);
            equal("minus", -x, -a, -b);
            equal("conj", conj(x), a, -b);
            equal("math_conj", neo::math::conj(x), a, -b);
            c.check(same_bits(neo::math::real(x), a) && same_bits(neo::math::imag(x), b), "math_real_imag", [&] { return info("parts", x); });
            c.check(same_bits(neo::get<0>(x), a) && same_bits(neo::get<1>(x), b), "get", [&] { return info("get", x); });
            {
                auto const [re, im] = x;
                c.check(same_bits(re, a) && same_bits(im, b), "structured_binding", [&] { return info("bind", x); });
            }
            auto const A = L(a), B = L(b), D = L(d), E = L(e), S = L(s);
            auto const mx = std::hypot(A, B), my = std::hypot(D, E);
            equal("add", x + y, T(a + d), T(b + e));
            equal("sub", x - y, T(a - d), T(b - e));
            auto const fits = mx * my < (sizeof(T) == 2 ? 20000.0L : sizeof(T) == 4 ? 1e37L : 1e300L);
            if (fits) {
                near("mul", x * y, A * D - B * E, A * E + B * D, mx * my);
            }
            // the quotient forms |rhs|^2, which has to be a normal number of the type
            auto const denom = D * D + E * E;
            auto const lo    = sizeof(T) == 2 ? 0x1p-8L : sizeof(T) == 4 ? 0x1p-100L : 0x1p-900L;
            auto const hi    = sizeof(T) == 2 ? 0x1p13L : sizeof(T) == 4 ? 0x1p100L : 0x1p900L;
            auto const div_ok = denom > lo && denom < hi && fits && (mx == 0 || mx * my > lo) && (mx == 0 || mx / my > lo);
            if (div_ok) {
                near("div", x / y, (A * D + B * E) / denom, (B * D - A * E) / denom, 2 * mx / my);
                c.count("divisions");
            }
            {
                auto t  = x;
                auto& r = (t += y);
                equal("add_assign", t, T(a + d), T(b + e));
                c.check(&r == &t, "assign_returns_self");
                t       = x;
                auto& u = (t -= y);
                equal("sub_assign", t, T(a - d), T(b - e));
                c.check(&u == &t, "assign_returns_self");
                if (fits) {
                    t       = x;
                    auto& v = (t *= y);
                    near("mul_assign", t, A * D - B * E, A * E + B * D, mx * my);
                    c.check(&v == &t, "assign_returns_self");
                }
                if (div_ok) {
                    t       = x;
                    auto& w = (t /= y);
                    near("div_assign", t, (A * D + B * E) / denom, (B * D - A * E) / denom, 2 * mx / my);
                    c.check(&w == &t, "assign_returns_self");
                }
                // the same object on both sides
                t = x;
                t += t;
                equal("add_self", t, T(a + a), T(b + b));
                t = x;
                t -= t;
                equal("sub_self", t, T(a - a), T(b - b));
                if (mx * mx < (sizeof(T) == 2 ? 20000.0L : sizeof(T) == 4 ? 1e37L : 1e300L)) {
                    t = x;
                    t *= t;
                    near("mul_self", t, A * A - B * B, 2 * A * B, mx * mx);
                }
                if (A * A + B * B > lo && A * A + B * B < hi) {
                    t = x;
                    t /= t;
                    near("div_self", t, 1.0L, 0.0L, 2.0L);
                }
                if (mx * std::abs(S) < (sizeof(T) == 2 ? 20000.0L : sizeof(T) == 4 ? 1e37L : 1e300L)) {
                    t       = x;
                    auto& r2 = (t *= s);
                    near("scale", t, A * S, B * S, mx * std::abs(S));
                    c.check(&r2 == &t, "assign_returns_self");
                }
                if (S != 0 && mx / std::abs(S) < (sizeof(T) == 2 ? 20000.0L : sizeof(T) == 4 ? 1e37L : 1e300L)) {
                    t        = x;
                    auto& r2 = (t /= s);
                    near("unscale", t, A / S, B / S, mx / std::abs(S));
                    c.check(&r2 == &t, "assign_returns_self");
                }
            }
            if (mx * mx < (sizeof(T) == 2 ? 30000.0L : sizeof(T) == 4 ? 1e37L : 1e300L) && (mx == 0 || mx * mx > lo)) {
                c.check(std::abs(L(abs(x)) - mx) <= 8 * eps<T>() * mx, "abs", [&] { return info("abs", x) + str(" got %La want %La", L(abs(x)), mx); });
                c.check(L(neo::math::abs(x)) == L(abs(x)), "math_abs", [&] { return info("abs", x); });
            }
            // comparisons
            auto const fx = neo::float_equality::exact(x, y);
            c.check(fx == (a == d && b == e), "exact_complex", [&] { return info("==", y); });
            c.check(neo::float_equality::exact(x, x) && !neo::float_equality::exact(x, Z{a, T(b + T(1))}) == (T(b + T(1)) != b)
                        && !neo::float_equality::exact(x, Z{T(a + T(1)), b}) == (T(a + T(1)) != a),
                    "exact_complex", [&] { return info("==", x); });
        }
    });
}

template<typename T>
auto std_functions(char const* name) -> void
{
    section(name, 100, 10000, [=](Case& c) {
        c.desc("%s stream %lld", name, c.index);
        for (int k = 0; k < 100; ++k) {
            int q{};
            auto const a = draw<T>(c.rng, q), b = draw<T>(c.rng, q);
            auto const z = std::complex<T>{a, b};
            c.check(neo::math::real(z) == a && neo::math::imag(z) == b, "std_parts");
            c.check(neo::math::conj(z) == std::complex<T>{a, -b}, "std_conj");
            c.check(std::abs(L(neo::math::abs(z)) - std::hypot(L(a), L(b))) <= 4 * eps<T>() * std::hypot(L(a), L(b)), "std_abs");
            c.check(neo::math::real(a) == a, "real_of_real");
            c.check(neo::math::abs(a) == std::fabs(a), "abs_real", [&] { return str("%La", L(a)); });
            auto const p = neo::math::polar(static_cast<T>(std::fabs(a)), static_cast<T>(c.rng.sym() * 3));
            (void)p;
            auto const r  = static_cast<T>(c.rng.unit() * 10);
            auto const th = static_cast<T>(c.rng.sym() * 7);
            auto const w  = neo::math::polar(r, th);
            c.check(std::abs(L(w.real()) - L(r) * std::cos(L(th))) <= 8 * eps<T>() * L(r) && std::abs(L(w.imag()) - L(r) * std::sin(L(th))) <= 8 * eps<T>() * L(r), "polar",
                    [&] { return str("r=%La theta=%La", L(r), L(th)); });
            auto const pos = static_cast<T>(std::ldexp(1.0 + c.rng.unit(), static_cast<int>(c.rng.range(-60, 60))));
            auto const lg  = std::log2(L(pos));
            c.check(std::abs(L(neo::math::log2(pos)) - lg) <= 4 * eps<T>() * (std::abs(lg) + 1), "log2", [&] { return str("%La", L(pos)); });
            c.check(neo::float_equality::exact(a, b) == (a == b) && neo::float_equality::exact(a, a), "exact_real");
            using N       = std::numeric_limits<T>;
            auto special  = [&] { return static_cast<T>(c.rng.pick(T(N::infinity()), T(-N::infinity()), T(N::quiet_NaN()), T(0), T(-0.0), N::denorm_min(), N::max(), T(1), a)); };
            auto const s0 = special(), s1 = special(), s2 = special(), s3 = special();
            c.check(neo::float_equality::exact(s0, s1) == (s0 == s1), "exact_special", [&] { return str("%g %g", double(s0), double(s1)); });
            c.check(neo::float_equality::exact(std::complex<T>{s0, s1}, std::complex<T>{s2, s3}) == (s0 == s2 && s1 == s3), "exact_special",
                    [&] { return str("(%g,%g) (%g,%g)", double(s0), double(s1), double(s2), double(s3)); });
        }
    });
}

template<typename I>
auto int_functions(char const* name) -> void
{
    section(name, 4, 200, [=](Case& c) {
        c.desc("%s stream %lld", name, c.index);
        for (int k = 0; k < 2000; ++k) {
            auto const x = static_cast<I>(c.rng.u64() >> c.rng.range(0, 63));
            if constexpr (std::is_signed_v<I>) {
                if (x == std::numeric_limits<I>::min()) {
                    continue;
                }
            }
            auto const w = x < I(0) ? static_cast<I>(I(0) - x) : x;
            c.check(static_cast<I>(neo::math::abs(x)) == w && !(neo::math::abs(x) < 0), "abs_int", [&] { return str("%lld", (long long)x); });
            auto const p = static_cast<I>(x < I(0) ? static_cast<I>(I(0) - x) : x);
            if (p > I(0)) {
                auto const lg = std::log2(static_cast<ld>(p));
                c.check(std::abs(static_cast<ld>(neo::math::log2(p)) - lg) <= 1e-12L, "log2_int", [&] { return str("%lld", (long long)p); });
            }
        }
    });
}

auto body() -> void
{
    arithmetic<float>("complex64");
    arithmetic<double>("complex128");
#if defined(NEO_HAS_BUILTIN_FLOAT16)
    arithmetic<_Float16>("complex32");
#endif
    std_functions<float>("functions_float");
    std_functions<double>("functions_double");
    int_functions<int>("functions_int");
    int_functions<long long>("functions_llong");
    int_functions<unsigned>("functions_unsigned");
    int_functions<std::int8_t>("functions_int8");
    int_functions<std::int16_t>("functions_int16");
    int_functions<std::uint8_t>("functions_uint8");
    int_functions<std::uint16_t>("functions_uint16");
    int_functions<std::uint64_t>("functions_uint64");
}

}  // namespace

MON_MAIN(body)
