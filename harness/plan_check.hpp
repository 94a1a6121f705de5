// Checks shared by every complex-to-complex plan.
#pragma once

#include "spectral.hpp"

#include <neo/fft/fft.hpp>
#include <neo/fft/order.hpp>

namespace mon {

inline auto dir_of(int sign) { return sign < 0 ? neo::fft::direction::forward : neo::fft::direction::backward; }

/// One transform through one view layout. mode: 0 contiguous, 1 strided, 2 int index, 3 fft()/ifft() helpers, 4 out of place, 5 layout_left column
template<typename Plan, typename C>
auto transform_against(Case& c, Plan& plan, std::size_t n, std::vector<C> const& x, std::vector<cld> const& ref, int sign, int mode, ld tol_mult = 1) -> void
{
    using T          = typename C::value_type;
    auto const dir   = dir_of(sign);
    auto const tol   = tol_mult * fft_tol<T>(n, norm2(to_ld(x)), peak(ref));
    auto const judge = [&](std::vector<C> const& got, char const* key) {
        auto at        = std::size_t{0};
        auto const err = max_err(to_ld(got), ref, &at);
        c.metric("err_over_tol", err / tol);
        c.check(err <= tol, key, [&] {
            return str("bin %zu: got (%Lg,%Lg) want (%Lg,%Lg) err %Lg tol %Lg", at, to_ld(got[at]).real(), to_ld(got[at]).imag(), ref[at].real(), ref[at].imag(), err, tol);
        });
        c.compared(n);
    };

    auto const stride = (mode == 1 || mode == 5) ? c.rng.stride() : std::size_t{1};
    auto a            = Buf<C>(n, stride, c.rng.size(0, 3));
    a.set(x);
    switch (mode) {
        case 1:
        case 5: plan(strided(a), dir); break;
        case 2: plan(contiguous<C, int>(a), dir); break;
        case 3: sign < 0 ? neo::fft::fft(plan, contiguous(a)) : neo::fft::ifft(plan, contiguous(a)); break;
        case 4: {
            auto o  = Buf<C>(n, 1, 1);
            auto os = Buf<C>(n, c.rng.stride(), 1);
            sign < 0 ? neo::fft::fft(plan, contiguous_const(a), contiguous(o)) : neo::fft::ifft(plan, contiguous_const(a), contiguous(o));
            judge(o.get(), "out_of_place");
            sign < 0 ? neo::fft::fft(plan, contiguous_const(a), strided(os)) : neo::fft::ifft(plan, contiguous_const(a), strided(os));
            judge(os.get(), "out_of_place_strided");
            c.check(same_bits(a.get(), x), "input_changed");
            c.check(o.intact() && os.intact() && a.intact(), "out_of_range_write");
            return;
        }
        default: plan(contiguous(a), dir);
    }
    judge(a.get(), sign < 0 ? "forward" : "backward");
    c.check(a.intact(), "out_of_range_write");
}

template<typename Plan, typename C>
auto transform_case(Case& c, Plan& plan, std::size_t n, std::vector<C> const& x, int sign, int mode, ld tol_mult = 1) -> void
{
    transform_against(c, plan, n, x, dft_oracle(to_ld(x), sign), sign, mode, tol_mult);
}

/// forward then backward = n times the input
template<typename Plan, typename C>
auto roundtrip_case(Case& c, Plan& plan, std::size_t n, std::vector<C> const& x, bool forward_first, ld tol_mult = 1) -> void
{
    using T = typename C::value_type;
    auto a  = Buf<C>(n);
    a.set(x);
    plan(contiguous(a), dir_of(forward_first ? -1 : 1));
    plan(contiguous(a), dir_of(forward_first ? 1 : -1));
    auto const want = to_ld(x);
    auto got        = to_ld(a.get());
    for (auto& z : got) {
        z /= static_cast<ld>(n);
    }
    auto const tol = 2 * tol_mult * fft_tol<T>(n, norm2(want), 0);
    auto const err = max_err(got, want);
    c.metric("roundtrip_err_over_tol", err / tol);
    c.check(err <= tol, "roundtrip", [&] { return str("err %Lg tol %Lg", err, tol); });
}

/// The image of every unit vector: the whole transform matrix.
template<typename Plan, typename C>
auto matrix_case(Case& c, Plan& plan, std::size_t n, int sign, bool imaginary, ld tol_mult = 1) -> void
{
    using T      = typename C::value_type;
    auto const w = roots(n, sign);
    auto a       = Buf<C>(n);
    auto tol     = tol_mult * fft_tol<T>(n, 1.0L, 0);
    for (std::size_t i = 0; i < n; ++i) {
        auto x = std::vector<C>(n, C{T(0), T(0)});
        x[i]   = imaginary ? C{T(0), T(1)} : C{T(1), T(0)};
        a.set(x);
        plan(contiguous(a), dir_of(sign));
        auto worst = 0.0L;
        auto at    = std::size_t{0};
        for (std::size_t k = 0; k < n; ++k) {
            auto const e = imaginary ? cld{-w[(i * k) % n].imag(), w[(i * k) % n].real()} : w[(i * k) % n];
            auto const g = to_ld(a[k]);
            auto d       = std::max(std::abs(g.real() - e.real()), std::abs(g.imag() - e.imag()));
            if (!(d == d)) {
                d = 1e30L;
            }
            if (d > worst) {
                worst = d;
                at    = k;
            }
        }
        c.metric("matrix_err_over_tol", worst / tol);
        c.check(worst <= tol, sign < 0 ? "forward" : "backward", [&] { return str("unit vector %zu bin %zu err %Lg tol %Lg", i, at, worst, tol); });
        c.compared(n);
    }
}

/// The image of one unit vector of any length.
template<typename C>
auto impulse_case(Case& c, Buf<C>& a, std::size_t at, int sign, ld tol_mult, auto run) -> void
{
    using T      = typename C::value_type;
    auto const n = a.n;
    auto x       = std::vector<C>(n, C{T(0), T(0)});
    x[at]        = C{T(1), T(0)};
    a.set(x);
    run(contiguous(a));
    auto const tol = tol_mult * fft_tol<T>(n, 1.0L, 1.0L);
    auto worst     = 0.0L;
    auto bin       = std::size_t{0};
    for (std::size_t k = 0; k < n; ++k) {
        auto const e = root(n, at * k, sign);
        auto const g = to_ld(a[k]);
        auto d       = std::max(std::abs(g.real() - e.real()), std::abs(g.imag() - e.imag()));
        d            = d == d ? d : 1e30L;
        if (d > worst) {
            worst = d;
            bin   = k;
        }
    }
    c.metric("impulse_err_over_tol", worst / tol);
    c.check(worst <= tol, sign < 0 ? "forward" : "backward", [&] { return str("n=%zu unit vector %zu bin %zu err %Lg tol %Lg", n, at, bin, worst, tol); });
    c.check(a.intact(), "out_of_range_write");
    c.compared(n);
}

/// A full-bandwidth signal of any length: some bins against the definition, then the way back, where every element counts.
template<typename Plan, typename C>
auto dense_case(Case& c, Plan& plan, std::size_t n, int sign, ld tol_mult) -> void
{
    using T      = typename C::value_type;
    auto a       = Buf<C>(n);
    auto x       = std::vector<C>(n);
    auto energy  = 0.0L;
    for (auto& z : x) {
        z = C{static_cast<T>(c.rng.sym()), static_cast<T>(c.rng.sym())};
        energy += static_cast<ld>(z.real()) * static_cast<ld>(z.real()) + static_cast<ld>(z.imag()) * static_cast<ld>(z.imag());
    }
    a.set(x);
    plan(contiguous(a), dir_of(sign));
    auto const w   = roots(n, sign);
    auto const tol = tol_mult * fft_tol<T>(n, std::sqrt(energy), std::sqrt(energy));
    for (auto i = 0; i < 6; ++i) {
        auto const bin = i == 0 ? std::size_t{0} : i == 1 ? n - 1 : i == 2 ? n / 2 : c.rng.size(0, n - 1);
        auto re = 0.0L, im = 0.0L;
        auto j = std::size_t{0};
        for (std::size_t t = 0; t < n; ++t) {
            auto const xr = static_cast<ld>(x[t].real()), xi = static_cast<ld>(x[t].imag());
            re += xr * w[j].real() - xi * w[j].imag();
            im += xr * w[j].imag() + xi * w[j].real();
            j += bin;
            j -= j >= n ? n : 0;
        }
        auto const got = to_ld(a[bin]);
        auto d         = std::max(std::abs(got.real() - re), std::abs(got.imag() - im));
        d              = d == d ? d : 1e30L;
        c.metric("dense_err_over_tol", d / tol);
        c.check(d <= tol, sign < 0 ? "forward" : "backward", [&] { return str("n=%zu dense signal bin %zu err %Lg tol %Lg", n, bin, d, tol); });
        c.compared(1);
    }
    plan(contiguous(a), dir_of(-sign));
    auto const rt = 2 * tol_mult * fft_tol<T>(n, 8 * std::sqrt(energy / static_cast<ld>(n)), 0);
    auto worst    = 0.0L;
    auto at       = std::size_t{0};
    for (std::size_t t = 0; t < n; ++t) {
        auto const got = to_ld(a[t]);
        auto d = std::max(std::abs(got.real() / static_cast<ld>(n) - static_cast<ld>(x[t].real())), std::abs(got.imag() / static_cast<ld>(n) - static_cast<ld>(x[t].imag())));
        d      = d == d ? d : 1e30L;
        if (d > worst) {
            worst = d;
            at    = t;
        }
    }
    c.metric("dense_roundtrip_err_over_tol", worst / rt);
    c.check(worst <= rt, "roundtrip", [&] { return str("n=%zu element %zu err %Lg tol %Lg", n, at, worst, rt); });
    c.check(a.intact(), "out_of_range_write");
    c.compared(n);
}

/// A long series of transforms through one plan, each against the definition.
template<typename C>
auto many_calls(Case& c, std::size_t n, std::size_t calls, ld tol_mult, auto run) -> void
{
    using T = typename C::value_type;
    auto a  = Buf<C>(n, 1, 1);
    // a few signals and their images, in changing order
    auto xs = std::vector<std::vector<C>>{};
    auto fs = std::vector<std::array<std::vector<cld>, 2>>{};
    for (auto i = 0; i < 5; ++i) {
        auto x = std::vector<C>(n);
        for (auto& z : x) {
            z = C{static_cast<T>(c.rng.sym()), static_cast<T>(c.rng.sym())};
        }
        fs.push_back({dft_naive(to_ld(x), -1), dft_naive(to_ld(x), 1)});
        xs.push_back(std::move(x));
    }
    auto const style = c.rng.range(0, 2);  // alternating, one direction only, either
    for (std::size_t t = 0; t < calls; ++t) {
        auto const sign = style == 0 ? (t % 2 == 0 ? -1 : 1) : style == 1 ? -1 : c.rng.chance(1, 2) ? -1 : 1;
        auto const i    = c.rng.size(0, xs.size() - 1);
        auto const& ref = fs[i][sign < 0 ? 0 : 1];
        a.set(xs[i]);
        run(contiguous(a), sign);
        auto const tol = tol_mult * fft_tol<T>(n, norm2(to_ld(xs[i])), peak(ref));
        auto const err = max_err(to_ld(a.get()), ref);
        c.check(err <= tol, "many_calls", [&] { return str("call %zu sign %d err %Lg tol %Lg", t, sign, err, tol); });
    }
    c.check(a.intact(), "out_of_range_write");
    c.count("calls_in_series", calls);
    c.compared(n * calls);
}

/// recurrence: the plan derives its twiddles by repeated multiplication, whose rounding grows with n
template<typename Plan>
auto plan_sections(char const* name, std::size_t base, std::size_t small_orders, std::size_t big_lo, std::size_t big_hi, int quick, int thorough, int bigs, bool recurrence = false) -> void
{
    using C = typename Plan::value_type;
    using T = typename C::value_type;
    static std::vector<std::unique_ptr<std::string>> keep;
    auto key = [&](char const* s) {
        keep.push_back(std::make_unique<std::string>(std::string{name} + "." + s));
        return keep.back()->c_str();
    };
    auto const mult    = [recurrence](std::size_t n) { return recurrence ? 1 + static_cast<ld>(n) / 8 : 1.0L; };
    auto const size_of = [base](std::size_t order) {
        auto n = std::size_t{1};
        for (std::size_t i = 0; i < order; ++i) {
            n *= base;
        }
        return n;
    };

    section(key("matrix"), static_cast<long long>(small_orders + 1) * 2, static_cast<long long>(small_orders + 1) * 4, [=](Case& c) {
        auto const order = static_cast<std::size_t>(c.index) % (small_orders + 1);
        auto const part  = static_cast<std::size_t>(c.index) / (small_orders + 1);
        auto const sign  = part % 2 == 0 ? -1 : 1;
        auto const imag  = part >= 2 || order % 3 == 2;
        auto const n     = size_of(order);
        c.desc("%s order=%zu sign=%d imaginary=%d: every unit vector", name, order, sign, int(imag));
        auto plan = Plan{neo::fft::from_order, order};
        c.check(plan.order() == order && plan.size() == n, "size_order", [&] { return str("order %zu size %zu", std::size_t(plan.order()), std::size_t(plan.size())); });
        matrix_case<Plan, C>(c, plan, n, sign, imag, mult(n));
        c.count("unit_vectors", n);
    });

    section(key("signals"), quick, thorough, [=](Case& c) {
        auto const span  = small_orders + 2;
        auto const order = static_cast<std::size_t>(c.index) % (span + 1);
        auto const sign  = c.rng.chance(1, 2) ? -1 : 1;
        auto const mode  = static_cast<int>(c.rng.range(0, 5));
        auto const n     = size_of(order);
        int cls{};
        auto const x = complex_signal<C>(c.rng, n, cls);
        c.desc("%s order=%zu sign=%d mode=%d class=%d stream=%lld", name, order, sign, mode, cls, c.index);
        auto plan = Plan{neo::fft::from_order, order};
        transform_case(c, plan, n, x, sign, mode, mult(n));
        roundtrip_case(c, plan, n, x, c.rng.chance(1, 2), mult(n));
        c.count(str("order.%zu", order));
    });

    // every order, direction and way of calling: a few samples at random positions, whose image is known in closed form
    auto orders = std::size_t{1};
    while (size_of(orders) <= (fast_build ? std::size_t{65536} : std::size_t{16384})) {
        ++orders;
    }
    section(key("sweep"), static_cast<long long>(orders), static_cast<long long>(orders) * 12, [=](Case& c) {
        auto const order = static_cast<std::size_t>(c.index) % orders;
        auto const n     = size_of(order);
        c.desc("%s order=%zu: both directions, every way of calling, stream=%lld", name, order, c.index);
        auto plan = Plan{neo::fft::from_order, order};
        for (auto sign : {-1, 1}) {
            auto const w = roots(n, sign);
            auto x       = std::vector<C>(n, C{T(0), T(0)});
            auto ref     = std::vector<cld>(n);
            for (auto i = 0; i < 5; ++i) {
                auto const at = i == 0 ? n - 1 : c.rng.size(0, n - 1);
                if (x[at].real() != T(0)) {
                    continue;
                }
                x[at]         = C{static_cast<T>(0.5 + c.rng.unit()), static_cast<T>(c.rng.sym())};
                auto const a  = to_ld(x[at]);
                auto idx      = std::size_t{0};
                for (std::size_t k = 0; k < n; ++k) {
                    ref[k] += cld{a.real() * w[idx].real() - a.imag() * w[idx].imag(), a.real() * w[idx].imag() + a.imag() * w[idx].real()};
                    idx += at;
                    idx -= idx >= n ? n : 0;
                }
            }
            for (auto mode = 0; mode < 6; ++mode) {
                transform_against(c, plan, n, x, ref, sign, mode, mult(n));
            }
        }
        c.count(str("swept_order.%zu", order));
    });

    // one plan in service for a long time: every call counts, not only the first few
    section(key("many_calls"), 2, 40, [=](Case& c) {
        auto order = std::size_t{1};
        while (size_of(order) < (c.index % 2 == 0 ? 4U : 16U)) {
            ++order;
        }
        auto const n     = size_of(order);
        auto const calls = c.rng.size(1100, 1300);
        c.desc("%s order=%zu calls=%zu stream=%lld", name, order, calls, c.index);
        auto plan = Plan{neo::fft::from_order, order};
        many_calls<C>(c, n, calls, mult(n), [&](auto x, int sign) { plan(x, dir_of(sign)); });
    });

    if (bigs > 0) {
        // sizes past 2^16, where narrow index types wrap: one unit vector, whose image is known in closed form
        section(key("huge"), base == 2 ? (bigs > 3 ? 6 : 3) : 2, 16, [=](Case& c) {
            auto order = std::size_t{0};
            while (size_of(order) <= 65536) {
                ++order;
            }
            if (fast_build) {
                order += static_cast<std::size_t>(c.index) % (base == 2 ? 6 : 2);
                if (base == 2 && g.thorough && c.index == 7) {
                    order = 24;
                }
            }
            if constexpr (requires { Plan::max_order(); }) {
                order = std::min<std::size_t>(order, Plan::max_order());
            }
            auto const n    = size_of(order);
            auto const sign = c.rng.chance(1, 2) ? -1 : 1;
            auto const at   = c.rng.pick(c.rng.size(0, n - 1), n - 1 - c.rng.size(0, 9), n / 2 + c.rng.size(0, 9));
            c.desc("%s order=%zu sign=%d unit vector %zu", name, order, sign, at);
            auto plan = Plan{neo::fft::from_order, order};
            auto a    = Buf<C>(n);
            impulse_case<C>(c, a, at, sign, mult(n), [&](auto x) { plan(x, dir_of(sign)); });
            dense_case<Plan, C>(c, plan, n, c.rng.chance(1, 2) ? -1 : 1, mult(n));
            c.count("huge_transforms");
        });
        section(key("large"), bigs, bigs * 6, [=](Case& c) {
            auto const hi    = g.thorough ? big_hi + 1 : big_hi;
            auto const order = big_lo + static_cast<std::size_t>(c.index) % (hi - big_lo + 1);
            auto const sign  = (c.index / static_cast<long long>(hi - big_lo + 1)) % 2 == 0 ? -1 : 1;
            auto const n     = size_of(order);
            int cls{};
            auto const x = complex_signal<C>(c.rng, n, cls);
            c.desc("%s order=%zu sign=%d class=%d stream=%lld", name, order, sign, cls, c.index);
            auto plan = Plan{neo::fft::from_order, order};
            transform_case(c, plan, n, x, sign, 0, mult(n));
            c.count("large_transforms");
        });
    }
}

}  // namespace mon
