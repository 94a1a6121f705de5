// C02: arbitrary-length transforms (direct sum, chirp plan) and the split-complex plan.
#include "plan_check.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/fft.hpp>

using namespace mon;

namespace {

inline auto norm1(std::vector<cld> const& x) -> ld
{
    auto s = 0.0L;
    for (auto const& z : x) {
        s += std::abs(z);
    }
    return s;
}

template<typename C>
auto judge(Case& c, std::vector<C> const& got, std::vector<cld> const& ref, ld tol, char const* key) -> void
{
    auto at        = std::size_t{0};
    auto const err = max_err(to_ld(got), ref, &at);
    c.metric(std::string{key} + "_err_over_tol", err / tol);
    c.check(err <= tol, key, [&] {
        return str("bin %zu: got (%Lg,%Lg) want (%Lg,%Lg) err %Lg tol %Lg", at, to_ld(got[at]).real(), to_ld(got[at]).imag(), ref[at].real(), ref[at].imag(), err, tol);
    });
    c.compared(ref.size());
}

inline auto any_size(Case& c, std::size_t exhaustive, std::size_t hi) -> std::size_t
{
    auto const i = static_cast<std::size_t>(c.index);
    if (i < exhaustive) {
        return i + 1;
    }
    auto const p = std::size_t{1} << c.rng.size(3, 8);
    return std::min(hi, c.rng.pick(c.rng.size(1, hi), c.rng.size(1, hi), p - 1, p, p + 1));
}

template<typename C>
auto direct(char const* name) -> void
{
    using T = typename C::value_type;
    section(name, 50, 900, [=](Case& c) {
        auto const n    = c.index % 25 == 24 ? c.rng.size(250, fast_build ? 1300 : 400) : any_size(c, 20, 220);
        auto const sign = c.rng.chance(1, 2) ? -1 : 1;
        int cls{};
        auto const x = complex_signal<C>(c.rng, n, cls);
        c.desc("%s n=%zu sign=%d class=%d stream=%lld", name, n, sign, cls, c.index);
        auto in  = Buf<C>(n, 1, c.rng.size(0, 2));
        auto in2 = Buf<C>(n, c.rng.stride());
        auto o   = Buf<C>(n, 1, c.rng.size(0, 2));
        auto o2  = Buf<C>(n, c.rng.stride());
        in.set(x);
        in2.set(x);
        auto const ref = dft_oracle(to_ld(x), sign);
        auto const tol = eps<T>() * 40 * (static_cast<ld>(n) + 2) * norm1(to_ld(x)) + floor_of<T>();
        neo::fft::dft(contiguous_const(in), contiguous(o), dir_of(sign));
        judge(c, o.get(), ref, tol, "direct_dft");
        neo::fft::dft(strided_const(in2), strided(o2), dir_of(sign));
        judge(c, o2.get(), ref, tol, "direct_dft_strided");
        if (sign < 0) {
            auto o3 = Buf<C>(n);
            neo::fft::dft(contiguous_const(in), contiguous(o3));
            judge(c, o3.get(), ref, tol, "direct_dft_default");
        }
        c.check(same_bits(in.get(), x) && same_bits(in2.get(), x), "input_changed");
        c.check(in.intact() && in2.intact() && o.intact() && o2.intact(), "out_of_range_write");
    });
}

template<typename C>
auto chirp(char const* name, int quick, int thorough) -> void
{
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const n = any_size(c, 40, c.rng.chance(1, 10) ? 3000 : 400);
        c.desc("%s n=%zu stream=%lld", name, n, c.index);
        auto plan = neo::fft::dft_plan<C>{n};
        c.check(plan.size() == n, "size", [&] { return str("%zu", std::size_t(plan.size())); });
        // several transforms through one plan, in either direction
        for (auto rep = 0; rep < 3; ++rep) {
            auto const sign = c.rng.chance(1, 2) ? -1 : 1;
            int cls{};
            auto const x   = complex_signal<C>(c.rng, n, cls);
            auto const ref = dft_oracle(to_ld(x), sign);
            auto const tol = 4 * fft_tol<T>(n, norm2(to_ld(x)), peak(ref)) * (1 + std::sqrt(static_cast<ld>(n)) / 4);
            auto const md  = c.rng.range(0, 3);
            auto a         = Buf<C>(n, md == 1 ? c.rng.stride() : std::size_t{1}, c.rng.size(0, 2));
            a.set(x);
            if (md == 0) {
                plan(contiguous(a), dir_of(sign));
                judge(c, a.get(), ref, tol, "chirp");
            } else if (md == 1) {
                plan(strided(a), dir_of(sign));
                judge(c, a.get(), ref, tol, "chirp_strided");
            } else if (md == 2) {
                sign < 0 ? neo::fft::dft(plan, contiguous(a)) : neo::fft::idft(plan, contiguous(a));
                judge(c, a.get(), ref, tol, "chirp_helper");
            } else {
                auto o = Buf<C>(n, 1, 1);
                sign < 0 ? neo::fft::dft(plan, contiguous_const(a), contiguous(o)) : neo::fft::idft(plan, contiguous_const(a), contiguous(o));
                judge(c, o.get(), ref, tol, "chirp_out_of_place");
                c.check(same_bits(a.get(), x), "input_changed");
                c.check(o.intact(), "out_of_range_write");
            }
            c.check(a.intact(), "out_of_range_write");
        }
    });
}

template<typename C>
auto chirp_large(char const* name) -> void
{
    section(name, 3, 24, [=](Case& c) {
        auto const n    = c.index % 3 == 0 ? c.rng.size(4000, 30000) : c.rng.size(65537, fast_build ? 140000 : 70000);
        auto const sign = c.index % 2 == 0 ? -1 : 1;
        auto const at   = c.rng.size(1, n - 1);
        c.desc("%s n=%zu sign=%d unit vector %zu", name, n, sign, at);
        auto plan = neo::fft::dft_plan<C>{n};
        auto a    = Buf<C>(n);
        impulse_case<C>(c, a, at, sign, 4 * (1 + std::sqrt(static_cast<ld>(n)) / 4), [&](auto x) { plan(x, dir_of(sign)); });
        dense_case<decltype(plan), C>(c, plan, n, c.rng.chance(1, 2) ? -1 : 1, 4 * (1 + std::sqrt(static_cast<ld>(n)) / 4));
        c.count("large_transforms");
    });
}

/// one plan in service for a long time
template<typename T>
auto in_service(char const* name) -> void
{
    section(name, 4, 60, [=](Case& c) {
        using C          = std::complex<T>;
        auto const calls = c.rng.size(1100, 1300);
        if (c.index % 2 == 0) {
            auto const n = c.rng.size(3, 19);
            c.desc("%s chirp n=%zu calls=%zu stream=%lld", name, n, calls, c.index);
            auto plan = neo::fft::dft_plan<C>{n};
            many_calls<C>(c, n, calls, 4 * (1 + std::sqrt(static_cast<ld>(n)) / 4), [&](auto x, int sign) { plan(x, dir_of(sign)); });
            return;
        }
        auto const order = c.rng.size(1, 4);
        auto const n     = std::size_t{1} << order;
        c.desc("%s split order=%zu calls=%zu stream=%lld", name, order, calls, c.index);
        auto plan = neo::fft::split_fft_plan<T>{neo::fft::from_order, order};
        auto re = Buf<T>(n), im = Buf<T>(n);
        many_calls<C>(c, n, calls, 1, [&](auto x, int sign) {
            for (std::size_t i = 0; i < n; ++i) {
                re[i] = x[i].real();
                im[i] = x[i].imag();
            }
            plan(neo::split_complex{contiguous(re), contiguous(im)}, dir_of(sign));
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = C{re[i], im[i]};
            }
        });
        c.check(re.intact() && im.intact(), "out_of_range_write");
    });
}

template<typename T>
auto split(char const* name) -> void
{
    section(std::string_view{name}.substr(0, 7) == "split<f" ? "split_large<float>" : "split_large<double>", 4, 16, [=](Case& c) {
        using C          = std::complex<T>;
        auto const order = std::size_t{fast_build ? 16 : 14} + static_cast<std::size_t>(c.index) % 4;
        auto const n     = std::size_t{1} << order;
        auto const sign  = c.index % 2 == 0 ? -1 : 1;
        auto const at    = c.rng.size(0, n - 1);
        c.desc("%s order=%zu sign=%d unit vector %zu", name, order, sign, at);
        auto plan = neo::fft::split_fft_plan<T>{neo::fft::from_order, order};
        auto a    = Buf<C>(n);
        auto re   = Buf<T>(n);
        auto im   = Buf<T>(n);
        re.set(std::vector<T>(n));
        im.set(std::vector<T>(n));
        impulse_case<C>(c, a, at, sign, 1, [&](auto x) {
            re[at] = T(1);
            plan(neo::split_complex{contiguous(re), contiguous(im)}, dir_of(sign));
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = C{re[i], im[i]};
            }
        });
        auto through = [&](auto x, neo::fft::direction dir) {
            for (std::size_t i = 0; i < n; ++i) {
                re[i] = x[i].real();
                im[i] = x[i].imag();
            }
            plan(neo::split_complex{contiguous(re), contiguous(im)}, dir);
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = C{re[i], im[i]};
            }
        };
        dense_case<decltype(through), C>(c, through, n, c.rng.chance(1, 2) ? -1 : 1, 1);
        c.check(re.intact() && im.intact(), "out_of_range_write");
        c.count("large_transforms");
    });
    using C = std::complex<T>;
    section(name, 80, 2500, [=](Case& c) {
        auto const order = c.index % 40 == 39 ? c.rng.size(11, 14) : static_cast<std::size_t>(c.index) % 11;
        auto const n     = std::size_t{1} << order;
        auto plan        = neo::fft::split_fft_plan<T>{neo::fft::from_order, order};
        c.check(plan.order() == order && plan.size() == n, "size_order");
        c.desc("%s order=%zu stream=%lld", name, order, c.index);
        for (auto rep = 0; rep < 3; ++rep) {
            auto const sign = c.rng.chance(1, 2) ? -1 : 1;
            auto const st   = c.rng.chance(1, 3) ? c.rng.stride() : std::size_t{1};
            int cls{};
            auto const x   = complex_signal<C>(c.rng, n, cls);
            auto const ref = dft_oracle(to_ld(x), sign);
            auto const tol = 2 * fft_tol<T>(n, norm2(to_ld(x)), peak(ref));
            auto re        = Buf<T>(n, st, c.rng.size(0, 2));
            auto im        = Buf<T>(n, st != 1 && c.rng.chance(1, 2) ? c.rng.step() : st, c.rng.size(0, 2));
            for (std::size_t i = 0; i < n; ++i) {
                re[i] = x[i].real();
                im[i] = x[i].imag();
            }
            auto join = [&](Buf<T>& a, Buf<T>& b) {
                auto v = std::vector<C>(n);
                for (std::size_t i = 0; i < n; ++i) {
                    v[i] = {a[i], b[i]};
                }
                return v;
            };
            auto const api = c.rng.range(0, 3);
            if (api == 0) {
                if (st == 1) {
                    plan(neo::split_complex{contiguous(re), contiguous(im)}, dir_of(sign));
                } else {
                    plan(neo::split_complex{strided(re), strided(im)}, dir_of(sign));
                }
                judge(c, join(re, im), ref, tol, "split_inplace");
            } else if (api == 1) {
                auto z = neo::split_complex{strided(re), strided(im)};
                sign < 0 ? neo::fft::fft(plan, z) : neo::fft::ifft(plan, z);
                judge(c, join(re, im), ref, tol, "split_helper");
            } else {
                auto const flat = c.rng.chance(1, 2);
                auto ore = Buf<T>(n, flat ? std::size_t{1} : c.rng.step(), c.rng.size(0, 2));
                auto oim = Buf<T>(n, flat ? std::size_t{1} : c.rng.step(), c.rng.size(0, 2));
                auto in  = neo::split_complex{strided_const(re), strided_const(im)};
                auto go  = [&](auto out) {
                    if (api == 2) {
                        sign < 0 ? neo::fft::fft(plan, in, out) : neo::fft::ifft(plan, in, out);
                    } else {
                        plan(in, out, dir_of(sign));
                    }
                };
                if (flat) {
                    go(neo::split_complex{contiguous(ore), contiguous(oim)});
                } else {
                    go(neo::split_complex{strided(ore), strided(oim)});
                }
                judge(c, join(ore, oim), ref, tol, "split_out_of_place");
                c.check(same_bits(join(re, im), x), "input_changed");
                c.check(ore.intact() && oim.intact(), "out_of_range_write");
            }
            c.check(re.intact() && im.intact(), "out_of_range_write");
        }
    });
}

/// A plan of the user's own that transforms out of place: the helpers hand it both views and the right direction.
template<typename C>
struct UserPlan
{
    using value_type = C;
    std::size_t calls{0};
    template<typename In, typename Out>
    auto operator()(In in, Out out, neo::fft::direction dir) -> void
    {
        using T = typename C::value_type;
        ++calls;
        auto const n = static_cast<std::size_t>(in.extent(0));
        auto v       = std::vector<cld>(n);
        for (std::size_t i = 0; i < n; ++i) {
            v[i] = to_ld(C{in(i).real(), in(i).imag()});
        }
        auto const y = dft_naive(v, dir == neo::fft::direction::forward ? -1 : 1);
        for (std::size_t i = 0; i < n; ++i) {
            out(i) = C{static_cast<T>(y[i].real()), static_cast<T>(y[i].imag())};
        }
    }
};

template<typename C>
auto user_plan(char const* name) -> void
{
    using T = typename C::value_type;
    section(name, 20, 200, [=](Case& c) {
        auto const n    = c.rng.size(1, 40);
        auto const sign = c.index % 2 == 0 ? -1 : 1;
        c.desc("%s n=%zu sign=%d stream=%lld", name, n, sign, c.index);
        int cls{};
        auto const x = complex_signal<C>(c.rng, n, cls);
        auto a = Buf<C>(n), o = Buf<C>(n);
        a.set(x);
        auto plan = UserPlan<C>{};
        sign < 0 ? neo::fft::dft(plan, contiguous_const(a), contiguous(o)) : neo::fft::idft(plan, contiguous_const(a), contiguous(o));
        auto const ref = dft_naive(to_ld(x), sign);
        c.check(plan.calls == 1, "user_plan_calls");
        c.check(max_err(to_ld(o.get()), ref) <= fft_tol<T>(n, norm2(to_ld(x)), peak(ref)), "user_plan");
        c.check(same_bits(a.get(), x), "input_changed");
    });
}

auto body() -> void
{
    in_service<float>("many_calls<float>");
    in_service<double>("many_calls<double>");
    user_plan<std::complex<float>>("user_plan<cf>");
    user_plan<std::complex<double>>("user_plan<cd>");
    direct<std::complex<float>>("direct<cf>");
    direct<std::complex<double>>("direct<cd>");
    chirp<std::complex<float>>("chirp<cf>", 100, 1500);
    chirp<std::complex<double>>("chirp<cd>", 100, 1500);
    chirp_large<std::complex<float>>("chirp_large<cf>");
    chirp_large<std::complex<double>>("chirp_large<cd>");
    split<float>("split<float>");
    split<double>("split<double>");
}

}  // namespace

MON_MAIN(body)
