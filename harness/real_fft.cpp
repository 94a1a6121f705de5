// C03: real-input transforms.
#include "plan_check.hpp"

#include "cx.hpp"
#include <neo/fft.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/rfft.hpp>

using namespace mon;

namespace {

template<typename T>
auto signal(Case& c, std::size_t n, int& cls) -> std::vector<T>
{
    auto const amp = loudness<T>(c.rng);
    auto const v   = real_signal(c.rng, n, cls, amp);
    return std::vector<T>(v.begin(), v.end());
}

template<typename T>
auto as_complex(std::vector<T> const& x) -> std::vector<cld>
{
    auto o = std::vector<cld>(x.size());
    for (std::size_t i = 0; i < x.size(); ++i) {
        o[i] = static_cast<ld>(x[i]);
    }
    return o;
}

auto pick_order(Case& c, std::size_t lo) -> std::size_t
{
    return c.index % 50 == 49 ? c.rng.size(11, g.thorough ? 16 : 14) : lo + static_cast<std::size_t>(c.index) % (11 - lo);
}

/// contiguous views where the storage allows it (sometimes), strided ones otherwise
template<typename A, typename B, typename F>
auto both(Case& c, Buf<A>& in, Buf<B>& out, F f) -> void
{
    if (in.stride == 1 && out.stride == 1 && c.rng.chance(3, 4)) {
        f(contiguous_const(in), contiguous(out));
        c.count("contiguous_calls");
    } else {
        f(strided_const(in), strided(out));
    }
}

template<typename A, typename F>
auto single(Case& c, Buf<A>& a, F f) -> void
{
    if (a.stride == 1 && c.rng.chance(3, 4)) {
        f(contiguous(a));
        c.count("contiguous_calls");
    } else {
        f(strided(a));
    }
}

/// sizes past 2^16: images of single samples and single bins, known in closed form
template<typename T, typename C>
auto huge(char const* name) -> void
{
    section(name, 4, 24, [=](Case& c) {
        auto const kind  = c.index % 4;
        auto const order = std::size_t{17} + (fast_build ? c.rng.size(0, 2) : 0);
        auto const n     = std::size_t{1} << order;
        auto const at    = c.rng.pick(c.rng.size(0, n - 1), n - 1 - c.rng.size(0, 9), n / 2 + c.rng.size(0, 9));
        auto const w     = roots(kind == 2 ? 4 * n : n, -1);
        c.desc("%s kind=%lld order=%zu at=%zu", name, kind, order, at);
        auto worst  = 0.0L;
        auto see    = [&](ld got, ld want) { auto const e = std::abs(got - want); worst = std::max(worst, e == e ? e : 1e30L); };
        auto x      = Buf<T>(n);
        auto const amp = T(0.75);
        x[at]       = amp;
        if (kind == 0) {
            auto z    = Buf<C>(n / 2 + 1);
            auto plan = neo::fft::rfft_plan<T, C>{neo::fft::from_order, order};
            neo::fft::rfft(plan, contiguous_const(x), contiguous(z));
            for (std::size_t k = 0; k <= n / 2; ++k) {
                see(static_cast<ld>(z[k].real()), amp * w[(k * at) % n].real());
                see(static_cast<ld>(z[k].imag()), amp * w[(k * at) % n].imag());
            }
        } else if (kind == 1) {
            auto z       = Buf<C>(n / 2 + 1);
            auto const k = at / 2;
            z[k]         = C{T(0.5), T(-0.25)};
            auto plan    = neo::fft::rfft_plan<T, C>{neo::fft::from_order, order};
            neo::fft::irfft(plan, contiguous_const(z), contiguous(x));
            for (std::size_t i = 0; i < n; ++i) {
                auto const u = std::conj(w[(k * i) % n]);
                see(static_cast<ld>(x[i]), k == 0 || 2 * k == n ? 0.5L * u.real() : 2 * (0.5L * u.real() + 0.25L * u.imag()));
            }
        } else if (kind == 2) {
            auto plan = neo::fft::fallback_dct2_plan<T>{neo::fft::from_order, order};
            plan(contiguous(x));
            for (std::size_t k = 0; k < n; ++k) {
                see(static_cast<ld>(x[k]), 2 * amp * w[(k * (2 * at + 1)) % (4 * n)].real());
            }
        } else {
            auto plan = neo::fft::experimental::rfft_plan<T>{neo::fft::from_order, order};
            plan(contiguous(x), neo::fft::direction::forward);
            see(static_cast<ld>(x[0]), amp);
            see(static_cast<ld>(x[1]), amp * w[(n / 2 * at) % n].real());
            for (std::size_t k = 1; k < n / 2; ++k) {
                see(static_cast<ld>(x[2 * k]), amp * w[(k * at) % n].real());
                see(static_cast<ld>(x[2 * k + 1]), amp * w[(k * at) % n].imag());
            }
        }
        auto const tol = kind == 3 ? (sizeof(T) == 4 ? 1e-4L : 1e-12L) : 8 * eps<T>() * static_cast<ld>(order);
        c.metric(str("huge%lld_err_over_tol", kind), worst / tol);
        c.check(worst <= tol, "huge", [&] { return str("err %Lg tol %Lg", worst, tol); });
        c.check(x.intact(), "out_of_range_write");
        c.compared(n);
    });
}

/// long full-bandwidth signals: some outputs against the definition, then the way back, where every element counts
template<typename T, typename C>
auto dense(char const* name) -> void
{
    section(name, 20, 120, [=](Case& c) {
        auto const kind  = c.index % 4;
        auto const order = std::size_t{fast_build ? 15 : 13} + static_cast<std::size_t>(c.index / 4) % 5;
        auto const n     = std::size_t{1} << order;
        auto const bins  = n / 2 + 1;
        c.desc("%s kind=%lld order=%zu stream=%lld", name, kind, order, c.index);
        auto const w = roots(kind == 2 ? 4 * n : n, -1);
        auto v       = std::vector<T>(n);
        auto energy  = 0.0L;
        for (auto& s : v) {
            s = static_cast<T>(c.rng.sym());
            energy += static_cast<ld>(s) * static_cast<ld>(s);
        }
        auto const loose = kind == 3 ? 64.0L + std::sqrt(static_cast<ld>(n)) : 1.0L;
        auto const tol   = 2 * loose * fft_tol<T>(n, std::sqrt(energy), std::sqrt(energy));
        auto const rt    = 2 * loose * fft_tol<T>(n, 8 * std::sqrt(energy / static_cast<ld>(n)), 0);
        auto const dist  = [](ld got, ld want) { auto const e = std::abs(got - want); return e == e ? e : 1e30L; };
        auto const bin   = [&](std::size_t i, std::size_t count) { return i == 0 ? std::size_t{0} : i == 1 ? count - 1 : c.rng.size(0, count - 1); };
        auto const image = [&](std::size_t k) {
            auto re = 0.0L, im = 0.0L;
            auto j = std::size_t{0};
            for (auto s : v) {
                re += static_cast<ld>(s) * w[j].real();
                im += static_cast<ld>(s) * w[j].imag();
                j += k;
                j -= j >= n ? n : 0;
            }
            return cld{re, im};
        };
        auto x = Buf<T>(n);
        x.set(v);
        auto worst = 0.0L, back = 0.0L;
        if (kind == 0 || kind == 1) {
            auto plan = neo::fft::rfft_plan<T, C>{neo::fft::from_order, order};
            auto z    = Buf<C>(bins);
            if (kind == 0) {
                neo::fft::rfft(plan, contiguous_const(x), contiguous(z));
                for (std::size_t i = 0; i < 6; ++i) {
                    auto const k    = bin(i, bins);
                    auto const want = image(k);
                    worst           = std::max({worst, dist(static_cast<ld>(z[k].real()), want.real()), dist(static_cast<ld>(z[k].imag()), want.imag())});
                }
                neo::fft::irfft(plan, contiguous_const(z), contiguous(x));
                for (std::size_t i = 0; i < n; ++i) {
                    back = std::max(back, dist(static_cast<ld>(x[i]) / static_cast<ld>(n), static_cast<ld>(v[i])));
                }
            } else {
                // any half spectrum, taken from v, with real first and last bins
                for (std::size_t k = 0; k < bins; ++k) {
                    z[k] = k == 0 || k == n / 2 ? C{v[k], T(0)} : C{v[k], v[n - k]};
                }
                auto const spectrum = z.get();
                neo::fft::irfft(plan, contiguous_const(z), contiguous(x));
                for (std::size_t i = 0; i < 6; ++i) {
                    auto const t = bin(i, n);
                    auto sum     = 0.0L;
                    for (std::size_t k = 0; k < bins; ++k) {
                        auto const u = std::conj(w[(k * t) % n]);
                        auto const s = to_ld(spectrum[k]);
                        sum += (k == 0 || k == n / 2 ? 1 : 2) * (s.real() * u.real() - s.imag() * u.imag());
                    }
                    worst = std::max(worst, dist(static_cast<ld>(x[t]), sum));
                }
                neo::fft::rfft(plan, contiguous_const(x), contiguous(z));
                for (std::size_t k = 0; k < bins; ++k) {
                    auto const s = to_ld(spectrum[k]);
                    back         = std::max({back, dist(static_cast<ld>(z[k].real()) / static_cast<ld>(n), s.real()), dist(static_cast<ld>(z[k].imag()) / static_cast<ld>(n), s.imag())});
                }
            }
            c.check(z.intact(), "out_of_range_write");
        } else if (kind == 2) {
            auto plan = neo::fft::fallback_dct2_plan<T>{neo::fft::from_order, order};
            plan(contiguous(x));
            for (std::size_t i = 0; i < 12; ++i) {
                auto const k = bin(i, n);
                auto sum     = 0.0L;
                for (std::size_t t = 0; t < n; ++t) {
                    sum += 2 * static_cast<ld>(v[t]) * w[(k * (2 * t + 1)) % (4 * n)].real();
                }
                worst = std::max(worst, dist(static_cast<ld>(x[k]), sum));
            }
        } else {
            auto plan = neo::fft::experimental::rfft_plan<T>{neo::fft::from_order, order};
            plan(contiguous(x), neo::fft::direction::forward);
            for (std::size_t i = 0; i < 6; ++i) {
                auto const k    = 1 + bin(i, n / 2 - 1);
                auto const want = image(k);
                worst           = std::max({worst, dist(static_cast<ld>(x[2 * k]), want.real()), dist(static_cast<ld>(x[2 * k + 1]), want.imag())});
            }
            plan(contiguous(x), neo::fft::direction::backward);
            for (std::size_t i = 0; i < n; ++i) {
                back = std::max(back, dist(2 * static_cast<ld>(x[i]) / static_cast<ld>(n), static_cast<ld>(v[i])));
            }
        }
        c.metric(str("dense%lld_err_over_tol", kind), worst / tol);
        c.metric(str("dense%lld_roundtrip_over_tol", kind), back / rt);
        c.check(worst <= tol, "dense", [&] { return str("err %Lg tol %Lg", worst, tol); });
        c.check(back <= rt, "dense_roundtrip", [&] { return str("err %Lg tol %Lg", back, rt); });
        c.check(x.intact(), "out_of_range_write");
        c.compared(n);
    });
}

template<typename T, typename C>
auto rfft(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const order = pick_order(c, 0);
        auto const n     = std::size_t{1} << order;
        auto const bins  = n / 2 + 1;
        c.desc("%s order=%zu stream=%lld", name, order, c.index);
        auto plan = neo::fft::rfft_plan<T, C>{neo::fft::from_order, order};
        c.check(plan.order() == order && plan.size() == n, "size_order");
        for (auto rep = 0; rep < 3; ++rep) {
            int cls{};
            auto const x   = signal<T>(c, n, cls);
            auto const ref = dft_oracle(as_complex(x), -1);
            auto const tol = fft_tol<T>(n, norm2(as_complex(x)), peak(ref));
            auto const st  = c.rng.chance(1, 3) ? c.rng.stride() : std::size_t{1};
            auto const so  = c.rng.chance(1, 3) ? c.rng.stride() : std::size_t{1};
            auto in        = Buf<T>(n, st, c.rng.size(0, 3));
            // an output longer than needed keeps its tail
            auto const extra = c.rng.chance(1, 3) ? n - bins : std::size_t{0};
            auto out         = Buf<C>(bins + extra, so, c.rng.size(0, 3));
            in.set(x);
            auto const mark = C{T(-77), T(55)};
            for (std::size_t i = 0; i < bins + extra; ++i) {
                out[i] = mark;
            }
            auto const helper = c.rng.chance(1, 2);
            both(c, in, out, [&](auto i, auto o) { helper ? neo::fft::rfft(plan, i, o) : plan(i, o); });
            auto worst = 0.0L;
            auto at    = std::size_t{0};
            for (std::size_t k = 0; k < bins; ++k) {
                auto const z = to_ld(out[k]);
                auto e       = std::max(std::abs(z.real() - ref[k].real()), std::abs(z.imag() - ref[k].imag()));
                e            = e == e ? e : 1e30L;
                if (e > worst) {
                    worst = e;
                    at    = k;
                }
            }
            c.metric("rfft_err_over_tol", worst / tol);
            c.check(worst <= tol, "rfft", [&] { return str("bin %zu err %Lg tol %Lg class %d", at, worst, tol, cls); });
            for (std::size_t k = bins; k < bins + extra; ++k) {
                c.check(out[k].real() == mark.real() && out[k].imag() == mark.imag(), "rfft_extra_bins", [&] { return str("bin %zu of %zu written", k, bins); });
            }
            c.check(same_bits(in.get(), x), "input_changed");
            c.check(in.intact() && out.intact(), "out_of_range_write");
            c.compared(bins);

            // inverse of an arbitrary half spectrum: imaginary parts of the two real bins carry nothing
            auto spec = std::vector<C>(bins);
            int c2{};
            spec = complex_signal<C>(c.rng, bins, c2);
            if (rep == 0) {
                for (std::size_t k = 0; k < bins; ++k) {
                    spec[k] = C{static_cast<T>(ref[k].real()), static_cast<T>(ref[k].imag())};
                }
            }
            auto full = std::vector<cld>(n);
            for (std::size_t k = 0; k < bins; ++k) {
                full[k] = to_ld(spec[k]);
                if (k == 0 || 2 * k == n) {
                    full[k] = full[k].real();
                } else {
                    full[n - k] = std::conj(full[k]);
                }
            }
            auto const want = dft_oracle(full, 1);
            auto t2         = fft_tol<T>(n, norm2(to_ld(spec)) * 1.5L, peak(want));
            // whatever lies past the half spectrum (a whole frame is a valid input) carries nothing either
            auto const spare = c.rng.chance(1, 2) ? c.rng.pick(n - bins, c.rng.size(0, n - bins)) : std::size_t{0};
            for (std::size_t i = 0; i < spare; ++i) {
                spec.push_back(C{static_cast<T>(1000 * c.rng.sym()), static_cast<T>(1000 * c.rng.sym())});
            }
            auto si         = Buf<C>(bins + spare, st, c.rng.size(0, 3));
            auto y          = Buf<T>(n, so, c.rng.size(0, 3));
            si.set(spec);
            both(c, si, y, [&](auto i, auto o) { helper ? neo::fft::irfft(plan, i, o) : plan(i, o); });
            worst = 0;
            for (std::size_t i = 0; i < n; ++i) {
                auto e = std::abs(static_cast<ld>(y[i]) - want[i].real());
                e      = e == e ? e : 1e30L;
                if (e > worst) {
                    worst = e;
                    at    = i;
                }
            }
            c.metric("irfft_err_over_tol", worst / t2);
            c.check(worst <= t2, "irfft", [&] { return str("sample %zu err %Lg tol %Lg class %d", at, worst, t2, c2); });
            c.check(same_bits(si.get(), spec), "input_changed");
            c.check(si.intact() && y.intact(), "out_of_range_write");
            c.compared(n);
        }
    });
}

/// one plan of each kind in service for a long time
template<typename T>
auto in_service(char const* name) -> void
{
    section(name, 8, 80, [=](Case& c) {
        using C          = std::complex<T>;
        auto const kind  = c.index % 4;
        auto const order = c.rng.size(2, 4);
        auto const n     = std::size_t{1} << order;
        auto const bins  = n / 2 + 1;
        auto const calls = c.rng.size(1100, 1300);
        auto const one   = c.rng.chance(1, 3);  // now and then one direction only
        c.desc("%s kind=%lld order=%zu calls=%zu stream=%lld", name, kind, order, calls, c.index);
        auto rplan = neo::fft::rfft_plan<T, C>{neo::fft::from_order, order};
        auto dplan = neo::fft::fallback_dct2_plan<T>{neo::fft::from_order, order};
        auto pplan = neo::fft::experimental::rfft_plan<T>{neo::fft::from_order, order};
        auto iplan = neo::fft::experimental::c2c_dit2_plan<T>{neo::fft::from_order, order};
        if (kind == 3) {
            auto v = Buf<T>(2 * n, 1, 1);
            many_calls<C>(c, n, calls, 1, [&](auto x, int sign) {
                for (std::size_t i = 0; i < n; ++i) {
                    v[2 * i]     = x[i].real();
                    v[2 * i + 1] = x[i].imag();
                }
                iplan(contiguous(v), dir_of(sign));
                for (std::size_t i = 0; i < n; ++i) {
                    x[i] = C{v[2 * i], v[2 * i + 1]};
                }
            });
            c.check(v.intact(), "out_of_range_write");
            return;
        }
        auto const w = roots(4 * n, -1);
        auto x = Buf<T>(n, 1, 1);
        auto z = Buf<C>(bins, 1, 1);
        for (std::size_t t = 0; t < calls; ++t) {
            auto v = std::vector<T>(n);
            for (auto& e : v) {
                e = static_cast<T>(c.rng.sym());
            }
            auto spec = std::vector<cld>(bins);
            for (std::size_t k = 0; k < bins; ++k) {
                for (std::size_t i = 0; i < n; ++i) {
                    spec[k] += static_cast<ld>(v[i]) * w[(4 * k * i) % (4 * n)];
                }
            }
            auto worst = 0.0L;
            auto see   = [&](ld got, ld want) { auto const e = std::abs(got - want); worst = std::max(worst, e == e ? e : 1e30L); };
            x.set(v);
            if (kind == 0) {
                if (one || t % 2 == 0) {
                    rplan(contiguous_const(x), contiguous(z));
                    for (std::size_t k = 0; k < bins; ++k) {
                        see(static_cast<ld>(z[k].real()), spec[k].real());
                        see(static_cast<ld>(z[k].imag()), spec[k].imag());
                    }
                } else {
                    for (std::size_t k = 0; k < bins; ++k) {
                        z[k] = C{static_cast<T>(spec[k].real()), static_cast<T>(spec[k].imag())};
                    }
                    rplan(contiguous_const(z), contiguous(x));
                    for (std::size_t i = 0; i < n; ++i) {
                        see(static_cast<ld>(x[i]) / static_cast<ld>(n), static_cast<ld>(v[i]));
                    }
                }
            } else if (kind == 1) {
                dplan(contiguous(x));
                for (std::size_t k = 0; k < n; ++k) {
                    auto s = 0.0L;
                    for (std::size_t i = 0; i < n; ++i) {
                        s += static_cast<ld>(v[i]) * w[(k * (2 * i + 1)) % (4 * n)].real();
                    }
                    see(static_cast<ld>(x[k]), 2 * s);
                }
            } else {
                pplan(contiguous(x), neo::fft::direction::forward);
                see(static_cast<ld>(x[0]), spec[0].real());
                see(static_cast<ld>(x[1]), spec[n / 2].real());
                for (std::size_t k = 1; k < n / 2; ++k) {
                    see(static_cast<ld>(x[2 * k]), spec[k].real());
                    see(static_cast<ld>(x[2 * k + 1]), spec[k].imag());
                }
                if (!one) {
                    pplan(contiguous(x), neo::fft::direction::backward);
                    for (std::size_t i = 0; i < n; ++i) {
                        see(static_cast<ld>(x[i]) * 2 / static_cast<ld>(n), static_cast<ld>(v[i]));
                    }
                }
            }
            auto const tol = 4 * fft_tol<T>(n, 2 * norm2(as_complex(v)), peak(spec));
            c.check(worst <= tol, "many_calls", [&] { return str("kind %lld call %zu err %Lg tol %Lg", kind, t, worst, tol); });
        }
        c.check(x.intact() && z.intact(), "out_of_range_write");
        c.count("calls_in_series", calls);
    });
}

template<typename C>
auto deinterleave(char const* name) -> void
{
    using T = typename C::value_type;
    section(name, 60, 2000, [=](Case& c) {
        // any length: two real signals carried by one complex transform
        auto const n = c.index < 24 ? static_cast<std::size_t>(c.index) + 1 : c.index % 30 == 29 ? std::size_t{1} << c.rng.size(9, 12) : c.rng.size(1, 300);
        int ca{}, cb{};
        auto const a = signal<T>(c, n, ca);
        auto const b = signal<T>(c, n, cb);
        c.desc("%s n=%zu classes=%d,%d stream=%lld", name, n, ca, cb, c.index);
        auto z = std::vector<cld>(n);
        for (std::size_t i = 0; i < n; ++i) {
            z[i] = {static_cast<ld>(a[i]), static_cast<ld>(b[i])};
        }
        auto const big = n > 300;
        auto const zf = big ? dft_oracle(z, -1) : dft_naive(z, -1);
        auto const af = big ? dft_oracle(as_complex(a), -1) : dft_naive(as_complex(a), -1);
        auto const bf = big ? dft_oracle(as_complex(b), -1) : dft_naive(as_complex(b), -1);
        auto const m  = n / 2 + 1;
        auto in       = Buf<C>(n, 1, c.rng.size(0, 2));
        auto const sx = c.rng.step();
        auto x        = Buf<C>(m, sx, c.rng.size(0, 2));
        auto y        = Buf<C>(m, 1, c.rng.size(0, 2));
        for (std::size_t i = 0; i < n; ++i) {
            in[i] = C{static_cast<T>(zf[i].real()), static_cast<T>(zf[i].imag())};
        }
        auto const before = in.get();
        sx == 1 ? neo::fft::rfft_deinterleave(contiguous_const(in), contiguous(x), contiguous(y)) : neo::fft::rfft_deinterleave(contiguous_const(in), strided(x), contiguous(y));
        auto const tol = 8 * eps<T>() * (peak(zf) + 1e-25L);
        for (std::size_t k = 0; k < m; ++k) {
            auto const ea = std::abs(to_ld(x[k]) - af[k]);
            auto const eb = std::abs(to_ld(y[k]) - bf[k]);
            c.metric("deinterleave_err_over_tol", std::max(ea, eb) / tol);
            c.check(ea <= tol && eb <= tol, "deinterleave", [&] { return str("bin %zu errors %Lg %Lg tol %Lg", k, ea, eb, tol); });
        }
        c.check(same_bits(in.get(), before), "input_changed");
        c.check(in.intact() && x.intact() && y.intact(), "out_of_range_write");
    });
}

template<typename T>
auto interleaved(char const* name) -> void
{
    using C = std::complex<T>;
    section(name, 60, 2000, [=](Case& c) {
        auto const order = pick_order(c, 0);
        auto const n     = std::size_t{1} << order;
        c.desc("%s interleaved order=%zu stream=%lld", name, order, c.index);
        auto plan = neo::fft::experimental::c2c_dit2_plan<T>{neo::fft::from_order, order};
        c.check(plan.order() == order && plan.size() == n, "size_order");
        for (auto rep = 0; rep < 2; ++rep) {
            auto const sign = c.rng.chance(1, 2) ? -1 : 1;
            int cls{};
            auto const x   = complex_signal<C>(c.rng, n, cls);
            auto const ref = dft_oracle(to_ld(x), sign);
            auto const tol = fft_tol<T>(n, norm2(to_ld(x)), peak(ref));
            auto a         = Buf<T>(2 * n, c.rng.step(), c.rng.size(0, 2));
            for (std::size_t i = 0; i < n; ++i) {
                a[2 * i]     = x[i].real();
                a[2 * i + 1] = x[i].imag();
            }
            single(c, a, [&](auto v) { plan(v, dir_of(sign)); });
            auto got = std::vector<cld>(n);
            for (std::size_t i = 0; i < n; ++i) {
                got[i] = {static_cast<ld>(a[2 * i]), static_cast<ld>(a[2 * i + 1])};
            }
            auto const err = max_err(got, ref);
            c.metric("interleaved_err_over_tol", err / tol);
            c.check(err <= tol, "interleaved", [&] { return str("err %Lg tol %Lg sign %d", err, tol, sign); });
            c.check(a.intact(), "out_of_range_write");
            c.compared(n);
        }
    });
}

template<typename T>
auto packed(char const* name) -> void
{
    section(name, 60, 2000, [=](Case& c) {
        auto const order = pick_order(c, 1);
        auto const n     = std::size_t{1} << order;
        c.desc("%s packed order=%zu stream=%lld", name, order, c.index);
        auto plan = neo::fft::experimental::rfft_plan<T>{neo::fft::from_order, order};
        c.check(plan.order() == order && plan.size() == n, "size_order");
        for (auto rep = 0; rep < 2; ++rep) {
            int cls{};
            auto const x   = signal<T>(c, n, cls);
            auto const ref = dft_oracle(as_complex(x), -1);
            auto const mul = 2 + static_cast<ld>(n) / 64;  // trigonometric recurrence
            auto const tol = mul * fft_tol<T>(n, norm2(as_complex(x)), peak(ref));
            auto a         = Buf<T>(n, c.rng.step(), c.rng.size(0, 2));
            a.set(x);
            single(c, a, [&](auto v) { plan(v, neo::fft::direction::forward); });
            auto worst = std::max(std::abs(static_cast<ld>(a[0]) - ref[0].real()), std::abs(static_cast<ld>(a[1]) - ref[n / 2].real()));
            for (std::size_t k = 1; k < n / 2; ++k) {
                auto e = std::max(std::abs(static_cast<ld>(a[2 * k]) - ref[k].real()), std::abs(static_cast<ld>(a[2 * k + 1]) - ref[k].imag()));
                worst  = std::max(worst, e == e ? e : 1e30L);
            }
            c.metric("packed_err_over_tol", worst / tol);
            c.check(worst <= tol, "packed_forward", [&] { return str("err %Lg tol %Lg class %d", worst, tol, cls); });
            single(c, a, [&](auto v) { plan(v, neo::fft::direction::backward); });
            worst          = 0;
            auto const t2  = 2 * tol;
            for (std::size_t i = 0; i < n; ++i) {
                auto e = std::abs(static_cast<ld>(a[i]) * 2 / static_cast<ld>(n) - static_cast<ld>(x[i]));
                worst  = std::max(worst, e == e ? e : 1e30L);
            }
            auto const t3 = std::min(t2, 2 * mul * fft_tol<T>(n, norm2(as_complex(x)), 0));
            c.metric("packed_roundtrip_err_over_tol", worst / t3);
            c.check(worst <= t3, "packed_roundtrip", [&] { return str("err %Lg tol %Lg class %d", worst, t3, cls); });
            c.check(a.intact(), "out_of_range_write");
            c.compared(2 * n);
        }
    });
}

template<typename T>
auto dct(char const* name) -> void
{
    section(name, 60, 2000, [=](Case& c) {
        auto const order = static_cast<std::size_t>(c.index) % (c.index % 24 == 23 ? 13 : 11);
        auto const n     = std::size_t{1} << order;
        c.desc("%s dct2 order=%zu stream=%lld", name, order, c.index);
        auto plan = neo::fft::fallback_dct2_plan<T>{neo::fft::from_order, order};
        c.check(plan.order() == order && plan.size() == n, "size_order");
        for (auto rep = 0; rep < 2; ++rep) {
            int cls{};
            auto const x = signal<T>(c, n, cls);
            auto a       = Buf<T>(n, c.rng.step(), c.rng.size(0, 2));
            a.set(x);
            single(c, a, [&](auto v) { plan(v); });
            // definition through one 4n-point root table
            auto const w = roots(4 * n, 1);
            auto worst   = 0.0L;
            auto top     = 0.0L;
            for (std::size_t k = 0; k < n; ++k) {
                auto s = 0.0L;
                for (std::size_t i = 0; i < n; ++i) {
                    s += static_cast<ld>(x[i]) * w[(k * (2 * i + 1)) % (4 * n)].real();
                }
                top    = std::max(top, std::abs(2 * s));
                auto e = std::abs(static_cast<ld>(a[k]) - 2 * s);
                worst  = std::max(worst, e == e ? e : 1e30L);
            }
            auto const tol = 2 * fft_tol<T>(n, norm2(as_complex(x)), top);
            c.metric("dct_err_over_tol", worst / tol);
            c.check(worst <= tol, "dct2", [&] { return str("err %Lg tol %Lg class %d", worst, tol, cls); });
            c.check(a.intact(), "out_of_range_write");
            c.compared(n);
        }
    });
}

auto body() -> void
{
    in_service<float>("many_calls<float>");
    in_service<double>("many_calls<double>");
    rfft<float, std::complex<float>>("rfft<float>", 100, 3000);
    rfft<double, std::complex<double>>("rfft<double>", 60, 3000);
    rfft<float, mon::c64>("rfft<float,c64>", 60, 1500);
    rfft<double, mon::c128>("rfft<double,c128>", 60, 1500);
    huge<float, std::complex<float>>("huge<float>");
    huge<double, mon::c128>("huge<double>");
    dense<float, std::complex<float>>("dense<float>");
    dense<double, mon::c128>("dense<double>");
    deinterleave<std::complex<float>>("deinterleave<cf>");
    deinterleave<std::complex<double>>("deinterleave<cd>");
    interleaved<float>("interleaved<float>");
    interleaved<double>("interleaved<double>");
    packed<float>("packed<float>");
    packed<double>("packed<double>");
    dct<float>("dct<float>");
    dct<double>("dct<double>");
}

}  // namespace

MON_MAIN(body)
