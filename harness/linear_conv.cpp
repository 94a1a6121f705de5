// C11: one-shot convolution (direct and by FFT) is the full linear convolution.
#include "spectral.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/convolution/direct_convolve.hpp>
#include <neo/convolution/fft_convolver.hpp>

using namespace mon;

namespace {

template<typename T>
auto full_ref(std::vector<T> const& a, std::vector<T> const& b) -> std::vector<cld>
{
    auto o = std::vector<cld>(a.size() + b.size() - 1);
    for (std::size_t i = 0; i < a.size(); ++i) {
        for (std::size_t j = 0; j < b.size(); ++j) {
            if constexpr (std::is_floating_point_v<T>) {
                o[i + j] += static_cast<ld>(a[i]) * static_cast<ld>(b[j]);
            } else {
                auto const p = to_ld(a[i]), q = to_ld(b[j]);
                o[i + j] += cld{p.real() * q.real() - p.imag() * q.imag(), p.real() * q.imag() + p.imag() * q.real()};
            }
        }
    }
    return o;
}

template<typename T>
auto as_cld(T const& v) -> cld
{
    if constexpr (std::is_floating_point_v<T>) {
        return {static_cast<ld>(v), 0.0L};
    } else {
        return to_ld(v);
    }
}

template<typename T>
auto nrm(std::vector<T> const& v) -> ld
{
    auto s = 0.0L;
    for (auto const& x : v) {
        s += std::norm(as_cld(x));
    }
    return std::sqrt(s);
}

template<typename T>
auto judge(Case& c, std::vector<T> const& got, std::vector<cld> const& want, ld tol, char const* key) -> void
{
    if (!c.check(got.size() == want.size(), std::string{key} + "_length", [&] { return str("%zu want %zu", got.size(), want.size()); })) {
        return;
    }
    auto worst = 0.0L;
    auto at    = std::size_t{0};
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto e = std::abs(as_cld(got[i]) - want[i]);
        e      = e == e ? e : 1e30L;
        if (e > worst) {
            worst = e;
            at    = i;
        }
    }
    c.metric(std::string{key} + "_err_over_tol", worst / tol);
    c.compared(want.size());
    c.check(worst <= tol, key, [&] { return str("sample %zu of %zu err %Lg tol %Lg", at, want.size(), worst, tol); });
}

auto lengths(Case& c, std::size_t small, std::size_t hi) -> std::pair<std::size_t, std::size_t>
{
    auto const i = static_cast<std::size_t>(c.index);
    if (i < small * small) {
        return {1 + i / small, 1 + i % small};
    }
    if (auto const edge = edge_size(c, 20); edge != 0) {
        auto const other = c.rng.size(1, edge > 5000 ? 5 : 40);
        return c.rng.chance(1, 2) ? std::pair{edge, other} : std::pair{other, edge};
    }
    auto const p = std::size_t{1} << c.rng.size(1, 7);
    switch (c.rng.range(0, 4)) {
        case 0: return {p, c.rng.size(1, hi)};
        case 1: return {p, p + 1};
        case 2: return {p + 1, p - 1};
        case 3: return {c.rng.size(1, 9), c.rng.size(1, hi)};
        default: return {c.rng.size(1, hi), c.rng.size(1, hi)};
    }
}

template<typename T>
auto fill_vec(Case& c, std::size_t n) -> std::vector<T>
{
    if constexpr (std::is_floating_point_v<T>) {
        int cls{};
        auto const v = real_signal(c.rng, n, cls, c.rng.chance(1, 6) ? std::pow(10.0, (sizeof(T) == 4 ? 12.0 : 70.0) * c.rng.sym()) : c.rng.pick(1.0, 1.0, 1.0, 1e-6, 1e4));
        return std::vector<T>(v.begin(), v.end());
    } else {
        int cls{};
        return complex_signal<T>(c.rng, n, cls, false);
    }
}

template<typename T>
struct Real
{
    using type = T;
};
template<typename T>
struct Real<std::complex<T>>
{
    using type = T;
};

template<typename T>
auto direct(char const* name, int quick, int thorough) -> void
{
    using R = typename Real<T>::type;
    section(name, quick, thorough, [=](Case& c) {
        auto const [n, l] = lengths(c, 10, 150);
        c.desc("%s signal=%zu patch=%zu stream=%lld", name, n, l, c.index);
        auto const x = fill_vec<T>(c, n);
        auto const h = fill_vec<T>(c, l);
        auto xb = Buf<T>(n, c.rng.step(), c.rng.size(0, 2));
        auto hb = Buf<T>(l, c.rng.step(), c.rng.size(0, 2));
        auto o  = Buf<T>(n + l - 1, c.rng.step(), c.rng.size(0, 2));
        xb.set(x);
        hb.set(h);
        for (std::size_t i = 0; i < o.n; ++i) {
            o[i] = T(-3);
        }
        auto const want = full_ref(x, h);
        auto const tol  = eps<R>() * (8 + static_cast<ld>(std::min(n, l))) * nrm(x) * nrm(h) + floor_of<R>();
        neo::convolution::direct_convolve(strided_const(xb), strided_const(hb), strided(o));
        judge(c, o.get(), want, tol, "direct");
        auto const r = neo::convolution::direct_convolve(strided_const(xb), strided_const(hb));
        auto rv      = std::vector<T>(r.extent(0));
        for (std::size_t i = 0; i < rv.size(); ++i) {
            rv[i] = r(i);
        }
        judge(c, rv, want, tol, "direct_returned");
        c.check(same_bits(xb.get(), x) && same_bits(hb.get(), h), "input_changed");
        c.check(xb.intact() && hb.intact() && o.intact(), "out_of_range_write");
    });
}

template<typename T>
auto by_fft(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const [n, l] = lengths(c, 10, c.rng.chance(1, 8) ? 2000 : 200);
        c.desc("%s signal=%zu patch=%zu stream=%lld", name, n, l, c.index);
        auto conv = neo::convolution::fft_convolver<T>{n, l};
        c.check(conv.signal_size() == n && conv.patch_size() == l && conv.output_size() == n + l - 1, "sizes");
        for (auto rep = 0; rep < 3; ++rep) {
            auto const x = fill_vec<T>(c, n);
            auto const h = fill_vec<T>(c, l);
            auto xb = Buf<T>(n, c.rng.step(), c.rng.size(0, 2));
            auto hb = Buf<T>(l, c.rng.step(), c.rng.size(0, 2));
            auto o  = Buf<T>(n + l - 1, c.rng.step(), c.rng.size(0, 2));
            xb.set(x);
            hb.set(h);
            auto const want = full_ref(x, h);
            auto const tol  = 8 * eps<T>() * (std::log2(static_cast<ld>(n + l)) + 4) * nrm(x) * nrm(h) + floor_of<T>();
            conv(strided_const(xb), strided_const(hb), strided(o));
            judge(c, o.get(), want, tol, rep == 0 ? "fft_convolver" : "fft_convolver_reused");
            auto xc = Buf<T>(n), hc = Buf<T>(l);
            xc.set(x);
            hc.set(h);
            auto const r = neo::convolution::fft_convolve(contiguous_const(xc), contiguous_const(hc));
            auto rv      = std::vector<T>(r.extent(0));
            for (std::size_t i = 0; i < rv.size(); ++i) {
                rv[i] = r(i);
            }
            judge(c, rv, want, tol, "fft_convolve");
            c.check(same_bits(xb.get(), x) && same_bits(hb.get(), h) && same_bits(xc.get(), x) && same_bits(hc.get(), h), "input_changed");
            c.check(xb.intact() && hb.intact() && o.intact(), "out_of_range_write");
        }
        auto e1 = Buf<T>(0), s1 = Buf<T>(n);
        c.check(neo::convolution::fft_convolve(contiguous_const(e1), contiguous_const(s1)).extent(0) == 0, "fft_convolve_empty");
        c.check(neo::convolution::fft_convolve(contiguous_const(s1), contiguous_const(e1)).extent(0) == 0, "fft_convolve_empty");
    });
}

/// output lengths on, just below and just above every power of two: the transform length changes there
template<typename T>
auto edges(char const* name) -> void
{
    section(name, fast_build ? 54 : 42, fast_build ? 540 : 420, [=](Case& c) {
        auto const k     = static_cast<std::size_t>(c.index) / 3 % (fast_build ? 18 : 14) + 1;
        auto const total = (std::size_t{1} << k) + static_cast<std::size_t>(c.index) % 3 - 1;
        auto const l     = c.rng.pick(c.rng.size(1, total), c.rng.size(1, std::min<std::size_t>(total, 6)), (total + 1) / 2);
        auto const n     = total + 1 - l;
        c.desc("%s output=%zu signal=%zu patch=%zu stream=%lld", name, total, n, l, c.index);
        auto x = fill_vec<T>(c, n);
        auto h = std::vector<T>(l);
        for (auto i = 0; i < 4; ++i) {  // few taps keep the reference cheap; the last one makes the output full length
            h[i == 0 ? l - 1 : c.rng.size(0, l - 1)] = static_cast<T>(c.rng.sym() + 1.5);
        }
        x[n - 1] += T(1);
        auto want = std::vector<cld>(total);
        for (std::size_t j = 0; j < l; ++j) {
            for (std::size_t i = 0; h[j] != T(0) && i < n; ++i) {
                want[i + j] += static_cast<ld>(x[i]) * static_cast<ld>(h[j]);
            }
        }
        auto const tol = 8 * eps<T>() * (std::log2(static_cast<ld>(n + l)) + 4) * nrm(x) * nrm(h) + floor_of<T>();
        auto conv      = neo::convolution::fft_convolver<T>{n, l};
        auto xb = Buf<T>(n), hb = Buf<T>(l), o = Buf<T>(total);
        xb.set(x);
        hb.set(h);
        conv(contiguous_const(xb), contiguous_const(hb), contiguous(o));
        judge(c, o.get(), want, tol, "fft_convolver");
        auto const r = neo::convolution::fft_convolve(contiguous_const(hb), contiguous_const(xb));
        auto rv      = std::vector<T>(r.extent(0));
        for (std::size_t i = 0; i < rv.size(); ++i) {
            rv[i] = r(i);
        }
        judge(c, rv, want, tol, "fft_convolve_swapped");
        if (std::min(n, l) * total <= (fast_build ? std::size_t{100'000'000} : std::size_t{2'000'000})) {
            neo::convolution::direct_convolve(contiguous_const(xb), contiguous_const(hb), contiguous(o));
            judge(c, o.get(), want, tol, "direct");
        }
        c.check(xb.intact() && hb.intact() && o.intact(), "out_of_range_write");
        c.count(str("output_order.%zu", k));
    });
}

/// lengths past 2^16 against a few taps, either operand the long one
template<typename T>
auto long_direct(char const* name) -> void
{
    section(name, 8, 80, [=](Case& c) {
        auto const big   = std::size_t{65536} + (c.index % 4 == 3 ? c.rng.size(60'000, 80'000) : c.rng.size(1, 9000));
        auto const small = c.rng.pick(c.rng.size(1, 3), c.rng.size(4, 40), fast_build ? c.rng.size(200, 600) : c.rng.size(40, 60));
        auto const flip  = c.index % 2 == 1;
        auto const n     = flip ? small : big;
        auto const l     = flip ? big : small;
        c.desc("%s signal=%zu patch=%zu stream=%lld", name, n, l, c.index);
        auto const x = fill_vec<T>(c, n), h = fill_vec<T>(c, l);
        auto const want = full_ref(x, h);
        auto const tol  = eps<T>() * (8 + static_cast<ld>(small)) * nrm(x) * nrm(h) + floor_of<T>();
        auto xb = Buf<T>(n), hb = Buf<T>(l), o = Buf<T>(n + l - 1);
        xb.set(x);
        hb.set(h);
        neo::convolution::direct_convolve(contiguous_const(xb), contiguous_const(hb), contiguous(o));
        judge(c, o.get(), want, tol, "direct_long");
        auto conv = neo::convolution::fft_convolver<T>{n, l};
        conv(contiguous_const(xb), contiguous_const(hb), contiguous(o));
        judge(c, o.get(), want, 8 * eps<T>() * (std::log2(static_cast<ld>(n + l)) + 4) * nrm(x) * nrm(h) + floor_of<T>(), "fft_long");
        c.check(same_bits(xb.get(), x) && same_bits(hb.get(), h), "input_changed");
        c.check(xb.intact() && hb.intact() && o.intact(), "out_of_range_write");
    });
}

/// operands of different precision: the result is that of the less precise computation
template<typename S, typename P>
auto mixed(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const [n, l] = lengths(c, 6, 120);
        c.desc("%s signal=%zu patch=%zu stream=%lld", name, n, l, c.index);
        auto const xs = fill_vec<float>(c, n), hs = fill_vec<float>(c, l);
        auto const x = std::vector<S>(xs.begin(), xs.end());
        auto const h = std::vector<P>(hs.begin(), hs.end());
        auto xb = Buf<S>(n, c.rng.step(), c.rng.size(0, 2));
        auto hb = Buf<P>(l, c.rng.step(), c.rng.size(0, 2));
        xb.set(x);
        hb.set(h);
        auto const tol = 8 * eps<float>() * (std::log2(static_cast<ld>(n + l)) + 4) * nrm(x) * nrm(h) + floor_of<float>();
        auto const r   = neo::convolution::fft_convolve(strided_const(xb), strided_const(hb));
        auto rv        = std::vector<double>(r.extent(0));
        for (std::size_t i = 0; i < rv.size(); ++i) {
            rv[i] = r(i);
        }
        judge(c, rv, full_ref(xs, hs), tol, "fft_convolve_mixed");
        c.check(same_bits(xb.get(), x) && same_bits(hb.get(), h) && xb.intact() && hb.intact(), "input_changed");
    });
}

/// both operands read from one buffer (prefixes, overlapping, interleaved), which changes in place between calls
template<typename T>
auto shared(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const [n, l] = c.rng.chance(1, 6) ? std::pair{std::size_t(c.index) + 1, std::size_t(c.index) + 1} : lengths(c, 5, 150);
        auto const sn = c.rng.step(), sl = c.rng.chance(1, 2) ? sn : c.rng.step();
        auto const on = c.rng.chance(1, 2) ? std::size_t{0} : c.rng.size(0, 9), ol = c.rng.chance(1, 2) ? on : c.rng.size(0, 9);
        auto data = fill_vec<T>(c, std::max(on + (n - 1) * sn, ol + (l - 1) * sl) + 1);
        c.desc("%s signal=%zu@%zu/%zu patch=%zu@%zu/%zu stream=%lld", name, n, on, sn, l, ol, sl, c.index);
        using ext   = stdex::dextents<std::size_t, 1>;
        using strv  = stdex::mdspan<T const, ext, stdex::layout_stride>;
        auto view   = [&](std::size_t off, std::size_t size, std::size_t step) { return strv{data.data() + off, stdex::layout_stride::mapping<ext>{ext{size}, std::array<std::size_t, 1>{step}}}; };
        auto plain  = [&](std::size_t off, std::size_t size) { return stdex::mdspan<T const, ext>{data.data() + off, ext{size}}; };
        auto conv   = neo::convolution::fft_convolver<T>{n, l};
        auto o      = Buf<T>(n + l - 1, c.rng.step(), c.rng.size(0, 2));
        for (auto rep = 0; rep < 4; ++rep) {
            auto x = std::vector<T>(n), h = std::vector<T>(l);
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = data[on + i * sn];
            }
            for (std::size_t i = 0; i < l; ++i) {
                h[i] = data[ol + i * sl];
            }
            auto const before = data;
            auto const want   = full_ref(x, h);
            auto const tol    = 8 * eps<T>() * (std::log2(static_cast<ld>(n + l)) + 4) * nrm(x) * nrm(h) + floor_of<T>();
            auto const dtol   = eps<T>() * (8 + static_cast<ld>(std::min(n, l))) * nrm(x) * nrm(h) + floor_of<T>();
            auto returned     = [&](auto const& r, ld t, char const* key) {
                auto rv = std::vector<T>(r.extent(0));
                for (std::size_t i = 0; i < rv.size(); ++i) {
                    rv[i] = r(i);
                }
                judge(c, rv, want, t, key);
            };
            if (sn == 1 && sl == 1) {
                conv(plain(on, n), plain(ol, l), strided(o));
                judge(c, o.get(), want, tol, "shared_fft");
                returned(neo::convolution::fft_convolve(plain(on, n), plain(ol, l)), tol, "shared_fft_returned");
                returned(neo::convolution::direct_convolve(plain(on, n), plain(ol, l)), dtol, "shared_direct_returned");
            } else {
                conv(view(on, n, sn), view(ol, l, sl), strided(o));
                judge(c, o.get(), want, tol, "shared_fft");
                returned(neo::convolution::fft_convolve(view(on, n, sn), view(ol, l, sl)), tol, "shared_fft_returned");
                returned(neo::convolution::direct_convolve(view(on, n, sn), view(ol, l, sl)), dtol, "shared_direct_returned");
            }
            c.check(same_bits(data, before), "input_changed");
            c.check(o.intact(), "out_of_range_write");
            // the next call sees other contents at the same addresses: one sample of either operand, or everything
            switch (c.rng.range(0, 3)) {
                case 0: data[on + c.rng.size(0, n - 1) * sn] += T(1); break;
                case 1: data[ol + c.rng.size(0, l - 1) * sl] -= T(1); break;
                case 2: data = fill_vec<T>(c, data.size()); break;
                default: break;
            }
            c.count("shared_operands");
        }
    });
}

/// one convolver in service for a long time
template<typename T>
auto in_service(char const* name) -> void
{
    section(name, 3, 60, [=](Case& c) {
        auto const n = c.rng.size(1, 12), l = c.rng.size(1, 12);
        auto const calls = c.rng.size(560, 620);
        c.desc("%s signal=%zu patch=%zu calls=%zu stream=%lld", name, n, l, calls, c.index);
        auto conv = neo::convolution::fft_convolver<T>{n, l};
        auto xb = Buf<T>(n, 1, 1), hb = Buf<T>(l, 1, 1), o = Buf<T>(n + l - 1, 1, 1);
        auto x = fill_vec<T>(c, n), h = fill_vec<T>(c, l);
        for (std::size_t t = 0; t < calls; ++t) {
            // either operand, or both, may stay what it was
            auto const change = c.index % 3 == 0 ? 3 : c.rng.range(1, 3);
            x = (change & 1) != 0 ? fill_vec<T>(c, n) : x;
            h = (change & 2) != 0 ? fill_vec<T>(c, l) : h;
            xb.set(x);
            hb.set(h);
            conv(contiguous_const(xb), contiguous_const(hb), contiguous(o));
            judge(c, o.get(), full_ref(x, h), 8 * eps<T>() * (std::log2(static_cast<ld>(n + l)) + 4) * nrm(x) * nrm(h) + floor_of<T>(), "many_calls");
        }
        c.check(xb.intact() && hb.intact() && o.intact(), "out_of_range_write");
        c.count("calls_in_series", calls);
    });
}

auto body() -> void
{
    in_service<float>("many_calls<float>");
    in_service<double>("many_calls<double>");
    shared<float>("shared<float>", 80, 3000);
    shared<double>("shared<double>", 80, 3000);
    mixed<float, double>("mixed<float,double>", 60, 600);
    mixed<double, float>("mixed<double,float>", 60, 600);
    long_direct<float>("long<float>");
    long_direct<double>("long<double>");
    edges<float>("edges<float>");
    edges<double>("edges<double>");
    direct<float>("direct<float>", 250, 8000);
    direct<double>("direct<double>", 250, 8000);
    direct<std::complex<float>>("direct<cf>", 200, 5000);
    direct<std::complex<double>>("direct<cd>", 200, 5000);
    by_fft<float>("fft<float>", 250, 6000);
    by_fft<double>("fft<double>", 250, 6000);
}

}  // namespace

MON_MAIN(body)
