// C19: statistics and normalisation.
#include "views.hpp"

#include <neo/algorithm.hpp>
#include <neo/complex/scalar_complex.hpp>
#include <neo/convolution/normalize_impulse.hpp>

using namespace mon;

namespace {

template<typename T>
auto pick_value(Rng& r, int cls, std::size_t i, std::size_t n) -> T
{
    switch (cls) {
        case 0: return T(0);
        case 1: return T(3.25);
        case 2: return static_cast<T>(r.sym() + 100.0);
        case 3: return static_cast<T>(i % 2 == 0 ? 1.0 : -1.0);
        case 4: return static_cast<T>(r.sym() * 1e-3);
        case 5: return static_cast<T>(r.chance(1, 8) ? r.sym() * 50 : 0.0);
        case 6: return static_cast<T>(-r.unit() * 4 - 0.5);
        case 7: return static_cast<T>(i + 1 == n ? -2.5 : 0.0);               // only the last one
        case 8: return static_cast<T>(i == 0 ? -3.5 : 0.0);                   // only the first one
        case 9: return static_cast<T>(i + 1 == n ? -90.0 : i == 0 ? 80.0 : r.sym());
        default: return static_cast<T>(r.sym() * 10);
    }
}

template<typename T, typename V>
auto measure(Case& c, V view, std::vector<T> const& v) -> void
{
    auto const n    = v.size();
    auto const m    = neo::mean(view);
    auto const var  = neo::variance(view);
    auto const sd   = neo::standard_deviation(view);
    auto s = 0.0L, a = 0.0L, pk = 0.0L, en = 0.0L;
    for (auto x : v) {
        s += x;
        a += std::abs(static_cast<ld>(x));
        pk = std::max(pk, std::abs(static_cast<ld>(x)));
        en += static_cast<ld>(x) * static_cast<ld>(x);
    }
    auto const e  = eps<T>();
    auto const nn = static_cast<ld>(n);
    c.check(m.has_value() == (n >= 1), "mean_presence", [&] { return str("n=%zu", n); });
    c.check(var.has_value() == (n >= 2) && sd.has_value() == (n >= 2), "variance_presence", [&] { return str("n=%zu", n); });
    if (n >= 1 && m) {
        auto const want = s / nn;
        c.check(std::abs(static_cast<ld>(*m) - want) <= (nn + 4) * e * a / nn + 1e-40L, "mean", [&] { return str("n=%zu got %Lg want %Lg", n, static_cast<ld>(*m), want); });
        c.check(std::abs(static_cast<ld>(neo::mean_unchecked(view)) - want) <= (nn + 4) * e * a / nn + 1e-40L, "mean_unchecked");
    }
    if (n >= 2 && var && sd) {
        auto const mu = s / nn;
        auto d        = 0.0L;
        for (auto x : v) {
            d += (static_cast<ld>(x) - mu) * (static_cast<ld>(x) - mu);
        }
        auto const want = d / nn;
        auto const dm   = (nn + 4) * e * pk;  // error of the mean
        auto const tol  = (2 * nn + 8) * e * want + 4 * dm * std::sqrt(want) + 4 * dm * dm + 1e-40L;
        c.check(std::abs(static_cast<ld>(*var) - want) <= tol, "variance", [&] { return str("n=%zu got %Lg want %Lg tol %Lg", n, static_cast<ld>(*var), want, tol); });
        c.check(*var >= T(0), "variance_negative");
        auto const g2 = static_cast<ld>(*sd) * static_cast<ld>(*sd);
        c.check(std::abs(g2 - static_cast<ld>(*var)) <= 8 * e * static_cast<ld>(*var), "standard_deviation", [&] { return str("sd %Lg var %Lg", static_cast<ld>(*sd), static_cast<ld>(*var)); });
    }
    auto const pf = static_cast<ld>(neo::normalize_peak_factor(view));
    auto const ef = static_cast<ld>(neo::normalize_energy_factor(view));
    auto const wp = pk == 0 ? 1.0L : 1.0L / pk;
    auto const we = en == 0 ? 1.0L : 1.0L / std::sqrt(en);
    c.check(std::abs(pf - wp) <= 4 * e * wp, "peak_factor", [&] { return str("n=%zu got %Lg want %Lg", n, pf, wp); });
    c.check(std::abs(ef - we) <= (nn + 8) * e * we, "energy_factor", [&] { return str("n=%zu got %Lg want %Lg", n, ef, we); });
}

template<typename T>
auto scaled(Case& c, std::vector<T> const& before, std::vector<T> const& after, ld factor, char const* key) -> void
{
    auto const slack = (static_cast<ld>(before.size()) + 12) * eps<T>();
    for (std::size_t i = 0; i < before.size(); ++i) {
        auto const w = static_cast<ld>(before[i]) * factor;
        c.check(std::abs(static_cast<ld>(after[i]) - w) <= slack * std::abs(w), key, [&] { return str("element %zu got %Lg want %Lg", i, static_cast<ld>(after[i]), w); });
    }
}

template<typename T>
auto energy_of(std::vector<T> const& v) -> ld
{
    auto e = 0.0L;
    for (auto x : v) {
        e += static_cast<ld>(x) * static_cast<ld>(x);
    }
    return e;
}

template<typename T>
auto peak_of(std::vector<T> const& v) -> ld
{
    auto e = 0.0L;
    for (auto x : v) {
        e = std::max(e, std::abs(static_cast<ld>(x)));
    }
    return e;
}

template<typename T>
auto vectors(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const edge = edge_size(c, 6);
        auto const n    = edge != 0 ? edge : c.index % 3 == 0 ? static_cast<std::size_t>(c.index / 3) % 20 : c.rng.size(0, 600);
        auto const cls  = static_cast<int>(c.rng.range(0, 12));
        auto const kind = static_cast<int>(c.rng.range(0, 2));
        auto const st   = kind == 1 ? 1 + c.rng.size(1, 2) : std::size_t{1};
        c.desc("%s n=%zu class=%d view=%d stream=%lld", name, n, cls, kind, c.index);
        auto b = Buf<T>(n, st, c.rng.size(0, 3));
        auto const gain = static_cast<T>(std::pow(10.0, static_cast<double>(c.rng.pick(0, 0, 0, -4, -8, 4, 8))));
        for (std::size_t i = 0; i < n; ++i) {
            b[i] = gain * pick_value<T>(c.rng, cls, i, n);
        }
        auto const v = b.get();
        with_vector(b, kind, [&](auto view) {
            measure<T>(c, view, v);
            c.check(same_bits(b.get(), v), "input_changed");
            auto const pk = peak_of(v);
            auto const en = energy_of(v);
            neo::normalize_peak(view);
            scaled(c, v, b.get(), pk == 0 ? 1.0L : 1.0L / pk, "normalize_peak");
            b.set(v);
            neo::normalize_energy(view);
            scaled(c, v, b.get(), en == 0 ? 1.0L : 1.0L / std::sqrt(en), "normalize_energy");
            b.set(v);
            neo::convolution::normalize_impulse(view);
            scaled(c, v, b.get(), en == 0 ? 1.0L : 1.0L / std::sqrt(en), "normalize_impulse");
        });
        c.check(b.intact(), "out_of_range_write");
    });
}

template<typename T>
auto matrices(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const edge = edge_size(c, 6);
        auto const tall = c.rng.chance(1, 2);
        auto const r    = edge != 0 && tall ? edge : c.rng.size(c.rng.chance(1, 10) ? 0 : 1, edge > 5000 ? 2 : 6);
        auto const k    = edge != 0 && !tall ? edge : c.rng.size(c.rng.chance(1, 10) ? 0 : 1, edge > 5000 ? 2 : 60);
        auto const lay = static_cast<int>(c.rng.range(0, 3));
        c.desc("%s %zux%zu layout=%d stream=%lld", name, r, k, lay, c.index);
        auto m   = Matrix<T>(r, k, lay, T(1e6));
        auto cls = std::vector<int>(r + 1);
        for (auto& q : cls) {
            q = static_cast<int>(c.rng.range(0, 12));
        }
        auto const gain = static_cast<T>(std::pow(10.0, static_cast<double>(c.rng.pick(0, 0, 0, -4, -8, 4, 8))));
        m.fill_with([&](auto i, auto j) { return gain * pick_value<T>(c.rng, cls[i], j, k); });
        auto const v = m.values();
        m.with([&](auto view) {
            measure<T>(c, view, v);
            auto put = [&] { m.fill_with([&](auto i, auto j) { return v[i * k + j]; }); };
            auto const pk = peak_of(v), en = energy_of(v);
            neo::normalize_peak(view);
            scaled(c, v, m.values(), pk == 0 ? 1.0L : 1.0L / pk, "normalize_peak_matrix");
            put();
            neo::normalize_energy(view);
            scaled(c, v, m.values(), en == 0 ? 1.0L : 1.0L / std::sqrt(en), "normalize_energy_matrix");
            put();
            neo::convolution::normalize_impulse(view);
            if (r > 0) {
                // one factor for all channels: that of the loudest, silent channels counting as one
                auto f = std::numeric_limits<ld>::infinity();
                for (std::size_t i = 0; i < r; ++i) {
                    auto e = 0.0L;
                    for (std::size_t j = 0; j < k; ++j) {
                        e += static_cast<ld>(v[i * k + j]) * static_cast<ld>(v[i * k + j]);
                    }
                    f = std::min(f, e == 0 ? 1.0L : 1.0L / std::sqrt(e));
                }
                scaled(c, v, m.values(), f, "normalize_impulse_matrix");
            }
        });
        c.check(m.gaps_intact(), "out_of_range_write");
    });
}

template<typename C>
auto errors(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const matrix = c.rng.chance(1, 2);
        auto const edge   = edge_size(c, 3);
        auto const tall   = matrix && c.rng.chance(1, 2);
        auto const r      = edge != 0 && tall ? edge : matrix ? c.rng.size(1, edge > 5000 ? 2 : 6) : std::size_t{1};
        auto const k      = edge != 0 && !tall ? edge : c.rng.size(1, edge > 5000 ? 2 : matrix ? 20 : 300);
        auto const lx = matrix ? static_cast<int>(c.rng.range(0, 3)) : 0, ly = matrix ? static_cast<int>(c.rng.range(0, 3)) : 0;
        c.desc("%s %zux%zu matrix=%d layouts=%d%d stream=%lld", name, r, k, int(matrix), lx, ly, c.index);
        auto a = Matrix<C>(r, k, lx, C(777)), b = Matrix<C>(r, k, ly, C(-777));
        a.fill_with([&](auto, auto) { return random_elem<C>(c.rng); });
        b.fill_with([&](auto i, auto j) { return c.rng.chance(1, 4) ? a.at(i, j) : random_elem<C>(c.rng); });
        auto s = 0.0L, mag = 0.0L;
        auto const av = a.values(), bv = b.values();
        for (std::size_t i = 0; i < av.size(); ++i) {
            auto p = elem_ld<C>(av[i]).real(), q = elem_ld<C>(bv[i]).real();
            if constexpr (!std::is_floating_point_v<C>) {
                p = std::abs(elem_ld<C>(av[i]));
                q = std::abs(elem_ld<C>(bv[i]));
            }
            s += (p - q) * (p - q);
            mag = std::max({mag, std::abs(p), std::abs(q)});
        }
        auto const nn   = static_cast<ld>(av.size());
        auto const want = s / nn;
        auto const e    = elem_eps<C>();
        auto const tol  = (nn + 12) * e * want + 8 * e * mag * std::sqrt(want) + 8 * e * e * mag * mag;
        auto go         = [&](auto va, auto vb) {
            auto const m1 = static_cast<ld>(neo::mean_squared_error(va, vb));
            auto const m2 = static_cast<ld>(neo::mean_squared_error(vb, va));
            c.check(std::abs(m1 - want) <= tol && std::abs(m2 - want) <= tol, "mean_squared_error", [&] { return str("got %Lg %Lg want %Lg tol %Lg", m1, m2, want, tol); });
            auto const rr = static_cast<ld>(neo::root_mean_squared_error(va, vb));
            c.check(std::abs(rr * rr - m1) <= 8 * e * m1, "root_mean_squared_error", [&] { return str("got %Lg mse %Lg", rr, m1); });
            c.check(static_cast<ld>(neo::mean_squared_error(va, va)) == 0.0L, "mean_squared_error_self");
        };
        if (matrix) {
            a.with([&](auto va) { b.with([&](auto vb) { go(va, vb); }); });
        } else {
            auto sa = Buf<C>(k, c.rng.step(), c.rng.size(0, 2)), sb = Buf<C>(k, c.rng.step(), c.rng.size(0, 2));
            sa.set(av);
            sb.set(bv);
            with_vector(sa, static_cast<int>(c.rng.range(0, 2)), [&](auto va) { with_vector(sb, static_cast<int>(c.rng.range(0, 2)), [&](auto vb) { go(va, vb); }); });
            c.check(same_bits(sa.get(), av) && same_bits(sb.get(), bv) && sa.intact() && sb.intact(), "input_changed");
        }
        c.check(same_bits(a.values(), av) && same_bits(b.values(), bv), "input_changed");
        if constexpr (!std::is_floating_point_v<C>) {
            auto sum = cld{};
            auto mg  = 0.0L;
            for (auto const& z : av) {
                sum += elem_ld<C>(z);
                mg += std::abs(elem_ld<C>(z));
            }
            a.with([&](auto va) {
                auto const m = neo::mean(va);
                c.check(m.has_value() && std::abs(elem_ld<C>(*m) - sum / nn) <= (nn + 8) * e * mg / nn, "mean_complex");
            });
        }
    });
}

template<typename T, std::size_t N>
auto fixed_extents(char const* name) -> void
{
    section(name, 20, 800, [=](Case& c) {
        auto const cls = static_cast<int>(c.rng.range(0, 12));
        c.desc("%s n=%zu class=%d stream=%lld", name, N, cls, c.index);
        auto b = Buf<T>(N, 1, c.rng.size(0, 3));
        for (std::size_t i = 0; i < N; ++i) {
            b[i] = pick_value<T>(c.rng, cls, i, N);
        }
        auto const v  = b.get();
        auto const pk = peak_of(v), en = energy_of(v);
        measure<T>(c, fixed_extent<N>(b), v);
        neo::normalize_peak(fixed_extent<N>(b));
        scaled(c, v, b.get(), pk == 0 ? 1.0L : 1.0L / pk, "normalize_peak_static");
        b.set(v);
        neo::normalize_energy(fixed_extent<N>(b));
        scaled(c, v, b.get(), en == 0 ? 1.0L : 1.0L / std::sqrt(en), "normalize_energy_static");
        c.check(b.intact(), "out_of_range_write");
    });
}

/// every position decides alone: one non-zero element, of either sign, at each place of the object in turn
template<typename T>
auto each_position(char const* name) -> void
{
    section(name, 20, 200, [=](Case& c) {
        static constexpr std::pair<std::size_t, std::size_t> shapes[] = {
            {1, 300}, {300, 1}, {3, 70}, {70, 3}, {130, 2}, {2, 130}, {17, 17}, {1, 1}, {8, 33}, {33, 8},
        };
        auto const [r, k] = shapes[static_cast<std::size_t>(c.index) % std::size(shapes)];
        auto const layout = static_cast<int>(c.rng.range(0, 3));
        auto const amp    = static_cast<T>(c.rng.pick(1.0, 0.5, 3.0, 1e-3, 1e3) * (c.index / 10 % 2 == 0 ? -1 : 1));
        c.desc("%s %zux%zu layout=%d amplitude=%g stream=%lld", name, r, k, layout, double(amp), c.index);
        auto const n  = static_cast<ld>(r * k);
        auto const e  = eps<T>();
        auto const a  = std::abs(static_cast<ld>(amp));
        auto m        = Matrix<T>(r, k, layout, T(0));
        auto zero     = Matrix<T>(r, k, 0, T(0));
        auto line     = Buf<T>(r * k, c.rng.step(), 1);
        auto near_to  = [&](ld got, ld want, ld budget, char const* key, std::size_t p) {
            c.check(std::abs(got - want) <= budget * e * std::abs(want), key, [&] { return str("position %zu of %zu got %Lg want %Lg", p, r * k, got, want); });
        };
        for (std::size_t p = 0; p < r * k; ++p) {
            auto judge = [&](auto obj, auto ref, auto put, auto at) {
                put();
                auto const mean = neo::mean(obj);
                auto const var  = neo::variance(obj);
                c.check(mean.has_value() && var.has_value() == (r * k > 1), "presence");
                if (mean) {
                    near_to(*mean, static_cast<ld>(amp) / n, 8, "mean_position", p);
                }
                if (var) {
                    auto const want = a * a / n * (1 - 1 / n);
                    near_to(*var, want, n + 16, "variance_position", p);
                    near_to(*neo::standard_deviation(obj), std::sqrt(want), n + 16, "standard_deviation_position", p);
                }
                near_to(neo::mean_squared_error(obj, ref), a * a / n, 16, "mean_squared_error_position", p);
                neo::normalize_peak(obj);
                near_to(at(), amp < 0 ? -1.0L : 1.0L, 8, "normalize_peak_position", p);
                put();
                neo::normalize_energy(obj);
                near_to(at(), amp < 0 ? -1.0L : 1.0L, 8, "normalize_energy_position", p);
                put();
                neo::convolution::normalize_impulse(obj);
                auto const factor = decltype(obj)::rank() == 1 || r == 1 ? 1.0L / a : std::min(1.0L, 1.0L / a);
                near_to(at(), static_cast<ld>(amp) * factor, 8, "normalize_impulse_position", p);
            };
            auto put_matrix = [&] { m.fill_with([&](auto i, auto j) { return i * k + j == p ? amp : T(0); }); };
            m.with([&](auto v) { zero.with([&](auto z) { judge(v, z, put_matrix, [&] { return static_cast<ld>(m.at(p / k, p % k)); }); }); });
            auto put_line = [&] {
                for (std::size_t i = 0; i < line.n; ++i) {
                    line[i] = i == p ? amp : T(0);
                }
            };
            auto none = Buf<T>(line.n);
            for (std::size_t i = 0; i < none.n; ++i) {
                none[i] = T(0);
            }
            judge(strided(line), contiguous(none), put_line, [&] { return static_cast<ld>(line[p]); });
        }
        c.check(m.gaps_intact() && line.intact(), "out_of_range_write");
    });
}

/// magnitudes near the ends of the number range, as far as the definition itself stays inside it
template<typename T>
auto extremes(char const* name) -> void
{
    section(name, 80, 2000, [=](Case& c) {
        auto const wide = std::numeric_limits<T>::max_exponent10 - 3;  // 35 or 305
        auto const exp  = static_cast<int>(c.rng.range(-wide, wide));
        auto const n    = c.rng.size(1, 90);
        auto const kind = static_cast<int>(c.rng.range(0, 2));
        auto const gain = std::pow(10.0L, static_cast<ld>(exp));
        c.desc("%s n=%zu exponent=%d view=%d stream=%lld", name, n, exp, kind, c.index);
        auto b = Buf<T>(n, kind == 1 ? c.rng.stride() : std::size_t{1}, c.rng.size(0, 3));
        for (std::size_t i = 0; i < n; ++i) {
            b[i] = static_cast<T>(gain * (c.rng.chance(1, 2) ? -1 : 1) * (0.01L + c.rng.unit()));
        }
        auto const v = b.get();
        auto s = 0.0L, a = 0.0L;
        for (auto x : v) {
            s += x;
            a += std::abs(static_cast<ld>(x));
        }
        auto const pk = peak_of(v), en = energy_of(v), e = eps<T>();
        auto const m  = static_cast<ld>(n);
        with_vector(b, kind, [&](auto view) {
            auto const mean = neo::mean(view);
            c.check(mean.has_value() && std::abs(static_cast<ld>(*mean) - s / m) <= (m + 4) * e * a / m, "mean_extreme");
            auto const pf = static_cast<ld>(neo::normalize_peak_factor(view));
            c.check(std::abs(pf * pk - 1) <= 4 * e, "peak_factor_extreme", [&] { return str("peak %Lg factor %Lg", pk, pf); });
            neo::normalize_peak(view);
            scaled(c, v, b.get(), 1 / pk, "normalize_peak_extreme");
            b.set(v);
            if (std::abs(exp) * 5 / 2 <= wide) {  // squares and their sum stay in range
                auto const ef = static_cast<ld>(neo::normalize_energy_factor(view));
                c.check(std::abs(ef * std::sqrt(en) - 1) <= (m + 8) * e, "energy_factor_extreme", [&] { return str("energy %Lg factor %Lg", en, ef); });
                neo::normalize_energy(view);
                scaled(c, v, b.get(), 1 / std::sqrt(en), "normalize_energy_extreme");
                b.set(v);
                neo::convolution::normalize_impulse(view);
                scaled(c, v, b.get(), 1 / std::sqrt(en), "normalize_impulse_extreme");
                b.set(v);
                measure<T>(c, view, v);
            }
        });
        c.check(same_bits(b.get(), v), "input_changed");
        c.check(b.intact(), "out_of_range_write");
    });
}

auto body() -> void
{
    extremes<float>("extreme<float>");
    extremes<double>("extreme<double>");
    each_position<float>("position<float>");
    each_position<double>("position<double>");
    fixed_extents<float, 1>("fixed<float,1>");
    fixed_extents<float, 2>("fixed<float,2>");
    fixed_extents<float, 16>("fixed<float,16>");
    fixed_extents<double, 4>("fixed<double,4>");
    fixed_extents<double, 7>("fixed<double,7>");
    vectors<float>("vec<float>", 180, 8000);
    vectors<double>("vec<double>", 180, 8000);
    matrices<float>("mat<float>", 150, 6000);
    matrices<double>("mat<double>", 150, 6000);
    errors<float>("err<float>", 80, 4000);
    errors<double>("err<double>", 80, 4000);
    errors<std::complex<float>>("err<cf>", 80, 4000);
}

}  // namespace

MON_MAIN(body)
