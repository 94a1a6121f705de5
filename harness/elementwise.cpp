// C18: copy, fill, scale, add, multiply, allmatch and allclose act on every element, and on nothing else.
#include "views.hpp"

#include <neo/algorithm.hpp>
#include "cx.hpp"
#include <neo/complex/split_complex.hpp>

using namespace mon;

namespace {

template<typename C>
auto near(C const& got, cld want, ld mag) -> bool
{
    auto const g = elem_ld<C>(got);
    return std::max(std::abs(g.real() - want.real()), std::abs(g.imag() - want.imag())) <= 4 * elem_eps<C>() * mag + 1e-42L;
}

/// op: 0 copy 1 fill 2 scale 3 add 4 multiply; alias for 3,4: 0 none 1 out==x 2 out==y 3 x==y==out
template<typename C, typename VX, typename VY, typename VO>
auto run(int op, C s, VX x, VY y, VO o) -> void
{
    switch (op) {
        case 0: neo::copy(x, o); break;
        case 1: neo::fill(o, s); break;
        case 2:
            if constexpr (std::is_floating_point_v<C>) {
                neo::scale(s, o);
            } else {
                neo::scale(s.real(), o);
            }
            break;
        case 3: neo::add(x, y, o); break;
        default: neo::multiply(x, y, o);
    }
}

template<typename C>
auto judge(Case& c, int op, int alias, C s, std::vector<C> const& x, std::vector<C> const& y0, std::vector<C> const& o, std::vector<C> const& got, char const* where) -> void
{
    static constexpr char const* names[] = {"copy", "fill", "scale", "add", "multiply"};
    auto const& y                        = y0;
    for (std::size_t i = 0; i < got.size(); ++i) {
        auto ok       = false;
        auto const a  = elem_ld<C>(x[i]);
        auto const b  = elem_ld<C>(y[i]);
        switch (op) {
            case 0: ok = same_bits(got[i], x[i]); break;
            case 1: ok = same_bits(got[i], s); break;
            case 2: {
                auto const& v = o[i];
                auto const k  = elem_ld<C>(s).real();
                ok            = near(got[i], elem_ld<C>(v) * k, std::abs(elem_ld<C>(v)) * std::abs(k));
                break;
            }
            case 3: ok = near(got[i], a + b, std::max(std::abs(a + b), std::abs(a) * 1e-9L)); break;
            default: ok = near(got[i], cld{a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()}, std::abs(a) * std::abs(b));
        }
        c.check(ok, std::string{names[op]} + where, [&] { return str("element %zu of %zu alias %d", i, got.size(), alias); });
    }
}

template<typename C>
auto vectors(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const op    = static_cast<int>(c.index % 5);
        auto const edge  = edge_size(c, 6);
        auto const n     = edge != 0 ? edge : c.rng.chance(2, 3) ? c.rng.size(0, 40) : c.rng.size(0, 500);
        auto const mixed = c.rng.chance(1, 2);
        auto const kind  = static_cast<int>(c.rng.range(0, 2));
        auto const ky    = mixed ? static_cast<int>(c.rng.range(0, 2)) : kind;
        auto const ko    = mixed ? static_cast<int>(c.rng.range(0, 2)) : kind;
        auto const alias = op < 3 ? 0 : static_cast<int>(c.rng.range(0, 3));
        auto stride_of   = [&](int k) { return k == 1 ? c.rng.stride() : std::size_t{1}; };
        c.desc("%s op=%d n=%zu views=%d%d%d alias=%d stream=%lld", name, op, n, kind, ky, ko, alias, c.index);
        auto x = Buf<C>(n, stride_of(kind), c.rng.size(0, 3));
        auto y = Buf<C>(n, stride_of(ky), c.rng.size(0, 3));
        auto o = Buf<C>(n, stride_of(ko), c.rng.size(0, 3));
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = random_elem<C>(c.rng);
            y[i] = random_elem<C>(c.rng);
            o[i] = random_elem<C>(c.rng);
        }
        auto const s = random_elem<C>(c.rng);
        auto xv = x.get(), yv = y.get(), ov = o.get();
        auto& out = alias == 1 || alias == 3 ? x : alias == 2 ? y : o;
        auto& yy  = alias == 3 ? x : y;
        with_vector(x, kind, [&](auto vx) { with_vector(yy, ky, [&](auto vy) { with_vector(out, ko, [&](auto vo) { run<C>(op, s, vx, vy, vo); }); }); });
        judge<C>(c, op, alias, s, xv, alias == 3 ? xv : yv, ov, out.get(), "");
        c.check((&out == &x) || same_bits(x.get(), xv), "input_changed");
        c.check((&out == &y) || same_bits(y.get(), yv), "input_changed");
        c.check(x.intact() && y.intact() && o.intact(), "out_of_range_write");
    });
}

template<typename C>
auto matrices(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const op    = static_cast<int>(c.index % 5);
        auto const edge  = edge_size(c, 6);
        auto const tall  = c.rng.chance(1, 2);
        auto const thin  = c.rng.chance(1, 4);
        auto const longer = c.rng.chance(1, 4);
        auto const r     = edge != 0 && tall ? edge : thin && !tall ? 1 : longer && tall ? c.rng.size(14, 200) : c.rng.size(0, edge > 5000 ? 2 : 9);
        auto const k     = edge != 0 && !tall ? edge : thin && tall ? 1 : longer && !tall ? c.rng.size(14, 200) : c.rng.size(0, edge > 5000 ? 2 : 13);
        auto const alias = op < 3 ? 0 : static_cast<int>(c.rng.range(0, 3));
        auto const lx = static_cast<int>(c.rng.range(0, 3)), ly = static_cast<int>(c.rng.range(0, 3)), lo = static_cast<int>(c.rng.range(0, 3));
        c.desc("%s op=%d %zux%zu layouts=%d%d%d alias=%d stream=%lld", name, op, r, k, lx, ly, lo, alias, c.index);
        auto const fl = random_elem<C>(c.rng);
        auto x        = Matrix<C>(r, k, lx, fl);
        auto y        = Matrix<C>(r, k, ly, fl);
        auto o        = Matrix<C>(r, k, lo, fl);
        auto rnd      = [&](auto, auto) { return random_elem<C>(c.rng); };
        x.fill_with(rnd);
        y.fill_with(rnd);
        o.fill_with(rnd);
        auto const s  = random_elem<C>(c.rng);
        auto const xv = x.values(), yv = y.values(), ov = o.values();
        auto& out = alias == 1 || alias == 3 ? x : alias == 2 ? y : o;
        auto& yy  = alias == 3 ? x : y;
        x.with([&](auto vx) { yy.with([&](auto vy) { out.with([&](auto vo) { run<C>(op, s, vx, vy, vo); }); }); });
        judge<C>(c, op, alias, s, xv, alias == 3 ? xv : yv, ov, out.values(), "_matrix");
        c.check((&out == &x) || same_bits(x.values(), xv), "input_changed");
        c.check((&out == &y) || same_bits(y.values(), yv), "input_changed");
        c.check(x.gaps_intact() && y.gaps_intact() && o.gaps_intact(), "out_of_range_write");
    });
}

template<typename T>
auto split_copy(char const* name, int quick, int thorough) -> void
{
    using C = std::complex<T>;
    section(name, quick, thorough, [=](Case& c) {
        auto const edge = edge_size(c, 5);
        auto const n    = edge != 0 ? edge : c.rng.size(0, 200);
        auto const st   = c.rng.chance(1, 2) ? std::size_t{1} : c.rng.stride();
        c.desc("%s n=%zu stride=%zu stream=%lld", name, n, st, c.index);
        auto x  = Buf<C>(n, c.rng.step(), c.rng.size(0, 2));
        auto re = Buf<T>(n, st, c.rng.size(0, 2));
        auto im = Buf<T>(n, c.rng.chance(1, 2) ? st : c.rng.step(), c.rng.size(0, 2));
        auto y  = Buf<C>(n, st, c.rng.size(0, 2));
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = random_elem<C>(c.rng);
        }
        auto const flat = st == 1 && im.stride == 1 && c.rng.chance(2, 3);
        with_vector(x, c.rng.chance(1, 2) ? 0 : 1, [&](auto vx) {
            if (flat) {
                neo::copy(vx, neo::split_complex{contiguous(re), contiguous(im)});
            } else {
                neo::copy(vx, neo::split_complex{strided(re), strided(im)});
            }
        });
        auto const xs = x.get();
        with_vector(y, c.rng.chance(1, 2) ? 0 : 1, [&](auto vy) {
            if (flat) {
                neo::copy(neo::split_complex{contiguous(re), contiguous(im)}, vy);
            } else {
                neo::copy(neo::split_complex{strided_const(re), strided_const(im)}, vy);
            }
        });
        for (std::size_t i = 0; i < n; ++i) {
            c.check(re[i] == x[i].real() && im[i] == x[i].imag(), "copy_to_split", [&] { return str("%zu", i); });
            c.check(y[i] == x[i], "copy_from_split", [&] { return str("%zu", i); });
        }
        c.check(same_bits(x.get(), xs), "input_changed");
        c.check(x.intact() && re.intact() && im.intact() && y.intact(), "out_of_range_write");
        // real into complex
        auto rc = Buf<C>(n, 1, 1);
        neo::copy(strided_const(re), contiguous(rc));
        for (std::size_t i = 0; i < n; ++i) {
            c.check(rc[i].real() == re[i] && rc[i].imag() == T(0), "copy_real_to_complex", [&] { return str("%zu", i); });
        }
        c.check(rc.intact(), "out_of_range_write");
    });
}

/// all elements agree except at most one chosen position
template<typename C>
auto matching(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const matrix = c.rng.chance(1, 2);
        auto const edge   = edge_size(c, 6);
        auto const tall   = matrix && c.rng.chance(1, 2);
        auto const r      = edge != 0 && tall ? edge : matrix ? c.rng.size(1, edge > 5000 ? 2 : 7) : std::size_t{1};
        auto const k      = edge != 0 && !tall ? edge : c.rng.size(1, edge > 5000 ? 2 : matrix ? 9 : 60);
        auto const bad    = c.rng.range(-1, static_cast<std::int64_t>(r * k) - 1);
        // differences in multiples of 1/8, values that make them exact
        auto const eighths = c.rng.range(1, 16);
        auto const nan     = c.rng.chance(1, 10);
        auto const lx = static_cast<int>(c.rng.range(0, 3)), ly = static_cast<int>(c.rng.range(0, 3));
        [[maybe_unused]] auto const real_part = c.rng.chance(1, 2);
        c.desc("%s %zux%zu matrix=%d mismatch at %lld by %lld/8 nan=%d stream=%lld", name, r, k, int(matrix), (long long)bad, (long long)eighths, int(nan), c.index);
        auto plain = [](std::size_t i) { return static_cast<double>((i * 37) % 64) - 32.0; };
        auto mk   = [&](double v) {
            if constexpr (std::is_floating_point_v<C>) {
                return static_cast<C>(v);
            } else {
                auto const part = static_cast<typename C::value_type>(v);
                return real_part ? C{part, typename C::value_type(1)} : C{typename C::value_type(1), part};
            }
        };
        // one element differs from all others
        auto const mark = c.rng.size(0, r * k - 1);
        auto base       = [&, plain](std::size_t i) { return i == mark ? 36.0 : plain(i); };
        auto a = Matrix<C>(r, k, matrix ? lx : 0, mk(999));
        auto b = Matrix<C>(r, k, matrix ? ly : 0, mk(-999));
        a.fill_with([&](auto i, auto j) { return mk(base(i * k + j)); });
        b.fill_with([&](auto i, auto j) {
            auto const idx = i * k + j;
            return mk(static_cast<std::int64_t>(idx) == bad ? (nan ? std::numeric_limits<double>::quiet_NaN() : base(idx) + 0.125 * static_cast<double>(eighths) * (c.index % 2 ? 1 : -1)) : base(idx));
        });
        auto go = [&](auto va, auto vb) {
            for (auto const q : {0, 1, 4, 8, 16}) {
                using F         = decltype(neo::math::abs(C{} - C{}));
                auto const tol  = static_cast<F>(0.125 * q);
                auto const want = bad < 0 || (!nan && eighths <= q);
                c.check(neo::allclose(va, vb, tol) == want && neo::allclose(vb, va, tol) == want, "allclose_tolerance", [&] { return str("tol %d/8 want %d", q, int(want)); });
            }
            c.check(neo::allclose(va, vb) == (bad < 0), "allclose_default");
            c.check(neo::allclose(va, va), "allclose_self");
            auto seen = std::size_t{0};
            auto pred = neo::allmatch(va, vb, [&](auto l, auto rr) {
                ++seen;
                return elem_ld<C>(l) == elem_ld<C>(rr);
            });
            c.check(pred == (bad < 0), "allmatch_binary");
            if (bad < 0) {
                c.check(seen == r * k, "allmatch_visits", [&] { return str("%zu of %zu", seen, r * k); });
            }
            auto const pv = elem_ld<C>(mk(base(mark)));
            c.check(!neo::allmatch(va, [&](auto v) { return elem_ld<C>(v) != pv; }), "allmatch_unary");
            c.check(neo::allmatch(va, [&](auto v) { return std::abs(elem_ld<C>(v)) < 40; }), "allmatch_unary");
        };
        if (matrix) {
            a.with([&](auto va) { b.with([&](auto vb) { go(va, vb); }); });
        } else {
            // the same values through contiguous, strided and int-indexed views
            auto sa = Buf<C>(k, c.rng.step(), c.rng.size(0, 2)), sb = Buf<C>(k, c.rng.step(), c.rng.size(0, 2));
            sa.set(a.values());
            sb.set(b.values());
            with_vector(sa, static_cast<int>(c.rng.range(0, 2)), [&](auto va) { with_vector(sb, static_cast<int>(c.rng.range(0, 2)), [&](auto vb) { go(va, vb); }); });
            c.check(sa.intact() && sb.intact(), "out_of_range_write");
            c.check(same_bits(sa.get(), a.values()) && same_bits(sb.get(), b.values()), "input_changed");
        }
    });
}

/// views of different element types: the result is the one of the corresponding mixed expression
template<typename A, typename B, typename O>
auto mixed_types(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const edge = edge_size(c, 5);
        auto const n    = edge != 0 ? edge : c.rng.size(0, 60);
        auto const kx = static_cast<int>(c.rng.range(0, 2)), ky = static_cast<int>(c.rng.range(0, 2)), ko = static_cast<int>(c.rng.range(0, 2));
        c.desc("%s n=%zu views=%d%d%d stream=%lld", name, n, kx, ky, ko, c.index);
        auto x = Buf<A>(n, kx == 1 ? 2 : 1, 1);
        auto y = Buf<B>(n, ky == 1 ? 3 : 1, 1);
        auto o = Buf<O>(n, ko == 1 ? 2 : 1, 1);
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = random_elem<A>(c.rng);
            y[i] = random_elem<B>(c.rng);
        }
        auto const e   = std::max({elem_eps<A>(), elem_eps<B>(), elem_eps<O>()});
        auto expect    = [&](auto f, char const* key) {
            for (std::size_t i = 0; i < n; ++i) {
                auto const [want, mag] = f(elem_ld<A>(x[i]), elem_ld<B>(y[i]));
                auto const g           = elem_ld<O>(o[i]);
                c.check(std::abs(g - want) <= 8 * e * mag + 1e-42L, key, [&] { return str("element %zu of %zu", i, n); });
            }
            c.check(x.intact() && y.intact() && o.intact(), "out_of_range_write");
        };
        auto two = [](auto& b, int kind, auto f) { kind == 1 ? f(strided(b)) : f(contiguous(b)); };
        two(x, kx, [&](auto vx) {
            two(y, 1, [&](auto vy) {
                two(o, ko, [&](auto vo) {
                    neo::copy(vx, vo);
                    expect([](cld a, cld) { return std::pair{a, std::abs(a)}; }, "copy_mixed");
                    neo::add(vx, vy, vo);
                    expect([](cld a, cld b) { return std::pair{a + b, std::abs(a) + std::abs(b)}; }, "add_mixed");
                    neo::multiply(vx, vy, vo);
                    expect([](cld a, cld b) { return std::pair{a * b, std::abs(a) * std::abs(b)}; }, "multiply_mixed");
                    // a factor and a filling of another type than the elements
                    auto const before = o.get();
                    auto const k      = [&] {
                        if constexpr (std::is_floating_point_v<B>) {
                            return static_cast<B>(3 * c.rng.sym());
                        } else {
                            using P = typename B::value_type;
                            return B{static_cast<P>(3 * c.rng.sym()), static_cast<P>(3 * c.rng.sym())};
                        }
                    }();
                    neo::scale(k, vo);
                    for (std::size_t i = 0; i < n; ++i) {
                        auto const p = elem_ld<O>(before[i]), q = elem_ld<B>(k);
                        auto const w = cld{p.real() * q.real() - p.imag() * q.imag(), p.real() * q.imag() + p.imag() * q.real()};
                        c.check(std::abs(elem_ld<O>(o[i]) - w) <= 8 * e * std::abs(p) * std::abs(q) + 1e-42L, "scale_mixed", [&] { return str("element %zu of %zu", i, n); });
                    }
                    auto const f = random_elem<A>(c.rng);
                    neo::fill(vo, static_cast<O>(f));
                    expect([&](cld, cld) { return std::pair{elem_ld<A>(f), std::abs(elem_ld<A>(f))}; }, "fill_mixed");
                });
            });
        });
    });
}

/// views whose extents are part of their type
template<typename C, std::size_t N>
auto fixed_extents(char const* name) -> void
{
    section(name, 30, 1500, [=](Case& c) {
        auto const op    = static_cast<int>(c.index % 5);
        auto const alias = op < 3 ? 0 : static_cast<int>(c.rng.range(0, 2));
        c.desc("%s op=%d n=%zu alias=%d stream=%lld", name, op, N, alias, c.index);
        auto x = Buf<C>(N, 1, c.rng.size(0, 3)), y = Buf<C>(N, 1, c.rng.size(0, 3)), o = Buf<C>(N, 1, c.rng.size(0, 3));
        for (std::size_t i = 0; i < N; ++i) {
            x[i] = random_elem<C>(c.rng);
            y[i] = random_elem<C>(c.rng);
            o[i] = random_elem<C>(c.rng);
        }
        auto const s = random_elem<C>(c.rng);
        auto xv = x.get(), yv = y.get(), ov = o.get();
        auto& out = alias == 1 ? x : alias == 2 ? y : o;
        if (c.rng.chance(1, 2)) {
            run<C>(op, s, fixed_extent<N>(x), fixed_extent<N>(y), fixed_extent<N>(out));
        } else {
            run<C>(op, s, fixed_extent<N>(x), contiguous(y), fixed_extent<N>(out));
        }
        judge<C>(c, op, alias, s, xv, yv, ov, out.get(), "_static");
        c.check(x.intact() && y.intact() && o.intact(), "out_of_range_write");
        // values around one, so that a difference of one is not lost in their rounding
        auto u = Buf<C>(N, 1, 1);
        for (std::size_t i = 0; i < N; ++i) {
            u[i] = C(static_cast<float>(c.rng.sym()));
        }
        c.check(neo::allclose(fixed_extent<N>(u), fixed_extent<N>(u)), "allclose_static");
        if constexpr (N > 0) {
            auto z  = Buf<C>(N, 1, 1);
            auto zv = u.get();
            zv[c.rng.size(0, N - 1)] += C(1);
            z.set(zv);
            c.check(!neo::allclose(fixed_extent<N>(u), fixed_extent<N>(z)), "allclose_static");
        }
    });
}

template<typename T>
auto fine_defaults(char const* name) -> void
{
    section(name, 40, 400, [=](Case& c) {
        auto const n = c.rng.size(1, 30);
        c.desc("%s default tolerance n=%zu stream=%lld", name, n, c.index);
        auto a = Buf<T>(n), b = Buf<T>(n);
        for (std::size_t i = 0; i < n; ++i) {
            a[i] = b[i] = T(c.rng.sym());
        }
        auto const lim = std::is_same_v<T, float> ? 1e-5 : 1e-9;
        auto const at  = c.rng.size(0, n - 1);
        a[at]          = T(0);
        b[at]          = static_cast<T>(lim * 0.9);
        c.check(neo::allclose(contiguous(a), contiguous(b)), "allclose_default_below");
        b[at] = static_cast<T>(-lim * 1.1);
        c.check(!neo::allclose(contiguous(a), contiguous(b)), "allclose_default_above");
        // a given tolerance holds to the last bit
        auto const tol = static_cast<T>(std::ldexp(1.0 + c.rng.size(0, 7) / 8.0, static_cast<int>(c.rng.range(-20, 6))));
        for (auto const sign : {T(1), T(-1)}) {
            b[at] = sign * tol;
            c.check(neo::allclose(contiguous(a), contiguous(b), tol), "allclose_at_tolerance");
            b[at] = sign * std::nextafter(tol, T(0));
            c.check(neo::allclose(contiguous(a), contiguous(b), tol), "allclose_below_tolerance");
            b[at] = sign * std::nextafter(tol, std::numeric_limits<T>::infinity());
            c.check(!neo::allclose(contiguous(a), contiguous(b), tol) && !neo::allclose(contiguous(b), contiguous(a), tol), "allclose_above_tolerance");
        }
        auto e1 = Buf<T>(0), e2 = Buf<T>(0);
        c.check(neo::allclose(contiguous(e1), contiguous(e2)), "allclose_empty");
    });
}

/// infinities, NaN, subnormal values and signed zeros pass through unchanged; arithmetic on them is that of the number type
template<typename T>
auto specials(char const* name) -> void
{
    section(name, 40, 800, [=](Case& c) {
        using L      = std::numeric_limits<T>;
        using C      = std::complex<T>;
        auto const n = c.rng.size(1, 70);
        c.desc("%s n=%zu stream=%lld", name, n, c.index);
        auto pick = [&] { return static_cast<T>(c.rng.pick(T(L::infinity()), T(-L::infinity()), T(L::quiet_NaN()), T(-0.0), T(0), L::denorm_min(), L::min(), L::max(), L::lowest(), T(1), T(-2.5))); };
        auto same = [](T a, T b) { return std::isnan(a) ? std::isnan(b) : same_bits(a, b); };
        auto st   = c.rng.chance(1, 2) ? std::size_t{1} : c.rng.stride();
        auto x = Buf<T>(n, st, 1), y = Buf<T>(n, st, 1), o = Buf<T>(n, st, 1);
        auto z = Buf<C>(n, 1, 1), w = Buf<C>(n, 1, 1);
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = pick();
            y[i] = pick();
            z[i] = C{pick(), pick()};
        }
        auto go = [&](auto vx, auto vy, auto vo, auto put) {
            auto expect = [&](auto f, char const* key) {
                for (std::size_t i = 0; i < n; ++i) {
                    auto const want = static_cast<T>(f(i));
                    c.check(same(o[i], want), key, [&] { return str("%zu of %zu: got %g want %g", i, n, double(o[i]), double(want)); });
                }
            };
            neo::copy(vx, vo);
            expect([&](auto i) { return x[i]; }, "copy_special");
            neo::add(vx, vy, vo);
            expect([&](auto i) { return x[i] + y[i]; }, "add_special");
            neo::multiply(vx, vy, vo);
            expect([&](auto i) { return x[i] * y[i]; }, "multiply_special");
            for (auto const s : {T(1), T(-0.5), T(0), pick()}) {
                put();
                neo::scale(s, vo);
                expect([&](auto i) { return x[i] * s; }, "scale_special");
                neo::fill(vo, s);
                expect([&](auto) { return s; }, "fill_special");
            }
            put();
        };
        auto put = [&] {
            for (std::size_t i = 0; i < n; ++i) {
                o[i] = x[i];
            }
        };
        if (st == 1) {
            go(contiguous(x), contiguous(y), contiguous(o), put);
        } else {
            go(strided(x), strided(y), strided(o), put);
        }
        neo::copy(contiguous(z), neo::split_complex{strided(x), strided(y)});
        neo::copy(neo::split_complex{strided(x), strided(y)}, contiguous(w));
        for (std::size_t i = 0; i < n; ++i) {
            c.check(same(x[i], z[i].real()) && same(y[i], z[i].imag()), "copy_to_split_special");
            c.check(same(w[i].real(), z[i].real()) && same(w[i].imag(), z[i].imag()), "copy_from_split_special");
        }
        c.check(x.intact() && y.intact() && o.intact() && z.intact() && w.intact(), "out_of_range_write");
    });
}

auto body() -> void
{
    specials<float>("special<float>");
    specials<double>("special<double>");
    vectors<float>("vec<float>", 150, 6000);
    vectors<double>("vec<double>", 150, 6000);
    vectors<std::complex<float>>("vec<cf>", 150, 6000);
    vectors<mon::c128>("vec<c128>", 150, 6000);
    matrices<float>("mat<float>", 200, 8000);
    matrices<std::complex<double>>("mat<cd>", 200, 8000);
    split_copy<float>("split_copy<float>", 60, 2000);
    split_copy<double>("split_copy<double>", 60, 2000);
    matching<float>("match<float>", 100, 5000);
    matching<double>("match<double>", 100, 5000);
    matching<std::complex<float>>("match<cf>", 100, 5000);
    mixed_types<float, double, double>("mixed<f,d,d>", 40, 1500);
    mixed_types<double, float, float>("mixed<d,f,f>", 40, 1500);
    mixed_types<std::complex<float>, float, std::complex<float>>("mixed<cf,f,cf>", 40, 1500);
    mixed_types<double, std::complex<double>, std::complex<double>>("mixed<d,cd,cd>", 40, 1500);
    fixed_extents<float, 1>("fixed<float,1>");
    fixed_extents<float, 8>("fixed<float,8>");
    fixed_extents<double, 4>("fixed<double,4>");
    fixed_extents<double, 17>("fixed<double,17>");
    fixed_extents<std::complex<float>, 5>("fixed<cf,5>");
    fixed_extents<mon::c128, 8>("fixed<c128,8>");
    fine_defaults<float>("fine<float>");
    fine_defaults<double>("fine<double>");
}

}  // namespace

MON_MAIN(body)
