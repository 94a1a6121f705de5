// C17: multiply-add in all its forms: out[i] = x[i] * y[i] + z[i], for every length, alignment, stride and aliasing.
#include "spectral.hpp"

#include <neo/algorithm/multiply_add.hpp>
#include "cx.hpp"
#include <neo/complex/split_complex.hpp>
#include <neo/container/csr_matrix.hpp>

using namespace mon;

namespace {

auto pick_len(Case& c, std::size_t exhaustive) -> std::size_t
{
    auto const i = static_cast<std::size_t>(c.index);
    if (auto const edge = edge_size(c, 25); edge != 0) {
        return edge;
    }
    return i % 3 != 2 ? (i - i / 3) % exhaustive : c.rng.size(0, 700);
}

template<typename T>
auto value(Rng& r) -> T
{
    auto const k = r.range(0, 9);
    return static_cast<T>(k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : k == 3 ? r.sym() * 1e4 : k == 4 ? r.sym() * 1e-4 : k == 5 ? r.sym() * std::pow(10.0, static_cast<double>(r.range(-14, 14))) : r.sym());
}

template<typename C>
auto random_elem(Rng& r) -> C
{
    if constexpr (std::is_floating_point_v<C>) {
        return value<C>(r);
    } else {
        using T = typename C::value_type;
        return C{value<T>(r), value<T>(r)};
    }
}

template<typename C>
auto elem_ld(C const& z) -> cld
{
    if constexpr (std::is_floating_point_v<C>) {
        return {static_cast<ld>(z), 0.0L};
    } else {
        return to_ld(z);
    }
}

template<typename C>
constexpr auto elem_eps() -> ld
{
    if constexpr (std::is_floating_point_v<C>) {
        return eps<C>();
    } else {
        return eps<typename C::value_type>();
    }
}

auto verdict(Case& c, std::size_t i, cld got, cld x, cld y, cld z, ld e, char const* key) -> void
{
    auto const want = cld{x.real() * y.real() - x.imag() * y.imag() + z.real(), x.real() * y.imag() + x.imag() * y.real() + z.imag()};
    auto const tol  = 6 * e * (std::abs(x) * std::abs(y) + std::abs(z)) + 1e-42L;
    auto const d    = std::max(std::abs(got.real() - want.real()), std::abs(got.imag() - want.imag()));
    c.check(d <= tol, key, [&] { return str("i=%zu got (%Lg,%Lg) want (%Lg,%Lg) tol %Lg", i, got.real(), got.imag(), want.real(), want.imag(), tol); });
}

/// a contiguous view type when the stride is one, else a strided one
template<typename C, typename F>
auto any_const(Buf<C>& b, F&& f) -> void
{
    if (b.stride == 1) {
        f(contiguous_const(b));
    } else {
        f(strided_const(b));
    }
}

/// alias: 0 none, 1 out==z, 2 out==x, 3 out==y, 4 x==y
template<typename C>
auto dense(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const n      = pick_len(c, 70);
        auto const alias  = static_cast<int>(c.rng.range(0, 4));
        auto const layout = static_cast<int>(c.rng.range(0, 5));  // 0,1 contiguous; 2 strided; 3 mixed strides; 4 int index; 5 mixed types
        auto const st     = layout == 2 || layout == 3 ? c.rng.stride() : std::size_t{1};
        auto const sm     = layout == 2 ? st : std::size_t{1};
        // mixed view types: bit i says operand i is a strided view
        auto const mix_   = layout == 5 ? static_cast<unsigned>(c.rng.range(1, 14)) : 0U;
        auto sx           = [&](unsigned bit, std::size_t s) { return layout == 5 ? ((mix_ >> bit) & 1U ? c.rng.stride() : std::size_t{1}) : s; };
        c.desc("%s n=%zu alias=%d layout=%d/%u stream=%lld", name, n, alias, layout, mix_, c.index);
        auto x = Buf<C>(n, sx(0, st), c.rng.size(0, 5));
        auto y = Buf<C>(n, sx(1, sm), c.rng.size(0, 5));
        auto z = Buf<C>(n, sx(2, st), c.rng.size(0, 5));
        auto o = Buf<C>(n, sx(3, sm), c.rng.size(0, 5));
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = random_elem<C>(c.rng);
            y[i] = random_elem<C>(c.rng);
            z[i] = random_elem<C>(c.rng);
            o[i] = random_elem<C>(c.rng);
        }
        auto const xv = x.get(), yv = y.get(), zv = z.get();
        auto& out = alias == 1 ? z : alias == 2 ? x : alias == 3 ? y : o;
        auto& yy  = alias == 4 ? x : y;
        if (layout <= 1) {
            neo::multiply_add(contiguous_const(x), contiguous_const(yy), contiguous_const(z), contiguous(out));
        } else if (layout == 4) {
            neo::multiply_add(contiguous_const<C, int>(x), contiguous_const<C, int>(yy), contiguous_const<C, int>(z), contiguous<C, int>(out));
        } else if (layout == 5) {
            any_const(x, [&](auto vx) {
                any_const(yy, [&](auto vy) {
                    any_const(z, [&](auto vz) {
                        if (out.stride == 1) {
                            neo::multiply_add(vx, vy, vz, contiguous(out));
                        } else {
                            neo::multiply_add(vx, vy, vz, strided(out));
                        }
                    });
                });
            });
        } else {
            neo::multiply_add(strided_const(x), strided_const(yy), strided_const(z), strided(out));
        }
        for (std::size_t i = 0; i < n; ++i) {
            verdict(c, i, elem_ld<C>(out[i]), elem_ld<C>(xv[i]), elem_ld<C>(alias == 4 ? xv[i] : yv[i]), elem_ld<C>(zv[i]), elem_eps<C>(), "dense");
        }
        if (alias != 2) {
            c.check(same_bits(x.get(), xv), "input_changed");
        }
        if (alias != 3) {
            c.check(same_bits(y.get(), yv), "input_changed");
        }
        if (alias != 1) {
            c.check(same_bits(z.get(), zv), "input_changed");
        }
        c.check(x.intact() && y.intact() && z.intact() && o.intact(), "out_of_range_write");
        c.count(str("alias.%d", alias));
    });
}

template<typename T>
auto split(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const n     = pick_len(c, 70);
        auto const alias = static_cast<int>(c.rng.range(0, 3));
        auto const mixed = c.rng.chance(1, 4) ? static_cast<unsigned>(c.rng.range(1, 14)) : 0U;  // operands that are strided views
        auto const st    = mixed == 0 && c.rng.chance(1, 4) ? c.rng.stride() : std::size_t{1};
        c.desc("%s n=%zu alias=%d stride=%zu/%u stream=%lld", name, n, alias, st, mixed, c.index);
        auto sk = [&] { return c.rng.size(0, 9); };
        // a strided operand may have parts with strides of their own
        auto const apart = c.rng.chance(1, 2);
        auto sx = [&](unsigned bit) {
            auto const regular = mixed == 0 ? st : ((mixed >> bit) & 1U) != 0 ? std::size_t{2} : std::size_t{1};
            return regular != 1 && apart ? c.rng.step() : regular;
        };
        auto xr = Buf<T>(n, sx(0), sk()), xi = Buf<T>(n, sx(0), sk()), yr = Buf<T>(n, sx(1), sk()), yi = Buf<T>(n, sx(1), sk());
        auto zr = Buf<T>(n, sx(2), sk()), zi = Buf<T>(n, sx(2), sk()), orr = Buf<T>(n, sx(3), sk()), oi = Buf<T>(n, sx(3), sk());
        for (auto* b : {&xr, &xi, &yr, &yi, &zr, &zi, &orr, &oi}) {
            for (std::size_t i = 0; i < n; ++i) {
                (*b)[i] = value<T>(c.rng);
            }
        }
        auto const xrv = xr.get(), xiv = xi.get(), yrv = yr.get(), yiv = yi.get(), zrv = zr.get(), ziv = zi.get();
        auto& outr = alias == 1 ? zr : alias == 2 ? xr : alias == 3 ? yr : orr;
        auto& outi = alias == 1 ? zi : alias == 2 ? xi : alias == 3 ? yi : oi;
        if (mixed != 0) {
            auto any = [](Buf<T>& r, Buf<T>& i, auto f) {
                if (r.stride == 1 && i.stride == 1) {
                    f(neo::split_complex{contiguous_const(r), contiguous_const(i)});
                } else {
                    f(neo::split_complex{strided_const(r), strided_const(i)});
                }
            };
            any(xr, xi, [&](auto x) {
                any(yr, yi, [&](auto y) {
                    any(zr, zi, [&](auto z) {
                        if (outr.stride == 1 && outi.stride == 1) {
                            neo::multiply_add(x, y, z, neo::split_complex{contiguous(outr), contiguous(outi)});
                        } else {
                            neo::multiply_add(x, y, z, neo::split_complex{strided(outr), strided(outi)});
                        }
                    });
                });
            });
            c.count("mixed_views");
        } else if (st == 1) {
            neo::multiply_add(
                neo::split_complex{contiguous(xr), contiguous(xi)}, neo::split_complex{contiguous(yr), contiguous(yi)},
                neo::split_complex{contiguous(zr), contiguous(zi)}, neo::split_complex{contiguous(outr), contiguous(outi)}
            );
        } else {
            neo::multiply_add(
                neo::split_complex{strided_const(xr), strided_const(xi)}, neo::split_complex{strided_const(yr), strided_const(yi)},
                neo::split_complex{strided_const(zr), strided_const(zi)}, neo::split_complex{strided(outr), strided(outi)}
            );
        }
        for (std::size_t i = 0; i < n; ++i) {
            verdict(c, i, {outr[i], outi[i]}, {xrv[i], xiv[i]}, {yrv[i], yiv[i]}, {zrv[i], ziv[i]}, eps<T>(), "split");
        }
        if (alias != 2) {
            c.check(same_bits(xr.get(), xrv) && same_bits(xi.get(), xiv), "input_changed");
        }
        if (alias != 3) {
            c.check(same_bits(yr.get(), yrv) && same_bits(yi.get(), yiv), "input_changed");
        }
        if (alias != 1) {
            c.check(same_bits(zr.get(), zrv) && same_bits(zi.get(), ziv), "input_changed");
        }
        for (auto* b : {&xr, &xi, &yr, &yi, &zr, &zi, &orr, &oi}) {
            c.check(b->intact(), "out_of_range_write");
        }
    });
}

template<typename C>
auto sparse(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const edge = edge_size(c, 15);
        // now and then a matrix of very many rows
        auto const tall = c.index % 25 == 12;
        auto const rows = tall ? c.rng.pick(c.rng.size(250, 260), c.rng.size(1000, 4000), c.rng.size(65530, 70000)) : c.rng.size(1, edge != 0 ? 3 : 9);
        auto const cols = tall ? c.rng.size(1, 8) : edge != 0 ? edge : c.rng.size(1, c.rng.chance(1, 4) ? 200 : 60);
        auto m          = std::vector<C>(rows * cols);
        auto const kept = row_masks(c.rng, rows, cols);
        for (std::size_t i = 0; i < m.size(); ++i) {
            m[i] = c.rng.chance(1, 8) ? C{} : random_elem<C>(c.rng);
        }
        c.desc("%s rows=%zu cols=%zu stored=%lld stream=%lld", name, rows, cols, (long long)std::count(kept.begin(), kept.end(), 1), c.index);
        auto const view = stdex::mdspan<C const, stdex::dextents<std::size_t, 2>>{m.data(), stdex::dextents<std::size_t, 2>{rows, cols}};
        auto const csr  = neo::csr_matrix<C>{view, [&](auto r, auto k, auto) { return kept[r * cols + k] != 0; }};
        for (auto rep = 0; rep < 4; ++rep) {
            auto const row = tall && rep < 2 ? rows - 1 - c.rng.size(0, 3) : c.rng.size(0, rows - 1);
            auto const st  = c.rng.chance(1, 3) ? c.rng.stride() : std::size_t{1};
            auto x         = Buf<C>(cols, 1, c.rng.size(0, 3));
            auto acc       = Buf<C>(cols, st, c.rng.size(0, 3));
            for (std::size_t k = 0; k < cols; ++k) {
                x[k]   = random_elem<C>(c.rng);
                acc[k] = random_elem<C>(c.rng);
            }
            auto const av = acc.get(), xv = x.get();
            if (rep % 2 == 1) {
                // a separate output: the stored elements are written, the others are left alone or take the addend
                auto o = Buf<C>(cols, st, c.rng.size(0, 3));
                for (std::size_t k = 0; k < cols; ++k) {
                    o[k] = random_elem<C>(c.rng);
                }
                auto const ov = o.get();
                neo::multiply_add(contiguous_const(x), csr, row, strided_const(acc), strided(o));
                for (std::size_t k = 0; k < cols; ++k) {
                    if (kept[row * cols + k] != 0) {
                        verdict(c, k, elem_ld<C>(o[k]), elem_ld<C>(xv[k]), elem_ld<C>(m[row * cols + k]), elem_ld<C>(av[k]), elem_eps<C>(), "sparse_row_separate");
                    } else {
                        c.check(same_bits(C(o[k]), ov[k]) || same_bits(C(o[k]), av[k]), "sparse_row_separate_untouched", [&] { return str("row %zu col %zu", row, k); });
                    }
                }
                c.check(same_bits(acc.get(), av) && same_bits(x.get(), xv), "input_changed");
                c.check(x.intact() && acc.intact() && o.intact(), "out_of_range_write");
                continue;
            }
            neo::multiply_add(contiguous_const(x), csr, row, strided_const(acc), strided(acc));
            for (std::size_t k = 0; k < cols; ++k) {
                if (kept[row * cols + k] != 0) {
                    verdict(c, k, elem_ld<C>(acc[k]), elem_ld<C>(xv[k]), elem_ld<C>(m[row * cols + k]), elem_ld<C>(av[k]), elem_eps<C>(), "sparse_row");
                } else {
                    c.check(same_bits(C(acc[k]), av[k]), "sparse_row_untouched", [&] { return str("row %zu col %zu", row, k); });
                }
            }
            c.check(same_bits(x.get(), xv), "input_changed");
            c.check(x.intact() && acc.intact(), "out_of_range_write");
        }
    });
}

/// infinities, NaN and zeros follow the arithmetic of the number type (real elements, where it is unambiguous)
template<typename T>
auto specials(char const* name) -> void
{
    section(name, 60, 1000, [=](Case& c) {
        using L         = std::numeric_limits<T>;
        auto const rows = c.rng.size(1, 4);
        auto const cols = c.rng.size(1, 70);
        c.desc("%s rows=%zu cols=%zu stream=%lld", name, rows, cols, c.index);
        auto pick = [&] { return static_cast<T>(c.rng.pick(T(L::infinity()), T(-L::infinity()), T(L::quiet_NaN()), T(-0.0), T(0), T(1), T(-2.5), T(3))); };
        auto m    = std::vector<T>(rows * cols);
        auto const kept = row_masks(c.rng, rows, cols);
        for (std::size_t i = 0; i < m.size(); ++i) {
            m[i] = c.rng.chance(1, 3) ? T(0) : pick();
        }
        auto const view = stdex::mdspan<T const, stdex::dextents<std::size_t, 2>>{m.data(), stdex::dextents<std::size_t, 2>{rows, cols}};
        auto const csr  = neo::csr_matrix<T>{view, [&](auto r, auto k, auto) { return kept[r * cols + k] != 0; }};
        auto same       = [](T a, T b) { return std::isnan(a) ? std::isnan(b) : a == b; };
        auto const st   = c.rng.step();
        auto x = Buf<T>(cols, 1, 1), y = Buf<T>(cols, 1, 1), z = Buf<T>(cols, st, 1), o = Buf<T>(cols, st, 1);
        for (std::size_t r = 0; r < rows; ++r) {
            for (std::size_t k = 0; k < cols; ++k) {
                x[k] = pick();
                y[k] = m[r * cols + k];
                z[k] = pick();
                o[k] = T(77);
            }
            neo::multiply_add(contiguous_const(x), csr, r, strided_const(z), strided(o));
            for (std::size_t k = 0; k < cols; ++k) {
                auto const want = static_cast<T>(static_cast<T>(x[k] * y[k]) + z[k]);
                c.check(kept[r * cols + k] == 0 || same(o[k], want), "sparse_special", [&] { return str("col %zu: %g * %g + %g gave %g", k, double(x[k]), double(y[k]), double(z[k]), double(o[k])); });
            }
            if (st == 1) {
                neo::multiply_add(contiguous_const(x), contiguous_const(y), contiguous_const(z), contiguous(o));
            } else {
                neo::multiply_add(strided_const(x), strided_const(y), strided_const(z), strided(o));
            }
            for (std::size_t k = 0; k < cols; ++k) {
                auto const want = static_cast<T>(static_cast<T>(x[k] * y[k]) + z[k]);
                c.check(same(o[k], want), "dense_special", [&] { return str("%zu: %g * %g + %g gave %g", k, double(x[k]), double(y[k]), double(z[k]), double(o[k])); });
            }
        }
        c.check(x.intact() && y.intact() && z.intact() && o.intact(), "out_of_range_write");
    });
}

auto body() -> void
{
    specials<float>("special<float>");
    specials<double>("special<double>");
    dense<std::complex<float>>("dense<cf>", 500, 20000);
    dense<std::complex<double>>("dense<cd>", 500, 20000);
    dense<mon::c64>("dense<c64>", 300, 8000);
    dense<mon::c128>("dense<c128>", 300, 8000);
    dense<float>("dense<float>", 400, 10000);
    dense<double>("dense<double>", 400, 10000);
    split<float>("split<float>", 500, 20000);
    split<double>("split<double>", 500, 20000);
    sparse<std::complex<float>>("sparse<cf>", 150, 6000);
    sparse<std::complex<double>>("sparse<cd>", 150, 6000);
    sparse<float>("sparse<float>", 150, 6000);
}

}  // namespace

MON_MAIN(body)
