// Guarded matrices in every layout.
#pragma once

#include "spectral.hpp"

namespace mon {

/// rows x cols over guarded storage. layout: 0 row major, 1 column major, 2 padded rows (strided), 3 transposed strides
template<typename T>
struct Matrix
{
    std::size_t rows, cols;
    int layout;
    std::size_t rs{}, cs{}, span{};
    Buf<T> b;
    T const filler;

    static auto need(std::size_t r, std::size_t c, int layout) -> std::size_t
    {
        if (r == 0 || c == 0) {
            return 0;
        }
        switch (layout) {
            case 2: return (r - 1) * (c + 3) + c;
            case 3: return (c - 1) * (2 * r + 1) + (r - 1) * 2 + 1;
            default: return r * c;
        }
    }

    Matrix(std::size_t r, std::size_t c, int lay, T fill) : rows{r}, cols{c}, layout{lay}, b(need(r, c, lay)), filler{fill}
    {
        switch (lay) {
            case 0: rs = c; cs = 1; break;
            case 1: rs = 1; cs = r; break;
            case 2: rs = c + 3; cs = 1; break;
            default: rs = 2; cs = 2 * r + 1;
        }
        for (std::size_t i = 0; i < b.n; ++i) {
            b[i] = filler;
        }
    }

    auto at(std::size_t i, std::size_t j) -> T& { return b.data()[i * rs + j * cs]; }

    template<typename F>
    auto fill_with(F f) -> void
    {
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                at(i, j) = f(i, j);
            }
        }
    }

    auto values() -> std::vector<T>
    {
        auto v = std::vector<T>{};
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                v.push_back(at(i, j));
            }
        }
        return v;
    }

    /// elements between the rows still hold the filler
    auto gaps_intact() -> bool
    {
        auto used = std::vector<char>(b.n);
        for (std::size_t i = 0; i < rows; ++i) {
            for (std::size_t j = 0; j < cols; ++j) {
                used[i * rs + j * cs] = 1;
            }
        }
        for (std::size_t k = 0; k < b.n; ++k) {
            if (used[k] == 0 && !same_bits(T(b[k]), filler)) {
                return false;
            }
        }
        return b.intact();
    }

    /// calls f(view) with the view in its own layout
    template<typename Elem = T, typename F>
    auto with(F&& f) -> void
    {
        using ext = stdex::dextents<std::size_t, 2>;
        if (layout == 0) {
            f(stdex::mdspan<Elem, ext>{b.data(), ext{rows, cols}});
        } else if (layout == 1) {
            f(stdex::mdspan<Elem, ext, stdex::layout_left>{b.data(), typename stdex::layout_left::template mapping<ext>{ext{rows, cols}}});
        } else {
            f(stdex::mdspan<Elem, ext, stdex::layout_stride>{
                b.data(), stdex::layout_stride::mapping<ext>{ext{rows, cols}, std::array<std::size_t, 2>{rs, cs}}
            });
        }
    }
};

/// a view whose extent is part of its type
template<std::size_t N, typename T>
auto fixed_extent(Buf<T>& b)
{
    return stdex::mdspan<T, stdex::extents<std::size_t, N>>{b.data()};
}

/// calls f(view) over a guarded vector: kind 0 contiguous, 1 strided (the buffer's own stride), 2 int index
template<typename T, typename F>
auto with_vector(Buf<T>& b, int kind, F&& f) -> void
{
    if (b.stride != 1 || kind == 1) {
        f(strided(b));
    } else if (kind == 2) {
        f(contiguous<T, int>(b));
    } else {
        f(contiguous(b));
    }
}

template<typename C>
auto random_elem(Rng& r) -> C
{
    if constexpr (std::is_floating_point_v<C>) {
        if (r.chance(1, 10)) {
            return static_cast<C>(r.pick(0.0, 0.0, 1.0, -1.0, 2.0));
        }
        if (r.chance(1, 10)) {
            return static_cast<C>(r.sym() * std::pow(10.0, static_cast<double>(r.range(-14, 14))));
        }
        return static_cast<C>(r.sym() * r.pick(1.0, 1.0, 100.0, 0.01));
    } else {
        using T = typename C::value_type;
        if (r.chance(1, 6)) {
            // exact values; purely real, purely imaginary
            auto const a = r.chance(1, 3) ? r.sym() : r.pick(0.0, 1.0, -1.0);
            auto const b = r.chance(1, 3) ? r.sym() : r.pick(0.0, 1.0, -1.0);
            return C{static_cast<T>(a), static_cast<T>(b)};
        }
        auto const gain = r.chance(1, 10) ? std::pow(10.0, static_cast<double>(r.range(-14, 14))) : 1.0;
        return C{static_cast<T>(r.sym() * gain), static_cast<T>(r.sym() * gain * r.pick(1.0, 10.0))};
    }
}

template<typename C>
auto elem_ld(C const& z) -> cld
{
    if constexpr (std::is_floating_point_v<C>) {
        return {static_cast<ld>(z), 0.0L};
    } else {
        return to_ld(z);
    }
}

template<typename C>
constexpr auto elem_eps() -> ld
{
    if constexpr (std::is_floating_point_v<C>) {
        return eps<C>();
    } else {
        return eps<typename C::value_type>();
    }
}

}  // namespace mon
