// SPDX-License-Identifier: MIT
//
// Stand-in for kokkos/mdspan (not installed here). A plain, from-scratch implementation of the
// part of C++23 <mdspan> / C++26 submdspan that can reasonably be used by neo, with one addition:
// every element access is *monitored*. An index outside a view's extents, or a submdspan slice
// outside them, is reported through neo_shim::violation(), which prints a line and aborts.
#pragma once

#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

namespace neo_shim {
// number of monitored element accesses (per thread, so that the monitor cannot race)
inline thread_local unsigned long long accesses = 0;

[[noreturn]] inline void violation(char const* what, long long idx, long long extent)
{
    std::fprintf(stderr, "MDSPAN-MONITOR: %s: index %lld outside extent %lld\n", what, idx, extent);
    std::fflush(stderr);
    std::abort();
}

template<typename I, typename E>
constexpr void check_index(I idx, E extent, char const* what)
{
    bool bad = false;
    if constexpr (std::is_signed_v<I>) {
        bad = idx < 0;
    }
    bad = bad || static_cast<unsigned long long>(idx) >= static_cast<unsigned long long>(extent);
    if (bad) {
        violation(what, static_cast<long long>(idx), static_cast<long long>(extent));
    }
}
}  // namespace neo_shim

namespace Kokkos {

inline constexpr auto dynamic_extent = std::dynamic_extent;

struct full_extent_t
{
    explicit full_extent_t() = default;
};
inline constexpr auto full_extent = full_extent_t{};

// ---------------------------------------------------------------- extents
template<typename IndexType, std::size_t... Exts>
class extents
{
public:
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = std::size_t;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return sizeof...(Exts); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type
    {
        return (rank_type(0) + ... + rank_type(Exts == dynamic_extent ? 1 : 0));
    }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        constexpr std::array<std::size_t, sizeof...(Exts) + 1> a{Exts..., 0};
        return a[r];
    }

    constexpr extents() noexcept
    {
        for (rank_type r{0}; r < rank(); ++r) {
            _e[r] = static_extent(r) == dynamic_extent ? IndexType(0) : static_cast<IndexType>(static_extent(r));
        }
    }

    template<typename... Is>
        requires(sizeof...(Is) > 0 && (std::is_convertible_v<Is, IndexType> && ...)
                 && (sizeof...(Is) == rank() || sizeof...(Is) == rank_dynamic()))
    constexpr explicit extents(Is... is) noexcept : extents()
    {
        std::array<IndexType, sizeof...(Is)> const in{static_cast<IndexType>(is)...};
        assign(in);
    }

    template<typename I, std::size_t N>
        requires(std::is_convertible_v<I const&, IndexType> && (N == rank() || N == rank_dynamic()))
    constexpr explicit(N != rank_dynamic()) extents(std::array<I, N> const& a) noexcept : extents()
    {
        std::array<IndexType, N> in{};
        for (std::size_t i{0}; i < N; ++i) {
            in[i] = static_cast<IndexType>(a[i]);
        }
        assign(in);
    }

    template<typename I, std::size_t N>
        requires(std::is_convertible_v<I const&, IndexType> && (N == rank() || N == rank_dynamic()))
    constexpr explicit(N != rank_dynamic()) extents(std::span<I, N> a) noexcept : extents()
    {
        std::array<IndexType, N> in{};
        for (std::size_t i{0}; i < N; ++i) {
            in[i] = static_cast<IndexType>(a[i]);
        }
        assign(in);
    }

    template<typename OI, std::size_t... OE>
        requires(sizeof...(OE) == sizeof...(Exts)
                 && ((OE == dynamic_extent || Exts == dynamic_extent || OE == Exts) && ...))
    constexpr explicit(((Exts != dynamic_extent && OE == dynamic_extent) || ...))
        extents(extents<OI, OE...> const& o) noexcept
        : extents()
    {
        for (rank_type r{0}; r < rank(); ++r) {
            _e[r] = static_cast<IndexType>(o.extent(r));
        }
    }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _e[r]; }

    template<typename OI, std::size_t... OE>
    [[nodiscard]] friend constexpr auto operator==(extents const& a, extents<OI, OE...> const& b) noexcept -> bool
    {
        if constexpr (sizeof...(OE) != sizeof...(Exts)) {
            return false;
        } else {
            for (rank_type r{0}; r < rank(); ++r) {
                if (static_cast<unsigned long long>(a.extent(r)) != static_cast<unsigned long long>(b.extent(r))) {
                    return false;
                }
            }
            return true;
        }
    }

private:
    template<std::size_t N>
    constexpr void assign(std::array<IndexType, N> const& in) noexcept
    {
        if constexpr (N == rank()) {
            for (rank_type r{0}; r < rank(); ++r) {
                _e[r] = in[r];
            }
        } else {
            rank_type k{0};
            for (rank_type r{0}; r < rank(); ++r) {
                if (static_extent(r) == dynamic_extent) {
                    _e[r] = in[k++];
                }
            }
        }
    }

    std::array<IndexType, sizeof...(Exts) == 0 ? 1 : sizeof...(Exts)> _e{};
};

namespace detail {
template<typename I, typename Seq>
struct make_dextents;
template<typename I, std::size_t... Is>
struct make_dextents<I, std::index_sequence<Is...>>
{
    using type = extents<I, (static_cast<void>(Is), dynamic_extent)...>;
};
template<typename>
struct to_dynamic
{
    static constexpr std::size_t value = dynamic_extent;
};
template<typename>
inline constexpr bool is_extents_v = false;
template<typename I, std::size_t... E>
inline constexpr bool is_extents_v<extents<I, E...>> = true;

template<typename T>
concept integral_like = std::is_convertible_v<T, std::size_t> && !std::is_same_v<std::remove_cvref_t<T>, full_extent_t>;
}  // namespace detail

template<typename I, std::size_t Rank>
using dextents = typename detail::make_dextents<I, std::make_index_sequence<Rank>>::type;

template<std::size_t Rank, typename I = std::size_t>
using dims = dextents<I, Rank>;

template<typename... Is>
    requires((std::is_convertible_v<Is, std::size_t> && ...))
explicit extents(Is...) -> extents<std::size_t, detail::to_dynamic<Is>::value...>;

// ---------------------------------------------------------------- layouts
struct layout_right;
struct layout_left;
struct layout_stride;

namespace detail {
template<typename Ext>
constexpr auto ext_size(Ext const& e) -> typename Ext::index_type
{
    typename Ext::index_type n = 1;
    for (std::size_t r{0}; r < Ext::rank(); ++r) {
        n = static_cast<typename Ext::index_type>(n * e.extent(r));
    }
    return n;
}
}  // namespace detail

#define NEO_SHIM_PACKED_LAYOUT(NAME, STRIDE_LOOP)                                                                      \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        template<typename Ext>                                                                                         \
        class mapping                                                                                                  \
        {                                                                                                              \
        public:                                                                                                        \
            using extents_type = Ext;                                                                                  \
            using index_type   = typename Ext::index_type;                                                             \
            using size_type    = typename Ext::size_type;                                                              \
            using rank_type    = typename Ext::rank_type;                                                              \
            using layout_type  = NAME;                                                                                 \
            constexpr mapping() noexcept = default;                                                                    \
            constexpr mapping(Ext const& e) noexcept : _e{e} {}                                                        \
            template<typename OE>                                                                                      \
                requires std::is_constructible_v<Ext, OE>                                                              \
            constexpr explicit(!std::is_convertible_v<OE, Ext>) mapping(mapping<OE> const& o) noexcept                 \
                : _e(o.extents())                                                                                      \
            {}                                                                                                         \
            template<typename M>                                                                                       \
                requires(!std::is_same_v<typename M::layout_type, NAME>                                                \
                         && std::is_constructible_v<Ext, typename M::extents_type>)                                    \
            constexpr explicit(Ext::rank() > 0) mapping(M const& o) noexcept                                           \
                : _e(o.extents())                                                                                      \
            {}                                                                                                         \
            [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _e; }                         \
            [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type                             \
            {                                                                                                          \
                return detail::ext_size(_e);                                                                           \
            }                                                                                                          \
            template<typename... Is>                                                                                   \
                requires(sizeof...(Is) == Ext::rank())                                                                 \
            [[nodiscard]] constexpr auto operator()(Is... is) const noexcept -> index_type                             \
            {                                                                                                          \
                std::array<index_type, sizeof...(Is) + 1> const a{static_cast<index_type>(is)..., index_type(0)};      \
                index_type off = 0;                                                                                    \
                for (rank_type r{0}; r < Ext::rank(); ++r) {                                                           \
                    off = static_cast<index_type>(off + a[r] * stride(r));                                             \
                }                                                                                                      \
                return off;                                                                                            \
            }                                                                                                          \
            [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type                              \
            {                                                                                                          \
                index_type s = 1;                                                                                      \
                STRIDE_LOOP                                                                                            \
                return s;                                                                                              \
            }                                                                                                          \
            [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }                   \
            [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }               \
            [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }                  \
            [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }                          \
            [[nodiscard]] static constexpr auto is_exhaustive() noexcept -> bool { return true; }                      \
            [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }                         \
            template<typename OE>                                                                                      \
            [[nodiscard]] friend constexpr auto operator==(mapping const& a, mapping<OE> const& b) noexcept -> bool    \
            {                                                                                                          \
                return a.extents() == b.extents();                                                                     \
            }                                                                                                          \
                                                                                                                       \
        private:                                                                                                       \
            Ext _e{};                                                                                                  \
        };                                                                                                             \
    };

NEO_SHIM_PACKED_LAYOUT(layout_right, for (rank_type k = r + 1; k < Ext::rank(); ++k) { s = static_cast<index_type>(s * _e.extent(k)); })
NEO_SHIM_PACKED_LAYOUT(layout_left, for (rank_type k = 0; k < r; ++k) { s = static_cast<index_type>(s * _e.extent(k)); })
#undef NEO_SHIM_PACKED_LAYOUT

struct layout_stride
{
    template<typename Ext>
    class mapping
    {
    public:
        using extents_type = Ext;
        using index_type   = typename Ext::index_type;
        using size_type    = typename Ext::size_type;
        using rank_type    = typename Ext::rank_type;
        using layout_type  = layout_stride;

        constexpr mapping() noexcept
        {
            typename layout_right::mapping<Ext> m{_e};
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                _s[r] = m.stride(r);
            }
        }

        template<typename I>
            requires std::is_convertible_v<I const&, index_type>
        constexpr mapping(Ext const& e, std::array<I, Ext::rank()> const& s) noexcept : _e{e}
        {
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                _s[r] = static_cast<index_type>(s[r]);
            }
        }

        template<typename I>
            requires std::is_convertible_v<I const&, index_type>
        constexpr mapping(Ext const& e, std::span<I, Ext::rank()> s) noexcept : _e{e}
        {
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                _s[r] = static_cast<index_type>(s[r]);
            }
        }

        template<typename M>
            requires(!std::is_same_v<M, mapping> && std::is_constructible_v<Ext, typename M::extents_type>
                     && M::is_always_unique())
        constexpr explicit(!std::is_convertible_v<typename M::extents_type, Ext>) mapping(M const& o) noexcept
            : _e(o.extents())
        {
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                _s[r] = static_cast<index_type>(o.stride(r));
            }
        }

        [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _e; }
        [[nodiscard]] constexpr auto strides() const noexcept -> std::array<index_type, Ext::rank()>
        {
            std::array<index_type, Ext::rank()> out{};
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                out[r] = _s[r];
            }
            return out;
        }
        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            index_type n = 1;
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                if (_e.extent(r) == 0) {
                    return 0;
                }
                n = static_cast<index_type>(n + (_e.extent(r) - 1) * _s[r]);
            }
            return n;
        }
        template<typename... Is>
            requires(sizeof...(Is) == Ext::rank())
        [[nodiscard]] constexpr auto operator()(Is... is) const noexcept -> index_type
        {
            std::array<index_type, sizeof...(Is) + 1> const a{static_cast<index_type>(is)..., index_type(0)};
            index_type off = 0;
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                off = static_cast<index_type>(off + a[r] * _s[r]);
            }
            return off;
        }
        [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type { return _s[r]; }
        [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }
        [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }
        [[nodiscard]] constexpr auto is_exhaustive() const noexcept -> bool
        {
            return required_span_size() == detail::ext_size(_e);
        }
        [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }

        template<typename M>
            requires requires { typename M::extents_type; }
        [[nodiscard]] friend constexpr auto operator==(mapping const& a, M const& b) noexcept -> bool
        {
            if (!(a.extents() == b.extents())) {
                return false;
            }
            for (rank_type r{0}; r < Ext::rank(); ++r) {
                if (static_cast<unsigned long long>(a.stride(r)) != static_cast<unsigned long long>(b.stride(r))) {
                    return false;
                }
            }
            return true;
        }

    private:
        Ext _e{};
        std::array<index_type, Ext::rank() == 0 ? 1 : Ext::rank()> _s{};
    };
};

// ---------------------------------------------------------------- accessor
template<typename T>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = T;
    using reference        = T&;
    using data_handle_type = T*;

    constexpr default_accessor() noexcept = default;
    template<typename U>
        requires std::is_convertible_v<U (*)[], T (*)[]>
    constexpr default_accessor(default_accessor<U>) noexcept
    {}

    [[nodiscard]] constexpr auto access(data_handle_type p, std::size_t i) const noexcept -> reference { return p[i]; }
    [[nodiscard]] constexpr auto offset(data_handle_type p, std::size_t i) const noexcept -> data_handle_type
    {
        return p + i;
    }
};

// ---------------------------------------------------------------- mdspan
template<typename T, typename Ext, typename Layout = layout_right, typename Acc = default_accessor<T>>
class mdspan
{
public:
    using extents_type     = Ext;
    using layout_type      = Layout;
    using accessor_type    = Acc;
    using mapping_type     = typename Layout::template mapping<Ext>;
    using element_type     = T;
    using value_type       = std::remove_cv_t<T>;
    using index_type       = typename Ext::index_type;
    using size_type        = typename Ext::size_type;
    using rank_type        = typename Ext::rank_type;
    using data_handle_type = typename Acc::data_handle_type;
    using reference        = typename Acc::reference;

    static_assert(std::is_same_v<T, typename Acc::element_type>);

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return Ext::rank(); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type { return Ext::rank_dynamic(); }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        return Ext::static_extent(r);
    }
    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _map.extents().extent(r); }

    constexpr mdspan()
        requires(Ext::rank_dynamic() > 0)
    = default;
    constexpr mdspan(mdspan const&)                    = default;
    constexpr mdspan(mdspan&&)                         = default;
    constexpr auto operator=(mdspan const&) -> mdspan& = default;
    constexpr auto operator=(mdspan&&) -> mdspan&      = default;

    template<typename... Is>
        requires((std::is_convertible_v<Is, index_type> && ...)
                 && (sizeof...(Is) == Ext::rank() || sizeof...(Is) == Ext::rank_dynamic())
                 && std::is_constructible_v<mapping_type, Ext>)
    constexpr explicit mdspan(data_handle_type p, Is... is) : _ptr(std::move(p))
                                                            , _map(Ext(static_cast<index_type>(is)...))
    {}

    template<typename I, std::size_t N>
        requires(std::is_convertible_v<I const&, index_type> && (N == Ext::rank() || N == Ext::rank_dynamic()))
    constexpr explicit(N != Ext::rank_dynamic()) mdspan(data_handle_type p, std::array<I, N> const& e)
        : _ptr(std::move(p))
        , _map(Ext(e))
    {}

    constexpr mdspan(data_handle_type p, Ext const& e)
        requires(std::is_constructible_v<mapping_type, Ext const&>)
        : _ptr(std::move(p))
        , _map(e)
    {}
    constexpr mdspan(data_handle_type p, mapping_type const& m) : _ptr(std::move(p)), _map(m) {}
    constexpr mdspan(data_handle_type p, mapping_type const& m, Acc const& a) : _ptr(std::move(p)), _map(m), _acc(a) {}

    template<typename OT, typename OE, typename OL, typename OA>
        requires(std::is_constructible_v<mapping_type, typename OL::template mapping<OE> const&>
                 && std::is_constructible_v<Acc, OA const&>)
    constexpr explicit(!std::is_convertible_v<typename OL::template mapping<OE> const&, mapping_type>
                       || !std::is_convertible_v<OA const&, Acc>) mdspan(mdspan<OT, OE, OL, OA> const& o)
        : _ptr(o.data_handle())
        , _map(o.mapping())
        , _acc(o.accessor())
    {}

    template<typename... Is>
        requires((std::is_convertible_v<Is, index_type> && ...) && sizeof...(Is) == Ext::rank())
    [[nodiscard]] constexpr auto operator()(Is... is) const -> reference
    {
        return at_(std::make_index_sequence<Ext::rank()>{}, is...);
    }

    template<typename I>
        requires(std::is_convertible_v<I, index_type> && Ext::rank() == 1)
    [[nodiscard]] constexpr auto operator[](I i) const -> reference
    {
        return (*this)(i);
    }

    template<typename I>
        requires(std::is_convertible_v<I const&, index_type>)
    [[nodiscard]] constexpr auto operator[](std::array<I, Ext::rank()> const& a) const -> reference
    {
        return [&]<std::size_t... K>(std::index_sequence<K...>) -> reference {
            return (*this)(a[K]...);
        }(std::make_index_sequence<Ext::rank()>{});
    }
    template<typename I>
        requires(std::is_convertible_v<I const&, index_type>)
    [[nodiscard]] constexpr auto operator()(std::array<I, Ext::rank()> const& a) const -> reference
    {
        return (*this)[a];
    }
#if defined(__cpp_multidimensional_subscript)
    template<typename... Is>
        requires((std::is_convertible_v<Is, index_type> && ...) && sizeof...(Is) == Ext::rank() && sizeof...(Is) != 1)
    [[nodiscard]] constexpr auto operator[](Is... is) const -> reference
    {
        return (*this)(is...);
    }
#endif

    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        return static_cast<size_type>(detail::ext_size(_map.extents()));
    }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _map.extents(); }
    [[nodiscard]] constexpr auto data_handle() const noexcept -> data_handle_type const& { return _ptr; }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _map; }
    [[nodiscard]] constexpr auto accessor() const noexcept -> Acc const& { return _acc; }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _map.stride(r); }

    [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }
    [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool
    {
        return mapping_type::is_always_exhaustive();
    }
    [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool
    {
        return mapping_type::is_always_strided();
    }
    [[nodiscard]] constexpr auto is_unique() const -> bool { return _map.is_unique(); }
    [[nodiscard]] constexpr auto is_exhaustive() const -> bool { return _map.is_exhaustive(); }
    [[nodiscard]] constexpr auto is_strided() const -> bool { return _map.is_strided(); }

    friend constexpr void swap(mdspan& a, mdspan& b) noexcept
    {
        std::swap(a._ptr, b._ptr);
        std::swap(a._map, b._map);
        std::swap(a._acc, b._acc);
    }

private:
    template<std::size_t... K, typename... Is>
    [[nodiscard]] constexpr auto at_(std::index_sequence<K...> /*seq*/, Is... is) const -> reference
    {
        (neo_shim::check_index(is, _map.extents().extent(K), "element access"), ...);
        if (!std::is_constant_evaluated()) {
            ++neo_shim::accesses;
        }
        return _acc.access(_ptr, static_cast<std::size_t>(_map(static_cast<index_type>(is)...)));
    }

    data_handle_type _ptr{};
    [[no_unique_address]] mapping_type _map{};
    [[no_unique_address]] Acc _acc{};
};

template<typename P, typename... Is>
    requires(std::is_pointer_v<std::remove_reference_t<P>> && sizeof...(Is) > 0
             && (std::is_convertible_v<Is, std::size_t> && ...))
explicit mdspan(P&&, Is...)
    -> mdspan<std::remove_pointer_t<std::remove_reference_t<P>>, dextents<std::size_t, sizeof...(Is)>>;

template<typename C>
    requires(std::is_array_v<C> && std::rank_v<C> == 1)
mdspan(C&) -> mdspan<std::remove_all_extents_t<C>, extents<std::size_t, std::extent_v<C, 0>>>;

template<typename T, typename I, std::size_t N>
mdspan(T*, std::array<I, N> const&) -> mdspan<T, dextents<std::size_t, N>>;

template<typename T, typename I, std::size_t... E>
mdspan(T*, extents<I, E...> const&) -> mdspan<T, extents<I, E...>>;

template<typename T, typename M>
    requires requires { typename M::layout_type; }
mdspan(T*, M const&) -> mdspan<T, typename M::extents_type, typename M::layout_type>;

template<typename M, typename A>
mdspan(typename A::data_handle_type const&, M const&, A const&)
    -> mdspan<typename A::element_type, typename M::extents_type, typename M::layout_type, A>;

// ---------------------------------------------------------------- submdspan
template<typename OffsetType, typename ExtentType, typename StrideType>
struct strided_slice
{
    using offset_type = OffsetType;
    using extent_type = ExtentType;
    using stride_type = StrideType;
    [[no_unique_address]] OffsetType offset{};
    [[no_unique_address]] ExtentType extent{};
    [[no_unique_address]] StrideType stride{};
};
template<typename O, typename E, typename S>
strided_slice(O, E, S) -> strided_slice<O, E, S>;

namespace detail {

template<typename>
inline constexpr bool is_strided_slice_v = false;
template<typename O, typename E, typename S>
inline constexpr bool is_strided_slice_v<strided_slice<O, E, S>> = true;

template<typename S>
inline constexpr bool is_full_v = std::is_same_v<std::remove_cvref_t<S>, full_extent_t>;

template<typename S>
concept pair_slice = !is_full_v<S> && !is_strided_slice_v<std::remove_cvref_t<S>> && requires {
    requires std::tuple_size<std::remove_cvref_t<S>>::value == 2;
};

template<typename S>
inline constexpr bool is_index_v
    = !is_full_v<S> && !is_strided_slice_v<std::remove_cvref_t<S>> && !pair_slice<S> && std::is_convertible_v<S, std::size_t>;

struct resolved
{
    long long first{0};
    long long count{0};
    long long step{1};
};

template<typename S>
constexpr auto resolve(S const& s, long long ext) -> resolved
{
    if constexpr (is_full_v<S>) {
        return {0, ext, 1};
    } else if constexpr (is_index_v<S>) {
        auto const i = static_cast<long long>(static_cast<std::size_t>(s));
        if (i < 0 || i >= ext) {
            neo_shim::violation("submdspan index", i, ext);
        }
        return {i, 1, 1};
    } else if constexpr (is_strided_slice_v<std::remove_cvref_t<S>>) {
        auto const o = static_cast<long long>(s.offset);
        auto const e = static_cast<long long>(s.extent);
        auto const t = static_cast<long long>(s.stride);
        if (o < 0 || e < 0 || o + e > ext) {
            neo_shim::violation("submdspan strided_slice", o + e, ext);
        }
        return {o, e == 0 ? 0 : 1 + (e - 1) / t, t};
    } else {
        using std::get;
        auto const b = static_cast<long long>(get<0>(s));
        auto const e = static_cast<long long>(get<1>(s));
        if (b < 0 || e < b || e > ext) {
            neo_shim::violation("submdspan range end", e < b ? b : e, ext);
        }
        return {b, e - b, 1};
    }
}

template<typename Ext, typename Seq, typename... Ss>
struct sub_ext;

// static extents survive a full_extent slice, everything else becomes dynamic
template<typename I, typename Acc, typename...>
struct filter_ext;
template<typename I, std::size_t... Out>
struct filter_ext<I, std::index_sequence<Out...>>
{
    using type = extents<I, Out...>;
};
template<std::size_t E, typename S>
struct es
{};
template<typename I, std::size_t... Out, std::size_t E, typename S, typename... Rest>
struct filter_ext<I, std::index_sequence<Out...>, es<E, S>, Rest...>
{
    using type = typename std::conditional_t<
        is_index_v<S>,
        filter_ext<I, std::index_sequence<Out...>, Rest...>,
        filter_ext<I, std::index_sequence<Out..., (is_full_v<S> ? E : dynamic_extent)>, Rest...>>::type;
};

template<typename Ext, std::size_t... K, typename... Ss>
auto sub_ext_f(std::index_sequence<K...>, std::tuple<Ss...>*) ->
    typename filter_ext<typename Ext::index_type, std::index_sequence<>, es<Ext::static_extent(K), Ss>...>::type;

template<typename Layout, typename... Ss>
consteval auto keeps_layout() -> bool
{
    constexpr std::size_t n = sizeof...(Ss);
    constexpr std::array<bool, n + 1> idx{is_index_v<Ss>..., false};
    constexpr std::array<bool, n + 1> full{is_full_v<Ss>..., false};
    constexpr std::array<bool, n + 1> range{pair_slice<Ss>..., false};
    std::size_t sub = 0;
    for (std::size_t k = 0; k < n; ++k) {
        sub += idx[k] ? 0 : 1;
    }
    if (sub == 0) {
        return true;
    }
    if constexpr (std::is_same_v<Layout, layout_right>) {
        for (std::size_t k = n - sub; k < n; ++k) {
            bool const ok = (k == n - sub) ? (full[k] || range[k]) : full[k];
            if (!ok) {
                return false;
            }
        }
        return true;
    } else if constexpr (std::is_same_v<Layout, layout_left>) {
        for (std::size_t k = 0; k < sub; ++k) {
            bool const ok = (k == sub - 1) ? (full[k] || range[k]) : full[k];
            if (!ok) {
                return false;
            }
        }
        return true;
    } else {
        return false;
    }
}
}  // namespace detail

template<typename T, typename Ext, typename Layout, typename Acc, typename... Ss>
    requires(sizeof...(Ss) == Ext::rank())
[[nodiscard]] constexpr auto submdspan(mdspan<T, Ext, Layout, Acc> const& src, Ss... ss)
{
    using sub_extents = decltype(detail::sub_ext_f<Ext>(
        std::make_index_sequence<Ext::rank()>{},
        static_cast<std::tuple<Ss...>*>(nullptr)
    ));
    using index_type               = typename Ext::index_type;
    constexpr bool keep            = detail::keeps_layout<Layout, Ss...>();
    using sub_layout               = std::conditional_t<keep, Layout, layout_stride>;
    using sub_acc                  = typename Acc::offset_policy;
    constexpr std::size_t sub_rank = sub_extents::rank();

    std::array<index_type, sub_rank> exts{};
    std::array<index_type, sub_rank> strides{};
    long long offset   = 0;
    bool empty         = false;
    std::size_t r      = 0;
    std::size_t k      = 0;
    auto const process = [&](auto const& s) {
        auto const res = detail::resolve(s, static_cast<long long>(src.extent(r)));
        auto const st  = static_cast<long long>(src.stride(r));
        offset += res.first * st;
        using S = std::remove_cvref_t<decltype(s)>;
        if constexpr (!detail::is_index_v<S>) {
            exts[k]    = static_cast<index_type>(res.count);
            strides[k] = static_cast<index_type>(st * (res.count > 1 ? res.step : 1));
            empty      = empty || res.count == 0;
            ++k;
        }
        ++r;
    };
    (process(ss), ...);

    // a slice that starts at the end of its dimension is empty: never form a far pointer for it
    if (empty) {
        auto const req = static_cast<long long>(src.mapping().required_span_size());
        offset         = offset > req ? req : offset;
    }

    auto const sub_acc_obj = sub_acc(src.accessor());
    auto const ptr = (offset == 0) ? src.data_handle() : src.accessor().offset(src.data_handle(), static_cast<std::size_t>(offset));
    auto const ext = [&]() -> sub_extents {
        if constexpr (sub_rank == 0) {
            return sub_extents{};
        } else {
            return sub_extents(exts);
        }
    }();
    using sub_mapping = typename sub_layout::template mapping<sub_extents>;
    if constexpr (keep && !std::is_same_v<sub_layout, layout_stride>) {
        return mdspan<T, sub_extents, sub_layout, sub_acc>(ptr, sub_mapping(ext), sub_acc_obj);
    } else {
        return mdspan<T, sub_extents, sub_layout, sub_acc>(ptr, sub_mapping(ext, strides), sub_acc_obj);
    }
}

namespace Experimental {
using Kokkos::default_accessor;
using Kokkos::dextents;
using Kokkos::extents;
using Kokkos::full_extent;
using Kokkos::full_extent_t;
using Kokkos::layout_left;
using Kokkos::layout_right;
using Kokkos::layout_stride;
using Kokkos::mdspan;
using Kokkos::strided_slice;
using Kokkos::submdspan;
}  // namespace Experimental

}  // namespace Kokkos
