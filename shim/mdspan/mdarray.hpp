// SPDX-License-Identifier: MIT
// Stand-in for kokkos' mdarray (P1684), see mdspan.hpp.
#pragma once

#include <mdspan/mdspan.hpp>

#include <vector>

namespace Kokkos::Experimental {

template<typename T, typename Ext, typename Layout = layout_right, typename Container = std::vector<T>>
class mdarray
{
public:
    using extents_type    = Ext;
    using layout_type     = Layout;
    using container_type  = Container;
    using mapping_type    = typename Layout::template mapping<Ext>;
    using element_type    = T;
    using mdspan_type     = mdspan<T, Ext, Layout>;
    using const_mdspan_type = mdspan<T const, Ext, Layout>;
    using value_type      = std::remove_cv_t<T>;
    using index_type      = typename Ext::index_type;
    using size_type       = typename Ext::size_type;
    using rank_type       = typename Ext::rank_type;
    using pointer         = T*;
    using reference       = typename container_type::reference;
    using const_pointer   = T const*;
    using const_reference = typename container_type::const_reference;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return Ext::rank(); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type { return Ext::rank_dynamic(); }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        return Ext::static_extent(r);
    }
    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _map.extents().extent(r); }

    constexpr mdarray() : _map{}, _c(static_cast<std::size_t>(_map.required_span_size())) {}
    constexpr mdarray(mdarray const&)                    = default;
    constexpr mdarray(mdarray&&)                         = default;
    constexpr auto operator=(mdarray const&) -> mdarray& = default;
    constexpr auto operator=(mdarray&&) -> mdarray&      = default;

    template<typename... Is>
        requires((std::is_convertible_v<Is, index_type> && ...) && sizeof...(Is) > 0
                 && (sizeof...(Is) == Ext::rank() || sizeof...(Is) == Ext::rank_dynamic()))
    constexpr explicit mdarray(Is... is) : _map(Ext(static_cast<index_type>(is)...))
                                         , _c(static_cast<std::size_t>(_map.required_span_size()))
    {}

    constexpr explicit mdarray(Ext const& e) : _map(e), _c(static_cast<std::size_t>(_map.required_span_size())) {}
    constexpr explicit mdarray(mapping_type const& m) : _map(m), _c(static_cast<std::size_t>(_map.required_span_size()))
    {}
    constexpr mdarray(Ext const& e, value_type const& v)
        : _map(e)
        , _c(static_cast<std::size_t>(_map.required_span_size()), v)
    {}
    constexpr mdarray(mapping_type const& m, value_type const& v)
        : _map(m)
        , _c(static_cast<std::size_t>(_map.required_span_size()), v)
    {}
    constexpr mdarray(Ext const& e, Container const& c) : _map(e), _c(c) {}
    constexpr mdarray(Ext const& e, Container&& c) : _map(e), _c(std::move(c)) {}
    constexpr mdarray(mapping_type const& m, Container const& c) : _map(m), _c(c) {}
    constexpr mdarray(mapping_type const& m, Container&& c) : _map(m), _c(std::move(c)) {}

    template<typename OT, typename OE, typename OL, typename OC>
        requires(std::is_constructible_v<Container, OC> && std::is_constructible_v<Ext, OE>)
    constexpr explicit mdarray(mdarray<OT, OE, OL, OC> const& o) : _map(o.mapping())
                                                                 , _c(o.container())
    {}

    template<typename... Is>
        requires((std::is_convertible_v<Is, index_type> && ...) && sizeof...(Is) == Ext::rank())
    [[nodiscard]] constexpr auto operator()(Is... is) -> reference
    {
        return _c[offset_(std::make_index_sequence<Ext::rank()>{}, is...)];
    }
    template<typename... Is>
        requires((std::is_convertible_v<Is, index_type> && ...) && sizeof...(Is) == Ext::rank())
    [[nodiscard]] constexpr auto operator()(Is... is) const -> const_reference
    {
        return _c[offset_(std::make_index_sequence<Ext::rank()>{}, is...)];
    }
    template<typename I>
        requires(std::is_convertible_v<I, index_type> && Ext::rank() == 1)
    [[nodiscard]] constexpr auto operator[](I i) -> reference
    {
        return (*this)(i);
    }
    template<typename I>
        requires(std::is_convertible_v<I, index_type> && Ext::rank() == 1)
    [[nodiscard]] constexpr auto operator[](I i) const -> const_reference
    {
        return (*this)(i);
    }

    [[nodiscard]] constexpr auto data() noexcept -> T* { return _c.data(); }
    [[nodiscard]] constexpr auto data() const noexcept -> T const* { return _c.data(); }
    [[nodiscard]] constexpr auto container() const noexcept -> Container const& { return _c; }
    [[nodiscard]] constexpr auto container_size() const noexcept { return _c.size(); }
    [[nodiscard]] constexpr auto extract_container() && -> Container&& { return std::move(_c); }
    [[nodiscard]] constexpr auto extents() const noexcept -> Ext const& { return _map.extents(); }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _map; }
    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        return static_cast<size_type>(Kokkos::detail::ext_size(_map.extents()));
    }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _map.stride(r); }
    [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
    [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool
    {
        return mapping_type::is_always_exhaustive();
    }
    [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }

    [[nodiscard]] constexpr auto to_mdspan() -> mdspan_type { return mdspan_type(_c.data(), _map); }
    [[nodiscard]] constexpr auto to_mdspan() const -> const_mdspan_type { return const_mdspan_type(_c.data(), _map); }

    template<typename OT, typename OE, typename OL, typename OA>
        requires std::is_convertible_v<mdspan_type, mdspan<OT, OE, OL, OA>>
    constexpr operator mdspan<OT, OE, OL, OA>()
    {
        return to_mdspan();
    }
    template<typename OT, typename OE, typename OL, typename OA>
        requires std::is_convertible_v<const_mdspan_type, mdspan<OT, OE, OL, OA>>
    constexpr operator mdspan<OT, OE, OL, OA>() const
    {
        return to_mdspan();
    }

    friend constexpr void swap(mdarray& a, mdarray& b) noexcept
    {
        std::swap(a._map, b._map);
        std::swap(a._c, b._c);
    }

private:
    template<std::size_t... K, typename... Is>
    [[nodiscard]] constexpr auto offset_(std::index_sequence<K...> /*seq*/, Is... is) const -> std::size_t
    {
        (neo_shim::check_index(is, _map.extents().extent(K), "element access"), ...);
        if (!std::is_constant_evaluated()) {
            ++neo_shim::accesses;
        }
        return static_cast<std::size_t>(_map(static_cast<index_type>(is)...));
    }

    mapping_type _map{};
    Container _c{};
};

}  // namespace Kokkos::Experimental
