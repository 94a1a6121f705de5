// C06: a streaming convolver computes the running linear convolution of everything it was fed.
#include "conv_check.hpp"

using namespace mon;

namespace {

template<typename Conv>
auto stream(char const* name, int quick, int thorough) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        // now and then very many partitions of a short block, or a very long block
        auto const many  = edge_size(c, 15, 1025);
        auto const large = c.index % 30 == 13;
        auto const block = std::size_t{1} << (many != 0 ? c.rng.size(1, 2) : large ? c.rng.size(10, fast_build ? 13 : 11) : 1 + static_cast<std::size_t>(c.index) % (c.index % 12 == 11 ? 9 : 7));
        auto const parts = many != 0 ? many + c.rng.size(0, 3) : large ? c.rng.size(1, 2) : c.rng.size(1, c.rng.chance(1, 6) ? 24 : 6);
        auto const hlen  = std::max<std::size_t>(1, c.rng.chance(1, 3) ? block * parts : block * (parts - 1) + c.rng.size(1, block));
        auto const nblk  = many != 0 ? parts + c.rng.size(1, 20) : c.rng.size(1, 3 * parts + 6);
        int hc{}, xc{};
        auto const h = audio<T>(c.rng, hlen, hc);
        auto const x = audio<T>(c.rng, nblk * block, xc);
        c.desc("%s block=%zu ir=%zu blocks=%zu classes=%d,%d stream=%lld", name, block, hlen, nblk, hc, xc, c.index);
        auto conv = Conv{};
        set_filter(conv, partition_of<C>(h, block));
        auto s = Stream<T>{x};
        while (s.left() > 0) {
            s.step(c, conv, block);
        }
        compare(c, s.y, convolve_ref(x, h), conv_tol<T>(block, h.size(), norm_of(x), norm_of(h)), "linear_convolution");
        c.count(str("partitions.%zu", parts));
        if (nblk > parts) {
            c.count("delay_line_wrapped");
        }
    });
}

/// Non-finite samples in a bounded stretch: the filter has finite memory, so the output is again the convolution once
/// they are out of reach (and their block, which is transformed as a whole, has left the delay line).
template<typename Conv>
auto recovery(char const* name, int quick, int thorough) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const block = std::size_t{1} << c.rng.size(1, 6);
        auto const parts = c.rng.size(1, 7);
        auto const hlen  = block * (parts - 1) + c.rng.size(1, block);
        int hc{}, xc{};
        auto const h   = audio<T>(c.rng, hlen, hc);
        auto const nbl = parts * 3 + c.rng.size(4, 12);
        auto x         = audio<T>(c.rng, nbl * block, xc);
        auto const clean = x;
        auto const first = c.rng.size(0, parts);
        auto const count = c.rng.size(1, parts);
        auto const bad   = static_cast<T>(c.rng.pick(std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()));
        for (auto b = first; b < first + count; ++b) {
            x[b * block + c.rng.size(0, block - 1)] = bad;
        }
        c.desc("%s block=%zu ir=%zu non-finite blocks %zu..%zu classes=%d,%d stream=%lld", name, block, hlen, first, first + count - 1, hc, xc, c.index);
        auto conv = Conv{};
        set_filter(conv, partition_of<C>(h, block));
        auto s = Stream<T>{x};
        while (s.left() > 0) {
            s.step(c, conv, block);
        }
        auto const from = (first + count + parts + 2) * block;
        auto const want = convolve_ref(clean, h);
        auto tail       = std::vector<T>{s.y.begin() + static_cast<std::ptrdiff_t>(std::min(from, s.y.size())), s.y.end()};
        auto wtail      = std::vector<ld>{want.begin() + static_cast<std::ptrdiff_t>(std::min(from, want.size())), want.end()};
        auto const tol  = conv_tol<T>(block, h.size(), norm_of(clean), norm_of(h));
        compare(c, tail, wtail, tol, "recovery_after_non_finite");
        auto early  = std::vector<T>{s.y.begin(), s.y.begin() + static_cast<std::ptrdiff_t>(first * block)};
        auto wearly = std::vector<ld>{want.begin(), want.begin() + static_cast<std::ptrdiff_t>(first * block)};
        compare(c, early, wearly, tol, "before_non_finite");
        c.count("non_finite_recoveries");
    });
}

/// The same through every kind of view: filters in other layouts, as one channel of a multichannel partitioning, blocks with
/// other index types, fixed sizes or reversed orientation of the enclosing matrix.
template<typename Conv>
auto views(char const* name, int quick, int thorough) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const fview    = static_cast<int>(c.index % 5);
        auto const bview    = static_cast<int>(c.index / 5 % 4);
        auto const block    = bview == 2 ? std::size_t{16} : std::size_t{1} << c.rng.size(1, 6);
        auto const channels = c.rng.size(1, 4);
        auto const parts    = c.rng.size(1, 6);
        auto const hlen     = block * (parts - 1) + c.rng.size(1, block);
        auto const nblk     = c.rng.size(1, 2 * parts + 5);
        auto const ch       = c.rng.size(0, channels - 1);
        int cls{};
        auto hs = std::vector<T>{};
        auto h  = std::vector<T>{};
        for (std::size_t i = 0; i < channels; ++i) {
            auto const one = audio<T>(c.rng, hlen, cls, true);
            hs.insert(hs.end(), one.begin(), one.end());
            if (i == ch) {
                h = one;
            }
        }
        auto const x = audio<T>(c.rng, nblk * block, cls, true);
        c.desc("%s filter view %d block view %d block=%zu ir=%zu channel=%zu/%zu blocks=%zu stream=%lld", name, fview, bview, block, hlen, ch, channels, nblk, c.index);
        auto const spec = partition_of<C>(h, block);
        auto conv       = Conv{};
        auto load       = [&](auto view) {
            if constexpr (is_sparse<Conv>) {
                conv.filter(view, [](auto, auto, auto) { return true; });
            } else {
                conv.filter(view);
            }
        };
        using E2 = stdex::dextents<std::size_t, 2>;
        if (fview == 0) {  // one channel of the library's own multichannel partitioning
            auto const m = stdex::mdspan<T const, E2>{hs.data(), E2{channels, hlen}};
            auto p       = nc::uniform_partition(m, block);
            if constexpr (std::is_same_v<C, std::complex<T>>) {
                load(stdex::submdspan(p.to_mdspan(), ch, stdex::full_extent, stdex::full_extent));
            } else {
                load(spec.view());
            }
        } else if (fview == 1) {
            auto t = std::vector<C>(spec.v.size());
            for (std::size_t i = 0; i < spec.parts; ++i) {
                for (std::size_t k = 0; k < spec.bins; ++k) {
                    t[k * spec.parts + i] = spec.v[i * spec.bins + k];
                }
            }
            load(stdex::mdspan<C const, E2, stdex::layout_left>{t.data(), E2{spec.parts, spec.bins}});
        } else if (fview == 2) {
            auto const pad  = c.rng.size(1, 5);
            auto const step = c.rng.step();
            auto t          = std::vector<C>(spec.parts * (spec.bins * step + pad), C{T(99), T(-99)});
            for (std::size_t i = 0; i < spec.parts; ++i) {
                for (std::size_t k = 0; k < spec.bins; ++k) {
                    t[i * (spec.bins * step + pad) + k * step] = spec.v[i * spec.bins + k];
                }
            }
            auto const map = stdex::layout_stride::mapping<E2>{E2{spec.parts, spec.bins}, std::array<std::size_t, 2>{spec.bins * step + pad, step}};
            load(stdex::mdspan<C const, E2, stdex::layout_stride>{t.data(), map});
        } else if (fview == 3) {
            using EI = stdex::dextents<unsigned, 2>;
            load(stdex::mdspan<C const, EI>{spec.v.data(), EI{static_cast<unsigned>(spec.parts), static_cast<unsigned>(spec.bins)}});
        } else {
            auto t = spec.v;
            load(stdex::mdspan<C, E2>{t.data(), E2{spec.parts, spec.bins}});
            std::fill(t.begin(), t.end(), C{T(7), T(7)});  // the caller's storage is free again
        }
        auto y = std::vector<T>(x.size());
        for (std::size_t pos = 0; pos < x.size(); pos += block) {
            auto const st = bview == 3 ? c.rng.stride() : std::size_t{1};
            auto b        = Buf<T>(block, st, c.rng.size(0, 3));
            for (std::size_t i = 0; i < block; ++i) {
                b[i] = x[pos + i];
            }
            if (bview == 0) {
                conv(contiguous<T, unsigned>(b));
            } else if (bview == 1) {
                conv(stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_left>{b.data(), stdex::dextents<std::size_t, 1>{block}});
            } else if (bview == 2) {
                conv(stdex::mdspan<T, stdex::extents<std::size_t, 16>>{b.data(), stdex::extents<std::size_t, 16>{}});
            } else {
                conv(strided(b));
            }
            for (std::size_t i = 0; i < block; ++i) {
                y[pos + i] = b[i];
            }
            c.check(b.intact(), "out_of_range_write");
        }
        compare(c, y, convolve_ref(x, h), conv_tol<T>(block, h.size(), norm_of(x), norm_of(h)), "view");
        c.count(str("views.%d.%d", fview, bview));
    });
}

template<typename C>
auto kinds(char const* t, int quick, int thorough) -> void
{
    static std::vector<std::unique_ptr<std::string>> keep;
    auto nm = [&](char const* k) { return keep.emplace_back(std::make_unique<std::string>(std::string{k} + "<" + t + ">"))->c_str(); };
    stream<nc::upols_convolver<C>>(nm("upols"), quick, thorough);
    stream<nc::upola_convolver<C>>(nm("upola"), quick, thorough);
    stream<nc::split_upols_convolver<C>>(nm("split_upols"), quick, thorough);
    stream<nc::split_upola_convolver<C>>(nm("split_upola"), quick, thorough);
    stream<nc::sparse_upols_convolver<C>>(nm("sparse_upols"), quick, thorough);
    stream<nc::sparse_upola_convolver<C>>(nm("sparse_upola"), quick, thorough);
    auto const few = std::max(10, quick / 4);
    recovery<nc::upols_convolver<C>>(nm("recovery.upols"), few, thorough / 2);
    recovery<nc::upola_convolver<C>>(nm("recovery.upola"), few, thorough / 2);
    recovery<nc::split_upols_convolver<C>>(nm("recovery.split_upols"), few, thorough / 2);
    recovery<nc::split_upola_convolver<C>>(nm("recovery.split_upola"), few, thorough / 2);
    recovery<nc::sparse_upols_convolver<C>>(nm("recovery.sparse_upols"), few, thorough / 2);
    recovery<nc::sparse_upola_convolver<C>>(nm("recovery.sparse_upola"), few, thorough / 2);
    if constexpr (std::is_same_v<C, std::complex<typename C::value_type>>) {
        recovery<nc::upola_convolver_v2<C>>(nm("recovery.upola_v2"), few, thorough / 2);
        stream<nc::upola_convolver_v2<C>>(nm("upola_v2"), quick, thorough);
    }
}

template<typename C>
auto marathons(char const* t) -> void
{
    static std::vector<std::unique_ptr<std::string>> keep;
    auto const* name = keep.emplace_back(std::make_unique<std::string>(std::string{"marathon<"} + t + ">"))->c_str();
    section(name, 7, 70, [=](Case& c) {
        auto const calls = std::size_t{66000} + c.rng.size(0, 3000) + (fast_build ? 66000 : 0);
        switch (c.index % 7) {
            case 0: return marathon<nc::upols_convolver<C>>(c, "upols", calls);
            case 1: return marathon<nc::upola_convolver<C>>(c, "upola", calls);
            case 2: return marathon<nc::split_upols_convolver<C>>(c, "split_upols", calls);
            case 3: return marathon<nc::split_upola_convolver<C>>(c, "split_upola", calls);
            case 4: return marathon<nc::sparse_upols_convolver<C>>(c, "sparse_upols", calls);
            case 5: return marathon<nc::sparse_upola_convolver<C>>(c, "sparse_upola", calls);
            default: return marathon<nc::upola_convolver_v2<C>>(c, "upola_v2", calls);
        }
    }, 100);
}

/// every order from 2^13: the whole range of block sizes is walked, each order by at least two kinds of convolver
auto long_blocks() -> void
{
    section("long_blocks", 16, 80, [](Case& c) {
        using F          = std::complex<float>;
        using D          = std::complex<double>;
        auto const i     = static_cast<std::size_t>(c.index);
        auto const order = fast_build ? 14 + i / 4 % 4 : 12 + i / 4 % 4;
        switch ((i + i / 8 * 4) % 8) {
            case 0: return grand<nc::upols_convolver<F>>(c, "upols<cf>", order);
            case 1: return grand<nc::split_upola_convolver<F>>(c, "split_upola<cf>", order);
            case 2: return grand<nc::sparse_upola_convolver<D>>(c, "sparse_upola<cd>", order);
            case 3: return grand<nc::upola_convolver_v2<F>>(c, "upola_v2<cf>", order);
            case 4: return grand<nc::upola_convolver<D>>(c, "upola<cd>", order);
            case 5: return grand<nc::split_upols_convolver<D>>(c, "split_upols<cd>", order);
            case 6: return grand<nc::sparse_upols_convolver<F>>(c, "sparse_upols<cf>", order);
            default: return grand<nc::upola_convolver_v2<D>>(c, "upola_v2<cd>", order);
        }
    }, 100);
}

auto body() -> void
{
    long_blocks();
    kinds<std::complex<float>>("cf", 60, 2500);
    kinds<std::complex<double>>("cd", 60, 2500);
    views<nc::upols_convolver<std::complex<float>>>("views.upols<cf>", 20, 400);
    views<nc::upola_convolver<std::complex<double>>>("views.upola<cd>", 20, 400);
    views<nc::split_upols_convolver<std::complex<double>>>("views.split_upols<cd>", 20, 400);
    views<nc::split_upola_convolver<std::complex<float>>>("views.split_upola<cf>", 20, 400);
    views<nc::sparse_upols_convolver<std::complex<float>>>("views.sparse_upols<cf>", 20, 400);
    views<nc::upola_convolver_v2<std::complex<float>>>("views.upola_v2<cf>", 20, 400);
    marathons<std::complex<float>>("cf");
    marathons<std::complex<double>>("cd");
    stream<nc::upols_convolver<mon::c64>>("upols<c64>", 40, 1500);
    stream<nc::upola_convolver<mon::c128>>("upola<c128>", 40, 1500);
}

}  // namespace

MON_MAIN(body)
