// C09: the chunked overlap-add convolver's output does not depend on how the stream is cut into calls.
#include "conv_check.hpp"

using namespace mon;

namespace {

template<typename Conv>
auto chunks(char const* name, int quick, int thorough) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const many  = edge_size(c, 40, 520);
        auto const block = std::size_t{1} << (many != 0 ? 1 : c.index % 40 == 21 ? c.rng.size(8, 10) : 1 + static_cast<std::size_t>(c.index) % 7);
        auto const parts = many != 0 ? many : c.rng.size(1, c.index % 40 == 21 ? 3 : 8);
        auto const hlen  = block * (parts - 1) + c.rng.size(1, block);
        auto const style = static_cast<int>(c.rng.range(0, 5));
        auto const calls = c.rng.size(1, many != 0 ? parts + 10 : 3 * parts + 3);
        auto cuts        = std::vector<std::size_t>{};
        auto total       = std::size_t{0};
        for (std::size_t i = 0; i < calls; ++i) {
            auto n = block;
            switch (style) {
                case 0: n = block; break;
                case 1: n = block + 1; break;
                case 2: n = 2 * block - 1; break;
                case 3: n = block * c.rng.size(1, 4); break;
                case 4: n = block + c.rng.size(0, block); break;
                default: n = block + c.rng.size(0, 4 * block);
            }
            cuts.push_back(n);
            total += n;
        }
        int hc{}, xc{};
        auto const h = audio<T>(c.rng, hlen, hc);
        auto const x = audio<T>(c.rng, total, xc);
        c.desc("%s block=%zu ir=%zu calls=%zu cut-style=%d total=%zu stream=%lld", name, block, hlen, calls, style, total, c.index);
        auto conv = Conv{};
        set_filter(conv, partition_of<C>(h, block));
        auto s         = Stream<T>{x};
        auto off_block = std::size_t{0};
        for (auto n : cuts) {
            off_block += s.pos % block != 0 ? 1U : 0U;
            s.step(c, conv, n);
        }
        compare(c, s.y, convolve_ref(x, h), conv_tol<T>(block, h.size(), norm_of(x), norm_of(h)), "chunked_convolution");
        c.count("calls_starting_inside_a_block", off_block);
        c.count(str("style.%d", style));
    });
}

/// single calls that are longer than any small counter can hold
template<typename Conv>
auto giant_calls(char const* name) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    section(name, 3, 40, [=](Case& c) {
        auto const block = std::size_t{1} << (5 + static_cast<std::size_t>(c.index) % 5);
        auto const hlen  = c.rng.size(1, std::min<std::size_t>(3 * block, 300));
        auto cuts        = std::vector<std::size_t>{};
        auto total       = std::size_t{0};
        for (auto i = 0; i < 4; ++i) {
            auto const n = i % 2 == 1 ? 65535 + c.rng.size(0, 4000) : block + c.rng.size(0, 2 * block);
            cuts.push_back(n);
            total += n;
        }
        int hc{}, xc{};
        auto const h = audio<T>(c.rng, hlen, hc);
        auto const x = audio<T>(c.rng, total, xc);
        c.desc("%s block=%zu ir=%zu total=%zu stream=%lld", name, block, hlen, total, c.index);
        auto conv = Conv{};
        set_filter(conv, partition_of<C>(h, block));
        auto s = Stream<T>{x};
        for (auto n : cuts) {
            s.step(c, conv, n);
        }
        compare(c, s.y, convolve_ref(x, h), conv_tol<T>(block, h.size(), norm_of(x), norm_of(h)), "giant_call");
        c.count("giant_calls", 2);
    }, 100);
}

auto body() -> void
{
    giant_calls<nc::upola_convolver_v2<std::complex<float>>>("giant<cf>");
    giant_calls<nc::upola_convolver_v2<std::complex<double>>>("giant<cd>");
    section("marathon", 4, 40, [](Case& c) {
        auto const calls = std::size_t{66000} + c.rng.size(0, 3000);
        c.index % 4 < 2 ? marathon<nc::upola_convolver_v2<std::complex<float>>>(c, "upola_v2<cf>", calls) : marathon<nc::upola_convolver_v2<std::complex<double>>>(c, "upola_v2<cd>", calls);
    }, 100);
    chunks<nc::upola_convolver_v2<std::complex<float>>>("upola_v2<cf>", 400, 12000);
    chunks<nc::upola_convolver_v2<std::complex<double>>>("upola_v2<cd>", 400, 12000);
    chunks<nc::overlap_add_convolver<std::complex<float>, nc::dense_fdl<std::complex<float>>, nc::dense_filter<std::complex<float>>>>("overlap_add_convolver<cf>", 100, 3000);
}

}  // namespace

MON_MAIN(body)
