// C08: a sparse convolver equals the dense one whose dropped bins are zero; dense, split and sparse agree on arbitrary spectra.
#include "conv_check.hpp"

using namespace mon;

namespace {

template<typename Conv, bool Save>
auto masked(char const* name, int quick, int thorough) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const block = std::size_t{1} << (edge_size(c, 30, 520) != 0 ? 1 : 1 + static_cast<std::size_t>(c.index) % 6);
        auto const many  = edge_size(c, 30, 520);
        auto const parts = many != 0 ? many : c.rng.size(1, 7);
        auto const nblk  = c.rng.size(1, parts + 6);
        auto const kind  = static_cast<int>(c.rng.range(0, 9));
        auto const seed  = c.rng.u64();
        auto const cut   = c.rng.size(0, block + 1);
        auto const row   = c.rng.size(0, parts - 1);
        auto s           = Spectra<C>{parts, block + 1, {}};
        auto const level = static_cast<T>(std::pow(10.0, c.rng.pick(0.0, 0.0, 0.0, -3.0, -8.0, -12.0, 2.0)));
        auto const masks = row_masks(c.rng, parts, block + 1);
        auto const keep  = Mask{[=, &s](std::size_t r, std::size_t k) -> bool {
            switch (kind) {
                case 0: return true;
                case 1: return false;
                case 2: return k < cut;
                case 3: return r != row;
                case 4: return k >= cut && r <= row;
                case 5: return std::abs(to_ld(s.v[r * (block + 1) + k])) < 0.1L * level;
                case 6: return std::abs(to_ld(s.v[r * (block + 1) + k])) >= 0.1L * level;
                case 7: return k != cut;
                case 8: return masks[r * (block + 1) + k] != 0;
                default: return mix(seed ^ (r * 7919 + k)) % 3 != 0;
            }
        }};
        auto const use_mask = is_sparse<Conv>;
        int cls{};
        for (std::size_t p = 0; p < parts; ++p) {
            auto const v = complex_signal<C>(c.rng, block + 1, cls, false);
            auto const k = static_cast<T>(1.0L / std::max(norm2(to_ld(v)), 1e-12L)) * level;
            for (auto z : v) {
                s.v.push_back(C{z.real() * k, z.imag() * k});
            }
        }
        auto const x = audio<T>(c.rng, nblk * block, cls);
        c.desc("%s block=%zu partitions=%zu blocks=%zu mask=%d stream=%lld", name, block, parts, nblk, kind, c.index);
        auto conv = Conv{};
        auto asked = std::vector<char>(parts * (block + 1));
        auto const seen = std::function<void(std::size_t, std::size_t, bool)>{[&](std::size_t r, std::size_t k, bool value_ok) {
            c.check(r < parts && k <= block, "predicate_position", [&] { return str("(%zu,%zu) of %zux%zu", r, k, parts, block + 1); });
            c.check(value_ok, "predicate_value", [&] { return str("at (%zu,%zu)", r, k); });
            if (r < parts && k <= block) {
                asked[r * (block + 1) + k] = 1;
            }
        }};
        set_filter(conv, s, use_mask ? keep : Mask{}, &seen);
        if (use_mask) {
            c.check(std::all_of(asked.begin(), asked.end(), [](char a) { return a != 0; }), "predicate_skipped");
        }
        auto ref   = RefBlockConv{block, {}, Save};
        auto hnorm = 0.0L;
        auto kept  = std::size_t{0};
        for (std::size_t p = 0; p < parts; ++p) {
            auto f = std::vector<cld>(block + 1);
            for (std::size_t k = 0; k <= block; ++k) {
                if (!use_mask || keep(p, k)) {
                    f[k] = to_ld(s.v[p * (block + 1) + k]);
                    hnorm += std::norm(f[k]);
                    ++kept;
                }
            }
            ref.filter.push_back(f);
        }
        auto st   = Stream<T>{x};
        auto want = std::vector<ld>{};
        while (st.left() > 0) {
            auto in = std::vector<ld>(x.begin() + static_cast<std::ptrdiff_t>(st.pos), x.begin() + static_cast<std::ptrdiff_t>(st.pos + block));
            auto o  = ref(in);
            want.insert(want.end(), o.begin(), o.end());
            st.step(c, conv, block);
        }
        compare(c, st.y, want, conv_tol<T>(block, parts * block, norm_of(x), std::sqrt(hnorm)), use_mask ? "masked_dense" : "arbitrary_spectrum");
        c.count(str("mask.%d", kind));
        c.count("kept_bins", kept);
    });
}

/// more bins than a 16 bit column index can hold
auto long_blocks() -> void
{
    section("long_blocks", 4, 24, [](Case& c) {
        auto const order = (fast_build ? 15U : 13U) + static_cast<std::size_t>(c.index / 2 % 2);
        if (c.index % 2 == 0) {
            grand<nc::sparse_upols_convolver<std::complex<float>>>(c, "sparse_upols<cf>", order);
        } else {
            grand<nc::sparse_upola_convolver<std::complex<double>>>(c, "sparse_upola<cd>", order);
        }
    }, 100);
}

auto body() -> void
{
    long_blocks();
    using F = std::complex<float>;
    using D = std::complex<double>;
    masked<nc::sparse_upols_convolver<F>, true>("sparse_upols<cf>", 150, 6000);
    masked<nc::sparse_upols_convolver<D>, true>("sparse_upols<cd>", 100, 4000);
    masked<nc::sparse_upola_convolver<F>, false>("sparse_upola<cf>", 100, 4000);
    masked<nc::sparse_upola_convolver<D>, false>("sparse_upola<cd>", 150, 6000);
    masked<nc::upols_convolver<F>, true>("upols<cf>", 60, 2000);
    masked<nc::upola_convolver<D>, false>("upola<cd>", 60, 2000);
    masked<nc::split_upols_convolver<F>, true>("split_upols<cf>", 60, 2000);
    masked<nc::split_upola_convolver<D>, false>("split_upola<cd>", 60, 2000);
}

}  // namespace

MON_MAIN(body)
