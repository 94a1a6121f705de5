// C12: frequency delay lines hand back what was inserted last into a row (exactly, or within half a quantisation step when
// compressed), rows are independent, and the indexer pairs the block inserted k calls ago with filter part k.
#include "conv_check.hpp"
#include "views.hpp"

#include <neo/container/compressed_accessor.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/convolution/fdl_index.hpp>

using namespace mon;

namespace {

template<typename C>
auto spectrum_row(Rng& r, std::size_t n, bool exact = false) -> std::vector<C>
{
    using T = typename C::value_type;
    auto v  = std::vector<C>(n);
    auto k  = r.range(0, exact ? 8 : 5);
    for (auto& z : v) {
        auto one = [&] {
            switch (k) {
                case 0: return static_cast<T>(r.pick(-1.0, 1.0, 0.0, -0.0));
                case 1: return static_cast<T>(r.sym() * 0.01);
                case 2: return static_cast<T>(r.sym() * std::pow(10.0, -r.unit() * 30.0));  // every magnitude down to nothing
                case 6: return static_cast<T>(r.sym() * std::pow(10.0, r.unit() * 30.0));
                case 7: return static_cast<T>(r.pick(std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0), T(-0.0), std::numeric_limits<T>::epsilon()));
                default: return static_cast<T>(r.sym());
            }
        };
        auto const re = one();
        auto const im = one();
        z             = C{re, im};
    }
    return v;
}

/// insert/read histories of one delay line against a map of rows
template<typename Fdl, typename C, typename Read>
auto line(char const* name, int quick, int thorough, bool exact, ld step, Read read) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const giant = c.index % 25 == 13 ? 1 + c.index / 25 % 4 : 0;  // very many rows, or very long ones
        auto const edge = giant != 0 ? c.rng.pick(std::size_t{4098}, std::size_t{5000}, std::size_t{16400}) * (giant > 2 ? 16 / 3 : 1) : edge_size(c, 20, 1025);
        auto const rows = giant != 0 ? (giant % 2 == 0 ? edge : c.rng.size(1, 3)) : edge != 0 && c.rng.chance(1, 2) ? edge : c.rng.size(1, 9);
        auto const cols = giant != 0 && rows > 3 ? c.rng.size(1, 3) : edge != 0 && rows < 10 ? edge : c.rng.pick(std::size_t{1}, std::size_t{2}, std::size_t{5}, std::size_t{17}, std::size_t{33}, rows < 10 ? std::size_t{129} : std::size_t{3});
        auto const ops  = c.rng.size(1, edge != 0 ? 6 : 30);
        c.desc("%s rows=%zu cols=%zu ops=%zu stream=%lld", name, rows, cols, ops, c.index);
        auto fdl    = Fdl{stdex::dextents<std::size_t, 2>{rows, cols}};
        auto model  = std::vector<std::vector<C>>(rows, std::vector<C>(cols, C{}));
        auto verify = [&](Fdl const& f, std::vector<std::vector<C>> const& m, char const* key) {
            for (std::size_t i = 0; i < rows; ++i) {
                auto const got = read(f, i, cols);
                c.compared(cols);
                for (std::size_t k = 0; k < cols; ++k) {
                    auto const want = to_ld(m[i][k]);
                    auto const g    = to_ld(got[k]);
                    if (exact) {
                        if (!(g == want)) {
                            c.fail(key, str("row %zu bin %zu: got (%Lg,%Lg) want (%Lg,%Lg)", i, k, g.real(), g.imag(), want.real(), want.imag()));
                            return;
                        }
                    } else {
                        auto const tol = step * 0.5L + 4 * eps<float>();
                        auto const e   = std::max(std::abs(g.real() - want.real()), std::abs(g.imag() - want.imag()));
                        c.metric("quantisation_over_tol", e / tol);
                        if (!(e <= tol)) {
                            c.fail(key, str("row %zu bin %zu: got (%Lg,%Lg) want (%Lg,%Lg) tol %Lg", i, k, g.real(), g.imag(), want.real(), want.imag(), tol));
                            return;
                        }
                    }
                }
            }
        };
        verify(fdl, model, "fresh_line_not_zero");
        for (std::size_t o = 0; o < ops; ++o) {
            auto const row = c.rng.size(0, rows - 1);
            auto const x   = spectrum_row<C>(c.rng, cols, exact);
            auto const st  = c.rng.chance(1, 3) ? c.rng.stride() : std::size_t{1};
            auto in        = Buf<C>(cols, st, c.rng.size(0, 2));
            in.set(x);
            switch (c.rng.range(0, row < 256 ? 2 : 1)) {
                case 0: st == 1 ? fdl.insert(contiguous(in), row) : fdl.insert(strided(in), row); break;
                case 1: st == 1 ? fdl.insert(contiguous(in), static_cast<int>(row)) : fdl.insert(strided(in), static_cast<int>(row)); break;
                default: st == 1 ? fdl.insert(contiguous<C, int>(in), static_cast<std::uint8_t>(row)) : fdl.insert(strided(in), static_cast<std::uint8_t>(row));
            }
            c.check(same_bits(in.get(), x), "input_changed");
            c.check(in.intact(), "out_of_range_write");
            model[row] = x;
            c.count("inserts");
            verify(fdl, model, exact ? "row_value" : "row_value_quantised");
            if (c.rng.chance(1, 8)) {
                auto copy  = fdl;
                auto mcopy = model;
                auto y     = spectrum_row<C>(c.rng, cols, exact);
                auto b     = Buf<C>(cols);
                b.set(y);
                copy.insert(contiguous(b), std::size_t{0});
                mcopy[0] = y;
                verify(copy, mcopy, "copy");
                verify(fdl, model, "copy_disturbs_original");
                c.count("copies");
            }
        }
        c.check(true, "ran");
    });
}

template<typename C, typename I>
auto compressed(char const* name, int quick, int thorough) -> void
{
    using Fdl = nc::compressed_fdl<C, neo::scalar_complex<I>>;
    line<Fdl, C>(name, quick, thorough, false, 1.0L / std::numeric_limits<I>::max(), [](Fdl const& f, std::size_t i, std::size_t n) {
        auto const row = f[i];
        auto v         = std::vector<C>(n);
        for (std::size_t k = 0; k < n; ++k) {
            v[k] = row[k];
        }
        return v;
    });
}

/// the raw accessor: integer storage seen as floats, at every storage value
template<typename I, typename F>
auto accessor(char const* name) -> void
{
    section(name, 2, 4, [=](Case& c) {
        auto const rows = c.index % 2 == 0 ? std::size_t{1} : std::size_t{4};
        auto const n    = (std::size_t{1} << (8 * sizeof(I))) / rows;
        c.desc("%s every storage value, %zu rows", name, rows);
        auto raw = std::vector<I>(rows * n);
        for (std::size_t i = 0; i < raw.size(); ++i) {
            raw[i] = static_cast<I>(static_cast<std::int64_t>(i) + std::numeric_limits<I>::min());
        }
        using ext      = stdex::dextents<std::size_t, 2>;
        using nested   = stdex::default_accessor<I>;
        using accessor = neo::compressed_accessor<F, nested>;
        using map      = stdex::layout_right::mapping<ext>;
        auto const m   = stdex::mdspan<F, ext, stdex::layout_right, accessor>{raw.data(), map{ext{rows, n}}, accessor{nested{}}};
        auto const max = static_cast<ld>(std::numeric_limits<I>::max());
        for (std::size_t r = 0; r < rows; ++r) {
            auto const sub = stdex::submdspan(m, r, stdex::full_extent);
            for (std::size_t k = 0; k < n; ++k) {
                auto const want = static_cast<ld>(raw[r * n + k]) / max;
                auto const a    = static_cast<ld>(m(r, k));
                auto const b    = static_cast<ld>(sub[k]);
                auto const tol  = 2 * eps<F>() * std::max(1.0L, std::abs(want));
                if (!(std::abs(a - want) <= tol) || !(std::abs(b - want) <= tol)) {
                    c.fail("accessor_value", str("storage %d reads %Lg / %Lg, want %Lg", int(raw[r * n + k]), a, b, want));
                    return;
                }
            }
        }
        c.compared(2 * rows * n);
    });
}

/// Trace checker: the events one call emits, against the history of calls.
template<typename I>
auto indexer(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        auto const big = static_cast<std::size_t>(std::min<std::uint64_t>(300, std::numeric_limits<I>::max()));
        auto const n   = c.index < 20 ? static_cast<std::size_t>(c.index + 1) : c.index % 40 == 25 ? c.rng.size(1, 9) : (c.rng.chance(1, 6) ? big : c.rng.size(1, std::min<std::size_t>(big, 64)));
        auto const far = c.index % 40 == 25 && n < 20;  // past every 8 and 16 bit counter
        auto const len = far ? std::size_t{66000} + c.rng.size(0, 1000) : c.rng.size(1, 3 * n + 5);
        c.desc("%s segments=%zu calls=%zu stream=%lld", name, n, len, c.index);
        auto idx   = nc::fdl_index<I>{static_cast<I>(n)};
        auto when  = std::vector<long long>(n, -1);  // call in which the row was last written
        auto calls = 0LL;
        auto since = std::size_t{0};                 // calls since the last reset
        for (std::size_t t = 0; t < len; ++t) {
            if (!far && c.rng.chance(1, static_cast<int>(3 * n))) {
                idx.reset();
                since = 0;
                std::fill(when.begin(), when.end(), -1);
                c.count("resets");
            }
            if (c.rng.chance(1, 10)) {
                auto copy = idx;  // a copy carries on on its own
                copy([](I) {}, [](I, I) {});
                copy([](I) {}, [](I, I) {});
                c.count("copies");
            }
            auto copies = 0;
            auto bad    = std::string{};
            auto seen   = std::vector<char>(n);
            auto used   = std::vector<char>(n);
            auto order  = std::size_t{0};
            auto prev   = std::size_t{0};
            (void)prev;
            idx(
                [&](I row) {
                    ++copies;
                    if (order != 0) {
                        bad = "copy after a multiply";
                    }
                    if (static_cast<std::size_t>(row) >= n || row < I(0)) {
                        bad = "copy row out of range";
                        return;
                    }
                    if (static_cast<std::size_t>(row) != since % n) {
                        bad = str("copy row %zu in call %zu of %zu rows", static_cast<std::size_t>(row), since, n);
                    }
                    when[static_cast<std::size_t>(row)] = calls;
                },
                [&](I row, I part) {
                    ++order;
                    auto const r = static_cast<std::size_t>(row);
                    auto const p = static_cast<std::size_t>(part);
                    if (row < I(0) || part < I(0) || r >= n || p >= n) {
                        bad = str("pair (%zu,%zu) out of range", r, p);
                        return;
                    }
                    if (seen[r] != 0 || used[p] != 0) {
                        bad = str("row %zu or part %zu visited twice", r, p);
                    }
                    seen[r] = used[p] = 1;
                    if (when[r] >= 0 && static_cast<std::size_t>(calls - when[r]) != p) {
                        bad = str("row written %lld calls ago is paired with part %zu", calls - when[r], p);
                    }
                }
            );
            ++calls;
            ++since;
            c.count("index_events", 1 + order);
            c.check(copies == 1, "one_copy_per_call", [&] { return str("%d copies", copies); });
            c.check(order == n, "every_row_once", [&] { return str("%zu of %zu rows", order, n); });
            c.check(bad.empty(), "pairing", [&] { return bad; });
        }
    });
}

/// the whole convolver over a compressed delay line: linear convolution within the quantisation bound
template<typename Overlap, typename I>
auto compressed_stream(char const* name, int quick, int thorough) -> void
{
    section(name, quick, thorough, [=](Case& c) {
        using C    = neo::scalar_complex<float>;
        using Fdl  = nc::compressed_fdl<C, neo::scalar_complex<I>>;
        using Conv = nc::uniform_partitioned_convolver<Overlap, Fdl, nc::dense_filter<C>>;
        auto const block = std::size_t{1} << c.rng.size(1, 7);
        auto const parts = c.rng.size(1, 5);
        auto const hlen  = block * (parts - 1) + c.rng.size(1, block);
        int cls{};
        auto const h = audio<float>(c.rng, hlen, cls, true);
        auto x       = audio<float>(c.rng, block * c.rng.size(1, parts + 4), cls, true);
        for (auto& v : x) {
            v = v * 0.99F / static_cast<float>(2 * block);  // every spectral value stays within [-1, 1]
        }
        c.desc("%s block=%zu h=%zu x=%zu class=%d stream=%lld", name, block, hlen, x.size(), cls, c.index);
        auto const spec = partition_of<C>(h, block);
        auto conv       = Conv{};
        conv.filter(spec.view());
        auto s = Stream<float>{x};
        while (s.left() > 0) {
            s.step(c, conv, block);
        }
        auto sum = 0.0L;
        for (std::size_t p = 0; p < spec.parts; ++p) {
            for (std::size_t k = 0; k < spec.bins; ++k) {
                sum += (k == 0 || k + 1 == spec.bins ? 1 : 2) * std::abs(to_ld(spec.v[p * spec.bins + k]));
            }
        }
        auto const q   = 0.7072L / std::numeric_limits<I>::max();
        auto const mul = std::is_same_v<Overlap, nc::overlap_add<C>> ? 2.0L : 1.0L;  // overlap-add sums two block tails
        auto const tol = mul * q * sum / static_cast<ld>(2 * block) + conv_tol<float>(block, h.size(), norm_of(x), norm_of(h));
        compare(c, s.y, convolve_ref(x, h), tol, "compressed_stream");
    });
}

}  // namespace

static auto body() -> void
{
    using C  = std::complex<float>;
    using D  = std::complex<double>;
    using S  = neo::scalar_complex<float>;
    using SD = neo::scalar_complex<double>;
    auto whole = []<typename F, typename E>(F const& f, std::size_t i, std::size_t n, E) {
        auto const row = f[i];
        auto v         = std::vector<E>(n);
        for (std::size_t k = 0; k < n; ++k) {
            v[k] = row[k];
        }
        return v;
    };
    auto split = []<typename F, typename E>(F const& f, std::size_t i, std::size_t n, E) {
        auto const row = f[i];
        auto v         = std::vector<E>(n);
        for (std::size_t k = 0; k < n; ++k) {
            v[k] = E{row.real[k], row.imag[k]};
        }
        return v;
    };
    line<nc::dense_fdl<C>, C>("dense.cf", 80, 3000, true, 0, [=](auto const& f, std::size_t i, std::size_t n) { return whole(f, i, n, C{}); });
    line<nc::dense_fdl<SD>, SD>("dense.sd", 80, 3000, true, 0, [=](auto const& f, std::size_t i, std::size_t n) { return whole(f, i, n, SD{}); });
    line<nc::dense_split_fdl<float>, C>("split.f", 80, 3000, true, 0, [=](auto const& f, std::size_t i, std::size_t n) { return split(f, i, n, C{}); });
    line<nc::dense_split_fdl<double>, SD>("split.d", 80, 3000, true, 0, [=](auto const& f, std::size_t i, std::size_t n) { return split(f, i, n, SD{}); });
    compressed<S, std::int8_t>("int8.s", 80, 3000);
    compressed<S, std::int16_t>("int16.s", 80, 3000);
    compressed<C, std::int8_t>("int8.c", 80, 3000);
    compressed<C, std::int16_t>("int16.c", 80, 3000);
    accessor<std::int8_t, float>("accessor.int8.f");
    accessor<std::int16_t, float>("accessor.int16.f");
    accessor<std::int16_t, double>("accessor.int16.d");
    indexer<std::size_t>("index.size", 200, 6000);
    indexer<int>("index.int", 120, 4000);
    indexer<unsigned>("index.unsigned", 80, 4000);
    indexer<std::ptrdiff_t>("index.ptrdiff", 80, 4000);
    indexer<std::uint8_t>("index.u8", 80, 4000);
    compressed_stream<nc::overlap_save<S>, std::int16_t>("stream.save16", 60, 2000);
    compressed_stream<nc::overlap_save<S>, std::int8_t>("stream.save8", 60, 2000);
    compressed_stream<nc::overlap_add<S>, std::int16_t>("stream.add16", 60, 2000);
}

MON_MAIN(body)
