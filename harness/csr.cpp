// C20: the sparse matrix behaves like the dense matrix it stands for.
#include "views.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/container/csr_matrix.hpp>

#include <optional>

using namespace mon;

namespace {

template<typename T>
auto val(Rng& r) -> T
{
    if constexpr (std::is_integral_v<T>) {
        return static_cast<T>(r.range(-500, 500));
    } else {
        if constexpr (std::is_floating_point_v<T>) {
            if (r.chance(1, 25)) {
                using L = std::numeric_limits<T>;
                return r.pick(L::quiet_NaN(), L::infinity(), -L::infinity(), L::denorm_min(), L::max());
            }
        }
        return random_elem<T>(r);
    }
}

/// the same value; a NaN is one
template<typename T>
auto same_value(T const& a, T const& b) -> bool
{
    return a == b || (!(a == a) && !(b == b));
}

template<typename T>
using Model = std::map<std::pair<std::size_t, std::size_t>, T>;

template<typename T, typename M>
auto compare(Case& c, M const& m, Model<T> const& model, std::size_t rows, std::size_t cols, char const* when) -> void
{
    using I = typename M::index_type;
    c.check(m.rows() == rows && m.columns() == cols && m.size() == rows * cols && m.extent(0) == rows && m.extent(1) == cols, std::string{"shape_"} + when);
    c.check(std::size_t(m.extents().extent(0)) == rows && std::size_t(m.extents().extent(1)) == cols, std::string{"shape_"} + when);
    for (std::size_t i = 0; i < rows; ++i) {
        for (std::size_t j = 0; j < cols; ++j) {
            auto const it   = model.find({i, j});
            auto const want = it == model.end() ? T{} : it->second;
            auto const got  = m(static_cast<I>(i), static_cast<I>(j));
            c.check(same_value(got, want), std::string{"element_"} + when, [&] { return str("(%zu,%zu) stored=%d", i, j, int(it != model.end())); });
        }
    }
    // the storage: one entry per stored element, in its own row
    auto const& rp = m.row_container();
    auto const& cp = m.column_container();
    auto const& vp = m.value_container();
    auto ok        = rp.size() == rows + 1 && cp.size() == vp.size() && vp.size() == model.size() && std::size_t(rp.front()) == 0 && std::size_t(rp.back()) == vp.size();
    c.check(ok, std::string{"storage_size_"} + when, [&] { return str("rows %zu entries %zu/%zu model %zu", rp.size(), cp.size(), vp.size(), model.size()); });
    if (!ok) {
        return;
    }
    auto seen = std::set<std::pair<std::size_t, std::size_t>>{};
    for (std::size_t i = 0; i < rows; ++i) {
        c.check(rp[i] <= rp[i + 1], std::string{"storage_rows_"} + when);
        for (auto p = std::size_t(rp[i]) + 1; p < std::size_t(rp[i + 1]) && p < vp.size(); ++p) {
            c.check(cp[p - 1] < cp[p], std::string{"columns_ascending_"} + when, [&] { return str("row %zu entry %zu", i, p); });
        }
        for (auto p = std::size_t(rp[i]); p < std::size_t(rp[i + 1]) && p < vp.size(); ++p) {
            auto const key = std::pair<std::size_t, std::size_t>{i, std::size_t(cp[p])};
            auto const it  = model.find(key);
            c.check(seen.insert(key).second && it != model.end() && same_value(it->second, T(vp[p])), std::string{"storage_entry_"} + when, [&] { return str("entry %zu (%zu,%zu)", p, key.first, key.second); });
        }
    }
    c.count("entries_checked", vp.size());
}

template<typename M>
auto histories(char const* name, int quick, int thorough) -> void
{
    using T = typename M::value_type;
    using I = typename M::index_type;
    section(name, quick, thorough, [=](Case& c) {
        // the index type counts the stored elements: keep them within its range
        auto const edge = edge_size(c, 12, 600);
        auto const tall = c.rng.chance(1, 2);
        auto const imax = static_cast<std::size_t>(std::min<std::uint64_t>(std::numeric_limits<I>::max(), 1 << 20));
        auto const rows = std::min(edge != 0 && tall ? edge : c.rng.size(1, 10), imax - 1);
        auto const cols = std::min(edge != 0 && !tall ? edge : c.rng.size(1, 14), imax);
        if (rows * cols > 255) {
            c.count("more_than_255_positions");
        }
        auto const ctor = c.rng.chance(1, 2);
        auto const ops  = c.rng.size(0, 60);
        auto const lay  = static_cast<int>(c.rng.range(0, 3));
        auto const dens = rows * cols + ops > imax ? 0 : c.rng.range(0, 4);
        c.desc("%s %zux%zu ctor=%d layout=%d density=%lld/4 inserts=%zu stream=%lld", name, rows, cols, int(ctor), lay, (long long)dens, ops, c.index);
        auto model = Model<T>{};
        auto m     = M{};
        if (ctor) {
            auto d = Matrix<T>(rows, cols, lay, T(99));
            d.fill_with([&](auto, auto) { return val<T>(c.rng); });
            auto const kept = dens == 0 ? std::vector<char>(rows * cols) : row_masks(c.rng, rows, cols);
            auto keep       = [&](std::size_t r, std::size_t k) { return kept[r * cols + k] != 0; };
            auto const v    = d.values();
            d.with([&](auto view) {
                m = M{view, [&](I r, I k, T value) {
                          c.check(std::size_t(r) < rows && std::size_t(k) < cols && same_value(value, T(v[std::size_t(r) * cols + std::size_t(k)])), "predicate_arguments", [&] { return str("(%zu,%zu)", std::size_t(r), std::size_t(k)); });
                          return keep(std::size_t(r), std::size_t(k));
                      }};
            });
            for (std::size_t i = 0; i < rows; ++i) {
                for (std::size_t j = 0; j < cols; ++j) {
                    if (keep(i, j)) {
                        model[{i, j}] = v[i * cols + j];
                    }
                }
            }
            c.check(same_bits(d.values(), v) && d.gaps_intact(), "input_changed");
        } else {
            m = M(rows, cols);
        }
        compare<T>(c, m, model, rows, cols, "initial");
        auto old = m;
        auto const old_model = model;
        auto order = static_cast<int>(c.rng.range(0, 3));
        for (std::size_t o = 0; o < ops; ++o) {
            auto r = c.rng.size(0, rows - 1), k = c.rng.size(0, cols - 1);
            if (order == 1) {  // descending
                r = (rows * cols - 1 - o % (rows * cols)) / cols;
                k = (rows * cols - 1 - o % (rows * cols)) % cols;
            } else if (order == 2) {  // one row
                r = rows - 1;
            } else if (order == 3) {  // corners
                r = c.rng.chance(1, 2) ? 0 : rows - 1;
                k = c.rng.chance(1, 2) ? 0 : cols - 1;
            }
            auto const v = c.rng.chance(1, 10) ? T{} : val<T>(c.rng);
            c.count(model.count({r, k}) != 0 ? "overwrites" : "fresh_inserts");
            m.insert(static_cast<I>(r), static_cast<I>(k), v);
            model[{r, k}] = v;
            if (o % 7 == 6) {
                compare<T>(c, m, model, rows, cols, "after_insert");
            }
        }
        compare<T>(c, m, model, rows, cols, "final");
        compare<T>(c, old, old_model, rows, cols, "copy");
    });
}

/// extents and entry counts past 2^16: storage checked in full, reads sampled, also where narrow indices would alias
template<typename M>
auto giants(char const* name, int quick, int thorough) -> void
{
    using T = typename M::value_type;
    using I = typename M::index_type;
    section(name, quick, thorough, [=](Case& c) {
        auto const shape = c.index % 4;
        auto const rows  = shape == 0 ? c.rng.size(1, 2) : shape == 1 ? c.rng.size(66'000, 80'000) : shape == 2 ? c.rng.size(270, 330) : c.rng.size(3'500, 6'000);
        auto const cols  = shape == 0 ? c.rng.size(66'000, 140'000) : shape == 1 ? c.rng.size(1, 2) : shape == 2 ? c.rng.size(270, 330) : c.rng.size(2, 20);
        auto const dens  = c.rng.pick(0, 1, 4, 4);
        c.desc("%s %zux%zu density=%d/4 stream=%lld", name, rows, cols, dens, c.index);
        auto d          = Matrix<T>(rows, cols, static_cast<int>(c.rng.range(0, 3)), T(99));
        d.fill_with([&](auto, auto) { return val<T>(c.rng); });
        auto const v    = d.values();
        auto const kept = dens == 0 || dens == 4 ? std::vector<char>(rows * cols, dens == 4) : row_masks(c.rng, rows, cols);
        auto keep       = [&](std::size_t r, std::size_t k) { return kept[r * cols + k] != 0; };
        auto m          = M{};
        d.with([&](auto view) { m = M{view, [&](I r, I k, T) { return keep(std::size_t(r), std::size_t(k)); }}; });
        auto model = std::vector<std::optional<T>>(rows * cols);
        for (std::size_t i = 0; i < rows * cols; ++i) {
            if (keep(i / cols, i % cols)) {
                model[i] = v[i];
            }
        }
        auto const look = [&](std::size_t r, std::size_t k, char const* when) {
            auto const want = model[r * cols + k].value_or(T{});
            c.check(same_value(m(static_cast<I>(r), static_cast<I>(k)), want), std::string{"element_"} + when, [&] { return str("(%zu,%zu) stored=%d", r, k, int(model[r * cols + k].has_value())); });
        };
        auto const verify = [&](char const* when) {
            c.check(m.rows() == rows && m.columns() == cols, std::string{"shape_"} + when);
            auto const& rp = m.row_container();
            auto const& cp = m.column_container();
            auto const& vp = m.value_container();
            auto p         = std::size_t{0};
            auto good      = rp.size() == rows + 1 && cp.size() == vp.size();
            for (std::size_t i = 0; good && i < rows; ++i) {
                good = std::size_t(rp[i]) == p;
                for (std::size_t j = 0; good && j < cols; ++j) {
                    if (auto const& e = model[i * cols + j]; e) {
                        good = p < vp.size() && std::size_t(cp[p]) == j && same_value(T(vp[p]), *e);
                        ++p;
                    }
                }
            }
            good = good && std::size_t(rp.back()) == p && vp.size() == p;
            c.check(good, std::string{"storage_"} + when, [&] { return str("near entry %zu", p); });
            c.compared(p + 1);
            c.count("entries_checked", p);
        };
        verify("initial");
        for (auto o = 0; o < 60; ++o) {
            auto r = c.rng.size(0, rows - 1), k = c.rng.size(0, cols - 1);
            auto const nv = val<T>(c.rng);
            m.insert(static_cast<I>(r), static_cast<I>(k), nv);
            model[r * cols + k] = nv;
            look(r, k, "after_insert");
            for (auto step : {std::size_t{256}, std::size_t{65536}}) {  // where a narrow index would land
                if (k + step < cols) { look(r, k + step, "aliased"); }
                if (k >= step) { look(r, k - step, "aliased"); }
                if (r + step < rows) { look(r + step, k, "aliased"); }
                if (r >= step) { look(r - step, k, "aliased"); }
            }
            look(rows - 1, cols - 1, "last");
            look(c.rng.size(0, rows - 1), c.rng.size(0, cols - 1), "sampled");
        }
        verify("final");
        c.count("giant_matrices");
    });
}

auto body() -> void
{
    giants<neo::csr_matrix<float>>("giant<float>", 8, 80);
    giants<neo::csr_matrix<double, std::uint32_t>>("giant<double,u32>", 8, 80);
    giants<neo::csr_matrix<std::complex<float>, int>>("giant<cf,int>", 4, 40);
    histories<neo::csr_matrix<float>>("csr<float>", 150, 6000);
    histories<neo::csr_matrix<double, std::uint32_t>>("csr<double,u32>", 100, 4000);
    histories<neo::csr_matrix<std::complex<float>>>("csr<cf>", 100, 4000);
    histories<neo::csr_matrix<int, std::uint16_t>>("csr<int,u16>", 100, 4000);
    histories<neo::csr_matrix<float, std::uint8_t>>("csr<float,u8>", 100, 4000);
    histories<neo::csr_matrix<double, int>>("csr<double,int>", 60, 2000);
}

}  // namespace

MON_MAIN(body)
