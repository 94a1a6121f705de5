// C07: a convolver's output depends only on its current filter and what it was fed since: re-filtering starts
// afresh, instances do not influence each other, a copy carries on from the same history.
#include "conv_check.hpp"

#include <optional>

using namespace mon;

namespace {

template<typename T>
struct Job
{
    std::size_t block{};
    std::vector<T> h, x;
};

template<typename T>
auto make_job(Case& c, std::size_t max_order) -> Job<T>
{
    auto j           = Job<T>{};
    j.block          = std::size_t{1} << c.rng.size(1, max_order);
    auto const parts = c.rng.size(1, 7);
    auto const hlen  = j.block * (parts - 1) + c.rng.size(1, j.block);
    int cls{};
    j.h = audio<T>(c.rng, hlen, cls);
    j.x = audio<T>(c.rng, j.block * c.rng.size(1, parts + 5), cls);
    return j;
}

template<typename T>
auto verdict(Case& c, Job<T> const& j, std::vector<T> const& y, char const* key) -> void
{
    compare(c, y, convolve_ref(j.x, j.h), conv_tol<T>(j.block, j.h.size(), norm_of(j.x), norm_of(j.h)), key);
}

template<typename Conv>
auto states(char const* name, int quick, int thorough) -> void
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    static std::vector<std::unique_ptr<std::string>> keep;
    auto nm = [&](char const* k) { return keep.emplace_back(std::make_unique<std::string>(std::string{name} + "." + k))->c_str(); };

    section(nm("refilter"), quick, thorough, [=](Case& c) {
        auto conv        = Conv{};
        auto const turns = c.rng.size(2, 5);
        c.desc("%s turns=%zu stream=%lld", name, turns, c.index);
        auto last_block = std::size_t{0};
        for (std::size_t t = 0; t < turns; ++t) {
            auto j = make_job<T>(c, 6);
            if (t > 0 && c.rng.chance(1, 3)) {
                // same block size, other response
                auto const n = std::max<std::size_t>(1, j.x.size() / j.block);
                j.block      = last_block;
                int cls{};
                j.x = audio<T>(c.rng, j.block * n, cls);
            }
            last_block = j.block;
            // silence, or a sparse filter of which only the first partitions (none, some, all) are kept
            if (c.rng.chance(1, 8)) {
                std::fill(j.h.begin(), j.h.end(), T(0));
                c.count("silent_response");
            }
            auto const kept = is_sparse<Conv> && c.rng.chance(1, 3) ? c.rng.size(0, (j.h.size() - 1) / j.block) : std::size_t{1} << 40U;
            set_filter(conv, partition_of<C>(j.h, j.block), Mask{[kept](std::size_t r, std::size_t) { return r < kept; }});
            if (kept * j.block < j.h.size()) {
                std::fill(j.h.begin() + static_cast<std::ptrdiff_t>(kept * j.block), j.h.end(), T(0));
                c.count("partly_kept");
            }
            auto s = Stream<T>{j.x};
            while (s.left() > 0) {
                // the chunked kind may stop in the middle of a block
                auto const n = is_chunked<Conv> && s.left() > 2 * j.block ? j.block + c.rng.size(0, j.block - 1) : j.block;
                if (is_chunked<Conv> && s.left() < j.block) {
                    break;
                }
                s.step(c, conv, n);
            }
            auto k = j;
            k.x.resize(s.pos);
            auto y = s.y;
            y.resize(s.pos);
            verdict(c, k, y, t == 0 ? "first_use" : "after_refilter");
            c.count("refilters");
        }
    });

    // one convolver given a long series of responses, most of them as long as the one before
    section(nm("many_refilters"), 2, 60, [=](Case& c) {
        auto conv        = Conv{};
        auto const turns = c.rng.size(260, 300);
        c.desc("%s turns=%zu stream=%lld", name, turns, c.index);
        auto block = std::size_t{2}, hlen = std::size_t{5};
        for (std::size_t t = 0; t < turns; ++t) {
            if (c.rng.chance(1, 10)) {
                block = std::size_t{1} << c.rng.size(1, 3);
                hlen  = c.rng.size(1, 4 * block);
            }
            int cls{};
            auto j  = Job<T>{};
            j.block = block;
            j.h     = audio<T>(c.rng, hlen, cls);
            j.x     = audio<T>(c.rng, block * c.rng.size(1, hlen / block + 3), cls);
            set_filter(conv, partition_of<C>(j.h, block));
            auto s = Stream<T>{j.x};
            while (s.left() > 0) {
                s.step(c, conv, block);
            }
            verdict(c, j, s.y, "many_refilters");
        }
        c.count("refilters", turns);
    });

    section(nm("interleaved"), quick, thorough, [=](Case& c) {
        auto const n = c.rng.size(2, 4);
        c.desc("%s instances=%zu stream=%lld", name, n, c.index);
        auto jobs    = std::vector<Job<T>>{};
        auto convs   = std::vector<Conv>(n);
        auto streams = std::vector<Stream<T>>{};
        for (std::size_t i = 0; i < n; ++i) {
            jobs.push_back(make_job<T>(c, 5));
            set_filter(convs[i], partition_of<C>(jobs[i].h, jobs[i].block));
            streams.emplace_back(jobs[i].x);
        }
        for (auto busy = true; busy;) {
            busy = false;
            for (std::size_t i = 0; i < n; ++i) {
                if (streams[i].left() > 0 && c.rng.chance(2, 3)) {
                    streams[i].step(c, convs[i], jobs[i].block);
                }
                busy = busy || streams[i].left() > 0;
            }
        }
        for (std::size_t i = 0; i < n; ++i) {
            verdict(c, jobs[i], streams[i].y, "instances_independent");
        }
    });

    section(nm("copy"), quick, thorough, [=](Case& c) {
        auto j = make_job<T>(c, 5);
        c.desc("%s copy block=%zu stream=%lld", name, j.block, c.index);
        auto a  = Conv{};
        auto sa = Stream<T>{j.x};
        set_filter(a, partition_of<C>(j.h, j.block));
        auto const split = c.rng.size(0, j.x.size() / j.block);
        for (std::size_t i = 0; i < split; ++i) {
            sa.step(c, a, j.block);
        }
        // the copy takes another continuation
        auto b  = a;
        auto jb = j;
        auto sb = sa;
        int cls{};
        auto const tail = audio<T>(c.rng, j.x.size() - sa.pos, cls);
        std::copy(tail.begin(), tail.end(), jb.x.begin() + static_cast<std::ptrdiff_t>(sa.pos));
        sb.x = jb.x;
        while (sa.left() > 0 || sb.left() > 0) {
            if (sa.left() > 0 && c.rng.chance(1, 2)) {
                sa.step(c, a, j.block);
            }
            if (sb.left() > 0 && c.rng.chance(1, 2)) {
                sb.step(c, b, j.block);
            }
        }
        verdict(c, j, sa.y, "original_after_copy");
        verdict(c, jb, sb.y, "copy_continues");
        // moved-to instances keep working too
        auto m  = std::move(b);
        auto k  = make_job<T>(c, 4);
        auto sk = Stream<T>{k.x};
        set_filter(m, partition_of<C>(k.h, k.block));
        while (sk.left() > 0) {
            sk.step(c, m, k.block);
        }
        verdict(c, k, sk.y, "after_move_refilter");
    });

    // a copy (made new, or assigned over a convolver in use) or a moved-to convolver carries on when the original is gone or serves another response
    section(nm("successor"), quick, thorough, [=](Case& c) {
        auto const j    = make_job<T>(c, 5);
        auto const how  = static_cast<int>(c.index % 4);
        auto const then = c.rng.range(0, 2);
        c.desc("%s successor=%d then=%lld block=%zu stream=%lld", name, how, (long long)then, j.block, c.index);
        auto a = std::optional<Conv>{std::in_place};
        auto s = Stream<T>{j.x};
        set_filter(*a, partition_of<C>(j.h, j.block));
        auto const split = c.rng.size(0, j.x.size() / j.block);
        for (std::size_t i = 0; i < split; ++i) {
            s.step(c, *a, j.block);
        }
        auto serve = [&](Conv& v) {
            auto const k = make_job<T>(c, 3);
            auto sk      = Stream<T>{k.x};
            set_filter(v, partition_of<C>(k.h, k.block));
            while (sk.left() > 0) {
                sk.step(c, v, k.block);
            }
            verdict(c, k, sk.y, "another_response");
        };
        auto b = std::optional<Conv>{};
        if (how == 0) {
            b.emplace(*a);
        } else if (how == 1) {
            b.emplace();
            serve(*b);
            *b = *a;
        } else if (how == 2) {
            b.emplace(std::move(*a));
        } else {
            b.emplace();
            serve(*b);
            *b = std::move(*a);
        }
        if (then == 0) {
            a.reset();
        } else if (then == 1) {
            serve(*a);
        }
        while (s.left() > 0) {
            s.step(c, *b, j.block);
        }
        verdict(c, j, s.y, "successor_continues");
        c.count("successors");
    });
}

auto body() -> void
{
    using F = std::complex<float>;
    using D = std::complex<double>;
    states<nc::upols_convolver<F>>("upols<cf>", 30, 1200);
    states<nc::upola_convolver<D>>("upola<cd>", 30, 1200);
    states<nc::upola_convolver_v2<F>>("upola_v2<cf>", 40, 1200);
    states<nc::split_upols_convolver<D>>("split_upols<cd>", 30, 1200);
    states<nc::split_upola_convolver<F>>("split_upola<cf>", 30, 1200);
    states<nc::sparse_upols_convolver<F>>("sparse_upols<cf>", 30, 1200);
    states<nc::sparse_upola_convolver<D>>("sparse_upola<cd>", 30, 1200);
}

}  // namespace

MON_MAIN(body)
