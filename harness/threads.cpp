// C25: objects owned by different threads do not influence each other, and read-only inputs can be shared. Workers run at the
// same time first (so that anything initialised lazily is initialised under contention) and the same work is then repeated on
// one thread; results must agree bit for bit, and the race detector watches the concurrent phase.
#include "workload.hpp"

#include <neo/convolution/compressed_fdl.hpp>
#include <neo/fft/rfftfreq.hpp>
#include <neo/fft/twiddle.hpp>
#include <neo/math/windowing.hpp>
#include <neo/unit/mel.hpp>

#include <barrier>
#include <thread>

using namespace mon;

namespace {

struct Task
{
    std::size_t unit;
    std::uint64_t shape, input;
    std::size_t blocks;
};

auto perform(std::vector<Unit> const& all, Task const& t, bool jitter) -> std::vector<unsigned char>
{
    auto const& u = all[t.unit];
    auto r        = Rng{t.shape};
    auto o        = u.make(r);
    auto out      = std::vector<unsigned char>{};
    for (std::size_t i = 0; i < t.blocks; ++i) {
        auto q = Rng{t.input + i};
        o->load(q, 0);
        o->run();
        auto d = o->digest();
        out.insert(out.end(), d.begin(), d.end());
        if (jitter && mix(t.input + i) % 3 == 0) {
            std::this_thread::yield();
        }
    }
    return out;
}

/// read-only objects used by every worker at once
struct Shared
{
    std::vector<std::complex<float>> spectrum, other, third;
    std::vector<float> signal, patch;
    neo::csr_matrix<std::complex<float>> csr;
    nc::compressed_fdl<neo::scalar_complex<float>, neo::scalar_complex<std::int16_t>> fdl;
    nc::dense_fdl<std::complex<float>> dense;
    Spectra<std::complex<float>> parts;

    explicit Shared(Rng r)
        : spectrum(33), other(33), third(33), signal(200), patch(40)
        , fdl{stdex::dextents<std::size_t, 2>{4, 33}}
        , dense{stdex::dextents<std::size_t, 2>{4, 33}}
    {
        fill_cplx(r, 0, spectrum);
        fill_cplx(r, 0, other);
        fill_cplx(r, 0, third);
        fill_real(r, 0, signal);
        fill_real(r, 0, patch);
        auto m = std::vector<std::complex<float>>(4 * 33);
        fill_cplx(r, 0, m);
        auto const mv = stdex::mdspan<std::complex<float> const, stdex::dextents<std::size_t, 2>>{m.data(), stdex::dextents<std::size_t, 2>{4, 33}};
        csr = neo::csr_matrix<std::complex<float>>{mv, [](auto i, auto j, auto) { return (i + j) % 2 == 0; }};
        auto s = std::vector<neo::scalar_complex<float>>(33);
        fill_cplx(r, 0, s);
        for (std::size_t i = 0; i < 4; ++i) {
            fdl.insert(cvec(s), i);
            dense.insert(cvec(spectrum), i);
        }
        parts = partition_of<std::complex<float>>(signal, 32);
    }
};

auto use_shared(Shared const& s, std::uint64_t seed) -> std::vector<unsigned char>
{
    auto r   = Rng{seed};
    auto out = std::vector<std::complex<float>>(33);
    auto d   = std::vector<unsigned char>{};
    auto put = [&](auto const& v) { auto b = bytes_of(v); d.insert(d.end(), b.begin(), b.end()); };
    switch (r.range(0, 14)) {
        case 0: neo::multiply_add(cvec(s.spectrum), cvec(s.other), cvec(s.third), vec(out)); break;
        case 1: neo::multiply(cvec(s.spectrum), cvec(s.other), vec(out)); neo::add(cvec(out), cvec(s.third), vec(out)); break;
        case 2: neo::multiply_add(cvec(s.spectrum), s.csr, static_cast<std::size_t>(r.range(0, 3)), cvec(s.third), vec(out)); break;
        case 3: {
            auto const row = s.fdl[static_cast<std::size_t>(r.range(0, 3))];
            for (std::size_t k = 0; k < 33; ++k) {
                auto const z = row[k];
                out[k]       = {z.real(), z.imag()};
            }
            break;
        }
        case 4: {
            auto const row = s.dense[static_cast<std::size_t>(r.range(0, 3))];
            neo::copy(row, vec(out));
            break;
        }
        case 5: {
            auto const y = nc::fft_convolve(cvec(s.signal), cvec(s.patch));
            put(std::vector<float>(y.container().begin(), y.container().end()));
            break;
        }
        case 6: {
            auto const y = nc::direct_convolve(cvec(s.signal), cvec(s.patch));
            put(std::vector<float>(y.container().begin(), y.container().end()));
            break;
        }
        case 7: {
            // element access, also of entries that are not stored
            auto const& m = s.csr;
            for (std::size_t i = 0; i < m.rows(); ++i) {
                for (std::size_t k = 0; k < m.columns(); ++k) {
                    out[k] += m(i, k);
                }
            }
            put(std::vector<std::size_t>{m.rows(), m.columns(), m.size()});
            put(std::vector<std::complex<float>>(m.value_container().begin(), m.value_container().end()));
            break;
        }
        case 8: {
            auto const n  = r.size(2, 70);
            auto const w1 = neo::generate_window<float>(n);
            auto const w2 = neo::generate_window<float, neo::hamming_window<float>>(n + r.size(0, 1));
            auto const lut = neo::fft::make_twiddle_lut_radix2<std::complex<float>>(std::size_t{1} << r.size(1, 6), neo::fft::direction::forward);
            auto mels      = std::vector<float>(n);
            auto bins      = std::vector<float>(n);
            neo::mel_frequencies(vec(mels), 20.0F, 20000.0F);
            neo::rfftfreq(vec(bins), 1.0 / 48000.0);
            put(mels), put(bins);
            put(std::vector<std::complex<float>>(lut.container().begin(), lut.container().end()));
            put(std::vector<float>(w1.container().begin(), w1.container().end()));
            put(std::vector<float>(w2.container().begin(), w2.container().end()));
            break;
        }
        case 9: {
            auto const frame = r.size(4, 40);
            auto const y     = neo::fft::stft(stdex::mdspan<float const, stdex::dextents<std::size_t, 2>>{s.signal.data(), stdex::dextents<std::size_t, 2>{2, 100}}, frame);
            put(std::vector<std::complex<float>>(y.container().begin(), y.container().end()));
            break;
        }
        case 10: {
            auto const block = std::size_t{1} << r.size(1, 5);
            auto const y     = nc::uniform_partition(stdex::mdspan<float const, stdex::dextents<std::size_t, 2>>{s.signal.data(), stdex::dextents<std::size_t, 2>{2, 100}}, block);
            put(std::vector<std::complex<float>>(y.container().begin(), y.container().end()));
            break;
        }
        case 11: neo::fft::dft(cvec(s.spectrum), vec(out), r.chance(1, 2) ? neo::fft::direction::forward : neo::fft::direction::backward); break;
        case 12: {
            put(std::vector<double>{neo::mean(cvec(s.signal)).value_or(0), neo::variance(cvec(s.signal)).value_or(0), neo::standard_deviation(cvec(s.signal)).value_or(0), neo::mean_squared_error(cvec(s.signal), cvec(s.signal))});
            put(std::vector<int>{neo::allclose(cvec(s.spectrum), cvec(s.other)) ? 1 : 0});
            auto lo = std::vector<std::complex<float>>(17);
            auto hi = std::vector<std::complex<float>>(17);
            neo::fft::rfft_deinterleave(cvec(s.other), vec(lo), vec(hi));
            put(lo), put(hi);
            break;
        }
        case 13: {
            auto conv = nc::sparse_upola_convolver<std::complex<float>>{};
            conv.filter(s.parts.view(), [](auto i, auto k, auto) { return (i + k) % 3 != 0; });
            auto x = std::vector<float>(s.signal.begin(), s.signal.begin() + 32);
            conv(vec(x));
            put(x);
            break;
        }
        default: {
            // several convolvers built from one partitioned response
            auto conv = nc::upols_convolver<std::complex<float>>{};
            conv.filter(s.parts.view());
            auto x = std::vector<float>(s.signal.begin(), s.signal.begin() + 32);
            conv(vec(x));
            put(x);
        }
    }
    put(out);
    return d;
}

auto body() -> void
{
    auto const all = units();
    section("workers", 280, 6000, [&](Case& c) {
        auto const workers = c.rng.size(2, 8);
        auto const rounds  = c.rng.size(2, 5);
        auto const focus   = c.rng.chance(2, 3);  // all workers on the same kind of object
        auto const kind    = static_cast<std::size_t>(c.index) % all.size();
        auto tasks         = std::vector<std::vector<Task>>(workers);
        for (auto& list : tasks) {
            for (std::size_t i = 0; i < rounds; ++i) {
                list.push_back({focus ? kind : c.rng.size(0, all.size() - 1), c.rng.u64(), c.rng.u64(), c.rng.size(1, 4)});
            }
        }
        auto const same = c.rng.chance(1, 3);
        if (same) {
            for (auto& list : tasks) {
                list = tasks[0];  // identical work everywhere: shared caches collide
            }
        }
        c.desc("%s workers=%zu rounds=%zu same=%d stream=%lld", focus ? all[kind].name.c_str() : "mixed", workers, rounds, int(same), c.index);
        auto got   = std::vector<std::vector<std::vector<unsigned char>>>(workers);
        auto start = std::barrier<>(static_cast<std::ptrdiff_t>(workers));
        auto pool  = std::vector<std::thread>{};
        for (std::size_t w = 0; w < workers; ++w) {
            pool.emplace_back([&, w] {
                start.arrive_and_wait();
                for (auto const& t : tasks[w]) {
                    got[w].push_back(perform(all, t, true));
                }
            });
        }
        for (auto& t : pool) {
            t.join();
        }
        for (std::size_t w = 0; w < workers; ++w) {
            for (std::size_t i = 0; i < tasks[w].size(); ++i) {
                c.check(got[w][i] == perform(all, tasks[w][i], false), "result_differs_across_threads", [&] {
                    return str("%s worker %zu round %zu", all[tasks[w][i].unit].name.c_str(), w, i);
                });
            }
        }
        c.count("threads_run", workers);
        c.count("concurrent_tasks", workers * rounds);
        c.count(focus ? "unit." + all[kind].name : "unit.mixed");
    });

    // every worker continues a copy of one object nobody changes; some copy inside their thread, while others copy too
    section("copies_of_one", static_cast<long long>(all.size()) * 3, static_cast<long long>(all.size()) * 80, [&](Case& c) {
        auto const& u      = all[static_cast<std::size_t>(c.index) % all.size()];
        auto const workers = c.rng.size(2, 8);
        auto const blocks  = c.rng.size(1, 5);
        c.desc("copies of %s workers=%zu blocks=%zu stream=%lld", u.name.c_str(), workers, blocks, c.index);
        auto const first = u.make(c.rng);
        for (std::size_t i = 0, n = c.rng.size(0, 3); i < n; ++i) {
            first->load(c.rng, 0);
            first->run();
        }
        Obj const& original = *first;
        auto const seed     = c.rng.u64();
        auto const drive    = [&](Obj& o, std::size_t w) {
            auto out = std::vector<unsigned char>{};
            for (std::size_t i = 0; i < blocks; ++i) {
                auto q = Rng{seed + w * 100 + i};
                o.load(q, 0);
                o.run();
                auto d = o.digest();
                out.insert(out.end(), d.begin(), d.end());
            }
            return out;
        };
        auto got   = std::vector<std::vector<unsigned char>>(workers);
        auto early = std::vector<std::unique_ptr<Obj>>(workers);
        for (std::size_t w = 0; w < workers; w += 2) {
            early[w] = original.clone();
        }
        auto start = std::barrier<>(static_cast<std::ptrdiff_t>(workers));
        auto pool  = std::vector<std::thread>{};
        for (std::size_t w = 0; w < workers; ++w) {
            pool.emplace_back([&, w] {
                start.arrive_and_wait();
                auto mine = early[w] != nullptr ? std::move(early[w]) : original.clone();
                got[w]    = drive(*mine, w);
            });
        }
        for (auto& t : pool) {
            t.join();
        }
        for (std::size_t w = 0; w < workers; ++w) {
            auto const again = original.clone();
            c.check(got[w] == drive(*again, w), "copy_result_differs_across_threads", [&] { return str("%s worker %zu", u.name.c_str(), w); });
        }
        c.count("threads_run", workers);
        c.count("concurrent_copies", workers);
    });

    section("shared_inputs", 160, 4000, [&](Case& c) {
        auto const workers = c.rng.size(2, 8);
        auto const rounds  = c.rng.size(4, 16);
        c.desc("shared read-only inputs workers=%zu rounds=%zu stream=%lld", workers, rounds, c.index);
        auto const shared = Shared{Rng{c.rng.u64()}};
        auto const base   = c.rng.u64();
        auto got          = std::vector<std::vector<std::vector<unsigned char>>>(workers);
        auto start        = std::barrier<>(static_cast<std::ptrdiff_t>(workers));
        auto pool         = std::vector<std::thread>{};
        for (std::size_t w = 0; w < workers; ++w) {
            pool.emplace_back([&, w] {
                start.arrive_and_wait();
                for (std::size_t i = 0; i < rounds; ++i) {
                    got[w].push_back(use_shared(shared, base + i));
                }
            });
        }
        for (auto& t : pool) {
            t.join();
        }
        for (std::size_t i = 0; i < rounds; ++i) {
            auto const want = use_shared(shared, base + i);
            for (std::size_t w = 0; w < workers; ++w) {
                c.check(got[w][i] == want, "shared_input_result_differs", [&] { return str("worker %zu round %zu", w, i); });
            }
        }
        c.count("threads_run", workers);
        c.count("shared_reads", workers * rounds);
    });
}

}  // namespace

MON_MAIN(body)
