// C26: once an object is set up, its processing calls do not touch the heap.
#include <cstddef>
#include <malloc.h>
#include <mm_malloc.h>
#include <cstdlib>
namespace watch {
inline thread_local bool on                 = false;
inline thread_local unsigned long long hits = 0;
inline thread_local std::size_t last        = 0;
inline auto see(std::size_t n) -> void
{
    if (on) {
        ++hits;
        last = n;
    }
}
}  // namespace watch

// every way C++ code reaches the heap on this platform ends in one of these
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
void __libc_free(void*);
void* malloc(std::size_t n) noexcept { watch::see(n); return __libc_malloc(n); }
void* calloc(std::size_t a, std::size_t b) noexcept { watch::see(a * b); return __libc_calloc(a, b); }
void* realloc(void* p, std::size_t n) noexcept { watch::see(n); return __libc_realloc(p, n); }
void* memalign(std::size_t a, std::size_t n) noexcept { watch::see(n); return __libc_memalign(a, n); }
void* aligned_alloc(std::size_t a, std::size_t n) noexcept { watch::see(n); return __libc_memalign(a, n); }
int posix_memalign(void** o, std::size_t a, std::size_t n) noexcept { watch::see(n); *o = __libc_memalign(a, n); return *o ? 0 : 12; }
void free(void* p) noexcept { if (p != nullptr) { watch::see(0); } __libc_free(p); }
}

#include "workload.hpp"

#include <ctime>

using namespace mon;

namespace {

auto body() -> void
{
    auto quiet = std::vector<Unit>{};
    for (auto const& u : units()) {
        if (!u.allocates) {
            quiet.push_back(u);
        }
    }
    section("watcher_selfcheck", 1, 1, [](Case& c) {
        c.desc("the heap watcher sees operator new and malloc");
        watch::hits = 0;
        watch::on   = true;
        auto* volatile p = new int[4];
        delete[] p;
        auto* volatile q = std::malloc(8);
        std::free(q);
        watch::on = false;
        c.check(watch::hits == 4, "watcher_blind", [] { return str("%llu of 4", watch::hits); });
    });
    section("process", static_cast<long long>(quiet.size()) * 40, static_cast<long long>(quiet.size()) * 1000, [&](Case& c) {
        auto const& u = quiet[static_cast<std::size_t>(c.index) % quiet.size()];
        auto o        = u.make(c.rng);
        auto const n  = c.rng.size(1, 12);
        c.desc("%s calls=%zu stream=%lld", u.name.c_str(), n, c.index);
        for (std::size_t i = 0; i < n; ++i) {
            o->load(c.rng, c.rng.chance(1, 5) ? 1 : 0);
            watch::hits = 0;
            watch::on   = true;
            o->run();
            watch::on = false;
            c.check(watch::hits == 0, "heap_use", [&] { return str("%s call %zu: %llu heap operations, last of %zu bytes", u.name.c_str(), i, watch::hits, watch::last); });
            c.count("calls_watched");
        }
        c.count("unit." + u.name);
    });
    // long runs: an allocation every few hundred or tens of thousands of calls
    section("long_run", static_cast<long long>(quiet.size()), static_cast<long long>(quiet.size()) * 20, [&](Case& c) {
        auto const& u = quiet[static_cast<std::size_t>(c.index) % quiet.size()];
        auto o        = u.make(c.rng);
        o->load(c.rng, 0);
        auto const start = std::clock();
        auto done        = std::size_t{0};
        c.desc("%s long run stream=%lld", u.name.c_str(), c.index);
        watch::hits = 0;
        for (; done < 70000 && (done < 700 || std::clock() - start < CLOCKS_PER_SEC); done += 100) {
            watch::on = true;
            for (int i = 0; i < 100; ++i) {
                o->run();
            }
            watch::on = false;
            if (watch::hits != 0) {
                break;
            }
            o->load(c.rng, 0);
        }
        c.check(watch::hits == 0, "heap_use", [&] { return str("%s within %zu calls: %llu heap operations, last of %zu bytes", u.name.c_str(), done + 100, watch::hits, watch::last); });
        c.count("calls_watched", done);
    }, 100);
}

}  // namespace

MON_MAIN(body)
