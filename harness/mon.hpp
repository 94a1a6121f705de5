// Monitor runtime shared by every harness: seeded cases, violation records, coverage counters,
// crash/hang attribution, guarded buffers and strided views.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <span>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define MON_ASAN 1
    #endif
    #if __has_feature(thread_sanitizer)
        #define MON_TSAN 1
    #endif
#endif
#if defined(__SANITIZE_ADDRESS__)
    #define MON_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
    #define MON_TSAN 1
#endif
#if defined(MON_ASAN)
    #include <sanitizer/asan_interface.h>
#endif
#if defined(MON_ASAN) || defined(MON_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)());
#endif

namespace mon {

using ld = long double;

#if defined(MON_ASAN) || defined(MON_TSAN) || defined(MON_VALGRIND) || !defined(__OPTIMIZE__)
inline constexpr bool fast_build = false;
#else
inline constexpr bool fast_build = true;
#endif
inline constexpr ld pi_l = 3.141592653589793238462643383279502884L;

inline auto mix(std::uint64_t x) -> std::uint64_t
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

inline auto hash_str(std::string_view s) -> std::uint64_t
{
    auto h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return h;
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s{mix(seed ^ 0xabcdef1234567ULL)} {}
    auto u64() -> std::uint64_t { return s = mix(s + 0x632be59bd9b4e019ULL); }
    /// inclusive range
    template<typename A, typename B>
    auto range(A a, B b) -> std::int64_t
    {
        auto const lo = static_cast<std::int64_t>(a);
        auto const hi = static_cast<std::int64_t>(b);
        return lo + static_cast<std::int64_t>(u64() % static_cast<std::uint64_t>(hi - lo + 1));
    }
    auto size(std::size_t a, std::size_t b) -> std::size_t { return static_cast<std::size_t>(range(a, b)); }
    /// a distance between neighbouring elements of a strided view
    auto stride() -> std::size_t
    {
        constexpr std::size_t steps[] = {2, 2, 3, 3, 4, 5, 7, 8, 9, 16, 17};
        return steps[range(0, 10)];
    }
    auto step() -> std::size_t { return chance(1, 2) ? std::size_t{1} : stride(); }
    auto chance(int num, int den) -> bool { return range(1, den) <= num; }
    auto unit() -> double { return static_cast<double>(u64() >> 11) * 0x1p-53; }           // [0,1)
    auto sym() -> double { return unit() * 2.0 - 1.0; }                                    // [-1,1)
    auto normal() -> double
    {
        auto const u = std::max(unit(), 1e-300);
        return std::sqrt(-2.0 * std::log(u)) * std::cos(2.0 * 3.14159265358979323846 * unit());
    }
    template<typename... T>
    auto pick(T... v)
    {
        std::common_type_t<T...> a[] = {v...};
        return a[range(0, static_cast<int>(sizeof...(T)) - 1)];
    }
};

struct State
{
    std::string variant = "?";
    std::uint64_t seed  = 1;
    bool thorough       = false;
    double scale        = 1.0;
    std::size_t shard = 0, shards = 1;
    std::string only_section;
    long long only_case = -1;
    std::string sigs_path;

    // progress, read by the crash handlers
    char section[96] = "startup";
    long long index  = -1;
    char desc[512]   = "";
    bool in_case     = false;

    std::uint64_t evaluations = 0;
    std::uint64_t checks      = 0;
    std::set<std::uint64_t> sigs;
    std::map<std::string, std::uint64_t> counters;
    std::map<std::string, double> metrics;
    std::vector<std::string> samples;
    struct Viol
    {
        std::string key, section, desc, msg;
        long long index;
    };
    std::vector<Viol> viols;
    std::map<std::string, int> viol_count;
};

inline State g;
inline void (*cleanup_case)() = nullptr;

inline auto esc(std::string const& s) -> std::string
{
    auto o = std::string{};
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            o += '?';
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

inline void raw_out(char const* tag)
{
    // async-signal-safe enough: formats into a stack buffer and writes once
    char buf[1024];
    char d[512];
    std::size_t k = 0;
    for (std::size_t i = 0; g.desc[i] != 0 && k + 2 < sizeof d; ++i) {
        auto const c = g.desc[i];
        d[k++]       = (c == '"' || c == '\\' || static_cast<unsigned char>(c) < 32) ? '?' : c;
    }
    d[k]         = 0;
    auto const n = std::snprintf(
        buf, sizeof buf, "\n%s {\"section\":\"%s\",\"case\":%lld,\"in_case\":%d,\"desc\":\"%s\"}\n", tag, g.section, g.index,
        g.in_case ? 1 : 0, d
    );
    auto const r = ::write(1, buf, static_cast<std::size_t>(n));
    (void)r;
}

inline std::atomic<bool> crash_reported{false};

inline void on_signal(int sig)
{
    if (!crash_reported.exchange(true)) {
        raw_out(sig == SIGVTALRM ? "MON-HANG" : "MON-CRASH");
    }
    if (sig == SIGVTALRM) {
        ::_exit(97);
    }
    std::signal(sig, SIG_DFL);
    std::raise(sig);
}

inline void on_death()
{
    if (!crash_reported.exchange(true)) {
        raw_out("MON-CRASH");
    }
}

inline void arm(int seconds)
{
    auto t              = itimerval{};
#if defined(MON_VALGRIND)
    seconds *= 10;
#endif
    t.it_value.tv_sec   = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);  // CPU time: independent of machine load
}

struct Case
{
    Rng rng;
    long long index;
    bool nontrivial = false;
    std::string d;

    __attribute__((format(printf, 2, 3))) void desc(char const* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        char b[480];
        std::vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        d = b;
        std::snprintf(g.desc, sizeof g.desc, "%s", b);
    }

    /// One oracle decision. `key` names the class of violation, not the input.
    auto check(bool ok, std::string const& key, std::function<std::string()> const& msg) -> bool
    {
        ++g.checks;
        nontrivial = true;
        if (!ok) {
            fail(key, msg());
        }
        return ok;
    }
    auto check(bool ok, std::string const& key) -> bool
    {
        return check(ok, key, [] { return std::string{}; });
    }

    auto fail(std::string const& key, std::string const& msg) -> void
    {
        if (++g.viol_count[key] <= 3) {
            g.viols.push_back({key, g.section, d, msg, index});
        }
    }
    auto count(std::string const& name, std::uint64_t n = 1) -> void { g.counters[name] += n; }
    /// largest value seen in this run
    auto metric(std::string const& name, ld v) -> void
    {
        auto& m = g.metrics[name];
        m       = std::max(m, static_cast<double>(v));
    }
    /// n further oracle comparisons made in bulk
    auto compared(std::uint64_t n) -> void
    {
        g.checks += n;
        nontrivial = nontrivial || n > 0;
    }
};

template<typename... A>
auto str(char const* fmt, A... a) -> std::string
{
    char b[600];
    std::snprintf(b, sizeof b, fmt, a...);
    return b;
}

inline auto init(int argc, char** argv, char const* variant) -> void
{
    g.variant = variant;
    for (int i = 1; i < argc; ++i) {
        auto a   = std::string{argv[i]};
        auto nxt = [&] { return std::string{i + 1 < argc ? argv[++i] : ""}; };
        if (a == "--seed") {
            g.seed = std::stoull(nxt());
        } else if (a == "--tier") {
            g.thorough = nxt() == "thorough";
        } else if (a == "--scale") {
            g.scale = std::stod(nxt());
        } else if (a == "--shard") {
            auto s   = nxt();
            g.shard  = std::stoul(s);
            g.shards = std::stoul(s.substr(s.find('/') + 1));
        } else if (a == "--only") {
            auto s         = nxt();
            g.only_section = s.substr(0, s.rfind(':'));
            g.only_case    = std::stoll(s.substr(s.rfind(':') + 1));
        } else if (a == "--sigs") {
            g.sigs_path = nxt();
        }
    }
    std::signal(SIGVTALRM, on_signal);
    std::signal(SIGABRT, on_signal);
#if !defined(MON_ASAN) && !defined(MON_TSAN)
    std::signal(SIGSEGV, on_signal);
    std::signal(SIGBUS, on_signal);
    std::signal(SIGFPE, on_signal);
    std::signal(SIGILL, on_signal);
    std::signal(SIGTRAP, on_signal);
#endif
#if defined(MON_ASAN) || defined(MON_TSAN)
    __sanitizer_set_death_callback(on_death);
#endif
}

/// Lengths on both sides of the points where counters and indices of a narrower type wrap; every `every`-th case of a
/// section gets the next one, 0 otherwise.
inline auto edge_size(Case const& c, long long every, std::size_t limit = 70001) -> std::size_t
{
    static constexpr std::size_t sizes[] = {255, 70001, 300, 65537, 127, 513, 256, 1025, 129, 4097, 257, 511, 65536, 1023, 128, 2049, 1000, 32769, 512, 4096, 1024, 65535, 32767, 2047};
    if (c.index % every != every - 1) {
        return 0;
    }
    auto usable = std::size_t{0};
    for (auto s : sizes) {
        usable += s <= limit ? 1U : 0U;
    }
    auto k = static_cast<std::size_t>(c.index / every) % usable;
    for (auto s : sizes) {
        if (s <= limit && k-- == 0) {
            return s == 70001 && fast_build ? std::size_t{131073} << (static_cast<std::size_t>(c.index / every) / usable % 3) : s;
        }
    }
    return 0;
}

/// Which elements of a rows x cols matrix are stored: every row draws its own pattern (random density, full, empty, all
/// but one, a single one, prefix, suffix, a run, every n-th).
inline auto row_masks(Rng& rng, std::size_t rows, std::size_t cols) -> std::vector<char>
{
    auto out      = std::vector<char>(rows * cols);
    auto const uniform = rng.chance(1, 3) ? static_cast<int>(rng.range(0, 8)) : -1;
    for (std::size_t r = 0; r < rows; ++r) {
        auto const kind = uniform >= 0 ? uniform : static_cast<int>(rng.range(0, 8));
        auto const dens = rng.range(1, 7);
        auto const at   = rng.chance(1, 3) ? std::size_t{0} : rng.chance(1, 2) ? cols - 1 : rng.size(0, cols - 1);
        auto const to   = rng.size(at, cols - 1);
        auto const nth  = rng.size(2, 9);
        for (std::size_t k = 0; k < cols; ++k) {
            auto keep = false;
            switch (kind) {
                case 0: keep = rng.range(0, 7) < dens; break;
                case 1: keep = true; break;
                case 2: keep = false; break;
                case 3: keep = k != at; break;
                case 4: keep = k == at; break;
                case 5: keep = k <= at; break;
                case 6: keep = k >= at; break;
                case 7: keep = k >= at && k <= to; break;
                default: keep = k % nth == at % nth; break;
            }
            out[r * cols + k] = keep ? 1 : 0;
        }
    }
    return out;
}

/// Runs `quick` (or `thorough`) cases of one named section.
template<typename F>
auto section(char const* name, long long quick, long long thorough, F&& f, int cpu_limit = 25) -> void
{
    if (!g.only_section.empty() && g.only_section != name) {
        return;
    }
    auto total = g.thorough ? thorough : quick;
    if (g.scale != 1.0) {
        total = std::max<long long>(1, static_cast<long long>(static_cast<double>(total) * g.scale));
    }
    std::snprintf(g.section, sizeof g.section, "%s", name);
    for (long long i = 0; i < total; ++i) {
        if (g.only_case >= 0) {
            if (i != 0) {
                break;
            }
            i = g.only_case;
        } else if (static_cast<std::size_t>(i) % g.shards != g.shard) {
            continue;
        }
        auto c    = Case{Rng{mix(g.seed) ^ hash_str(name) ^ mix(static_cast<std::uint64_t>(i) + 77U)}, i};
        g.index   = i;
        g.desc[0] = 0;
        g.in_case = true;
        arm(cpu_limit);
        f(c);
        arm(0);
        g.in_case = false;
        ++g.evaluations;
        if (c.nontrivial) {
            g.sigs.insert(hash_str(g.variant + "|" + name + "|" + c.d));
        }
        ++g.counters[std::string{"cases."} + name];
        if (g.counters[std::string{"cases."} + name] <= 1 && g.samples.size() < 12) {
            g.samples.push_back(std::string{name} + "#" + std::to_string(i) + " " + c.d);
        }
        if (g.only_case >= 0) {
            break;
        }
    }
    std::snprintf(g.section, sizeof g.section, "%s", "between");
}

inline auto finish() -> int
{
    if (!g.sigs_path.empty()) {
        if (auto* f = std::fopen(g.sigs_path.c_str(), "wb"); f != nullptr) {
            for (auto h : g.sigs) {
                std::fwrite(&h, sizeof h, 1, f);
            }
            std::fclose(f);
        }
    }
    auto o = std::string{"MON-RESULT {"};
    o += "\"evaluations\":" + std::to_string(g.evaluations) + ",\"checks\":" + std::to_string(g.checks);
    o += ",\"distinct\":" + std::to_string(g.sigs.size());
    o += ",\"counters\":{";
    auto first = true;
    for (auto const& [k, v] : g.counters) {
        o += (first ? "\"" : ",\"") + esc(k) + "\":" + std::to_string(v);
        first = false;
    }
    o += "},\"metrics\":{";
    first = true;
    for (auto const& [k, v] : g.metrics) {
        o += (first ? "\"" : ",\"") + esc(k) + "\":" + (std::isfinite(v) ? str("%.3g", v) : std::string{"1e308"});
        first = false;
    }
    o += "},\"samples\":[";
    first = true;
    for (auto const& s : g.samples) {
        o += (first ? "\"" : ",\"") + esc(s) + "\"";
        first = false;
    }
    o += "],\"violations\":[";
    first = true;
    for (auto const& v : g.viols) {
        o += first ? "{" : ",{";
        o += "\"key\":\"" + esc(v.key) + "\",\"section\":\"" + esc(v.section) + "\",\"case\":" + std::to_string(v.index)
           + ",\"desc\":\"" + esc(v.desc) + "\",\"msg\":\"" + esc(v.msg)
           + "\",\"times\":" + std::to_string(g.viol_count[v.key]) + "}";
        first = false;
    }
    o += "]}\n";
    std::fflush(stdout);
    std::fputs(o.c_str(), stdout);
    std::fflush(stdout);
    return g.viols.empty() ? 0 : 1;
}

// ---------------------------------------------------------------------------------------------
// Guarded storage: `n` logical elements, `stride` apart, at byte offset `skew` elements. Everything that is
// not a logical element holds a canary; the end of the allocation is flush with an inaccessible page
// (plain builds) or an ASan red zone.

template<typename T>
struct Buf
{
    std::size_t n{}, stride{1}, skew{};
    std::size_t elems{};
    unsigned char* base{};
    std::size_t map_len{};
    T* first{};

    static constexpr unsigned char canary = 0xA5;

    Buf(std::size_t n_, std::size_t stride_ = 1, std::size_t skew_ = 0) : n{n_}, stride{stride_}, skew{skew_}
    {
        elems            = skew + (n == 0 ? 0 : (n - 1) * stride + 1);
        auto const bytes = elems * sizeof(T);
#if defined(MON_ASAN) || defined(MON_TSAN)
        base  = static_cast<unsigned char*>(std::malloc(std::max<std::size_t>(bytes, 1)));
        if (bytes == 0) {
            // keep a valid but empty range
        }
        first = reinterpret_cast<T*>(base) + skew;
#else
        auto const page = std::size_t{4096};
        map_len         = (bytes + page - 1) / page * page + page;
        auto* m         = ::mmap(nullptr, map_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) {
            std::perror("mmap");
            std::_Exit(98);
        }
        ::mprotect(static_cast<unsigned char*>(m) + map_len - page, page, PROT_NONE);
        base  = static_cast<unsigned char*>(m);
        first = reinterpret_cast<T*>(base + (map_len - page - bytes)) + skew;
#endif
        std::memset(reinterpret_cast<unsigned char*>(first - skew), canary, bytes);
        for (std::size_t i = 0; i < n; ++i) {
            new (first + i * stride) T{};
        }
        poison(true);
    }
    Buf(Buf const&)                    = delete;
    auto operator=(Buf const&) -> Buf& = delete;
    ~Buf()
    {
        poison(false);
#if defined(MON_ASAN) || defined(MON_TSAN)
        std::free(base);
#else
        ::munmap(base, map_len);
#endif
    }

    void poison([[maybe_unused]] bool on)
    {
#if defined(MON_ASAN)
        // gaps that are whole 8-byte granules can be poisoned; others are watched by the canaries
        if (sizeof(T) % 8 == 0) {
            auto* p = first - skew;
            if (skew > 0) {
                on ? __asan_poison_memory_region(p, skew * sizeof(T)) : __asan_unpoison_memory_region(p, skew * sizeof(T));
            }
            if (stride > 1) {
                for (std::size_t i = 0; i + 1 < n; ++i) {
                    auto* q      = first + i * stride + 1;
                    auto const b = (stride - 1) * sizeof(T);
                    on ? __asan_poison_memory_region(q, b) : __asan_unpoison_memory_region(q, b);
                }
            }
        }
#endif
    }

    auto operator[](std::size_t i) -> T& { return first[i * stride]; }
    auto operator[](std::size_t i) const -> T const& { return first[i * stride]; }
    auto data() -> T* { return first; }

    auto set(std::vector<T> const& v) -> void
    {
        for (std::size_t i = 0; i < n; ++i) {
            (*this)[i] = v[i];
        }
    }
    auto get() const -> std::vector<T>
    {
        auto v = std::vector<T>(n);
        for (std::size_t i = 0; i < n; ++i) {
            v[i] = (*this)[i];
        }
        return v;
    }
    /// canaries untouched?
    auto intact() -> bool
    {
        poison(false);
        auto const* b = reinterpret_cast<unsigned char const*>(first - skew);
        auto ok       = true;
        for (std::size_t e = 0; e < elems && ok; ++e) {
            auto const logical = e >= skew && (e - skew) % stride == 0 && (e - skew) / stride < n;
            if (!logical) {
                for (std::size_t k = 0; k < sizeof(T); ++k) {
                    ok = ok && b[e * sizeof(T) + k] == canary;
                }
            }
        }
#if !defined(MON_ASAN) && !defined(MON_TSAN)
        // bytes before the block on the same mapping stay zero
        for (auto const* p = base; p < b && ok; ++p) {
            ok = *p == 0;
        }
#endif
        poison(true);
        return ok;
    }
};

template<typename T>
auto same_bits(T const& a, T const& b) -> bool
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}

template<typename T>
auto same_bits(std::vector<T> const& a, std::vector<T> const& b) -> bool
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}

// ---------------------------------------------------------------------------------------------
// Input classes

inline auto real_signal(Rng& r, std::size_t n, int& cls, double amp = 1.0) -> std::vector<double>
{
    auto v = std::vector<double>(n, 0.0);
    cls    = static_cast<int>(r.range(0, 9));
    switch (cls) {
        case 0:  // single impulse
            if (n > 0) {
                v[r.size(0, n - 1)] = amp * (r.chance(1, 2) ? 1.0 : -0.75);
            }
            break;
        case 1:  // sparse
            for (std::size_t k = 0; k < 3 && n > 0; ++k) {
                v[r.size(0, n - 1)] = amp * r.sym();
            }
            break;
        case 2:  // tone
        {
            auto const f = n > 0 ? static_cast<double>(r.range(0, static_cast<std::int64_t>(n))) : 0.0;
            auto const p = r.unit() * 6.28;
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = amp * std::cos(p + 2.0 * 3.14159265358979323846 * f * static_cast<double>(i) / static_cast<double>(n));
            }
            break;
        }
        case 3:  // constant / alternating
        {
            auto const alt = r.chance(1, 2);
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = amp * ((alt && (i & 1U)) ? -1.0 : 1.0);
            }
            break;
        }
        case 4:  // ramp
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = amp * (static_cast<double>(i) + 1.0) / static_cast<double>(n);
            }
            break;
        case 5:  // last / first sample only
            if (n > 0) {
                v[r.chance(1, 2) ? n - 1 : 0] = amp;
            }
            break;
        case 6:  // decaying noise
        {
            auto const rate = r.unit() * 12.0 / static_cast<double>(n + 1);
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = amp * r.sym() * std::exp(-rate * static_cast<double>(i));
            }
            break;
        }
        case 7:  // bursts between stretches of exact silence
        {
            auto on = r.chance(1, 2);
            for (std::size_t i = 0; i < n;) {
                for (auto len = r.size(1, n / 3 + 1); len > 0 && i < n; --len, ++i) {
                    v[i] = on ? amp * r.sym() : 0.0;
                }
                on = !on;
            }
            break;
        }
        default:
            for (auto& x : v) {
                x = amp * r.sym();
            }
    }
    return v;
}

template<typename T>
constexpr auto eps() -> ld
{
    if constexpr (std::is_same_v<T, float>) {
        return 0x1p-23L;
    } else if constexpr (std::is_same_v<T, double>) {
        return 0x1p-52L;
    } else if constexpr (std::is_same_v<T, long double>) {
        return std::numeric_limits<long double>::epsilon();
    } else {
        return 0x1p-10L;  // half
    }
}

}  // namespace mon

#if !defined(MON_VARIANT)
    #define MON_VARIANT "?"
#endif

#define MON_MAIN(BODY)                                                                                                 \
    auto main(int argc, char** argv)->int                                                                              \
    {                                                                                                                  \
        mon::init(argc, argv, MON_VARIANT);                                                                            \
        BODY();                                                                                                        \
        return mon::finish();                                                                                          \
    }
