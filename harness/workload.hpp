// Every stateful object of the library behind one interface: load inputs, run the library call(s), read the outputs.
#pragma once

#include "conv_check.hpp"

#include <neo/algorithm.hpp>
#include "cx.hpp"
#include <neo/container/csr_matrix.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/convolution.hpp>
#include <neo/fft.hpp>
#include <neo/fft/dct.hpp>
#include <neo/fft/dft.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fft/rfft.hpp>
#include <neo/fft/reference/bitrevorder.hpp>
#include <neo/fft/reference/digitrevorder.hpp>
#include <neo/fft/rfftfreq.hpp>
#include <neo/fft/stft.hpp>
#include <neo/fft/twiddle.hpp>
#include <neo/fixed_point.hpp>
#include <neo/math/a_weighting.hpp>
#include <neo/math/windowing.hpp>
#include <neo/unit/decibel.hpp>
#include <neo/unit/mel.hpp>

namespace mon {

inline auto wdir(std::uint64_t v) { return v % 2 == 0 ? neo::fft::direction::forward : neo::fft::direction::backward; }

struct Obj
{
    virtual ~Obj() = default;
    /// fills the inputs; kind 1 = hostile values (infinities, NaN, huge) that only serve as history
    virtual auto load(Rng& r, int kind) -> void = 0;
    /// nothing but calls into the library
    virtual auto run() -> void = 0;
    virtual auto digest() const -> std::vector<unsigned char> = 0;
    virtual auto clone() const -> std::unique_ptr<Obj> = 0;
    /// move the library object out and back
    virtual auto relocate() -> void = 0;
    /// become a copy of another object of the same kind (of any shape)
    virtual auto assign(Obj const& o) -> void = 0;
};

template<typename Self>
struct ObjBase : Obj
{
    auto clone() const -> std::unique_ptr<Obj> override { return std::make_unique<Self>(static_cast<Self const&>(*this)); }
    auto assign(Obj const& o) -> void override { static_cast<Self&>(*this) = static_cast<Self const&>(o); }
};

/// a size up to `hi`, now and then up to `rare`
inline auto upto(Rng& r, std::size_t lo, std::size_t hi, std::size_t rare) -> std::size_t { return r.chance(1, 12) ? r.size(hi, rare) : r.size(lo, hi); }

using Maker = std::function<std::unique_ptr<Obj>(Rng&)>;
struct Unit
{
    std::string name;
    Maker make;
    bool stateless;     // the result depends on the loaded inputs only
    bool allocates;     // the call itself returns fresh storage
};

template<typename V>
auto bytes_of(V const& v) -> std::vector<unsigned char>
{
    auto o = std::vector<unsigned char>(v.size() * sizeof(typename V::value_type));
    if (!o.empty()) {
        std::memcpy(o.data(), v.data(), o.size());
    }
    return o;
}

/// hostile vectors (kind 1): a mixture, or one special value among ordinary ones, or nothing but one special value
inline auto flavour(Rng& r, int kind) -> int { return kind == 1 ? static_cast<int>(r.range(0, 9)) : -1; }

inline auto value(Rng& r, int style) -> double
{
    constexpr auto inf = std::numeric_limits<double>::infinity();
    constexpr auto nan = std::numeric_limits<double>::quiet_NaN();
    switch (style) {
        case -1: return r.sym();
        case 0: return r.chance(1, 9) ? inf : r.sym();
        case 1: return r.chance(1, 9) ? -inf : r.sym();
        case 2: return r.chance(1, 9) ? nan : r.sym();
        case 3: return nan;
        case 4: return 1e30 * r.sym();
        case 5: return 1e-41 * r.sym();
        default: return r.pick(1e30, -1e30, inf, nan, 1.0, 0.0);
    }
}

/// loudness of a whole vector, mostly full scale, never above it
inline auto level(Rng& r, int kind) -> double { return kind == 1 ? 1.0 : r.pick(1.0, 1.0, 1.0, 1e-2, 1e-5, 1e-9, 1e-14); }

/// how much of a vector is exactly zero: 0 nothing, 1 most, 2 the end, 3 the beginning, 4 everything
inline auto zeros(Rng& r, int kind, std::size_t n) -> std::function<bool(std::size_t)>
{
    auto const style = kind == 1 ? 0 : r.pick(0, 0, 0, 1, 2, 3, 4);
    auto const cut   = r.size(0, n);
    auto const salt  = r.u64();
    return [=](std::size_t i) {
        return style == 4 || (style == 1 && mix(salt + i) % 4 != 0) || (style == 2 && i >= cut) || (style == 3 && i < cut);
    };
}

template<typename T>
auto fill_real(Rng& r, int kind, std::vector<T>& v) -> void
{
    auto const zero = zeros(r, kind, v.size());
    auto const gain = level(r, kind);
    auto const fl   = flavour(r, kind);
    for (std::size_t i = 0; i < v.size(); ++i) {
        auto const x = static_cast<T>(value(r, fl) * gain);
        v[i]         = zero(i) ? T(0) : x;
    }
}
template<typename C>
auto fill_cplx(Rng& r, int kind, std::vector<C>& v) -> void
{
    using T         = typename C::value_type;
    auto const zero = zeros(r, kind, v.size());
    auto const gain = level(r, kind);
    auto const fl   = flavour(r, kind);
    for (std::size_t i = 0; i < v.size(); ++i) {
        auto const a = static_cast<T>(value(r, fl) * gain);
        auto const b = static_cast<T>(value(r, fl) * gain);
        v[i]         = zero(i) ? C{T(0), T(0)} : C{a, b};
    }
}

template<typename T>
auto vec(std::vector<T>& v)
{
    return stdex::mdspan<T, stdex::dextents<std::size_t, 1>>{v.data(), stdex::dextents<std::size_t, 1>{v.size()}};
}
template<typename T>
auto cvec(std::vector<T> const& v)
{
    return stdex::mdspan<T const, stdex::dextents<std::size_t, 1>>{v.data(), stdex::dextents<std::size_t, 1>{v.size()}};
}

template<typename T>
auto stepped(std::vector<T>& v, std::size_t n, std::size_t stride)
{
    using E = stdex::dextents<std::size_t, 1>;
    return stdex::mdspan<T, E, stdex::layout_stride>{v.data(), stdex::layout_stride::mapping<E>{E{n}, std::array<std::size_t, 1>{stride}}};
}

/// in-place complex plan
template<typename Plan, bool Strided = false>
struct CplxObj final : ObjBase<CplxObj<Plan, Strided>>
{
    using C = typename Plan::value_type;
    Plan plan;
    std::vector<C> x;
    neo::fft::direction dir{};
    template<typename... A>
    explicit CplxObj(std::size_t n, A... a) : plan{a...}, x(Strided ? 2 * n : n) {}
    auto load(Rng& r, int kind) -> void override
    {
        dir = wdir(r.u64());
        fill_cplx(r, kind, x);
    }
    auto run() -> void override
    {
        if constexpr (Strided) {
            plan(stepped(x, x.size() / 2, 2), dir);
        } else {
            plan(vec(x), dir);
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(x); }
    auto relocate() -> void override
    {
        auto p = std::move(plan);
        plan   = std::move(p);
    }
};

template<typename T, bool Strided = false>
struct SplitObj final : ObjBase<SplitObj<T, Strided>>
{
    neo::fft::split_fft_plan<T> plan;
    std::vector<T> re, im, ore, oim;
    bool copying{false};
    neo::fft::direction dir{};
    explicit SplitObj(std::size_t order) : plan{neo::fft::from_order, order}, re((Strided ? std::size_t{2} : std::size_t{1}) << order), im(re.size()), ore(re.size()), oim(re.size()) {}
    auto load(Rng& r, int kind) -> void override
    {
        dir     = wdir(r.u64());
        copying = r.chance(1, 3);
        fill_real(r, kind, re);
        fill_real(r, kind, im);
    }
    auto run() -> void override
    {
        if (copying) {
            plan(neo::split_complex{head(re), head(im)}, neo::split_complex{mhead(ore), mhead(oim)}, dir);
            return;
        }
        if constexpr (Strided) {
            plan(neo::split_complex{stepped(re, re.size() / 2, 2), stepped(im, im.size() / 2, 2)}, dir);
        } else {
            plan(neo::split_complex{vec(re), vec(im)}, dir);
        }
    }
    /// the first plan.size() elements
    auto head(std::vector<T> const& v) const { return stdex::mdspan<T const, stdex::dextents<std::size_t, 1>>{v.data(), stdex::dextents<std::size_t, 1>{plan.size()}}; }
    auto mhead(std::vector<T>& v) const { return stdex::mdspan<T, stdex::dextents<std::size_t, 1>>{v.data(), stdex::dextents<std::size_t, 1>{plan.size()}}; }
    auto digest() const -> std::vector<unsigned char> override
    {
        auto a = bytes_of(copying ? ore : re);
        auto b = bytes_of(copying ? oim : im);
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
    auto relocate() -> void override
    {
        auto p = std::move(plan);
        plan   = std::move(p);
    }
};

template<typename T, typename C, bool Strided = false>
struct RealObj final : ObjBase<RealObj<T, C, Strided>>
{
    static constexpr std::size_t step = Strided ? 2 : 1;
    neo::fft::rfft_plan<T, C> plan;
    std::size_t n;
    std::vector<T> x;
    std::vector<C> z;
    bool forward{true};
    explicit RealObj(std::size_t order) : plan{neo::fft::from_order, order}, n{std::size_t{1} << order}, x(n * step), z((n / 2 + 1) * step) {}
    auto load(Rng& r, int kind) -> void override
    {
        forward = r.chance(1, 2);
        fill_real(r, kind, x);
        fill_cplx(r, kind, z);
    }
    auto run() -> void override
    {
        if constexpr (Strided) {
            if (forward) {
                neo::fft::rfft(plan, stepped(x, n, step), stepped(z, n / 2 + 1, step));
            } else {
                neo::fft::irfft(plan, stepped(z, n / 2 + 1, step), stepped(x, n, step));
            }
        } else if (forward) {
            neo::fft::rfft(plan, cvec(x), vec(z));
        } else {
            neo::fft::irfft(plan, cvec(z), vec(x));
        }
    }
    auto digest() const -> std::vector<unsigned char> override
    {
        auto a = bytes_of(x);
        auto b = bytes_of(z);
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
    auto relocate() -> void override
    {
        auto p = std::move(plan);
        plan   = std::move(p);
    }
};

/// in-place real plan: dct-ii (one argument) or packed transforms (with a direction)
template<typename Plan, bool HasDir>
struct InplaceRealObj final : ObjBase<InplaceRealObj<Plan, HasDir>>
{
    using T = typename Plan::value_type;
    Plan plan;
    std::vector<T> x;
    neo::fft::direction dir{};
    InplaceRealObj(std::size_t order, std::size_t n) : plan{neo::fft::from_order, order}, x(n) {}
    auto load(Rng& r, int kind) -> void override
    {
        dir = wdir(r.u64());
        fill_real(r, kind, x);
    }
    auto run() -> void override
    {
        if constexpr (HasDir) {
            plan(vec(x), dir);
        } else {
            plan(vec(x));
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(x); }
    auto relocate() -> void override
    {
        auto p = std::move(plan);
        plan   = std::move(p);
    }
};

template<typename T>
struct StftObj final : ObjBase<StftObj<T>>
{
    neo::fft::stft_plan<T> plan;
    std::vector<T> x;
    std::size_t channels;
    std::size_t length;
    std::vector<std::complex<T>> out;
    StftObj(std::size_t frame, std::size_t transform, std::size_t overlap, std::size_t ch, std::size_t len)
        : plan{neo::fft::stft_options<T>{.frame_size = frame, .transform_size = transform, .overlap_size = overlap}}
        , x(ch * len)
        , channels{ch}
        , length{len}
    {}
    auto load(Rng& r, int kind) -> void override
    {
        // signals that only serve as history have lengths of their own
        x.resize(channels * (kind == 1 ? r.size(1, 2 * length + 9) : length));
        fill_real(r, kind, x);
    }
    auto run() -> void override
    {
        auto const e = stdex::dextents<std::size_t, 2>{channels, x.size() / channels};
        auto y       = plan(stdex::mdspan<T const, stdex::dextents<std::size_t, 2>>{x.data(), e});
        out.assign(y.container().begin(), y.container().end());
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(out); }
    auto relocate() -> void override
    {
        auto p = std::move(plan);
        plan   = std::move(p);
    }
};

template<typename T, bool Strided = false>
struct FftConvObj final : ObjBase<FftConvObj<T, Strided>>
{
    nc::fft_convolver<T> conv;
    std::vector<T> a, b, y;
    static constexpr std::size_t step = Strided ? 2 : 1;
    FftConvObj(std::size_t n, std::size_t m) : conv{n, m}, a(n * step), b(m * step), y((n + m - 1) * step) {}
    auto load(Rng& r, int kind) -> void override
    {
        fill_real(r, kind, a);
        fill_real(r, kind, b);
    }
    auto run() -> void override
    {
        if constexpr (Strided) {
            conv(stepped(a, a.size() / step, step), stepped(b, b.size() / step, step), stepped(y, y.size() / step, step));
        } else {
            conv(cvec(a), cvec(b), vec(y));
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(y); }
    auto relocate() -> void override
    {
        auto p = std::move(conv);
        conv   = std::move(p);
    }
};

template<typename Conv, bool Strided = false>
struct ConvObj final : ObjBase<ConvObj<Conv, Strided>>
{
    using C = typename Conv::value_type;
    using T = typename C::value_type;
    Conv conv;
    std::size_t block;
    std::vector<T> x;
    bool chunked;
    static constexpr std::size_t step = Strided ? 3 : 1;
    ConvObj(Rng& r, std::size_t b) : block{b}, x(step * b), chunked{is_chunked<Conv>}
    {
        auto h = std::vector<T>(r.size(1, b < 8 && r.chance(1, 8) ? 300 * b : 5 * b));
        fill_real(r, 0, h);
        set_filter(conv, partition_of<C>(h, b), [](std::size_t i, std::size_t k) { return (i + k) % 3 != 0; });
    }
    auto load(Rng& r, int kind) -> void override
    {
        if (chunked) {
            x.resize(step * (block + r.size(0, r.chance(1, 10) ? 9 * block : 2 * block)));
        }
        if constexpr (requires { typename Conv::fdl_type::compressed_type; }) {
            // a compressed delay line holds spectra of magnitude up to one
            fill_real(r, 0, x);
            for (auto& v : x) {
                v /= static_cast<T>(2 * block);
            }
        } else {
            fill_real(r, kind, x);
        }
    }
    auto run() -> void override
    {
        if constexpr (Strided) {
            conv(stepped(x, x.size() / step, step));
        } else {
            conv(vec(x));
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(x); }
    auto relocate() -> void override
    {
        auto p = std::move(conv);
        conv   = std::move(p);
    }
};

/// free functions over one working set
template<typename T>
struct AlgoObj final : ObjBase<AlgoObj<T>>
{
    using C = std::complex<T>;
    std::vector<T> x, y, z, m, m2, m3, sr, si, wide;
    std::vector<C> a, b, c, d, e;
    neo::csr_matrix<C> csr;
    std::vector<neo::q15> p, q, o;
    std::vector<double> scalars;
    std::size_t rows{}, cols{};
    explicit AlgoObj(Rng& r)
    {
        auto const n = upto(r, 1, 90, r.pick(std::size_t{300}, std::size_t{1100}, std::size_t{5000}));
        rows         = r.size(1, 5);
        cols         = upto(r, 1, 20, 600);
        x.resize(n);
        y.resize(n);
        z.resize(n);
        m.resize(rows * cols);
        m2.resize(rows * cols);
        m3.resize(rows * cols);
        sr.resize(n);
        si.resize(n);
        wide.resize(3 * n);
        d.resize(n / 2 + 1);
        e.resize(n / 2 + 1);
        csr = neo::csr_matrix<C>{1, n};
        for (std::size_t i = 0; i < n; i += r.size(1, 9)) {
            csr.insert(std::size_t{0}, i, C{static_cast<T>(r.sym()), static_cast<T>(r.sym())});
        }
        a.resize(n);
        b.resize(n);
        c.resize(n);
        p.resize(n);
        q.resize(n);
        o.resize(n);
        scalars.resize(16);
    }
    auto load(Rng& r, int kind) -> void override
    {
        for (auto* v : {&x, &y, &z, &m, &m2, &m3, &sr, &si, &wide}) {
            fill_real(r, kind, *v);
        }
        for (auto* v : {&a, &b, &c, &d, &e}) {
            fill_cplx(r, kind, *v);
        }
        for (auto* v : {&p, &q, &o}) {
            for (auto& e : *v) {
                e = neo::q15{neo::underlying_value, static_cast<std::int16_t>(r.u64())};
            }
        }
    }
    auto run() -> void override
    {
        auto const ext = stdex::dextents<std::size_t, 2>{rows, cols};
        auto const mat = stdex::mdspan<T, stdex::dextents<std::size_t, 2>>{m.data(), ext};
        auto const col = stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>{m2.data(), ext};
        auto const thr = stdex::mdspan<T, stdex::dextents<std::size_t, 2>>{m3.data(), ext};
        auto const far = stepped(wide, x.size(), 3);
        neo::add(mat, col, thr);
        neo::multiply(thr, col, col);
        neo::copy(col, thr);
        neo::scale(T(0.75), thr);
        scalars[6] = neo::allclose(mat, thr) ? 1 : 0;
        scalars[7] = neo::allmatch(mat, thr, [](auto u, auto v) { return u != v; }) ? 1 : 0;
        scalars[8] = neo::mean_squared_error(mat, thr);
        neo::add(cvec(x), far, far);
        neo::multiply_add(far, cvec(y), cvec(z), far);
        neo::copy(far, vec(y));
        neo::copy(cvec(a), neo::split_complex{vec(sr), vec(si)});
        neo::multiply_add(neo::split_complex{vec(sr), vec(si)}, neo::split_complex{vec(sr), vec(si)}, neo::split_complex{vec(y), vec(z)}, neo::split_complex{vec(sr), vec(si)});
        neo::copy(neo::split_complex{vec(sr), vec(si)}, vec(b));
        neo::multiply_add(cvec(a), csr, std::size_t{0}, cvec(c), vec(c));
        neo::fft::rfft_deinterleave(cvec(a), vec(d), vec(e));
        if (a.size() < 200) {
            neo::fft::dft(cvec(a), vec(c), neo::fft::direction::forward);
        }
        neo::add(cvec(x), cvec(y), vec(z));
        neo::multiply(cvec(x), cvec(z), vec(z));
        neo::multiply_add(cvec(x), cvec(y), cvec(z), vec(z));
        neo::scale(T(0.5), vec(z));
        neo::multiply(cvec(a), cvec(b), vec(c));
        neo::multiply_add(cvec(a), cvec(b), cvec(c), vec(c));
        neo::copy(cvec(x), vec(y));
        scalars[0] = neo::mean(cvec(z)).value_or(T(0));
        scalars[1] = neo::variance(cvec(z)).value_or(T(0));
        scalars[2] = neo::standard_deviation(cvec(z)).value_or(T(0));
        scalars[3] = neo::mean_squared_error(cvec(x), cvec(z));
        scalars[4] = neo::root_mean_squared_error(cvec(x), cvec(z));
        scalars[5] = neo::allclose(cvec(x), cvec(y)) ? 1 : 0;
        neo::normalize_peak(vec(x));
        neo::normalize_energy(mat);
        neo::normalize_peak(mat);
        neo::add(std::span<neo::q15 const>{p}, std::span<neo::q15 const>{q}, std::span<neo::q15>{o});
        neo::subtract(std::span<neo::q15 const>{o}, std::span<neo::q15 const>{q}, std::span<neo::q15>{o});
        neo::multiply(std::span<neo::q15 const>{o}, std::span<neo::q15 const>{p}, std::span<neo::q15>{o});
    }
    auto digest() const -> std::vector<unsigned char> override
    {
        auto d   = std::vector<unsigned char>{};
        auto put = [&](auto const& v) {
            auto t = bytes_of(v);
            d.insert(d.end(), t.begin(), t.end());
        };
        put(x), put(y), put(z), put(m), put(m2), put(m3), put(sr), put(si), put(wide), put(b), put(c), put(d), put(e), put(scalars);
        for (auto e : o) {
            auto const s = e.value();
            d.push_back(static_cast<unsigned char>(s & 0xff));
            d.push_back(static_cast<unsigned char>((s >> 8) & 0xff));
        }
        return d;
    }
    auto relocate() -> void override {}
};

/// out-of-place transforms through one plan
template<typename C>
struct OutOfPlaceObj final : ObjBase<OutOfPlaceObj<C>>
{
    neo::fft::fft_plan<C> plan;
    std::vector<C> x, y;
    bool forward{true};
    explicit OutOfPlaceObj(std::size_t order) : plan{neo::fft::from_order, order}, x(std::size_t{1} << order), y(x.size()) {}
    auto load(Rng& r, int kind) -> void override
    {
        forward = r.chance(1, 2);
        fill_cplx(r, kind, x);
    }
    auto run() -> void override { forward ? neo::fft::fft(plan, cvec(x), vec(y)) : neo::fft::ifft(plan, cvec(x), vec(y)); }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(y); }
    auto relocate() -> void override
    {
        auto p = std::move(plan);
        plan   = std::move(p);
    }
};

/// overlap framing alone, with a callback that changes the spectrum
template<typename Ola, bool Strided = false>
struct FrameObj final : ObjBase<FrameObj<Ola, Strided>>
{
    using C = typename Ola::value_type;
    using T = typename C::value_type;
    Ola ola;
    std::vector<T> x;
    FrameObj(std::size_t block, std::size_t filter) : ola{block, filter}, x(Strided ? 2 * block : block) {}
    auto load(Rng& r, int kind) -> void override { fill_real(r, kind, x); }
    auto run() -> void override
    {
        auto const half = [](auto spectrum) {
            for (std::size_t k = 0; k < static_cast<std::size_t>(spectrum.extent(0)); ++k) {
                spectrum[k] = C(spectrum[k]) * T(0.5);
            }
        };
        if constexpr (Strided) {
            ola(stepped(x, x.size() / 2, 2), half);
        } else {
            ola(vec(x), half);
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(x); }
    auto relocate() -> void override
    {
        auto p = std::move(ola);
        ola    = std::move(p);
    }
};

/// a delay line: one insert per call, the whole line is the output
template<typename Fdl>
struct FdlObj final : ObjBase<FdlObj<Fdl>>
{
    using C = typename Fdl::value_type;
    Fdl fdl;
    std::size_t rows, row{0};
    std::vector<C> x;
    std::vector<C> out;
    FdlObj(std::size_t r, std::size_t cols) : fdl{stdex::dextents<std::size_t, 2>{r, cols}}, rows{r}, x(cols), out(r * cols) {}
    auto load(Rng& r, int) -> void override
    {
        row = r.size(0, rows - 1);
        fill_cplx(r, 0, x);
    }
    auto run() -> void override
    {
        fdl.insert(cvec(x), row);
        for (std::size_t i = 0; i < rows; ++i) {
            auto const line = fdl[i];
            for (std::size_t k = 0; k < x.size(); ++k) {
                out[i * x.size() + k] = C(line[k]);
            }
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(out); }
    auto relocate() -> void override
    {
        auto p = std::move(fdl);
        fdl    = std::move(p);
    }
};

/// a split delay line
struct SplitFdlObj final : ObjBase<SplitFdlObj>
{
    nc::dense_split_fdl<float> fdl;
    std::size_t rows, row{0};
    std::vector<std::complex<float>> x, out;
    SplitFdlObj(std::size_t r, std::size_t cols) : fdl{stdex::dextents<std::size_t, 2>{r, cols}}, rows{r}, x(cols), out(r * cols) {}
    auto load(Rng& r, int kind) -> void override
    {
        row = r.size(0, rows - 1);
        fill_cplx(r, kind, x);
    }
    auto run() -> void override
    {
        fdl.insert(cvec(x), row);
        for (std::size_t i = 0; i < rows; ++i) {
            auto const line = fdl[i];
            for (std::size_t k = 0; k < x.size(); ++k) {
                out[i * x.size() + k] = {line.real[k], line.imag[k]};
            }
        }
    }
    auto digest() const -> std::vector<unsigned char> override { return bytes_of(out); }
    auto relocate() -> void override
    {
        auto p = std::move(fdl);
        fdl    = std::move(p);
    }
};

/// tables, permutations, units, reductions of matrices: the free functions AlgoObj does not call
template<typename T>
struct ToolObj final : ObjBase<ToolObj<T>>
{
    using C = std::complex<T>;
    std::size_t order, rows, cols;
    neo::fft::bitrevorder_plan bits;
    neo::fft::digitrevorder_plan<2> digits;
    std::vector<T> x, y, w, f, db, m;
    std::vector<C> a, b, lut, row;
    std::vector<neo::q7> p, q, o;
    neo::csr_matrix<C> csr;
    std::vector<double> scalars;
    neo::fft::direction dir{};
    explicit ToolObj(Rng& r)
        : order{upto(r, 1, 7, 12)}, rows{r.size(1, 5)}, cols{upto(r, 1, 20, 600)}, bits{order}, digits{std::size_t{1} << order}
        , x(std::size_t{1} << order), y(x.size()), w(x.size()), f(x.size()), db(4 * x.size()), m(rows * cols), a(x.size()), b(x.size()), lut(x.size()), row(x.size())
        , p(x.size() + r.size(0, 9)), q(p.size()), o(p.size()), csr{1, x.size()}, scalars(16)
    {
        for (std::size_t i = 0; i < x.size(); i += r.size(1, 9)) {
            csr.insert(std::size_t{0}, i, C{static_cast<T>(r.sym()), static_cast<T>(r.sym())});
        }
    }
    auto load(Rng& r, int kind) -> void override
    {
        dir = wdir(r.u64());
        for (auto* v : {&x, &y, &w, &f, &m}) {
            fill_real(r, kind, *v);
        }
        for (auto* v : {&a, &b}) {
            fill_cplx(r, kind, *v);
        }
        for (auto* v : {&p, &q, &o}) {
            for (auto& e : *v) {
                e = neo::q7{neo::underlying_value, static_cast<std::int8_t>(r.u64())};
            }
        }
    }
    auto run() -> void override
    {
        auto const ext = stdex::dextents<std::size_t, 2>{rows, cols};
        auto const mat = stdex::mdspan<T, stdex::dextents<std::size_t, 2>>{m.data(), ext};
        auto const cm  = stdex::mdspan<T const, stdex::dextents<std::size_t, 2>>{m.data(), ext};
        auto num       = [](auto v) { return v.has_value() ? static_cast<double>(*v) : -1.0; };
        scalars[0]     = num(neo::mean(cm));
        scalars[1]     = num(neo::variance(cm));
        scalars[2]     = num(neo::standard_deviation(cm));
        scalars[3]     = neo::allmatch(cvec(x), [](auto v) { return v > T(-2); }) ? 1 : 0;
        scalars[4]     = neo::allmatch(cm, [](auto v) { return v < T(0.5); }) ? 1 : 0;
        scalars[5]     = neo::normalize_peak_factor(cm);
        scalars[6]     = neo::normalize_energy_factor(cvec(x));
        scalars[7]     = neo::root_mean_squared_error(cm, cm);
        for (std::size_t i = 0; i < x.size(); ++i) {
            auto const g  = static_cast<T>(x[i] * x[i] + T(1e-3));
            db[4 * i]     = neo::amplitude_to_db(g);
            db[4 * i + 1] = neo::amplitude_to_db<neo::precision::estimate>(g, T(-100));
            db[4 * i + 2] = neo::mel_to_hertz(neo::hertz_to_mel(g * T(8000)));
            db[4 * i + 3] = neo::a_weighting(g * T(8000));
        }
        neo::fill(mat, T(0.25));
        neo::fill(vec(y), T(2));
        neo::normalize_energy(vec(x));
        neo::fill_window(vec(w), neo::hann_window<T>{});
        neo::fill_window(vec(f), neo::hamming_window<T>{});
        neo::multiply(cvec(w), cvec(f), vec(w));
        neo::rfftfreq(vec(f), 1.0 / 44100.0);
        neo::mel_frequencies(vec(y), T(20), T(18000));
        neo::fft::fill_twiddle_lut_radix2(vec(lut), dir);
        bits(vec(a));
        digits(vec(b));
        neo::fft::bitrevorder(vec(b));
        neo::scale(T(0.5), vec(a));
        for (std::size_t i = 0; i < row.size(); ++i) {
            row[i] = csr(std::size_t{0}, i);
        }
        neo::add(std::span<neo::q7 const>{p}, std::span<neo::q7 const>{q}, std::span<neo::q7>{o});
        neo::subtract(std::span<neo::q7 const>{o}, std::span<neo::q7 const>{q}, std::span<neo::q7>{o});
        neo::multiply(std::span<neo::q7 const>{o}, std::span<neo::q7 const>{p}, std::span<neo::q7>{o});
    }
    auto digest() const -> std::vector<unsigned char> override
    {
        auto d   = std::vector<unsigned char>{};
        auto put = [&](auto const& v) {
            auto t = bytes_of(v);
            d.insert(d.end(), t.begin(), t.end());
        };
        put(x), put(y), put(w), put(f), put(db), put(m), put(a), put(b), put(lut), put(row), put(scalars);
        for (auto e : o) {
            d.push_back(static_cast<unsigned char>(e.value()));
        }
        return d;
    }
    auto relocate() -> void override
    {
        auto t = std::move(bits);
        bits   = std::move(t);
    }
};

inline auto units() -> std::vector<Unit>
{
    using namespace neo::fft;
    auto u    = std::vector<Unit>{};
    auto cplx = [&]<typename Plan>(char const* name, std::size_t base, std::size_t hi, std::type_identity<Plan>) {
        u.push_back({name, [=](Rng& r) -> std::unique_ptr<Obj> {
                         auto const order = upto(r, 0, hi, hi + (base == 2 ? 3 : base < 5 ? 2 : 1));
                         auto n           = std::size_t{1};
                         for (std::size_t i = 0; i < order; ++i) {
                             n *= base;
                         }
                         return std::make_unique<CplxObj<Plan>>(n, from_order, order);
                     }, true, false});
    };
    cplx("fft_plan<cf>", 2, 9, std::type_identity<fft_plan<std::complex<float>>>{});
    cplx("fft_plan<c128>", 2, 9, std::type_identity<fft_plan<mon::c128>>{});
    cplx("dit2_v1<cd>", 2, 8, std::type_identity<c2c_dit2_plan<std::complex<double>, kernel::c2c_dit2_v1>>{});
    cplx("dit2_v2<c64>", 2, 8, std::type_identity<c2c_dit2_plan<mon::c64, kernel::c2c_dit2_v2>>{});
    cplx("dit2_v4<cf>", 2, 8, std::type_identity<c2c_dit2_plan<std::complex<float>, kernel::c2c_dit2_v4>>{});
    cplx("dif3<cf>", 3, 5, std::type_identity<c2c_dif3_plan<std::complex<float>>>{});
    cplx("dif5<cd>", 5, 3, std::type_identity<c2c_dif5_plan<std::complex<double>>>{});
    cplx("dit4<cf>", 4, 4, std::type_identity<c2c_dit4_plan<std::complex<float>>>{});
    cplx("dif4<cd>", 4, 4, std::type_identity<c2c_dif4_plan<std::complex<double>>>{});
    cplx("stockham2r<cf>", 2, 8, std::type_identity<c2c_stockham_dif2r_plan<std::complex<float>>>{});
    cplx("stockham2i<cd>", 2, 8, std::type_identity<c2c_stockham_dif2i_plan<std::complex<double>>>{});
    cplx("stockham3<cf>", 3, 5, std::type_identity<c2c_stockham_dif3_plan<std::complex<float>>>{});
    cplx("stockham4<cd>", 4, 4, std::type_identity<c2c_stockham_dif4_plan<std::complex<double>>>{});
    cplx("stockham5<cf>", 5, 3, std::type_identity<c2c_stockham_dif5_plan<std::complex<float>>>{});
    cplx("stockham8<cd>", 8, 3, std::type_identity<c2c_stockham_dif8_plan<std::complex<double>>>{});
    cplx("stockham_dit4<cf>", 4, 4, std::type_identity<c2c_stockham_dit4_plan<std::complex<float>>>{});
    u.push_back({"dft_plan<cf>", [](Rng& r) -> std::unique_ptr<Obj> { auto const n = upto(r, 1, 150, 1100); return std::make_unique<CplxObj<dft_plan<std::complex<float>>>>(n, n); }, true, false});
    u.push_back({"dft_plan<cd>", [](Rng& r) -> std::unique_ptr<Obj> { auto const n = upto(r, 1, 150, 1100); return std::make_unique<CplxObj<dft_plan<std::complex<double>>>>(n, n); }, true, false});
    u.push_back({"fft_plan<cd> strided", [](Rng& r) -> std::unique_ptr<Obj> { auto const o = upto(r, 0, 8, 11); return std::make_unique<CplxObj<fft_plan<std::complex<double>>, true>>(std::size_t{1} << o, from_order, o); }, true, false});
    u.push_back({"dft_plan<cf> strided", [](Rng& r) -> std::unique_ptr<Obj> { auto const n = upto(r, 1, 90, 500); return std::make_unique<CplxObj<dft_plan<std::complex<float>>, true>>(n, n); }, true, false});
    u.push_back({"fft out of place<cf>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<OutOfPlaceObj<std::complex<float>>>(upto(r, 0, 8, 11)); }, true, false});
    u.push_back({"split<float>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<SplitObj<float>>(upto(r, 0, 8, 12)); }, true, false});
    u.push_back({"rfft<float>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<RealObj<float, std::complex<float>>>(upto(r, 0, 9, 13)); }, true, false});
    u.push_back({"rfft<double,c128>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<RealObj<double, mon::c128>>(upto(r, 0, 9, 13)); }, true, false});
    u.push_back({"rfft<double> strided", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<RealObj<double, std::complex<double>, true>>(upto(r, 0, 9, 13)); }, true, false});
    u.push_back({"split<double> strided", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<SplitObj<double, true>>(upto(r, 0, 8, 12)); }, true, false});
    u.push_back({"dct2<float>", [](Rng& r) -> std::unique_ptr<Obj> { auto const o = upto(r, 0, 8, 12); return std::make_unique<InplaceRealObj<fallback_dct2_plan<float>, false>>(o, std::size_t{1} << o); }, true, false});
    u.push_back({"packed_rfft<float>", [](Rng& r) -> std::unique_ptr<Obj> { auto const o = upto(r, 1, 8, 12); return std::make_unique<InplaceRealObj<neo::fft::experimental::rfft_plan<float>, true>>(o, std::size_t{1} << o); }, true, false});
    u.push_back({"packed_c2c<double>", [](Rng& r) -> std::unique_ptr<Obj> { auto const o = upto(r, 0, 7, 11); return std::make_unique<InplaceRealObj<neo::fft::experimental::c2c_dit2_plan<double>, true>>(o, std::size_t{2} << o); }, true, false});
    u.push_back({"stft<float>", [](Rng& r) -> std::unique_ptr<Obj> {
                     auto const t = r.size(2, 70);
                     auto const f = r.size(2, t);
                     return std::make_unique<StftObj<float>>(f, t, r.size(0, f - 1), r.size(1, 3), r.chance(1, 3) ? r.size(1, f) : f + r.size(0, 200));
                 }, true, true});
    u.push_back({"fft_convolver<double>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<FftConvObj<double>>(upto(r, 1, 90, 1100), upto(r, 1, 90, 1100)); }, true, false});
    u.push_back({"fft_convolver<float> strided", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<FftConvObj<float, true>>(upto(r, 1, 90, 1100), upto(r, 1, 90, 1100)); }, true, false});
    u.push_back({"algorithms<float>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<AlgoObj<float>>(r); }, true, false});
    u.push_back({"algorithms<double>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<AlgoObj<double>>(r); }, true, false});
    u.push_back({"tools<float>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<ToolObj<float>>(r); }, true, false});
    u.push_back({"tools<double>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<ToolObj<double>>(r); }, true, false});
    auto conv = [&]<typename Conv>(char const* name, std::type_identity<Conv>) {
        u.push_back({name, [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<ConvObj<Conv>>(r, std::size_t{1} << upto(r, 1, 6, 11)); }, false, false});
    };
    using C = std::complex<float>;
    using D = std::complex<double>;
    conv("upols<cf>", std::type_identity<nc::upols_convolver<C>>{});
    conv("upola<cd>", std::type_identity<nc::upola_convolver<D>>{});
    conv("split_upols<cf>", std::type_identity<nc::split_upols_convolver<C>>{});
    conv("split_upola<cf>", std::type_identity<nc::split_upola_convolver<C>>{});
    conv("sparse_upols<cf>", std::type_identity<nc::sparse_upols_convolver<C>>{});
    conv("sparse_upola<cf>", std::type_identity<nc::sparse_upola_convolver<C>>{});
    u.push_back({"overlap_save<cf>", [](Rng& r) -> std::unique_ptr<Obj> { auto const b = std::size_t{1} << upto(r, 0, 6, 10); return std::make_unique<FrameObj<nc::overlap_save<C>>>(b, r.size(1, 3 * b)); }, false, false});
    u.push_back({"overlap_add<cd>", [](Rng& r) -> std::unique_ptr<Obj> { auto const b = std::size_t{1} << upto(r, 1, 6, 10); return std::make_unique<FrameObj<nc::overlap_add<D>>>(b, r.size(2, b + 1)); }, false, false});
    auto sconv = [&]<typename Conv>(char const* name, std::type_identity<Conv>) {
        u.push_back({name, [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<ConvObj<Conv, true>>(r, std::size_t{1} << upto(r, 1, 5, 8)); }, false, false});
    };
    sconv("upols<cd> strided", std::type_identity<nc::upols_convolver<D>>{});
    sconv("split_upola<cf> strided", std::type_identity<nc::split_upola_convolver<C>>{});
    u.push_back({"overlap_save<cd> strided", [](Rng& r) -> std::unique_ptr<Obj> { auto const b = std::size_t{1} << upto(r, 0, 6, 10); return std::make_unique<FrameObj<nc::overlap_save<D>, true>>(b, r.size(1, 3 * b)); }, false, false});
    u.push_back({"overlap_add<cf> strided", [](Rng& r) -> std::unique_ptr<Obj> { auto const b = std::size_t{1} << upto(r, 1, 6, 10); return std::make_unique<FrameObj<nc::overlap_add<C>, true>>(b, r.size(2, b + 1)); }, false, false});
    u.push_back({"dense_fdl<cf>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<FdlObj<nc::dense_fdl<C>>>(r.size(1, 6), upto(r, 1, 40, 300)); }, false, false});
    u.push_back({"dense_split_fdl<float>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<SplitFdlObj>(r.size(1, 6), upto(r, 1, 40, 300)); }, false, false});
    u.push_back({"compressed_fdl<int16>", [](Rng& r) -> std::unique_ptr<Obj> { return std::make_unique<FdlObj<nc::compressed_fdl<mon::c64, neo::scalar_complex<std::int16_t>>>>(r.size(1, 6), upto(r, 1, 40, 300)); }, false, false});
    conv("compressed_upols<c64>", std::type_identity<nc::uniform_partitioned_convolver<nc::overlap_save<mon::c64>, nc::compressed_fdl<mon::c64, neo::scalar_complex<std::int16_t>>, nc::dense_filter<mon::c64>>>{});
    conv("upola_v2<cf>", std::type_identity<nc::upola_convolver_v2<C>>{});
    sconv("upola_v2<cd> strided", std::type_identity<nc::upola_convolver_v2<D>>{});
    return u;
}

}  // namespace mon
