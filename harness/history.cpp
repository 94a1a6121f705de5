// C04: what an object computes depends on its inputs only (plans) or on its own stream only (convolvers): the same call gives
// the same bits whatever ran before, on this object, on another one, on a copy, or before a move.
#include "workload.hpp"

using namespace mon;

namespace {

auto body() -> void
{
    auto const all = units();
    auto pure      = std::vector<Unit>{};
    auto streaming = std::vector<Unit>{};
    for (auto const& u : all) {
        (u.stateless ? pure : streaming).push_back(u);
    }
    section("stateless", static_cast<long long>(pure.size()) * 40, static_cast<long long>(pure.size()) * 2000, [&](Case& c) {
        auto const& u = pure[static_cast<std::size_t>(c.index) % pure.size()];
        auto const shape = c.rng.u64();
        auto fresh       = [&] { auto r = Rng{shape}; return u.make(r); };
        auto const want  = c.rng.u64();
        auto ask         = [&](Obj& o) { auto r = Rng{want}; o.load(r, 0); o.run(); return o.digest(); };

        auto a              = fresh();
        auto const expected = ask(*a);
        auto hist           = std::string{};
        auto other          = fresh();
        auto used           = fresh();
        auto const steps    = c.rng.size(1, 8);
        for (std::size_t s = 0; s < steps; ++s) {
            auto const what = c.rng.range(0, 6);
            auto r          = Rng{c.rng.u64()};
            switch (what) {
                case 0: used->load(r, 0); used->run(); hist += 'n'; break;
                case 1: used->load(r, 1); used->run(); hist += 'h'; break;
                case 2: other->load(r, static_cast<int>(c.rng.range(0, 1))); other->run(); hist += 'o'; break;
                case 3: used->relocate(); hist += 'm'; break;
                case 4: {
                    auto const& v = all[c.rng.size(0, all.size() - 1)];
                    auto q        = v.make(r);
                    q->load(r, 0);
                    q->run();
                    hist += 'x';
                    break;
                }
                case 5: {
                    // assigned over an object of another shape that has a history of its own
                    auto q = u.make(r);
                    q->load(r, 0);
                    q->run();
                    q->assign(*used);
                    used = std::move(q);
                    hist += 'a';
                    break;
                }
                default: used = used->clone(); hist += 'c'; break;
            }
        }
        c.desc("%s history=%s shape=%016llx", u.name.c_str(), hist.c_str(), static_cast<unsigned long long>(shape));
        c.check(ask(*used) == expected, "depends_on_history", [&] { return str("after %s", hist.c_str()); });
        c.check(ask(*used) == expected, "second_call_differs");
        c.check(ask(*a) == expected, "first_object_changed");
        auto copy = used->clone();
        auto r    = Rng{c.rng.u64()};
        used->load(r, 1);
        used->run();
        c.check(ask(*copy) == expected, "copy_shares_state");
        c.count("unit." + u.name);
        c.count("history_steps", steps);
    });

    // very many calls on one object (past 8 and 16 bit counters), then the same question again
    section("long_history", static_cast<long long>(pure.size()), static_cast<long long>(pure.size()) * 20, [&](Case& c) {
        auto const& u    = pure[static_cast<std::size_t>(c.index) % pure.size()];
        auto shape       = c.rng.u64();
        auto small       = std::size_t(-1);
        for (int i = 0; i < 12; ++i) {
            auto const s = c.rng.u64();
            auto r       = Rng{s};
            auto o       = u.make(r);
            auto q       = Rng{1};
            o->load(q, 0);
            o->run();
            if (auto const d = o->digest().size(); d < small && d > 1) {
                small = d;
                shape = s;
            }
        }
        auto const calls = u.allocates || u.name.find("algorithms") != std::string::npos || small > 2000 ? std::size_t{700} : std::size_t{66000};
        auto const want  = c.rng.u64();
        auto ask         = [&](Obj& o) { auto r = Rng{want}; o.load(r, 0); o.run(); return o.digest(); };
        auto r           = Rng{shape};
        auto o           = u.make(r);
        c.desc("%s %zu calls shape=%016llx", u.name.c_str(), calls, static_cast<unsigned long long>(shape));
        auto const expected = ask(*o);
        auto q              = Rng{c.rng.u64()};
        o->load(q, 0);
        for (std::size_t i = 0; i < calls; ++i) {
            if (i % 64 == 0) {
                o->load(q, 0);
            }
            if (i % 1000 == 255 || i == 65535 || i == 65536) {
                c.check(ask(*o) == expected, "depends_on_history", [&] { return str("after %zu calls", i); });
                o->load(q, 0);
            }
            o->run();
        }
        c.check(ask(*o) == expected, "depends_on_history", [&] { return str("after %zu calls", calls); });
        c.count("long_history_calls", calls);
    }, 100);

    section("streams", static_cast<long long>(streaming.size()) * 60, static_cast<long long>(streaming.size()) * 3000, [&](Case& c) {
        auto const& u = streaming[static_cast<std::size_t>(c.index) % streaming.size()];
        auto const shape = c.rng.u64();
        auto const input = c.rng.u64();
        auto const n     = c.rng.size(2, 14);
        auto feed        = [&](Obj& o, std::size_t i) { auto r = Rng{input + i}; o.load(r, 0); o.run(); return o.digest(); };
        auto fresh       = [&] { auto r = Rng{shape}; return u.make(r); };
        c.desc("%s blocks=%zu shape=%016llx", u.name.c_str(), n, static_cast<unsigned long long>(shape));
        auto a        = fresh();
        auto expected = std::vector<std::vector<unsigned char>>{};
        for (std::size_t i = 0; i < n; ++i) {
            expected.push_back(feed(*a, i));
        }
        // the same stream again, with other instances running, copies taken and moves in between
        auto b       = fresh();
        auto noise   = fresh();
        auto forks   = std::vector<std::pair<std::size_t, std::unique_ptr<Obj>>>{};
        for (std::size_t i = 0; i < n; ++i) {
            auto r = Rng{c.rng.u64()};
            switch (c.rng.range(0, 4)) {
                case 0: noise->load(r, 1); noise->run(); break;
                case 1: b->relocate(); break;
                case 2: forks.emplace_back(i, b->clone()); break;
                case 3:
                    if (c.rng.chance(1, 2)) {
                        b = b->clone();
                    } else {
                        auto q = u.make(r);
                        q->load(r, 0);
                        q->run();
                        q->assign(*b);
                        b = std::move(q);
                    }
                    break;
                default: {
                    auto const& v = all[c.rng.size(0, all.size() - 1)];
                    auto q        = v.make(r);
                    q->load(r, 0);
                    q->run();
                }
            }
            c.check(feed(*b, i) == expected[i], "stream_differs", [&] { return str("block %zu of %zu", i, n); });
        }
        for (auto& [from, f] : forks) {
            for (std::size_t i = from; i < n; ++i) {
                c.check(feed(*f, i) == expected[i], "fork_differs", [&] { return str("copy taken before block %zu, at block %zu", from, i); });
            }
        }
        c.count("unit." + u.name);
        c.count("forks", forks.size());
    });
}

}  // namespace

MON_MAIN(body)
