// The monitor runtime detects a planted mismatch (used by setup_cmd).
#include "mon.hpp"
static auto body() -> void
{
    mon::section("selftest", 1, 1, [](mon::Case& c) {
        c.desc("planted mismatch");
        auto b = mon::Buf<double>(4, 2, 1);
        c.check(b.intact(), "intact");
        c.check(1 + 1 == 3, "planted");
    });
}
MON_MAIN(body)
