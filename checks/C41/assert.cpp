// The library's assertion macros: a false condition always stops the caller, a true one never does.
#include <sstream>
#include <string>
#include <sx_api.h>
#ifdef SX_DEBUG_ON
#define BLUEPRINT_DEBUG_ENABLED
#endif
#include <nil/blueprint/assert.hpp>

static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
SX_CASE(release_assert) {
    std::uint64_t x = sx::u64("x", 0, ~0ull), y = sx::u64("y", 0, ~0ull);
    unsigned evaluated = 0;
    bool thrown = false, named = true; 
    const int line = __LINE__ + 2;
    try {
        BLUEPRINT_RELEASE_ASSERT((++evaluated, x < y));
    } catch (const std::runtime_error &e) {
        thrown = true;
        std::string m = e.what();
        named = has(m, "x < y") && has(m, std::to_string(line).c_str()) && has(m, __FILE__);
    }
    SX_ASSERT(thrown == !(x < y), "stops exactly when the condition is false");
    SX_ASSERT(evaluated == 1, "the condition is evaluated once");
    SX_ASSERT(named, "the message names the condition, the line and the file");
    SX_REACH(thrown ? "thrown" : "passed");
}
// the condition is tested for truth, not for the value one
SX_CASE(release_assert_integer) {
    std::uint64_t x = sx::u64("x", 0, ~0ull);
    bool thrown = false;
    try { BLUEPRINT_RELEASE_ASSERT(x); } catch (const std::runtime_error &) { thrown = true; }
    SX_ASSERT(thrown == (x == 0), "any nonzero condition passes");
    SX_REACH(thrown ? "thrown" : "passed");
}
SX_CASE(debug_assert) {
    std::uint64_t x = sx::u64("x", 0, ~0ull), y = sx::u64("y", 0, ~0ull);
    unsigned evaluated = 0;
    bool thrown = false;
    try { BLUEPRINT_ASSERT((++evaluated, x == y)); } catch (const std::runtime_error &) { thrown = true; }
#ifdef SX_DEBUG_ON
    SX_ASSERT(thrown == (x != y), "with debugging on a false condition stops the caller");
    SX_ASSERT(evaluated == 1, "the condition is evaluated once");
#else
    SX_ASSERT(!thrown && evaluated == 0, "with debugging off the condition is not even evaluated");
#endif
    SX_REACH("debug");
}
