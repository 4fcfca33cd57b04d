// Integer power by squaring.
#include "sx_api.h"
#include <nil/detail/static_pow.hpp>
SX_CASE(pow_u64) { uint64_t x = sx::u64("x", 0, ~0ull), n = sx::u64("n", 0, 20); uint64_t r = nil::crypto3::detail::pow(x, n); uint64_t e = 1; for (uint64_t i = 0; i < n; i++) e *= x; SX_REACH("d"); SX_ASSERT(r == e, "power"); }
SX_CASE(pow_of_two) { unsigned n = sx::u32("n", 0, 63); uint64_t r = nil::crypto3::detail::pow((uint64_t)2, n); SX_REACH("d"); SX_ASSERT(r == (uint64_t)1 << n, "power of two"); }
SX_CASE(pow_int_exponent) { int x = (int)sx::u32("x", 0, 10); int n = (int)sx::u32("n", 0, 8); int r = nil::crypto3::detail::pow(x, n); int e = 1; for (int i = 0; i < n; i++) e *= x; SX_REACH("d"); SX_ASSERT(r == e, "power"); }
