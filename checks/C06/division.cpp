#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
using Div = cmp::division_remainder<A>;
static std::vector<std::uint32_t> none, zero = {0};
static I top(std::size_t n) { return (I(1) << n) - I(1); }

// x = q * y + r with r < y, for every y > 0
static void divide(std::size_t w, std::size_t n, bool checked, std::size_t start) {
    R r(w, 1, 1, 4, start); I x = I::input(nm("x", n).c_str(), top(n)), y = I::input(nm("y", n).c_str(), top(n));
    SX_ASSUME(y != I(0));
    I q = x / y, m = x % y;
    SX_ASSUME(m <= y);
    Div comp(seq(w), zero, none, n, checked); Div::input_type in; in.x = r.place(V(x)); in.y = r.place(V(y));
    auto res = r.run(comp, in);
    SX_ASSERT(r.at(res.quotient) == V(q), "quotient"); SX_ASSERT(r.at(res.remainder) == V(m), "remainder");
    r.satisfied(); r.sizes(comp, n, checked); r.dry_run_agrees(comp, in, res);
}
static void divide_sound(std::size_t w, std::size_t n, bool checked, std::size_t start) {
    R r(w, 1, 1, 4, start); Div comp(seq(w), zero, none, n, checked); Div::input_type in; in.x = r.place(V(n > 2 ? 7 : 1)); in.y = r.place(V(n > 2 ? 2 : 1));
    auto res = r.run(comp, in);
    R::Goal g; g.inputs_free = true; g.bounded = {{res.quotient, top(n)}}; if (checked) { g.bounded.push_back({in.x, top(n)}); g.bounded.push_back({in.y, top(n)}); }
    r.sound(g, "numbers that do not fit are refused");
}
#define DIVIDE(W) \
    SX_CASE(divide_w##W) { for (std::size_t n : {1, 2, 5}) for (bool c : {false, true}) divide(W, n, c, n % 3); SX_REACH("done"); } \
    SX_CASE(divide_w##W##_8) { for (bool c : {false, true}) { divide(W, 8, c, 1); divide(W, 16, c, 1); }; SX_REACH("done"); } \
    SX_CASE_THOROUGH(divide_w##W##_32) { for (bool c : {false, true}) divide(W, 32, c, 1); SX_REACH("done"); } \
    SX_CASE(divide_sound_w##W) { for (std::size_t n : {1, 2, 5, 64, 126}) for (bool c : {false, true}) divide_sound(W, n, c, n % 3); SX_REACH("done"); }
DIVIDE(3) DIVIDE(4) DIVIDE(5) DIVIDE(15)
// documented: r < y
static void refused(unsigned x, unsigned y, V rem, const char *msg) {
    R r(5, 1, 1, 4, 0); Div comp(seq(5), zero, none, 4, true); Div::input_type in; in.x = r.place(V(x)); in.y = r.place(V(y));
    auto res = r.run(comp, in);
    R::Goal g; g.infeasible = {{in.x, V(x)}, {in.y, V(y)}, {res.remainder, rem}}; r.sound(g, msg);
    SX_REACH("done");
}
SX_CASE(remainder_equal_to_divisor) { refused(4, 2, V(2), "4 divided by 2 does not leave 2"); }
SX_CASE(remainder_negative) { refused(7, 2, -V(1), "7 divided by 2 does not leave -1"); }
SX_CASE(remainder_above_divisor) { refused(7, 2, V(3), "7 divided by 2 does not leave 3"); }
SX_CASE(remainder_wrong) { refused(7, 2, V(0), "7 divided by 2 does not leave 0"); }
