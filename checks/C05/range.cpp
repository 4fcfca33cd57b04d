#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
using M = cmp::comparison_mode;
using Range = cmp::range_check<A>; using Un = cmp::comparison_unchecked<A>; using Ch = cmp::comparison_checked<A>; using Fl = cmp::comparison_flag<A>;
static std::vector<std::uint32_t> none, zero = {0};
static I top(std::size_t n) { return (I(1) << n) - I(1); }
static I pattern(std::size_t n, unsigned k) { I x = I(0); for (std::size_t i = 0; i < n; i++) x = x * I(2) + I(((i * i + i / 3) >> k) & 1); return x; }
static bool upward(M m) { return m == M::LESS_THAN || m == M::LESS_EQUAL; }
static bool strict(M m) { return m == M::LESS_THAN || m == M::GREATER_THAN; }

static void range(std::size_t w, std::size_t n, std::size_t start) {
    R r(w, 1, 1, 2, start); I x = I::input(nm("x", n).c_str(), top(n));
    Range comp(seq(w), zero, none, n); Range::input_type in{r.place(V(x))};
    r.run(comp, in); r.satisfied(); r.sizes(comp, n);
}
static void range_sound(std::size_t w, std::size_t n, std::size_t start) {
    R r(w, 1, 1, 2, start);
    Range comp(seq(w), zero, none, n); Range::input_type in{r.place(V(pattern(n, 0)))};
    r.run(comp, in);
    R::Goal g; g.inputs_free = true; g.bounded = {{in.x, top(n)}}; r.sound(g, "numbers that do not fit are refused");
}
#define RANGE(W) \
    SX_CASE(range_w##W) { for (std::size_t n : {1, 2, 3, 2 * W - 3, 2 * W - 2, 2 * W - 1, 2 * W, 4 * W - 5, 4 * W - 4, 4 * W - 3, 64, 127, 128, 253, 254}) { range(W, n, 0); range(W, n, 2); } SX_REACH("done"); } \
    SX_CASE(range_sound_w##W) { for (std::size_t n : {1, 2, 3, 2 * W - 3, 2 * W - 2, 2 * W - 1, 4 * W - 3, 64, 253, 254}) range_sound(W, n, n % 3); SX_REACH("done"); }
RANGE(3) RANGE(4) RANGE(9) RANGE(15)

// the comparison holds: two numbers in the required order
template<typename C> void compare(std::size_t w, std::size_t n, M m, std::size_t start) {
    R r(w, 1, 1, 3, start); I x = I::input(nm("x", n).c_str(), top(n)), y = I::input(nm("y", n).c_str(), top(n));
    bool ok = upward(m) ? (strict(m) ? x < y : x <= y) : (strict(m) ? y < x : y <= x);
    SX_ASSUME(ok);
    C comp(seq(w), zero, none, n, m); typename C::input_type in; in.x = r.place(V(x)); in.y = r.place(V(y));
    r.run(comp, in); r.satisfied(); r.sizes(comp, n, m);
}
// numbers in the wrong order satisfy no assignment: lower == higher + e with e >= 0 (e >= 1 for the non-strict orders)
template<typename C> void compare_sound(std::size_t w, std::size_t n, M m, std::size_t start, bool inputs_checked) {
    R r(w, 1, 1, 3, start); I a = pattern(n, 0), b = pattern(n, 1); if (b < a) std::swap(a, b); if (a == b) b = b + I(1);
    C comp(seq(w), zero, none, n, m); typename C::input_type in; in.x = r.place(V(upward(m) ? a : b)); in.y = r.place(V(upward(m) ? b : a));
    r.run(comp, in);
    auto e = r.place(V::zero()); auto lo = upward(m) ? in.x : in.y, hi = upward(m) ? in.y : in.x;
    I lo_top = top(n), hi_top = top(n);
    if (inputs_checked) {   // chunks of two bits: the lower number fits the rounded size, the higher one is at most twice that
        std::size_t k = n < 253 ? n + n % 2 : n; lo_top = top(k); hi_top = top(k + 1);
        R::Goal g; g.inputs_free = true; g.bounded = {{lo, lo_top}, {hi, hi_top}}; r.sound(g, "numbers far beyond the size are refused");
    }
    R::Goal g; g.inputs_free = true; g.none = true; g.assumed = {{lo, lo_top}, {hi, hi_top}, {e, lo_top}};
    g.linear = {{V(strict(m) ? 0 : 1), {{V::one(), hi}, {V::one(), e}, {-V::one(), lo}}}};
    r.sound(g, "numbers in the wrong order are refused");
}
static const M orders[] = {M::LESS_THAN, M::LESS_EQUAL, M::GREATER_THAN, M::GREATER_EQUAL, M::FLAG};
static M order(unsigned n = 4) { return orders[sx::fork(sx::u32("order", 0, n - 1))]; }
#define COMPARE(W) \
    SX_CASE(unchecked_w##W) { M m = order(); for (std::size_t n : {1, 2, 2 * W - 1, 64, 253}) compare<Un>(W, n, m, n % 3); SX_REACH("done"); } \
    SX_CASE(checked_w##W) { M m = order(); for (std::size_t n : {1, 2, 2 * W - 1, 64, 253}) compare<Ch>(W, n, m, n % 3); SX_REACH("done"); } \
    SX_CASE(unchecked_sound_w##W) { M m = order(); for (std::size_t n : {1, 2, 2 * W - 1, 64, 253}) compare_sound<Un>(W, n, m, n % 3, false); SX_REACH("done"); } \
    SX_CASE(checked_sound_w##W) { M m = order(); for (std::size_t n : {1, 2, 2 * W - 1, 64, 252, 253}) compare_sound<Ch>(W, n, m, n % 3, true); SX_REACH("done"); }
COMPARE(3) COMPARE(4) COMPARE(15)
// a number larger than the declared size is refused (documented: "this condition is checked")
static void checked_fits(std::size_t n, unsigned x, unsigned y, const char *msg) {
    R r(3, 1, 1, 3, 0); Ch comp(seq(3), zero, none, n, M::LESS_THAN); Ch::input_type in; in.x = r.place(V(0)); in.y = r.place(V(1));
    r.run(comp, in);
    R::Goal g; g.infeasible = {{in.x, V(x)}, {in.y, V(y)}}; r.sound(g, msg);
    SX_REACH("done");
}
SX_CASE(checked_fits_lower) { checked_fits(1, 2, 3, "2 < 3 is refused as one-bit numbers"); }
SX_CASE(checked_fits_upper) { checked_fits(2, 3, 4, "3 < 4 is refused as two-bit numbers"); }

static V as_flag(I x, I y, M m) {
    V lt = sel(x < y, V(1), V(0)), gt = sel(y < x, V(1), V(0));
    switch (m) {
        case M::FLAG: return gt - lt;
        case M::LESS_THAN: return lt;
        case M::LESS_EQUAL: return V(1) - gt;
        case M::GREATER_THAN: return gt;
        default: return V(1) - lt;
    }
}
static void flag(std::size_t w, std::size_t n, M m, std::size_t start) {
    R r(w, 1, 1, 3, start); I x = I::input(nm("x", n).c_str(), top(n)), y = I::input(nm("y", n).c_str(), top(n));
    Fl comp(seq(w), zero, none, n, m); Fl::input_type in; in.x = r.place(V(x)); in.y = r.place(V(y));
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.flag) == as_flag(x, y, m), "comparison flag");
    r.satisfied(); r.sizes(comp, n, m); r.dry_run_agrees(comp, in, res);
}
static void flag_sound(std::size_t w, std::size_t n, M m, std::size_t start) {
    R r(w, 1, 1, 3, start);
    Fl comp(seq(w), zero, none, n, m); Fl::input_type in; in.x = r.place(V(pattern(n, 0))); in.y = r.place(V(pattern(n, 1)));
    auto res = r.run(comp, in);
    R::Goal g; g.outputs = {res.flag}; r.sound(g, "the comparison flag is determined by the numbers");
    R::Goal h; h.inputs_free = true; h.bounded = {{in.x, top(n)}, {in.y, top(n)}}; r.sound(h, "numbers that do not fit are refused");
}
#define FLAG(W) \
    SX_CASE(flag_w##W##_1) { flag(W, 1, order(5), 0); SX_REACH("done"); } \
    SX_CASE(flag_w##W##_5) { flag(W, 5, order(5), 2); SX_REACH("done"); } \
    SX_CASE(flag_w##W##_16) { flag(W, 16, order(5), 1); SX_REACH("done"); } \
    SX_CASE_THOROUGH(flag_w##W##_64) { flag(W, 64, order(5), 1); SX_REACH("done"); } \
    SX_CASE(flag_sound_w##W) { M m = order(5); for (std::size_t n : {1, 2, 5, 16}) flag_sound(W, n, m, n % 3); SX_REACH("done"); }
FLAG(3) FLAG(4) FLAG(5) FLAG(15)
