#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
using M = cmp::bit_composition_mode; using S = cmp::bit_shift_mode;
using Comp = cmp::bit_composition<A>; using Dec = cmp::bit_decomposition<A>; using Shift = cmp::bit_shift_constant<A>;
static std::vector<std::uint32_t> none;

// value of bits, first bit most significant unless lsb
static V value_of(const std::vector<V> &b, bool lsb) { V s = V::zero(); for (std::size_t i = 0; i < b.size(); i++) s = s + s + b[lsb ? b.size() - 1 - i : i]; return s; }
static std::vector<V> bits(std::size_t n) { std::vector<V> r; for (std::size_t i = 0; i < n; i++) r.push_back(R::small(nm("b", i), 1)); return r; }
// a number below 2^n and its bits
static std::vector<V> number(std::size_t n, I &x, bool lsb) { I hi = (I(1) << n) - I(1); x = I::input(nm("x", n).c_str(), hi); std::vector<V> r; for (std::size_t i = 0; i < n; i++) r.push_back(V(((x >> (lsb ? i : n - 1 - i)) & I(1)))); return r; }
static I top(std::size_t n) { return (I(1) << n) - I(1); }

static void compose(std::size_t w, std::size_t n, bool check, M mode, std::size_t start) {
    R r(w, 1, 1, 1, start); auto b = bits(n);
    Comp comp(seq(w), std::vector<std::uint32_t>{0}, none, n, check, mode);
    Comp::input_type in; for (auto &x : b) in.bits.push_back(r.place(x));
    auto res = r.run(comp, in); r.satisfied(); r.sizes(comp, n, check, mode);
    SX_ASSERT(r.at(res.output) == value_of(b, mode == M::LSB), "the output is the number written by the bits");
    r.dry_run_agrees(comp, in, res);
}
static void compose_sound(std::size_t w, std::size_t n, bool check, M mode, std::size_t start) {
    R r(w, 1, 1, 1, start);
    Comp comp(seq(w), std::vector<std::uint32_t>{0}, none, n, check, mode);
    Comp::input_type in; for (std::size_t i = 0; i < n; i++) in.bits.push_back(r.place(V((i * i + i / 3) & 1)));
    auto res = r.run(comp, in);
    R::Goal g; g.outputs = {res.output}; r.sound(g, "the output is the only satisfying one");
    if (check) { R::Goal h; h.inputs_free = true; for (auto &x : in.bits) h.bounded.push_back({x, I(1)}); r.sound(h, "inputs other than bits are refused"); }
}
static void decompose(std::size_t w, std::size_t n, M mode, std::size_t start) {
    R r(w, 1, 1, 1, start); I xi; auto b = number(n, xi, mode == M::LSB); V x(xi);
    Dec comp(seq(w), std::vector<std::uint32_t>{0}, none, n, mode);
    Dec::input_type in{r.place(x)};
    auto res = r.run(comp, in); r.satisfied(); r.sizes(comp, n, mode);
    SX_ASSERT(res.output.size() == n, "as many outputs as bits");
    for (std::size_t i = 0; i < n; i++) SX_ASSERT(r.at(res.output[i]) == b[i], nm("bit ", i).c_str());
    r.dry_run_agrees(comp, in, res);
}
static void decompose_sound(std::size_t w, std::size_t n, M mode, std::size_t start) {
    R r(w, 1, 1, 1, start);
    Dec comp(seq(w), std::vector<std::uint32_t>{0}, none, n, mode);
    I x = I(0); for (std::size_t i = 0; i < n; i++) x = x * I(2) + I((i * i + i / 3) & 1);
    Dec::input_type in{r.place(V(x))};
    auto res = r.run(comp, in);
    R::Goal g; g.outputs = res.output; r.sound(g, "the bits are the only satisfying ones");
    R::Goal h; h.inputs_free = true; h.bounded = {{in.input, top(n)}}; for (auto &o : res.output) h.bounded.push_back({o, I(1)}); r.sound(h, "inputs that do not fit are refused");
}
static void shift(std::size_t w, std::size_t n, std::size_t k, S mode, std::size_t start) {
    R r(w, 1, 1, 2, start); I xi; auto b = number(n, xi, false);
    Shift comp(seq(w), std::vector<std::uint32_t>{0}, none, n, k, mode);
    Shift::input_type in{r.place(V(xi))};
    auto res = r.run(comp, in); r.satisfied(); r.sizes(comp, n, k, mode);
    std::vector<V> want;
    if (mode == S::RIGHT) want.assign(b.begin(), b.end() - k); else { want.assign(b.begin() + k, b.end()); want.insert(want.end(), k, V::zero()); }
    SX_ASSERT(r.at(res.output) == value_of(want, false), "the output is the shifted number");
}
static void shift_sound(std::size_t w, std::size_t n, std::size_t k, S mode, std::size_t start) {
    R r(w, 1, 1, 2, start);
    Shift comp(seq(w), std::vector<std::uint32_t>{0}, none, n, k, mode);
    I x = I(0); for (std::size_t i = 0; i < n; i++) x = x * I(2) + I((i * i + i / 3) & 1);
    Shift::input_type in{r.place(V(x))};
    auto res = r.run(comp, in);
    R::Goal g; g.outputs = {res.output}; r.sound(g, "the shifted number is the only satisfying output");
}
// widths with every amount of bits around the capacity of one, two and three gates
#define AROUND(W) {1, 2, 3 * W - 3, 3 * W - 2, 3 * W - 1, 3 * W, 6 * W - 5, 6 * W - 4, 6 * W - 3, 6 * W - 2, 9 * W - 6, 9 * W - 5}
#define CASES(W)                                                                                                                    \
    SX_CASE(compose_w##W) { for (std::size_t n : AROUND(W)) { if (!cmp_fits(W, n)) continue; compose(W, n, true, M::MSB, 0); compose(W, n, false, M::LSB, 2); compose(W, n, true, M::LSB, 1); compose(W, n, false, M::MSB, 0); } SX_REACH("done"); } \
    SX_CASE(decompose_w##W) { for (std::size_t n : AROUND(W)) { if (!cmp_fits(W, n)) continue; decompose(W, n, M::MSB, 0); decompose(W, n, M::LSB, 2); } SX_REACH("done"); } \
    SX_CASE(compose_sound_w##W) { for (std::size_t n : {2, 3 * W - 2, 3 * W - 1, 6 * W - 3}) { if (!cmp_fits(W, n)) continue; compose_sound(W, n, true, M::MSB, 0); compose_sound(W, n, false, M::LSB, 1); } SX_REACH("done"); } \
    SX_CASE(decompose_sound_w##W) { for (std::size_t n : {2, 3 * W - 2, 3 * W - 1, 6 * W - 3}) { if (!cmp_fits(W, n)) continue; decompose_sound(W, n, M::MSB, 0); decompose_sound(W, n, M::LSB, 1); } SX_REACH("done"); }
static bool cmp_fits(std::size_t w, std::size_t n) { return n > 0; }
CASES(3)
CASES(4)
CASES(9)
CASES(15)
SX_CASE(full) { for (std::size_t n : {253, 254}) { compose(15, n, true, M::MSB, 0); decompose(15, n, M::LSB, 1); decompose(9, n, M::MSB, 0); } SX_REACH("done"); }
SX_CASE(full_sound) { for (std::size_t n : {64, 254}) { compose_sound(15, n, true, M::MSB, 0); decompose_sound(15, n, M::LSB, 1); } SX_REACH("done"); }
SX_CASE(shift) { for (std::size_t k : {0, 1, 3, 7}) for (S m : {S::LEFT, S::RIGHT}) { shift(3, 8, k, m, 0); shift(15, 32, 4 * k, m, 1); } SX_REACH("done"); }
SX_CASE(shift_wide) { for (std::size_t k : {1, 63, 128, 252}) for (S m : {S::LEFT, S::RIGHT}) shift(15, 253, k, m, 1); SX_REACH("done"); }
SX_CASE(shift_sound) { for (std::size_t k : {0, 1, 7}) for (S m : {S::LEFT, S::RIGHT}) { shift_sound(3, 8, k, m, 0); shift_sound(15, 64, 8 * k, m, 1); } SX_REACH("done"); }
