#include <sx_component.h>
#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
static std::vector<std::uint32_t> none, zero = {0};
using Add = cmp::flexible_additions<A, F>; using Mul = cmp::flexible_multiplications<A, F>; using Swap = cmp::flexible_swap<A, F>;
using Pow = cmp::flexible_constant_pow<A, F>; using Poly = cmp::pow_factor<A, F>;

// element-wise sums and products
template<typename C> static void pairs(std::size_t w, std::size_t n, bool mul, std::size_t start) {
    R r(w, 1, 0, 2, start); C comp(seq(w), none, none, n); typename C::input_type in; std::vector<V> a, b;
    for (std::size_t i = 0; i < n; i++) { a.push_back(R::input(nm("a", i))); b.push_back(R::input(nm("b", i))); auto x = r.place(a[i]), y = r.place(b[i]); in.arr.push_back({x, y}); }
    auto res = r.run(comp, in);
    SX_ASSERT(res.output.size() == n, "one result per pair");
    for (std::size_t i = 0; i < n; i++) SX_ASSERT(r.at(res.output[i]) == (mul ? a[i] * b[i] : a[i] + b[i]), "result of a pair");
    r.satisfied(); r.sizes(comp, n);
}
template<typename C> static void pairs_sound(std::size_t w, std::size_t n, std::size_t start) {
    R r(w, 1, 0, 2, start); C comp(seq(w), none, none, n); typename C::input_type in;
    for (std::size_t i = 0; i < n; i++) { auto x = r.place(V(3 + i)), y = r.place(V(7 * i + 2)); in.arr.push_back({x, y}); }
    auto res = r.run(comp, in); R::Goal g; g.outputs = res.output; r.sound(g, "results follow from the pairs");
}
SX_CASE(additions) { for (std::size_t w : {3, 6, 9, 15}) for (std::size_t n : {1, 2, 3, 5, 6, 11}) pairs<Add>(w, n, false, n % 3); SX_REACH("done"); }
SX_CASE(multiplications) { for (std::size_t w : {5, 10, 15, 20}) for (std::size_t n : {1, 2, 3, 5, 6, 11}) pairs<Mul>(w, n, true, n % 3); SX_REACH("done"); }
SX_CASE(additions_sound) { for (std::size_t w : {3, 6, 9, 15}) for (std::size_t n : {1, 2, 3, 5, 6, 11}) pairs_sound<Add>(w, n, n % 3); SX_REACH("done"); }
SX_CASE(multiplications_sound) { for (std::size_t w : {5, 10, 15, 20}) for (std::size_t n : {1, 2, 3, 5, 6, 11}) pairs_sound<Mul>(w, n, n % 3); SX_REACH("done"); }

SX_CASE(swap) {
    for (std::size_t start : {0, 2}) {
        R r(5, 1, 0, 2, start); Swap comp(seq(5), none, none); Swap::input_type in; I s = I::input("s", I(1)); V a = R::input("a"), b = R::input("b");
        in.inp = {r.place(V(s)), r.place(a), r.place(b)}; auto res = r.run(comp, in);
        SX_ASSERT(r.at(res.output[0]) == sel(s != I(0), b, a), "first"); SX_ASSERT(r.at(res.output[1]) == sel(s != I(0), a, b), "second");
        r.satisfied(); r.sizes(comp); r.dry_run_agrees(comp, in, res);
    }
    SX_REACH("done");
}
SX_CASE(swap_sound) {
    for (unsigned s : {0, 1}) { R r(5, 1, 0, 2, s); Swap comp(seq(5), none, none); Swap::input_type in; in.inp = {r.place(V(s)), r.place(V(5)), r.place(V(9))};
        auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output[0], res.output[1]}; r.sound(g, "order follows from the flag"); }
    R r(5, 1, 0, 2, 0); Swap comp(seq(5), none, none); Swap::input_type in; in.inp = {r.place(V(1)), r.place(V(5)), r.place(V(9))}; r.run(comp, in);
    R::Goal g; g.inputs_free = true; g.bounded = {{in.inp[0], I(1)}}; r.sound(g, "the flag is a bit");
    SX_REACH("done");
}

// x to a fixed power
static V power(const V &x, std::uint64_t e) { V r(1); for (int i = 63; i >= 0; i--) { r = r * r; if ((e >> i) & 1) r = r * x; } return r; }
static void pow(std::size_t w, std::uint64_t e, std::size_t start) {
    R r(w, 1, 0, 12, start); V x = R::input("x"); Pow comp(seq(w), none, none, I(e)); Pow::input_type in; in.x = r.place(x); auto res = r.run(comp, in);
    SX_ASSERT(r.at(res.y) == power(x, e), "power"); r.satisfied(); r.sizes(comp, I(e));
}
static void pow_sound(std::size_t w, std::uint64_t e, std::size_t start) {
    R r(w, 1, 0, 12, start); Pow comp(seq(w), none, none, I(e)); Pow::input_type in; in.x = r.place(V(3)); auto res = r.run(comp, in);
    R::Goal g; g.outputs = {res.y}; r.sound(g, "the power follows from the base");
}
static const std::uint64_t exponents[] = {1, 2, 3, 4, 5, 7, 15, 16, 20, 63, 64, 65, 255, 1000, 4095, 4096, 4097, 4225, 65535, 65536, 266305};
SX_CASE(power) { for (std::size_t w : {5, 6, 15}) for (auto e : exponents) pow(w, e, e % 3); SX_REACH("done"); }
SX_CASE(power_sound) { for (std::size_t w : {5, 6, 15}) for (auto e : exponents) pow_sound(w, e, e % 3); SX_REACH("done"); }

// value of a polynomial, highest coefficient first
static void poly(std::size_t w, std::size_t p, std::size_t start) {
    R r(w, 1, 1, 2, start); V t = R::input("t"); Poly comp(seq(w), zero, none, p); Poly::input_type in; in.theta = r.place(t); V want(0);
    for (std::size_t i = 0; i <= p; i++) { V c = R::input(nm("c", i)); in.coefficients.push_back(r.place(c)); want = want * t + c; }
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.output) == want, "value of the polynomial"); r.satisfied(); r.sizes(comp, p);
}
static void poly_sound(std::size_t w, std::size_t p, std::size_t start) {
    R r(w, 1, 1, 2, start); Poly comp(seq(w), zero, none, p); Poly::input_type in; in.theta = r.place(V(3));
    for (std::size_t i = 0; i <= p; i++) in.coefficients.push_back(r.place(V(i * i + 2)));
    auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output}; r.sound(g, "the value follows from the coefficients");
}
SX_CASE(polynomial) { for (std::size_t p : {0, 1, 6, 7, 8, 14, 15, 20}) poly(10, p, p % 3); for (std::size_t p : {48, 49, 60}) poly(18, p, p % 3); SX_REACH("done"); }
SX_CASE(polynomial_sound) { for (std::size_t p : {0, 1, 6, 7, 8, 14, 15, 20}) poly_sound(10, p, p % 3); for (std::size_t p : {48, 49, 60}) poly_sound(18, p, p % 3); SX_REACH("done"); }
