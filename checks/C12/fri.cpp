#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/linear_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/quadratic_interpolation.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
static std::vector<std::uint32_t> none, zero = {0};
using Lin = cmp::linear_inter_coefs<A, F>; using Quad = cmp::quadratic_inter_coefs<A, F>; using Fold = cmp::fri_lin_inter<A, F>;
using Swap = cmp::fri_array_swap<A, F>; using Coset = cmp::fri_cosets<A, F>;

// the line through two points
SX_CASE(line) {
    for (std::size_t start : {0, 2}) {
        R r(7, 1, 0, 2, start); V x0 = R::input("x0"), z0 = R::input("z0"), x1 = R::input("x1"), z1 = R::input("z1"); SX_ASSUME(x0 != x1);
        Lin comp(seq(7), none, none); Lin::input_type in; in.x0 = r.place(x0); in.z0 = r.place(z0); in.x1 = r.place(x1); in.z1 = r.place(z1);
        auto res = r.run(comp, in); V a = r.at(res.output[0]), b = r.at(res.output[1]);
        SX_ASSERT(a + b * x0 == z0, "passes through the first point"); SX_ASSERT(a + b * x1 == z1, "passes through the second point");
        r.satisfied(); r.sizes(comp);
    }
    SX_REACH("done");
}
SX_CASE(line_sound) {
    for (std::size_t start : {0, 2}) {
        R r(7, 1, 0, 2, start); Lin comp(seq(7), none, none); Lin::input_type in; in.x0 = r.place(V(3)); in.z0 = r.place(V(11)); in.x1 = r.place(V(8)); in.z1 = r.place(V(29));
        auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output[0], res.output[1]}; r.sound(g, "coefficients follow from the points");
        R::Goal h; h.inputs_free = true; h.none = true; h.linear = {{V(0), {{V(1), in.x0}, {-V(1), in.x1}}}}; r.sound(h, "points above each other are refused");
    }
    SX_REACH("done");
}
SX_CASE(parabola) {
    for (std::size_t start : {0, 2}) {
        R r(10, 1, 0, 2, start); V x[3], z[3]; for (int i = 0; i < 3; i++) { x[i] = R::input(nm("x", i)); z[i] = R::input(nm("z", i)); }
        SX_ASSUME(x[0] != x[1]); SX_ASSUME(x[0] != x[2]); SX_ASSUME(x[1] != x[2]);
        Quad comp(seq(10), none, none); Quad::input_type in; in.x0 = r.place(x[0]); in.z0 = r.place(z[0]); in.x1 = r.place(x[1]); in.z1 = r.place(z[1]); in.x2 = r.place(x[2]); in.z2 = r.place(z[2]);
        auto res = r.run(comp, in); V a = r.at(res.output[0]), b = r.at(res.output[1]), c = r.at(res.output[2]);
        for (int i = 0; i < 3; i++) SX_ASSERT(a + b * x[i] + c * x[i] * x[i] == z[i], "passes through the point");
        r.satisfied(); r.sizes(comp);
    }
    SX_REACH("done");
}
SX_CASE(parabola_sound) {
    for (std::size_t start : {0, 2}) {
        R r(10, 1, 0, 2, start); Quad comp(seq(10), none, none); Quad::input_type in; in.x0 = r.place(V(3)); in.z0 = r.place(V(11)); in.x1 = r.place(V(8)); in.z1 = r.place(V(29)); in.x2 = r.place(V(20)); in.z2 = r.place(V(2));
        auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output[0], res.output[1], res.output[2]}; r.sound(g, "coefficients follow from the points");
        for (auto p : {std::pair<R::var, R::var>{in.x0, in.x1}, {in.x0, in.x2}, {in.x1, in.x2}}) {
            R::Goal h; h.inputs_free = true; h.none = true; h.linear = {{V(0), {{V(1), p.first}, {-V(1), p.second}}}}; r.sound(h, "points above each other are refused");
        }
    }
    SX_REACH("done");
}
// folding: the line through (s, y0), (-s, y1) at alpha
SX_CASE(fold) {
    for (std::size_t start : {0, 2}) {
        R r(5, 1, 0, 2, start); V s = R::input("s"), y0 = R::input("y0"), y1 = R::input("y1"), al = R::input("alpha"); SX_ASSUME(s != V(0));
        Fold comp(seq(5), none, none); Fold::input_type in; in.s = r.place(s); in.y0 = r.place(y0); in.y1 = r.place(y1); in.alpha = r.place(al);
        auto res = r.run(comp, in);
        SX_ASSERT(r.at(res.output) * V(2) * s == (y0 + y1) * s + al * (y0 - y1), "value at alpha"); r.satisfied(); r.sizes(comp);
    }
    SX_REACH("done");
}
SX_CASE(fold_sound) {
    R r(5, 1, 0, 2, 1); Fold comp(seq(5), none, none); Fold::input_type in; in.s = r.place(V(4)); in.y0 = r.place(V(9)); in.y1 = r.place(V(100)); in.alpha = r.place(V(77));
    auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output}; g.nonzero = {in.s}; r.sound(g, "the value follows from the inputs"); SX_REACH("done");
}
// exchanging the members of each pair
static void swap(std::size_t w, std::size_t half, std::size_t start) {
    R r(w, 1, 0, 2, start); I t = I::input("t", I(1)); Swap comp(seq(w), none, none, half); Swap::input_type in; in.t = r.place(V(t)); std::vector<V> v;
    for (std::size_t i = 0; i < 2 * half; i++) { v.push_back(R::input(nm("v", i))); in.arr.push_back(r.place(v[i])); }
    auto res = r.run(comp, in);
    for (std::size_t i = 0; i < 2 * half; i++) SX_ASSERT(r.at(res.output[i]) == sel(t != I(0), v[i ^ 1], v[i]), "element");
    r.satisfied(); r.sizes(comp, half);
}
static void swap_sound(std::size_t w, std::size_t half, unsigned t, std::size_t start) {
    R r(w, 1, 0, 2, start); Swap comp(seq(w), none, none, half); Swap::input_type in; in.t = r.place(V(t));
    for (std::size_t i = 0; i < 2 * half; i++) in.arr.push_back(r.place(V(i * i + 3)));
    auto res = r.run(comp, in); R::Goal g; g.outputs = res.output; r.sound(g, "the order follows from the bit");
}
SX_CASE(swap_pairs) { for (std::size_t w : {5, 9, 13, 17}) for (std::size_t h : {5, 6, 8, 9}) swap(w, h, h % 3); SX_REACH("done"); }
SX_CASE(swap_pairs_sound) { for (std::size_t w : {5, 9, 13, 17}) for (std::size_t h : {5, 6, 8}) for (unsigned t : {0, 1}) swap_sound(w, h, t, h % 3); SX_REACH("done"); }
// s = omega^(x mod 2^n) and its squares
static V root(unsigned n) { V g(5); V e = g; I m = (I(V::modulus) - I(1)) >> n; V r(1); for (int i = 254; i >= 0; i--) { r = r * r; if (((m >> i) & I(1)) != I(0)) r = r * g; } return r; }
static void coset(std::size_t w, std::size_t n, std::size_t start, I x) {
    R r(w, 1, 1, 5, start); V om = root(n); Coset comp(seq(w), zero, none, n, om); Coset::input_type in; in.x = r.place(V(x));
    auto res = r.run(comp, in); V s(1), p = om;
    for (std::size_t i = 0; i < n; i++) { s = s * sel(((x >> i) & I(1)) != I(0), p, V(1)); p = p * p; }
    for (std::size_t k = 0; k < n; k++) {
        SX_ASSERT(r.at(res.output[k][0]) == s, "coset element"); SX_ASSERT(r.at(res.output[k][1]) == -s, "its negative");
        SX_ASSERT(r.at(res.output[k][2]) == V((x >> (n - 1 - k)) & I(1)), "order bit"); s = s * s;
    }
    r.satisfied(); r.sizes(comp, n, om);
}
static void coset_sound(std::size_t w, std::size_t n, I x) {
    R r(w, 1, 1, 5, 1); V om = root(n); Coset comp(seq(w), zero, none, n, om); Coset::input_type in; in.x = r.place(V(x));
    auto res = r.run(comp, in); R::Goal g; for (auto &o : res.output) for (auto &v : o) g.outputs.push_back(v); g.linear = {{-V(x), {{V(1), in.x}}}}; r.sound(g, "the coset follows from the index", 60);
}
SX_CASE(coset_low) { I d = I::input("d", I(255)); coset(9, 2, 0, d); SX_REACH("done"); }
SX_CASE(coset_top) { for (unsigned long long d : {1ull, 2ull, 3ull, 0x100000002ull}) coset(18, 3, 1, I(V::modulus) - I(d)); SX_REACH("done"); }
SX_CASE(coset_mid) { I d = I::input("d", I(255)); coset(27, 3, 2, (I(V::modulus) >> 1) - d); SX_REACH("done"); }
SX_CASE(coset_sound_w9) { coset_sound(9, 2, I(5)); SX_REACH("done"); }
SX_CASE(coset_sound_w18) { coset_sound(18, 3, I(V::modulus) - I(2)); SX_REACH("done"); }
SX_CASE_THOROUGH(coset_w9) { coset(9, 2, 0, I::input("x", I(V::modulus) - I(1))); SX_REACH("done"); }
SX_CASE_THOROUGH(coset_w18) { coset(18, 3, 1, I::input("x", I(V::modulus) - I(1))); SX_REACH("done"); }
