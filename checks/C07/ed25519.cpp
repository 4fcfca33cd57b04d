// Helper circuits of Ed25519 over a smaller field: limbs, scalars, multiplication of a point by a bit.
#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/range.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/scalar_non_native_range.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/bool_scalar_multiplication.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using I = F::integral_type;
using var = R::var;
using bit = cmp::plonk_bool_scalar_multiplication<F>;
using range = cmp::plonk_ed25519_range<F>;
using scalar = cmp::plonk_scalar_range<F>;
static const std::vector<std::uint32_t> none;

SX_CASE(bit) {
    for (std::size_t start : {0, 2}) {
        R r(9, 1, 0, 2, start); bit comp(seq(9), none, none); bit::input_type in; V b = R::small("b", 1); std::vector<V> x, y;
        for (std::size_t i = 0; i < 4; i++) { x.push_back(R::input(nm("x", i))); y.push_back(R::input(nm("y", i))); in.T.x[i] = r.place(x[i]); in.T.y[i] = r.place(y[i]); }
        in.k = r.place(b);
        auto res = r.run(comp, in); r.satisfied(); r.sizes(comp);
        for (std::size_t i = 0; i < 4; i++) {
            SX_ASSERT(r.at(res.output.x[i]) == b * x[i], "x of the point or zero");
            SX_ASSERT(r.at(res.output.y[i]) == b * y[i] + (i == 0 ? V::one() - b : V::zero()), "y of the point or one");
        }
    }
    SX_REACH("bit");
}
SX_CASE(bit_sound) {
    for (unsigned b = 0; b < 3; b++) {
        R r(9, 1, 0, 2, b); bit comp(seq(9), none, none); bit::input_type in;
        for (unsigned i = 0; i < 4; i++) { in.T.x[i] = r.place(V(10 + i)); in.T.y[i] = r.place(V(20 + i)); }
        in.k = r.place(V(b == 2 ? 1u : b));
        auto res = r.run(comp, in); R::Goal g;
        for (unsigned i = 0; i < 4; i++) { g.outputs.push_back(res.output.x[i]); g.outputs.push_back(res.output.y[i]); }
        if (b == 2) { g.outputs.clear(); g.infeasible.push_back({in.k, V(2u)}); r.sound(g, "a multiplier other than zero and one is refused"); }
        else r.sound(g, "the product is the only one satisfying the constraints");
    }
    SX_REACH("bit_sound");
}
SX_CASE(limbs) {
    R r(9, 1, 0, 2, sx::fork(sx::u32("start", 0, 1)) * 2); range comp(seq(9), none, none); range::input_type in; std::vector<V> a;
    for (unsigned i = 0; i < 4; i++) { a.push_back(R::small(nm("a", i), i == 3 ? 57 : 66)); in.input[i] = r.place(a[i]); }
    // below 2^255 - 19
    V top = V((I(1) << 66) - I(1));
    SX_ASSUME(!((a[3] == V((I(1) << 57) - I(1))) & (a[2] == top) & (a[1] == top) & (a[0] > V((I(1) << 66) - I(20)))));
    r.run(comp, in); r.satisfied(); r.sizes(comp);
    SX_REACH("limbs");
}
SX_CASE(scalars) {
    R r(9, 1, 0, 2, sx::fork(sx::u32("start", 1, 2))); scalar comp(seq(9), none, none); scalar::input_type in;
    V k = R::small("k", 252); in.k = r.place(k);
    auto res = r.run(comp, in); r.satisfied(); r.sizes(comp);
    V sum = V::zero();
    for (unsigned i = 0; i < 12; i++) { V c = r.at(res.output[i]); SX_ASSERT(c <= V((I(1) << 22) - I(1)), "chunks have 22 bits"); sum = sum + c * V(I(1) << (22 * i)); }
    SX_ASSERT(sum == k, "the chunks spell the scalar");
    SX_REACH("scalars");
}
