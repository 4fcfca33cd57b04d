// Sums and differences of Ed25519 base field numbers in four limbs: whatever the limbs, the circuit's own values satisfy it
// and are the reduced sum or difference.
#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using I = F::integral_type;
using E = fields::curve25519_base_field;
using X = E::extended_integral_type;
using add = cmp::plonk_ed25519_addition<F>;
using sub = cmp::plonk_ed25519_subtraction<F>;
static const std::vector<std::uint32_t> none;

template<typename C> static void go(const std::vector<V> &a, const std::vector<V> &b, bool minus, unsigned start) {
    R r(9, 1, 0, 2, start); C comp(seq(9), none, none); typename C::input_type in;
    for (unsigned i = 0; i < 4; i++) in.A[i] = r.place(a[i]);
    for (unsigned i = 0; i < 4; i++) in.B[i] = r.place(b[i]);
    auto num = [](const std::vector<V> &l) { X s = 0; for (unsigned i = 0; i < 4; i++) s = s + (X(I(l[i].data)) << (66 * i)); return s; };
    X p = E::modulus, A = num(a), B = num(b);
    SX_ASSUME((A < p) & (B < p));
    auto res = r.run(comp, in);
    std::vector<V> o; for (unsigned i = 0; i < 4; i++) o.push_back(r.at(res.output[i]));
    X O = num(o); SX_ASSERT(O < p, "the result is reduced");
    if (minus) SX_ASSERT((O + B == A) | (O + B == A + p), "the result is the difference"); else SX_ASSERT((O == A + B) | (O + p == A + B), "the result is the sum");
    r.satisfied();
    SX_REACH("computed");
}
// limb `which` of both numbers free, the others as given
template<typename C> static void limb(unsigned which, unsigned bits, bool minus, unsigned start, unsigned lift = 0) {
    std::vector<V> a = {V(7u), V(8u), V(9u), V(10u)}, b = {V(9u), V(10u), V(11u), V(I(1) << 56)};
    V l = V(I(1) << lift);
    a[which] = R::small("a", bits) * l; b[which] = R::small("b", bits) * l;
    go<C>(a, b, minus, start);
}
SX_CASE(sum_low) { limb<add>(0, 66, false, 2); }
SX_CASE(sum_second) { limb<add>(1, 66, false, 0); }
SX_CASE(sum_top) { limb<add>(3, 8, false, 1, 49); }
SX_CASE_THOROUGH(sum_top_wide) { limb<add>(3, 57, false, 1); }
SX_CASE(difference_low) { limb<sub>(0, 66, true, 2); }
SX_CASE(difference_top) { limb<sub>(3, 57, true, 1); }
SX_CASE_THOROUGH(difference_third) { limb<sub>(2, 66, true, 0); }
// low limbs at the very ends of their range, where the low difference borrows or the low sum carries
template<typename C> static void edges(bool minus, unsigned a1, unsigned b1) {
    V top = V((I(1) << 66) - 1), x = R::small("a", 6), y = R::small("b", 6);
    go<C>({minus ? x : top - x, V(a1), V(0u), V(0u)}, {top - y, V(b1), V(0u), V(0u)}, minus, 3);
}
SX_CASE(sum_carries) { edges<add>(false, 1, 1); }
SX_CASE(difference_borrows) { edges<sub>(true, 1, 7); }
SX_CASE(difference_borrows_above) { edges<sub>(true, 7, 1); }
