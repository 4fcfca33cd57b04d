#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A;
static V flag(bool b) { return sel(b, V::one(), V::zero()); }

// the boolean operators: defined on bits
template<typename C, std::size_t N, typename Spec> void op(Spec spec) {
    for (std::size_t start : {0, 2}) {
        R r(N + 1, 1, 0, 2, start);
        V x = R::small("x", 1), y = R::small("y", 1);
        C comp(seq(N + 1), std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        typename C::input_type in; in.input[0] = r.place(x); if (N > 1) in.input[N - 1] = r.place(y);
        auto res = r.run(comp, in); r.satisfied(); r.sizes(comp);
        SX_ASSERT(r.at(res.output) == spec(x, y), "value of the operator");
    }
    SX_REACH("done");
}
template<typename C, std::size_t N> void op_sound() {
    for (int k = 0; k < (N > 1 ? 4 : 2); k++) {
        R r(N + 1, 1, 0, 2, k);
        C comp(seq(N + 1), std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        typename C::input_type in; in.input[0] = r.place(V(k & 1)); if (N > 1) in.input[N - 1] = r.place(V(k >> 1));
        auto res = r.run(comp, in);
        R::Goal g; g.outputs = {res.output}; r.sound(g, "the output is the only satisfying one");
    }
    SX_REACH("done");
}
// the selection operator: a bit chooses between two field elements
SX_CASE(select) {
    for (std::size_t start : {0, 2}) {
        R r(4, 1, 0, 2, start); V b = R::small("b", 1), x = R::input("x"), y = R::input("y");
        cmp::select<A> comp(seq(4), std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        cmp::select<A>::input_type in; in.input[0] = r.place(b); in.input[1] = r.place(x); in.input[2] = r.place(y);
        auto res = r.run(comp, in); r.satisfied(); r.sizes(comp);
        SX_ASSERT(r.at(res.output) == b * x + (V::one() - b) * y, "the chosen element");
    }
    SX_REACH("done");
}
SX_CASE(select_sound) {
    for (unsigned k = 0; k < 2; k++) {
        R r(4, 1, 0, 2, k); cmp::select<A> comp(seq(4), std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        cmp::select<A>::input_type in; in.input[0] = r.place(V(k)); in.input[1] = r.place(V(17u)); in.input[2] = r.place(V(23u));
        auto res = r.run(comp, in);
        R::Goal g; g.outputs = {res.output}; r.sound(g, "the output is the only satisfying one");
    }
    SX_REACH("done");
}
SX_CASE(logic_not_sound) { op_sound<cmp::logic_not<A>, 1>(); }
SX_CASE(logic_not) { op<cmp::logic_not<A>, 1>([](V x, V) { return V::one() - x; }); }
SX_CASE(logic_and_sound) { op_sound<cmp::logic_and<A>, 2>(); }
SX_CASE(logic_and) { op<cmp::logic_and<A>, 2>([](V x, V y) { return x * y; }); }
SX_CASE(logic_or_sound) { op_sound<cmp::logic_or<A>, 2>(); }
SX_CASE(logic_or) { op<cmp::logic_or<A>, 2>([](V x, V y) { return x + y - x * y; }); }
SX_CASE(logic_xor_sound) { op_sound<cmp::logic_xor<A>, 2>(); }
SX_CASE(logic_xor) { op<cmp::logic_xor<A>, 2>([](V x, V y) { return x + y - x * y - x * y; }); }
SX_CASE(logic_nand_sound) { op_sound<cmp::logic_nand<A>, 2>(); }
SX_CASE(logic_nand) { op<cmp::logic_nand<A>, 2>([](V x, V y) { return V::one() - x * y; }); }
SX_CASE(logic_nor_sound) { op_sound<cmp::logic_nor<A>, 2>(); }
SX_CASE(logic_nor) { op<cmp::logic_nor<A>, 2>([](V x, V y) { return V::one() - x - y + x * y; }); }

// flags of arbitrary elements: zero is false, everything else is true
template<typename C, typename Spec> void flagc(std::size_t w, Spec spec) {
    for (std::size_t start : {0, 2}) {
        R r(w, 1, 0, 2, start);
        V x = R::input("x"), y = R::input("y");
        C comp(seq(w), std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        typename C::input_type in; in.x = r.place(x); in.y = r.place(y);
        auto res = r.run(comp, in); r.satisfied(); r.sizes(comp);
        SX_ASSERT(r.at(res.output) == spec(x, y), "value of the flag");
        SX_ASSERT(C::calculate(x, y) == spec(x, y), "calculate agrees with the circuit");
        r.dry_run_agrees(comp, in, res);
    }
    SX_REACH("done");
}
template<typename C> void flagc_sound(std::size_t w) {
    for (int k = 0; k < 4; k++) {
        R r(w, 1, 0, 2, k);
        C comp(seq(w), std::vector<std::uint32_t>(), std::vector<std::uint32_t>());
        typename C::input_type in; in.x = r.place(V(k & 1 ? 5 : 0)); in.y = r.place(V(k >> 1 ? 9 : 0));
        auto res = r.run(comp, in);
        R::Goal g; g.outputs = {res.output}; r.sound(g, "the flag is the only satisfying output");
    }
    SX_REACH("done");
}
#define FLAGS(w) \
    SX_CASE(and_flag_##w##_sound) { flagc_sound<cmp::logic_and_flag<A>>(w); } \
    SX_CASE(or_flag_##w##_sound) { flagc_sound<cmp::logic_or_flag<A>>(w); } \
    SX_CASE(and_flag_##w) { flagc<cmp::logic_and_flag<A>>(w, [](V x, V y) { return flag(!((x == V::zero()) | (y == V::zero()))); }); } \
    SX_CASE(or_flag_##w) { flagc<cmp::logic_or_flag<A>>(w, [](V x, V y) { return flag(!((x == V::zero()) & (y == V::zero()))); }); }
FLAGS(2) FLAGS(3) FLAGS(4) FLAGS(5)
SX_CASE(or_flag_6_sound) { flagc_sound<cmp::logic_or_flag<A>>(6); }
SX_CASE(or_flag_7_sound) { flagc_sound<cmp::logic_or_flag<A>>(7); }
SX_CASE(or_flag_6) { flagc<cmp::logic_or_flag<A>>(6, [](V x, V y) { return flag(!((x == V::zero()) & (y == V::zero()))); }); }
SX_CASE(or_flag_7) { flagc<cmp::logic_or_flag<A>>(7, [](V x, V y) { return flag(!((x == V::zero()) & (y == V::zero()))); }); }

static void equality(bool ineq) {
    using C = cmp::equality_flag<A, F>;
    for (std::size_t start : {0, 2}) {
        R r(4, 1, 0, 2, start); V x = R::input("x"), y = R::input("y");
        C comp({0, 1, 2, 3}, {}, {}, ineq); C::input_type in; in.x = r.place(x); in.y = r.place(y);
        auto res = r.run(comp, in); r.satisfied(); r.sizes(comp, ineq);
        SX_ASSERT(r.at(res.output) == flag((x == y) != ineq), "value of the flag");
    }
    SX_REACH("done");
}
static void equality_sound(bool ineq) {
    using C = cmp::equality_flag<A, F>;
    for (int k = 0; k < 3; k++) {
        R r(4, 1, 0, 2, k);
        C comp({0, 1, 2, 3}, {}, {}, ineq); C::input_type in; in.x = r.place(V(k ? 5 : 0)); in.y = r.place(V(k == 1 ? 5 : k));
        auto res = r.run(comp, in);
        R::Goal g; g.outputs = {res.output}; r.sound(g, "the flag is the only satisfying output");
    }
    SX_REACH("done");
}
SX_CASE(equality_sound) { equality_sound(false); }
SX_CASE(inequality_sound) { equality_sound(true); }
SX_CASE(equality) { equality(false); }
SX_CASE(inequality) { equality(true); }
