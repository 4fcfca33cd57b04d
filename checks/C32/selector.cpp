// The state selector: one column pair per two options, exactly one option is active, and it is the one given.
#include <sx_component.h>
#include <nil/blueprint/zkevm/state_selector.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = F::value_type; using I = F::integral_type; using var = R::var;
using C = cmp::state_selector<R::A, F>;
struct S {
    std::size_t n, w; R r; C c; std::vector<std::uint32_t> cols;
    S(std::size_t n, std::size_t start) : n(n), w((n + 1) / 2 + 2), r(w, 1, 0, 1, start), c(seq(w), std::array<std::uint32_t, 0>{}, std::array<std::uint32_t, 0>{}, n), cols(seq(w)) {}
    V active(std::size_t k) { return c.option_constraint(k).evaluate(r.start, r.t); }
};
static void honest(std::size_t n, std::size_t start) {
    S s(n, start); I i = I::input("i", I(unsigned(n - 1))); C::input_type in; in.item_index = s.r.place(V(i));
    generate_circuit(s.c, s.r.c, s.r.t, in, start); generate_assignments(s.c, s.r.t, in, start);
    s.r.satisfied(); s.r.sizes(s.c, n);
    for (std::size_t k = 0; k < n; k++) SX_ASSERT((s.active(k) == V::zero()) == !(i == I(unsigned(k))), "exactly the option given is active");
    SX_REACH("honest");
}
static void sound(std::size_t n, std::size_t at, std::size_t start) {
    S s(n, start); C::input_type in; in.item_index = s.r.place(V(at));
    generate_circuit(s.c, s.r.c, s.r.t, in, start); generate_assignments(s.c, s.r.t, in, start);
    R::Goal g; for (auto c : s.cols) g.outputs.emplace_back(c, start, false, var::column_type::witness); g.pinned = {{in.item_index, V(at)}};
    s.r.sound(g, "the columns follow from the option"); SX_REACH("sound");
}
static void refused(std::size_t n, const V &at) {
    S s(n, 1); C::input_type in; in.item_index = s.r.place(V(0u));
    generate_circuit(s.c, s.r.c, s.r.t, in, 1); generate_assignments(s.c, s.r.t, in, 1);
    R::Goal g; g.infeasible = {{in.item_index, at}}; s.r.sound(g, "there is no such option"); SX_REACH("refused");
}
SX_CASE(one) { honest(1, 0); }
SX_CASE(two) { honest(2, 1); }
SX_CASE(five) { honest(5, 2); }
SX_CASE(eight) { honest(8, 0); }
SX_CASE(twenty) { honest(20, 1); }
SX_CASE_THOROUGH(all) { honest(149, 0); }
SX_CASE(sound_five) { sound(5, sx::fork(sx::u32("i", 0, 4)), 1); }
SX_CASE(sound_eight) { sound(8, sx::fork(sx::u32("i", 0, 7)), 0); }
SX_CASE(refused_5) { refused(5, V(5u)); }
SX_CASE(refused_5_6) { refused(5, V(6u)); }
SX_CASE(refused_8) { refused(8, V(8u)); }
SX_CASE(refused_8_minus) { refused(8, -V(1u)); }
