#include <sx_component.h>
#include <nil/blueprint/components/hashes/poseidon/plonk/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
using Pos = cmp::poseidon<A, F>; using Flex = cmp::flexible_poseidon<A, F>;
static std::vector<std::uint32_t> none;
using K = cmp::detail::poseidon_constants<F, 3, 55>;

// the permutation: 55 rounds of x -> M x^7 + c
static std::array<V, 3> permute(std::array<V, 3> s) {
    for (std::size_t i = 0; i < 55; i++) {
        std::array<V, 3> p = {s[0].pow(7), s[1].pow(7), s[2].pow(7)}, n;
        for (std::size_t j = 0; j < 3; j++) n[j] = p[0] * V(K::mds[j][0]) + p[1] * V(K::mds[j][1]) + p[2] * V(K::mds[j][2]) + V(K::round_constant[i][j]);
        s = n;
    }
    return s;
}
template<typename C> static void hash(std::size_t w, std::size_t start) {
    R r(w, 1, 0, 60, start); std::array<V, 3> s = {R::input("a"), R::input("b"), R::input("c")}; C comp(seq(w), none, none); typename C::input_type in;
    for (int i = 0; i < 3; i++) in.input_state[i] = r.place(s[i]);
    auto res = r.run(comp, in); auto want = permute(s);
    for (int i = 0; i < 3; i++) SX_ASSERT(r.at(res.output_state[i]) == want[i], "permuted state");
    r.satisfied(); r.sizes(comp);
}
template<typename C> static void hash_sound(std::size_t w, std::size_t start) {
    R r(w, 1, 0, 60, start); C comp(seq(w), none, none); typename C::input_type in;
    for (int i = 0; i < 3; i++) in.input_state[i] = r.place(V(i + 1));
    auto res = r.run(comp, in); R::Goal g; g.outputs = {res.output_state[0], res.output_state[1], res.output_state[2]}; r.sound(g, "the permuted state follows from the input");
}
SX_CASE(poseidon) { hash<Pos>(15, 0); hash<Pos>(15, 3); SX_REACH("done"); }
SX_CASE(poseidon_sound) { hash_sound<Pos>(15, 0); hash_sound<Pos>(15, 2); SX_REACH("done"); }
#define FLEX(W) SX_CASE(flexible_w##W) { hash<Flex>(W, W % 4); SX_REACH("done"); } SX_CASE(flexible_sound_w##W) { hash_sound<Flex>(W, W % 4); SX_REACH("done"); }
FLEX(3) FLEX(6) FLEX(9) FLEX(12) FLEX(15) FLEX(30) FLEX(42) FLEX(84) FLEX(165)
// published test vector of this permutation (Kimchi, no input)
SX_CASE(vector) {
    auto s = permute({V(0), V(0), V(0)});
I want = (((((I(0x2fadbe2852044d02u) << 64) + I(0x8597455bc2abbd1bu)) << 64) + I(0xc873af205dfabb8au)) << 64) + I(0x304600f3e09eeba8u);
    SX_ASSERT(s[0] == V(want), "a8eb9ee0f30046308abbfa5d20af73c81bbdabc25b459785024d045228bead2f"); SX_REACH("done");
}
