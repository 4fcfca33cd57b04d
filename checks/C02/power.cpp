#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using I = R::integral;
static std::vector<std::uint32_t> none, zero = {0};
template<std::size_t N> using Exp = cmp::exponentiation<A, F, N>;

template<std::size_t N> static void power_of(unsigned long long e, std::size_t start, std::vector<std::uint32_t> cols) {
    R r(15, 1, 1, 2, start); V b = R::input("b"); Exp<N> comp(cols, zero, none); typename Exp<N>::input_type in; in.base = r.place(b); in.exponent = r.place(V(e));
    auto res = r.run(comp, in); V x(1); for (int i = 63; i >= 0; i--) { x = x * x; if (e >> i & 1) x = x * b; }
    SX_ASSERT(r.at(res.output) == x, "power"); r.satisfied(); r.sizes(comp);
}
static std::vector<std::uint32_t> turned() { std::vector<std::uint32_t> c = seq(15); std::rotate(c.begin(), c.begin() + 4, c.end()); return c; }
SX_CASE(short_low) { power_of<8>(sx::fork(sx::u32("e", 0, 31)), 0, seq(15)); SX_REACH("done"); }
SX_CASE(short_high) { power_of<8>(sx::fork(sx::u32("e", 0, 31)) << 3 | 5, 1, turned()); SX_REACH("done"); }
SX_CASE(rows) { power_of<20>(sx::fork(sx::u32("e", 0, 31)) << 5 | 10, 2, turned()); SX_REACH("done"); }
SX_CASE(single_bit) { power_of<1>(sx::fork(sx::u32("e", 0, 1)), 0, seq(15)); SX_REACH("done"); }
template<std::size_t N> static void sound(std::vector<std::uint32_t> cols) {
    R r(15, 1, 1, 2, 1); Exp<N> comp(cols, zero, none); typename Exp<N>::input_type in; in.base = r.place(V(3)); in.exponent = r.place(V(N < 3 ? 1 : 5)); auto res = r.run(comp, in);
    R::Goal g; g.outputs = {res.output}; if (N > 250) g.linear = {{-V(3), {{V(1), in.base}}}, {-V(5), {{V(1), in.exponent}}}};
    r.sound(g, "the power follows from base and exponent", N > 250 ? 12 : 20);
}
SX_CASE(sound_8) { sound<8>(seq(15)); SX_REACH("done"); }
SX_CASE(sound_20) { sound<20>(turned()); SX_REACH("done"); }
SX_CASE(sound_64) { sound<64>(seq(15)); SX_REACH("done"); }
SX_CASE(sound_128) { sound<128>(seq(15)); SX_REACH("done"); }
SX_CASE(sound_248) { sound<248>(turned()); SX_REACH("done"); }
SX_CASE(sound_255) { sound<255>(turned()); SX_REACH("done"); }
