// Moving a constraint to other variables keeps its meaning.
#include <sx_component.h>
#include <nil/blueprint/utils/gate_mover.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using A = R::A;
using T = bp::assignment<A>;
using var = R::var;
using con = snark::plonk_constraint<F>;
using ct = var::column_type;
static var w(std::size_t i, int r = 0) { return var(i, r, true, ct::witness); }
static var k(std::size_t i, int r = 0) { return var(i, r, true, ct::constant); }
static con shape(unsigned n, const V &a) {
    switch (n) {
        case 0: return w(0) * w(1, -1) * a - w(2, 1);
        case 1: return (w(0) - w(1)) * (w(2) + k(0)) - a;
        case 2: return (w(0) + k(0, 1)).pow(3) - w(1).pow(2) * a;
        case 3: return w(0) - (w(1) - (w(2) - k(1))) * (w(2) - a);
        case 4: return ((w(0) * w(0) - a).pow(2) + w(1)).pow(2) - (w(2) - w(1)) * k(1, -1);
        default: return con(w(1)) * a;
    }
}
// every cell of the two tables is free; the moved constraint on the second table equals the original on the first
SX_CASE(columns) {
    unsigned n = sx::fork(sx::u32("shape", 0, 5)); V a = R::input("a");
    const std::size_t off = 3; T t(3, 1, 2, 1), u(6, 1, 2, 1);
    for (unsigned i = 0; i < 3; i++) for (unsigned r = 0; r < 3; r++) { V x = R::input("w" + std::to_string(i) + std::to_string(r)); t.witness(i, r) = x; u.witness(i + off, r) = x; u.witness(i, r) = R::input("o" + std::to_string(i) + std::to_string(r)); }
    for (unsigned i = 0; i < 2; i++) for (unsigned r = 0; r < 3; r++) { V x = R::input("k" + std::to_string(i) + std::to_string(r)); t.constant(i, r) = x; u.constant(i, r) = x; }
    con c = shape(n, a);
    bp::gate_mover<F> m([off](var v) { return v.type == ct::witness ? var(v.index + off, v.rotation, v.relative, v.type) : v; });
    con d = m.visit(c);
    SX_ASSERT(d.evaluate(1, u) == c.evaluate(1, t), "a moved constraint reads the moved cells");
    SX_ASSERT(c.evaluate(1, t) == shape(n, a).evaluate(1, t), "the original is left alone");
    SX_REACH("columns");
}
SX_CASE(swap_rows) {
    unsigned n = sx::fork(sx::u32("shape", 0, 5)); V a = R::input("a");
    T t(3, 1, 2, 1), u(3, 1, 2, 1);
    for (unsigned i = 0; i < 3; i++) for (unsigned r = 0; r < 3; r++) { V x = R::input("w" + std::to_string(i) + std::to_string(r)); t.witness(i, r) = x; u.witness(2 - i, 2 - r) = x; }
    for (unsigned i = 0; i < 2; i++) for (unsigned r = 0; r < 3; r++) { V x = R::input("k" + std::to_string(i) + std::to_string(r)); t.constant(i, r) = x; u.constant(i, 2 - r) = x; }
    con c = shape(n, a);
    bp::gate_mover<F> m([](var v) { return var(v.type == ct::witness ? 2 - v.index : v.index, -v.rotation, v.relative, v.type); });
    SX_ASSERT(con(m.visit(c)).evaluate(1, u) == c.evaluate(1, t), "rows and columns moved at once");
    SX_REACH("swap_rows");
}
