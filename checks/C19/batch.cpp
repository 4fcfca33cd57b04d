// Batched components and batched constants: after finalisation every deferred variable is a real cell with the right value.
#include <sx_component.h>
#include <nil/blueprint/component_batch.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using A = R::A;
using var = R::var;
using con = snark::plonk_constraint<F>;
using pol = bp::basic_non_native_policy<F>;
using mul = cmp::multiplication<A, F, pol>;
using add = cmp::addition<A, F, pol>;
using divz = cmp::division_or_zero<A, F>;

static var real(R &r, const var &v) { auto &m = r.t.get_batch_variable_map(); return m.count(v) ? m.at(v) : v; }
template<typename C> static var both(R &r, const typename C::input_type &in, bool circuit_first) {
    if (circuit_first) {
        auto c = r.t.template add_input_to_batch_circuit<C>(in); auto a = r.t.template add_input_to_batch_assignment<C>(in);
        SX_ASSERT(c.output == a.output, "circuit and assignment see the same deferred variable");
        return a.output;
    }
    auto a = r.t.template add_input_to_batch_assignment<C>(in); auto c = r.t.template add_input_to_batch_circuit<C>(in);
    SX_ASSERT(c.output == a.output, "circuit and assignment see the same deferred variable");
    return a.output;
}
static bool isReal(const var &v) { return (v.type == var::column_type::witness || v.type == var::column_type::public_input || v.type == var::column_type::constant) && v.index < 1000; }
static void placed(R &r) { for (auto &cc : r.c.copy_constraints()) SX_ASSERT(isReal(cc.first) && isReal(cc.second), "no copy constraint mentions a deferred variable"); }

// n products on a table of w columns
static void products(std::size_t w, std::size_t n, std::size_t start, bool circuit_first, bool sound) {
    R r(w, 1, 1, 3, start); std::vector<var> outs; std::vector<V> want;
    for (std::size_t i = 0; i < n; i++) {
        V a = sound ? V(3 + i) : R::input(nm("a", i)), b = sound ? V(20 + i) : R::input(nm("b", i));
        var x = r.place(a), y = r.place(b);
        outs.push_back(both<mul>(r, {x, y}, circuit_first)); want.push_back(a * b);
    }
    std::size_t next = r.t.finalize_component_batches(r.c, start);
    const std::size_t per = w / 3;
    SX_ASSERT(next == start + (n + per - 1) / per, "rows taken by the batch");
    R::Goal g;
    for (std::size_t i = 0; i < n; i++) { var o = real(r, outs[i]); SX_ASSERT(isReal(o), "a deferred result is placed"); SX_ASSERT(r.at(o) == want[i], "a placed result has the value"); g.outputs.push_back(o); }
    placed(r); r.satisfied();
    for (std::size_t i = 0; i < r.t.witnesses_amount(); i++) SX_ASSERT(r.t.witness_column_size(i) <= next, "the batch stays within its rows");
    if (sound) r.sound(g, "batched products are determined by the factors");
    SX_REACH("products");
}
SX_CASE(products_9_2) { products(9, 2, 0, false, false); }
SX_CASE(products_9_3) { products(9, 3, 1, false, false); }
SX_CASE(products_9_4) { products(9, 4, 1, true, false); }
SX_CASE(products_8_5) { products(8, 5, 2, false, false); }
SX_CASE(products_3_2) { products(3, 2, 0, true, false); }
SX_CASE(products_sound_9_2) { products(9, 2, 1, false, true); }
SX_CASE(products_sound_9_4) { products(9, 4, 0, true, true); }
SX_CASE(products_sound_8_5) { products(8, 5, 2, false, true); }
SX_CASE(products_sound_15_7) { products(15, 7, 1, false, true); }

// chains through the batches, an ordinary component in between, a repeated request
static void chain(std::size_t w, bool sound) {
    R r(w, 1, 1, 5, 0);
    V a = sound ? V(3) : R::input("a"), b = sound ? V(5) : R::input("b"), c = sound ? V(7) : R::input("c");
    var x = r.place(a), y = r.place(b), z = r.place(c);
    var p = both<mul>(r, {x, y}, false);
    var s = both<add>(r, {p, z}, false);
    var q = both<mul>(r, {s, p}, false);
    add plain({0, 1, 2}, {}, {});
    add::input_type in{q, s};
    auto res = generate_assignments(plain, r.t, in, 0); generate_circuit(plain, r.c, r.t, in, 0);
    var u = both<mul>(r, {res.output, x}, false), again = both<mul>(r, {x, y}, false);
    SX_ASSERT(again == p, "a repeated request is not computed twice");
    SX_ASSERT(var_value(r.t, q) == (a * b + c) * a * b, "a deferred variable has its value before it is placed");
    r.t.finalize_component_batches(r.c, 1);
    V P = a * b, S = P + c, Q = S * P, T = Q + S;
    var outs[5] = {real(r, p), real(r, s), real(r, q), res.output, real(r, u)}; V want[5] = {P, S, Q, T, T * a};
    R::Goal g;
    for (int i = 0; i < 5; i++) { SX_ASSERT(isReal(outs[i]) && r.at(outs[i]) == want[i], "chained results"); g.outputs.push_back(outs[i]); }
    placed(r); r.satisfied();
    if (sound) r.sound(g, "chained batched results are determined by the inputs");
    SX_REACH("chain");
}
SX_CASE(chain_9) { chain(9, false); }
SX_CASE(chain_7) { chain(7, false); }
SX_CASE(chain_sound_9) { chain(9, true); }
SX_CASE(chain_sound_6) { chain(6, true); }

// a component with more columns than it has inputs and results
SX_CASE(quotients) {
    R r(10, 1, 1, 3, 1); std::vector<var> outs; V d[3];
    for (int i = 0; i < 3; i++) { V a = R::input(nm("a", i)); d[i] = R::input(nm("d", i)); if (i == 1) d[i] = V::zero(); var x = r.place(a), y = r.place(d[i]); outs.push_back(both<divz>(r, {x, y}, false)); }
    r.t.finalize_component_batches(r.c, 1); placed(r); r.satisfied();
    for (int i = 0; i < 3; i++) { V a = static_cast<const bp::assignment<A> &>(r.t).public_input(0, 2 * i), o = r.at(real(r, outs[i])); SX_ASSERT((d[i] == V::zero()) ? o == V::zero() : o * d[i] == a, "batched quotients"); }
    SX_REACH("quotients");
}

// Batched constants take free cells of the constant column: cells that the circuit uses keep their values.
// use: 0 none, 1 copy constraint, 2 gate on this row, 3 gate on the row before, 4 gate on the row after, 5 lookup gate
static void constants(unsigned first_use, unsigned last_use, std::size_t start, std::size_t filled, std::size_t fresh) {
    R r(2, 1, 2, 8, 0); std::map<std::size_t, V> keep; std::vector<V> old;
    for (std::size_t row = 0; row < filled; row++) { old.push_back(R::input(nm("k", row))); r.t.constant(0, row) = old[row]; r.t.constant(1, row) = V(1000 + row); }
    const bp::assignment<A> &t = r.t;
    auto k = [](int rot) { return var(0, rot, true, var::column_type::constant); };
    for (std::size_t row = 1; row < filled; row++) {
        unsigned use = sx::fork(sx::u32(nm("use", row).c_str(), first_use, last_use));
        if (use) keep[row] = t.constant(0, row);
        switch (use) {
            case 1: r.t.witness(0, row) = t.constant(0, row); r.c.add_copy_constraint({var(0, row, false), var(0, row, false, var::column_type::constant)}); break;
            case 2: r.t.witness(1, row) = t.constant(0, row); r.t.enable_selector(r.c.add_gate(std::vector<con>{var(1, 0) - k(0)}), row); break;
            case 3: r.t.witness(1, row) = t.constant(0, row); r.t.enable_selector(r.c.add_gate(std::vector<con>{var(1, 1) - k(1)}), row - 1); break;
            case 4: r.t.witness(1, row) = t.constant(0, row); r.t.enable_selector(r.c.add_gate(std::vector<con>{var(1, -1) - k(-1)}), row + 1); break;
            case 5: r.t.enable_selector(r.c.add_lookup_gate(snark::plonk_lookup_constraint<F>{1, {k(0) + var(0, 0)}}), row); break;
            default: break;
        }
    }
    std::vector<var> vs; std::vector<V> want;
    for (std::size_t i = 0; i < fresh; i++) {
        V v = V(77 + i); var b = r.t.add_batch_constant_variable(v); vs.push_back(b); want.push_back(v);
        r.t.public_input(0, i) = v; r.c.add_copy_constraint({b, var(0, i, false, var::column_type::public_input)});
    }
    std::size_t before = r.c.copy_constraints().size();
    std::size_t next = r.t.finalize_constant_batches(r.c, 0, start);
    placed(r); r.satisfied();
    for (auto &kv : keep) SX_ASSERT(t.constant(0, kv.first) == kv.second, "a constant in use keeps its value");
    for (std::size_t row = 0; row < std::min(start, filled); row++) SX_ASSERT(t.constant(0, row) == old[row], "rows before the first allowed one are left alone");
    for (std::size_t row = 0; row < filled; row++) SX_ASSERT(t.constant(1, row) == V(1000 + row), "other constant columns are left alone");
    SX_ASSERT(r.c.copy_constraints().size() == before, "no copy constraint is lost");
    SX_ASSERT(next >= start + fresh && t.constant_column_size(0) <= std::max(next, filled), "the next free row");
    SX_REACH("constants");
}
SX_CASE(constants_copied) { constants(0, 1, 1, 4, 2); }
SX_CASE(constants_in_gates) { constants(1, 4, 1, 3, 2); }
SX_CASE(constants_in_gates_later) { constants(2, 4, 2, 4, 2); }
SX_CASE(constants_looked_up) { constants(5, 5, 1, 3, 2); }
SX_CASE(constants_free) { constants(0, 0, 1, 3, 4); }
SX_CASE_THOROUGH(constants_any) { constants(0, 5, 1, 4, 3); }
// real cells are never mistaken for deferred ones
SX_CASE(real_cells) {
    using ct = var::column_type; R r(4, 1, 3, 2, 0);
    ct type = sx::fork(sx::b("constant")) ? ct::constant : ct::witness; std::size_t col = sx::fork(sx::u32("column", 0, 2)), row = sx::fork(sx::u32("row", 0, 2));
    V x = R::input("x"), k = R::input("k"), l = R::input("l");
    var cell(col, row, false, type), other(3, 5, false, ct::witness);
    if (type == ct::constant) r.t.constant(col, row) = x; else r.t.witness(col, row) = x;
    var a = r.t.add_batch_constant_variable(k), b = r.t.add_batch_constant_variable(l);
    var p = both<mul>(r, {r.place(V(3u)), r.place(V(4u))}, false);
    SX_ASSERT(var_value(r.t, cell) == x, "the value of a cell is what was written there");
    SX_ASSERT(var_value(r.t, a) == k && var_value(r.t, b) == l, "a deferred constant has its value");
    SX_ASSERT(var_value(r.t, p) == V(12u), "a deferred product has its value");
    r.c.add_copy_constraint({cell, other}); r.c.add_copy_constraint({other, a});
    r.t.finalize_component_batches(r.c, 6); r.t.finalize_constant_batches(r.c, 0, 4);
    SX_ASSERT(r.c.copy_constraints()[0].first == cell && r.c.copy_constraints()[0].second == other, "a copy constraint between real cells stays as it is");
    placed(r);
    SX_REACH("real_cells");
}
