// And and xor of bits told by lookup tables.
#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using A = R::A;
using var = R::var;
static const std::vector<std::uint32_t> none;
static std::vector<std::vector<V>> rows_of_table(R &r, std::size_t id) {
    std::string full = r.c.get_reserved_indices_right().at(id), name = full.substr(0, full.find('/')), sub = full.substr(full.find('/') + 1);
    auto &def = r.c.get_reserved_tables().at(name); auto &part = def->subtables.at(sub); const auto &tab = def->get_table();
    std::vector<std::vector<V>> rows;
    for (std::size_t i = part.begin; i <= part.end; i++) { std::vector<V> x; for (auto k : part.column_indices) x.push_back(tab[k][i]); rows.push_back(x); }
    return rows;
}
static void lookups_hold(R &r) {
    std::size_t seen = 0;
    for (auto &gate : r.c.lookup_gates()) for (std::size_t row = 0; row < r.t.selector_column_size(gate.tag_index); row++) {
        if (r.t.selector(gate.tag_index, row) == V::zero()) continue;
        for (auto &k : gate.constraints) {
            std::vector<V> x; seen++;
            for (auto &e : k.lookup_input) { nil::crypto3::math::expression_evaluator<var> ev(e, [&](const var &v) -> V { var a(v.index, v.rotation + (int)row, false, v.type); return r.at(a); }); x.push_back(ev.evaluate()); }
            bool found = false;
            for (auto &y : rows_of_table(r, k.table_id)) { bool in = true; for (std::size_t c = 0; c < x.size(); c++) in = in & (x[c] == y.at(c)); found = found | in; }
            SX_ASSERT(found, "the lookup holds");
        }
    }
    SX_ASSERT(seen == 1, "one lookup is active");
}
template<typename C, typename O> static void values(O oracle) {
    for (std::size_t start : {0, 2}) {
        R r(3, 1, 0, 2, start); C comp(seq(3), none, none); typename C::input_type in;
        V x = R::small(nm("x", start), 1), y = R::small(nm("y", start), 1); in.input[0] = r.place(x); in.input[1] = r.place(y);
        auto res = r.run(comp, in); SX_ASSERT(r.at(res.output) == oracle(x, y), "truth table"); r.satisfied(); lookups_hold(r);
    }
    SX_REACH("values");
}
template<typename C> static void sound() {
    for (unsigned n = 0; n < 4; n++) {
        R r(3, 1, 0, 2, 1); C comp(seq(3), none, none); typename C::input_type in; in.input[0] = r.place(V(n & 1)); in.input[1] = r.place(V(n >> 1));
        auto res = r.run(comp, in); r.table_rows = [&](std::size_t id) { return rows_of_table(r, id); };
        R::Goal g; g.outputs.push_back(res.output); r.sound(g, "the result is the only one the lookup allows");
    }
    SX_REACH("sound");
}
SX_CASE(lookup_and) { values<cmp::lookup_logic_and<A>>([](V x, V y) { return x * y; }); }
SX_CASE(lookup_xor) { values<cmp::lookup_logic_xor<A>>([](V x, V y) { return x + y - x * y - x * y; }); }
SX_CASE(lookup_and_sound) { sound<cmp::lookup_logic_and<A>>(); }
SX_CASE(lookup_xor_sound) { sound<cmp::lookup_logic_xor<A>>(); }
