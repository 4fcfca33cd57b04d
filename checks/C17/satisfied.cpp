// is_satisfied agrees with the meaning of the constraint system: gates on enabled rows, lookups, copy constraints.
#include <sx_component.h>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using A = R::A;
using C = bp::circuit<A>;
using T = bp::assignment<A>;
using var = R::var;
using con = snark::plonk_constraint<F>;
using lcon = snark::plonk_lookup_constraint<F>;
static var w(std::size_t i, int r = 0) { return var(i, r, true, var::column_type::witness); }

// one gate with two constraints on any set of rows
SX_CASE(gates) {
    C c; T t(2, 1, 1, 2);
    std::size_t s = c.add_gate(std::vector<con>{w(0) * w(0) - w(1), w(1) - var(0, 0, true, var::column_type::constant)});
    V a[3], b[3], k[3]; bool want = true;
    for (unsigned i = 0; i < 3; i++) { a[i] = R::input(nm("a", i)); b[i] = R::input(nm("b", i)); k[i] = R::input(nm("k", i)); t.witness(0, i) = a[i]; t.witness(1, i) = b[i]; t.constant(0, i) = k[i]; }
    t.selector(s, 2) = V::zero();
    for (unsigned i = 0; i < 3; i++) { bool on = sx::fork(sx::u32(nm("on", i).c_str(), 0, 1)); if (on) { t.enable_selector(s, i); want = want & (a[i] * a[i] == b[i]) & (b[i] == k[i]); } }
    SX_ASSERT(bp::is_satisfied(c, t) == want, "gates hold on exactly the enabled rows");
    SX_REACH("gates");
}
// two gates, neighbouring rows
SX_CASE(rotations) {
    C c; T t(1, 1, 1, 2);
    std::size_t s0 = c.add_gate(std::vector<con>{w(0, 1) - w(0, 0) - w(0, -1)}), s1 = c.add_gate(std::vector<con>{w(0) * (w(0) - 1)});
    V a[5]; for (unsigned i = 0; i < 5; i++) { a[i] = R::input(nm("a", i)); t.witness(0, i) = a[i]; }
    unsigned x = sx::fork(sx::u32("x", 1, 3)), y = sx::fork(sx::u32("y", 0, 4));
    t.enable_selector(s0, x); t.enable_selector(s1, y);
    bool want = (a[x + 1] == a[x] + a[x - 1]) & ((a[y] == V::zero()) | (a[y] == V::one()));
    SX_ASSERT(bp::is_satisfied(c, t) == want, "gates read neighbouring rows");
    SX_REACH("rotations");
}
// a selector other than zero or one enables too
SX_CASE(selector_value) {
    C c; T t(1, 1, 1, 1); std::size_t s = c.add_gate(std::vector<con>{w(0) - 5});
    V q = R::input("q"), a = R::input("a"); t.witness(0, 0) = a; t.enable_selector(s, 0); t.selector(s, 0) = q;
    SX_ASSERT(bp::is_satisfied(c, t) == ((q == V::zero()) | (a == V(5))), "a row is checked unless its selector is zero");
    SX_REACH("selector_value");
}
SX_CASE(copies) {
    C c; T t(2, 1, 1, 1); V a = R::input("a"), b = R::input("b"), p = R::input("p"), k = R::input("k");
    t.witness(0, 0) = a; t.witness(1, 1) = b; t.public_input(0, 2) = p; t.constant(0, 1) = k;
    var x(0, 0, false), y(1, 1, false), z(0, 2, false, var::column_type::public_input), q(0, 1, false, var::column_type::constant);
    bool want = true;
    if (sx::fork(sx::u32("c0", 0, 1))) { c.add_copy_constraint({x, y}); want = want & (a == b); }
    if (sx::fork(sx::u32("c1", 0, 1))) { c.add_copy_constraint({z, y}); want = want & (p == b); }
    if (sx::fork(sx::u32("c2", 0, 1))) { c.add_copy_constraint({x, q}); want = want & (a == k); }
    if (sx::fork(sx::u32("c3", 0, 1))) { c.add_copy_constraint({q, z}); want = want & (p == k); }
    SX_ASSERT(bp::is_satisfied(c, t) == want, "every copy constraint is checked");
    SX_REACH("copies");
}
// only the parts asked for
SX_CASE(parts) {
    C c; T t(2, 1, 1, 3); V a[2], b[2];
    for (unsigned i = 0; i < 2; i++) { a[i] = R::input(nm("a", i)); b[i] = R::input(nm("b", i)); t.witness(0, i) = a[i]; t.witness(1, i) = b[i]; }
    std::size_t s0 = c.add_gate(std::vector<con>{w(0) - 1}), s1 = c.add_gate(std::vector<con>{w(1) - 2});
    t.enable_selector(s0, 0, 1); t.enable_selector(s1, 0, 1);
    c.add_copy_constraint({var(0, 0, false), var(0, 1, false)}); c.add_copy_constraint({var(1, 0, false), var(1, 1, false)});
    std::set<std::uint32_t> gs, cs, rows; bool want = true;
    bool use[2], copy[2], row[2]; for (unsigned i = 0; i < 2; i++) { use[i] = sx::fork(sx::u32(nm("g", i).c_str(), 0, 1)); copy[i] = sx::fork(sx::u32(nm("c", i).c_str(), 0, 1)); row[i] = sx::fork(sx::u32(nm("r", i).c_str(), 0, 1)); if (use[i]) gs.insert(i); if (copy[i]) cs.insert(i); if (row[i]) rows.insert(i); }
    for (unsigned r = 0; r < 2; r++) if (row[r]) { if (use[0]) want = want & (a[r] == V(1)); if (use[1]) want = want & (b[r] == V(2)); }
    if (copy[0]) want = want & (a[0] == a[1]); if (copy[1]) want = want & (b[0] == b[1]);
    SX_ASSERT(bp::is_satisfied(c, t, gs, {}, cs, rows) == want, "exactly the chosen gates, rows and copies are checked");
    SX_REACH("parts");
}
// lookups into fixed tables
SX_CASE(lookups) {
    C c; T t(3, 1, 1, 1); c.reserve_table("binary_xor_table/full");
    std::size_t id = c.get_reserved_indices().at("binary_xor_table/full");
    std::size_t s = c.add_lookup_gate(lcon{id, {w(0), w(1), w(2)}});
    V x[2][3]; for (unsigned r = 0; r < 2; r++) for (unsigned i = 0; i < 3; i++) { x[r][i] = r ? R::input(nm("y", i)) : R::input(nm("x", i)); t.witness(i, r) = x[r][i]; }
    unsigned on = sx::fork(sx::u32("on", 0, 3)); bool want = true;
    t.selector(s, 1) = V::zero();
    for (unsigned r = 0; r < 2; r++) if (on >> r & 1) {
        t.enable_selector(s, r); bool in = false;
        for (unsigned p = 0; p < 2; p++) for (unsigned q = 0; q < 2; q++) in = in | ((x[r][0] == V(p)) & (x[r][1] == V(q)) & (x[r][2] == V(p ^ q)));
        want = want & in;
    }
    SX_ASSERT(bp::is_satisfied(c, t) == want, "a lookup holds when the tuple is a row of the table");
    SX_REACH("lookups");
}
SX_CASE(lookup_expression) {
    C c; T t(1, 1, 1, 1); c.reserve_table("binary_and_table/full"); c.reserve_table("binary_xor_table/full");
    std::size_t s = c.add_lookup_gate(std::vector<lcon>{lcon{c.get_reserved_indices().at("binary_and_table/full"), {w(0), w(0, 1), w(0) * w(0, 1)}}, lcon{c.get_reserved_indices().at("binary_xor_table/full"), {w(0), w(0), w(0) - w(0, 1)}}});
    V a = R::input("a"), b = R::input("b"); t.witness(0, 0) = a; t.witness(0, 1) = b; t.enable_selector(s, 0);
    bool bits = ((a == V(0)) | (a == V(1))) & ((b == V(0)) | (b == V(1)));
    SX_ASSERT(bp::is_satisfied(c, t) == (bits & (a == b)), "every lookup of a gate is checked in its own table");
    SX_REACH("lookup_expression");
}
// lookups into tables defined by the circuit itself
SX_CASE(dynamic) {
    C c; T t(3, 1, 1, 2); c.reserve_dynamic_table("own");
    std::size_t id = c.get_reserved_indices().at("own"), tag = c.get_dynamic_lookup_table_selector();
    snark::plonk_lookup_table<F> table; table.tag_index = tag; table.columns_number = 2; table.lookup_options = {{w(0), w(1)}, {w(1), w(0, 1)}};
    c.add_lookup_table(table);
    std::size_t s = c.add_lookup_gate(lcon{id, {w(2), w(2, 1)}});
    V a[3], b[3], q[2]; for (unsigned i = 0; i < 3; i++) { a[i] = V(7 * i + 3); b[i] = V(5 + i); t.witness(0, i) = a[i]; t.witness(1, i) = b[i]; }
    q[0] = R::input("q0"); q[1] = R::input("q1"); t.witness(2, 0) = q[0]; t.witness(2, 1) = q[1];
    t.enable_selector(s, 0); unsigned rows = sx::fork(sx::u32("rows", 0, 3)); bool want = false;
    for (unsigned r = 0; r < 2; r++) if (rows >> r & 1) { t.enable_selector(tag, r); want = want | ((q[0] == a[r]) & (q[1] == b[r])) | ((q[0] == b[r]) & (q[1] == a[r + 1])); }
    SX_ASSERT(bp::is_satisfied(c, t) == want, "a lookup into a dynamic table matches one of the rows it is tagged on");
    SX_REACH("dynamic");
}
SX_CASE(dynamic_cells) {
    C c; T t(2, 1, 1, 2); c.reserve_dynamic_table("own");
    std::size_t id = c.get_reserved_indices().at("own"), tag = c.get_dynamic_lookup_table_selector();
    snark::plonk_lookup_table<F> table; table.tag_index = tag; table.columns_number = 1; table.lookup_options = {{w(0)}};
    c.add_lookup_table(table);
    std::size_t s = c.add_lookup_gate(lcon{id, {w(1)}});
    V a[2], q = R::input("q"); for (unsigned i = 0; i < 2; i++) { a[i] = R::input(nm("a", i)); t.witness(0, i) = a[i]; }
    t.witness(1, 0) = q; t.enable_selector(s, 0); unsigned rows = sx::fork(sx::u32("rows", 0, 3)); bool want = false;
    for (unsigned r = 0; r < 2; r++) if (rows >> r & 1) { t.enable_selector(tag, r); want = want | (q == a[r]); }
    SX_ASSERT(bp::is_satisfied(c, t) == want, "a lookup into a dynamic table sees the cells of the assignment");
    SX_REACH("dynamic_cells");
}
