// Circuits hand out selectors: equal gates share one, different gates never do, and copy constraints are kept.
#include <sx_component.h>
using namespace sxc;
using F = fields::pallas_base_field;
using V = F::value_type;
using A = snark::plonk_constraint_system<F>;
using C = bp::circuit<A>;
using var = snark::plonk_variable<V>;
using con = snark::plonk_constraint<F>;
using lcon = snark::plonk_lookup_constraint<F>;
using gates = std::vector<con>;
static var w(std::size_t i, int r = 0) { return var(i, r, true, var::column_type::witness); }
static var k(std::size_t i, int r = 0) { return var(i, r, true, var::column_type::constant); }
static var s(std::size_t i, int r = 0) { return var(i, r, true, var::column_type::selector); }

// which: the coefficient sits in a term, is a constant term, or multiplies a power
static con shaped(unsigned which, const V &a) {
    switch (which) {
        case 0: return w(0) * w(1, -1) - w(2, 1) * a;
        case 1: return w(0) * (w(1) - 1) - a;
        case 2: return (w(0) + w(1)).pow(3) * a - k(0);
        default: return s(0, 1) * (w(2) * w(2) - k(1, -1)) + w(1) * a + a;
    }
}
static void pair_of(unsigned which) {
    C c; V a = V::input("a"), b = V::input("b");
    std::size_t s0 = c.add_gate(gates{shaped(which, a)}), s1 = c.add_gate(gates{shaped(which, b)});
    SX_ASSERT(s0 == 0, "first selector");
    SX_ASSERT((s1 == s0) == (a == b), "two gates share a selector exactly when they are the same");
    SX_ASSERT(s1 == s0 || s1 == 1, "next selector");
    SX_ASSERT(c.num_gates() == s1 + 1, "one gate per selector");
    SX_ASSERT(c.get_next_selector_index() == s1 + 1, "next free selector");
    for (std::size_t i = 0; i < c.gates().size(); i++) SX_ASSERT(c.gates()[i].selector_index == i && c.gates()[i].constraints.size() == 1, "stored gate");
    SX_REACH("pair");
}
SX_CASE(pair_term) { pair_of(0); }
SX_CASE(pair_constant) { pair_of(1); }
SX_CASE(pair_power) { pair_of(2); }
SX_CASE(pair_nested) { pair_of(3); }

// a gate is a set of constraints: the order in which they are listed does not matter
SX_CASE(order_2) {
    C c; V a = V::input("a");
    con x = w(0) * w(1) - a, y = w(2, 1) - w(0, -1);
    std::size_t s0 = c.add_gate(gates{x, y}), s1 = c.add_gate(gates{y, x});
    SX_ASSERT(s0 == s1 && c.num_gates() == 1, "the order of constraints does not matter");
    SX_REACH("order_2");
}
SX_CASE(order_3) {
    C c; unsigned p = sx::fork(sx::u32("p", 0, 5));
    const unsigned perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    V a = V::input("a");
    gates g{w(0) - a, w(1) * w(1) - w(2), w(0, 1) - k(0)}, h;
    for (unsigned i : perm[p]) h.push_back(g[i]);
    std::size_t s0 = c.add_gate(g), s1 = c.add_gate(h), s2 = c.add_gate(gates{g[0], g[1]});
    SX_ASSERT(s0 == s1, "the order of constraints does not matter");
    SX_ASSERT(s2 == 1 && c.num_gates() == 2, "a gate with fewer constraints is a different gate");
    SX_REACH("order_3");
}
// gates that differ in one variable only
SX_CASE(one_variable) {
    C c; std::vector<con> g;
    for (int r = -1; r <= 1; r++) for (std::size_t i = 0; i < 3; i++) { g.push_back(w(i, r) - 1); g.push_back(k(i, r) - 1); g.push_back(s(i, r) - 1); }
    for (std::size_t i = 0; i < g.size(); i++) SX_ASSERT(c.add_gate(gates{g[i]}) == i, "different variables make different gates");
    std::size_t j = sx::fork(sx::u64("j", 0, 26));
    SX_ASSERT(c.add_gate(gates{g[j]}) == j, "a known gate keeps its selector");
    SX_ASSERT(c.num_gates() == g.size(), "no gate is stored twice");
    SX_REACH("one_variable");
}
SX_CASE(multiplicity) {
    C c; con x = w(0) - w(1), y = w(1) - w(2);
    SX_ASSERT(c.add_gate(gates{x, x, y}) == 0, "first"); SX_ASSERT(c.add_gate(gates{x, y, y}) == 1, "second");
    SX_ASSERT(c.add_gate(gates{y, x, x}) == 0, "again"); SX_ASSERT(c.add_gate(x + y) == 2, "their sum"); SX_ASSERT(c.add_gate(w(0) - w(2)) == 2, "the same polynomial");
    SX_ASSERT(c.add_gate(x * y) == 3, "their product"); SX_ASSERT(c.add_gate(x * y) == 3, "again");
    SX_REACH("multiplicity");
}
// many constraints in a gate: more than the multipliers drawn at first
SX_CASE(wide_gate) {
    C c; V a = V::input("a"), b = V::input("b");
    gates g, h; for (unsigned i = 0; i < 24; i++) { con x = w(i) - w(i + 1, 1) * V(i + 2); g.push_back(x); h.push_back(x); }
    g.push_back(w(0) * w(1)); h.insert(h.begin(), w(0) * w(1));
    SX_ASSERT(c.add_gate(g) == c.add_gate(h), "the same wide gate");
    h[3] = w(40) - 7; SX_ASSERT(c.add_gate(h) == 1, "another wide gate");
    (void)a; (void)b; SX_REACH("wide_gate");
}
// lookup gates
SX_CASE(lookup_pair) {
    C c; V a = V::input("a"), b = V::input("b");
    std::size_t s0 = c.add_lookup_gate(lcon{1, {w(0) * a, w(1)}}), s1 = c.add_lookup_gate(lcon{1, {w(0) * b, w(1)}});
    SX_ASSERT((s1 == s0) == (a == b), "two lookup gates share a selector exactly when they are the same");
    SX_ASSERT(c.num_lookup_gates() == s1 + 1 && c.get_next_selector_index() == s1 + 1, "one lookup gate per selector");
    SX_REACH("lookup_pair");
}
SX_CASE(lookup_table) {
    C c; std::size_t n = sx::fork(sx::u64("n", 1, 24)), m = sx::fork(sx::u64("m", 1, 24));
    std::size_t s0 = c.add_lookup_gate(lcon{n, {w(0), w(1)}}), s1 = c.add_lookup_gate(lcon{m, {w(0), w(1)}}), s2 = c.add_lookup_gate(lcon{n, {w(1), w(0)}}), s3 = c.add_lookup_gate(lcon{n, {w(0)}});
    SX_ASSERT((s0 == s1) == (n == m), "lookups into different tables are different gates");
    SX_ASSERT(s2 != s0 && s2 != s1 && s3 != s2 && s3 != s0 && s3 != s1, "the order and number of looked up columns matter");
    SX_ASSERT(c.num_lookup_gates() == (n == m ? 3 : 4), "lookup gates stored");
    SX_REACH("lookup_table");
}
SX_CASE(lookup_order) {
    C c; lcon x{1, {w(0), w(1)}}, y{2, {w(2)}}, z{2, {w(3, 1)}};
    unsigned p = sx::fork(sx::u32("p", 0, 5));
    const unsigned perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::vector<lcon> g{x, y, z}, h; for (unsigned i : perm[p]) h.push_back(g[i]);
    SX_ASSERT(c.add_lookup_gate(g) == c.add_lookup_gate(h), "the order of lookups does not matter");
    SX_ASSERT(c.add_lookup_gate(std::vector<lcon>{x, y}) == 1, "fewer lookups make a different gate");
    SX_REACH("lookup_order");
}
// any sequence of additions: selectors are numbered in order and never shared between unrelated users
SX_CASE(history) {
    C c; std::size_t next = 0, gs = 0, ls = 0; std::map<unsigned, std::size_t> known;
    for (unsigned i = 0; i < 4; i++) {
        unsigned what = sx::fork(sx::u32(nm("op", i).c_str(), 0, 5));
        std::size_t got;
        switch (what) {
            case 0: got = c.add_gate(gates{w(0) - 1}); break;
            case 1: got = c.add_gate(gates{w(0) - 2, w(1)}); break;
            case 2: got = c.add_gate(w(2) * w(1)); break;
            case 3: got = c.add_lookup_gate(lcon{1, {w(0)}}); break;
            case 4: got = c.add_lookup_gate(std::vector<lcon>{lcon{2, {w(0)}}, lcon{1, {w(1)}}}); break;
            default: got = c.get_dynamic_lookup_table_selector(); break;
        }
        if (what < 5 && known.count(what)) { SX_ASSERT(got == known[what], "a known gate keeps its selector"); }
        else { SX_ASSERT(got == next, "a new user gets the next selector"); if (what < 5) known[what] = next; next++; if (what < 3) gs++; else if (what < 5) ls++; }
        SX_ASSERT(c.num_gates() == gs && c.num_lookup_gates() == ls && c.get_next_selector_index() == next, "what is stored");
    }
    for (auto &g : c.gates()) for (auto &l : c.lookup_gates()) SX_ASSERT(g.selector_index != l.tag_index, "a gate and a lookup gate never share a selector");
    SX_REACH("history");
}
// copy constraints are recorded unless they are void
SX_CASE(copy) {
    C c;
    const std::size_t priv = bp::assignment<A>::private_storage_index;
    var::column_type types[4] = {var::column_type::witness, var::column_type::public_input, var::column_type::constant, var::column_type::selector};
    std::size_t i0 = sx::u64("i0", 0, ~0ull), i1 = sx::u64("i1", 0, ~0ull);
    std::int32_t r0 = (std::int32_t)sx::u32("r0", 0, ~0u), r1 = (std::int32_t)sx::u32("r1", 0, ~0u);
    unsigned t0 = sx::fork(sx::u32("t0", 0, 2)), t1 = sx::fork(sx::u32("t1", 0, 2));
    var x(i0, r0, false, types[t0]), y(i1, r1, false, types[t1]);
    c.add_copy_constraint({x, y});
    bool same = (i0 == i1) & (r0 == r1) & (t0 == t1), hidden = (i0 == priv) | (i1 == priv);
    std::size_t n = c.copy_constraints().size();
    SX_ASSERT(n == (same | hidden ? 0u : 1u), "a copy constraint is kept unless both sides are one cell or one side is private");
    if (n) { auto &cc = c.copy_constraints()[0]; SX_ASSERT(cc.first == x && cc.second == y, "the constraint kept is the one given"); }
    SX_REACH("copy");
}
