// Several proxies of one table and circuit: all changes land in the shared object, each proxy records what it used itself.
#define BLUEPRINT_DEBUG_ENABLED   // the refusal of foreign rows is an assertion
#include <sx_component.h>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using V = F::value_type; using A = snark::plonk_constraint_system<F>;
using C = bp::circuit<A>; using T = bp::assignment<A>; using CP = bp::circuit_proxy<A>; using TP = bp::assignment_proxy<A>;
using var = snark::plonk_variable<V>; using ct = var::column_type;
using con = snark::plonk_constraint<F>; using lcon = snark::plonk_lookup_constraint<F>; using gates = std::vector<con>; using lookups = std::vector<lcon>;
using rows = std::set<std::uint32_t>;
static var w(std::size_t i, int r = 0) { return var(i, r, true, ct::witness); }
static var cell(std::size_t i, std::size_t r, ct k = ct::witness) { return var(i, r, false, k); }

// any sequence of writes through two proxies
static void history(unsigned steps) {
    auto t = std::make_shared<T>(2, 1, 2, 2), m = std::make_shared<T>(2, 1, 2, 2); TP p0(t, 0), p1(t, 1); TP *p[2] = {&p0, &p1}; rows used[2], sel[2];
    for (unsigned i = 0; i < steps; i++) {
        unsigned who = sx::fork(sx::u32(nm("who", i).c_str(), 0, 1)), kind = sx::fork(sx::u32(nm("kind", i).c_str(), 0, 5)); std::size_t col = sx::fork(sx::u64(nm("col", i).c_str(), 0, 1)), row = sx::fork(sx::u64(nm("row", i).c_str(), 0, 2));
        V v = V::input(nm("v", i).c_str()); T &q = *p[who];   // components know the table, not the proxy
        switch (kind) {
            case 0: q.witness(col, row) = v; m->witness(col, row) = v; used[who].insert(row); break;
            case 1: q.constant(col, row) = v; m->constant(col, row) = v; used[who].insert(row); break;
            case 2: q.public_input(0, row) = v; m->public_input(0, row) = v; break;
            case 3: q.selector(col, row) = v; m->selector(col, row) = v; used[who].insert(row); sel[who].insert(row); break;
            case 4: q.enable_selector(col, row); m->enable_selector(col, row); used[who].insert(row); sel[who].insert(row); break;
            default: q.enable_selector(col, row, row + 2, 2); m->enable_selector(col, row, row + 2, 2); for (auto r : {row, row + 2}) { used[who].insert(r); sel[who].insert(r); }
        }
    }
    const T *view[3] = {t.get(), p[0], p[1]}; const T &o = *m;
    for (unsigned k = 0; k < 2; k++) SX_ASSERT(p[k]->get_used_rows() == used[k] && p[k]->get_used_selector_rows() == sel[k], "a proxy records the rows used through it");
    for (const T *v : view) {
        SX_ASSERT(v->allocated_rows() == o.allocated_rows() && v->rows_amount() == o.rows_amount() && v->witnesses_amount() == 2 && v->constants_amount() == 2 && v->public_inputs_amount() == 1 && v->selectors_amount() == 2, "sizes are shared");
        for (std::size_t c = 0; c < 2; c++) {
            SX_ASSERT(v->witness_column_size(c) == o.witness_column_size(c) && v->constant_column_size(c) == o.constant_column_size(c) && v->selector_column_size(c) == o.selector_column_size(c), "columns are shared");
            for (std::size_t r = 0; r < o.witness_column_size(c); r++) SX_ASSERT(v->witness(c, r) == o.witness(c, r) && v->witness(c)[r] == o.witness(c, r), "witnesses are shared");
            for (std::size_t r = 0; r < o.constant_column_size(c); r++) SX_ASSERT(v->constant(c, r) == o.constant(c, r) && v->constant(c)[r] == o.constant(c, r), "constants are shared");
            for (std::size_t r = 0; r < o.selector_column_size(c); r++) SX_ASSERT(v->selector(c, r) == o.selector(c, r) && v->selector(c)[r] == o.selector(c, r), "selectors are shared");
        }
        for (std::size_t r = 0; r < o.public_input_column_size(0); r++) SX_ASSERT(v->public_input(0, r) == o.public_input(0, r) && bp::var_value(*v, cell(0, r, ct::public_input)) == o.public_input(0, r), "public input is shared");
    }
    SX_REACH("history");
}
SX_CASE(history_2) { history(2); }
SX_CASE_THOROUGH(history_3) { history(3); }
// a value handed from one prover to another
SX_CASE(handed_over) {
    auto t = std::make_shared<T>(1, 1, 1, 1); TP p0(t, 0), p1(t, 1); V a = V::input("a"), b = V::input("b"), x = V::input("x"); p0.witness(0, 3) = a; p0.witness(0, 1) = b; p0.public_input(0, 0) = x;
    auto s = bp::save_shared_var(p0, cell(0, 3)); auto more = bp::save_shared_var(p1, std::vector<var>{cell(0, 1), cell(0, 0, ct::public_input)});
    SX_ASSERT(bp::var_value(p1, s) == a && bp::var_value(p0, more[0]) == b && bp::var_value(p1, more[1]) == x, "the other prover sees the value"); SX_ASSERT(t->shared_column_size(0) == 3, "one cell each");
    SX_ASSERT(t->witness(0, 3) == a && t->witness(0, 1) == b && t->public_input(0, 0) == x, "the rest is left alone"); SX_REACH("handed_over");
}
SX_CASE(private_values) {
    auto t = std::make_shared<T>(1, 1, 1, 1); TP p0(t, 0), p1(t, 1); std::uint32_t i = sx::fork(sx::u32("i", 0, 3)); V a = V::input("a"); p0.private_storage(i) = a;
    SX_ASSERT(t->private_storage(i) == a && bp::var_value(static_cast<const T &>(p1), cell(T::private_storage_index, i)) == a && p1.private_storage_size() == i + 1, "private values are shared"); SX_REACH("private_values");
}
// with checking on, reads outside the rows of the proxy are refused
SX_CASE(checked_reads) {
    auto t = std::make_shared<T>(1, 1, 1, 1); TP p0(t, 0), p1(t, 1); V a = V::input("a"); std::size_t mine = sx::fork(sx::u64("mine", 0, 3)), other = sx::fork(sx::u64("other", 0, 3)), at = sx::fork(sx::u64("at", 0, 3)); unsigned kind = sx::fork(sx::u32("kind", 0, 2));
    for (std::size_t i = 0; i < 4; i++) { t->witness(0, i) = a; t->constant(0, i) = a; t->selector(0, i) = a; }
    auto write = [&](TP &p, std::size_t r) { if (kind == 0) p.witness(0, r) = a; else if (kind == 1) p.constant(0, r) = a; else p.selector(0, r) = a; };
    write(p0, mine); write(p1, other); p0.set_check(true); const T &ro = p0; bool refused = false; V got = V::zero();
    try { got = kind == 0 ? ro.witness(0, at) : kind == 1 ? ro.constant(0, at) : ro.selector(0, at); } catch (...) { refused = true; }
    SX_ASSERT(refused == (at != mine), "exactly the rows of the proxy are readable"); SX_ASSERT(refused || got == a, "and read as written"); SX_REACH("checked_reads");
}
// any sequence of gates and copy constraints through two proxies
static void build(unsigned steps) {
    auto c = std::make_shared<C>(), m = std::make_shared<C>(); CP p0(c, 0), p1(c, 1); CP *p[2] = {&p0, &p1}; rows ug[2], ul[2], uc[2]; V a = V::input("a");
    for (unsigned i = 0; i < steps; i++) {
        unsigned who = sx::fork(sx::u32(nm("who", i).c_str(), 0, 1)), kind = sx::fork(sx::u32(nm("kind", i).c_str(), 0, 9)); C &q = *p[who]; std::size_t before, got, want;
        gates g0{w(0) * w(1) - 3}, g1{w(0) - w(1, 1), w(1) - 7}; lcon l0{1, {w(0)}}, l1{2, {w(1, -1)}};
        switch (kind) {
            case 0: got = q.add_gate(g0); want = m->add_gate(g0); SX_ASSERT(got == want, "selector"); break;
            case 1: got = q.add_gate(g1); want = m->add_gate(g1); SX_ASSERT(got == want, "selector"); break;
            case 2: got = q.add_gate(g0[0]); want = m->add_gate(g0[0]); SX_ASSERT(got == want, "selector"); break;
            case 3: got = q.add_gate(5, g1); want = m->add_gate(5, g1); SX_ASSERT(got == want, "selector"); ug[who].insert(m->gates().size() - 1); break;
            case 4: got = q.add_lookup_gate(lookups{l0}); want = m->add_lookup_gate(lookups{l0}); SX_ASSERT(got == want, "selector"); break;
            case 5: got = q.add_lookup_gate(l1); want = m->add_lookup_gate(l1); SX_ASSERT(got == want, "selector"); break;
            case 6: got = q.add_lookup_gate(6, lookups{l1}); want = m->add_lookup_gate(6, lookups{l1}); SX_ASSERT(got == want, "selector"); ul[who].insert(m->lookup_gates().size() - 1); break;
            case 7: got = q.get_dynamic_lookup_table_selector(); want = m->get_dynamic_lookup_table_selector(); SX_ASSERT(got == want, "selector"); break;
            default: {
                std::size_t x = sx::fork(sx::u64(nm("x", i).c_str(), 0, 2)); var from = cell(0, 1), to = x == 2 ? cell(T::private_storage_index, 0) : cell(0, x);
                before = m->copy_constraints().size(); q.add_copy_constraint({from, to}); m->add_copy_constraint({from, to}); if (m->copy_constraints().size() > before) uc[who].insert(before);
            }
        }
        if (kind < 3) for (std::size_t k = 0; k < m->gates().size(); k++) if (m->gates()[k].selector_index == want) { ug[who].insert(k); break; }
        if (kind == 4 || kind == 5) for (std::size_t k = 0; k < m->lookup_gates().size(); k++) if (m->lookup_gates()[k].tag_index == want) { ul[who].insert(k); break; }
    }
    for (unsigned k = 0; k < 2; k++) {
        SX_ASSERT(p[k]->get_used_gates() == ug[k], "a proxy records the gates it added"); SX_ASSERT(p[k]->get_used_lookup_gates() == ul[k], "a proxy records the lookup gates it added");
        SX_ASSERT(p[k]->get_used_copy_constraints() == uc[k], "a proxy records the copy constraints it added");
    }
    const C *view[3] = {c.get(), p[0], p[1]};
    for (const C *v : view) {
        SX_ASSERT(v->num_gates() == m->num_gates() && v->gates().size() == m->gates().size() && v->num_lookup_gates() == m->num_lookup_gates() && v->lookup_gates().size() == m->lookup_gates().size() && v->get_next_selector_index() == m->get_next_selector_index(), "gates are shared");
        SX_ASSERT(v->copy_constraints().size() == m->copy_constraints().size(), "copy constraints are shared");
        for (std::size_t k = 0; k < m->gates().size(); k++) SX_ASSERT(v->gates()[k].selector_index == m->gates()[k].selector_index && v->gates()[k].constraints.size() == m->gates()[k].constraints.size(), "the same gates");
        for (std::size_t k = 0; k < m->copy_constraints().size(); k++) SX_ASSERT(v->copy_constraints()[k].first == m->copy_constraints()[k].first && v->copy_constraints()[k].second == m->copy_constraints()[k].second, "the same copy constraints");
    }
    SX_REACH("build");
}
SX_CASE(build_2) { build(2); }
SX_CASE_THOROUGH(build_3) { build(3); }
// one prover's part is judged by its own copy constraints
SX_CASE(judged_apart) {
    auto c = std::make_shared<C>(); auto t = std::make_shared<T>(2, 1, 1, 3); CP c0(c, 0), c1(c, 1); TP t0(t, 0), t1(t, 1);
    V a = V::input("a"), b = V::input("b"), x = V::input("x"), y = V::input("y"); t0.witness(0, 0) = a; t0.witness(1, 0) = b; t1.witness(0, 1) = x; t1.witness(1, 1) = y;
    c0.add_copy_constraint({cell(0, 0), cell(1, 0)}); c1.add_copy_constraint({cell(0, 1), cell(1, 1)}); c0.add_copy_constraint({cell(0, 0), cell(0, 0)});
    SX_ASSERT(bp::is_satisfied(c0, t0) == (a == b), "the first part"); SX_ASSERT(bp::is_satisfied(c1, t1) == (x == y), "the second part");
    SX_ASSERT(bp::is_satisfied(static_cast<const C &>(*c), static_cast<const T &>(*t)) == ((a == b) & (x == y)), "both"); SX_REACH("judged_apart");
}
// and by its own gates
SX_CASE(judged_by_gates) {
    auto c = std::make_shared<C>(); auto t = std::make_shared<T>(2, 1, 1, 1); CP c0(c, 0); TP t0(t, 0); std::size_t s = c0.add_gate(gates{w(0) - w(1)});
    t0.witness(0, 0) = V(1u); t0.witness(1, 0) = V(2u); t0.enable_selector(s, 0);
    SX_ASSERT(!bp::is_satisfied(static_cast<const C &>(*c), static_cast<const T &>(*t)), "the table breaks a gate"); SX_REACH("judged");
    SX_ASSERT(!bp::is_satisfied(c0, t0), "and so does the part of the prover that added it");
}
// dynamic tables registered through one proxy are there for all
SX_CASE(dynamic_tables) {
    auto c = std::make_shared<C>(); CP p0(c, 0), p1(c, 1); unsigned who = sx::fork(sx::u32("who", 0, 1)), other = sx::fork(sx::u32("other", 0, 1)); CP *p[2] = {&p0, &p1}; C &a = *p[who], &b = *p[other];
    std::string n = "dynamic"; b.reserve_dynamic_table(n); snark::plonk_lookup_table<F> d; d.tag_index = 9; d.columns_number = 2; a.define_dynamic_table(n, d); SX_REACH("dynamic_tables");
    for (C *v : {c.get(), static_cast<C *>(&p0), static_cast<C *>(&p1)}) { SX_ASSERT(v->get_reserved_dynamic_tables().count(n) == 1 && v->get_reserved_indices().count(n) == 1, "the table is reserved"); SX_ASSERT(v->get_dynamic_table_definition(n) == c->get_dynamic_table_definition(n) && v->get_dynamic_table_definition(n)->lookup_table.tag_index == 9, "one definition"); }
    SX_ASSERT(p[other]->get_used_lookup_tables() == rows{0} && (who == other || p[who]->get_used_lookup_tables().empty()), "recorded where it was reserved");
}
// the exported table lists every cell of the rows used through the proxy
SX_CASE(exported) {
    auto t = std::make_shared<T>(2, 1, 1, 2); TP p0(t, 0), p1(t, 1); std::size_t row = sx::fork(sx::u64("row", 0, 2)), other = sx::fork(sx::u64("other", 0, 2)), sel = sx::fork(sx::u64("sel", 0, 1));
    p1.witness(0, other) = V(3u); p0.witness(0, row) = V(10u); p0.witness(1, row) = V(11u); p0.public_input(0, row) = V(12u); p0.constant(0, row) = V(13u); p0.enable_selector(sel, row);
    std::ostringstream os; p0.export_table(os); std::istringstream in(os.str()); std::string line, want = std::to_string(row) + ": a b | 0 | c | d | " + (sel ? "0 1 " : "1 0 "), foreign = std::to_string(other) + ": 0 0 | 0 | 0 | 0 | 0 0 "; bool seen = false, hidden = true;
    while (std::getline(in, line)) { seen = seen || line == want; if (other != row && line.rfind(std::to_string(other) + ": ", 0) == 0) hidden = line == foreign; }
    SX_ASSERT(seen, "every cell of a used row"); SX_ASSERT(hidden, "and no witness of a foreign row"); SX_REACH("exported");
}
