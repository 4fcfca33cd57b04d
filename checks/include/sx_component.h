// Drives a real circuit component: places symbolic inputs, runs the real generate_assignments and generate_circuit,
// and asserts that every gate, copy constraint and lookup holds on the produced table.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sx_api.h>
#include <sxn/plonk.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>
#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

extern "C" {
uint32_t __sx_cell(const char *name, uint32_t f, uint64_t *val, uint32_t n) noexcept;
void __sx_uq_begin(uint32_t f) noexcept;
uint32_t __sx_uq_var(uint32_t node, bool known, const char *name, const uint64_t *val) noexcept;
void __sx_uq_eq(uint32_t node, const uint64_t *c) noexcept;
void __sx_uq_table(uint32_t id, uint32_t cols, uint64_t nrows, const uint64_t *v) noexcept;
void __sx_uq_lookup(uint32_t id, uint32_t cols, const uint32_t *ns, const uint64_t *cs) noexcept;
void __sx_uq_target(uint32_t v) noexcept;
void __sx_uq_bound(uint32_t v, const uint64_t *hi) noexcept;
void __sx_uq_range(uint32_t v, const uint64_t *hi) noexcept;
void __sx_uq_infeasible() noexcept;
uint32_t __sx_uq_run(const char *msg, double seconds) noexcept;
}
namespace sxc {
    namespace bp = nil::blueprint;
    namespace cmp = nil::blueprint::components;
    namespace snark = nil::crypto3::zk::snark;
    namespace fields = nil::crypto3::algebra::fields;

    template<typename V> V sel(bool c, const V &a, const V &b) {    // branch-free choice of field elements
        return V::ite(c, a, b);
    }
    // the columns given to a component: all of them, not in order
    inline std::vector<std::uint32_t> seq(std::size_t n) { std::vector<std::uint32_t> r; for (std::size_t i = 0; i < n; i++) r.push_back((i + 1) % n); return r; }
    inline std::string nm(const char *p, std::size_t i) { return p + std::to_string(i); }

    template<typename F> struct Rig {
        using A = snark::plonk_constraint_system<F>;
        using value = typename F::value_type;
        using integral = typename F::integral_type;
        using var = snark::plonk_variable<value>;
        bp::circuit<A> c;
        bp::assignment<A> t;
        std::size_t pubs = 0, start = 0, lookups = 0;
        std::vector<var> ins;
        std::string what;
        // a component that does not start on row 0 shares the circuit with an unrelated gate
        std::size_t others = 0;
        Rig(std::size_t w, std::size_t p, std::size_t k, std::size_t s, std::size_t start_row = 0) : t(w, p, k, s + 1), start(start_row) {
            if (start) { std::vector<snark::plonk_constraint<F>> other; other.emplace_back(var(0, 0, true) - value(0x5eedu)); c.add_gate(other); others = 1; }
        }

        var place(const value &v) { var r(0, pubs, false, var::column_type::public_input); t.public_input(0, pubs++) = v; ins.push_back(r); return r; }
        value at(const var &v) const { return t.get_variable_value(v, 0); }
        static value input(const std::string &name) { return value::input(name.c_str()); }
        // a field element below 2^bits
        static value small(const std::string &name, unsigned bits) { integral hi = (integral(1) << bits) - integral(1); return value(integral::input(name.c_str(), hi)); }

        template<typename C> void reserve_tables(const C &comp) {
            if constexpr (bp::use_lookups<C>()) {
                auto tables = const_cast<C &>(comp).component_lookup_tables();   // not const everywhere
                for (auto &kv : tables) { if (kv.second == 1) c.reserve_dynamic_table(kv.first); else c.reserve_table(kv.first); }
            }
        }
        template<typename C> typename C::result_type run(const C &comp, typename C::input_type in) {
            reserve_tables(comp);
            generate_circuit(comp, c, t, in, start);
            typename C::result_type r = generate_assignments(comp, t, in, start);
            finish(start + comp.rows_amount);
            for (auto v : r.all_vars()) if (t.get_batch_variable_map().count(v)) v.get() = t.get_batch_variable_map().at(v);
            return r;
        }
        void finish(std::size_t next) {
            t.finalize_component_batches(c, next);
            t.finalize_constant_batches(c, 0, std::max<std::size_t>(start, 1));
        }
        // declared sizes against produced ones
        template<typename C, typename... S> void sizes(const C &comp, S... s) {
            SX_ASSERT(c.num_gates() + c.num_lookup_gates() - others == C::get_gate_manifest(comp.witness_amount(), s...).get_gates_amount(), "declared number of gates");
            SX_ASSERT(comp.rows_amount == C::get_rows_amount(comp.witness_amount(), s...), "declared number of rows");
            std::size_t used = 0;
            for (std::size_t i = 0; i < t.witnesses_amount(); i++) used = std::max<std::size_t>(used, t.witness_column_size(i));
            for (std::size_t i = 0; i < t.selectors_amount(); i++) used = std::max<std::size_t>(used, t.selector_column_size(i));
            SX_ASSERT(used <= start + comp.rows_amount, "rows used stay within the declared number");
        }
        // a dry run over the same inputs reports the same results
        template<typename C> void dry_run_agrees(const C &comp, typename C::input_type in, typename C::result_type res) {
            bp::assignment<A> d(t.witnesses_amount(), t.public_inputs_amount(), t.constants_amount(), t.selectors_amount());
            for (std::size_t i = 0; i < pubs; i++) d.public_input(0, i) = t.public_input(0, i);
            typename C::result_type e = generate_empty_assignments(comp, d, in, start);
            auto a = res.all_vars(), b = e.all_vars();
            SX_ASSERT(a.size() == b.size(), "dry run reports as many results");
            for (std::size_t i = 0; i < a.size() && i < b.size(); i++) {
                SX_ASSERT(at(a[i].get()) == d.get_variable_value(b[i].get(), 0), ("dry run result " + std::to_string(i)).c_str());
            }
        }
        // Soundness: every assignment that satisfies the circuit and agrees on the inputs agrees on the outputs.
        // The circuit was generated for concrete inputs; all witness cells are then left open.
        struct Goal {
            std::vector<var> outputs;                                // determined by the inputs
            std::vector<std::pair<var, integral>> bounded;           // at most this large whenever the circuit is satisfied
            std::vector<std::pair<var, integral>> assumed;           // inputs taken to be at most this large
            std::vector<var> nonzero;                                // inputs taken to be other than zero
            std::vector<std::pair<var, value>> infeasible;           // with these values no assignment satisfies the circuit
            std::vector<std::pair<var, value>> pinned;               // cells taken to have these values
            // assumed linear relations: constant + sum of coefficient * variable == 0
            struct Linear { value constant; std::vector<std::pair<value, var>> terms; };
            std::vector<Linear> linear;
            // assumed polynomial relations over the listed variables
            struct Relation { std::vector<var> vars; std::function<value(const std::vector<value> &)> zero; };
            std::vector<Relation> relations, nonzeros;               // equal to zero, other than zero
            bool none = false;                                       // under the assumptions nothing satisfies the circuit
            bool inputs_free = false;
        };
        using key = std::pair<int, std::pair<std::size_t, std::int64_t>>;
        static key keyOf(const var &v, std::int64_t row) { return {(int)v.type, {(std::size_t)v.index, v.relative ? row + v.rotation : (std::int64_t)v.rotation}}; }
        std::map<key, key> parent;
        key find(key k) { while (parent.count(k)) k = parent[k]; return k; }
        void unite(key a, key b) {
            a = find(a); b = find(b); if (a == b) return;
            // constants and public inputs become representatives
            int pi = (int)var::column_type::public_input, ci = (int)var::column_type::constant;
            if (b.first != ci && (a.first == ci || (a.first == pi && b.first != pi))) std::swap(a, b);
            parent[a] = b;
        }
        static std::string nameOf(const key &k) { return std::string(k.first == (int)var::column_type::witness ? "w" : k.first == (int)var::column_type::public_input ? "p" : "c") + std::to_string(k.second.first) + "_" + std::to_string(k.second.second); }

        void sound(const Goal &goal, const char *msg, double seconds = 20) {
            const std::uint32_t fid = value::fid(); constexpr unsigned N = value::N;
            parent.clear();
            std::vector<std::pair<key, key>> constEq;
            for (auto &cc : c.copy_constraints()) {
                key a = find(keyOf(cc.first, 0)), b = find(keyOf(cc.second, 0)); int ci = (int)var::column_type::constant;
                if (a.first == ci && b.first == ci) { constEq.push_back({a, b}); continue; }
                unite(a, b);
            }
            __sx_uq_begin(fid);
            std::map<key, value> cell; std::map<key, std::uint32_t> id; std::vector<std::pair<std::string, value>> all;
            std::map<key, value> pinned;
            for (auto &iv : goal.infeasible) pinned[find(keyOf(iv.first, 0))] = iv.second;
            for (auto &iv : goal.pinned) pinned[find(keyOf(iv.first, 0))] = iv.second;
                        auto get = [&](const var &v, std::int64_t row) -> value {
                key k0 = keyOf(v, row), k = find(k0);
                if (k.first == (int)var::column_type::constant) return t.get_variable_value(var(k.second.first, (std::int32_t)k.second.second, false, var::column_type::constant), 0);
                if (k.first == (int)var::column_type::selector) return t.get_variable_value(var(k.second.first, (std::int32_t)k.second.second, false, var::column_type::selector), 0);
                auto pin = pinned.find(k); if (pin != pinned.end()) return pin->second;
                auto it = cell.find(k); if (it != cell.end()) return it->second;
                bool pub = k.first == (int)var::column_type::public_input;
                value x = t.get_variable_value(var(k.second.first, (std::int32_t)k.second.second, false, (typename var::column_type)k.first), 0);
                x.data.sym = 0; value base = x; std::string n = nameOf(k);
                x.data.sym = __sx_cell(n.c_str(), fid, x.data.l, N);
                id[k] = __sx_uq_var(x.data.sym, pub && !goal.inputs_free, n.c_str(), base.data.l);
                return cell[k] = x;
            };
            bool ok = true;
            auto plainZero = [&](value v) { v.data.sym = 0; return v == value::zero(); };
            for (auto &ce : constEq) {
                value a = get(var(ce.first.second.first, ce.first.second.second, false, var::column_type::constant), 0), b = get(var(ce.second.second.first, ce.second.second.second, false, var::column_type::constant), 0);
                value d = a - b; __sx_uq_eq(0, d.data.l); ok = ok && plainZero(d);
            }
            for (auto &in : ins) get(in, 0);
            for (auto &gate : c.gates())
                for (std::size_t row = 0; row < t.selector_column_size(gate.selector_index); row++) {
                    if (t.selector(gate.selector_index, row) == value::zero()) continue;
                    for (auto &con : gate.constraints) {
                        nil::crypto3::math::expression_evaluator<var> ev(con, [&](const var &v) -> value { return get(v, row); });
                        value e = ev.evaluate(); __sx_uq_eq(e.data.sym, e.data.l); ok = ok && plainZero(e);
                    }
                }
            lookups_sound(get, ok);
            for (auto &l : goal.linear) {
                value e = l.constant; for (auto &t : l.terms) e = e + t.first * get(t.second, 0);
                __sx_uq_eq(e.data.sym, e.data.l); ok = ok && plainZero(e);
            }
            for (auto &q : goal.relations) {
                std::vector<value> xs; for (auto &v : q.vars) xs.push_back(get(v, 0));
                value e = q.zero(xs); __sx_uq_eq(e.data.sym, e.data.l); ok = ok && plainZero(e);
            }
            auto nonzero = [&](value x, const std::string &n) {
                value i = x; i.data.sym = 0; i = i == value::zero() ? i : i.inversed(); value base = i;
                i.data.sym = __sx_cell(n.c_str(), fid, i.data.l, N); __sx_uq_var(i.data.sym, false, n.c_str(), base.data.l);
                value e = x * i - value::one(); __sx_uq_eq(e.data.sym, e.data.l); ok = ok && plainZero(e);
            };
            for (auto &v : goal.nonzero) nonzero(get(v, 0), "1/" + nameOf(find(keyOf(v, 0))));
            for (std::size_t k = 0; k < goal.nonzeros.size(); k++) { std::vector<value> xs; for (auto &v : goal.nonzeros[k].vars) xs.push_back(get(v, 0)); nonzero(goal.nonzeros[k].zero(xs), nm("1/e", k)); }
            auto rep = [&](const var &v) { get(v, 0); return find(keyOf(v, 0)); };
            bool same = true, within = true;
            for (auto &o : goal.outputs) {
                key k = rep(o); if (!id.count(k)) continue;
                value now = cell[k]; now.data.sym = 0; value before = at(o); before.data.sym = 0; same = same && now == before;
                __sx_uq_target(id[k]);
            }
            for (auto &b : goal.bounded) {
                key k = rep(b.first); if (!id.count(k)) continue;
                value hi(b.second), now = cell[k]; now.data.sym = 0; within = within && !(hi < now);
                __sx_uq_bound(id[k], hi.data.l);
            }
            for (auto &b : goal.assumed) { key k = rep(b.first); if (!id.count(k)) continue; value hi(b.second), now = cell[k]; now.data.sym = 0; ok = ok && !(hi < now); __sx_uq_range(id[k], hi.data.l); }
            const bool none = goal.none || !goal.infeasible.empty();
            if (none) __sx_uq_infeasible();
            __sx_uq_run(msg, seconds);
            bool broken = ok && (!same || !within || none);
            SX_ASSERT(!broken, msg);
        }
        template<typename Get> void lookups_sound(Get &get, bool &ok) {
            std::set<std::size_t> used;
            for (auto &gate : c.lookup_gates())
                for (std::size_t row = 0; row < t.selector_column_size(gate.tag_index); row++) {
                    if (t.selector(gate.tag_index, row) == value::zero()) continue;
                    for (auto &con : gate.constraints) {
                        std::vector<std::uint32_t> ns; std::vector<std::uint64_t> ls; std::vector<value> vs;
                        for (auto &in : con.lookup_input) {
                            nil::crypto3::math::expression_evaluator<var> ev(in, [&](const var &v) -> value { return get(v, row); });
                            value e = ev.evaluate(); ns.push_back(e.data.sym); ls.insert(ls.end(), e.data.l, e.data.l + value::N); e.data.sym = 0; vs.push_back(e);
                        }
                        const auto &rows = table(con.table_id);
                        if (used.insert(con.table_id).second) {
                            std::vector<std::uint64_t> flat; for (auto &r : rows) for (auto &x : r) flat.insert(flat.end(), x.data.l, x.data.l + value::N);
                            __sx_uq_table(con.table_id, rows.empty() ? 0 : rows[0].size(), rows.size(), flat.data());
                        }
                        __sx_uq_lookup(con.table_id, ns.size(), ns.data(), ls.data());
                        ok = ok && std::binary_search(rows.begin(), rows.end(), vs);
                    }
                }
        }
        // rows of a reserved table, sorted
        std::map<std::size_t, std::vector<std::vector<value>>> rows_of;
        std::function<std::vector<std::vector<value>>(std::size_t)> table_rows;
        const std::vector<std::vector<value>> &table(std::size_t tid) {
            auto it = rows_of.find(tid); if (it != rows_of.end()) return it->second;
            auto r = table_rows(tid); std::sort(r.begin(), r.end()); return rows_of[tid] = r;
        }
        // every gate on every enabled row, every copy constraint, every lookup
        void satisfied() {
            for (std::size_t g = 0; g < c.gates().size(); g++) {
                auto &gate = c.gates()[g];
                for (std::size_t row = 0; row < t.selector_column_size(gate.selector_index); row++) {
                    if (t.selector(gate.selector_index, row) == value::zero()) continue;
                    for (std::size_t j = 0; j < gate.constraints.size(); j++) {
                        value v = gate.constraints[j].evaluate(row, t);
                        SX_ASSERT(v == value::zero(), ("gate " + std::to_string(g) + " constraint " + std::to_string(j) + " holds on row " + std::to_string(row)).c_str());
                    }
                }
            }
            std::size_t k = 0;
            for (auto &cc : c.copy_constraints()) {
                SX_ASSERT(at(cc.first) == at(cc.second), ("copy constraint " + std::to_string(k++) + " joins equal cells").c_str());
            }
        }
    };
}    // namespace sxc
