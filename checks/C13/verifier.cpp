// Arguments of the placeholder verifier: the circuits compute their formulas and leave no choice of the result.
#include <sx_component.h>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/gate_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f1_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = R::value; using A = R::A; using var = R::var;
static std::vector<std::uint32_t> none, zero = {0};
using Gate = cmp::detail::gate_component<A>; using F1 = cmp::detail::f1_loop<A>; using F3 = cmp::detail::f3_loop<A>; using Perm = cmp::permutation_verifier<A>; using Basic = cmp::basic_constraints_verifier<A>;
// values of the inputs: free when the formula is judged, fixed when all witnesses are left open instead
struct Src { bool open; unsigned n = 0; V operator()(std::string name) { n++; return open ? R::input(name) : V(3 * n * n + 7 * n + 2); } };
static std::size_t width(std::size_t lo, std::size_t hi) { return sx::fork(sx::u64("w", lo, hi)); }

static void gate(bool open, std::size_t w, std::size_t d, std::size_t start) {
    R r(w, 1, 0, 2 * w + 2, start); Src s{open}; V th = s("theta"), q = s("q"), p = V(1), want = V(0); Gate comp(seq(w), none, none, d); Gate::input_type in; in.theta = r.place(th); in.selector = r.place(q);
    for (std::size_t i = 0; i <= d; i++) { V c = s(nm("c", i)); in.constraints.push_back(r.place(c)); want = want + p * c; p = p * th; }
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.output) == q * want, "q (c0 + theta c1 + ...)");
    if (open) { r.satisfied(); r.sizes(comp, d); } else { R::Goal g; g.outputs = {res.output}; r.sound(g, "the value follows from the inputs"); }
    SX_REACH("gate");
}
static void f1(bool open, std::size_t w, std::size_t m, std::size_t start) {
    R r(w, 1, 0, 3 * w, start); Src s{open}; V b = s("beta"), c = s("gamma"), want = V(1); F1 comp(seq(w), none, none, m); F1::input_type in; in.beta = r.place(b); in.gamma = r.place(c);
    for (std::size_t i = 0; i < m; i++) { V x = s(nm("s", i)), y = s(nm("t", i)); in.s.push_back(r.place(x)); in.t.push_back(r.place(y)); want = want * ((V(1) + b) * c + x + b * y); }
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.output) == want, "product of (1 + beta) gamma + s + beta t");
    if (open) { r.satisfied(); r.sizes(comp, m); } else { R::Goal g; g.outputs = {res.output}; r.sound(g, "the product follows from the inputs"); }
    SX_REACH("f1");
}
static void f3(bool open, std::size_t w, std::size_t m, std::size_t start) {
    R r(w, 1, 0, 3 * w, start); Src s{open}; V want = V(0); F3 comp(seq(w), none, none, m); F3::input_type in;
    for (std::size_t i = 0; i < m; i++) { V a = s(nm("a", i)), x = s(nm("s", i)), y = s(nm("t", i)); in.alphas.push_back(r.place(a)); in.s.push_back(r.place(x)); in.t.push_back(r.place(y)); want = want + a * (x - y); }
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.output) == want, "sum of alpha (s - t)");
    if (open) { r.satisfied(); r.sizes(comp, m); } else { R::Goal g; g.outputs = {res.output}; r.sound(g, "the sum follows from the inputs"); }
    SX_REACH("f3");
}
static void perm(bool open, std::size_t m, std::size_t start) {
    R r(6, 1, 0, 6, start); Src s{open}; Perm comp(seq(6), none, none, m); Perm::input_type in; V t1 = s("t1"), t2 = s("t2"), l0 = s("l0"), v = s("v"), vz = s("vz"), ql = s("ql"), qp = s("qp"), fe = V(1), fs = V(1);
    for (std::size_t i = 0; i < m; i++) { V f = s(nm("f", i)), e = s(nm("e", i)), g = s(nm("g", i)); in.f.push_back(r.place(f)); in.Se.push_back(r.place(e)); in.Ssigma.push_back(r.place(g)); fe = fe * (f + t1 * e + t2); fs = fs * (f + t1 * g + t2); }
    in.thetas = {r.place(t1), r.place(t2)}; in.L0 = r.place(l0); in.V = r.place(v); in.V_zeta = r.place(vz); in.q_last = r.place(ql); in.q_pad = r.place(qp);
    auto res = r.run(comp, in);
    SX_ASSERT(r.at(res.output[0]) == l0 * (V(1) - v), "start of the product"); SX_ASSERT(r.at(res.output[1]) == (V(1) - ql - qp) * (vz * fs - v * fe), "step of the product"); SX_ASSERT(r.at(res.output[2]) == ql * (v * v - v), "end of the product");
    if (open) { r.satisfied(); r.sizes(comp, m); } else { R::Goal g; g.outputs = {res.output[0], res.output[1], res.output[2]}; r.sound(g, "the three values follow from the inputs"); }
    SX_REACH("perm");
}
static void basic(bool open, std::size_t w, std::vector<std::size_t> sizes, std::size_t start) {
    R r(w, 1, 1, 4 * w + 4, start); Src s{open}; V th = s("theta"), p = V(1), want = V(0); Basic comp(seq(w), zero, none, sizes); Basic::input_type in; in.theta = r.place(th); unsigned n = 0;
    for (std::size_t i = 0; i < sizes.size(); i++) { V q = s(nm("q", i)); in.selectors.push_back(r.place(q)); for (std::size_t j = 0; j < sizes[i]; j++) { V c = s(nm("c", n++)); in.constraints.push_back(r.place(c)); want = want + p * q * c; p = p * th; } }
    auto res = r.run(comp, in); SX_ASSERT(r.at(res.output) == want, "all constraints of all gates, folded with powers of theta");
    if (open) { r.satisfied(); SX_ASSERT(comp.rows_amount == Basic::get_rows_amount(w, sizes), "declared number of rows"); SX_ASSERT(r.c.num_gates() - r.others == Basic::get_gate_manifest(w, sizes).get_gates_amount(), "declared number of gates"); } else { R::Goal g; g.outputs = {res.output}; r.sound(g, "the value follows from the inputs"); }
    SX_REACH("basic");
}
SX_CASE(gate_values) { std::size_t d = sx::fork(sx::u64("d", 1, 16)); gate(true, width(3, 14), d, 0); }
SX_CASE(gate_sound) { std::size_t d = sx::fork(sx::u64("d", 1, 16)); gate(false, width(3, 14), d, 2); }
SX_CASE(f1_values) { std::size_t m = sx::fork(sx::u64("m", 1, 14)); f1(true, width(4, 14), m, 0); }
SX_CASE(f1_sound) { std::size_t m = sx::fork(sx::u64("m", 1, 14)); f1(false, width(4, 14), m, 2); }
SX_CASE(f3_values) { std::size_t m = sx::fork(sx::u64("m", 1, 14)); f3(true, width(4, 14), m, 0); }
SX_CASE(f3_sound) { std::size_t m = sx::fork(sx::u64("m", 1, 14)); f3(false, width(4, 14), m, 2); }
SX_CASE(perm_values) { std::size_t m = sx::fork(sx::u64("m", 2, 9)); perm(true, m, 0); }
SX_CASE(perm_sound) { std::size_t m = sx::fork(sx::u64("m", 2, 9)); perm(false, m, 2); }
static const std::vector<std::vector<std::size_t>> shapes = {{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {3, 1, 2}, {2, 3}};
SX_CASE(basic_values) { unsigned k = sx::fork(sx::u32("k", 0, 7)); basic(true, width(3, 14), shapes[k], 0); }
SX_CASE(basic_sound) { unsigned k = sx::fork(sx::u32("k", 0, 7)); basic(false, width(3, 14), shapes[k], 2); }

using Look = cmp::lookup_verifier<A>;
// per table: number of options and columns; per gate: number of inputs of each constraint
static void lookup(bool open, std::size_t w, std::vector<std::pair<std::size_t, std::size_t>> tables, std::vector<std::vector<std::size_t>> gates, std::size_t start) {
    R r(w, 1, 1, 6 * w + 8, start); Src s{open}; std::vector<std::size_t> cs, ins, os, cols; std::size_t nin = 0, nval = 0;
    for (auto &t : tables) { os.push_back(t.first); cols.push_back(t.second); nval += t.first; } for (auto &g : gates) { cs.push_back(g.size()); for (auto n : g) { ins.push_back(n); nin++; } }
    Look comp(seq(w), zero, none, gates.size(), cs, ins, tables.size(), os, cols); Look::input_type in;
    V th = s("theta"), b = s("beta"), c = s("gamma"), vl = s("vl"), vs = s("vs"), ql = s("ql"), qls = s("qls"), qb = s("qb"), qbs = s("qbs"), l0 = s("l0"), d = (V(1) + b) * c, mask = V(1) - ql - qb, shifted = V(1) - qls - qbs;
    in.theta = r.place(th); in.beta = r.place(b); in.gamma = r.place(c); in.V_L_values = {r.place(vl), r.place(vs)}; in.q_last = {r.place(ql), r.place(qls)}; in.q_blind = {r.place(qb), r.place(qbs)}; in.L0 = r.place(l0);
    V g = V(1), h = V(1), f3 = V(0); unsigned n = 0;
    for (std::size_t i = 0; i < tables.size(); i++) {
        V x = s(nm("x", i)), y = s(nm("y", i)); in.lookup_table_selectors.push_back(r.place(x)); in.shifted_lookup_table_selectors.push_back(r.place(y));
        for (std::size_t j = 0; j < tables[i].first; j++) {
            V a = V(i + 1), e = V(i + 1), p = th;
            for (std::size_t k = 0; k < tables[i].second; k++) { V o = s(nm("o", n)), u = s(nm("u", n)); n++; in.lookup_table_lookup_options.push_back(r.place(o)); in.shifted_lookup_table_lookup_options.push_back(r.place(u)); a = a + p * o; e = e + p * u; p = p * th; }
            g = g * (d + mask * x * a + b * (shifted * y * e));
        }
    }
    n = 0; unsigned m = 0;
    for (std::size_t i = 0; i < gates.size(); i++) {
        V x = s(nm("z", i)); in.lookup_gate_selectors.push_back(r.place(x));
        for (auto size : gates[i]) { V a = s(nm("id", m++)), p = th; in.lookup_gate_constraints_table_ids.push_back(r.place(a)); for (std::size_t k = 0; k < size; k++) { V o = s(nm("i", n++)); in.lookup_gate_constraints_lookup_inputs.push_back(r.place(o)); a = a + p * o; p = p * th; } g = g * (d + x * a + b * (x * a)); }
    }
    std::size_t k = nin + nval; std::vector<V> so; for (std::size_t i = 0; i < 3 * k - 1; i++) { so.push_back(s(nm("so", i))); in.sorted.push_back(r.place(so[i])); }
    for (std::size_t i = 0; i < k; i++) h = h * (d + so[i] + b * so[k + i]);
    for (std::size_t i = 0; i + 1 < k; i++) { V al = s(nm("al", i)); in.alphas.push_back(r.place(al)); f3 = f3 + al * (so[i + 1] - so[2 * k + i]); }
    auto res = r.run(comp, in);
    SX_ASSERT(r.at(res.output[0]) == (V(1) - vl) * l0, "start of the product"); SX_ASSERT(r.at(res.output[1]) == ql * (vl * vl - vl), "end of the product");
    SX_ASSERT(r.at(res.output[2]) == mask * (vs * h - vl * g), "step of the product"); SX_ASSERT(r.at(res.output[3]) == l0 * f3, "sorted columns continue each other");
    if (open) { r.satisfied(); SX_ASSERT(comp.rows_amount == Look::get_rows_amount(w, gates.size(), cs, ins, tables.size(), os, cols), "declared number of rows"); SX_ASSERT(r.c.num_gates() - r.others == Look::get_gate_manifest(w, gates.size(), cs, ins, tables.size(), os, cols).get_gates_amount(), "declared number of gates"); }
    else { R::Goal o; o.outputs = {res.output[0], res.output[1], res.output[2], res.output[3]}; r.sound(o, "the four values follow from the inputs"); }
    SX_REACH("lookup");
}
static void lookups(bool open, std::size_t start) {
    std::size_t w = width(4, 14);
    switch (sx::fork(sx::u32("k", 0, 2))) { case 0: lookup(open, w, {{1, 1}}, {{1}}, start); break; case 1: lookup(open, w, {{2, 1}}, {{1, 2}}, start); break; default: lookup(open, w, {{1, 2}, {1, 1}}, {{2}, {1}}, start); }
}
SX_CASE(lookup_values) { lookups(true, 0); }
SX_CASE(lookup_sound) { lookups(false, 2); }
