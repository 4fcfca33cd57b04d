// A component stretched over more columns computes the same, and its constraints still pin the result.
#include <sx_component.h>
#include <nil/blueprint/component_stretcher.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using A = R::A;
using var = R::var;
using con = snark::plonk_constraint<F>;
using ct = var::column_type;
namespace nil { namespace blueprint { namespace components {
// Rows of three witness cells. What a row does is chosen by its kind; each row starts from the result of the one before.
//   0: w2 = w0 * w1, w1 the second input        1: w2 = w0 + constant of the row (read by the gate)
//   2: w2 = w0 * w1, w1 copied from a constant  3: two rows: w0 of the next = w0 * w1 + w2, w2 the first input
struct chain {
    struct input_type { var a, b; std::vector<std::reference_wrapper<var>> all_vars() { return {a, b}; } };
    struct result_type { var output; std::vector<std::reference_wrapper<var>> all_vars() { return {output}; } };
    std::vector<unsigned> kinds; std::vector<V> ks; std::size_t rows_amount = 0;
    chain(std::vector<unsigned> k, std::vector<V> c) : kinds(k), ks(c) { for (auto x : kinds) rows_amount += x == 3 ? 2 : 1; }
    std::size_t witness_amount() const { return 3; }
    var last() const { return kinds.back() == 3 ? var(0, rows_amount - 1, false) : var(2, rows_amount - 1, false); }
    V expected(V a, V b) const {
        V x = a;
        for (std::size_t i = 0; i < kinds.size(); i++) switch (kinds[i]) {
            case 0: x = x * b; break;
            case 1: x = x + ks[i]; break;
            case 2: x = x * ks[i]; break;
            default: x = x * b + a;
        }
        return x;
    }
};
inline chain::result_type generate_circuit(const chain &comp, circuit<A> &bp, assignment<A> &t, const chain::input_type &in, std::size_t start) {
    var w0(0, 0), w1(1, 0), w2(2, 0), k0(0, 0, true, ct::constant);
    std::size_t sel[3] = {~(std::size_t)0, ~(std::size_t)0, ~(std::size_t)0};
    auto gate = [&](unsigned g, con c) { if (sel[g] == ~(std::size_t)0) sel[g] = bp.add_gate(std::vector<con> {c}); return sel[g]; };
    var from = in.a; std::size_t row = start;
    for (std::size_t i = 0; i < comp.kinds.size(); i++) {
        bp.add_copy_constraint({from, var(0, row, false)});
        unsigned k = comp.kinds[i];
        if (k == 1 || k == 2) t.constant(0, row) = comp.ks[i];
        if (k == 0 || k == 2) t.enable_selector(gate(0, w2 - w0 * w1), row);
        if (k == 1) t.enable_selector(gate(1, w2 - w0 - k0), row);
        if (k == 3) t.enable_selector(gate(2, var(0, 1) - w0 * w1 - w2), row);
        if (k == 0 || k == 3) bp.add_copy_constraint({var(1, row, false), in.b});
        if (k == 2) bp.add_copy_constraint({var(1, row, false), var(0, row, false, ct::constant)});
        if (k == 3) bp.add_copy_constraint({in.a, var(2, row, false)});
        from = k == 3 ? var(0, row + 1, false) : var(2, row, false); row += k == 3 ? 2 : 1;
    }
    return {from};
}
inline chain::result_type generate_assignments(const chain &comp, assignment<A> &t, const chain::input_type &in, std::size_t start) {
    V a = var_value(t, in.a), b = var_value(t, in.b), x = a; std::size_t row = start; var from = in.a;
    for (std::size_t i = 0; i < comp.kinds.size(); i++) {
        unsigned k = comp.kinds[i];
        t.witness(0, row) = x;
        if (k == 0 || k == 3) t.witness(1, row) = b;
        if (k == 2) t.witness(1, row) = comp.ks[i];
        if (k == 0) t.witness(2, row) = x * b;
        if (k == 1) t.witness(2, row) = x + comp.ks[i];
        if (k == 2) t.witness(2, row) = x * comp.ks[i];
        if (k == 3) { t.witness(2, row) = a; t.witness(0, row + 1) = x * b + a; }
        from = k == 3 ? var(0, row + 1, false) : var(2, row, false); row += k == 3 ? 2 : 1;
        x = var_value(t, from);
    }
    return {from};
}
template<> class input_type_converter<chain> {
public:
    static chain::input_type convert(const chain::input_type &in, assignment<A> &t, assignment<A> &u) {
        chain::input_type r; u.public_input(0, 0) = var_value(t, in.a); u.public_input(0, 1) = var_value(t, in.b);
        r.a = var(0, 0, false, ct::public_input); r.b = var(0, 1, false, ct::public_input); return r;
    }
    static var deconvert_var(const chain::input_type &in, var v) { return v.rotation == 0 ? in.a : in.b; }
};
template<> class result_type_converter<chain> {
public:
    static chain::result_type convert(const component_stretcher<F, chain> &s, const chain::result_type old, const chain::input_type &in, std::size_t start) {
        return {s.move_var(old.output, start + s.line_mapping[old.output.rotation], in)};
    }
};
}}}
namespace cmp = nil::blueprint::components;
static const std::vector<std::vector<unsigned>> plans = {{0, 1}, {0, 0, 1}, {3, 0}, {0, 3, 0}, {1, 3, 1, 0}, {2, 0, 1}, {1, 2, 0}, {3, 1, 3, 2}, {2, 2, 1, 3, 0, 1}, {0, 1, 3, 1, 3, 0, 2}, {3, 3}, {1, 1, 2, 2}};
using S = cmp::component_stretcher<F, cmp::chain>;
static void used_rows(R &r, const S &s) {
    std::size_t used = 0;
    for (std::size_t i = 0; i < r.t.witnesses_amount(); i++) used = std::max<std::size_t>(used, r.t.witness_column_size(i));
    for (std::size_t i = 0; i < r.t.selectors_amount(); i++) used = std::max<std::size_t>(used, r.t.selector_column_size(i));
    for (std::size_t i = 0; i < r.t.constants_amount(); i++) used = std::max<std::size_t>(used, r.t.constant_column_size(i));
    SX_ASSERT(used == r.start + s.rows_amount, "declared rows are the rows used");
}
// inputs in the public input column, in the order the component takes them; in the other order; or in cells of the table
static cmp::chain::input_type inputs(R &r, unsigned where, const V &a, const V &b, std::size_t above) {
    cmp::chain::input_type in;
    switch (where) {
        case 0: in.a = r.place(a); in.b = r.place(b); break;
        case 1: r.place(V(77u)); in.b = r.place(b); in.a = r.place(a); break;
        default: {
            in.a = var(1, above, false); in.b = var(0, above, false);
            r.t.witness(1, above) = a; r.t.witness(0, above) = b; r.c.add_copy_constraint({in.a, r.place(a)}); r.c.add_copy_constraint({in.b, r.place(b)});
        }
    }
    return in;
}
static std::vector<V> consts(std::size_t n) { std::vector<V> k; for (std::size_t i = 0; i < n; i++) k.push_back(V(unsigned(1000 + 17 * i))); return k; }
static void go(unsigned where, bool sound) {
    auto plan = plans[sx::fork(sx::u32("plan", 0, plans.size() - 1))]; unsigned m = sx::fork(sx::u32("times", 1, 4)); std::size_t start = where == 2 ? 1 : sx::fork(sx::u32("start", 0, 1)) * 3;
    V a = sound ? V(5u) : R::input("a"), b = sound ? V(11u) : R::input("b");
    R r(3 * m, 1, 1, 5, start); auto in = inputs(r, where, a, b, 0);
    cmp::chain c(plan, consts(plan.size())); S s(c, 3, 3 * m);
    auto res = r.run(s, in);
    V out = r.at(res.output);
    SX_ASSERT(out == c.expected(a, b), "stretched result");
    if (!sound) r.satisfied();
    used_rows(r, s);
    if (sound) { R::Goal g; g.outputs = {res.output}; r.sound(g, "stretched result is pinned"); }
    SX_REACH("stretched");
}
SX_CASE(values) { go(0, false); }
SX_CASE(reordered) { go(1, false); }
SX_CASE(from_cells) { go(2, false); }
SX_CASE(sound) { go(0, true); }
SX_CASE(sound_from_cells) { go(2, true); }
