// Component manifests, compiler manifests and gate manifests.
#include "sx_api.h"
#include <string>
#include <vector>
#include <nil/blueprint/manifest.hpp>
using namespace nil::blueprint;
using P = std::shared_ptr<manifest_param>;
using CT = manifest_constant_type::type;
using LT = manifest_lookup_type::type;
static CT ct(const char *n) { return (CT)sx::fork<std::uint32_t>(sx::u32(n, 0, 2)); }
static LT lt(const char *n) { return (LT)sx::fork<std::uint32_t>(sx::u32(n, 0, 3)); }

SX_CASE(constant_requirement_merge) {
    CT a = ct("a"), b = ct("b");
    manifest_constant_type r = manifest_constant_type(a).merge_with(b);
    CT want = (a == CT::UNSAT || b == CT::UNSAT) ? CT::UNSAT : (a == CT::REQUIRED || b == CT::REQUIRED) ? CT::REQUIRED : CT::NONE;
    SX_ASSERT(r == manifest_constant_type(want), "constant requirement of a merge");
    SX_ASSERT((r != manifest_constant_type(want)) == false, "inequality is the negation of equality");
    SX_REACH("merge");
}
SX_CASE(constant_requirement_intersect) {
    CT a = ct("a"); bool has = sx::b("has"); std::uint32_t mx = sx::u32("max", 0, 40);
    compiler_manifest c(mx, has);
    manifest_constant_type r = manifest_constant_type(a).intersect(c);
    bool unsat = (a == CT::UNSAT) | ((a == CT::REQUIRED) & !has);
    SX_ASSERT((r == manifest_constant_type(CT::UNSAT)) == unsat, "constants demanded but not offered are unsatisfiable, nothing else is");
    SX_ASSERT(unsat | ((r == manifest_constant_type(CT::REQUIRED)) == (a == CT::REQUIRED)), "requirement is kept");
    SX_REACH("intersect");
}
SX_CASE(lookup_usage) {
    LT a = lt("a"), b = lt("b");
    manifest_lookup_type x(a), y(b), m = x.merge_with(y), i = x.intersect(y);
    SX_ASSERT(m == y.merge_with(x), "merge symmetric"); SX_ASSERT(i == y.intersect(x), "intersection symmetric");
    auto rank = [](LT t) { return t == LT::NONE ? 0 : t == LT::OPTIONAL ? 1 : t == LT::REQUIRED ? 2 : 3; };
    SX_ASSERT(rank(m.t) == std::max(rank(a), rank(b)), "merged usage is the stronger of the two");
    LT w = (a == LT::UNSAT || b == LT::UNSAT) ? LT::UNSAT
         : (a == LT::REQUIRED || b == LT::REQUIRED) ? ((a == LT::NONE || b == LT::NONE) ? LT::UNSAT : LT::REQUIRED)
         : (a == LT::NONE || b == LT::NONE) ? LT::NONE : LT::OPTIONAL;
    SX_ASSERT(i == manifest_lookup_type(w), "intersection of lookup usage");
    SX_REACH("lookup");
}
// an accepted width/constant configuration is exactly one that fits
static void component(int kind) {
    std::uint32_t step = sx::fork<std::uint32_t>(sx::u32("step", 1, 4)), a = sx::fork<std::uint32_t>(sx::u32("start", 0, 6)), b = sx::u32("finish", 0, 20);
    P w; bool in[33]; for (auto &x : in) x = false;
    if (kind == 0) { w = P(new manifest_single_value_param(a)); in[a] = true; }
    else if (kind == 1) { w = P(new manifest_range_param(a, b, step)); for (unsigned i = a; i < 21; i += step) in[i] = i < b; }
    else { w = P(new manifest_set_param({a, a + step, a + 7})); in[a] = in[a + step] = in[a + 7] = true; }
    CT c = ct("c");
    plonk_component_manifest m(w, c);
    bool any = false; for (bool x : in) any |= x;
    SX_ASSERT(m.is_satisfiable() == (any & (c != CT::UNSAT)), "satisfiable iff some configuration fits");
    std::uint32_t cols = sx::u32("cols", 0, 30), consts = sx::u32("consts", 0, 3); bool strict = sx::b("strict");
    bool exact = false, fits = false;
    for (unsigned i = 0; i < 33; i++) { exact |= in[i] & (cols == i); fits |= in[i] & (i <= cols); }
    bool cok = (c == CT::NONE) | ((c == CT::REQUIRED) & (consts > 0));
    SX_ASSERT(m.check_manifest(cols, consts, strict) == ((strict ? exact : fits) & cok), "configuration accepted iff it meets the declared needs");
    // offered by a compiler
    std::uint32_t mx = sx::u32("max", 0, 30); bool has = sx::b("has");
    compiler_manifest cm(sx::fork<std::uint32_t>(sx::u32("initial", 0, 1)) ? mx : 3, has);
    cm.set_max_witness_amount(mx);
    SX_ASSERT(cm.get_max_witness_amount() == mx, "the maximum reads back");
    auto r = cm.intersect(m);
    for (unsigned v = 0; v < 32; v++) SX_ASSERT(r.witness_amount->check_manifest_param(v) == (in[v] & (v <= mx)), "widths offered by the compiler are those declared and not above the maximum");
    bool some = false; for (unsigned v = 0; v < 33; v++) some |= in[v] & (v <= mx);
    SX_ASSERT(r.is_satisfiable() == (some & ((c == CT::NONE) | ((c == CT::REQUIRED) & has))), "intersection satisfiable iff the compiler can offer it");
    SX_REACH("component");
}
SX_CASE(component_single) { component(0); }
SX_CASE(component_range) { component(1); }
SX_CASE(component_set) { component(2); }
SX_CASE(compiler_ctor) {
    std::uint32_t mx = sx::u32("max", 0, 30); compiler_manifest cm(mx, true);
    plonk_component_manifest m(P(new manifest_range_param(0, 32)), CT::NONE);
    auto r = cm.intersect(m);
    for (unsigned v = 0; v < 32; v++) SX_ASSERT(r.witness_amount->check_manifest_param(v) == (v <= mx), "a fresh compiler manifest offers every width up to its maximum");
    std::uint32_t m2 = sx::u32("max2", 0, 30); bool h = sx::b("h"), h2 = sx::b("h2");
    compiler_manifest x(mx, h), y(m2, h2);
    SX_ASSERT((x < y) == ((mx < m2) | ((mx == m2) & !h & h2)), "ordering of compiler manifests");
    SX_REACH("compiler");
}
SX_CASE(component_merge) {
    CT c = ct("c"), d = ct("d"); std::uint32_t a = sx::u32("a", 0, 9), b = sx::u32("b", 0, 9);
    plonk_component_manifest x(P(new manifest_single_value_param(a)), c), y(P(new manifest_single_value_param(b)), d);
    auto r = x.merge_with(y);
    SX_ASSERT(r.is_satisfiable() == ((c != CT::UNSAT) & (d != CT::UNSAT)), "a merge is satisfiable iff both parts are");
    for (unsigned v = 0; v < 12; v++) SX_ASSERT(r.witness_amount->check_manifest_param(v) == (v == sx::max(a, b)), "merged width fits both");
    SX_REACH("component merge");
}
// gate manifests: each distinct gate set is counted once
struct gA : component_gate_manifest { std::uint32_t p, n; gA(std::uint32_t p, std::uint32_t n) : p(p), n(n) {}
    std::uint32_t gates_amount() const override { return n; }
    bool operator<(const component_gate_manifest *o) const override { return p < dynamic_cast<const gA *>(o)->p; } };
struct gB : component_gate_manifest { std::uint32_t n; gB(std::uint32_t n) : n(n) {} std::uint32_t gates_amount() const override { return n; } };
SX_CASE(gate_counting) {
    std::uint32_t p0 = sx::u32("p0", 0, 3), p1 = sx::u32("p1", 0, 3), p2 = sx::u32("p2", 0, 3), n = sx::u32("n", 0, 9), nb = sx::u32("nb", 0, 9);
    // the amount of gates is a function of the parameter
    auto am = [&](std::uint32_t p) { return p * 3 + n; };
    gate_manifest x(gA(p0, am(p0)));
    SX_ASSERT(x.get_gates_amount() == am(p0), "one gate set");
    x.add(gB(nb)).add(gA(p1, am(p1)));
    gate_manifest y; SX_ASSERT(y.get_gates_amount() == 0, "empty");
    y.add(gA(p2, am(p2))).add(gB(nb));
    std::uint32_t d01 = am(p0) + (std::uint32_t)sx::sel(p1 != p0, am(p1), 0);
    SX_ASSERT(x.get_gates_amount() == d01 + nb, "distinct gate sets add up, repeated ones count once");
    SX_ASSERT(y.get_gates_amount() == am(p2) + nb, "distinct gate sets add up");
    gate_manifest z(x); SX_ASSERT(z.get_gates_amount() == x.get_gates_amount(), "copy");
    z.merge_with(y);
    SX_ASSERT(z.get_gates_amount() == d01 + nb + (std::uint32_t)sx::sel((p2 != p0) & (p2 != p1), am(p2), 0), "merging unites gate sets");
    gate_manifest w(y); w.merge_with(x);
    SX_ASSERT(w.get_gates_amount() == z.get_gates_amount(), "merging is symmetric in the count");
    SX_REACH("gates");
}
