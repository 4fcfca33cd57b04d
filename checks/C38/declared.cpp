// What components declare about themselves: allowed widths depend on the parameters asked about, and the gates of
// different configurations are counted apart.
#include <sx_component.h>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/zkevm/state_selector.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using A = R::A; using V = F::value_type; using mode = cmp::comparison_mode;
// the manifest of some first parameters must not linger: ask about two, judge the second
template<typename Get, typename Want> static void widths(std::uint64_t lo, std::uint64_t hi, Get get, Want want) {
    std::uint64_t n1 = sx::u64("n1", lo, hi), n2 = sx::u64("n2", lo, hi); std::uint32_t w = sx::u32("w", 0, 400);
    auto m1 = get(n1), m2 = get(n2); (void)m1;
    SX_ASSERT(m2.witness_amount->check_manifest_param(w) == want(n2, w), "the widths allowed are those for the parameters asked about"); SX_REACH("widths");
}
static std::uint64_t up(std::uint64_t a, std::uint64_t b) { return (a + b - 1) / b; }
static std::uint64_t most(std::uint64_t a, std::uint64_t b) { return a < b ? b : a; }
SX_CASE(width_range_check) { widths(1, 255, [](auto n) { return cmp::range_check<A>::get_manifest(n); }, [](auto n, auto w) { return (w >= 2) & (w <= most(2, n / 2 + 1)); }); }
SX_CASE(width_comparison_flag) { widths(1, 255, [](auto n) { return cmp::comparison_flag<A>::get_manifest(n, mode::LESS_THAN); }, [](auto n, auto w) { return (w >= 3) & (w <= most(3, up(n, 28))); }); }
SX_CASE(width_comparison_checked) { widths(1, 255, [](auto n) { return cmp::comparison_checked<A>::get_manifest(n, mode::LESS_THAN); }, [](auto n, auto w) { return (w >= 3) & (w <= most(3, up(n, 2))); }); }
SX_CASE(width_pow_factor) { widths(1, 300, [](auto n) { return cmp::pow_factor<A, F>::get_manifest(n); }, [](auto n, auto w) { return (w >= 10) & (w <= 10 + n / 6) & ((w - 10) % 8 == 0); }); }
SX_CASE(width_array_swap) { widths(1, 80, [](auto n) { return cmp::fri_array_swap<A, F>::get_manifest(n); }, [](auto n, auto w) { return (w >= 5) & (w <= 1 + 4 * n) & (w % 4 == 1); }); }
SX_CASE(width_cosets) { widths(1, 40, [](auto n) { return cmp::fri_cosets<A, F>::get_manifest(n, V(5u)); }, [](auto n, auto w) { return (w >= 9) & (w <= 9 * n) & (w % 9 == 0); }); }
SX_CASE(width_selector) { widths(1, 300, [](auto n) { return cmp::state_selector<A, F>::get_manifest(n); }, [](auto n, auto w) { return w == (n + 1) / 2 + 2; }); }
// two configurations together: once when they are the same, apart when their gates differ
template<typename Get> static void gates(Get get, bool same) {
    std::uint64_t one = get(1).get_gates_amount(), other = get(2).get_gates_amount(); auto both = get(1), back = get(2); both.merge_with(get(2)); back.merge_with(get(1));
    SX_ASSERT(both.get_gates_amount() == (same ? one : one + other), "gates of different configurations are counted apart");
    SX_ASSERT(back.get_gates_amount() == both.get_gates_amount(), "in either order"); SX_REACH("gates");
}
struct Two { std::uint64_t a, b; Two(const char *n, std::uint64_t lo, std::uint64_t hi) : a(sx::u64(nm(n, 1).c_str(), lo, hi)), b(sx::u64(nm(n, 2).c_str(), lo, hi)) {} std::uint64_t operator()(int k) const { return k == 1 ? a : b; } bool same() const { return a == b; } };
SX_CASE(gates_equality_flag) { Two q("q", 0, 1); gates([&](int k) { return cmp::equality_flag<A, F>::get_gate_manifest(4, q(k) != 0); }, q.same()); }
SX_CASE(gates_logic_and) { Two w("w", 2, 5); gates([&](int k) { return cmp::logic_and_flag<A>::get_gate_manifest(w(k)); }, w.same()); }
SX_CASE(gates_logic_or) { Two w("w", 2, 6); gates([&](int k) { return cmp::logic_or_flag<A>::get_gate_manifest(w(k)); }, w.same()); }
SX_CASE(gates_comparison_flag) { Two w("w", 3, 15), n("n", 1, 250), m("m", 1, 4); gates([&](int k) { return cmp::comparison_flag<A>::get_gate_manifest(w(k), n(k), mode(m(k))); }, w.same() & n.same() & m.same()); }
SX_CASE(gates_comparison_checked) { Two w("w", 3, 15), n("n", 1, 250), m("m", 1, 4); gates([&](int k) { return cmp::comparison_checked<A>::get_gate_manifest(w(k), n(k), mode(m(k))); }, w.same() & n.same() & m.same()); }
SX_CASE(gates_pow_factor) { Two w("w", 0, 6); gates([&](int k) { return cmp::pow_factor<A, F>::get_gate_manifest(10 + 8 * w(k), 300); }, w.same()); }
SX_CASE(gates_poseidon) { std::size_t ws[4] = {3, 6, 15, 42}; unsigned i = sx::fork(sx::u32("i", 0, 3)), j = sx::fork(sx::u32("j", 0, 3)); gates([&](int k) { return cmp::flexible_poseidon<A, F>::get_gate_manifest(ws[k == 1 ? i : j]); }, i == j); }
SX_CASE(gates_array_swap) { Two w("w", 1, 16); gates([&](int k) { return cmp::fri_array_swap<A, F>::get_gate_manifest(1 + 4 * w(k), 16); }, w.same()); }
SX_CASE(gates_selector) { Two n("n", 1, 300); gates([&](int k) { return cmp::state_selector<A, F>::get_gate_manifest((n(k) + 1) / 2 + 2, n(k)); }, n.same()); }
SX_CASE(gates_division) {
    Two w("w", 3, 5); auto get = [&](int k) { return cmp::division_remainder<A>::get_gate_manifest(w(k), 16, true); };
    std::uint64_t one = get(1).get_gates_amount(), other = get(2).get_gates_amount(); auto both = get(1); both.merge_with(get(2)); SX_ASSERT(both.get_gates_amount() == (w.same() ? one : one + other), "gates of different widths are counted apart"); SX_REACH("gates");
}
SX_CASE(gates_range_check) { Two w("w", 2, 15), n("n", 1, 250); gates([&](int k) { return cmp::range_check<A>::get_gate_manifest(w(k), n(k)); }, w.same() & n.same()); }
// different components never count as one
SX_CASE(gates_apart) {
    std::uint64_t w = sx::u64("w", 3, 5); auto all = cmp::logic_and_flag<A>::get_gate_manifest(w), b = cmp::logic_or_flag<A>::get_gate_manifest(w), c = cmp::equality_flag<A, F>::get_gate_manifest(w, true);
    std::uint64_t na = all.get_gates_amount(), nb = b.get_gates_amount(), nc = c.get_gates_amount(); all.merge_with(b); SX_ASSERT(all.get_gates_amount() == na + nb, "gates of different components are counted apart");
    all.merge_with(c); SX_ASSERT(all.get_gates_amount() == na + nb + nc, "gates of different components are counted apart");
    all.merge_with(b); SX_ASSERT(all.get_gates_amount() == na + nb + nc, "and those of one component once"); SX_REACH("apart");
}
