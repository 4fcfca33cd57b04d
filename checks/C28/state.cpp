// Transitions of the EVM state between rows: the constraints hold exactly when every variable moves as asked.
#include <sx_component.h>
#include <optional>
#include <functional>
#include <nil/blueprint/zkevm/state.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = F::value_type; using T = bp::assignment<R::A>;
using sv = bp::state_var<F>; using tt = bp::transition_type; using ct = R::var::column_type;
struct St { T t; bp::zkevm_state<F> s; V now[4], next[4];
    St() : t(7, 1, 0, 0) {
        sv *v[4] = {&s.pc, &s.stack_size, &s.memory_size, &s.curr_gas};
        s.step_selection = sv(4, ct::witness, V(1u)); s.rows_until_next_op = sv(5, ct::witness, V(2u)); s.rows_until_next_op_inv = sv(6, ct::witness, V(3u));
        for (unsigned i = 0; i < 4; i++) { now[i] = R::input(nm("now", i)); *v[i] = sv((i + 1) % 4, ct::witness, now[i]); }
        s.assign_state(t, 0);
        for (unsigned i = 0; i < 4; i++) { next[i] = R::input(nm("next", i)); v[i]->set_and_assign_value(t, 1, next[i]); SX_ASSERT(v[i]->value == next[i], "the variable keeps its value"); }
        for (unsigned i = 0; i < 4; i++) { SX_ASSERT(static_cast<const T &>(t).witness((i + 1) % 4, 0) == now[i], "first row"); SX_ASSERT(static_cast<const T &>(t).witness((i + 1) % 4, 1) == next[i], "second row"); }
        for (unsigned i = 0; i < 3; i++) SX_ASSERT(static_cast<const T &>(t).witness(4 + i, 0) == V(i + 1), "bookkeeping");
    }
    bool holds(const bp::zkevm_state_transition &tr, std::size_t &n) { auto cs = bp::generate_transition_constraints(s, tr); n = cs.size(); bool ok = true; for (auto &c : cs) ok = ok & (c.evaluate(0, t) == V::zero()); return ok; }
};
// one variable moves freely in every way, with every step; the others stay
static void moves(unsigned i) {
    St x; unsigned k = sx::fork(sx::u32("kind", 0, 4)); bool neg = sx::fork(sx::u32("negative", 0, 1)); std::uint64_t size = sx::u64("size", 1, (1ull << 62)); std::int64_t d = neg ? -(std::int64_t)size : (std::int64_t)size;
    auto tr = bp::generate_frozen_state_transition(); tt *m[4] = {&tr.pc, &tr.stack_size, &tr.memory_size, &tr.curr_gas};
    tt::type kinds[5] = {tt::DEFAULT, tt::ANY, tt::SAME_VALUE, tt::DELTA, tt::NEW_VALUE}; m[i]->t = kinds[k]; m[i]->value = d;
    std::size_t n; bool got = x.holds(tr, n), want = true;
    for (unsigned j = 0; j < 4; j++) if (j != i) want = want & (x.next[j] == x.now[j]);
    V step = neg ? -V(size) : V(size), to = k == 0 ? x.now[i] + V(i == 0 ? 1u : 0u) : k == 2 ? x.now[i] : k == 3 ? x.now[i] + step : step;
    if (k != 1) want = want & (x.next[i] == to);
    SX_ASSERT(n == (k == 1 ? 3u : 4u), "one constraint per variable bound"); SX_ASSERT(got == want, "the constraints hold exactly when the variables move as asked"); SX_REACH("moves");
}
SX_CASE(pc) { moves(0); }
SX_CASE(stack_size) { moves(1); }
SX_CASE(memory_size) { moves(2); }
SX_CASE(gas) { moves(3); }
SX_CASE(usual) {
    St x; bp::zkevm_state_transition tr; std::size_t n; bool got = x.holds(tr, n);
    SX_ASSERT(got == ((x.next[0] == x.now[0] + V(1u)) & (x.next[1] == x.now[1]) & (x.next[2] == x.now[2]) & (x.next[3] == x.now[3])), "by default the counter advances and the rest stays"); SX_REACH("usual");
}
