// EVM arithmetic rows: the circuit assembled by zkevm_circuit accepts the table filled for any operands, the rows carry
// operands and result in 16 bit chunks, and the result chunks follow from the operand chunks.
#include <sx_component.h>
#include <nil/blueprint/zkevm/zkevm_circuit.hpp>
#include <nil/blueprint/zkevm/zkevm_machine_interface.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using R = Rig<F>; using V = F::value_type; using var = R::var;
using W = bp::zkevm_word_type; using B = boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<256>>;
using op = bp::zkevm_opcode;
static const B full = ~B(0u);
static B word(const char *n) { return B::input(n, full); }
// bits [at, at + len) free, the others as in the pattern
static B window(const char *n, const B &pattern, unsigned at, unsigned len) { B hi = (B(1u) << len) - B(1u); return (pattern & ~(hi << at)) | (B::input(n, hi) << at); }
static V chunk(const B &w, unsigned i) { return V(typename F::integral_type((w >> (16 * i)) & B(0xffffu))); }
struct M {
    R r; bp::zkevm_circuit<F> z; bp::zkevm_machine_interface m;
    M(std::size_t start = 1) : r(0, 1, 0, 0), z(r.t, r.c, start) {}
    std::size_t step(op o, const B &top, const B &below) {
        m.stack.push(W(below)); m.stack.push(W(top)); std::size_t row = z.get_current_row();
        z.assign_opcode(o, m);
        SX_ASSERT(B(m.stack.pop().base_data()) == top, "the operation leaves the operands in place");
        SX_ASSERT(B(m.stack.pop().base_data()) == below, "the operation leaves the operands in place");
        return row;
    }
    V cell(unsigned i, std::size_t row) { return r.t.witness(z.get_opcode_cols()[i], row); }
    void holds(const B &w, std::size_t row, const char *what, unsigned from = 0) { for (unsigned i = 0; i < 16; i++) SX_ASSERT(cell(from + i, row) == chunk(w, i), what); }
    void done() {
        z.finalize_test(); std::size_t n = z.get_current_row() + 1;
        for (std::size_t i = 0; i < r.t.witnesses_amount(); i++) if (r.t.witness_column_size(i) < n) r.t.witness(i, n - 1) = V::zero();
        r.satisfied();
    }
    std::vector<var> row(std::size_t row, unsigned from, unsigned n) { std::vector<var> v; for (unsigned i = 0; i < n; i++) v.emplace_back(z.get_opcode_cols()[from + i], row, false, var::column_type::witness); return v; }
};
SX_CASE(add) { M m; B a = word("a"), b = word("b"); auto row = m.step(op::ADD, a, b); m.holds(a, row, "first"); m.holds(b, row + 1, "second"); m.holds(a + b, row + 2, "sum"); m.done(); SX_REACH("add"); }
SX_CASE(sub) { M m; B a = word("a"), b = word("b"); auto row = m.step(op::SUB, a, b); m.holds(a - b, row, "difference"); m.holds(b, row + 1, "second"); m.holds(a, row + 2, "first"); m.done(); SX_REACH("sub"); }
SX_CASE(iszero) { M m; B a = word("a"), b = word("b"); auto row = m.step(op::ISZERO, a, b); m.holds(a, row, "operand"); SX_ASSERT(m.cell(16, row) == V(a.is_zero() ? 1u : 0u), "flag"); m.done(); SX_REACH("iszero"); }
static B pat(unsigned k) {
    B x(0u), ones = full;
    switch (k) {
        case 0: return x;
        case 1: return ones;
        case 2: return (B(0x123456789abcdef0u) << 190) | (B(0xfedcba9876543210u) << 101) | (B(0xdeadbeefcafebabeu) << 40) | B(0x77u);
        case 3: return (ones >> 128);
        case 4: return (ones << 192);
        default: return (B(0xffffffffffffffffu) << 64);
    }
}
// one operation after another, starting anywhere
SX_CASE(sequence) {
    op ops[] = {op::ADD, op::SUB, op::ISZERO, op::MUL, op::DIV}; unsigned i = sx::fork(sx::u32("first", 0, 4)), j = sx::fork(sx::u32("second", 0, 4));
    std::size_t start = 1 + sx::fork(sx::u32("start", 0, 1)) * 3;
    M m(start); B a = window("a", pat(0), 120, 2), b = B(5u) << 64;
    std::size_t rows[] = {3, 3, 1, 3, 4}, r0 = m.step(ops[i], a, b), r1 = m.step(ops[j], b, a);
    SX_ASSERT(r0 == start && r1 == start + rows[i] && m.z.get_current_row() == r1 + rows[j], "operations take consecutive rows"); m.done(); SX_REACH("sequence");
}
// soundness: operands and instruction given, chunks of 16 bits (the circuit does not range-check them itself yet)
static void sound(op o, B a, B b, unsigned height, std::vector<unsigned> given, unsigned result, unsigned from, unsigned n) {
    M m; auto row = m.step(o, a, b), at = row; m.done(); m.holds(o == op::SUB ? a - b : a, at, "first row"); if (height > 1) { m.holds(b, at + 1, "second row"); m.holds(o == op::ADD ? a + b : o == op::SUB ? a : a * b, at + 2, "third row"); } 
    auto fix = [&](const var &v) { var p = m.r.place(m.r.at(v)); m.r.c.add_copy_constraint({p, v}); };
    for (unsigned g : given) for (auto &v : m.row(row + g, 0, 16)) fix(v);
    R::Goal g; g.outputs = m.row(row + result, from, n);
    std::set<std::size_t> own(m.z.get_opcode_cols().begin(), m.z.get_opcode_cols().end());
    for (std::size_t i = 0; i < m.r.t.witnesses_amount(); i++) if (!own.count(i)) for (std::size_t h = 0; h < m.r.t.witness_column_size(i); h++) { var v(i, h, false, var::column_type::witness); g.pinned.push_back({v, m.r.at(v)}); }
    for (unsigned h = 0; h < height; h++) for (auto &v : m.row(row + h, 0, 20)) g.assumed.push_back({v, F::integral_type(0xffffu)});
    m.r.sound(g, "the result follows from the operands", 60); SX_REACH("sound");
}
SX_CASE(sound_add) { sound(op::ADD, pat(2), pat(1), 3, {0, 1}, 2, 0, 16); }
SX_CASE(sound_sub) { sound(op::SUB, pat(2), pat(1), 3, {1, 2}, 0, 0, 16); }
SX_CASE(sound_mul) { sound(op::MUL, pat(2), pat(1), 3, {0, 1}, 2, 0, 16); }
SX_CASE(sound_iszero) { sound(op::ISZERO, pat(2), pat(1), 1, {0}, 0, 16, 1); }
SX_CASE(sound_iszero_zero) { sound(op::ISZERO, pat(0), pat(1), 1, {0}, 0, 16, 1); }
