// The bytecode circuit: rows of the table follow the code, satisfy the circuit, and which bytes are instructions is pinned.
#include <sx_component.h>
#include <nil/blueprint/zkevm/bytecode.hpp>
namespace cmp = nil::blueprint::components;
using namespace sxc;
using F = fields::pallas_base_field;
using R = Rig<F>;
using V = F::value_type;
using var = R::var;
using A = R::A;
using C = cmp::plonk_zkevm_bytecode<F>;
using T = cmp::plonk_zkevm_bytecode_table<F>;
using Codes = std::vector<std::vector<V>>;
static bool between(const V &x, unsigned lo, unsigned hi) { return (x >= V(lo)) & (x <= V(hi)); }
static bool instruction(const V &x) {
    return between(x, 0, 0x0b) | between(x, 0x10, 0x1d) | (x == V(0x20)) | between(x, 0x30, 0x4a) | between(x, 0x50, 0xa4) | between(x, 0xf0, 0xf5) | (x == V(0xfa)) | between(x, 0xfd, 0xff);
}
struct Row { V tag, index, value, op, hi, lo, push, left, rlc, challenge; };
// what the rows have to be
static std::vector<Row> expected(const Codes &codes, const V &challenge, bool restrict_codes) {
    std::vector<Row> rows;
    for (std::size_t i = 0; i < codes.size(); i++) {
        V hi(unsigned(100 + i)), lo(unsigned(200 + i)), rest = V::zero(), rlc = V::zero(), n(unsigned(codes[i].size()));
        rows.push_back({V::zero(), V::zero(), n, V::zero(), hi, lo, V::zero(), n, V::zero(), challenge});
        for (std::size_t j = 0; j < codes[i].size(); j++) {
            const V &b = codes[i][j]; bool op = rest == V::zero(), push = between(b, 0x60, 0x7f);
            if (restrict_codes) SX_ASSUME(!op | instruction(b));
            rest = sel(op, sel(push, b - V(0x5f), V::zero()), rest - V::one()); rlc = rlc * challenge + b;
            rows.push_back({V::one(), V(unsigned(j)), b, sel(op, V::one(), V::zero()), hi, lo, rest, V(unsigned(codes[i].size() - j - 1)), rlc, challenge});
        }
    }
    return rows;
}
struct In { std::vector<std::vector<var>> codes; std::vector<std::pair<var, var>> hashes; var challenge; };
static In place(R &r, const Codes &codes, const V &challenge) {
    In in;
    for (std::size_t i = 0; i < codes.size(); i++) {
        std::vector<var> c {r.place(V(unsigned(codes[i].size())))}; for (auto &b : codes[i]) c.push_back(r.place(b));
        in.codes.push_back(c); var hi = r.place(V(unsigned(100 + i))); in.hashes.push_back({hi, r.place(V(unsigned(200 + i)))});
    }
    in.challenge = r.place(challenge); return in;
}
static Codes symbolic(bool deep) {
    // lengths of one or two codes
    static const std::vector<std::vector<unsigned>> shapes = {{0}, {1}, {2}, {1, 1}, {0, 2}, {3}, {2, 1}, {1, 2}, {2, 2}};
    auto &s = shapes[sx::fork(sx::u32("shape", 0, deep ? shapes.size() - 1 : 4))]; Codes c(s.size());
    for (std::size_t i = 0; i < s.size(); i++) for (std::size_t j = 0; j < s[i]; j++) c[i].push_back(R::small(nm(i ? "b" : "a", j), 8));
    return c;
}
static std::size_t size(const Codes &c) { std::size_t n = c.size(); for (auto &x : c) n += x.size(); return n; }
static std::vector<std::vector<V>> rows_of_table(R &r, std::size_t id) {
    std::string full = r.c.get_reserved_indices_right().at(id), name = full.substr(0, full.find('/')), sub = full.substr(full.find('/') + 1);
    auto &def = r.c.get_reserved_tables().at(name); auto &part = def->subtables.at(sub); const auto &tab = def->get_table();
    std::vector<std::vector<V>> rows;
    for (std::size_t i = part.begin; i <= part.end; i++) { std::vector<V> x; for (auto k : part.column_indices) x.push_back(tab[k][i]); rows.push_back(x); }
    return rows;
}
static void lookups_hold(R &r) {
    for (auto &gate : r.c.lookup_gates()) for (std::size_t row = 0; row < r.t.selector_column_size(gate.tag_index); row++) {
        if (r.t.selector(gate.tag_index, row) == V::zero()) continue;
        for (auto &k : gate.constraints) {
            std::vector<V> x;
            for (auto &e : k.lookup_input) { nil::crypto3::math::expression_evaluator<var> ev(e, [&](const var &v) -> V { var a(v.index, v.rotation + (int)row, false, v.type); return r.at(a); }); x.push_back(ev.evaluate()); }
            // rows that differ in consecutive first columns only are joined to intervals
            auto rows = rows_of_table(r, k.table_id);
            std::sort(rows.begin(), rows.end(), [](const std::vector<V> &a, const std::vector<V> &b) { std::vector<V> x(a.begin() + 1, a.end()), y(b.begin() + 1, b.end()); return x == y ? a[0] < b[0] : x < y; });
            bool found = false;
            for (std::size_t i = 0, j; i < rows.size(); i = j) {
                for (j = i + 1; j < rows.size() && rows[j][0] == rows[j - 1][0] + V::one() && std::equal(rows[j].begin() + 1, rows[j].end(), rows[i].begin() + 1); ) j++;
                bool in = (x[0] >= rows[i][0]) & (x[0] <= rows[j - 1][0]); for (std::size_t c = 1; c < x.size(); c++) in = in & (x[c] == rows[i][c]);
                found = found | in;
            }
            SX_ASSERT(found, ("lookup holds on row " + std::to_string(row)).c_str());
        }
    }
}
static std::vector<std::uint32_t> columns(std::size_t n, bool turned) { auto w = seq(n); if (turned) std::reverse(w.begin(), w.end()); return w; }
static const std::vector<std::uint32_t> none;
static void rows_are(R &r, const std::vector<Row> &want, const std::vector<std::uint32_t> &w, bool all) {
    for (std::size_t i = 0; i < want.size(); i++) {
        auto cell = [&](std::size_t k) { return r.t.witness(w[k], r.start + i); }; const Row &x = want[i];
        SX_ASSERT(cell(0) == x.tag, "kind of row"); SX_ASSERT(cell(1) == x.index, "index of the byte"); SX_ASSERT(cell(2) == x.value, "length or byte"); SX_ASSERT(cell(3) == x.op, "whether the byte is an instruction");
        SX_ASSERT((cell(4) == x.hi) & (cell(5) == x.lo), "hash of the code");
        if (all) { SX_ASSERT(cell(C::PUSH_SIZE) == x.push, "data bytes to come"); SX_ASSERT(cell(C::LENGTH_LEFT) == x.left, "bytes to come"); SX_ASSERT(cell(C::VALUE_RLC) == x.rlc, "linear combination of the bytes"); SX_ASSERT(cell(C::RLC_CHALLENGE) == x.challenge, "challenge"); }
    }
}
SX_CASE(table) {
    Codes codes = symbolic(true); V ch = R::input("challenge"); bool turned = sx::fork(sx::b("turned"));
    R r(6, 1, 0, 3, sx::fork(sx::u32("start", 0, 1)) * 2); In in = place(r, codes, ch); auto w = columns(6, turned);
    T comp(w, none, none, size(codes) + 1); T::input_type i(in.codes, in.hashes);
    generate_circuit(comp, r.c, r.t, i, r.start); generate_assignments(comp, r.t, i, r.start);
    rows_are(r, expected(codes, ch, false), w, false);
    auto def = r.c.get_dynamic_table_definition("zkevm_bytecode"); auto &lt = def->lookup_table;
    SX_ASSERT(lt.columns_number == 6 && lt.lookup_options.size() == 1 && lt.lookup_options[0].size() == 6, "six columns");
    for (std::size_t k = 0; k < 6; k++) { auto v = lt.lookup_options[0][k]; SX_ASSERT(v == (decltype(v))(var(w[k], 0, true)), "columns of the table"); }
    for (std::size_t row = 0; row < r.start + comp.rows_amount + 2; row++) {
        V s = row < r.t.selector_column_size(lt.tag_index) ? r.t.selector(lt.tag_index, row) : V::zero();
        SX_ASSERT((s == V::one()) == (row >= r.start && row < r.start + comp.rows_amount), "rows of the table");
    }
    SX_REACH("table");
}
static void build(R &r, const Codes &codes, const V &ch, const std::vector<std::uint32_t> &w, std::size_t spare) {
    In in = place(r, codes, ch); C comp(w, none, none, size(codes) + spare);
    for (auto &kv : comp.component_lookup_tables()) r.c.reserve_table(kv.first);
    C::input_type i(in.codes, in.hashes, in.challenge);
    generate_circuit(comp, r.c, r.t, i, r.start); generate_assignments(comp, r.t, i, r.start);
    for (auto k : w) for (std::size_t row = 0; row < r.start + comp.rows_amount + 1; row++) if (row >= r.t.witness_column_size(k)) r.t.witness(k, row) = V::zero();
    SX_ASSERT(comp.rows_amount == C::get_rows_amount(11, size(codes) + spare), "declared rows");
}
static void values(bool deep) {
    Codes codes = symbolic(deep); V ch = R::input("challenge"); unsigned kind = sx::fork(sx::u32("kind", 0, 1));
    R r(11, 1, 0, 3, 2); auto w = columns(11, kind); auto want = expected(codes, ch, true);
    build(r, codes, ch, w, kind * 2);
    rows_are(r, want, w, true); r.satisfied(); lookups_hold(r);
    SX_REACH("values");
}
SX_CASE(values) { values(false); }
SX_CASE_THOROUGH(values_long) { values(true); }
// kinds, bytes, hashes and the challenge given: the rest is determined
static const std::vector<std::vector<std::vector<unsigned>>> programs = {{{1, 2}}, {{0x60, 1, 2}}, {{0x61, 0x60, 0x60, 0x00}, {0x5f, 0x01}}, {{0x01, 0x62, 5, 0x61}, {0x62, 1, 2, 3, 4}}, {{}, {0x7f, 0, 1}}, {{0x5f, 0x60, 0x80, 0xff}}};
SX_CASE(sound) {
    auto &p = programs[sx::fork(sx::u32("program", 0, programs.size() - 1))]; Codes codes;
    for (auto &x : p) { codes.emplace_back(); for (auto b : x) codes.back().push_back(V(b)); }
    R r(11, 1, 0, 3, 2); auto w = columns(11, false); build(r, codes, V(7u), w, 1); auto want = expected(codes, V(7u), false);
    r.table_rows = [&](std::size_t id) { return rows_of_table(r, id); };
    R::Goal g;
    for (std::size_t i = 0; i <= want.size(); i++) {
        for (std::size_t k : {(std::size_t)0, (std::size_t)2, (std::size_t)C::RLC_CHALLENGE}) { var v(w[k], r.start + i, false); g.pinned.push_back({v, r.at(v)}); }
        if (i == want.size()) continue;
        for (std::size_t k : {(std::size_t)1, (std::size_t)3, (std::size_t)C::VALUE_RLC, (std::size_t)C::LENGTH_LEFT}) g.outputs.push_back(var(w[k], r.start + i, false));
    }
    r.sound(g, "index, instruction flag and linear combination are determined by the code");
    SX_REACH("sound");
}
