// The lookup library: tables have the rows they are named for, reservations number them without gaps.
#include <set>
#include <sx_component.h>
#include <nil/blueprint/lookup_library.hpp>
using namespace sxc;
using F = fields::pallas_base_field;
using V = F::value_type;
using A = snark::plonk_constraint_system<F>;
using C = bp::circuit<A>;
using L = bp::lookup_library<F>;

static const std::vector<std::vector<V>> &rows(C &c, const char *name, const char *sub, std::vector<std::size_t> cols, std::size_t n) {
    c.reserve_table(std::string(name) + "/" + sub);
    auto &all = c.get_reserved_tables();
    SX_ASSERT(all.size() == 1 && all.count(name), "the reserved table is listed");
    auto &t = all.at(name); auto &s = t->subtables.at(sub);
    SX_ASSERT(t->subtables.size() == 1, "only the reserved part is listed");
    SX_ASSERT(s.column_indices == cols, "columns of the part");
    SX_ASSERT(s.begin == 0 && s.end == n - 1, "rows of the part");
    const auto &tab = t->get_table();
    SX_ASSERT(t->get_columns_number() == tab.size() && t->get_rows_number() == tab[0].size(), "declared size");
    for (auto &col : tab) SX_ASSERT(col.size() == n, "every column has every row");
    return tab;
}
// membership in a part of a table, over the columns of the part
static bool in(const std::vector<std::vector<V>> &t, std::vector<V> x) {
    bool r = false; for (std::size_t i = 0; i < t[0].size(); i++) { bool m = true; for (std::size_t j = 0; j < x.size(); j++) m = m & (t[j][i] == x[j]); r = r | m; }
    return r;
}
SX_CASE(xor_table) {
    C c; auto &t = rows(c, "binary_xor_table", "full", {0, 1, 2}, 4); V x = V::input("x"), y = V::input("y"), z = V::input("z");
    bool bits = ((x == V(0)) | (x == V(1))) & ((y == V(0)) | (y == V(1)));
    SX_ASSERT(in(t, {x, y, z}) == (bits & (z == x + y - x * y - x * y)), "exactly the rows of exclusive or"); SX_REACH("xor");
}
SX_CASE(and_table) {
    C c; auto &t = rows(c, "binary_and_table", "full", {0, 1, 2}, 4); V x = V::input("x"), y = V::input("y"), z = V::input("z");
    bool bits = ((x == V(0)) | (x == V(1))) & ((y == V(0)) | (y == V(1)));
    SX_ASSERT(in(t, {x, y, z}) == (bits & (z == x * y)), "exactly the rows of and"); SX_REACH("and");
}
SX_CASE(bytes) {
    C c; auto &t = rows(c, "byte_range_table", "full", {0}, 256); V x = V::input("x");
    SX_ASSERT(in(t, {x}) == (x < V(256)), "exactly the bytes"); SX_REACH("bytes");
}
SX_CASE(chunks) {
    C c; auto &t = rows(c, "chunk_16_bits", "full", {0}, 65536); bool all = true;
    for (std::size_t i = 0; i < t[0].size(); i++) all = all && t[0][i] == V(i);
    SX_ASSERT(all, "the sixteen bit numbers in order"); SX_REACH("chunks");
}
// the instructions, the number of bytes each pushes, and the row that stands for no instruction
static bool known(std::uint64_t op) {
    return (op <= 0x0b) | ((op >= 0x10) & (op <= 0x1d)) | (op == 0x20) | ((op >= 0x30) & (op <= 0x4a)) | ((op >= 0x50) & (op <= 0xa4)) | ((op >= 0xf0) & (op <= 0xf5)) | (op == 0xfa) | (op >= 0xfd);
}
SX_CASE(opcodes) {
    C c; auto &t = rows(c, "zkevm_opcodes", "full", {0, 1, 2}, 150);
    std::uint64_t op = sx::u64("op", 0, 255); V push = V::input("push"), flag = V::input("flag");
    std::uint64_t want = sx::sel((op >= 0x60) & (op <= 0x7f), op - 0x5f, (std::uint64_t)0);
    bool row = (known(op) & (push == V(want)) & (flag == V(1))) | ((op == 0) & (push == V(0)) & (flag == V(0)));
    SX_ASSERT(in(t, {V(op), push, flag}) == row, "instructions with the bytes they push"); SX_REACH("opcodes");
}
SX_CASE(opcodes_only) {
    C c; auto &t = rows(c, "zkevm_opcodes", "opcodes_only", {0}, 150); V x = V::input("x");
    SX_ASSERT(!in(t, {x}) | (x < V(256)), "instructions are bytes"); SX_REACH("opcodes_only");
}
// any sequence of reservations
static void reserve(unsigned steps) {
    C c; const char *names[6] = {"binary_xor_table/full", "zkevm_opcodes/full", "zkevm_opcodes/opcodes_only", "byte_range_table/full", "own", "other"};
    std::map<std::string, std::size_t> want; std::map<std::string, std::set<std::string>> parts; std::set<std::string> dynamic;
    for (unsigned i = 0; i < steps; i++) {
        unsigned k = sx::fork(sx::u32(nm("k", i).c_str(), 0, 5)); std::string n = names[k];
        if (k < 4) { c.reserve_table(n); parts[n.substr(0, n.find('/'))].insert(n.substr(n.find('/') + 1)); } else { c.reserve_dynamic_table(n); dynamic.insert(n); }
        if (!want.count(n)) { std::size_t id = want.size() + 1; want[n] = id; }
        SX_ASSERT(c.get_reserved_indices().size() == want.size() && c.get_reserved_indices_right().size() == want.size(), "one number per reserved table");
        for (auto &w : want) { SX_ASSERT(c.get_reserved_indices().at(w.first) == w.second, "numbers follow the order of reservation and never change"); SX_ASSERT(c.get_reserved_indices_right().at(w.second) == w.first, "and lead back to the table"); }
    }
    auto &all = c.get_reserved_tables(); auto &dyn = c.get_reserved_dynamic_tables();
    SX_ASSERT(all.size() == parts.size() && dyn.size() == dynamic.size(), "exactly the reserved tables are listed");
    for (auto &p : parts) { SX_ASSERT(all.count(p.first), "a reserved table is listed"); SX_ASSERT(all.at(p.first)->subtables.size() == p.second.size(), "its reserved parts"); for (auto &s : p.second) SX_ASSERT(all.at(p.first)->subtables.count(s), "each part"); }
    for (auto &d : dynamic) SX_ASSERT(dyn.count(d) && dyn.at(d)->table_name == d, "a reserved dynamic table is listed");
    SX_REACH("reserve");
}
SX_CASE(reserve_3) { reserve(3); }
SX_CASE_THOROUGH(reserve_4) { reserve(4); }
// a dynamic table keeps the definition it is given
SX_CASE(define) {
    C c; c.reserve_dynamic_table("own"); std::size_t tag = sx::u64("tag", 0, 1000), cols = sx::u64("cols", 1, 50);
    snark::plonk_lookup_table<F> t; t.tag_index = tag; t.columns_number = cols; c.define_dynamic_table("own", t);
    auto d = c.get_dynamic_table_definition("own");
    SX_ASSERT(d->is_defined() && d->lookup_table.tag_index == tag && d->lookup_table.columns_number == cols, "the definition is the one given");
    SX_ASSERT(c.get_reserved_dynamic_tables().at("own")->lookup_table.tag_index == tag, "also through the list of reserved tables");
    SX_REACH("define");
}
