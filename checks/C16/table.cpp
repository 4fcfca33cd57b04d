// The assignment table: what is written is what is read, nothing else changes, and the row count covers every use.
#include <sx_component.h>
using namespace sxc;
using F = fields::pallas_base_field;
using V = F::value_type;
using A = snark::plonk_constraint_system<F>;
using T = bp::assignment<A>;
using var = snark::plonk_variable<V>;
using ct = var::column_type;

// any three writes to the four kinds of column
static const std::size_t W = 2, P = 2, K = 2, S = 2, R = 3;
static V *cell(T &t, unsigned kind, std::size_t col, std::size_t row) {
    switch (kind) { case 0: return &t.witness(col, row); case 1: return &t.public_input(col, row); case 2: return &t.constant(col, row); default: return &t.selector(col, row); }
}
static void history(unsigned steps, std::size_t rows) {
    T t(W, P, K, S);
    std::map<std::pair<unsigned, std::pair<std::size_t, std::size_t>>, V> model; std::size_t used = 0, size[4][2] = {};
    for (unsigned i = 0; i < steps; i++) {
        unsigned kind = sx::fork(sx::u32(nm("kind", i).c_str(), 0, 3));
        std::size_t col = sx::fork(sx::u64(nm("col", i).c_str(), 0, 1)), row = sx::fork(sx::u64(nm("row", i).c_str(), 0, rows - 1));
        V v = V::input(nm("v", i).c_str());
        *cell(t, kind, col, row) = v; model[{kind, {col, row}}] = v; size[kind][col] = std::max(size[kind][col], row + 1);
        if (kind == 0 || kind == 2) used = std::max(used, row + 1);
    }
    SX_ASSERT(t.allocated_rows() == used, "rows in use cover every witness and constant written");
    const T &ro = t;
    for (unsigned kind = 0; kind < 4; kind++) for (std::size_t col = 0; col < 2; col++) {
        std::size_t n = kind == 0 ? ro.witness_column_size(col) : kind == 1 ? ro.public_input_column_size(col) : kind == 2 ? ro.constant_column_size(col) : ro.selector_column_size(col);
        SX_ASSERT(n == size[kind][col], "a column reaches to the last row written");
        for (std::size_t row = 0; row < n; row++) {
            auto it = model.find({kind, {col, row}}); V want = it == model.end() ? V::zero() : it->second;
            V got = kind == 0 ? ro.witness(col, row) : kind == 1 ? ro.public_input(col, row) : kind == 2 ? ro.constant(col, row) : ro.selector(col, row);
            SX_ASSERT(got == want, "a cell holds what was last written to it, or zero");
            V whole = (kind == 0 ? ro.witness(col) : kind == 1 ? ro.public_input(col) : kind == 2 ? ro.constant(col) : ro.selector(col))[row];
            SX_ASSERT(whole == want, "the column as a whole agrees");
            if (kind < 3 && !(kind == 1 && col)) { ct types[3] = {ct::witness, ct::public_input, ct::constant}; SX_ASSERT(var_value(t, var(col, row, false, types[kind])) == want, "the variable of a cell has its value"); }
        }
    }
    std::size_t most = 0; for (auto &k : size) for (auto n : k) most = std::max(most, n);
    SX_ASSERT(t.max_size() == most, "the longest column");
    SX_REACH("history");
}
SX_CASE(history_2) { history(2, R); }
SX_CASE_THOROUGH(history_3) { history(3, 2); }

// selectors over a range of rows
SX_CASE(selector_range) {
    T t(1, 1, 1, 2);
    std::size_t from = sx::fork(sx::u64("from", 0, 4)), to = sx::fork(sx::u64("to", 0, 9)), step = sx::fork(sx::u64("step", 1, 4)), other = sx::fork(sx::u64("other", 0, 2));
    SX_ASSUME(from <= to);
    t.enable_selector(0, other); t.enable_selector(1, from, to, step);
    std::size_t last = from + (to - from) / step * step;
    SX_ASSERT(t.selector_column_size(1) == last + 1, "the column reaches to the last row enabled");
    for (std::size_t r = 0; r < t.selector_column_size(1); r++) {
        bool on = r >= from && (r - from) % step == 0;
        SX_ASSERT(t.selector(1, r) == (on ? V::one() : V::zero()), "exactly the rows asked for are enabled");
    }
    for (std::size_t r = 0; r < t.selector_column_size(0); r++) SX_ASSERT(t.selector(0, r) == (r == other ? V::one() : V::zero()), "other selectors are left alone");
    SX_ASSERT(t.allocated_rows() >= std::max(last, other) + 1, "rows in use cover every enabled row");
    SX_ASSERT(t.allocated_rows() <= std::max(to, other) + 1, "rows in use do not exceed the range");
    SX_REACH("range");
}
// storage outside the table
SX_CASE(storages) {
    T t(2, 1, 1, 1);
    std::size_t i = sx::fork(sx::u64("i", 0, 3)), j = sx::fork(sx::u64("j", 0, 3)), k = sx::fork(sx::u64("k", 0, 3));
    V a = V::input("a"), b = V::input("b"), c = V::input("c"), d = V::input("d");
    t.private_storage(i) = a; t.shared(0, j) = b; t.private_storage(k) = d; t.witness(0, 0) = c;
    var x = t.add_batch_variable(c), y = t.add_batch_variable(a);
    const T &ro = t;
    SX_ASSERT(ro.private_storage_size() == std::max(i, k) + 1, "private storage grows to the last slot");
    SX_ASSERT(var_value(t, var(T::private_storage_index, i, false, ct::public_input)) == (i == k ? d : a), "a private slot keeps its value");
    SX_ASSERT(var_value(t, var(T::private_storage_index, k, false, ct::public_input)) == d, "the later private slot");
    SX_ASSERT(ro.shared(0, j) == b && ro.shared_column_size(0) == j + 1, "a shared cell keeps its value");
    SX_ASSERT(var_value(t, var(1, j, false, ct::public_input)) == b, "public input columns after the first stand for shared cells");
    SX_ASSERT(!(x == y) && var_value(t, x) == c && var_value(t, y) == a, "batch variables keep their values");
    SX_ASSERT(ro.witness(0, 0) == c && ro.allocated_rows() == 1, "storage takes no rows");
    SX_ASSERT(ro.batch_private_storage_size() == 2, "one slot per batch variable");
    SX_REACH("storages");
}
// constants gathered for placement: one slot per value
SX_CASE(batch_constants) {
    T t(1, 1, 1, 1);
    V v[3] = {V::input("a"), V::input("b"), V::input("c")}; var x[3];
    for (int i = 0; i < 3; i++) x[i] = t.add_batch_constant_variable(v[i]);
    for (int i = 0; i < 3; i++) SX_ASSERT(var_value(t, x[i]) == v[i], "a batched constant keeps its value");
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) SX_ASSERT((x[i] == x[j]) == (v[i] == v[j]), "one slot per value");
    SX_REACH("batch_constants");
}
SX_CASE(clear) {
    T t(1, 1, 1, 1); V a = V::input("a"); std::size_t n = sx::fork(sx::u64("n", 0, 3)), m = sx::fork(sx::u64("m", 0, 4));
    t.private_storage(n) = a; t.resize_private_storage(m);
    SX_ASSERT(t.private_storage_size() == m, "resized");
    if (n < m) SX_ASSERT(static_cast<const T &>(t).private_storage(n) == a, "resizing keeps what fits");
    t.clear_private_storage(); SX_ASSERT(t.private_storage_size() == 0, "cleared");
    SX_REACH("clear");
}
