// The connectedness check against reachability over shared cells: gates on enabled rows, lookups and copy constraints.
#include <sx_component.h>
#include <nil/blueprint/utils/connectedness_check.hpp>
using namespace sxc;
using F = fields::pallas_base_field; using V = F::value_type; using A = snark::plonk_constraint_system<F>;
using C = bp::circuit<A>; using T = bp::assignment<A>; using var = snark::plonk_variable<V>; using ct = var::column_type;
using con = snark::plonk_constraint<F>; using lcon = snark::plonk_lookup_constraint<F>; using kind = bp::connectedness_check_type;
static var w(std::size_t i, int r = 0) { return var(i, r, true, ct::witness); }
static var k(int r = 0) { return var(0, r, true, ct::constant); }
static var cell(std::size_t i, std::size_t r, ct t = ct::witness) { return var(i, r, false, t); }
// cells: three witnesses and a constant per row, then public inputs
static const std::size_t W = 3, P = 2;
struct Graph {
    std::size_t rows, n; std::vector<std::vector<char>> to; std::set<std::size_t> touched;
    Graph(std::size_t r) : rows(r), n(r * (W + 1) + P), to(n, std::vector<char>(n, 0)) { for (std::size_t i = 0; i < n; i++) to[i][i] = 1; }
    std::size_t id(const var &v, std::size_t start) const { return v.type == ct::public_input ? rows * (W + 1) + v.rotation : (v.rotation - start) * (W + 1) + (v.type == ct::constant ? W : v.index); }
    void join(const std::vector<std::size_t> &s) { for (auto a : s) { touched.insert(a); for (auto b : s) to[a][b] = 1; } }
    void close() { for (std::size_t m = 0; m < n; m++) for (std::size_t i = 0; i < n; i++) if (to[i][m]) for (std::size_t j = 0; j < n; j++) if (to[m][j]) to[i][j] = 1; }
};
using refs = std::vector<std::reference_wrapper<var>>;
static void judge(const T &t, const C &c, Graph &g, std::vector<var> in, std::vector<var> out, std::size_t start) {
    g.close(); refs ri(in.begin(), in.end()), ro(out.begin(), out.end()); bool strong = true, weak = true, islands = true; std::vector<std::size_t> a, b;
    for (auto &v : in) a.push_back(g.id(v, start)); for (auto &v : out) b.push_back(g.id(v, start));
    for (auto x : a) { if (!g.to[a[0]][x]) strong = false; bool any = false; for (auto y : b) any |= g.to[x][y]; weak &= any; }
    for (auto y : b) { if (!g.to[a[0]][y]) strong = false; bool any = false; for (auto x : a) any |= g.to[x][y]; weak &= any; }
    for (auto z : g.touched) { bool any = false; for (auto x : a) any |= g.to[x][z]; for (auto y : b) any |= g.to[y][z]; islands &= any; }
    auto ask = [&](kind q) { return bp::check_connectedness<F>(t, c, ri, ro, start, g.rows, q); };
    SX_ASSERT(ask(kind(kind::type::STRONG, kind::island_type::NONE)) == strong, "strong: all inputs and outputs hang together");
    SX_ASSERT(ask(kind(kind::type::WEAK, kind::island_type::NONE)) == weak, "weak: every output hangs on an input and the other way round");
    SX_ASSERT(ask(kind(kind::type::STRONG)) == (strong & islands), "no constrained cell is apart from all inputs and outputs"); SX_ASSERT(ask(kind(kind::type::WEAK)) == (weak & islands), "no constrained cell is apart from all inputs and outputs");
    SX_ASSERT(ask(kind(kind::type::NONE)), "no check asked for");
}
// which gates are on is decided by the values of the selectors
static void by_selectors(std::size_t start, unsigned last) {
    T t(W, 1, 1, 3); C c; Graph g(2); std::size_t s0 = c.add_gate(std::vector<con>{w(0) * w(1) - 3}), s1 = c.add_gate(std::vector<con>{w(1) - k(), w(0, 1) + k() - 1}), s2 = c.add_lookup_gate(std::vector<lcon>{{1, {w(2), w(2) - w(0)}}});
    for (std::size_t r = 0; r < start + 2; r++) { for (std::size_t i = 0; i < W; i++) t.witness(i, r) = V::zero(); t.constant(0, r) = V::zero(); }
    std::size_t s[3] = {s0, s1, s2};
    for (std::size_t i = 0; i < 3; i++) for (std::size_t r = 0; r < 2; r++) {
        if (i == 1 && r == 1) continue;   // reads the next row
        V q = V::input(nm("q", 2 * i + r).c_str()); t.selector(s[i], start + r) = q; if (q == V::zero()) continue; std::size_t o = r * (W + 1);
        g.join(i == 0 ? std::vector<std::size_t>{o, o + 1} : i == 1 ? std::vector<std::size_t>{o + 1, o + W, o + W + 1} : std::vector<std::size_t>{o + 2, o});
    }
    auto copy = [&](var a, var b) { c.add_copy_constraint({a, b}); g.join({g.id(a, start), g.id(b, start)}); };
    copy(cell(0, 0, ct::public_input), cell(0, start)); copy(cell(2, start + 1), cell(0, 1, ct::public_input));
    judge(t, c, g, {cell(0, 0, ct::public_input), cell(0, 1, ct::public_input)}, {cell(last, start + 1)}, start); SX_REACH("selectors");
}
SX_CASE(selectors) { by_selectors(0, 1); }
SX_CASE(selectors_shifted) { by_selectors(3, 0); }
// any two copy constraints besides one gate
static void by_copies(unsigned n) {
    T t(W, 1, 1, 1); C c; Graph g(2); std::size_t s = c.add_gate(std::vector<con>{w(0) - w(1, 1) * k(1)});
    for (std::size_t r = 0; r < 2; r++) { for (std::size_t i = 0; i < W; i++) t.witness(i, r) = V::zero(); t.constant(0, r) = V::zero(); }
    t.enable_selector(s, 0); g.join({0, W + 2, 2 * W + 1});
    for (unsigned j = 0; j < n; j++) {
        auto pick = [&](const char *x) { std::size_t r = sx::fork(sx::u64(nm((std::string(x) + "r").c_str(), j).c_str(), 0, 1)), i = sx::fork(sx::u64(nm((std::string(x) + "c").c_str(), j).c_str(), 0, W + 1)); return i < W ? cell(i, r) : cell(0, r, i == W ? ct::constant : ct::public_input); };
        var a = pick("a"), b = pick("b"); if (a == b) continue; c.add_copy_constraint({a, b}); g.join({g.id(a, 0), g.id(b, 0)});
    }
    judge(t, c, g, {cell(0, 0), cell(0, 0, ct::public_input)}, {cell(2, 1)}, 0); SX_REACH("copies");
}
SX_CASE(copies_1) { by_copies(1); }
SX_CASE_THOROUGH(copies_2) { by_copies(2); }
